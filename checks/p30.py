"""P30: generated producers and consumers understand each other, in any mix of languages."""
import interop as I
import wflab as F
from common import main


def check(ctx):
    ctx.rule = ("a case is a history of a producer and two or three consumers of both languages over a transport that cuts and delays bytes; "
                "non-trivial with consumers of both languages ready, two answered calls and a received broadcast")
    lab = F.WLab(ctx)
    both = list(I.LANGS)
    F.run_workflows(ctx, lab, F.ts_workflows(ctx, ctx.pick(14, 64), producer=both, consumer=both), I.prop(
        I.IOpts(), ctx.pick(90, 300), lambda s, h: s.get("ready: rust") and s.get("ready: typescript") and
        s.get("answered", 0) >= 2 and s.get("broadcasts received", 0) >= 1))


main("P30", check)

"""P19: calls of the Rust consumer."""
import wfcons as C
import wflab as F
from common import main


def check(ctx):
    ctx.rule = ("a case is a history of calls, of answers in any order and chunking, broadcasts, timeouts, abandoned calls; "
                "non-trivial with two answered calls or a call answered too late")
    lab = F.WLab(ctx)
    o = C.COpts(steps=34, ends=5, good=12)
    F.run_workflows(ctx, lab, F.draw_workflows(ctx, ctx.pick(16, 96), salt=19), F.consumer_prop(
        o, ctx.pick(90, 400), lambda s, h: s.get("answered", 0) + s.get("beacon confirmed", 0) >= 2 or s.get("late response"),
        many=ctx.pick(66000, 400000)))


main("P19", check)

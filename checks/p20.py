"""P20: handshake and life cycle of the Rust consumer."""
import wfcons as C
import wflab as F
from common import main


def check(ctx):
    ctx.rule = ("a case is a history of handshakes (right, refused, wrong, interleaved with broadcasts), endings, reconnections; "
                "non-trivial with a completed handshake and an ending on the way, or with a broken handshake")
    lab = F.WLab(ctx)
    o = C.COpts(steps=26, ends=0, good=1)
    F.run_workflows(ctx, lab, F.draw_workflows(ctx, ctx.pick(16, 96), salt=20), F.consumer_prop(
        o, ctx.pick(120, 500), lambda s, h: s.get("handshake") and (s.get("reconnected") or s.get("ended early")) or s.get("handshake failed")))


main("P20", check)

"""P17: the Rust producer lets no message through before the handshake, and deals with offenders as configured."""
import pmodel as P
import wflab as F
from common import main

REFUSED = ("refused: hash", "refused: no hash or key", "refused: not assigned", "rush: too early", "unreadable")


def check(ctx):
    ctx.rule = ("a case is a history of clients which follow the handshake, skip or break it, with every strategy for unassigned clients and for errors; "
                "non-trivial with a refusal and a handler called")
    lab = F.WLab(ctx)
    o = P.HOpts(strategies=True, handshake=5, server_events=False, steps=20, users=4)
    o.modes = ["static", "ident"]
    F.run_workflows(ctx, lab, F.draw_workflows(ctx, ctx.pick(16, 96), salt=17), F.producer_prop(
        o, ctx.pick(130, 400), lambda s, h: any(s.get(k) for k in REFUSED) and (s.get("requests answered") or s.get("beacons"))))


main("P17", check)

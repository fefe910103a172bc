"""P18: events, beacons, identification and the life cycle of the Rust producer."""
import pmodel as P
import wf as W
import wflab as F
from common import main


def check(ctx):
    ctx.rule = ("a case is a history with emitted events, beacons, changes of keys by handlers, errors of the transport, and one of eight endings; "
                "non-trivial with an event, a changed key or a beacon")
    lab = F.WLab(ctx)
    o = P.HOpts(strategies=False, handshake=8, server_events=True, steps=24, users=4)
    o.modes = ["events", "ident"]
    F.run_workflows(ctx, lab, F.draw_workflows(ctx, ctx.pick(16, 96), W.WOpts(max_reqs=2, max_evs=4), salt=18), F.producer_prop(
        o, ctx.pick(80, 300), lambda s, h: s.get("events") or s.get("beacons") or s.get("changed keys")))


main("P18", check)

"""P25: events, beacons, identification and the life cycle of the TypeScript producer."""
import pmodel as P
import wflab as F
from common import main


def check(ctx):
    ctx.rule = ("a case is a history with emitted events, beacons, changes of keys by handlers, errors of the transport, and one of three endings; "
                "non-trivial with an event, a changed key or a beacon")
    lab = F.WLab(ctx, rust=False)
    o = P.HOpts(strategies=False, handshake=8, server_events=True, steps=24, users=4)
    o.modes = ["events", "ident"]
    F.run_workflows(ctx, lab, F.ts_workflows(ctx, ctx.pick(40, 160), max_reqs=2, max_evs=4, salt=32), F.ts_producer_prop(
        o, ctx.pick(150, 700), lambda s, h: s.get("events") or s.get("beacons") or s.get("changed keys")))


main("P25", check)

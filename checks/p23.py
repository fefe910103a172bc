"""P23: the TypeScript producer answers every request once, and sends the broadcasts it was told to send."""
import pmodel as P
import wflab as F
from common import main


def check(ctx):
    ctx.rule = ("a case is a history of connections, chunks of messages (cut and joined at will), scripted handlers (some answer late, some misuse their interface) and failing sends; "
                "non-trivial with two answered requests and a delivered broadcast")
    lab = F.WLab(ctx, rust=False)
    o = P.HOpts(mode="static", strategies=False, handshake=8, server_events=False, steps=26, users=3)
    F.run_workflows(ctx, lab, F.ts_workflows(ctx, ctx.pick(40, 160), salt=30), F.ts_producer_prop(
        o, ctx.pick(150, 700), lambda s, h: s.get("requests answered", 0) >= 2 and s.get("broadcasts delivered", 0) >= 1))


main("P23", check)

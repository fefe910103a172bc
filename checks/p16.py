"""P16: the Rust producer answers every request once, and sends the broadcasts it was told to send."""
import pmodel as P
import wflab as F
from common import main


def check(ctx):
    ctx.rule = ("a case is a history of connections, chunks of messages (cut and joined at will), scripted answers of handlers and failing sends; "
                "non-trivial with two answered requests and a delivered broadcast")
    lab = F.WLab(ctx)
    o = P.HOpts(mode="static", strategies=False, handshake=8, server_events=False, steps=26, users=3)
    F.run_workflows(ctx, lab, F.draw_workflows(ctx, ctx.pick(16, 96)), F.producer_prop(
        o, ctx.pick(70, 300), lambda s, h: s.get("requests answered", 0) >= 2 and s.get("broadcasts delivered", 0) >= 1))


main("P16", check)

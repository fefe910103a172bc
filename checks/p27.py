"""P27: handshake, ends of connections, reconnection and the global instance of the TypeScript consumer."""
import tscons as N
import wflab as F
from common import main


def check(ctx):
    ctx.rule = ("a case is a history of connections with handshakes that succeed, fail or break off, calls in between, and the end of the consumer; "
                "non-trivial with a finished handshake and calls which ended with a connection, a refused handshake or half a message lost")
    lab = F.WLab(ctx, rust=False)
    o = N.COpts(ends=0, good=2, shake=9)
    F.run_workflows(ctx, lab, F.ts_workflows(ctx, ctx.pick(40, 160), salt=41), F.ts_consumer_prop(
        o, ctx.pick(150, 700), lambda s, h: s.get("ready") and (s.get("calls ended with the connection") or s.get("handshake refused") or s.get("part of a message is lost"))))


main("P27", check)

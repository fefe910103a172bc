"""P26: calls of the TypeScript consumer end with their own answers or an error, broadcasts reach their subscribers."""
import tscons as N
import wflab as F
from common import main


def check(ctx):
    ctx.rule = ("a case is a history of calls (some made by subscribers, sent again or destroyed), answers in any order, broadcasts, unreadable data, ways to cut it and a failing transport; "
                "non-trivial with two answered calls and a broadcast")
    lab = F.WLab(ctx, rust=False)
    o = N.COpts(ends=6, good=99, steps=30)
    F.run_workflows(ctx, lab, F.ts_workflows(ctx, ctx.pick(40, 160), salt=40), F.ts_consumer_prop(
        o, ctx.pick(150, 700), lambda s, h: s.get("answered", 0) + s.get("beacon confirmed", 0) >= 2 and s.get("broadcast"),
        many=ctx.pick(66000, 400000)))


main("P26", check)

"""P06: the TypeScript reader under any chunking."""
from hypothesis import strategies as hs

import lab as L
import schema as S
import streams as T
from common import Violation, hyp, main
from tsgen import captured


def prop(s, b, rec, seed):
    def test(x):
        (ps, steps), kinds = x
        rp = T.replay(b, ps, steps)
        out, _ = L.guarded(lambda: b.tsd.stream(steps, kinds=kinds), "reader", rp)
        rec.case(str(s) + repr(rp["steps"]), T.nontrivial(ps, steps), lambda: T.show(ps, steps))
        T.check_run("TypeScript", ps, steps, out, rp)

    hyp(hs.tuples(T.scripts(s), hs.lists(hs.integers(0, 2), min_size=1, max_size=4)), test, N, seed)

    def many(x):
        n, p = x
        ps = [p] * n
        steps = [p[1] * n] + [None] * 3
        rp = {"prot": b.text, "message": p[1].hex(), "times": n}
        out, _ = L.guarded(lambda: b.tsd.stream(steps), f"reader of {n} messages in a chunk", rp)
        rec.case(repr((n, p[1])), True)
        T.check_run("TypeScript", ps, steps, out, rp)

    small = T.pieces(s, bad=False).filter(lambda p: len(p[1]) < 60)
    try:
        hyp(hs.tuples(hs.integers(2000, 6000), small), many, 2, seed, shrink=False)
    except Exception as e:
        if "Unsatisfiable" not in type(e).__name__:
            raise


def check(ctx):
    global N
    N = ctx.pick(80, 500)
    ctx.rule = ("a case is a stream of packages (valid, of a wrong signature, of an unknown identifier, with an unreadable body), "
                "its cut into chunks (given as Buffer, ArrayBuffer or Uint8Array) and the points where messages are taken; "
                "non-trivial with two packages and two chunks")
    lab = L.Lab(ctx, rust=False, ts=True)
    L.run_schemas(ctx, lab, L.draw_schemas(ctx, ctx.pick(32, 160), S.Opts(max_items=4), keep=lambda s: not captured(s)), prop)


main("P06", check)

"""P02: TypeScript round trip."""
from hypothesis import strategies as hs

import grid
import lab as L
import schema as S
from common import Violation, hyp, main
from tsgen import captured


def prop(s, b, rec, seed):
    def test(x):
        (t, v), v2, v3 = x
        w = S.W(t, v)
        rp = {"prot": b.text, "type": ".".join(t.path), "value": repr(v), "w": w.hex()}
        ok, e = L.guarded(lambda: b.tsd.enc(t, w), "encode", rp)
        rec.case(str(s) + str(t.path) + w.hex(), ok and L.rich(t, e), lambda: L.show_case(t, v))
        if not ok:
            raise Violation("encode-refused", f"encode of {L.show_case(t, v)} failed: {e}", rp)
        rp["encoded"] = e.hex()
        ok, d, _ = L.guarded(lambda: b.tsd.dec(t, e), "decode of encoded value", rp)
        if not ok:
            raise Violation("decode-refused", f"decode of the encoded {L.show_case(t, v)} failed: {d}", rp)
        if d != w:
            raise Violation("changed", f"{L.show_case(t, v)} came back as {S.show(S.RW(t, d))}", rp)
        # a plain object goes through validation (which refuses NaN and infinities by design)
        ok, e2 = L.guarded(lambda: b.tsd.from_obj(t, w), "from(object)", rp)
        if not ok and not finite(v):
            e2 = e
        elif not ok:
            raise Violation("validate-refused", f"from() refuses {L.show_case(t, v)}: {e2}", rp)
        if e2 != e:
            raise Violation("from-changed", f"from() of {L.show_case(t, v)} encodes to other bytes", rp)
        # a second value decoded into the same instance leaves nothing of the first
        w2 = S.W(t, v2)
        ok, eb = L.guarded(lambda: b.tsd.enc(t, w2), "encode", rp)
        rp["second"] = repr(v2)
        ok, d = L.guarded(lambda: b.tsd.dec_twice(t, e, eb), "decode twice", rp)
        if not ok or d != w2:
            raise Violation("stale-decode", f"decoding {S.show(v2)} into an instance that held {S.show(v)} gives {S.show(S.RW(t, d)) if ok else d}", rp)
        # fields assigned after decoding are what is encoded
        if t.kind == "struct":
            ok, em = L.guarded(lambda: b.tsd.mutate(t, e, w2), "assign and encode", rp)
            if not ok or em != eb:
                raise Violation("stale-encode", f"{'.'.join(t.path)}: assigning {S.show(v2)} over {S.show(v)} and encoding gives other bytes ({em if not ok else ''})", rp)
            for how, (ok, em) in zip(("a decoded value", "the defaults", "the defaults once more"), L.guarded(lambda: b.tsd.edit(t, e, w2), "edit and encode", rp)):
                if not ok or em != eb:
                    raise Violation("shared", f"{'.'.join(t.path)}: {S.show(v2)} reached by changes of {how} (from {S.show(v)}) gives {em.hex()[:200] if ok else em} instead of {eb.hex()[:200]}", rp)
        # message path
        seq = len(e) * 7 + t.idx
        ok, p = L.guarded(lambda: b.tsd.pack(t, w, seq), "pack", rp)
        if not ok:
            raise Violation("pack-refused", f"pack of {L.show_case(t, v)} failed: {p}", rp)
        out, _ = L.guarded(lambda: b.tsd.stream([p, None, None], kinds=[seq]), "read of a packed message", rp)
        m = out[1][1]
        if m is None or m["type"] != t.idx or m["w"] != w or m["seq"] != seq or out[2][1] is not None:
            raise Violation("packed", f"a packed {L.show_case(t, v)} is read as {m}", rp)

    if grid.on(s):
        last = {}
        for t, v in grid.cases(s):
            test(((t, v), last.get(t, v), v))
            last[t] = v
        return
    vo = S.VOpts(unset=True)
    cache = {}
    ts = [t for t in s.types if t.kind == "struct" or t.variants]
    st = hs.one_of(*[hs.tuples(hs.tuples(hs.just(t), S.values(t, vo, cache)), S.values(t, vo, cache), S.values(t, vo, cache))
                     for t in ts])
    hyp(st, test, N, seed)


def finite(v):
    if isinstance(v, (tuple, list)):
        return all(finite(x) for x in v)
    return not isinstance(v, float) or (v == v and abs(v) != float("inf"))


def known(ctx, lab):
    b_ = S.Struct("B", [])
    a = S.Struct("A", [S.Field("s", "str", False, True), S.Field("l", "u8", True, True),
                       S.Field("b", S.Ref(b_, ["B"]), False, True)])
    s = S.Schema([b_, a])

    def fn(s, b, rec, seed):
        for val, what, k in (("", "str", 0), ([], "array", 1), ((), "struct", 2)):
            full = [None, None, None]
            full[k] = val
            w = S.W(s.types[1], tuple(full))
            ok, e = b.tsd.enc(s.types[1], w)
            ok, d, _ = b.tsd.dec(s.types[1], e)
            rec.case(w.hex(), False)
            if d != w:
                rec.viol.append(Violation("some-empty-" + what, f"a present, empty optional {what} comes back as undefined"))

    L.run_schemas(ctx, lab, [s], fn)


def check(ctx):
    global N
    N = ctx.pick(60, 300)
    ctx.rule = ("a case is a (schema, type, value) with a second value of the type; non-trivial when the encoding carries "
                "data and the type has more than one plain field (or is an enum with a payload)")
    ctx.assumptions = ["esbuild erases types faithfully; node 22 runs the module",
                       "documents in which TypeScript's own name lookup captures a reference, and arrays of structs in enum "
                       "variants, are left to the listed findings of P11"]
    lab = L.Lab(ctx, rust=False, ts=True)
    schemas = L.draw_schemas(ctx, ctx.pick(40, 240), S.Opts(), keep=lambda s: not captured(s))
    L.run_schemas(ctx, lab, grid.schemas() + schemas, prop)
    known(ctx, lab)


main("P02", check)

"""P01: native round trip."""
import grid
import lab as L
import schema as S
from common import Violation, hyp, main

FINDING = "struct A {\n    str s?;\n    u8[] l?;\n    B b?;\n}\n"


def prop(s, b, rec, seed):
    def test(tv):
        t, v = tv
        w = S.W(t, v)
        rp = {"prot": b.text, "type": ".".join(t.path), "value": repr(v), "w": w.hex()}
        ok, e = L.guarded(lambda: b.rs.enc(t, w), "encode", rp)
        rec.case(str(s) + str(t.path) + w.hex(), ok and L.rich(t, e), lambda: L.show_case(t, v))
        if not ok:
            raise Violation("encode-refused", f"encode of {L.show_case(t, v)} failed: {e}", rp)
        rp["encoded"] = e.hex()
        ok, d, _ = L.guarded(lambda: b.rs.dec(t, e), "decode of encoded value", rp)
        if not ok:
            raise Violation("decode-refused", f"decode of the encoded {L.show_case(t, v)} failed: {d}", rp)
        if d != w:
            raise Violation("changed", f"{L.show_case(t, v)} came back as {S.show(S.RW(t, d))}", rp)
        ok, e2 = L.guarded(lambda: b.rs.reenc(t, e), "decode and encode", rp)
        if not ok or e2 != e:
            raise Violation("reencode", f"decode then encode of {L.show_case(t, v)} gives other bytes", rp)
        # through the message path: pack, reader, dispatch
        seq = len(e) * 7 + t.idx
        ok, p = L.guarded(lambda: b.rs.pack(t, w, seq), "pack", rp)
        if not ok:
            raise Violation("pack-refused", f"pack of {L.show_case(t, v)} failed: {p}", rp)
        out, _ = L.guarded(lambda: b.rs.stream([p, None, None]), "read of a packed message", rp)
        m = out[1][1]
        if m is None or m["type"] != t.idx or m["w"] != w or m["seq"] != seq or out[2][1] is not None:
            raise Violation("packed", f"a packed {L.show_case(t, v)} is read as {m}", rp)

    if grid.on(s):
        for tv in grid.cases(s):
            test(tv)
    else:
        hyp(L.typed_values(s), test, N, seed)


def empty_some(ctx, lab):
    """Known: a present optional whose encoding has no bytes comes back as absent."""
    b_ = S.Struct("B", [])
    a = S.Struct("A", [S.Field("s", "str", False, True), S.Field("l", "u8", True, True),
                       S.Field("b", S.Ref(b_, ["B"]), False, True)])
    s = S.Schema([b_, a])

    def fn(s, b, rec, seed):
        for v in ((("",), ("str", 0)), (([],), ("array", 1)), (((),), ("struct", 2))):
            val, (what, k) = v[0][0], v[1]
            full = [None, None, None]
            full[k] = val
            w = S.W(s.types[1], tuple(full))
            ok, e = b.rs.enc(s.types[1], w)
            ok, d, _ = b.rs.dec(s.types[1], e)
            rec.case(w.hex(), False)
            if d != w:
                rec.viol.append(Violation("some-empty-" + what, f"a present, empty optional {what} comes back as absent"))

    L.run_schemas(ctx, lab, [s], fn)


def check(ctx):
    global N
    N = ctx.pick(100, 500)
    ctx.rule = ("a case is a (schema, type, value); non-trivial when the encoding carries data and the type has more "
                "than one plain field (or is an enum with a payload); distinct by schema, type and value")
    ctx.assumptions = ["rustc 1.75 (the pinned toolchain) compiles the driver faithfully",
                       "a present optional with an empty encoding is covered by the listed findings only"]
    lab = L.Lab(ctx, rust=True)
    schemas = L.draw_schemas(ctx, ctx.pick(40, 240), S.Opts(enum_struct_arr=True))
    L.run_schemas(ctx, lab, grid.schemas() + schemas, prop)
    empty_some(ctx, lab)


main("P01", check)

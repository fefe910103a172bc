"""P03: native and TypeScript code agree on the wire, with each other and with the documented layout."""
import time

from hypothesis import strategies as hs

import grid
import lab as L
import schema as S
from common import Violation, hyp, main
from tsgen import captured


def prop(s, b, rec, seed):
    def test(tv):
        (t, v), seq, uuid = tv
        w = S.W(t, v)
        ref = S.encode(t, v)
        rp = {"prot": b.text, "type": ".".join(t.path), "value": repr(v), "w": w.hex(), "expected": ref.hex()}
        rec.case(str(s) + str(t.path) + w.hex(), L.rich(t, ref), lambda: L.show_case(t, v))
        for name, d in (("native", b.rs), ("TypeScript", b.tsd)):
            ok, e = L.guarded(lambda: d.enc(t, w), name + " encode", rp)
            if not ok:
                raise Violation("encode-refused", f"{name} encode of {L.show_case(t, v)} failed: {e}", rp)
            if e != ref:
                raise Violation("layout-" + name[:2].lower(), f"{name} encodes {L.show_case(t, v)} as {e.hex()[:400]}, the wire format says {ref.hex()[:400]}", rp)
            now = time.time()
            ok, p = L.guarded(lambda: d.pack(t, w, seq, uuid), name + " pack", rp)
            if not ok or len(p) < S.HEADER or p[S.HEADER:] != ref:
                raise Violation("package-" + name[:2].lower(), f"{name} packs {L.show_case(t, v)} as {p if not ok else p.hex()[:400]}, the body should be {ref.hex()[:400]}", rp)
            h = S.unheader(p)
            if not abs(h.pop("ts") / 1000 - now) < 600:
                raise Violation("timestamp", f"{name}: the timestamp in the header {p[:S.HEADER].hex()} isn't the time of packing in milliseconds", rp)
            if h != dict(id=t.id, sig=0, seq=seq, len=len(ref)):
                raise Violation("header-" + name[:2].lower(), f"{name}: header of {L.show_case(t, v)} with sequence {seq} says {h}", rp)
            ok, x, _ = L.guarded(lambda: d.dec(t, ref), name + " decode", rp)
            if not ok or x != w:
                raise Violation("decode-" + name[:2].lower(), f"{name} decodes {ref.hex()[:400]} as {S.show(S.RW(t, x)) if ok else x} instead of {L.show_case(t, v)}", rp)

    if grid.on(s):
        for i, tv in enumerate(grid.cases(s)):
            test((tv, i, None))
        return
    hyp(hs.tuples(L.typed_values(s), hs.one_of(hs.integers(0, 20), hs.integers(0, 2**32 - 1)), hs.sampled_from([None, "", "u-1"])), test, N, seed)


def check(ctx):
    global N
    N = ctx.pick(70, 300)
    ctx.rule = ("a case is a (schema, type, value), encoded and decoded by both targets and compared with an independent "
                "encoder of the wire format; non-trivial when the encoding carries data and the type has more than one "
                "plain field (or is an enum with a payload)")
    ctx.assumptions = ["the reference encoder in lib/schema.py states the wire format"]
    lab = L.Lab(ctx, rust=True, ts=True)
    schemas = L.draw_schemas(ctx, ctx.pick(32, 200), S.Opts(), keep=lambda s: not captured(s))
    L.run_schemas(ctx, lab, grid.schemas() + schemas, prop)


main("P03", check)

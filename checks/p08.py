"""P08: hostile bytes and TypeScript code."""
from hypothesis import strategies as hs

import hostile as H
import lab as L
import schema as S
from common import Violation, hyp, main
from tsgen import captured


def prop(s, b, rec, seed):
    def test(x):
        t, raw, ops = x
        rp = {"prot": b.text, "type": ".".join(t.path), "bytes": raw.hex(), "made": ops}
        ok, w = L.guarded(lambda: b.tsd.from_bytes(t, raw), f"from({len(raw)} broken bytes) of {'.'.join(t.path)} ({ops})", rp)
        rec.case(str(t.path) + str(s) + raw.hex(), ops != ["random"], lambda: f"{'.'.join(t.path)} <- {raw.hex()[:100]} ({'; '.join(ops)}): {'accepted' if ok else w}")
        rec.count("accepted" if ok else "refused")
        if not ok:
            return
        if w.startswith(b"\xff\xff") and t.kind == "enum":
            raise Violation("not-a-value", f"{ops}: accepted as a value without a variant", rp)
        ok, e = L.guarded(lambda: b.tsd.enc(t, w), "encode of an accepted value", rp)
        if not ok:
            raise Violation("not-encodable", f"{ops}: accepted, but does not encode: {e}", rp)
        ok, w2 = L.guarded(lambda: b.tsd.from_bytes(t, e), "decode of an accepted value", rp)
        if not ok or w2 != w:
            v = S.RW(t, w)
            if ok and S.encode(t, v) == S.encode(t, S.RW(t, w2)):
                return        # a present, empty optional: listed under P02
            raise Violation("unstable", f"{ops}: accepted as {S.show(v)}, but after encoding it is {S.show(S.RW(t, w2)) if ok else w2}", rp)

    hyp(H.cases(s), test, N, seed)

    def cut(x):
        t, v, k = x
        e, _ = H.spans(t, v)
        c = k % len(e)
        rp = {"prot": b.text, "type": ".".join(t.path), "bytes": e[:c].hex(), "whole": e.hex()}
        ok, w = L.guarded(lambda: b.tsd.from_bytes(t, e[:c]), "decode of a truncated encoding", rp)
        rec.case("cut" + str(t.path) + str(s) + e[:c].hex(), True)
        if ok:
            raise Violation("cut-accepted", f"{c} of {len(e)} bytes of {L.show_case(t, v)} are taken for {S.show(S.RW(t, w))}", rp)

    full = [t for t in s.types if t.kind == "struct" and t.fields]
    if full:
        hyp(hs.one_of(*[hs.tuples(hs.just(t), S.values(t), hs.integers(0, 2**20)) for t in full]), cut, N // 3, seed + 1)

    def long(x):
        """A length beyond the end of the bytes is never taken for a shorter one."""
        if x is None:
            return
        t, raw, ops = x
        rp = {"prot": b.text, "type": ".".join(t.path), "bytes": raw.hex(), "made": ops}
        ok, w = L.guarded(lambda: b.tsd.from_bytes(t, raw), f"decode of a length beyond the end of the bytes ({ops})", rp)
        rec.case("long" + str(t.path) + str(s) + raw.hex(), True)
        if ok:
            raise Violation("overlong-accepted", f"{'.'.join(t.path)}: {ops} is accepted as {S.show(S.RW(t, w))}", rp)

    hyp(H.overlong(s), long, N // 3, seed + 3)

    def feed(x):
        (chunks, ops), (t, v) = x
        rp = {"prot": b.text, "chunks": [c.hex() for c in chunks], "made": ops}
        steps = []
        for c in chunks:
            steps += [c, None]
        steps += [None] * 6
        out, _ = L.guarded(lambda: b.tsd.stream(steps), f"reader of a broken stream ({ops})", rp)
        n = sum(len(c) for c in chunks)
        rec.case("stream" + str(s) + repr(chunks), True, lambda: f"stream of {n} bytes: {ops}")
        got = sum(1 for o in out if o[0] == "next" and o[1])
        if 26 * got > n:
            raise Violation("invented", f"{got} messages out of {n} bytes", rp)

    hyp(hs.tuples(H.streams(s), L.typed_values(s)), feed, N // 2, seed + 2)


def check(ctx):
    global N
    N = ctx.pick(150, 1200)
    ctx.rule = ("a case is a type and bytes made from a valid encoding by changes of its lengths, identifiers, ranks and indexes, cuts, "
                "tails, duplications (or random), or a stream with such packages; non-trivial unless purely random; distinct by bytes")
    lab = L.Lab(ctx, rust=False, ts=True)
    L.run_schemas(ctx, lab, L.draw_schemas(ctx, ctx.pick(32, 160), S.Opts(max_items=5), keep=lambda s: not captured(s)), prop)


main("P08", check)

"""P07: hostile bytes and native code."""
from hypothesis import strategies as hs

import hostile as H
import lab as L
import schema as S
from common import Violation, hyp, main


def limit(n):
    return 1_000_000 + 1024 * n


def prop(s, b, rec, seed):
    def test(x):
        t, raw, ops = x
        rp = {"prot": b.text, "type": ".".join(t.path), "bytes": raw.hex(), "made": ops}
        ok, w, m = L.guarded(lambda: b.rs.dec(t, raw), f"decode of {len(raw)} broken bytes as {'.'.join(t.path)} ({ops})", rp)
        rec.case(str(t.path) + str(s) + raw.hex(), ops != ["random"], lambda: f"{'.'.join(t.path)} <- {raw.hex()[:100]} ({'; '.join(ops)}): {'accepted' if ok else w}")
        rec.count("accepted" if ok else "refused")
        if m > limit(len(raw)):
            raise Violation("memory", f"decode of {len(raw)} bytes as {'.'.join(t.path)} asks for {m} bytes at once ({ops})", rp)
        if not ok:
            return
        # what is accepted is a value: it encodes, and comes back the same
        if w.startswith(b"\xff\xff") and t.kind == "enum":
            raise Violation("not-a-value", f"{ops}: accepted as a value outside of the type", rp)
        ok, e = L.guarded(lambda: b.rs.enc(t, w), "encode of an accepted value", rp)
        if not ok:
            raise Violation("not-encodable", f"{ops}: accepted, but does not encode: {e}", rp)
        ok, w2, _ = L.guarded(lambda: b.rs.dec(t, e), "decode of an accepted value", rp)
        if not ok or w2 != w:
            v = S.RW(t, w)
            if ok and S.encode(t, v) == S.encode(t, S.RW(t, w2)):
                return        # a present, empty optional: listed under P01
            raise Violation("unstable", f"{ops}: accepted as {S.show(v)}, but after encoding it is {S.show(S.RW(t, w2)) if ok else w2}", rp)

    hyp(H.cases(s), test, N, seed)

    def cut(x):
        """A struct cut short is never taken for a whole one."""
        t, v, k = x
        e, _ = H.spans(t, v)
        c = k % len(e)
        rp = {"prot": b.text, "type": ".".join(t.path), "bytes": e[:c].hex(), "whole": e.hex()}
        ok, w, _ = L.guarded(lambda: b.rs.dec(t, e[:c]), "decode of a truncated encoding", rp)
        rec.case("cut" + str(t.path) + str(s) + e[:c].hex(), True)
        if ok:
            raise Violation("cut-accepted", f"{c} of {len(e)} bytes of {L.show_case(t, v)} are taken for {S.show(S.RW(t, w))}", rp)

    full = [t for t in s.types if t.kind == "struct" and t.fields]
    if full:
        hyp(hs.one_of(*[hs.tuples(hs.just(t), S.values(t), hs.integers(0, 2**20)) for t in full]), cut, N // 3, seed + 1)

    def long(x):
        """A length beyond the end of the bytes is never taken for a shorter one."""
        if x is None:
            return
        t, raw, ops = x
        rp = {"prot": b.text, "type": ".".join(t.path), "bytes": raw.hex(), "made": ops}
        ok, w, _ = L.guarded(lambda: b.rs.dec(t, raw), f"decode of a length beyond the end of the bytes ({ops})", rp)
        rec.case("long" + str(t.path) + str(s) + raw.hex(), True)
        if ok:
            raise Violation("overlong-accepted", f"{'.'.join(t.path)}: {ops} is accepted as {S.show(S.RW(t, w))}", rp)

    hyp(H.overlong(s), long, N // 3, seed + 3)

    def feed(x):
        chunks, ops = x
        rp = {"prot": b.text, "chunks": [c.hex() for c in chunks], "made": ops}
        steps = []
        for c in chunks:
            steps += [c, None]
        steps += [None] * 6
        out, m = L.guarded(lambda: b.rs.stream(steps), f"reader of a broken stream ({ops})", rp)
        n = sum(len(c) for c in chunks)
        rec.case("stream" + str(s) + repr(chunks), True, lambda: f"stream of {n} bytes: {ops}")
        if m > limit(n):
            raise Violation("memory", f"reading {n} bytes asks for {m} bytes at once ({ops})", rp)
        got = sum(1 for o in out if o[0] == "next" and o[1])
        if 26 * got > n:
            raise Violation("invented", f"{got} messages out of {n} bytes", rp)

    hyp(H.streams(s), feed, N // 2, seed + 2)


def check(ctx):
    global N
    N = ctx.pick(200, 1500)
    ctx.rule = ("a case is a type and bytes made from a valid encoding by changes of its lengths, identifiers, ranks and indexes, cuts, "
                "tails, duplications (or random), or a stream with such packages; non-trivial unless purely random; distinct by bytes")
    ctx.assumptions = ["a request for memory above 1 MB + 1024 bytes per byte given counts as unbounded"]
    lab = L.Lab(ctx, rust=True)
    L.run_schemas(ctx, lab, L.draw_schemas(ctx, ctx.pick(32, 160), S.Opts(max_items=5, enum_struct_arr=True)), prop)


main("P07", check)

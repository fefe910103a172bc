"""P04: packing: header, sequence, middleware, across targets."""
import time

from hypothesis import strategies as hs

import lab as L
import schema as S
from common import Violation, hyp, main
from tsgen import captured

UUID = hs.one_of(hs.none(), hs.sampled_from(["a", "client-1", "é", "0b9a6d0e-7a34-4f54-8b4e-3d5f2b8f0a11"]))
SEQ = hs.one_of(hs.sampled_from([0, 1, 255, 256, 65535, 65536, 2**31, 2**32 - 1]), hs.integers(0, 2**32 - 1))

# where TypeScript finds its middleware
PLACES = ["node", "window without global", "window is null", "window and global"]


def mw(mode, enc, body, id_, seq, uuid):
    """The middleware that the drivers plug in."""
    k = (id_ & 0xff) ^ ((seq * 3) & 0xff)
    if uuid is not None:
        h = 7
        for x in uuid.encode():
            h = (h * 31 + x) & 0xff
        k ^= h
    if mode == 1:
        return bytes(x ^ k for x in body)
    if mode == 2:
        return body + bytes([k, 0xa5])
    return body


def prop(s, b, rec, seed):
    def test(x):
        msgs, uuid, mode, other, spoilt, cut, place = x
        packed = {}
        rp = {"prot": b.text, "uuid": uuid, "middleware": mode, "place": PLACES[place & 3] + ", plugged in over another" * (place >> 2),
              "messages": [(".".join(t.path), repr(v), q) for (t, v), q in msgs]}
        for name, d in (("native", b.rs), ("TypeScript", b.tsd)):
            L.guarded(lambda: d.middleware(mode if name == "native" else mode | place << 8), f"{name} middleware", rp)
            packed[name] = []
            for (t, v), seq in msgs:
                w = S.W(t, v)
                lo = time.time() * 1000 - 300
                ok, p = L.guarded(lambda: d.pack(t, w, seq, uuid), name + " pack", rp)
                hi = time.time() * 1000 + 300
                if mode == 3:
                    if ok:
                        raise Violation("refusal-ignored", f"{name}: the middleware refuses, pack() still answers a package", rp)
                    continue
                if not ok:
                    raise Violation("pack-refused", f"{name}: pack of {L.show_case(t, v)}: {p}", rp)
                ref = mw(mode, True, S.encode(t, v), t.id, seq, uuid)
                if len(p) < S.HEADER or p[S.HEADER:] != ref:
                    raise Violation("body", f"{name}: body of packed {L.show_case(t, v)} (middleware {mode}, uuid {uuid!r}, sequence {seq}) is {p[S.HEADER:].hex()[:300]}, expected {ref.hex()[:300]}", rp)
                h = S.unheader(p)
                want = dict(id=t.id, sig=0, seq=seq, len=len(ref))
                got = {k: h[k] for k in want}
                if got != want:
                    raise Violation("header", f"{name}: header of {L.show_case(t, v)} says {got}, expected {want}", rp)
                if not lo <= h["ts"] <= hi:
                    raise Violation("timestamp", f"{name}: timestamp {h['ts']} is not the time of packing in milliseconds", rp)
                packed[name].append(p)
        key = str(s) + repr(x)
        rec.case(key, mode != 0 and len(msgs) > 1, lambda: f"middleware {mode}, uuid {uuid!r}: " + ", ".join(L.show_case(*tv)[:60] for tv, _ in msgs))
        if mode == 3:
            for name, d in (("native", b.rs), ("TypeScript", b.tsd)):
                raw = b"".join(S.pack(t, v, q) for (t, v), q in msgs)
                out, _ = L.guarded(lambda: d.stream([raw, None], uuid), name + " read", rp)
                if out[0][1] == 0 or out[1][1] is not None:
                    raise Violation("refusal-ignored", f"{name}: the middleware refuses, the reader still delivers", rp)
            return
        for src in packed:
            for name, d in (("native", b.rs), ("TypeScript", b.tsd)):
                steps = [b"".join(packed[src])] + [None] * (len(msgs) + 1)
                out, _ = L.guarded(lambda: d.stream(steps, uuid), f"{name} read of {src} packages", rp)
                got = [(m[1]["type"], m[1]["seq"], m[1]["w"]) if m[1] else None for m in out[1:]]
                want = [(t.idx, q, S.W(t, v)) for (t, v), q in msgs] + [None]
                if out[0][1] != 0 or got != want:
                    raise Violation("read", f"{name} reads packages of {src} (middleware {mode}, uuid {uuid!r}) as {str(got)[:300]}, expected {str(want)[:300]}", rp)
                # read on behalf of another client: the trailer does not match, the message is refused
                if mode == 2 and len({mw(1, True, b"\0", t.id, q, other)[0] == mw(1, True, b"\0", t.id, q, uuid)[0] for (t, _), q in msgs}) == 1 \
                        and mw(1, True, b"\0", msgs[0][0][0].id, msgs[0][1], other) != mw(1, True, b"\0", msgs[0][0][0].id, msgs[0][1], uuid):
                    out, _ = L.guarded(lambda: d.stream(steps, other), f"{name} read", rp)
                    if out[0][1] == 0 or any(m[1] for m in out[1:]):
                        raise Violation("foreign", f"{name}: packages for uuid {uuid!r} are read with uuid {other!r}", rp)

        if mode == 2:
            # some packages are another client's: they are refused, and only they
            raw, want = b"", []
            for i, ((t, v), q) in enumerate(msgs):
                u = other if spoilt >> i & 1 else uuid
                body = S.encode(t, v)
                raw += S.header(t.id, q, 0, len(body) + 2) + mw(2, True, body, t.id, q, u)
                if mw(2, True, body, t.id, q, u) == mw(2, True, body, t.id, q, uuid):
                    want.append((t.idx, q, S.W(t, v)))
            c = cut % (len(raw) + 1)
            rp["spoilt"], rp["cut"] = spoilt, c
            for name, d in (("native", b.rs), ("TypeScript", b.tsd)):
                out, _ = L.guarded(lambda: d.stream([raw[:c], raw[c:]] + [None] * (len(msgs) + 1), uuid), name + " read of a mixture", rp)
                got = [(m[1]["type"], m[1]["seq"], m[1]["w"]) for m in out[2:] if m[1]]
                if got != want or (out[0][1] + out[1][1] > 0) != (len(want) < len(msgs)):
                    raise Violation("mixture", f"{name} reads {len(msgs)} packages, {len(msgs) - len(want)} of them of another client, as {str(got)[:300]} with {out[0][1]}+{out[1][1]} errors, expected {str(want)[:300]}", rp)

    tv = L.typed_values(s)
    st = hs.tuples(hs.lists(hs.tuples(tv, SEQ), min_size=1, max_size=3), UUID, hs.sampled_from([0, 1, 2, 2, 1, 3]), UUID, hs.integers(0, 7), hs.integers(0, 10**6), hs.integers(0, 7))
    hyp(st, test, N, seed)


def check(ctx):
    global N
    N = ctx.pick(150, 400)
    ctx.rule = ("a case is a list of messages with sequences, a client identifier and a middleware (none, keyed xor, keyed "
                "trailer, refusing); non-trivial with a middleware and more than one message")
    lab = L.Lab(ctx, rust=True, ts=True)
    schemas = L.draw_schemas(ctx, ctx.pick(24, 160), S.Opts(), keep=lambda s: not captured(s))
    L.run_schemas(ctx, lab, schemas, prop)


main("P04", check)

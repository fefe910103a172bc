"""Hostile bytes: broken forms of valid encodings, made with knowledge of where lengths and identifiers sit."""
import struct as st
from hypothesis import strategies as hs

import lab as L
import schema as S


def spans(t, v):
    """(bytes, [(position, width, kind)]) of an encoded value; kind: id | rank | size | index | item."""
    out, sp = bytearray(), []

    def base(ty, x):
        if isinstance(ty, str):
            out.extend(S.e_base(ty, x))
        else:
            typ(ty.to, x)

    def sized(width, fmt, fn, kind):
        at = len(out)
        sp.append((at, width, kind))
        out.extend(b"\0" * width)
        fn()
        out[at:at + width] = st.pack(fmt, len(out) - at - width)

    def payload(ty, arr, x):
        if not arr:
            return base(ty, x)
        for y in x:
            if ty == "str":
                sized(4, "<I", lambda: base(ty, y), "item")
            elif not isinstance(ty, str):
                sized(8, "<Q", lambda: base(ty, y), "item")
            else:
                base(ty, y)

    def typ(t, x):
        if t.kind == "enum":
            sp.append((len(out), 2, "index"))
            out.extend(st.pack("<H", x[1]))
            va = t.variants[x[1]]
            payload("str" if va.ty is None else va.ty, va.arr, x[2])
            return
        for f, y in zip(t.fields, x):
            sp.append((len(out), 2, "id"))
            out.extend(st.pack("<H", f.id))
            sp.append((len(out), 1, "rank"))
            if y is None and f.opt:
                sp.append((len(out) + 1, 1, "size"))
                out.extend(b"\x08\x00")
            elif not f.arr and isinstance(f.ty, str) and f.ty != "str":
                out.extend(b"\x08")
                sized(1, "<B", lambda: base(f.ty, y), "size")
            else:
                out.extend(b"\x40")
                sized(8, "<Q", lambda: payload(f.ty, f.arr, y), "size")

    typ(t, v)
    return bytes(out), sp


EDGE = [0, 1, 2, 3, 7, 8, 9, 15, 16, 25, 26, 27, 32, 64, 127, 128, 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1,
        2**32, 2**32 + 5, 2**53, 2**63 - 1, 2**63, 2**64 - 27, 2**64 - 26, 2**64 - 12, 2**64 - 3, 2**64 - 2, 2**64 - 1]


@hs.composite
def broken(draw, t, v):
    """Bytes that start from an encoding of (t, v), and the operations done to it."""
    b, sp = spans(t, v)
    b = bytearray(b)
    ops = []
    for _ in range(draw(hs.sampled_from([1, 1, 1, 2, 3]))):
        k = draw(hs.sampled_from(["field", "field", "field", "cut", "cut", "tail", "byte", "byte", "dup", "del", "word", "swap"]))
        n = len(b)
        if k == "field" and sp:
            at, w, kind = draw(hs.sampled_from(sp))
            if at + w > n:
                continue
            cur = int.from_bytes(b[at:at + w], "little")
            rest = n - at - w
            pool = {"rank": [0, 8, 16, 32, 64, 7, 9, 65, 255],
                    "id": [0, 1, 65535, cur + 1, cur ^ 256, cur - 1]}.get(kind) or \
                EDGE + [cur + 1, cur - 1, rest, rest + 1, rest - 1, cur + 256, cur * 2]
            x = draw(hs.sampled_from(pool)) % (1 << (8 * w))
            b[at:at + w] = x.to_bytes(w, "little")
            ops.append(f"{kind}@{at}:={x}")
        elif k == "cut" and n:
            c = draw(hs.integers(0, n - 1))
            del b[c:]
            ops.append(f"cut@{c}")
        elif k == "tail":
            x = draw(hs.binary(min_size=1, max_size=40))
            b += x
            ops.append(f"tail+{len(x)}")
        elif k == "byte" and n:
            at = draw(hs.integers(0, n - 1))
            b[at] = draw(hs.sampled_from([0, 1, 8, 16, 32, 64, 0x7f, 0x80, 0xc3, 0xff, b[at] ^ 1, b[at] ^ 0x80]))
            ops.append(f"byte@{at}")
        elif k == "word" and n:
            at = draw(hs.integers(0, n - 1))
            w = draw(hs.sampled_from([2, 4, 8]))
            b[at:at + w] = (draw(hs.sampled_from(EDGE)) % (1 << (8 * w))).to_bytes(w, "little")
            ops.append(f"word@{at}/{w}")
        elif k in ("dup", "del", "swap") and n > 1:
            a = draw(hs.integers(0, n - 1))
            e = draw(hs.integers(a + 1, n))
            part = bytes(b[a:e])
            if k == "dup":
                b[e:e] = part
            elif k == "del":
                del b[a:e]
            else:
                del b[a:e]
                c = draw(hs.integers(0, len(b)))
                b[c:c] = part
            ops.append(f"{k}@{a}-{e}")
    return bytes(b[:300000]), ops


@hs.composite
def overlong(draw, schema):
    """(type, bytes, how): one length of a valid encoding reaches beyond the end of the bytes; None where there is no length."""
    t, v = draw(L.typed_values(schema))
    b, sp = spans(t, v)
    sp = [x for x in sp if x[2] in ("size", "item") and len(b) - x[0] - x[1] < (1 << (8 * x[1])) - 1]
    if not sp:
        return None
    at, w, kind = draw(hs.sampled_from(sp))
    cur, rest, top = int.from_bytes(b[at:at + w], "little"), len(b) - at - w, (1 << (8 * w)) - 1
    x = draw(hs.sampled_from([rest + 1, rest + 2, top, top - 1, cur + 256, cur + 65536, cur + 2**31, cur + 2**32, cur + 2**53, cur + 2**63, rest + 65536, rest + 2**32] + EDGE))
    if not rest < x <= top:
        x = rest + 1
    return t, b[:at] + x.to_bytes(w, "little") + b[at + w:], [f"{kind}@{at}:={x} of {rest} bytes that follow"]


@hs.composite
def cases(draw, schema):
    """(type, bytes, how it was made)"""
    ts = [t for t in schema.types if t.kind == "struct" or t.variants]
    t = draw(hs.sampled_from(ts))
    k = draw(hs.integers(0, 9))
    if k == 0:
        return t, draw(hs.binary(max_size=120)), ["random"]
    src = t
    if k == 1:
        src = draw(hs.sampled_from(ts))
        v = draw(S.values(src))
        return t, S.encode(src, v), [f"encoding of {'.'.join(src.path)}"]
    v = draw(S.values(t))
    b, ops = draw(broken(t, v))
    return t, b, ops


@hs.composite
def streams(draw, schema):
    """Chunks of a stream with broken packages among good ones."""
    ts = [t for t in schema.types if t.kind == "struct" or t.variants]
    out, ops = bytearray(), []
    for _ in range(draw(hs.integers(1, 5))):
        t = draw(hs.sampled_from(ts))
        v = draw(S.values(t))
        k = draw(hs.integers(0, 5))
        if k == 0:
            out += S.pack(t, v, draw(hs.integers(0, 2**32 - 1)), 1)
            ops.append("good")
        elif k == 1:
            x = draw(hs.binary(max_size=60))
            out += x
            ops.append(f"junk{len(x)}")
        else:
            body, o = draw(broken(t, v)) if k != 2 else (S.encode(t, v), [])
            ln = len(body)
            if k in (2, 3):
                ln = draw(hs.sampled_from(EDGE + [ln + 1, max(0, ln - 1), ln + 27]))
            i = draw(hs.sampled_from([t.id, t.id, t.id, 0, schema.last_id + 1, 2**32 - 1, draw(hs.sampled_from(ts)).id]))
            out += S.header(i, draw(hs.sampled_from([0, 1, 2**32 - 1])), draw(hs.sampled_from([0, 2**53, 2**64 - 1])), ln,
                            draw(hs.sampled_from([0, 0, 0, 1, 65535]))) + body
            ops.append(f"id{i} len{ln} " + ",".join(o))
    n = len(out)
    cs = sorted(draw(hs.sets(hs.integers(1, max(1, n - 1)), max_size=8))) if n > 1 else []
    return [bytes(out[a:e]) for a, e in zip([0] + cs, cs + [n])], ops

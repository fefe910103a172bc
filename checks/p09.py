"""P09: identifiers and hash."""
import hashlib
import os
import re

from hypothesis import strategies as hs

import lab as L
import schema as S
from common import Violation, build_cli, cli, hyp, main
from tsgen import captured


def prop(s, b, rec, seed):
    rp = {"prot": b.text}
    want = [t.id for t in s.types]
    digest = hashlib.sha256(b.text.encode()).hexdigest().upper()
    for name, d in (("native", b.rs), ("TypeScript", b.tsd)):
        got = L.guarded(d.ids, name + " identifiers", rp)
        skip = {i for i, t in enumerate(s.types) if t.kind == "enum" and not t.variants}
        rec.case(name + b.text, len(s.types) > 1 and bool(s.groups), lambda: f"{name}: {dict(zip(['.'.join(t.path) for t in s.types], got))}")
        bad = [('.'.join(t.path), g, w) for i, (t, g, w) in enumerate(zip(s.types, got, want)) if g != w and i not in skip]
        if bad:
            raise Violation("identifier", f"{name}: {bad[0][0]} has identifier {bad[0][1]}, document order gives {bad[0][2]}", rp)
        hs = L.guarded(d.hash, name + " hash", rp)
        if hs != digest:
            raise Violation("hash", f"{name}: hash of the protocol is {hs}, SHA-256 of the document is {digest}", rp)
        # the identifier travels in the header and leads back to the same type; fields carry theirs
        for t in s.types:
            if t.kind == "enum" and not t.variants:
                continue
            v = zero(t)
            w = S.W(t, v)
            ok, p = L.guarded(lambda: d.pack(t, w, 5), name + " pack", rp)
            rec.case(name + b.text + ".".join(t.path), len(t.path) > 1, None)
            if not ok or S.unheader(p)["id"] != t.id:
                raise Violation("header", f"{name}: a packed {'.'.join(t.path)} carries {S.unheader(p)['id'] if ok else p} instead of {t.id}", rp)
            out, _ = L.guarded(lambda: d.stream([p, None]), name + " read", rp)
            m = out[1][1]
            if m is None or m["type"] != t.idx or m["id"] != t.id:
                raise Violation("dispatch", f"{name}: a {'.'.join(t.path)} is dispatched as {m and '.'.join(s.types[m['type']].path)}", rp)
            # two documents' messages never mix: any other identifier is another type or nothing
            if p[26:] != S.encode(t, v):
                raise Violation("field-identifier", f"{name}: fields of {'.'.join(t.path)} are not numbered in document order: {p[26:].hex()[:200]}", rp)


def zero(t):
    """A small fixed value."""
    def base(ty):
        if not isinstance(ty, str):
            return zero(ty.to)
        return {"str": "s", "bool": True, "f32": 1.5, "f64": 2.5}.get(ty, 7)
    if t.kind == "enum":
        i = len(t.variants) - 1
        ty = t.variants[i].ty or "str"
        return ("v", i, [base(ty)] if t.variants[i].arr else base(ty))
    return tuple([base(f.ty)] if f.arr else (None if f.opt and S.is_empty_struct(f.ty) else base(f.ty)) for f in t.fields)


def lengths(ctx):
    """The hash of documents of any length, line ends and spaces of any kind anywhere."""
    exe = build_cli(ctx)
    d = ctx.sub("hash")
    rec = L.Rec()

    @hs.composite
    def docs(draw):
        size = draw(hs.one_of(hs.integers(0, 5000), hs.sampled_from([1024, 2048, 4096, 8192, 16384]).flatmap(lambda n: hs.integers(n - 2, n + 2))))
        fill = draw(hs.sampled_from(["\n", "\r", "\r\n", " ", "\t", "\n\r", " \r", "\r ", "x"]))
        head, tail = draw(hs.sampled_from(["", "\r", "\n"])), "struct A { u8 a; }"
        if fill == "x":
            body = draw(hs.text(alphabet=" \t\n\r\x0c", max_size=60))
            head += body * (size // max(1, len(body)) if body else 0)
        else:
            head += fill * (max(0, size - len(tail)) // len(fill))
        tail += draw(hs.sampled_from(["", "\n", "\r", "\r\n", " \r", "\n\n"]))
        return head + tail if draw(hs.booleans()) else tail + head

    def test(text):
        raw = text.encode()
        want = hashlib.sha256(raw).hexdigest().upper()
        with open(os.path.join(d, "a.prot"), "wb") as f:
            f.write(raw)
        r = cli(exe, ["-s", "a.prot", "-rs", "out.rs", "-ts", "out.ts", "-o"], d)
        if not r.ok:
            raise Violation("refused", f"a document of {len(raw)} bytes is refused: {r.text()[-400:]}", {"prot": text})
        for o in ("out.rs", "out.ts"):
            with open(os.path.join(d, o)) as f:
                got = set(re.findall(r"(?<![0-9A-Fa-f])[0-9A-Fa-f]{64}(?![0-9A-Fa-f])", f.read()))
            rec.case(o + text, len(raw) > 1024, lambda: f"{o}: {len(raw)} bytes, {want}")
            rec.count("documents by length")
            if {g.upper() for g in got} != {want}:
                raise Violation("hash-bytes", f"{o} of a document of {len(raw)} bytes has the hash {sorted(got)}, SHA-256 of the document is {want}", {"prot": text})

    try:
        hyp(docs(), test, ctx.pick(1000, 8000), ctx.seed)
    except Violation as v:
        rec.viol.append(v)
    ctx.absorb(rec.res())


def check(ctx):
    ctx.rule = ("a case is a (target, document) or a (target, document, type); non-trivial with several types and groups, or a type "
                "inside of a group; distinct by document, target and type")
    lab = L.Lab(ctx, rust=True, ts=True)
    L.run_schemas(ctx, lab, L.draw_schemas(ctx, ctx.pick(64, 400), S.Opts(max_items=7, max_fields=5), keep=lambda s: not captured(s)), prop)
    lengths(ctx)


main("P09", check)

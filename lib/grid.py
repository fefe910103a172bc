"""Documents which have every kind of field once for every primitive type, and values at every edge:
of numbers, of the length of strings and arrays, and of the size of their encoding."""
import schema as S

LENGTHS = [1, 2, 3, 5, 16, 31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000]


def schemas():
    out = []
    for ps in (["u8", "i64", "str"], ["bool", "i16", "u32", "f64"], ["i8", "u64", "f32"], ["u16", "i32", "str"]):
        items = []
        for n, p in enumerate(ps):
            e = S.Enum(f"E{n}", [S.Variant("bare"), S.Variant("one", p), S.Variant("many", p, True), S.Variant("last", p)])
            b = S.Struct(f"B{n}", [S.Field("v", p)])
            kinds = [S.Field("a", None), S.Field("b", None, False, True), S.Field("c", None, True), S.Field("d", None, True, True)]
            of = lambda ty: [S.Field(f.name, ty, f.arr, f.opt) for f in kinds]
            x = S.Struct(f"P{n}", of(p))
            items += [e, b, x, S.Struct(f"X{n}", of(S.Ref(e, [e.name]))), S.Struct(f"Y{n}", of(S.Ref(b, [b.name]))),
                      S.Struct(f"Z{n}", of(S.Ref(x, [x.name])))]
        out.append(S.Schema([items[0], S.Group("G", items[6:12]), *items[1:6], *items[12:]]))
        out[-1].grid = True
    return out


def edges(ty):
    if not isinstance(ty, str):
        t = ty.to
        if t.kind == "struct":
            return [small(ty)] + [v for v in values(t, deep=False)][:40]
        out = []
        for i, x in enumerate(t.variants):
            p = "str" if x.ty is None else x.ty
            out += [("v", i, y) for y in (arrays(p, 300) + [[]] if x.arr else edges(p))]
        return out
    if ty == "bool":
        return [False, True]
    if ty == "f32":
        return [0.0, -0.0, 1.5, -1.0, 3.4028234663852886e38, 1.401298464324817e-45, 16777216.0, float("inf"), float("-inf"), float("nan")]
    if ty == "f64":
        return [0.0, -0.0, 1.5, -1.0, 1.7976931348623157e308, 5e-324, 2.0 ** 53, 0.1, float("inf"), float("-inf"), float("nan")]
    if ty == "str":
        return ["a", "", "\0", "\ufeff", "x\ufeff", "é" * 127, "é" * 128, "日" * 85, "日本" * 43, "\U0001f600" * 64, "é" * 32768, "\U0001f600" * 16383 + "abc"] + [
            "x" * n for n in LENGTHS + [65535, 65536, 65537]]
    lo, hi = S.INT[ty]
    xs = {lo, lo + 1, hi, hi - 1, 0, 1}
    for b in (7, 8, 15, 16, 31, 32, 53, 63):
        xs |= {2 ** b - 1, 2 ** b, 2 ** b + 1, -2 ** b, -2 ** b - 1, -2 ** b + 1}
    return sorted(x for x in xs if lo <= x <= hi)


def small(ty):
    if not isinstance(ty, str):
        t = ty.to
        return tuple(None if f.opt else [] if f.arr else small(f.ty) for f in t.fields) if t.kind == "struct" else ("v", 1, small(t.variants[1].ty))
    return {"bool": True, "str": "s", "f32": 1.0, "f64": 1.0}.get(ty, 1)


def arrays(ty, most=1 << 20):
    xs = [e for e in edges(ty) if not isinstance(e, str) or len(e) < 300] if isinstance(ty, str) else [small(ty)] + edges(ty)[:6]
    ns = list(LENGTHS)
    if isinstance(ty, str) and ty != "str":
        z = S.SIZE[ty]
        ns += [255 // z, 256 // z, 256 // z + 1, 65535 // z, 65536 // z, 65536 // z + 1]
    elif ty == "str":
        ns += [4096]
    out = [[x] for x in xs] + [xs] + [[x, small(ty), x] for x in xs]
    for i, n in enumerate(sorted(set(ns))):
        if n <= most and (not isinstance(ty, str) or ty == "str") and n > 300:
            out.append([small(ty)] * n)
        elif n <= most:
            out.append([xs[(i + k) % len(xs)] for k in range(n)])
    return out


def values(t, deep=True):
    if t.kind == "enum":
        return edges(S.Ref(t))
    base = small(S.Ref(t))
    out = []
    for k, f in enumerate(t.fields):
        vs = arrays(f.ty, 1 << 20 if deep else 300) if f.arr else edges(f.ty)
        if f.arr and not f.opt:
            vs = [[]] + vs
        if f.opt and f.ty == "str" and not f.arr:
            vs = [v for v in vs if v != ""]
        if f.opt:
            vs = [None] + vs
        out += [base[:k] + (v,) + base[k + 1:] for v in vs]
    return out


def cases(s):
    return [(t, v) for t in s.types for v in values(t)]


def on(s):
    return getattr(s, "grid", False)

"""P15: TypeScript from() refuses objects that do not fit the declared type."""
import lab as L
import schema as S
from common import Violation, main, sample
from tsgen import captured

NAMES = ["null", '"x"', "1.5", "{}", "[]", "true", "10n**30n", "-(10n**30n)", "1e300", "[[]]", "maximum+1", "minimum-1", "undefined", "NaN"]
SMALL = {"u8", "u16", "u32", "i8", "i16", "i32"}
BIG = {"u64", "i64"}


def wrong_for(ty):
    """Replacements that are certainly not of the base type."""
    if not isinstance(ty, str):
        if ty.to.kind == "struct":
            return [0, 1, 2, 3, 4, 5, 6, 8, 12]
        return [0, 1, 2, 5, 6, 8, 12]
    if ty in SMALL:
        return [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13]
    if ty in BIG:
        return [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13]
    return {"f32": [0, 1, 3, 4, 5, 6, 7, 9, 12, 13], "f64": [0, 1, 3, 4, 5, 6, 7, 9, 12, 13],
            "bool": [0, 1, 2, 3, 4, 6, 7, 8, 9, 12, 13], "str": [0, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13]}[ty]


def ways(f):
    """All ways in which a field is made wrong: (what, where in the array, variant, what of it or second variant)."""
    c = []
    if f.arr:
        c += [(w, e, 0, 0) for w in wrong_for(f.ty) for e in (1, 2, 3)]
        c += [(w, 0, 0, 0) for w in (0, 1, 2, 3, 5, 6, 8, 12, 13)]
    else:
        c += [(w, 0, 0, 0) for w in wrong_for(f.ty)]
    if f.opt:
        c = [x for x in c if x[1] or x[0] not in (0, 12)]
    if not isinstance(f.ty, str) and f.ty.to.kind == "enum":
        vs = f.ty.to.variants
        n = 0
        for i, x in enumerate(vs):
            # undefined is the same as the absence of the variant
            bad = [w for w in wrong_for("str" if x.ty is None else x.ty) if w != 12]
            for w in [0, 1, 2, 3, 5, 6, 8, 13] if x.arr else bad:
                c.append((14, n % 3 + 1 if f.arr else 0, i, w))
                n += 1
            if x.arr:
                for w in bad:
                    c += [(e, n % 3 + 1 if f.arr else 0, i, w) for e in (16, 17, 18)]
                    n += 1
        plain = [i for i, x in enumerate(vs) if x.ty is None or isinstance(x.ty, str)]
        pairs = [(i, j) for i in plain for j in plain if i < j]
        c += [(15, n % 3 + 1 if f.arr else 0, i, j) for i, j in pairs[::len(pairs) // 12 + 1]]
    return c


def prop(s, b, rec, seed):
    cache = {}
    ts = [t for t in s.structs() if t.fields]

    def test(x):
        t, v, k, (what, el, i, j) = x
        f = t.fields[k]
        w = S.W(t, v)
        made = f"{'.'.join(t.path)}.{f.name} ({f.ty if isinstance(f.ty, str) else '.'.join(f.ty.to.path)}{'[]' if f.arr else ''}{'?' if f.opt else ''}) = " + (name(f, what, i, j) if not el else PLACES[el].format(name(f, what, i, j)))
        rp = {"prot": b.text, "value": repr(v), "made": made}
        rec.case(str(s) + made + w.hex(), len(t.fields) > 1, lambda: made)
        ok, _ = L.guarded(lambda: b.tsd.wrong(t, k, what, el, w, i, j), f"from() with {made}", rp)
        if ok:
            raise Violation("accepted", f"from() accepts {made}", rp)

    n = 0
    for t in ts:
        # every way in which every field can be wrong, in objects which are valid otherwise
        vs = [v for v in sample(S.values(t, S.VOpts(), cache), N, seed) if finite(v)]
        if not vs:
            continue
        for k, f in enumerate(t.fields):
            for x in ways(f):
                for _ in range(ROUNDS):
                    n += 1
                    test((t, vs[n % len(vs)], k, x))


PLACES = ["", "[..., {}]", "[{}, ...]", "[..., {}, ...]"]


def name(f, what, i, j):
    if what == 14:
        return f"{{{f.ty.to.variants[i].name}: {NAMES[j]}}}"
    if what > 15:
        return f"{{{f.ty.to.variants[i].name}: {PLACES[what - 15].format(NAMES[j])}}}"
    if what == 15:
        return f"{{{f.ty.to.variants[i].name}: .., {f.ty.to.variants[j].name}: ..}}"
    return NAMES[what]


def finite(v):
    if isinstance(v, (tuple, list)):
        return all(finite(x) for x in v)
    return not isinstance(v, float) or (v == v and abs(v) != float("inf"))


def check(ctx):
    global N, ROUNDS
    N, ROUNDS = ctx.pick(6, 30), ctx.pick(1, 8)
    ctx.rule = ("a case is a valid object with one field, or one element of an array field, replaced by something of another type, a variant with a wrong payload or two variants, out of "
                "range or missing; non-trivial when the struct has more fields; distinct by type, value and replacement")
    lab = L.Lab(ctx, rust=False, ts=True)
    L.run_schemas(ctx, lab, L.draw_schemas(ctx, ctx.pick(40, 200), S.Opts(), keep=lambda s: not captured(s)), prop)


main("P15", check)

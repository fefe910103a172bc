"""Model of a .prot document: AST, generators, printer, identifier model, values, reference codec.

Nothing here reads or runs the code under test.
"""
import json
import struct as st
from hypothesis import strategies as hs

PRIMS = ["bool", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64", "str"]
FMT = {"i8": "<b", "i16": "<h", "i32": "<i", "i64": "<q", "u8": "<B", "u16": "<H", "u32": "<I",
       "u64": "<Q", "f32": "<f", "f64": "<d"}
SIZE = {"bool": 1, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "u8": 1, "u16": 2, "u32": 4, "u64": 8,
        "f32": 4, "f64": 8}


class Ref:
    """Reference to a declared struct or enum."""
    __slots__ = ("to", "spell")

    def __init__(self, to, spell=None):
        self.to = to            # Struct or Enum object
        self.spell = spell      # path as written, list of names


class Field:
    def __init__(self, name, ty, arr=False, opt=False):
        self.name, self.ty, self.arr, self.opt, self.id = name, ty, arr, opt, None


class Variant:
    def __init__(self, name, ty=None, arr=False):
        self.name, self.ty, self.arr = name, ty, arr    # ty None: bare variant (carries a string)


class Struct:
    kind = "struct"

    def __init__(self, name, fields):
        self.name, self.fields, self.id, self.path = name, fields, None, None


class Enum:
    kind = "enum"

    def __init__(self, name, variants):
        self.name, self.variants, self.id, self.path = name, variants, None, None


class Group:
    kind = "group"

    def __init__(self, name, items):
        self.name, self.items, self.id, self.path = name, items, None, None


class Schema:
    def __init__(self, items):
        self.items = items
        self.assign()

    def assign(self):
        """Identifiers: one sequence, in document order, for groups, structs, their fields and enums."""
        self.types, self.groups = [], []
        n = [0]

        def nxt():
            n[0] += 1
            return n[0]

        def walk(items, path):
            for it in items:
                it.id = nxt()
                it.path = path + [it.name]
                if it.kind == "group":
                    self.groups.append(it)
                    walk(it.items, it.path)
                    continue
                self.types.append(it)
                if it.kind == "struct":
                    for f in it.fields:
                        f.id = nxt()

        walk(self.items, [])
        self.last_id = n[0]
        for i, t in enumerate(self.types):
            t.idx = i

    def __repr__(self):
        return text(self)

    def by_path(self, dotted):
        for t in self.types:
            if ".".join(t.path) == dotted:
                return t
        raise KeyError(dotted)

    def structs(self):
        return [t for t in self.types if t.kind == "struct"]


# -- where a reference may be written, and how -------------------------------
def resolve(spell, own, closed, known):
    """The documented search: the own group first, then the root.

    own: path of the innermost open group; closed: set of group paths a path may go through;
    known: dict path-tuple -> type.  Returns the type or None.
    """
    def from_(base):
        p = list(base)
        for part in spell[:-1]:
            p.append(part)
            if tuple(p) not in closed:
                return None
        return known.get(tuple(p + [spell[-1]]))

    return from_(own) or from_([])


# -- printing ----------------------------------------------------------------
def type_str(ty):
    return ty if isinstance(ty, str) else ".".join(ty.spell)


def tokens(schema):
    """The document as tokens; layout may be put between any two of them (see glue)."""
    out = []

    def tyt(ty):
        if isinstance(ty, str):
            return [ty]
        r = []
        for i, p in enumerate(ty.spell):
            if i:
                r.append(".")
            r.append(p)
        return r

    def walk(items):
        for it in items:
            out.extend([it.kind, it.name, "{"])
            if it.kind == "group":
                walk(it.items)
            elif it.kind == "struct":
                for f in it.fields:
                    out.extend(tyt(f.ty))
                    if f.arr:
                        out.append("[]")
                    out.append(f.name)
                    if f.opt:
                        out.append("?")
                    out.append(";")
            else:
                for v in it.variants:
                    if v.ty is None:
                        out.extend(["\0bare", v.name, ";"])
                    else:
                        out.extend(tyt(v.ty))
                        if v.arr:
                            out.append("[]")
                        out.extend([v.name, ";"])
            out.append("}")

    walk(schema.items)
    return out


def text(schema):
    """Canonical layout."""
    out = []

    def walk(items, ind):
        p = "    " * ind
        for it in items:
            out.append(f"{p}{it.kind} {it.name} {{")
            if it.kind == "group":
                walk(it.items, ind + 1)
            elif it.kind == "struct":
                for f in it.fields:
                    out.append(f"{p}    {type_str(f.ty)}{'[]' if f.arr else ''} {f.name}{'?' if f.opt else ''};")
            else:
                for v in it.variants:
                    out.append(f"{p}    {v.name};" if v.ty is None else
                               f"{p}    {type_str(v.ty)}{'[]' if v.arr else ''} {v.name};")
            out.append(f"{p}}}")
            if ind == 0:
                out.append("")

    walk(schema.items, 0)
    return "\n".join(out) + "\n"


# -- generation --------------------------------------------------------------
KEYWORD_SAFE = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"
TAIL = hs.text(alphabet=KEYWORD_SAFE, max_size=5)


class Opts:
    def __init__(self, **kw):
        self.max_items = 6
        self.max_depth = 4
        self.max_fields = 6
        self.max_variants = 5
        self.enum_struct = True        # struct-typed variants
        self.enum_struct_arr = False   # arrays of structs in variants (TypeScript renders them as one struct)
        self.shadow = True             # same names in different groups
        self.wide = True               # now and then a struct wide enough for identifiers above 255
        self.min_types = 1
        self.empty_enum = False
        self.__dict__.update(kw)


@hs.composite
def schemas(draw, o=Opts()):
    counter = [0]
    known = {}       # path tuple -> type
    order = []       # types in declaration order
    closed = set()   # groups a path may go through now
    given = set()    # names, in lower case

    def name(prefix):
        counter[0] += 1
        t = f"{prefix}{draw(TAIL)}{counter[0]}"
        while t.lower() in given:
            t += "x"
        given.add(t.lower())
        return t

    def pick_type(own, only_struct=False, prim_weight=6, allow_enum=True):
        cands = [t for t in order if (t.kind == "struct" or (allow_enum and not only_struct))]
        use_ref = cands and draw(hs.integers(0, prim_weight + 3)) > prim_weight - 1
        if not use_ref:
            return draw(hs.sampled_from(PRIMS))
        t = draw(hs.sampled_from(cands))
        spells = []
        if own and t.path[:len(own)] == own:
            spells.append(t.path[len(own):])
        spells.append(t.path)
        spells = [s for s in spells if resolve(s, own, closed, known) is t]
        if not spells:
            return draw(hs.sampled_from(PRIMS))
        return Ref(t, list(draw(hs.sampled_from(spells))))

    def mk_struct(own, nm, wide):
        fields, used = [], set()
        n = draw(hs.integers(240, 300)) if wide else draw(hs.integers(0, o.max_fields))
        for i in range(n):
            if wide and i < n - 3:
                fields.append(Field(f"w{i}", "u8"))
                continue
            ty = pick_type(own)
            fields.append(Field(name("f"), ty, draw(hs.integers(0, 3)) == 0, draw(hs.integers(0, 3)) == 0))
        s = Struct(nm, fields)
        return s

    def mk_enum(own, nm, wide=False):
        n = draw(hs.integers(257, 300)) if wide else draw(hs.integers(0 if o.empty_enum else 1, o.max_variants))
        vs = []
        for i in range(n):
            if wide and i < n - 4:
                vs.append(Variant(f"w{i}"))
                continue
            k = draw(hs.integers(0, 3))
            if k == 0:
                vs.append(Variant(name("V")))
            else:
                ty = pick_type(own, prim_weight=5, allow_enum=False) if o.enum_struct else draw(hs.sampled_from(PRIMS))
                arr = draw(hs.integers(0, 3)) == 0
                if not isinstance(ty, str) and not o.enum_struct_arr:
                    arr = False
                vs.append(Variant(name("V"), ty, arr))
        return Enum(nm, vs)

    reuse = []       # names used elsewhere, for shadowing

    def items(own, depth, budget):
        out, used = [], set()
        n = draw(hs.integers(1, budget))
        for i in range(n):
            kinds = ["struct", "struct", "enum"] + (["group"] if depth < o.max_depth else [])
            k = draw(hs.sampled_from(kinds))
            prefix = {"struct": "S", "enum": "E", "group": "G"}[k]
            pool = [x for x in reuse if x[0] == prefix and x not in used]
            if o.shadow and pool and draw(hs.integers(0, 4)) == 0:
                nm = draw(hs.sampled_from(pool))
            else:
                nm = name(prefix)
            used.add(nm)
            reuse.append(nm)
            if k == "group":
                g = Group(nm, [])
                p = own + [nm]
                # while a child group is open its ancestors can be named in a path
                if own:
                    closed.add(tuple(own))
                g.items = items(p, depth + 1, max(1, budget - 2))
                closed.add(tuple(p))
                if own:
                    closed.discard(tuple(own))
                out.append(g)
                continue
            t = mk_struct(own, nm, False) if k == "struct" else mk_enum(own, nm)
            t.path = own + [nm]
            known[tuple(t.path)] = t
            order.append(t)
            out.append(t)
        return out

    its = []
    wide = draw(hs.integers(0, 7)) if o.wide else 7
    if wide < 2:
        t = mk_struct([], name("S"), True) if wide == 0 else mk_enum([], name("E"), True)
        t.path = [t.name]
        known[(t.name,)] = t
        order.append(t)
        its.append(t)
    its += items([], 1, o.max_items)
    return Schema(its)


def weight(s):
    """A rough measure: references, arrays, optionals, groups."""
    n = 0
    for t in s.types:
        if t.kind == "struct":
            for f in t.fields[-8:]:
                n += 1 + 2 * (not isinstance(f.ty, str)) + f.arr + f.opt
        else:
            n += len(t.variants[-8:])
    return n + 2 * len(s.groups)


# -- values ------------------------------------------------------------------
# struct: tuple of field values; enum: ("v", index, payload); option: None or value; array: list
INT = {"i8": (-2**7, 2**7 - 1), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1),
       "i64": (-2**63, 2**63 - 1), "u8": (0, 2**8 - 1), "u16": (0, 2**16 - 1), "u32": (0, 2**32 - 1),
       "u64": (0, 2**64 - 1)}


def _ints(lo, hi):
    edges = sorted({lo, hi, 0, 1, lo + 1, hi - 1, min(127, hi), min(128, hi), min(255, hi), min(256, hi),
                    min(65535, hi), min(65536, hi), min(2**31, hi), min(2**32, hi), min(2**53, hi),
                    min(2**53 + 1, hi)} | ({-1} if lo < 0 else set()))
    return hs.one_of(hs.sampled_from(edges), hs.integers(lo, hi))


BIG = hs.sampled_from([65535, 65536, 70000]).map(lambda n: "y" * n)
STR = hs.one_of(hs.text(max_size=8), hs.text(max_size=8), hs.one_of(hs.text(max_size=3), hs.integers(0, 9).flatmap(lambda i: BIG if i == 9 else hs.just("z" * i))),
                hs.sampled_from(["", "a", "\ufeffx", "\ufeff", "\0", "\U0001f600", "é", "x" * 255, "x" * 256,
                                 "日本", "\\n\"'`${x}"]))
PRIM_S = {k: _ints(*v) for k, v in INT.items()}
PRIM_S.update(bool=hs.booleans(), str=STR,
              f32=hs.one_of(hs.floats(width=32, allow_nan=False), hs.just(float("nan")), hs.just(-0.0)),
              f64=hs.one_of(hs.floats(allow_nan=False), hs.just(float("nan")), hs.just(-0.0)))


class VOpts:
    def __init__(self, **kw):
        self.max_arr = 4
        self.empty_some = False    # Some(x) where x encodes to nothing: the same bytes as None
        self.empty_variant = True  # variants whose payload encodes to nothing
        self.unset = False         # enums without a variant, where TypeScript has them: required fields, elements
        self.__dict__.update(kw)


UNSET = ("v", 0xffff, None)


def is_empty_struct(t):
    return isinstance(t, Ref) and t.to.kind == "struct" and not t.to.fields


def values(t, o=VOpts(), cache=None):
    """Strategy for values of a declared type."""
    cache = {} if cache is None else cache
    key = id(t)
    if key in cache:
        return cache[key]
    if t.kind == "struct":
        s = hs.tuples(*[field_values(f, o, cache) for f in t.fields])
    else:
        opts = []
        for i, v in enumerate(t.variants):
            one = base_values("str" if v.ty is None else v.ty, o, cache)
            if v.arr:
                one = hs.lists(one, max_size=o.max_arr)
            opts.append(hs.tuples(hs.just("v"), hs.just(i), one))
        s = hs.one_of(*opts[:3], *opts[3:][-5:]) if opts else hs.nothing()
    cache[key] = s
    return s


def base_values(ty, o, cache):
    return PRIM_S[ty] if isinstance(ty, str) else values(ty.to, o, cache)


def field_values(f, o, cache):
    one = base_values(f.ty, o, cache)
    if o.unset and (f.arr or not f.opt) and not isinstance(f.ty, str) and f.ty.to.kind == "enum":
        one = hs.one_of(one, one, one, hs.just(UNSET))
    if f.arr:
        one = hs.lists(one, min_size=1 if f.opt and not o.empty_some else 0, max_size=o.max_arr)
    elif f.opt and not o.empty_some:
        if f.ty == "str":
            one = one.filter(lambda x: x != "") if False else hs.one_of(
                hs.text(min_size=1, max_size=8), hs.sampled_from(["\ufeff", "a", "x" * 300]))
        elif is_empty_struct(f.ty):
            return hs.none()
    if f.opt:
        return hs.one_of(hs.none(), one)
    return one


# -- W: the harness' own positional encoding, shared with the drivers ---------
NAN32 = b"\x00\x00\xc0\x7f"
NAN64 = b"\x00\x00\x00\x00\x00\x00\xf8\x7f"


def prim_le(ty, v):
    if ty == "bool":
        return b"\x01" if v else b"\x00"
    if ty == "f32":
        return NAN32 if v != v else st.pack("<f", v)
    if ty == "f64":
        return NAN64 if v != v else st.pack("<d", v)
    return st.pack(FMT[ty], v)


def w_base(ty, v, out):
    if isinstance(ty, str):
        if ty == "str":
            b = v.encode("utf-8")
            out.append(st.pack("<I", len(b)))
            out.append(b)
        else:
            out.append(prim_le(ty, v))
    else:
        w_type(ty.to, v, out)


def w_type(t, v, out):
    if t.kind == "struct":
        for f, x in zip(t.fields, v):
            if f.opt:
                out.append(b"\x00" if x is None else b"\x01")
                if x is None:
                    continue
            if f.arr:
                out.append(st.pack("<I", len(x)))
                for y in x:
                    w_base(f.ty, y, out)
            else:
                w_base(f.ty, x, out)
    else:
        _, i, p = v
        out.append(st.pack("<H", i))
        if v == UNSET:
            return
        va = t.variants[i]
        ty = "str" if va.ty is None else va.ty
        if va.arr:
            out.append(st.pack("<I", len(p)))
            for y in p:
                w_base(ty, y, out)
        else:
            w_base(ty, p, out)


def W(t, v):
    out = []
    w_type(t, v, out)
    return b"".join(out)


class Rd:
    def __init__(self, b):
        self.b, self.p = b, 0

    def take(self, n):
        if self.p + n > len(self.b):
            raise ValueError("short")
        r = self.b[self.p:self.p + n]
        self.p += n
        return r

    def u(self, fmt):
        return st.unpack(fmt, self.take(st.calcsize(fmt)))[0]


def r_base(ty, r):
    if isinstance(ty, str):
        if ty == "str":
            return r.take(r.u("<I")).decode("utf-8", "surrogatepass")
        if ty == "bool":
            return r.take(1) != b"\0"
        return r.u(FMT[ty])
    return r_type(ty.to, r)


def r_type(t, r):
    if t.kind == "struct":
        vals = []
        for f in t.fields:
            if f.opt and r.take(1) == b"\0":
                vals.append(None)
            elif f.arr:
                vals.append([r_base(f.ty, r) for _ in range(r.u("<I"))])
            else:
                vals.append(r_base(f.ty, r))
        return tuple(vals)
    i = r.u("<H")
    if i == 0xffff:
        return UNSET
    va = t.variants[i]
    ty = "str" if va.ty is None else va.ty
    if va.arr:
        return ("v", i, [r_base(ty, r) for _ in range(r.u("<I"))])
    return ("v", i, r_base(ty, r))


def RW(t, b):
    r = Rd(b)
    v = r_type(t, r)
    if r.p != len(b):
        raise ValueError("trailing bytes in W value")
    return v


# -- reference encoder of the wire format --------------------------------------
def e_base(ty, v):
    if isinstance(ty, str):
        return v.encode("utf-8") if ty == "str" else prim_le(ty, v)
    return encode(ty.to, v)


def e_payload(ty, arr, v):
    if not arr:
        return e_base(ty, v)
    out = []
    for x in v:
        b = e_base(ty, x)
        if ty == "str":
            out.append(st.pack("<I", len(b)))
        elif not isinstance(ty, str):
            out.append(st.pack("<Q", len(b)))
        out.append(b)
    return b"".join(out)


def encode(t, v):
    if t.kind == "enum":
        _, i, p = v
        if v == UNSET:
            return b""
        va = t.variants[i]
        return st.pack("<H", i) + e_payload("str" if va.ty is None else va.ty, va.arr, p)
    out = []
    for f, x in zip(t.fields, v):
        out.append(st.pack("<H", f.id))
        if x is None and f.opt:
            out.append(b"\x08\x00")
            continue
        b = e_payload(f.ty, f.arr, x)
        if not f.arr and isinstance(f.ty, str) and f.ty != "str":
            out.append(b"\x08" + st.pack("<B", len(b)))
        else:
            out.append(b"\x40" + st.pack("<Q", len(b)))
        out.append(b)
    return b"".join(out)


HEADER = 26


def header(id_, seq, ts, ln, sig=0):
    return st.pack("<IHIQQ", id_, sig, seq, ts, ln)


def pack(t, v, seq=0, ts=0, sig=0):
    b = encode(t, v)
    return header(t.id, seq, ts, len(b), sig) + b


def unheader(b):
    id_, sig, seq, ts, ln = st.unpack("<IHIQQ", b[:HEADER])
    return dict(id=id_, sig=sig, seq=seq, ts=ts, len=ln)


# -- description for the TypeScript driver --------------------------------------
def describe(schema):
    def ty(x):
        return x if isinstance(x, str) else x.to.idx

    out = []
    for t in schema.types:
        d = {"kind": t.kind, "path": t.path, "id": t.id}
        if t.kind == "struct":
            d["fields"] = [{"name": f.name, "ty": ty(f.ty), "arr": f.arr, "opt": f.opt, "id": f.id} for f in t.fields]
        else:
            d["variants"] = [{"name": v.name, "ty": "str" if v.ty is None else ty(v.ty), "arr": v.arr} for v in t.variants]
        out.append(d)
    return out


def show(v, depth=0):
    """Short text of a value, for samples."""
    s = repr(v)
    return s if len(s) < 160 else s[:157] + "..."


def to_json(schema):
    return json.dumps(describe(schema))


# -- reduction of a schema (greedy): for failures that depend on the document ----
def clone_without(schema, drop):
    """Copy of the schema without the items/fields/variants in drop (set of ids of python objects);
    anything that refers to a dropped type is dropped too."""
    gone = set(drop)
    new = {}

    def ok(ty):
        return isinstance(ty, str) or ty is None or id(ty.to) in new

    def ref(ty):
        return ty if isinstance(ty, str) or ty is None else Ref(new[id(ty.to)], list(ty.spell))

    def walk(items):
        out = []
        for it in items:
            if id(it) in gone:
                continue
            if it.kind == "group":
                sub = walk(it.items)
                if sub:
                    out.append(Group(it.name, sub))
            elif it.kind == "struct":
                n = Struct(it.name, [Field(f.name, ref(f.ty), f.arr, f.opt) for f in it.fields
                                     if id(f) not in gone and ok(f.ty)])
                new[id(it)] = n
                out.append(n)
            else:
                vs = [Variant(v.name, ref(v.ty), v.arr) for v in it.variants if id(v) not in gone and ok(v.ty)]
                if not vs and it.variants:
                    continue
                n = Enum(it.name, vs)
                new[id(it)] = n
                out.append(n)
        return out

    return Schema(walk(schema.items))


def reduce_schema(schema, fails, budget=40):
    """Greedy minimisation; fails(schema) -> bool is the oracle."""
    cur = schema
    progress = True
    while progress and budget > 0:
        progress = False
        parts = [t for t in cur.types] + [f for t in cur.types for f in (t.fields if t.kind == "struct" else t.variants)]
        chunk = max(1, len(parts) // 2)
        while chunk >= 1 and budget > 0:
            i = 0
            while i < len(parts) and budget > 0:
                cand = clone_without(cur, {id(p) for p in parts[i:i + chunk]})
                budget -= 1
                if cand.types and len(text(cand)) < len(text(cur)) and fails(cand):
                    cur = cand
                    parts = [t for t in cur.types] + [f for t in cur.types for f in
                                                      (t.fields if t.kind == "struct" else t.variants)]
                    progress = True
                else:
                    i += chunk
            chunk //= 2
    return cur

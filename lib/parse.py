"""Reference reader of .prot documents: text -> Schema, Invalid, or Unclear (no claim either way)."""
import schema as S

PUNCT = "{};?."
WS = " \t\n\r\x0c"
KEY = {"group", "struct", "enum"}


class Invalid(Exception):
    pass


class Unclear(Exception):
    """The documents of the repository do not say; no claim is made."""


def tokenize(text):
    out, i, n = [], 0, len(text)
    while i < n:
        c = text[i]
        if c in WS:
            i += 1
        elif c in PUNCT:
            out.append(c)
            i += 1
        elif c == "[":
            j = i + 1
            while j < n and text[j] in WS:
                j += 1
            if j >= n or text[j] != "]":
                raise Invalid("[ without ]")
            out.append("[]")
            i = j + 1
        elif c.isascii() and (c.isalpha() or c == "_"):
            j = i
            while j < n and text[j].isascii() and (text[j].isalnum() or text[j] == "_"):
                j += 1
            if j < n and text[j] not in WS + PUNCT + "[":
                raise Invalid(f"character {text[j]!r} in a name")
            out.append(text[i:j])
            i = j
        else:
            raise Invalid(f"character {c!r}")
    return out


def parse(text):
    tk = tokenize(text)
    pos = [0]
    known, closed, names = {}, set(), set()

    def peek(k=0):
        return tk[pos[0] + k] if pos[0] + k < len(tk) else None

    def take():
        x = peek()
        if x is None:
            raise Invalid("end of document")
        pos[0] += 1
        return x

    def word(what):
        x = take()
        if x in PUNCT or x == "[]":
            raise Invalid(f"{x} where a {what} is expected")
        return x

    def name(what):
        x = word(what)
        if x in KEY or what == "name" and (x in S.PRIMS or x in ("char", "usize", "isize")):
            raise Unclear("reserved word as a name")
        return x

    def expect(p):
        x = take()
        if x != p:
            raise Invalid(f"{x} where {p} is expected")

    def typ(own, in_struct):
        spell = [word("type")]
        if spell[0] in KEY:
            raise Invalid("definition inside of a struct or enum")
        while peek() == ".":
            take()
            spell.append(word("type"))
        if len(spell) == 1 and spell[0] in S.PRIMS:
            ty = spell[0]
        else:
            t = S.resolve(spell, own, closed, known)
            if t is None:
                # a path through a group that is still open: not documented either way
                full = [tuple(spell), tuple(own + spell)]
                if any(tuple(f) in known for f in full):
                    raise Unclear("path through an open group")
                raise Invalid(f"unknown type {'.'.join(spell)}")
            ty = S.Ref(t, spell)
        return ty

    def items(own, top):
        out = []
        while True:
            x = peek()
            if x is None:
                if top:
                    return out
                raise Invalid("end of document")
            if x == "}":
                if top:
                    raise Invalid("} without {")
                take()
                return out
            if x not in KEY:
                raise Invalid(f"{x} where a definition is expected")
            take()
            nm = name("name")
            if tuple(own + [nm]) in names:
                raise Invalid("name is taken")
            names.add(tuple(own + [nm]))
            expect("{")
            path = own + [nm]
            if x == "group":
                g = S.Group(nm, [])
                # groups that can be named inside: the ancestors of the innermost open one
                if own:
                    closed.add(tuple(own))
                g.items = items(path, False)
                if own:
                    closed.discard(tuple(own))
                closed.add(tuple(path))
                if own == []:
                    pass
                out.append(g)
                continue
            t = S.Struct(nm, []) if x == "struct" else S.Enum(nm, [])
            t.path = path
            seen = set()
            while peek() != "}":
                if x == "struct":
                    ty = typ(own, True)
                    arr = peek() == "[]"
                    if arr:
                        take()
                    fn = name("field name")
                    opt = peek() == "?"
                    if opt:
                        take()
                    expect(";")
                    if fn in seen:
                        raise Invalid("field twice")
                    seen.add(fn)
                    t.fields.append(S.Field(fn, ty, arr, opt))
                else:
                    w = word("variant")
                    if w in KEY:
                        raise Invalid("definition inside of an enum")
                    pos[0] -= 1
                    if peek(1) == ";":
                        nm2 = name("variant")
                        take()
                        v = S.Variant(nm2)
                    else:
                        ty = typ(own, False)
                        arr = peek() == "[]"
                        if arr:
                            take()
                        nm2 = name("variant")
                        expect(";")
                        if not isinstance(ty, str) and ty.to.kind == "enum":
                            raise Unclear("enum in a variant")
                        v = S.Variant(nm2, ty, arr)
                    if nm2 in seen:
                        raise Invalid("variant twice")
                    seen.add(nm2)
                    t.variants.append(v)
            take()
            if x == "enum" and not t.variants:
                raise Unclear("enum without variants")
            known[tuple(path)] = t
            out.append(t)
        return out

    return S.Schema(items([], True))

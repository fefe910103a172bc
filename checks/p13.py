"""P13: exactly the valid documents are accepted, the rest is refused without output."""
import hashlib
import os
import shutil

from hypothesis import strategies as hs

import lab as L
import parse as P
import schema as S
from common import CheckError, Violation, build_cli, cli, diverse, hyp, main, pmap

WORK = {}
OLD = "previous content\n"


def run(d, text, old):
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "a.prot"), "wb") as f:
        f.write(text)
    for e in ("rs", "ts"):
        p = os.path.join(d, "a." + e)
        if old:
            with open(p, "w") as f:
                f.write(OLD)
        elif os.path.exists(p):
            os.remove(p)
    return cli(WORK["exe"], ["-s", "a.prot", "-rs", "a.rs", "-ts", "a.ts", "-o", "--em"], d)


def read(d, text):
    hx = hashlib.sha256(text).hexdigest().upper()
    out = []
    for e in ("rs", "ts"):
        with open(os.path.join(d, "a." + e)) as f:
            out.append(f.read().replace(hx, "<hash>"))
    return out


def judge(d, text, ops, old, rec):
    raw = text if isinstance(text, bytes) else text.encode("utf-8", "surrogatepass")
    rp = {"prot": raw.decode("utf-8", "backslashreplace"), "made": ops}
    try:
        try:
            want = P.parse(raw.decode("utf-8"))
        except UnicodeDecodeError:
            raise P.Invalid("not UTF-8")
    except P.Invalid as e:
        want = e
    except P.Unclear:
        rec.count("no claim")
        want = None
    r = run(d, raw, old)
    if r.crashed:
        raise Violation("crash", f"the generator crashed on a document ({ops}): {r.text()[:800]}", rp)
    if want is None:
        rec.case(raw, False)
        return
    if isinstance(want, P.Invalid):
        rec.case(raw, True, lambda: f"{ops} -> refused ({want}): {raw[:160]!r}")
        rec.count("invalid")
        if r.ok or r.rc == 0:
            raise Violation("accepted", f"an invalid document ({want}; {ops}) is accepted: {r.text()[:300]}", rp)
        for e in ("rs", "ts"):
            p = os.path.join(d, "a." + e)
            if old:
                with open(p) as f:
                    if f.read() != OLD:
                        raise Violation("overwritten", f"an invalid document ({want}) changed the existing {e} output", rp)
            elif os.path.exists(p):
                raise Violation("written", f"an invalid document ({want}) gave a {e} output", rp)
        return
    rec.count("valid")
    rec.case(raw, len(want.types) > 0, lambda: f"{ops} -> accepted: {raw[:160]!r}")
    if not r.ok:
        raise Violation("refused", f"a valid document ({ops}) is refused: {r.text()[:600]}", rp)
    # and read as the reference reads it
    got = read(d, raw)
    r = run(d, S.text(want).encode(), False)
    if not r.ok or read(d, S.text(want).encode()) != got:
        raise Violation("misread", f"a valid document ({ops}) is read as something else than {S.text(want)!r}", rp)


def scopes(tk):
    """Positions of names that share a scope: definitions of a group, fields of a struct, variants of an enum."""
    out, stack = {}, [0]
    for j, t in enumerate(tk):
        if t == "{":
            stack.append(j)
        elif t == "}" and len(stack) > 1:
            stack.pop()
        elif j + 2 < len(tk) and t in ("struct", "enum", "group") and tk[j + 2] == "{":
            out.setdefault((stack[-1], 0), []).append(j + 1)
        elif t == ";" and j and tk[j - 1] != "}":
            out.setdefault((stack[-1], 1), []).append(j - 2 if tk[j - 1] == "?" else j - 1)
    return [v for _, v in sorted(out.items()) if len(v) > 1]


@hs.composite
def mutants(draw, schema, other):
    tk = [t for t in S.tokens(schema) if t != "\0bare"]
    ops = []
    words = [t for t in tk if t[0] not in "{};?.["] + ["Unknown", "u8", "str", "char", "usize", "isize", "u128", "struct", "enum", "group", "_", "x1", "Option"]
    punct = ["{", "}", ";", "?", ".", "[]", "[", "]", "[[]", "[]]", "[[", "]]", "[ ]", "[][]", "??", "..", ";;", "{}", "?[]", "[]?"]
    for _ in range(draw(hs.sampled_from([1, 1, 1, 2, 3]))):
        n = len(tk)
        if not n:
            break
        i = draw(hs.integers(0, n - 1))
        k = draw(hs.sampled_from(["del", "dup", "swap", "word", "punct", "insert", "cut", "join", "char", "rename", "move", "number", "twin", "twin"]))
        if k == "del":
            ops.append(f"without {tk[i]}")
            del tk[i]
        elif k == "dup":
            ops.append(f"{tk[i]} twice")
            tk.insert(i, tk[i])
        elif k == "swap" and i + 1 < n:
            ops.append(f"{tk[i]} and {tk[i + 1]} swapped")
            tk[i], tk[i + 1] = tk[i + 1], tk[i]
        elif k in ("word", "rename"):
            ws = [j for j in range(n) if tk[j][0] not in "{};?.["]
            if ws:
                j = draw(hs.sampled_from(ws))
                w = draw(hs.sampled_from(words))
                ops.append(f"{tk[j]} -> {w}")
                tk[j] = w
        elif k == "punct":
            p = draw(hs.sampled_from(punct))
            ops.append(f"{tk[i]} -> {p}")
            tk[i] = p
        elif k == "insert":
            p = draw(hs.sampled_from(punct + words))
            ops.append(f"{p} before {tk[i]}")
            tk.insert(i, p)
        elif k == "cut":
            ops.append(f"cut at token {i}")
            del tk[i:]
        elif k == "join" and i + 1 < n:
            tk[i:i + 2] = [tk[i] + tk[i + 1]]
            ops.append(f"joined {tk[i]}")
        elif k == "char":
            c = draw(hs.sampled_from(list("\"'#/-+:,<>()=@\\\x00\x0b\x7f") + ["é", "\u2028", "\ufeff", "1"]))
            at = draw(hs.integers(0, len(tk[i])))
            tk[i] = tk[i][:at] + c + tk[i][at:]
            ops.append(f"{tk[i]!r}")
        elif k == "number":
            tk[i] = "7" + tk[i]
            ops.append(tk[i])
        elif k == "twin":
            sc = scopes(tk)
            if sc:
                v = draw(hs.sampled_from(sc))
                a, b = draw(hs.sampled_from(v)), draw(hs.sampled_from(v))
                ops.append(f"{tk[a]} -> {tk[b]}")
                tk[a] = tk[b]
        elif k == "move":
            # a whole definition elsewhere
            starts = [j for j in range(n) if tk[j] in ("struct", "enum", "group") and j + 2 < n and tk[j + 2] == "{"]
            if starts:
                a = draw(hs.sampled_from(starts))
                depth, b = 0, a
                while b < n:
                    depth += (tk[b] == "{") - (tk[b] == "}")
                    if depth == 0 and tk[b] == "}":
                        break
                    b += 1
                part = tk[a:b + 1]
                del tk[a:b + 1]
                at = draw(hs.sampled_from([0, len(tk)] + [j for j in range(len(tk)) if tk[j] in ("struct", "enum", "group", "}")]))
                tk[at:at] = part
                ops.append(f"{part[0]} {part[1] if len(part) > 1 else ''} moved")
    t = " ".join(tk)
    return t, ops


def one(arg):
    i, s, other = arg
    rec = L.Rec()
    d = os.path.join(WORK["dir"], f"s{i}")
    try:
        hyp(hs.tuples(mutants(s, other), hs.booleans()), lambda x: judge(d, x[0][0], x[0][1], x[1], rec), WORK["n"], WORK["seed"] + i)
    except Violation as v:
        rec.viol.append(v)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return rec.res()


SOUP = hs.lists(hs.sampled_from(["struct", "enum", "group", "{", "}", ";", "?", ".", "[]", "[", "]", "A", "B", "u8", "str", "x", "\n", "1", "é", "#"]), max_size=30).map(" ".join)


def soup(arg):
    i = arg
    rec = L.Rec()
    d = os.path.join(WORK["dir"], f"x{i}")
    try:
        hyp(hs.one_of(hs.binary(max_size=60), hs.text(max_size=60), SOUP, SOUP), lambda t: judge(d, t, ["random"], False, rec), WORK["n"], WORK["seed"] + 500 + i)
    except Violation as v:
        rec.viol.append(v)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return rec.res()


def check(ctx):
    ctx.rule = ("a case is a document made from a valid one by changes of tokens, names, characters and order, or a random one; a reference reader "
                "says valid, invalid or no claim; non-trivial when it says one of the first two; distinct by text")
    ctx.assumptions = ["no claim is made on: reserved words as names, enums without variants, enums inside of variants, paths through a group that is still open"]
    WORK.update(exe=build_cli(ctx), dir=ctx.sub("p"), n=ctx.pick(60, 400), seed=ctx.seed * 1000)
    xs = diverse(S.schemas(S.Opts(wide=False, max_items=4, max_fields=4)), ctx.pick(80, 320), ctx.seed, S.weight)
    for r in pmap(one, [(i, s, xs[i - 1]) for i, s in enumerate(xs)]):
        ctx.absorb(r)
    for r in pmap(soup, range(ctx.pick(8, 32))):
        ctx.absorb(r)


main("P13", check)

"""P12: layout of a document does not matter."""
import hashlib
import os
import shutil

from hypothesis import strategies as hs

import lab as L
import schema as S
from common import Violation, build_cli, diverse, hyp, main, pmap

WORK = {}
GAP = hs.text(alphabet=" \t\n\r\x0c", max_size=4)
NEED = hs.text(alphabet=" \t\n\r\x0c", min_size=1, max_size=4)
WORD = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")


@hs.composite
def layouts(draw, schema):
    out = [draw(GAP)]
    tk = [t for t in S.tokens(schema) if t != "\0bare"]
    dense = draw(hs.booleans())
    for a, b in zip(tk, tk[1:] + [""]):
        if a == "[]" and draw(hs.integers(0, 4)) == 0:
            a = "[" + draw(GAP) + "]"
        out.append(a)
        if a[-1] in WORD and b[:1] in WORD and b:
            out.append(" " if dense else draw(NEED))
        elif not dense:
            out.append(draw(GAP))
    return "".join(out)


def outputs(d, text):
    for e in ("rs", "ts"):
        p = os.path.join(d, "protocol." + e)
        if os.path.exists(p):
            os.remove(p)
    L.generate(WORK["exe"], d, text, True, True)
    hx = hashlib.sha256(text.encode()).hexdigest().upper()
    res = []
    for e in ("rs", "ts"):
        with open(os.path.join(d, "protocol." + e)) as f:
            c = f.read()
        if hx not in c:
            raise Violation("hash", f"the {e} output does not carry the hash of the document", {"prot": text})
        res.append(c.replace(hx, "<hash>"))
    return res


def one(arg):
    i, s = arg
    rec = L.Rec()
    d = os.path.join(WORK["dir"], f"s{i}")
    try:
        base = outputs(d, S.text(s))

        def test(text):
            got = outputs(d, text)
            rec.case(text, len(s.types) > 1, lambda: repr(text[:400]))
            for name, a, b in zip(("native", "TypeScript"), base, got):
                if a != b:
                    at = next((j for j, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                    raise Violation("layout", f"{name} output of the same document in another layout differs: {a[at - 60:at + 80]!r} became {b[at - 60:at + 80]!r}", {"prot": text, "canonical": S.text(s)})

        hyp(layouts(s), test, WORK["n"], WORK["seed"] + i)
    except Violation as v:
        v.replay.setdefault("prot", S.text(s))
        rec.viol.append(v)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return rec.res()


def check(ctx):
    ctx.rule = ("a case is a document in a generated layout (spaces, tabs, line ends, form feeds between any two tokens, none where none is "
                "needed); non-trivial with more than one type; distinct by text; compared with the output of the canonical layout, the hash masked")
    WORK.update(exe=build_cli(ctx), dir=ctx.sub("p"), n=ctx.pick(12, 60), seed=ctx.seed * 1000)
    for r in pmap(one, list(enumerate(diverse(S.schemas(S.Opts(wide=False)), ctx.pick(90, 500), ctx.seed, S.weight)))):
        ctx.absorb(r)


main("P12", check)

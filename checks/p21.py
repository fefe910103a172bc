"""P21: exactly the valid workflow documents are accepted, whatever their layout; the rest is refused without output."""
import hashlib
import os
import shutil

from hypothesis import strategies as hs

import lab as L
import parse
import schema as S
import wf as W
import wflab
import wparse as P
from common import Violation, build_cli, cli, hyp, main, pmap

WORK = {}
WORD = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_@&")
GAP = hs.text(alphabet=" \t\n\r\x0c", max_size=3)
COMMENT = hs.text(alphabet=hs.sampled_from(list("ab {}();>.?!:@&#'\"é漢\r")), max_size=8).map(lambda t: "#" + t + "\n")
CARGO = '[package]\nname = "x"\nversion = "0.1.0"\nedition = "2018"\n\n[dependencies]\n'
NPM = '{\n    "name": "x",\n    "version": "0.0.1",\n    "dependencies": {},\n    "devDependencies": {}\n}\n'


def reset(d, old):
    for x in ("p", "c"):
        shutil.rmtree(os.path.join(d, x), ignore_errors=True)
        os.makedirs(os.path.join(d, x))
        if old:
            with open(os.path.join(d, x, "mod.rs"), "w") as f:
                f.write("previous\n")
    for n, t in (("Cargo.toml", CARGO), ("package.json", NPM)):
        with open(os.path.join(d, n), "w") as f:
            f.write(t)


def tree(d, masks=()):
    out = {}
    for base in ("p", "c"):
        for r, _, fs in os.walk(os.path.join(d, base)):
            for f in fs:
                with open(os.path.join(r, f)) as fh:
                    t = fh.read()
                for m in masks:
                    t = t.replace(m, "<hash>")
                out[os.path.relpath(os.path.join(r, f), d)] = t
    for f in ("Cargo.toml", "package.json"):
        with open(os.path.join(d, f)) as fh:
            out[f] = fh.read()
    return out


def generate(d, raw, old):
    reset(d, old)
    with open(os.path.join(d, "a.workflow"), "wb") as f:
        f.write(raw)
    return cli(WORK["exe"], ["-s", "a.prot", "-wf", "a.workflow", "-pd", "p", "-cd", "c"], d)


def result(d, raw, rp):
    r = generate(d, raw, False)
    if not r.ok:
        raise Violation("refused", f"a valid workflow is refused: {r.text()[-700:]}", rp)
    return tree(d, (hashlib.sha256(raw).hexdigest().upper(),))


def judge(d, schema, text, ops, old, rec):
    raw = text.encode("utf-8") if isinstance(text, str) else text
    rp = {"prot": S.text(schema), "workflow": raw.decode("utf-8", "backslashreplace"), "made": ops}
    try:
        try:
            want = P.parse(raw.decode("utf-8"), schema)
        except UnicodeDecodeError:
            raise parse.Invalid("not UTF-8")
    except parse.Invalid as e:
        want = e
    except parse.Unclear as e:
        rec.count("no claim")
        want = None
    r = generate(d, raw, old)
    if r.crashed:
        raise Violation("crash", f"the generator crashed on a workflow ({ops}): {r.text()[-800:]}", rp)
    if want is None:
        rec.case(raw, False)
    elif isinstance(want, parse.Invalid):
        rec.case(raw, True, lambda: f"{ops} -> refused ({want})")
        rec.count("invalid")
        got = tree(d)
        if r.ok or r.rc == 0:
            raise Violation("accepted", f"an invalid workflow ({want}; {ops}) is accepted: {r.text()[-300:]}", rp)
        reset(d, old)
        if got != tree(d):
            raise Violation("written", f"an invalid workflow ({want}; {ops}) left output", rp)
    else:
        rec.case(raw, True, lambda: f"{ops} -> accepted: {text[:300]!r}")
        rec.count("valid")
        got = result(d, raw, rp)
        canon = W.text(want)
        if result(d, canon.encode(), {**rp, "workflow": canon}) != got:
            raise Violation("misread", f"a workflow ({ops}) is read as something else than it says; expected the same as from {canon!r}", rp)


@hs.composite
def layout(draw, tk):
    """Any layout of the tokens, comments included."""
    style = draw(hs.sampled_from(["plain", "dense", "wild", "wild"]))
    out = []
    for a, b in zip(tk, tk[1:] + [""]):
        out.append(a)
        need = a[-1] in WORD and b[:1] and b[0] in WORD
        g = ""
        if style == "wild":
            g = draw(GAP)
            if draw(hs.integers(0, 7)) == 0:
                g += draw(COMMENT) + draw(GAP)
        out.append(g if g or not need and style != "plain" else " ")
    return "".join(out) + draw(hs.sampled_from(["", "", "\n", "# the end", "# the end\n", " \t"]))


def decls(tk):
    """Token ranges of the declarations, as long as the braces allow to tell."""
    out, a, depth = [], 0, 0
    for i, t in enumerate(tk):
        depth += (t == "{") - (t == "}")
        if t == "}" and depth == 0:
            out.append((a, i + 1))
            a = i + 1
    return out


@hs.composite
def mutants(draw, w):
    tk = P.tokenize(W.text(w))
    ops = []
    names = [W.dotted(t) for t in w.schema.structs()]
    enums = [".".join(t.path) for t in w.schema.types if t.kind == "enum"]
    words = sorted({p for n in names for p in n.split(".")}) + ["Unknown", "rust", "typescript", "python", "connected", "disconnected", "beacons", "@beacons",
            "&config", "@connected", "Response", "Producer", "SelfKey", "AssignedKey", "Accept", "_", "config", "@Unknown"]
    punct = list("{}();?.:>!") + ["@", "&", ",", "[", "-", "=", "1", "é"]
    for _ in range(draw(hs.sampled_from([0, 1, 1, 1, 1, 2, 3]))):
        n = len(tk)
        if not n:
            break
        i = draw(hs.integers(0, n - 1))
        k = draw(hs.sampled_from(["del", "dup", "swap", "word", "punct", "insert", "insert", "cut", "path", "path", "drop", "again", "move", "split", "line", "line", "lineto", "copy", "copy"]))
        if k == "del":
            ops.append(f"without {tk[i]}")
            del tk[i]
        elif k == "dup":
            ops.append(f"{tk[i]} twice")
            tk.insert(i, tk[i])
        elif k == "swap" and i + 1 < n:
            ops.append(f"{tk[i]} and {tk[i + 1]} swapped")
            tk[i], tk[i + 1] = tk[i + 1], tk[i]
        elif k == "word":
            ws = [j for j in range(n) if tk[j] not in P.PUNCT]
            if ws:
                j, x = draw(hs.sampled_from(ws)), draw(hs.sampled_from(words))
                ops.append(f"{tk[j]} -> {x}")
                tk[j] = x
        elif k == "punct":
            p = draw(hs.sampled_from(punct))
            ops.append(f"{tk[i]} -> {p}")
            tk[i] = p
        elif k == "insert":
            p = draw(hs.sampled_from(punct + words))
            ops.append(f"{p} before {tk[i]}")
            tk.insert(i, p)
        elif k == "cut":
            ops.append(f"cut at token {i}")
            del tk[i:]
        elif k == "path":
            # a whole reference replaced
            at = [j for j in range(n) if tk[j] not in P.PUNCT and tk[j][0] not in "&" and tk[j] not in ("rust", "typescript", "Producer", "Consumer", "SelfKey", "AssignedKey")
                  and (j == 0 or tk[j - 1] != ".")]
            if at:
                j = draw(hs.sampled_from(at))
                e = j + 1
                while e + 1 < n and tk[e] == ".":
                    e += 2
                x = draw(hs.sampled_from(names + names + enums + ["Unknown", "No.Such", names[0] + ".X", names[0].lower()]))
                ops.append(f"{''.join(tk[j:e])} -> {x}")
                new = P.tokenize(x)
                if tk[j][0] == "@":
                    new[0] = "@" + new[0]
                tk[j:e] = new
        elif k in ("drop", "again", "move"):
            ds = decls(tk)
            if ds:
                a, b = draw(hs.sampled_from(ds))
                part = tk[a:b]
                ops.append(f"{k} declaration {part[0]}")
                if k == "again":
                    tk[b:b] = part
                else:
                    del tk[a:b]
                    if k == "move":
                        at = draw(hs.sampled_from([0] + [y for _, y in decls(tk)]))
                        tk[at:at] = part
        elif k in ("line", "lineto"):
            # a ;-terminated piece repeated, removed or put elsewhere
            ends = [j for j in range(n) if tk[j] == ";"]
            if ends:
                e = draw(hs.sampled_from(ends))
                a = e
                while a > 0 and tk[a - 1] not in ";{}":
                    a -= 1
                part = tk[a:e + 1]
                how = draw(hs.sampled_from(["again", "drop", "move"])) if k == "line" else "move"
                ops.append(f"{how} {' '.join(part)}")
                if how == "again":
                    tk[e + 1:e + 1] = part
                else:
                    del tk[a:e + 1]
                    if how == "move":
                        ps = [j + 1 for j in range(len(tk)) if tk[j] in ";{"]
                        if ps:
                            at = draw(hs.sampled_from(ps))
                            tk[at:at] = part
        elif k == "copy":
            # a ;-terminated piece once more elsewhere in its declaration
            ds = [(a, b) for a, b in decls(tk) if tk[a:b].count(";") > 1]
            if ds:
                a, b = draw(hs.sampled_from(ds))
                ends = [j for j in range(a, b) if tk[j] == ";"]
                e = draw(hs.sampled_from(ends))
                f = e
                while f > a and tk[f - 1] not in ";{}":
                    f -= 1
                part = tk[f:e + 1]
                at = draw(hs.sampled_from(ends + ends[-1:])) + 1
                ops.append(f"again {' '.join(part)}")
                tk[at:at] = part
        elif k == "split" and tk[i][-1] in WORD and len(tk[i]) > 1:
            at = draw(hs.integers(1, len(tk[i]) - 1))
            ops.append(f"{tk[i]} split")
            tk[i:i + 1] = [tk[i][:at], tk[i][at:]]
    return draw(layout(tk)), ops


def one(arg):
    i, w = arg
    rec = L.Rec()
    d = os.path.join(WORK["dir"], f"s{i}")
    os.makedirs(d)
    with open(os.path.join(d, "a.prot"), "w") as f:
        f.write(S.text(w.schema))
    try:
        hyp(hs.tuples(mutants(w), hs.booleans()), lambda x: judge(d, w.schema, x[0][0], x[0][1], x[1], rec), WORK["n"], WORK["seed"] + i)
    except Violation as v:
        rec.viol.append(v)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return rec.res()


def check(ctx):
    ctx.rule = ("a case is a workflow document made from a valid one by changes of tokens, references, lines, declarations and layout (comments included); "
                "a reference reader says valid, invalid or no claim; non-trivial when it says one of the first two; distinct by text")
    ctx.assumptions = ["no claim is made on: names without a dot between, enums as messages, requests without an answer, a conclusion with a reserved name, "
                       "one type of answer used twice in a request, references to service messages"]
    WORK.update(exe=build_cli(ctx), dir=ctx.sub("p"), n=ctx.pick(44, 400), seed=ctx.seed * 1000)
    o = W.WOpts(max_reqs=3, max_acts=2, max_bcs=4, max_evs=2, max_beacons=2, min_structs=6,
                schema=S.Opts(max_items=6, max_depth=3, max_fields=1, wide=False))
    ws = wflab.draw_workflows(ctx, ctx.pick(64, 256), o, 21)
    for k, w in enumerate(ws):
        w.producer, w.consumer = [["rust"], ["typescript"], ["rust", "typescript"], ["typescript", "rust"]][k % 4], [["rust"], ["typescript"], ["typescript", "rust"]][k % 3]
    for r in pmap(one, list(enumerate(ws))):
        ctx.absorb(r)


main("P21", check)

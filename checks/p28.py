"""P28: generating again never takes away what a user wrote, and leaves the rest as a first generation would."""
import copy
import json
import os
import re
import shutil
import tomllib

from hypothesis import strategies as hs

import schema as S
import wf as W
import wflab as F
import wfrust as R
from common import Violation, cli, hyp, main

SIDES = {"p": "producer", "c": "consumer"}
OWN = re.compile(r"p/src/producer/(?:(?:rust|typescript)/)?(?:context\.(?:rs|ts)|(?:events|beacons|responses)/(?!mod\.rs$|index\.ts$)[^/]+)$"
                 r"|c/src/consumer/(?:rust/)?(?:context\.rs|(?:events|broadcasts)/(?!mod\.rs$)[^/]+\.rs)$")
ARGS = ["-s", "a.prot", "-wf", "a.workflow", "-pd", "p/src/producer", "-cd", "c/src/consumer"]
PROTO = {"rs": r"/implementation/protocol/mod\.rs$", "ts": r"/protocol/protocol\.ts$"}
BROKEN = {"Cargo.toml": [b"[package\n", b"a = \n"], "package.json": [b"{", b"{\"a\": }"]}


def tree(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, d)] = h.read()
    return out


def put(d, path, data):
    p = os.path.join(d, path)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(data)


def parsed(name, data):
    return tomllib.loads(data.decode()) if name.endswith(".toml") else json.loads(data.decode())


# -- manifests of a user
def toml(v, path=()):
    """Text of a table."""
    o = [f"{json.dumps(k, ensure_ascii=False)} = {tval(x)}" for k, x in v.items() if not isinstance(x, dict) and not (isinstance(x, list) and x and isinstance(x[0], dict))]
    for k, x in v.items():
        p = path + (k,)
        name = ".".join(json.dumps(q, ensure_ascii=False) for q in p)
        if isinstance(x, dict):
            o += [f"[{name}]", toml(x, p)]
        elif isinstance(x, list) and x and isinstance(x[0], dict):
            for y in x:
                o += [f"[[{name}]]", toml(y, p)]
    return "\n".join(o) + "\n"


def tval(x):
    if isinstance(x, bool):
        return "true" if x else "false"
    if isinstance(x, list):
        return "[" + ", ".join(tval(y) for y in x) + "]"
    if isinstance(x, str):
        return json.dumps(x, ensure_ascii=False)
    return repr(x)


words = hs.sampled_from(["serde", "rand", "my-crate", "x_y", "proc-macro2", "anyhow", "@scope/pkg", "left-pad"])
texts = hs.one_of(hs.sampled_from(["1.0", "^2", "", "a \"quoted\" \\ text", "путь/é", "#no comment", "../c"]), hs.text("abc'[]{}=.,:", max_size=8))
ints = hs.integers(-2**40, 2**40)
deps = hs.dictionaries(words, hs.one_of(texts, hs.fixed_dictionaries({"version": texts}, optional={
    "features": hs.lists(texts, max_size=3), "default-features": hs.booleans(), "path": texts, "optional": hs.booleans()})), max_size=4)
cargos = hs.fixed_dictionaries({"package": hs.fixed_dictionaries({"name": texts, "version": hs.just("0.1.0")}, optional={
    "authors": hs.lists(texts, max_size=2), "publish": hs.booleans(), "metadata": hs.dictionaries(words, hs.one_of(ints, texts, hs.lists(ints, max_size=3), hs.dictionaries(words, texts, max_size=2)), max_size=3)})},
    optional={"dependencies": deps, "dev-dependencies": deps, "build-dependencies": deps, "features": hs.dictionaries(words, hs.lists(texts, max_size=3), max_size=3),
              "bin": hs.lists(hs.fixed_dictionaries({"name": texts, "path": texts}), min_size=1, max_size=2), "profile": hs.fixed_dictionaries({"release": hs.fixed_dictionaries({"opt-level": ints, "lto": hs.booleans()})}),
              "target": hs.dictionaries(hs.sampled_from(["cfg(unix)", "x86_64-pc-windows-gnu"]), hs.fixed_dictionaries({"dependencies": deps}), min_size=1, max_size=2)})
jsons = hs.recursive(hs.one_of(hs.none(), hs.booleans(), ints, texts), lambda x: hs.one_of(hs.lists(x, max_size=3), hs.dictionaries(texts, x, max_size=3)), max_leaves=6)
packages = hs.fixed_dictionaries({"name": texts}, optional={"version": texts, "dependencies": hs.dictionaries(words, texts, max_size=4), "devDependencies": hs.dictionaries(words, texts, max_size=3),
                                                            "scripts": hs.dictionaries(texts, texts, max_size=3), "exports": jsons, "files": jsons, "private": hs.booleans(), "config": jsons})
strangers = hs.sampled_from(["p/src/producer/helper.rs", "p/src/producer/events/util.txt", "p/src/main.rs", "p/src/producer/implementation/note.md", "c/src/consumer/notes.txt",
                             "c/README.md", "p/src/producer/responses/legacy.rs", "c/src/consumer/beacons/old.ts", "other/file"])


def variants(draw, w):
    """The same workflow with parts left out."""
    def some(xs, least=0):
        ys = [x for x in xs if draw(hs.integers(0, 3))]
        return ys if len(ys) >= least else list(xs)

    def bcs(b, least=0):
        return some(b, least) if b else b

    reqs = [W.Req(r.t, r.err, [W.Act(a.concl, a.t, bcs(a.bcs)) for a in r.acts]) for r in some(w.reqs, 1)]
    evs = [W.Ev(e.t, bcs(e.bcs, 1)) for e in some(w.evs)]
    return W.Wf(w.schema, w.selfk, w.asgk, reqs, evs, some(w.beacons), w.producer, w.consumer)


@hs.composite
def histories(draw, w, other):
    ws = [w, other] + [variants(draw, w) for _ in range(draw(hs.integers(1, 3)))]
    steps = [("gen", draw(hs.integers(0, len(ws) - 1)), None)] if draw(hs.integers(0, 5)) else []
    for _ in range(draw(hs.integers(3, 10))):
        k = draw(hs.sampled_from(["gen", "gen", "gen", "edit", "edit", "edit", "drop", "spoil", "manifest", "manifest", "stranger", "bad", "broken"]))
        if k == "gen":
            steps.append((k, draw(hs.integers(0, len(ws) - 1)), draw(hs.sampled_from([None, None, None, "out", "out", "blocked"]))))
        elif k == "edit":
            steps.append((k, draw(hs.integers(0, 99)), draw(hs.one_of(hs.just(b""), hs.binary(max_size=20), hs.just(b"// mine\n" * 3)))))
        elif k in ("drop", "spoil"):
            steps.append((k, draw(hs.integers(0, 99))))
        elif k == "manifest":
            if draw(hs.booleans()):
                v = draw(cargos)
                steps.append((k, draw(hs.sampled_from("pc")) + "/Cargo.toml", toml(v).encode()))
            else:
                steps.append((k, draw(hs.sampled_from("pc")) + "/package.json", json.dumps(draw(packages), ensure_ascii=draw(hs.booleans())).encode()))
        elif k == "stranger":
            steps.append((k, draw(strangers), draw(hs.binary(max_size=10))))
        elif k == "bad":
            steps.append((k, draw(hs.sampled_from(["&config {", "@nothing {", "No.Such !Thing { (X); }\n", "}"]))))
        else:
            steps.append((k, draw(hs.sampled_from(sorted(BROKEN))), draw(hs.integers(0, 2))))
    steps.append(("gen", draw(hs.integers(0, len(ws) - 1)), None))
    return ws, steps


FRESH = {}


def fresh(lab, w, d):
    """What a first generation gives."""
    key = W.text(w) + "\0" + S.text(w.schema)
    if key not in FRESH:
        x = os.path.join(d, "fresh")
        os.makedirs(x)
        R.generate(lab.exe, w, x)
        FRESH[key] = tree(x)
        shutil.rmtree(x)
    return FRESH[key]


def manifests(w):
    return [f"{s}/{'Cargo.toml' if l == 'rust' else 'package.json'}" for s, ls in (("p", w.producer), ("c", w.consumer)) for l in ls]


def play(lab, ws, steps, d, rp, count):
    home = os.path.join(d, "home")
    shutil.rmtree(home, ignore_errors=True)
    os.makedirs(home)
    start = {f"{s}/{n}": t.encode() for s in SIDES for n, t in (("Cargo.toml", R.CARGO_TOML), ("package.json", '{"name": "x", "version": "0.1.0"}\n'))}
    for s in SIDES:
        os.makedirs(os.path.join(home, s, "src"))
    model = {}

    def write(path, data):
        model[path] = data
        put(home, path, data)

    for p, t in start.items():
        write(p, t)

    def docs(w, extra=""):
        write("a.prot", S.text(w.schema).encode())
        write("a.workflow", (W.text(w) + extra).encode())

    def fail(step, why, r):
        raise Violation("again-" + step[0], f"step {show(step)}: {why}\n{r.text()}", rp())

    def compare(step, got, want, r):
        for p in sorted(set(want) - set(got)):
            fail(step, f"{p} is gone", r)
        for p in sorted(set(got) - set(want)):
            fail(step, f"{p} appears", r)
        for p in want:
            if got[p] != want[p]:
                fail(step, f"{p} is\n{got[p][:700]!r}\ninstead of\n{want[p][:700]!r}", r)

    for step in steps:
        k = step[0]
        if k == "gen" or k == "broken":
            w = ws[step[1] if k == "gen" else 0]
            docs(w)
            broken = None
            if k == "broken":
                broken = next((m for m in manifests(w) if m.endswith(step[1])), None)
                if broken is None:
                    continue
                saved = model[broken]
                if step[2] == 2:
                    os.remove(os.path.join(home, broken))
                    del model[broken]
                else:
                    write(broken, BROKEN[step[1]][step[2]])
            new = fresh(lab, w, d)
            # the protocol itself may be asked for in the same call: it is what the producer and the consumer speak
            out = step[2] if k == "gen" else None
            spoken = {e: next((p for p in sorted(new) if re.search(PROTO[e], p)), None) for e in sorted(PROTO)}
            spoken = {e: p for e, p in spoken.items() if p} if out else {}
            if out == "blocked":
                for e in spoken:
                    write("own." + e, b"mine")
            args = ARGS + [a for e in spoken for a in ("-" + e, "own." + e)] + ["--em"] * bool(out) + ["-o"] * (out == "out")
            r = cli(lab.exe, args, home)
            got = tree(home)
            if out == "blocked":
                if r.ok or r.rc == 0 or r.crashed:
                    fail(step, "an existing protocol, which may not be overwritten, is no failure", r)
                compare(step, got, model, r)
                count("blocked")
                continue
            if broken:
                if r.ok or r.rc == 0 or r.crashed:
                    fail(step, "a generation without a readable manifest succeeds or crashes", r)
                # how far it got is not said, but nothing of the user is lost
                keep = {p: b for p, b in model.items() if OWN.match(p) or p not in new}
                for p, b in keep.items():
                    if got.get(p) != b:
                        fail(step, f"{p} is changed or gone", r)
                for p in set(got) - set(model):
                    if p not in new:
                        fail(step, f"{p} appears", r)
                model = got
                write(broken, saved)
                count("broken manifest")
                continue
            if not r.ok:
                fail(step, "a valid workflow is refused", r)
            had = sum(1 for p in model if OWN.match(p))
            for e, p in spoken.items():
                model["own." + e] = new[p]
                count("with its protocol")
            ms = manifests(w)
            for p, b in new.items():
                if p in ms:
                    want = copy.deepcopy(parsed(p, model[p]))
                    want.setdefault("dependencies", {}).update(parsed(p, b)["dependencies"])
                    try:
                        have = parsed(p, got[p])
                    except (KeyError, ValueError) as e:
                        fail(step, f"{p} can't be read any more: {e}", r)
                    if have != want:
                        fail(step, f"{p} has {have!r} instead of {want!r}", r)
                    if model[p] != start[p]:
                        count("own manifest")
                    model[p] = got[p]
                elif p in start:
                    pass
                elif OWN.match(p):
                    if model.get(p, b) != b:
                        count("kept file")
                    model.setdefault(p, b)
                else:
                    model[p] = b
            compare(step, got, model, r)
            count("generation again" if had else "first generation")
        elif k == "bad":
            docs(ws[0], step[1])
            r = cli(lab.exe, ARGS, home)
            if r.ok or r.rc == 0 or r.crashed:
                fail(step, "an invalid workflow is accepted, or crashes the generator", r)
            compare(step, tree(home), model, r)
            count("refused")
        elif k in ("edit", "drop", "spoil"):
            own = k != "spoil"
            fs = [p for p in sorted(model) if (OWN.match(p) is not None) == own and "/src/" in p and (own or "/implementation/" in p or p.endswith(("mod.rs", "index.ts")))]
            if not fs:
                continue
            p = fs[step[1] % len(fs)]
            if k == "drop":
                os.remove(os.path.join(home, p))
                del model[p]
            else:
                write(p, step[2] if k == "edit" else b"spoiled")
        else:
            write(step[1], step[2])
    shutil.rmtree(home)


def show(s):
    return str(s)[:600]


def prop(lab, w, d, rec, seed):
    w, other = w

    def test(h):
        ws, steps = h
        stat = {}

        def count(k):
            stat[k] = stat.get(k, 0) + 1

        def rp():
            return {"prot": S.text(w.schema), "workflows": [W.text(x) for x in ws], "prot of the second": S.text(ws[1].schema), "history": "\n".join(show(s) for s in steps)}

        play(lab, ws, steps, d, rp, count)
        for k, v in stat.items():
            rec.count(k, v)
        rec.case("\0".join(W.text(x) for x in ws) + repr(steps), stat.get("generation again", 0) and (stat.get("kept file") or stat.get("own manifest")),
                 lambda: "\n".join(show(s) for s in steps)[:1200])

    FRESH.clear()
    hyp(histories(w, other), test, lab.n, seed)


EXPORTS = '{"name": "x", "exports": {".": {"types": "./a.d.ts", "import": "./a.mjs", "default": "./a.js"}}}'


def order(ctx, lab, w):
    """Conditions of exports are tried in the order in which they are written."""
    d = ctx.sub("order")
    R.generate(lab.exe, w, d)
    put(d, "p/package.json", EXPORTS.encode())
    r = cli(lab.exe, ARGS, d)
    have = json.loads(tree(d)["p/package.json"])
    ctx.evaluations += 1
    if not r.ok or have.get("exports") != json.loads(EXPORTS)["exports"]:
        raise Violation("again-package", f"exports of package.json are changed: {have!r}\n{r.text()}", {"package.json": EXPORTS})
    if list(have["exports"]["."]) != ["types", "import", "default"]:
        raise Violation("package-order", f"conditions of exports of package.json are sorted: {list(have['exports']['.'])}, so \"default\" wins always", {"package.json": EXPORTS})


def check(ctx):
    ctx.rule = ("a case is a history of generations from changing workflows, with edits, removals and own files of a user, own manifests, failing generations between; "
                "non-trivial with a second generation that meets an edited file or manifest")
    lab = F.WLab(ctx, rust=False)
    lab.n = ctx.pick(25, 80)
    n = ctx.pick(8, 40)
    for i, langs in enumerate((["rust"], ["typescript"], ["rust", "typescript"])):
        o = W.WOpts(producer=langs, consumer=langs if i < 2 else ["typescript", "rust"])
        ws = F.draw_workflows(ctx, 2 * n, o, 50 + i)
        F.run_workflows(ctx, lab, list(zip(ws[::2], ws[1::2])), prop)
        if i == 1:
            try:
                order(ctx, lab, ws[0])
            except Violation as v:
                ctx.report(v)


main("P28", check)

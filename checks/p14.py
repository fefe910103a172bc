"""P14: what the generator writes, and what it leaves alone."""
import hashlib
import os
import shutil

from hypothesis import strategies as hs

import lab as L
import schema as S
from common import Violation, build_cli, cli, diverse, hyp, main, pmap

WORK = {}
FLAGS = {"s": ["-s", "--src", "--source"], "rs": ["-rs", "--dest-rs", "--destination-rs"], "ts": ["-ts", "--dest-ts", "--destination-ts"],
         "o": ["-o", "--ow", "--overwrite"], "em": ["-e", "--em", "--embedded"]}
FILES = ["out.rs", "out.ts"]
HALF = "enum HalfA { u8 x; str y; }\nenum HalfB { HalfA a; str z; }\n"
OLD = {"long": "// " + "previous content " * 30000, "short": "x", "empty": "", "blank": "\n", "folder": None}
SPELL = ["", "", "", "./", "sub/../", "{dir}/"]


def tree(d):
    out = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            with open(p, "rb") as g:
                out[os.path.relpath(p, d)] = hashlib.sha256(g.read()).hexdigest()
    return out


@hs.composite
def runs(draw):
    """One call: which outputs, which exist already, overwriting or not, spelling and order of arguments, a fault."""
    want = draw(hs.sampled_from([("rs",), ("ts",), ("rs", "ts"), ("rs", "ts")]))
    exist = tuple(draw(hs.sampled_from([(), ("rs",), ("ts",), ("rs", "ts")])))
    old = {e: draw(hs.sampled_from(sorted(OLD))) for e in exist}
    spell = {e: draw(hs.sampled_from(SPELL)) for e in want}
    o = draw(hs.booleans())
    fault = draw(hs.sampled_from([None] * 6 + ["no-source", "unknown-flag", "bad-source", "stray", "half"]))
    parts = [[draw(hs.sampled_from(FLAGS["s"])), "nothing.prot" if fault == "no-source" else "a.prot"]]
    for w in want:
        parts.append([draw(hs.sampled_from(FLAGS[w])), spell[w] + "out." + w])
    if o:
        parts.append([draw(hs.sampled_from(FLAGS["o"]))])
    parts.append([draw(hs.sampled_from(FLAGS["em"]))])
    if fault == "unknown-flag":
        parts.append([draw(hs.sampled_from(["--nothing", "-x", "--dest"]))])
    if fault == "stray":
        parts.append(["stray"])
    parts = draw(hs.permutations(parts))
    if fault == "stray" and parts[0] != ["stray"]:
        parts = [["stray"]] + [p for p in parts if p != ["stray"]]
    return dict(want=want, exist=exist, old=old, o=o, fault=fault, args=[a for p in parts for a in p])


def one(arg):
    i, s = arg
    rec = L.Rec()
    d0 = os.path.join(WORK["dir"], f"s{i}")
    try:
        text = S.text(s)
        os.makedirs(d0)
        ref = {}
        L.generate(WORK["exe"], os.path.join(d0, "ref"), text, True, True)
        for e in ("rs", "ts"):
            with open(os.path.join(d0, "ref", "protocol." + e), "rb") as f:
                ref[e] = f.read()
        digest = hashlib.sha256(text.encode()).hexdigest().upper().encode()
        rp0 = {"prot": text}
        for e in ("rs", "ts"):
            if digest not in ref[e]:
                raise Violation("hash", f"the {e} output does not carry SHA-256 of the document", rp0)
        n = [0]

        def test(c):
            n[0] += 1
            d = os.path.join(d0, f"r{n[0]}")
            os.makedirs(d)
            with open(os.path.join(d, "a.prot"), "w") as f:
                f.write(text + {"bad-source": "struct {", "half": HALF}.get(c["fault"], ""))
            os.makedirs(os.path.join(d, "sub"))
            with open(os.path.join(d, "other.rs"), "w") as f:
                f.write("keep me")
            for e in c["exist"]:
                p = os.path.join(d, "out." + e)
                if c["old"][e] == "folder":
                    os.makedirs(p)
                    p = os.path.join(p, "inside")
                with open(p, "w") as f:
                    f.write(OLD[c["old"][e]] or "")
            before = tree(d)
            args = [a.replace("{dir}", d) for a in c["args"]]
            r = cli(WORK["exe"], args, d)
            after = tree(d)
            rp = dict(rp0, call=c)
            rec.case(text + repr(c), bool(c["exist"]) or c["fault"] is not None, lambda: f"{' '.join(c['args'])} with existing {c['exist']}: rc {r.rc}")
            if r.crashed:
                raise Violation("crash", f"clibri {' '.join(c['args'])}: {r.text()[:600]}", rp)
            if c["fault"] == "half":
                # a document one target may refuse after the other one was written: what is refused is not lost
                rec.count("half")
                gone = [k for k in before if k not in after]
                if gone or (r.rc != 0 and "out.ts" in before and after["out.ts"] != before["out.ts"]):
                    raise Violation("lost", f"clibri {' '.join(c['args'])} failed and the existing output is gone or changed: {r.text()[:300]}", rp)
                return
            blocked = not c["o"] and any(e in c["exist"] for e in c["want"])
            folder = [e for e in c["want"] if e in c["exist"] and c["old"][e] == "folder"]
            if folder and not (c["fault"] or blocked):
                # a folder cannot be overwritten; the other output may have been written by then
                rec.count("folder")
                if r.rc == 0:
                    raise Violation("no-failure", f"clibri {' '.join(c['args'])} reports success where an output is a folder", rp)
                for k in set(before) | set(after):
                    if before.get(k) != after.get(k) and k not in {"out." + e for e in c["want"] if e not in folder}:
                        raise Violation("touched", f"clibri {' '.join(c['args'])} failed, but changed {k}", rp)
                return
            if c["fault"] or blocked:
                rec.count("refused")
                if r.rc == 0:
                    raise Violation("no-failure", f"clibri {' '.join(c['args'])} (existing {c['exist']}, fault {c['fault']}) reports success", rp)
                if after != before:
                    raise Violation("touched", f"clibri {' '.join(c['args'])} failed, but changed {sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))}", rp)
                return
            rec.count("done")
            if not r.ok:
                raise Violation("refused", f"clibri {' '.join(c['args'])}: {r.text()[:600]}", rp)
            for e in c["want"]:
                with open(os.path.join(d, "out." + e), "rb") as f:
                    if f.read() != ref[e]:
                        raise Violation("content", f"clibri {' '.join(c['args'])} writes another {e} output than before", rp)
            for k in set(before) | set(after):
                if before.get(k) != after.get(k) and k not in {"out." + e for e in c["want"]}:
                    raise Violation("touched", f"clibri {' '.join(c['args'])} changed {k}", rp)
            shutil.rmtree(d)

        hyp(runs(), test, WORK["n"], WORK["seed"] + i)
    except Violation as v:
        rec.viol.append(v)
    finally:
        shutil.rmtree(d0, ignore_errors=True)
    return rec.res()


def check(ctx):
    ctx.rule = ("a case is one call of the generator: outputs asked for, outputs that exist (long, short, empty, a folder), overwriting or not, spelling and "
                "order of arguments, a fault (missing or invalid source, unknown argument); non-trivial with an existing output or a fault")
    WORK.update(exe=build_cli(ctx), dir=ctx.sub("p"), n=ctx.pick(40, 150), seed=ctx.seed * 1000)
    for r in pmap(one, list(enumerate(diverse(S.schemas(S.Opts(max_items=4)), ctx.pick(40, 200), ctx.seed, S.weight)))):
        ctx.absorb(r)


main("P14", check)

"""P22: every valid workflow gives code that type-checks, compiles and loads, with the declared interface."""
import os
import shutil

import lab as L
import schema as S
import wf as W
import wflab as F
import wfrust as R
import wfts as T
from common import CheckError, Violation, main, pmap, sh
from tsgen import captured, typecheck

WORK = {}


def ts(arg):
    i, ws = arg
    rec = L.Rec()
    d = os.path.join(WORK["dir"], f"t{i}")
    os.makedirs(d)
    try:
        files = []
        for j, w in enumerate(ws):
            x = os.path.join(d, f"w{j}")
            os.makedirs(x)
            rec.case(W.text(w) + S.text(w.schema), bool(w.reqs or w.evs), lambda: W.text(w)[:600])
            R.generate(WORK["lab"].exe, w, x)
            T.link(x)
            for side, probe in (("p", T.producer_probe), ("c", T.consumer_probe)):
                with open(os.path.join(x, side, "probe.ts"), "w") as f:
                    f.write(probe(w))
            files += T.sources(x)
        errs = typecheck(files, d)
        for j, w in enumerate(ws):
            mine = [e for e in errs if f"w{j}/" in e]
            if mine:
                rec.viol.append(Violation("ts-check", "the TypeScript code of a workflow does not type-check: " + "\n".join(mine)[:2500], R.replay(w)))
                return rec.res()
        if errs:
            raise CheckError("type errors outside of the cases: " + errs[0])
        for j, w in enumerate(ws):
            load(w, os.path.join(d, f"w{j}"))
            rec.count("TypeScript workflows")
    except Violation as v:
        rec.viol.append(v)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return rec.res()


def load(w, d):
    hp, hw = F.hashes(w)
    for side, mod, test in (("p", "producer", f"m.Producer.hash.PROTOCOL === '{hp}' && m.Producer.hash.WORKFLOW === '{hw}' && typeof m.Context === 'function'"),
                            ("c", "consumer", f"m.Consumer.PROTOCOL_HASH === '{hp}' && m.Consumer.WORKFLOW_HASH === '{hw}' && " +
                             " && ".join(f"typeof m.{n} === 'function'" for n in [T.joined(r.t) for r in w.reqs] + ["Beacon" + T.joined(t) for t in w.beacons]))):
        out = os.path.join(d, side + ".js")
        rc, o = T.bundle(os.path.join(d, side, "src", mod, "index.ts"), out)
        if rc != 0:
            raise Violation("ts-bundle", f"the TypeScript {mod} of a workflow does not bundle: {o[:1500]}", R.replay(w))
        rc, o = sh(["node", "-e", f"const m = require('{out}'); if (!({test})) {{ console.log('exports or hashes are wrong'); process.exit(3); }}"], timeout=60)
        if rc != 0:
            raise Violation("ts-load", f"the TypeScript {mod} of a workflow does not load or has wrong hashes: {o[:1500]}", R.replay(w))


def rust(arg):
    """The output as it is generated, with handlers not yet written."""
    i, w = arg
    rec = L.Rec()
    d = os.path.join(WORK["dir"], f"r{i}")
    os.makedirs(d)
    try:
        rec.case("rust" + W.text(w) + S.text(w.schema), bool(w.reqs or w.evs), lambda: W.text(w)[:600])
        R.generate(WORK["lab"].exe, w, d)
        with open(os.path.join(d, "main.rs"), "w") as f:
            f.write('#![allow(warnings)]\n#[path = "p/src/producer/mod.rs"]\npub mod producer;\n#[path = "c/src/consumer/mod.rs"]\npub mod consumer;\nfn main() {}\n')
        rc, out = R.rustc(WORK["lab"].deps + ["--emit", "metadata"], os.path.join(d, "main.rs"), os.path.join(d, "m"))
        R.compiled(rc, out, w, "the generated code")
        rec.count("Rust workflows")
    except Violation as v:
        rec.viol.append(v)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return rec.res()


def any_of(job):
    return (ts if job[0] == "ts" else rust)(job[1])


def check(ctx):
    ctx.rule = ("a case is a generated workflow and target; non-trivial when it declares a request or an event; distinct by text and target; "
                "excluded: names of groups and types that TypeScript binds to an inner namespace (known finding of P11)")
    WORK.update(lab=F.WLab(ctx), dir=ctx.sub("w"))
    both = dict(producer=["typescript"], consumer=["typescript"])
    same = dict(wide=False, enum_struct_arr=False)
    o = W.WOpts(**both)
    plain = W.WOpts(**both, schema=S.Opts(max_items=9, max_depth=3, max_fields=4, shadow=False, **same))
    big = W.WOpts(**both, max_reqs=8, max_acts=5, max_bcs=6, max_evs=6, max_beacons=6, min_structs=14,
                  schema=S.Opts(max_items=16, max_depth=4, max_fields=5, shadow=False, enum_struct_arr=False))
    ws = F.draw_workflows(ctx, ctx.pick(40, 500), o, 22) + F.draw_workflows(ctx, ctx.pick(48, 600), plain, 25) + F.draw_workflows(ctx, ctx.pick(16, 200), big, 23)
    ws = [w for w in ws if not captured(w.full)]
    n = 8
    jobs = [("ts", (i, ws[a:a + n])) for i, a in enumerate(range(0, len(ws), n))]
    jobs += [("rust", x) for x in enumerate(F.draw_workflows(ctx, ctx.pick(16, 200), salt=24))]
    for r in pmap(any_of, jobs):
        ctx.absorb(r)


main("P22", check)

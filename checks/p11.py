"""P11: every valid document gives TypeScript code that type-checks and loads, with the declared types."""
import os
import shutil

import lab as L
import schema as S
from common import CheckError, Violation, build_cli, main, pmap, sh
from tsgen import captured, transpile, typecheck

WORK = {}
PT = {"str": "string", "bool": "boolean", "u64": "bigint", "i64": "bigint"}


def tpath(t, prefix=""):
    return "P." + ".".join(t.path[:-1] + [prefix + t.path[-1]])


def ttype(ty, arr, opt=False):
    if isinstance(ty, str):
        b = PT.get(ty, "number")
    else:
        b = tpath(ty.to, "I" if ty.to.kind == "enum" else "")
    if arr:
        b = f"Array<{b}>"
    return f"{b} | undefined" if opt else b


def probe(s, mod):
    o = [f"import * as P from './{mod}';",
         "type Eq<A, B> = (<T>() => T extends A ? 1 : 2) extends (<T>() => T extends B ? 1 : 2) ? true : false;"]
    n = 0
    for t in s.types:
        if t.kind == "struct":
            for f in t.fields:
                n += 1
                o.append(f"const c{n}: Eq<{tpath(t)}['{f.name}'], {ttype(f.ty, f.arr, f.opt)}> = true;")
            o.append(f"const k{t.idx}: {tpath(t)} | Error = {tpath(t)}.from({{}});")
            o.append(f"const b{t.idx}: ArrayBufferLike = {tpath(t)}.defaults().pack(1);")
        else:
            for v in t.variants:
                n += 1
                o.append(f"const c{n}: Eq<{tpath(t, 'I')}['{v.name}'], {ttype(v.ty or 'str', v.arr, True)}> = true;")
            o.append(f"const k{t.idx}: {tpath(t, 'I')} | Error = {tpath(t)}.from({{}});")
        # the message that carries it
        m = "P.IAvailableMessages"
        for g in t.path[:-1]:
            m = f"NonNullable<{m}['{g}']>"
        o.append(f"const m{t.idx}: Eq<NonNullable<{m}['{t.path[-1]}']>, {tpath(t, 'I' if t.kind == 'enum' else '')}> = true;")
    return "\n".join(o) + "\n"


def many(arg):
    i, xs = arg
    rec = L.Rec()
    d = os.path.join(WORK["dir"], f"s{i}")
    os.makedirs(d, exist_ok=True)
    texts = [S.text(s) for s in xs]
    try:
        files = []
        for j, (s, text) in enumerate(zip(xs, texts)):
            try:
                L.generate(WORK["exe"], d, text, False, True, name=f"m{j}")
            except Violation as v:
                v.replay["prot"] = text
                rec.viol.append(v)
                continue
            with open(os.path.join(d, f"t{j}.ts"), "w") as f:
                f.write(probe(s, f"m{j}"))
            files.append(f"t{j}.ts")
        errs = typecheck(files, d)
        bad = {}
        for e in errs:
            k = e.split("(")[0].split("/")[-1][1:-3]
            bad.setdefault(int(k), []).append(e)
        for j, (s, text) in enumerate(zip(xs, texts)):
            rec.case(text, len(s.types) > 2, lambda: text[:600])
            rec.count("groups", len(s.groups))
            if j in bad:
                small = S.reduce_schema(s, lambda c: breaks(c, d), 12)
                rec.viol.append(Violation("ts-types", "generated TypeScript does not type-check, or lacks a declared type: "
                                          + "\n".join(bad[j][:4])[:1500] + "\nreduced document:\n" + S.text(small), {"prot": text, "reduced": S.text(small)}))
                continue
            js = os.path.join(d, f"m{j}.js")
            rc, out = transpile(os.path.join(d, f"m{j}.ts"), js)
            if rc == 0:
                rc, out = sh(["node", "-e", f"require({js!r})"], timeout=100)
            rec.case(text + "load", False)
            if rc != 0:
                rec.viol.append(Violation("ts-load", "generated TypeScript module does not load: " + out[:1000], {"prot": text}))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return rec.res()


def breaks(s, d):
    sub = os.path.join(d, "r")
    shutil.rmtree(sub, ignore_errors=True)
    try:
        L.generate(WORK["exe"], sub, S.text(s), False, True, name="m")
    except Violation:
        return True
    with open(os.path.join(sub, "t.ts"), "w") as f:
        f.write(probe(s, "m"))
    return bool(typecheck(["t.ts"], sub))


FIX = [
    ("namespace-capture", "group G {\n    group G {\n        struct A {\n            u8 x;\n        }\n        struct B {\n            G.G.A a;\n        }\n    }\n}\n"
     .replace("G.G.A a", "A a")),
    ("struct-array-variant", "struct A {\n    u8 x;\n}\nenum E {\n    A[] V;\n    u8 w;\n}\n"),
]


def known(ctx):
    import parse
    d = ctx.sub("known")
    for sig, text in FIX:
        s = parse.parse(text)
        if breaks(s, d):
            ctx.report(Violation(sig, f"generated TypeScript does not type-check: {text!r}", {"prot": text}))


def check(ctx):
    ctx.rule = ("a case is a document; non-trivial with more than two types; the type-checked probe compares the type of every field, "
                "variant and message with the declared one; then the module is loaded by node; distinct by document")
    ctx.assumptions = ["names of a document are not words reserved in TypeScript, and not names of the static part of generated code",
                       "diagnostics about ArrayBufferLike/Buffer of newer typings are left out",
                       "documents of the listed findings are left out by construction: references that an inner namespace captures, arrays of structs in variants"]
    WORK.update(exe=build_cli(ctx), dir=ctx.sub("p"))
    xs = L.draw_schemas(ctx, ctx.pick(160, 1200), S.Opts(max_items=8, max_depth=4, max_fields=7), keep=lambda s: not captured(s))
    per = 10
    for r in pmap(many, [(i, xs[i * per:(i + 1) * per]) for i in range((len(xs) + per - 1) // per)]):
        ctx.absorb(r)
    known(ctx)


main("P11", check)

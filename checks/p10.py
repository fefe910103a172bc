"""P10: every valid document gives native code that compiles, with the declared types."""
import os
import shutil

import lab as L
import schema as S
from common import CheckError, Violation, build_cli, h, main, pmap, rust_env, rustc_path, sh
from rustgen import build_bytes, driver

WORK = {}


def one(arg):
    i, s = arg
    rec = L.Rec()
    d = os.path.join(WORK["dir"], f"s{i}")
    text = S.text(s)
    try:
        L.generate(WORK["exe"], d, text, True, False)
        for mw in (True, False):
            with open(os.path.join(d, "main.rs"), "w") as f:
                f.write(driver(s, mw))
            rc, out = sh([rustc_path(), "--edition", "2021", "--emit=metadata", "--cap-lints", "allow", "--crate-name", "driver",
                          "--extern", f"bytes={WORK['bytes']}", "-o", os.path.join(d, "o.rmeta"), os.path.join(d, "main.rs")],
                         env=rust_env(), timeout=300)
            rec.case(text + str(mw), len(s.types) > 2, lambda: text[:600])
            if rc != 0:
                if not any(l.startswith("error") for l in out.splitlines()):
                    raise CheckError("rustc failed: " + out[-1500:])
                raise Violation("rust-compile", "generated Rust code does not compile, or lacks a declared type: " + out[:1800], {"prot": text})
        # as a file of its own
        rc, out = sh([rustc_path(), "--edition", "2018", "--crate-type", "lib", "--emit=metadata", "--cap-lints", "allow", "--crate-name",
                      "p", "--extern", f"bytes={WORK['bytes']}", "-o", os.path.join(d, "p.rmeta"), "-"],
                     env=rust_env(), timeout=300, input=f"#[path=\"{d}/protocol.rs\"] pub mod protocol;".encode())
        rec.case(text + "alone", False)
        if rc != 0:
            raise Violation("rust-compile", "generated Rust code does not compile on its own: " + out[:1500], {"prot": text})
        rec.count("references", sum(1 for t in s.types for x in (t.fields if t.kind == "struct" else t.variants) if x.ty and not isinstance(x.ty, str)))
        rec.count("groups", len(s.groups))
    except Violation as v:
        v.replay.setdefault("prot", text)
        if v.sig == "rust-compile":
            small = S.reduce_schema(s, lambda c: not compiles(c, d), 40)
            v.replay["reduced"] = S.text(small)
            v.text += "\nreduced document:\n" + S.text(small)
        rec.viol.append(v)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return rec.res()


def compiles(s, d):
    sub = os.path.join(d, "r")
    shutil.rmtree(sub, ignore_errors=True)
    try:
        L.generate(WORK["exe"], sub, S.text(s), True, False)
    except Violation:
        return False
    with open(os.path.join(sub, "main.rs"), "w") as f:
        f.write(driver(s, True))
    rc, _ = sh([rustc_path(), "--edition", "2021", "--emit=metadata", "--cap-lints", "allow", "--crate-name", "driver", "--extern",
                f"bytes={WORK['bytes']}", "-o", os.path.join(sub, "o.rmeta"), os.path.join(sub, "main.rs")], env=rust_env(), timeout=300)
    return rc == 0


def check(ctx):
    ctx.rule = ("a case is a (document, way of compiling); non-trivial with more than two types; the compiled program names every declared "
                "type by its path and every field and variant with its declared type; distinct by document")
    ctx.assumptions = ["names of a document are not words reserved in Rust, and not names of the static part of generated code"]
    WORK.update(exe=build_cli(ctx), bytes=build_bytes(ctx), dir=ctx.sub("p"))
    rustc_path()
    xs = L.draw_schemas(ctx, ctx.pick(110, 900), S.Opts(max_items=8, max_depth=4, max_fields=7, enum_struct_arr=True))
    for r in pmap(one, list(enumerate(xs))):
        ctx.absorb(r)


main("P10", check)

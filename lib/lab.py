"""Schemas turned into running code: .prot -> CLI -> native driver and/or node driver."""
import os
import shutil
from hypothesis import strategies as hs

import common
import schema as S
from common import CheckError, Violation, build_cli, cli, diverse, h, hyp, pmap, rustc_path
from proc import Crash, Hang
from rustgen import Panic, RustDriver, build_bytes, compile_rust, driver
from tsgen import TsDriver, TsError, captured, transpile


class Lab:
    def __init__(self, ctx, rust=True, ts=False):
        self.ctx, self.rust, self.ts = ctx, rust, ts
        self.exe = build_cli(ctx)
        self.bytes = build_bytes(ctx) if rust else None
        if rust:
            rustc_path()


class Rec:
    """What a worker saw."""

    def __init__(self):
        self.n, self.keys, self.samples, self.counts, self.viol = 0, set(), [], {}, []

    def case(self, key, nontrivial, sample=None):
        self.n += 1
        if nontrivial:
            k = h(key)
            if k not in self.keys and sample is not None and len(self.samples) < 2 and (self.n % 7 == 3 or self.n > 40):
                self.samples.append(sample() if callable(sample) else sample)
            self.keys.add(k)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def res(self):
        return dict(evaluations=self.n, distinct=self.keys, samples=self.samples, counts=self.counts, violations=self.viol)


class Built:
    def __init__(self):
        self.rs = self.tsd = None

    def stop(self):
        for d in (self.rs, self.tsd):
            if d:
                d.stop()


def generate(exe, d, text, rust, ts, name="protocol"):
    """Runs the CLI; raises Violation when a valid document is refused."""
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, name + ".prot"), "w") as f:
        f.write(text)
    args = ["-s", name + ".prot"]
    if rust:
        args += ["-rs", name + ".rs"]
    if ts:
        args += ["-ts", name + ".ts"]
    r = cli(exe, args + ["-o", "--em"], d)
    if not r.ok:
        raise Violation("valid-refused", "the generator refuses or fails on a valid document: " + r.text(), {"prot": text})
    for e, want in ((".rs", rust), (".ts", ts)):
        if want and not os.path.exists(os.path.join(d, name + e)):
            raise Violation("no-output", f"the generator reports success without writing {name + e}: " + r.text(), {"prot": text})
    return r


def build(lab, schema, d, text=None, middleware=True):
    """-> Built; raises Violation when generated code does not compile or load."""
    text = text or S.text(schema)
    generate(lab.exe, d, text, lab.rust, lab.ts)
    b = Built()
    b.text = text
    if lab.rust:
        with open(os.path.join(d, "main.rs"), "w") as f:
            f.write(driver(schema, middleware))
        rc, out = compile_rust(d, "main.rs", os.path.join(d, "driver"), lab.bytes)
        if rc != 0:
            errs = [l for l in out.splitlines() if l.startswith("error")]
            if not errs or "linking" in out or "rustc interrupted" in out:
                raise CheckError("rustc failed: " + out[-2000:])
            raise Violation("rust-compile", "generated Rust code does not compile (or lacks a declared type): " + out[:1800], {"prot": text})
        b.rs = RustDriver(os.path.join(d, "driver"), schema)
    if lab.ts:
        js, desc = os.path.join(d, "protocol.js"), os.path.join(d, "schema.json")
        rc, out = transpile(os.path.join(d, "protocol.ts"), js)
        if rc != 0:
            raise Violation("ts-syntax", "generated TypeScript is not valid: " + out[:1500], {"prot": text})
        with open(desc, "w") as f:
            f.write(S.to_json(schema))
        b.tsd = TsDriver(js, desc, schema)
        try:
            b.tsd.hash()
        except (TsError, CheckError) as e:
            # loads at all?
            from common import sh
            rc, out = sh(["node", "-e", f"require({js!r})"], timeout=60)
            if rc != 0:
                raise Violation("ts-load", "generated TypeScript module does not load: " + out[:1500], {"prot": text})
            rc, out = sh(["node", b.tsd.cmd[2], js, desc], timeout=60, input=b"")
            raise Violation("ts-load", "a declared type is missing in generated TypeScript: " + (out + str(e))[:1500], {"prot": text})
    return b


def fresh(drvs, fn):
    """A history of its own processes: what it leaves behind after a failure reaches no other."""
    try:
        return fn()
    except BaseException:
        for d in drvs:
            d.stop()
        raise


def guarded(fn, what, replay):
    """Runs one call on generated code; its death is a violation."""
    try:
        return fn()
    except Panic as e:
        raise Violation("panic", f"{what}: panicked: {e}", replay)
    except Hang as e:
        raise Violation("hang", f"{what}: {e}", replay)
    except Crash as e:
        raise Violation("crash", f"{what}: {e.what}", replay)
    except TsError as e:
        raise Violation("ts-throw", f"{what}: {str(e)[:700]}", replay)


_state = {}


def _one(arg):
    i, s = arg
    lab, fn, seed, work = _state["lab"], _state["fn"], _state["seed"], _state["work"]
    rec = Rec()
    if common._found.value >= common.ENOUGH:
        return rec.res()
    d = os.path.join(work, f"s{i}")
    b = None
    try:
        b = build(lab, s, d)
        rec.count("schemas")
        rec.count("types", len(s.types))
        fn(s, b, rec, seed * 1000 + i)
    except Violation as v:
        v.replay.setdefault("prot", S.text(s))
        v.replay.setdefault("schema_index", i)
        rec.viol.append(v)
    finally:
        if b:
            b.stop()
        shutil.rmtree(d, ignore_errors=True)
    return rec.res()


def run_schemas(ctx, lab, schemas, fn, procs=None):
    """fn(schema, built, rec, seed) over the schemas, in parallel; results are absorbed."""
    _state.update(lab=lab, fn=fn, seed=ctx.seed, work=ctx.sub("schemas"))
    for r in pmap(_one, list(enumerate(schemas)), procs):
        ctx.absorb(r)


def draw_schemas(ctx, n, o, keep=None):
    st = S.schemas(o)
    xs = []
    k = 0
    while len(xs) < n and k < 6:
        for s in diverse(st, n - len(xs), ctx.seed + 7919 * k, S.weight):
            if keep is None or keep(s):
                xs.append(s)
        k += 1
    return xs


def typed_values(schema, vo=None):
    """Strategy of (type, value)."""
    vo = vo or S.VOpts()
    cache = {}
    ts = [t for t in schema.types if t.kind == "struct" or t.variants]
    return hs.one_of(*[hs.tuples(hs.just(t), S.values(t, vo, cache)) for t in ts])


def rich(t, body):
    """Non-trivial: the encoded form carries data, and the type has more than one plain field."""
    if t.kind == "enum":
        return len(body) > 2
    return len(body) > 3 and (len(t.fields) > 1 or any(f.arr or f.opt or not isinstance(f.ty, str) for f in t.fields))


def show_case(t, v):
    return f"{'.'.join(t.path)} = {S.show(v)}"

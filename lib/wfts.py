"""TypeScript code generated for a workflow: typed probe, handlers, bundling."""
import json
import os
import struct as st

import schema as S
import wf as W
import wfrust as R
from common import CheckError, VERIF, Violation, sh
from proc import Proc
from tsgen import BIN, TsError

EQ = "type Eq<A, B> = (<T>() => T extends A ? 1 : 2) extends (<T>() => T extends B ? 1 : 2) ? true : false;"


def joined(t):
    return W.dotted(t).replace(".", "")


def low(t):
    n = joined(t)
    return n[:1].lower() + n[1:]


def mod(t):
    return W.dotted(t).lower()


def proto(t):
    return "Protocol." + W.dotted(t)


def iface(t):
    return "Protocol." + ".".join(t.path[:-1] + ["I" + t.path[-1]])


def link(d):
    """The runtime package for what is generated in d."""
    for s in ("p", "c"):
        nm = os.path.join(d, s, "node_modules")
        os.makedirs(nm, exist_ok=True)
        if not os.path.exists(os.path.join(nm, "clibri")):
            os.symlink(os.path.join(VERIF, "js", "clibri"), os.path.join(nm, "clibri"))


def sources(d):
    out = []
    for s in ("p", "c"):
        for r, ds, fs in os.walk(os.path.join(d, s)):
            if "node_modules" in ds:
                ds.remove("node_modules")
            out += [os.path.join(r, f) for f in sorted(fs) if f.endswith(".ts")]
    return out


class Asserts:
    def __init__(self):
        self.o, self.n = [EQ], 0

    def eq(self, a, b):
        self.n += 1
        self.o.append(f"const eq{self.n}: Eq<{a}, {b}> = true;")


def union(ts):
    return " | ".join(proto(t) for t in ts)


def keys(ts):
    return " | ".join(f"'{joined(t)}'" for t in ts) or "never"


def uniq(bcs):
    out = []
    for b in bcs:
        if b.t not in out:
            out.append(b.t)
    return out


def producer_probe(w):
    a = Asserts()
    im = ["import * as Protocol from './src/producer/implementation/protocol';", "import { Producer, Context } from './src/producer';",
          "import { Scope } from './src/producer/implementation/scope';", "import { Identification, Filter } from './src/producer/implementation/consumer';",
          "import { Options, Server, Subject } from 'clibri';"]
    for k, r in enumerate(w.reqs):
        im += [f"import {{ Response as R{k} }} from './src/producer/implementation/responses/{mod(r.t)}';",
               f"import {{ response as r{k} }} from './src/producer/responses/{mod(r.t)}';"]
        a.eq(f"ConstructorParameters<typeof R{k}>[0]", union([x.t for x in r.acts] + [r.err]))
        a.eq(f"typeof r{k}", f"(request: {proto(r.t)}, scope: Scope) => Promise<R{k}>")
        bs = uniq([b for x in r.acts for b in x.bcs])
        if bs:
            a.eq(f"keyof ReturnType<R{k}['broadcast']>", keys(bs))
            for t in bs:
                a.eq(f"ReturnType<R{k}['broadcast']>['{joined(t)}']", f"(msg: {proto(t)}) => R{k}")
    evs = []
    for k, e in enumerate(w.evs):
        im.append(f"import {{ emit as e{k} }} from './src/producer/events/{mod(e.t)}';")
        out = "void"
        if e.bcs:
            im.append(f"import {{ Output as O{k} }} from './src/producer/implementation/events/{mod(e.t)}';")
            out = f"O{k}"
            a.eq(f"keyof ReturnType<O{k}['broadcast']>", keys(uniq(e.bcs)))
            for t in uniq(e.bcs):
                a.eq(f"ReturnType<O{k}['broadcast']>['{joined(t)}']", f"(msg: {proto(t)}) => O{k}")
        arg = "consumer: Identification" if e.default() else f"event: {proto(e.t)}"
        a.eq(f"typeof e{k}", f"({arg}, filter: Filter, context: Context, producer: Producer) => Promise<{out}>")
        if not e.default():
            evs.append(f"{low(e.t)}: Subject<{proto(e.t)}>")
    a.eq("Producer['events']", "{ " + "; ".join(evs) + " }")
    for k, t in enumerate(w.beacons):
        im.append(f"import {{ emit as b{k} }} from './src/producer/beacons/{mod(t)}';")
        a.eq(f"typeof b{k}", f"(beacon: {proto(t)}, scope: Scope) => Promise<void>")
    a.eq("ReturnType<Identification['getKey']>", f"{proto(w.key_t)} | undefined")
    a.eq("ReturnType<Identification['getAssigned']>", f"{proto(w.asg_t)} | undefined")
    a.eq("Parameters<Identification['assign']>", f"[{proto(w.asg_t)}, boolean]")
    a.o.append("export function start(s: Server): Promise<void> { return new Producer(s, new Context(), new Options({})).listen(); }")
    return "\n".join(im + a.o) + "\n"


def consumer_probe(w):
    a = Asserts()
    names = [joined(r.t) for r in w.reqs] + ["Beacon" + joined(t) for t in w.beacons]
    im = ["import { " + ", ".join(["Consumer", "Protocol", "ExtError"] + names) + " } from './src/consumer';", "import { Client, Subject } from 'clibri';"]
    a.eq("Consumer['broadcast']", "{ " + "; ".join(f"{joined(t)}: Subject<{proto(t)}>" for t in w.broadcasts()) + " }")
    a.eq("ConstructorParameters<typeof Consumer>[1]", iface(w.key_t))
    a.eq("Consumer['error']", "Subject<ExtError.TError>")
    for r in w.reqs:
        n = joined(r.t)
        a.eq(f"ReturnType<{n}['send']>", f"Promise<{union([x.t for x in r.acts] + [r.err])}>")
        a.eq(f"ConstructorParameters<typeof {n}>[0]", iface(r.t))
        for x in r.acts:
            h = x.concl.lower() if len(r.acts) > 1 else "response"
            a.eq(f"Parameters<{n}['{h}']>[0]", f"(response: {proto(x.t)}) => void")
            a.eq(f"ReturnType<{n}['{h}']>", n)
        a.eq(f"Parameters<{n}['err']>[0]", f"(response: {proto(r.err)}) => void")
    for t in w.beacons:
        n = "Beacon" + joined(t)
        a.eq(f"ReturnType<{n}['send']>", "Promise<void>")
        a.eq(f"ConstructorParameters<typeof {n}>[0]", iface(t))
    a.o.append(f"export function start(c: Client, k: {iface(w.key_t)}): Consumer {{ return new Consumer(c, k, {{ global: false }}); }}")
    return "\n".join(im + a.o) + "\n"


def bundle(entry, out, timeout=120):
    return sh([os.path.join(BIN, "esbuild"), entry, "--bundle", "--platform=node", "--format=cjs", "--target=es2022", "--log-level=error",
               "--tsconfig-raw={\"compilerOptions\":{\"useDefineForClassFields\":false}}", "--outfile=" + out], timeout=timeout)


# -- producer ---------------------------------------------------------------------
def describe(w):
    full = S.describe(w.full)
    idx = {id(t): t.idx for t in w.full.types}
    i = lambda t: idx[id(t)]

    def bcs(bs):
        return [{"t": i(b.t), "opt": b.opt, "name": joined(b.t)} for b in bs]

    return json.dumps({
        "schema": full, "key": i(w.key_t), "asg": i(w.asg_t),
        "reqs": [{"t": i(r.t), "err": i(r.err), "acts": [{"t": i(a.t), "bcs": bcs(a.bcs), "concl": a.concl} for a in r.acts], "name": joined(r.t)} for r in w.reqs],
        "evs": [{"t": -1 if e.default() else i(e.t), "low": "" if e.default() else low(e.t), "bcs": bcs(e.bcs)} for e in w.evs],
        "beacons": [i(t) for t in w.beacons], "bnames": [joined(t) for t in w.beacons],
        "bcs": [{"t": i(t), "name": joined(t)} for t in w.broadcasts()]})


def replace(path, text):
    """A handler, which was generated for the user to fill in, written by the user."""
    if not os.path.exists(path):
        raise Violation("no-handler", f"a declared handler isn't generated: {os.path.basename(path)}")
    with open(path, "w") as f:
        f.write(text)


def producer_handlers(w, d):
    h = "(globalThis as any).H"
    for k, r in enumerate(w.reqs):
        replace(os.path.join(d, "responses", mod(r.t) + ".ts"), f"""import {{ Response }} from "../implementation/responses/{mod(r.t)}";
export function response(request: any, scope: any): Promise<Response> {{ return {h}.request({k}, request, scope, Response); }}
""")
    have = {e.t for e in w.evs if e.default()}
    evs = [(k, mod(e.t), bool(e.bcs)) for k, e in enumerate(w.evs)] + [(k, n, False) for k, n in ((1000, "connected"), (1001, "disconnected")) if n not in have]
    for k, n, out in evs:
        im = f'import {{ Output }} from "../implementation/events/{n}";\n' if out else ""
        replace(os.path.join(d, "events", n + ".ts"), im + f"""export function emit(event: any, filter: any, context: any, producer: any): Promise<any> {{
    return {h}.event({k}, event, filter, {"Output" if out else "undefined"});
}}
""")
    for k, t in enumerate(w.beacons):
        replace(os.path.join(d, "beacons", mod(t) + ".ts"), f"export function emit(beacon: any, scope: any): Promise<void> {{ return {h}.beacon({k}, beacon, scope); }}\n")
    replace(os.path.join(d, "events", "error.ts"), f"export function emit(e: any, context: any, producer: any, consumer: any, filter: any): Promise<void> {{ return {h}.error(e, consumer, filter); }}\n")
    replace(os.path.join(d, "events", "ready.ts"), f"export function emit(context: any, producer: any): Promise<void> {{ return {h}.ready(); }}\n")
    replace(os.path.join(d, "events", "shutdown.ts"), f"export function emit(context: any, producer: any): Promise<void> {{ return {h}.shutdown(); }}\n")


def built(w, d, side, entry, what):
    with open(os.path.join(d, side, "entry.ts"), "w") as f:
        f.write(entry)
    link(d)
    rc, out = bundle(os.path.join(d, side, "entry.ts"), os.path.join(d, side + ".js"))
    if rc != 0:
        raise Violation("ts-bundle", f"the TypeScript {what} does not bundle: {out[:1500]}", R.replay(w))
    with open(os.path.join(d, "desc.json"), "w") as f:
        f.write(describe(w))


def build_producer(lab, w, d, generated=False, sub=""):
    if not generated:
        R.generate(lab.exe, w, d)
    at = os.path.join("src/producer", sub).rstrip("/")
    try:
        producer_handlers(w, os.path.join(d, "p", at))
    except Violation as v:
        v.replay.update(R.replay(w))
        raise
    built(w, d, "p", f"""export {{ Producer, Context }} from "./{at}";
export * as Protocol from "./{at}/implementation/protocol";
export * as clibri from "clibri";
""", "producer")
    return ProducerDriver(os.path.join(d, "p.js"), os.path.join(d, "desc.json"), w)


class TsProc(Proc):
    def op(self, payload):
        r = self.call(payload)
        if r[:1] in (b"\x02", b"\x03"):
            t = r[1:].decode("utf-8", "replace")
            if "harness:" in t:
                raise CheckError(t)
            raise TsError(t)
        return self.records(S.Rd(r[1:]))


class ProducerDriver(TsProc):
    def __init__(self, js, desc, w):
        super().__init__(["node", "--max-old-space-size=512", os.path.join(VERIF, "js", "wfproducer.js"), js, desc])
        self.w = w

    def start_run(self, ident, err, bad, plans):
        o = [b"\x01", bytes([ident, err, bad]), st.pack("<I", len(plans))]
        for (kind, k), ps in plans.items():
            o.append(kind.encode() + st.pack("<HI", k, len(ps)) + b"".join(R.put(p) for p in ps))
        return self.op(b"".join(o))

    def events(self, evs):
        return self.op(b"\x02" + st.pack("<I", len(evs)) + b"".join(
            bytes([k]) + st.pack("<I", R.NONE if u is None else u) + R.put(v) for k, u, v in evs))

    def ctl(self, ops):
        return self.op(b"\x03" + R.put(ops))

    def fail(self, us):
        return self.op(b"\x04" + st.pack("<I", len(us)) + b"".join(st.pack("<I", u) for u in us))

    def destroy(self):
        return self.op(b"\x05")

    def release(self, i):
        return self.op(b"\x06" + st.pack("<I", i))

    def records(self, r):
        return R.records(r)


# -- consumer ---------------------------------------------------------------------
def build_consumer(lab, w, d, generated=False, sub=""):
    if not generated:
        R.generate(lab.exe, w, d)
    at = os.path.join("src/consumer", sub).rstrip("/")
    exports = "".join(f", {joined(r.t)}" for r in w.reqs) + "".join(f", Beacon{joined(t)}" for t in w.beacons)
    built(w, d, "c", f"""export {{ Consumer, ExtError, Protocol{exports} }} from "./{at}";
export * as clibri from "clibri";
""", "consumer")
    return ConsumerDriver(os.path.join(d, "c.js"), os.path.join(d, "desc.json"))


class ConsumerDriver(TsProc):
    def __init__(self, js, desc):
        super().__init__(["node", "--max-old-space-size=512", os.path.join(VERIF, "js", "wfconsumer.js"), js, desc])

    def start_run(self, glob, twice, key, plans):
        o = [b"\x01", bytes([glob, twice]), R.put(key), st.pack("<I", len(plans))]
        for (kind, k), ps in plans.items():
            o.append(kind.encode() + st.pack("<HI", k, len(ps)) + b"".join(R.put(p) for p in ps))
        return self.op(b"".join(o))

    def events(self, evs):
        return self.op(b"\x02" + st.pack("<I", len(evs)) + b"".join(bytes([k]) + R.put(v) for k, v in evs))

    def begin(self, id, flags, call, prompt=None):
        """prompt: a package which answers at once"""
        return self.op(b"\x03" + R.put(id.encode()) + bytes([flags | (4 if prompt else 0)]) + (R.put(prompt) if prompt else b"") + call)

    def begin_all(self, calls):
        return self.op(b"\x03" + b"".join(R.put(id.encode()) + b"\0" + call for id, call in calls))

    def resend(self, id):
        return self.op(b"\x04" + R.put(id.encode()))

    def marathon(self, n, call, answers):
        self.patience = 8          # thousands of calls in one request
        try:
            return self.op(b"\x0a" + st.pack("<I", n) + R.put(call) + st.pack("<I", len(answers)) + b"".join(st.pack("<I", t.idx) + R.put(p) for t, p in answers))
        finally:
            self.patience = 1

    def forget(self, id):
        return self.op(b"\x05" + R.put(id.encode()))

    def failing(self, on):
        return self.op(b"\x06" + bytes([on]))

    def destroy(self):
        return self.op(b"\x07")

    def uuid(self):
        return self.op(b"\x08")

    def get(self):
        return self.op(b"\x09")

    def records(self, r):
        out = []
        tx = lambda: r.take(r.u("<I")).decode()
        while r.p < len(r.b):
            k = r.take(1).decode()
            if k in "CDQW":
                out.append((k,))
            elif k in "YTUG":
                out.append((k, tx()))
            elif k == "E":
                out.append((k, tx(), tx()))
            elif k == "S":
                out.append((k, r.take(r.u("<I"))))
            elif k == "B":
                out.append((k, r.u("<H"), r.take(r.u("<I"))))
            elif k == "h":
                out.append((k, tx(), r.take(1)[0], r.take(1)[0], r.take(r.u("<I"))))
            elif k == "R":
                out.append((k, tx(), r.take(1)[0], r.u("<H"), r.take(r.u("<I"))))
            else:
                raise ValueError(f"unknown record {k!r}")
        return out

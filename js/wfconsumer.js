// Drives the TypeScript consumer generated for a workflow: a fake client, scripted subscribers, a log of what happened.
"use strict";
const fs = require("fs");
const { Rd, Wr, codec, cls, buf, serve, middleware } = require("./values.js");
const D = JSON.parse(fs.readFileSync(process.argv[3], "utf8"));
const schema = D.schema;

let log = new Wr(), plans = new Map(), objs = new Map(), client, consumer;
const mod = require(process.argv[2]);
for (const t of schema) t.cls = cls(mod.Protocol, t);
middleware(mod.Protocol);
const C = codec(schema);

const ch = c => log.raw(Buffer.from(c));
const txt = s => log.bytes(Buffer.from(String(s), "utf8"));
const wbytes = (t, v) => C.wany(t, v);

class Client extends mod.clibri.Client {
  constructor() {
    super();
    this.up = false; this.failing = false;
    const S = mod.clibri.Subject;
    this.ev = { data: new S(), connected: new S(), disconnected: new S(), error: new S() };
  }
  getEvents() { return this.ev; }
  send(b) {
    if (!this.up || this.failing) return new Error("not connected");
    if (this.seqs !== undefined) this.seqs.push(buf(b).readUInt32LE(6));
    else { ch("S"); log.bytes(buf(b)); }
    if (this.prompt !== undefined) {
      // the answer is there before anything else happens
      const a = this.prompt;
      this.prompt = undefined;
      buf(b).copy(a, 6, 6, 10);
      queueMicrotask(() => this.ev.data.emit(a));
    }
    return undefined;
  }
  destroy() { this.up = false; ch("Q"); return Promise.resolve(); }
}
// what a promise ended with
function watch(name, p) {
  if (!(p instanceof Promise)) { ch("T"); txt("send() doesn't return a promise"); return; }
  p.then(v => {
    ch("R"); txt(name); log.u8(1);
    if (v === undefined) { log.u16(0xffff); log.u32(0); return; }
    const t = schema.find(x => x.kind === "struct" && v instanceof x.cls && Object.getPrototypeOf(v) === x.cls.prototype);
    if (t === undefined) { log.u16(0xfffe); log.u32(0); return; }
    log.u16(schema.indexOf(t)); log.bytes(wbytes(t, v));
  }, e => { ch("R"); txt(name); log.u8(e instanceof Error ? 0 : 2); log.u16(0xffff); log.u32(0); });
}
function begin(id, r, glob, handlers) {
  const kind = r.take(1).toString(), k = r.u16();
  const d = kind === "r" ? schema[D.reqs[k].t] : schema[D.beacons[k]];
  const K = kind === "r" ? mod[D.reqs[k].name] : mod["Beacon" + D.bnames[k]];
  const o = new K(C.params(d, r), ...(glob ? [] : [consumer]));
  objs.set(id, { o, n: 0 });
  if (handlers) {
    const on = (i, t) => v => {
      ch("h"); txt(id); log.u8(i);
      if (t === undefined) { log.u8(v === undefined ? 0 : v instanceof Error ? 1 : 2); log.u32(0); return; }
      log.u8(v instanceof t.cls ? 0 : 2); log.bytes(wbytes(t, v));
    };
    if (kind === "r") {
      const q = D.reqs[k];
      q.acts.forEach((a, i) => { const h = q.acts.length > 1 ? a.concl.toLowerCase() : "response"; if (o[h](on(i + 1, schema[a.t])) !== o) throw new Error("subscribing to an answer does not return the request itself"); });
      o.err(on(0, schema[q.err]));
    } else o.response(on(1)).err(on(0));
  }
  send(id);
}
function send(id) {
  const x = objs.get(id);
  x.n += 1;
  watch(`${id}:${x.n}`, x.o.send());
}
function plan(kind, k) {
  const p = plans.get(kind + k);
  if (!p) return;
  const n = p.n++, b = p.all[n % p.all.length];
  if (b.length) begin(`${kind}${k}.${n}`, new Rd(b), false, true);
}
function listen(c) {
  c.connected.subscribe(() => { ch("C"); plan("C", 0); });
  c.ready.subscribe(u => { ch("Y"); txt(u); plan("Y", 0); });
  c.disconnected.subscribe(() => { ch("D"); plan("D", 0); });
  c.error.subscribe(e => { ch("E"); txt(e instanceof mod.ExtError.ClientError ? "Client" : "Consumer"); txt(e.message); plan("E", 0); });
  D.bcs.forEach((b, k) => c.broadcast[b.name].subscribe(v => {
    const t = schema[b.t];
    ch("B"); log.u16(k); log.bytes(v instanceof t.cls ? wbytes(t, v) : Buffer.from("wrong class")); plan("B", k);
  }));
}
// one call waits while many others come and go
async function marathon(r) {
  const n = r.u32(), call = Buffer.from(r.bytes()), answers = [];
  for (let i = r.u32(); i > 0; i--) { const t = r.u32(); answers.push([schema[t], Buffer.from(r.bytes())]); }
  const make = () => {
    const r = new Rd(call), kind = r.take(1).toString(), k = r.u16();
    const K = kind === "r" ? mod[D.reqs[k].name] : mod["Beacon" + D.bnames[k]];
    return new K(C.params(kind === "r" ? schema[D.reqs[k].t] : schema[D.beacons[k]], r), consumer);
  };
  client.seqs = [];
  let state = "waiting", got;
  const held = make().send();
  held.then(v => { state = "answered"; got = v; }, e => { state = "rejected"; got = e; });
  const bad = s => { ch("T"); txt(s); };
  const seen = new Set(client.seqs);
  const first = client.seqs[0];
  if (client.seqs.length !== 1) return bad(`a call sends ${client.seqs.length} messages`);
  for (let i = 0; i < n; i++) {
    const a = answers[i % answers.length];
    client.seqs = [];
    client.prompt = Buffer.from(a[1]);
    let v;
    try { v = await make().send(); } catch (e) { return bad(`call ${i} is rejected: ${e && e.message}`); }
    if (client.seqs.length !== 1) return bad(`call ${i} sends ${client.seqs.length} messages`);
    if (seen.has(client.seqs[0])) return bad(`call ${i} has sequence ${client.seqs[0]} again`);
    seen.add(client.seqs[0]);
    if (!(v instanceof a[0].cls)) return bad(`call ${i} has an answer of another class`);
    if (Buffer.compare(buf(v.encode()), a[1].subarray(26)) !== 0) return bad(`call ${i} has another answer`);
    if (state !== "waiting") return bad(`the first call is ${state} after ${i} others`);
  }
  const last = answers[answers.length - 1], b = Buffer.from(last[1]);
  b.writeUInt32LE(first, 6);
  client.ev.data.emit(b);
  for (let i = 0; i < 4; i++) await new Promise(res => setImmediate(res));
  if (state !== "answered" || !(got instanceof last[0].cls) || Buffer.compare(buf(got.encode()), last[1].subarray(26)) !== 0) bad(`the first call is ${state}, or with another answer`);
  // many calls at once, the answers come in another order
  const m = 300, same = (v, a) => v instanceof a[0].cls && Buffer.compare(buf(v.encode()), a[1].subarray(26)) === 0;
  client.seqs = [];
  client.prompt = undefined;
  const ends = new Array(m).fill(0), gots = [];
  for (let i = 0; i < m; i++) make().send().then(v => { ends[i] += 1; gots[i] = v; }, e => { ends[i] += 1; gots[i] = e; });
  for (let i = 0; i < 4; i++) await new Promise(res => setImmediate(res));
  if (ends.some(e => e !== 0)) return bad(`${ends.filter(e => e !== 0).length} of ${m} calls end without answers`);
  if (client.seqs.length !== m) return bad(`${m} calls at once send ${client.seqs.length} messages`);
  const seqs = client.seqs;
  for (const q of seqs) { if (seen.has(q)) return bad(`sequence ${q} is used again`); seen.add(q); }
  const order = seqs.map((_, i) => i).sort((a, b) => (a * 7919) % 307 - (b * 7919) % 307);
  const pack = i => { const b = Buffer.from(answers[i % answers.length][1]); b.writeUInt32LE(seqs[i], 6); return b; };
  const cut = Math.floor(m / 3);
  client.ev.data.emit(Buffer.concat(order.slice(0, cut).map(pack)));
  for (let i = 0; i < 4; i++) await new Promise(res => setImmediate(res));
  for (const i of order.slice(cut)) { if (ends[i] !== 0) return bad(`call ${i} of ${m} at once ends without an answer`); }
  for (const i of order.slice(cut)) client.ev.data.emit(pack(i));
  for (let i = 0; i < 4; i++) await new Promise(res => setImmediate(res));
  for (let i = 0; i < m; i++) if (ends[i] !== 1 || !same(gots[i], answers[i % answers.length])) return bad(`call ${i} of ${m} at once doesn't end with its answer`);
  client.seqs = undefined;
}
async function run(r) {
  switch (r.u8()) {
    case 1: {
      if (consumer !== undefined) await consumer.destroy().catch(() => {});
      for (let i = 0; i < 4; i++) await new Promise(res => setImmediate(res));
      log = new Wr();
      const glob = r.u8() === 1, twice = r.u8() === 1, key = new Rd(r.bytes());
      plans = new Map(); objs = new Map();
      const n = r.u32();
      for (let j = 0; j < n; j++) {
        const kind = r.take(1).toString(), k = r.u16(), c = r.u32(), all = [];
        for (let x = 0; x < c; x++) all.push(Buffer.from(r.bytes()));
        plans.set(kind + k, { n: 0, all });
      }
      client = new Client();
      const g = () => { const x = mod.Consumer.get(); ch("G"); txt(x instanceof Error ? "none" : x === consumer ? "this" : "other"); };
      consumer = undefined;
      const kv = C.params(schema[D.key], key);
      if (glob) {
        g();
        if (mod.Consumer.wait(() => { ch("W"); }) instanceof Error) { ch("T"); txt("wait() is refused before a consumer is created"); }
      }
      consumer = new mod.Consumer(client, kv, glob ? {} : { global: false });
      listen(consumer);
      if (glob) {
        g();
        if (!(mod.Consumer.wait(() => { ch("W"); }) instanceof Error)) { ch("T"); txt("wait() isn't refused after a consumer is created"); }
        if (twice) { try { new mod.Consumer(client, kv); ch("T"); txt("second global consumer"); } catch (e) { ch("G"); txt("refused"); } g(); }
      }
      break;
    }
    case 2: {
      const n = r.u32();
      for (let i = 0; i < n; i++) {
        const k = r.u8(), b = Buffer.from(r.bytes());
        if (k === 0) { client.up = true; client.ev.connected.emit(); }
        else if (k === 1) { client.up = false; client.ev.disconnected.emit(); }
        else if (k === 2) client.ev.error.emit(new Error(b.toString("utf8")));
        else {
          const m = i % 2 ? b : new Uint8Array(b).buffer;
          client.ev.data.emit(m);
          (m instanceof Uint8Array ? m : new Uint8Array(m)).fill(0xa5); // a transport uses its memory again
        }
      }
      break;
    }
    case 3: while (r.p < r.b.length) { const id = r.bytes().toString(), f = r.u8(); client.prompt = f & 4 ? Buffer.from(r.bytes()) : undefined; begin(id, r, (f & 1) !== 0, (f & 2) !== 0); } break;
    case 4: send(r.bytes().toString()); break;
    case 5: objs.get(r.bytes().toString()).o.destroy(); break;
    case 6: client.failing = r.u8() === 1; break;
    case 7: consumer.destroy().then(() => { ch("G"); txt("destroyed"); }, () => { ch("T"); txt("destroy() fails"); }); break;
    case 8: {
      let u; try { u = "uuid " + consumer.uuid; } catch (e) { u = "no uuid"; }
      ch("G"); txt(u);
      break;
    }
    case 9: { const x = mod.Consumer.get(); ch("G"); txt(x instanceof Error ? "none" : x === consumer ? "this" : "other"); break; }
    case 10: await marathon(r); client.seqs = client.prompt = undefined; break;
    default: throw new Error("harness: op");
  }
  for (let i = 0; i < 4; i++) await new Promise(res => setImmediate(res));
  const o = log.get();
  log = new Wr();
  return o;
}
process.on("unhandledRejection", e => { ch("U"); txt(String(e && e.message).slice(0, 200)); });
serve(run);

// Drives the TypeScript producer generated for a workflow: a fake server, scripted handlers, a log of what happened.
"use strict";
const fs = require("fs");
const { Rd, Wr, Shape, codec, cls, buf, serve, middleware } = require("./values.js");
const D = JSON.parse(fs.readFileSync(process.argv[3], "utf8"));
const schema = D.schema;

const NONE = 0xffffffff;
// 1: the server can't listen, 2: it can't be shut down, 4, 8, 16: the handler of errors, of the start, of the end fails
let sour = 0, log = new Wr(), plans = new Map(), held = [], failing = new Set(), server, producer, ended;

function uuid(i) {
  const n = "11112222" + i.toString(16).padStart(24, "0");
  return [n.slice(0, 8), n.slice(8, 12), n.slice(12, 16), n.slice(16, 20), n.slice(20)].join("-");
}
function idx(u) {
  if (typeof u !== "string" || !/^11112222-0000-0000-0000-[0-9a-f]{12}$/.test(u)) return 0xfffffffe;
  return parseInt(u.slice(-8), 16);
}
const ch = c => log.raw(Buffer.from(c));
function optW(t, v) {
  if (v === undefined) { log.u8(0); return; }
  log.u8(1); log.bytes(C.wany(t, v));
}
function ident(i) {
  if (i === undefined) { log.u8(0); return; }
  log.u8(1); log.u32(idx(i.uuid())); optW(schema[D.key], i.getKey()); optW(schema[D.asg], i.getAssigned());
}
function list(us) { const v = us.map(idx).sort((a, b) => a - b); log.u32(v.length); for (const x of v) log.u32(x); }
function enter(kind, k, payload, id, f) {
  ch("H"); ch(kind); log.u16(k); log.bytes(payload); ident(id);
  f.all().length = 0; // a list belongs to the one who asked for it
  list(f.all()); list(id === undefined ? f.all() : f.except(id.uuid())); const two = [uuid(0), uuid(2)]; f.exclude(two).length = 0; list(f.exclude(two));
  list(f.filter(i => i.getAssigned() !== undefined)); list(f.filter(i => i.getKey() !== undefined));
  const p = plans.get(kind + k);
  if (!p) throw new Error("harness: no plan for " + kind + k);
  return new Rd(p.all[p.n++ % p.all.length]);
}
const wbytes = (t, v) => C.wany(t, v);
function us(r) { const n = r.u32(), a = []; for (let i = 0; i < n; i++) a.push(uuid(r.u32())); return a; }
function settled(p) { p.then(() => { ch("R"); log.u8(1); }, () => { ch("R"); log.u8(0); }); }
function ops(r, id) {
  const n = r.u16();
  for (let i = 0; i < n; i++) {
    switch (r.u8()) {
      case 1: { const ow = r.u8() === 1; const v = C.rtype(schema[D.key], r); if (id) id.key(v, ow); break; }
      case 2: { const ow = r.u8() === 1; const v = C.rtype(schema[D.asg], r); if (id) id.assign(v, ow); break; }
      case 3: { const e = D.evs[r.u16()]; producer.events[e.low].emit(C.rtype(schema[e.t], r)); break; }
      case 4: settled(producer.disconnect(uuid(r.u32()))); break;
      case 5: { const u = r.u32(); settled(producer.send(uuid(u), r.bytes())); break; }
      case 6: { const u = us(r); settled(producer.broadcast(u, r.bytes())); break; }
      default: throw new Error("harness: op");
    }
  }
}
function recipients(r, id, f) {
  switch (r.u8()) {
    case 0: return us(r);
    case 1: return f.all();
    case 2: return f.except(id ? id.uuid() : uuid(1));
    case 3: { const u = us(r); f.exclude(u); return f.exclude(u); }
    case 4: return f.filter(i => i.getAssigned() !== undefined);
    case 5: return f.filter(i => i.getKey() !== undefined);
    default: throw new Error("harness: recipients");
  }
}
// the declared broadcasts of an answer or an event, as the plan says, with a misuse of the interface
function broadcasts(target, decl, r, id, f, misuse) {
  let first = true, skipped = false;
  for (const b of decl) {
    if (b.opt && r.u8() === 0) continue;
    const to = recipients(r, id, f);
    const v = C.rtype(schema[b.t], r);
    if (misuse === 1 && !b.opt && !skipped) { skipped = true; continue; }
    target.broadcast(to)[b.name](v);
    if (misuse === 2 && first) target.broadcast(to)[b.name](v);
    first = false;
  }
  if (misuse === 3) {
    const n = schema[r.u16()];
    target.broadcast([uuid(0)])[n.path.join("")](C.rtype(n, r));
  }
}
const wait = v => new Promise(res => held.push(() => res(v)));
globalThis.H = {
  async request(k, request, scope, Response) {
    const q = D.reqs[k], id = scope.consumer, f = scope.filter;
    const r = enter("r", k, wbytes(schema[q.t], request), id, f);
    const hold = r.u8(), misuse = r.u8();
    ops(r, id);
    if (r.u8() === 1) scope.deferred(() => ch("F"));
    const c = r.u8();
    let res;
    if (c === 0) res = new Response(C.rtype(schema[q.err], r));
    else {
      const a = q.acts[c - 1];
      res = new Response(C.rtype(schema[a.t], r));
      broadcasts(res, a.bcs, r, id, f, misuse);
    }
    if (c === 0 && misuse === 3) broadcasts(res, [], r, id, f, 3);
    return hold ? wait(res) : res;
  },
  async event(k, event, f, Output) {
    const e = D.evs[k], def = k >= 1000 || e.t < 0;
    const id = def ? event : undefined;
    const r = enter("e", k, def ? Buffer.alloc(0) : wbytes(schema[e.t], event), id, f);
    const hold = r.u8(), misuse = r.u8();
    ops(r, id);
    r.u8();
    const c = r.u8();
    if (c === 0) throw new Error("scripted");
    let res;
    if (Output !== undefined) { res = new Output(); broadcasts(res, e.bcs, r, id, f, misuse); }
    return hold ? wait(res) : res;
  },
  async beacon(k, beacon, scope) {
    const r = enter("b", k, wbytes(schema[D.beacons[k]], beacon), scope.consumer, scope.filter);
    const hold = r.u8(); r.u8();
    ops(r, scope.consumer);
    if (r.u8() === 1) scope.deferred(() => ch("F"));
    if (r.u8() === 0) throw new Error("scripted");
    if (hold) await wait();
  },
  async error(e, consumer, filter) {
    const n = typeof e.getErrType === "function" ? e.getErrType() : "ServerError";
    if ((consumer === undefined) !== (filter === undefined) && n !== "ServerError") { ch("X"); log.bytes(Buffer.from("error with half of a context")); };
    ch("E"); log.bytes(Buffer.from(n)); log.u32(consumer === undefined ? NONE : idx(consumer.uuid())); ident(consumer);
    if (sour & 4) throw new Error("scripted");
  },
  async ready() { ch("Y"); if (sour & 8) throw new Error("scripted"); },
  async shutdown() { ch("Z"); if (sour & 16) throw new Error("scripted"); },
};
const mod = require(process.argv[2]);
for (const t of schema) t.cls = cls(mod.Protocol, t);
middleware(mod.Protocol);
const C = codec(schema);

class Server extends mod.clibri.Server {
  constructor() {
    super();
    const S = mod.clibri.Subject;
    this.ev = { ready: new S(), connected: new S(), disconnected: new S(), error: new S(), shutdown: new S(), received: new S() };
  }
  getEvents() { return this.ev; }
  listen() { return sour & 1 ? Promise.reject(new Error("listen")) : Promise.resolve(); }
  send(b, u) {
    ch("S"); log.u32(idx(u)); log.bytes(buf(b));
    return failing.has(idx(u)) ? Promise.reject(new Error("send")) : Promise.resolve();
  }
  disconnect(u) {
    ch("D"); log.u32(idx(u));
    return failing.has(idx(u)) ? Promise.reject(new Error("gone")) : Promise.resolve();
  }
  shutdown() { ch("Q"); return sour & 2 ? Promise.reject(new Error("shutdown")) : Promise.resolve(); }
}
const IDENT = ["Log", "EmitError", "Disconnect", "EmitErrorAndDisconnect", "Ignore"];
const ERR = ["EmitError", "Disconnect", "EmitErrorAndDisconnect", "Log", "Ignore"];
async function run(r) {
  switch (r.u8()) {
    case 1: {
      const [i, e] = [r.u8(), r.u8()];
      sour = r.u8();
      plans = new Map(); held = []; failing = new Set();
      const n = r.u32();
      for (let j = 0; j < n; j++) {
        const kind = r.take(1).toString(), k = r.u16(), c = r.u32(), all = [];
        for (let x = 0; x < c; x++) all.push(Buffer.from(r.bytes()));
        plans.set(kind + k, { n: 0, all });
      }
      server = new Server();
      producer = new mod.Producer(server, new mod.Context(), new mod.clibri.Options({
        producerIndentificationStrategy: mod.clibri.ProducerIdentificationStrategy[IDENT[i]],
        consumerErrorHandelingStrategy: mod.clibri.ConsumerErrorHandelingStrategy[ERR[e]],
      }));
      producer.listen().then(() => { ch("X"); log.bytes(Buffer.alloc(0)); }, () => { ch("X"); log.bytes(Buffer.from("error")); });
      break;
    }
    case 2: {
      const n = r.u32();
      for (let i = 0; i < n; i++) {
        const k = r.u8(), u = r.u32(), b = Buffer.from(r.bytes());
        if (k === 0) server.ev.ready.emit();
        else if (k === 1) server.ev.shutdown.emit();
        else if (k === 2) server.ev.connected.emit(uuid(u));
        else if (k === 3) server.ev.disconnected.emit(uuid(u));
        else if (k === 4) {
          const m = i % 2 ? b : new Uint8Array(b).buffer;
          server.ev.received.emit({ uuid: uuid(u), buffer: m });
          (m instanceof Uint8Array ? m : new Uint8Array(m)).fill(0xa5); // a transport uses its memory again
        }
        else server.ev.error.emit({ message: "some text" });
      }
      break;
    }
    case 3: ops(new Rd(r.bytes()), undefined); break;
    case 4: { const n = r.u32(); failing = new Set(); for (let i = 0; i < n; i++) failing.add(r.u32()); break; }
    case 5: settled(producer.destroy()); break;
    case 6: { const h = held.splice(r.u32(), 1); if (h.length !== 1) throw new Error("harness: nothing held"); h[0](); break; }
    default: throw new Error("harness: op");
  }
  for (let i = 0; i < 4; i++) await new Promise(res => setImmediate(res));
  const o = log.get();
  log = new Wr();
  return o;
}
process.on("unhandledRejection", e => { ch("U"); log.bytes(Buffer.from(String(e && e.message).slice(0, 200))); });
serve(run);

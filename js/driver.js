// Drives the TypeScript code generated for a schema: requests and answers as in the native driver.
"use strict";
const fs = require("fs");
const mod = require(process.argv[2]);
const schema = JSON.parse(fs.readFileSync(process.argv[3], "utf8"));

const { Rd, Wr, Shape, codec, cls, buf, serve } = require("./values.js");
for (const t of schema) t.cls = cls(mod, t);
const { params, rtype, wtype } = codec(schema);
const loose = codec(schema, true);
function encodable(t, v) {
  if (t.kind === "struct") return v;
  const e = new t.cls();
  const err = e.set(v);
  if (err instanceof Error) throw err;
  return e;
}
function dec(t, b) {
  if (t.kind === "struct") {
    const x = t.cls.from(b);
    if (x instanceof Error) throw x;
    return x;
  }
  const x = t.cls.from(b);
  if (x instanceof Error) throw x;
  return x;
}
// decodes bytes whose memory is used for something else afterwards
function lent(b, f) {
  const mem = Buffer.from(b), x = f(mem);
  mem.fill(0xa5);
  return x;
}
// the same as f(), which leaves what it gave before as it was
function again(f, g) {
  const x = f();
  if (x instanceof Error) return x;
  const was = Buffer.from(buf(x)), y = g();
  if (Buffer.compare(was, buf(x)) !== 0) throw new Shape("encoding changes bytes it gave before");
  if (f === g && Buffer.compare(was, buf(y)) !== 0) throw new Shape("encoding again gives other bytes");
  return x;
}
// makes x the same as p by changes in place: fields of fields, elements of arrays
function edit(t, x, p) {
  for (const f of t.fields) {
    const n = p[f.name], o = x[f.name], ft = typeof f.ty === "string" ? undefined : schema[f.ty];
    if (n === undefined || o === undefined) { x[f.name] = n; continue; }
    if (f.arr) {
      let i = 0;
      if (ft && ft.kind === "struct") for (; i < o.length && i < n.length; i++) edit(ft, o[i], n[i]);
      o.length = i;
      for (; i < n.length; i++) o.push(n[i]);
    } else if (ft && ft.kind === "struct") edit(ft, o, n);
    else if (ft) { for (const k of Object.keys(o)) delete o[k]; Object.assign(o, n); }
    else x[f.name] = n;
  }
  return x;
}
let MODE = 0;
function mw(enc, b, id, seq, uuid) {
  if (MODE === 0) return b;
  b = Buffer.from(buf(b));
  let k = (id & 0xff) ^ ((seq * 3) & 0xff);
  if (uuid !== undefined) { let h = 7; for (const x of Buffer.from(uuid)) h = (h * 31 + x) & 0xff; k ^= h; }
  if (MODE === 1) { for (let i = 0; i < b.length; i++) b[i] ^= k; return new Uint8Array(b); }
  if (MODE === 2) {
    if (enc) return new Uint8Array(Buffer.concat([b, Buffer.from([k, 0xa5])]));
    if (b.length < 2 || b[b.length - 1] !== 0xa5 || b[b.length - 2] !== k) return new Error("middleware: bad trailer");
    return new Uint8Array(b.subarray(0, b.length - 2));
  }
  return new Error("middleware refused");
}
// PLACE: 0 node, 1 a browser (window, no global), 2 window is null, 3 window besides global; and
// with 4 more, another middleware is plugged in before, which has to give way
const GLOBAL = globalThis.global;
function plug(place) {
  const G = mod.PackingMiddleware.GUID;
  if (globalThis.window) delete globalThis.window[G];
  delete GLOBAL[G];
  delete globalThis.window;
  globalThis.global = GLOBAL;
  if ((place & 3) === 1) { globalThis.window = {}; delete globalThis.global; }
  if ((place & 3) === 2) globalThis.window = null;
  if ((place & 3) === 3) globalThis.window = {};
  const warn = console.warn;
  console.warn = () => {};
  if (place & 4) {
    class D extends mod.PackingMiddleware {
      decode(b, id, seq, uuid) { return new Error("middleware: replaced"); }
      encode(b, id, seq, uuid) { return new Error("middleware: replaced"); }
    }
    new D();
  }
  class M extends mod.PackingMiddleware {
    decode(b, id, seq, uuid) { return mw(false, b, id, seq, uuid); }
    encode(b, id, seq, uuid) { return mw(true, b, id, seq, uuid); }
  }
  new M();
  console.warn = warn;
}
// the answer of an operation that the generated code may refuse: an Error, returned or thrown
function attempt(o, f) {
  let b;
  try { b = f(); } catch (e) {
    if (e instanceof Shape) throw e;
    o.u8(1); o.bytes(Buffer.from(String(e && e.message))); return;
  }
  if (b instanceof Error) { o.u8(1); o.bytes(Buffer.from(String(b.message))); return; }
  o.u8(0); o.bytes(buf(b));
}
function optUuid(r) { return r.u8() === 0 ? undefined : r.bytes().toString("utf8"); }
function run(r) {
  const o = new Wr();
  const op = r.u8();
  switch (op) {
    case 1: { const t = schema[r.u16()]; const v = rtype(t, r); attempt(o, () => { const x = encodable(t, v), f = () => x.encode(); return again(f, f); }); break; }
    case 2: { const t = schema[r.u16()]; const b = r.bytes(); attempt(o, () => { const w = new Wr(); wtype(t, lent(b, m => dec(t, m)), w); return w.get(); }); break; }
    case 3: { const t = schema[r.u16()]; const seq = r.u32(); const u = optUuid(r); const v = rtype(t, r); attempt(o, () => { const x = encodable(t, v); return again(() => x.pack(seq, u), () => x.pack((seq ^ 1) >>> 0, u)); }); break; }
    case 4: {
      const u = optUuid(r);
      const rd = new mod.BufferReaderMessages();
      const n = r.u32();
      for (let i = 0; i < n; i++) {
        const k = r.u8();
        if (k !== 1) {
          const b = Buffer.from(r.bytes());
          // the three kinds of input the reader takes
          const arg = k === 0 ? b : k === 2 ? new Uint8Array(b).buffer : new Uint8Array(b);
          const e = rd.chunk(arg, u);
          (arg instanceof Uint8Array ? arg : new Uint8Array(arg)).fill(0xa5); // a transport uses its memory again
          if (e !== undefined && (!Array.isArray(e) || e.length === 0 || !e.every(x => x instanceof Error))) throw new Shape("chunk() answered something else than errors");
          o.u32(e === undefined ? 0 : e.length);
          o.u32(rd.len()); o.u32(rd.pending());
        } else {
          const m = rd.next();
          if (m === undefined) o.u8(0);
          else {
            o.u8(1);
            o.u32(m.header.id); o.u32(m.header.sequence); o.u64(m.header.timestamp);
            // which type it is said to be
            let x = m.msg, found = -1, val;
            const path = [];
            outer: for (let d = 0; d < 64; d++) {
              const ks = Object.keys(x).filter(q => x[q] !== undefined);
              if (ks.length !== 1) throw new Shape("message with keys " + ks.join(","));
              path.push(ks[0]); x = x[ks[0]];
              for (let j = 0; j < schema.length; j++) if (schema[j].path.join(".") === path.join(".")) { found = j; val = x; break outer; }
            }
            if (found < 0) throw new Shape("message under " + path.join("."));
            if (m.getRef() !== val) throw new Shape("getRef() is not the message");
            o.u16(found);
            const w = new Wr(); wtype(schema[found], val, w); o.bytes(w.get());
          }
          o.u32(rd.pending());
        }
      }
      break;
    }
    case 5: for (const t of schema) {
      o.u32(t.cls.getId());
      const inst = t.kind === "struct" ? t.cls.defaults() : new t.cls();
      if (inst.getId() !== t.cls.getId()) throw new Shape("static and instance identifiers differ");
    } break;
    case 6: o.bytes(Buffer.from(mod.hash())); break;
    case 7: { const m = r.u32(); MODE = m & 255; plug(m >>> 8); break; }
    case 8: { const t = schema[r.u16()]; const b = r.bytes(); attempt(o, () => encodable(t, lent(b, m => dec(t, m))).encode()); break; }
    // from(plain object): validation, then encoding
    case 9: { const t = schema[r.u16()]; const p = t.kind === "struct" ? loose.params(t, r) : loose.rtype(t, r);
      attempt(o, () => { const x = t.cls.from(p); if (x instanceof Error) return x; return encodable(t, x).encode(); }); break; }
    // decode a into an instance, assign the fields of b, encode
    case 10: { const t = schema[r.u16()]; const a = r.bytes(); const p = params(t, r);
      attempt(o, () => { const x = t.cls.from(Buffer.from(a)); if (x instanceof Error) return x; for (const k of Object.keys(p)) x[k] = p[k]; return x.encode(); }); break; }
    // decode a, then b, into one instance
    case 11: { const t = schema[r.u16()]; const a = r.bytes(); const b = r.bytes();
      attempt(o, () => { const x = t.kind === "struct" ? t.cls.defaults() : new t.cls();
        for (const y of [a, b]) { const e = x.decode(Buffer.from(y)); if (e instanceof Error) return e; }
        const w = new Wr(); wtype(t, t.kind === "struct" ? x : x.get(), w); return w.get(); }); break; }
    // from() of an object with field k replaced by something wrong; the refusal is an Error, not a throw
    case 12: { const t = schema[r.u16()]; const k = r.u16(); const w = r.u8(); const p = params(t, r);
      const f = t.fields[k];
      const wrong = (w, ty) => {
        const R = { u8: [0, 255], u16: [0, 65535], u32: [0, 4294967295], u64: [0n, 2n ** 64n - 1n], i8: [-128, 127], i16: [-32768, 32767],
          i32: [-2147483648, 2147483647], i64: [-(2n ** 63n), 2n ** 63n - 1n] }[ty];
        const up = x => typeof x === "bigint" ? x + 1n : x + 1, down = x => typeof x === "bigint" ? x - 1n : x - 1;
        if (w < 10) return [null, "x", 1.5, {}, [], true, 10n ** 30n, -(10n ** 30n), 1e300, [[]]][w];
        if (w === 10) return up(R[1]);
        if (w === 11) return down(R[0]);
        if (w === 12) return undefined;
        if (w === 13) return Number.NaN;
        throw new Error("harness: what");
      };
      const OK = { bool: true, str: "s", u64: 1n, i64: 1n };
      const fine = ty => ty in OK ? OK[ty] : 1;
      const into = (el, all, v) => el === 0 ? v : el === 1 ? [...all, v] : el === 2 ? [v, ...all] : [...all, v, ...all];
      const el = r.u8();          // where in an array: 1 the last, 2 the first, 3 between valid ones
      let v;
      if (w < 14) v = wrong(w, f.ty);
      else {
        const vs = schema[f.ty].variants, i = r.u16(), j = r.u16();
        if (w === 14) v = { [vs[i].name]: wrong(j, vs[i].ty) };
        else if (w === 15) {
          v = {};
          for (const q of [vs[i], vs[j]]) { const g = fine(q.ty); v[q.name] = q.arr ? [g] : g; }
        } else v = { [vs[i].name]: into(w - 15, typeof vs[i].ty === "string" ? [fine(vs[i].ty)] : [], wrong(j, vs[i].ty)) };
      }
      p[f.name] = el ? into(el, p[f.name] || [], v) : v;
      const x = t.cls.from(p);
      if (x instanceof Error) { o.u8(1); o.bytes(Buffer.from(String(x.message))); }
      else { o.u8(0); o.bytes(Buffer.alloc(0)); }
      break; }
    // from(bytes): the answer is a value or an Error, never a throw
    case 13: { const t = schema[r.u16()]; const b = r.bytes(); const x = lent(b, m => t.cls.from(m));
      if (x instanceof Error) { o.u8(1); o.bytes(Buffer.from(String(x.message))); break; }
      const w = new Wr(); wtype(t, x, w); o.u8(0); o.bytes(w.get()); break; }
    // changes in place: of a decoded value, of the defaults, of the defaults once more
    case 14: { const t = schema[r.u16()]; const a = r.bytes(), b = r.bytes(); const p = () => params(t, new Rd(b));
      for (const make of [() => t.cls.from(Buffer.from(a)), () => t.cls.defaults(), () => t.cls.defaults()])
        attempt(o, () => { const x = make(); if (x instanceof Error) return x; return edit(t, x, p()).encode(); });
      break; }
    default: throw new Error("harness: op");
  }
  return o.get();
}
plug(0);
serve(run);

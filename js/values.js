// Values of declared types in the form in which the harness and its drivers exchange them.
"use strict";
class Rd {
  constructor(b) { this.b = b; this.p = 0; }
  take(n) { const r = this.b.subarray(this.p, this.p + n); if (r.length !== n) throw new Error("harness: short"); this.p += n; return r; }
  u8() { return this.take(1)[0]; }
  u16() { return this.take(2).readUInt16LE(0); }
  u32() { return this.take(4).readUInt32LE(0); }
  bytes() { return this.take(this.u32()); }
}
class Wr {
  constructor() { this.a = []; }
  raw(b) { this.a.push(b); }
  u8(x) { this.a.push(Buffer.from([x])); }
  u16(x) { const b = Buffer.alloc(2); b.writeUInt16LE(x); this.a.push(b); }
  u32(x) { const b = Buffer.alloc(4); b.writeUInt32LE(x); this.a.push(b); }
  u64(x) { const b = Buffer.alloc(8); b.writeBigUInt64LE(BigInt(x)); this.a.push(b); }
  bytes(b) { this.u32(b.length); this.a.push(b); }
  get() { return Buffer.concat(this.a); }
}
const PR = {
  bool: r => r.u8() !== 0,
  i8: r => r.take(1).readInt8(0), i16: r => r.take(2).readInt16LE(0), i32: r => r.take(4).readInt32LE(0), i64: r => r.take(8).readBigInt64LE(0),
  u8: r => r.u8(), u16: r => r.u16(), u32: r => r.u32(), u64: r => r.take(8).readBigUInt64LE(0),
  f32: r => r.take(4).readFloatLE(0), f64: r => r.take(8).readDoubleLE(0),
  str: r => r.bytes().toString("utf8"),
};
class Shape extends Error {}
function need(c, what) { if (!c) throw new Shape("value of a wrong type: " + what); }
function num(n, f) { return (o, v) => { need(typeof v === "number", typeof v); const b = Buffer.alloc(n); f(b, v); o.raw(b); }; }
function big(f) { return (o, v) => { need(typeof v === "bigint", typeof v); const b = Buffer.alloc(8); f(b, v); o.raw(b); }; }
const PW = {
  bool: (o, v) => { need(typeof v === "boolean", typeof v); o.u8(v ? 1 : 0); },
  i8: num(1, (b, v) => b.writeInt8(v)), i16: num(2, (b, v) => b.writeInt16LE(v)), i32: num(4, (b, v) => b.writeInt32LE(v)),
  u8: num(1, (b, v) => b.writeUInt8(v)), u16: num(2, (b, v) => b.writeUInt16LE(v)), u32: num(4, (b, v) => b.writeUInt32LE(v)),
  i64: big((b, v) => b.writeBigInt64LE(v)), u64: big((b, v) => b.writeBigUInt64LE(v)),
  f32: num(4, (b, v) => { if (Number.isNaN(v)) Buffer.from([0, 0, 0xc0, 0x7f]).copy(b); else b.writeFloatLE(v); }),
  f64: num(8, (b, v) => { if (Number.isNaN(v)) Buffer.from([0, 0, 0, 0, 0, 0, 0xf8, 0x7f]).copy(b); else b.writeDoubleLE(v); }),
  str: (o, v) => { need(typeof v === "string", typeof v); o.bytes(Buffer.from(v, "utf8")); },
};
// loose: absent fields are left out, the variants which an enum doesn't have are there as undefined
function codec(schema, loose) {
  function rbase(ty, r) { return typeof ty === "string" ? PR[ty](r) : rtype(schema[ty], r); }
  function rarr(ty, arr, r) {
    if (!arr) return rbase(ty, r);
    const n = r.u32(), a = [];
    for (let i = 0; i < n; i++) a.push(rbase(ty, r));
    return a;
  }
  function params(t, r) {
    const p = {};
    for (const f of t.fields) {
      if (!f.opt || r.u8() !== 0) p[f.name] = rarr(f.ty, f.arr, r);
      else if (!loose) p[f.name] = undefined;
    }
    return p;
  }
  function rtype(t, r) {
    if (t.kind === "struct") return new t.cls(params(t, r));
    const i = r.u16();
    if (i === 0xffff) return {};
    const v = t.variants[i];
    const x = rarr(v.ty, v.arr, r);
    return loose ? Object.fromEntries(t.variants.map(y => [y.name, y === v ? x : undefined])) : { [v.name]: x };
  }
  function wbase(ty, v, o) { if (typeof ty === "string") PW[ty](o, v); else wtype(schema[ty], v, o); }
  function warr(ty, arr, v, o) {
    if (!arr) return wbase(ty, v, o);
    need(Array.isArray(v), "not an array");
    o.u32(v.length);
    for (const x of v) wbase(ty, x, o);
  }
  function wtype(t, v, o) {
    if (t.kind === "struct") {
      need(v instanceof t.cls, "not an instance of " + t.path.join("."));
      for (const f of t.fields) {
        const x = v[f.name];
        if (f.opt) { o.u8(x === undefined ? 0 : 1); if (x === undefined) continue; }
        warr(f.ty, f.arr, x, o);
      }
      return;
    }
    need(typeof v === "object" && v !== null, "enum is not an object");
    const ks = Object.keys(v).filter(k => v[k] !== undefined);
    if (ks.length === 0) { o.u16(0xffff); return; }
    need(ks.length === 1, "enum with several variants");
    const i = t.variants.findIndex(x => x.name === ks[0]);
    need(i >= 0, "unknown variant " + ks[0]);
    o.u16(i);
    warr(t.variants[i].ty, t.variants[i].arr, v[ks[0]], o);
  }
  // a value which can't be written, because it isn't one of its type, becomes bytes that no value has
  function wany(t, v) {
    const o = new Wr();
    try { wtype(t, v, o); } catch (e) { return Buffer.from("\xff\xff not a value: " + String(e && e.message).slice(0, 100)); }
    return o.get();
  }
  return { params, rtype, wtype, wany, warr, rarr };
}
function cls(mod, t) {
  let x = mod;
  for (const p of t.path) x = x[p];
  return x;
}
const buf = x => Buffer.from(x instanceof Uint8Array ? x : new Uint8Array(x));
// Requests with a length in front from stdin, answers to stdout, one after another.
function serve(answer) {
  const fs = require("fs");
  function readN(n) {
    const b = Buffer.alloc(n);
    let p = 0;
    while (p < n) {
      let k;
      try { k = fs.readSync(0, b, p, n - p, null); } catch (e) { if (e.code === "EAGAIN") continue; if (e.code === "EOF") return null; throw e; }
      if (k === 0) return null;
      p += k;
    }
    return b;
  }
  function writeAll(b) { let p = 0; while (p < b.length) { try { p += fs.writeSync(1, b, p, b.length - p); } catch (e) { if (e.code !== "EAGAIN") throw e; } } }
  console.warn = console.error = console.log = () => {};
  (async () => {
    for (;;) {
      const l = readN(4);
      if (l === null) process.exit(0);
      const b = readN(l.readUInt32LE(0));
      let out;
      try { out = Buffer.concat([Buffer.from([0]), await answer(new Rd(b))]); } catch (e) {
        out = Buffer.concat([Buffer.from([e instanceof Shape ? 3 : 2]), Buffer.from(String(e && e.stack || e).slice(0, 800))]);
      }
      const h = Buffer.alloc(4);
      h.writeUInt32LE(out.length);
      writeAll(Buffer.concat([h, out]));
    }
  })();
}
// a middleware of the user, as in the Rust drivers; only with CLIBRI_MW
function middleware(P) {
  if (process.env.CLIBRI_MW === undefined) return;
  const mw = (enc, b, id, seq) => {
    b = Buffer.from(buf(b));
    const k = (id & 0xff) ^ ((seq * 3) & 0xff) ^ 0x5a;
    if (!enc) {
      if (b.length < 2 || b[b.length - 1] !== 0xa5 || b[b.length - 2] !== k) return new Error("middleware: bad trailer");
      b = b.subarray(0, b.length - 2);
    }
    for (let i = 0; i < b.length; i++) b[i] ^= k;
    return new Uint8Array(enc ? Buffer.concat([b, Buffer.from([k, 0xa5])]) : b);
  };
  class M extends P.PackingMiddleware {
    decode(b, id, seq, uuid) { return mw(false, b, id, seq); }
    encode(b, id, seq, uuid) { return mw(true, b, id, seq); }
  }
  new M();
}
module.exports = { middleware, Rd, Wr, Shape, need, codec, cls, buf, serve };

"""Builds a native driver around the Rust code generated for a schema."""
import os
import struct as st

import schema as S
from common import CheckError, Violation, rust_env, rustc_path, sh, VERIF
from proc import Crash, Hang, Proc

RT = {"str": "String", "bool": "bool"}

PRELUDE = r'''
#![allow(warnings)]
#[path = "protocol.rs"]
pub mod protocol;
use protocol::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, AtomicU32, Ordering::SeqCst};

static MAXREQ: AtomicUsize = AtomicUsize::new(0);
static MODE: AtomicU32 = AtomicU32::new(0);
struct Counting;
const CAP: usize = 1 << 28;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        MAXREQ.fetch_max(l.size(), SeqCst);
        if l.size() > CAP { return std::ptr::null_mut(); }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        MAXREQ.fetch_max(l.size(), SeqCst);
        if l.size() > CAP { return std::ptr::null_mut(); }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        MAXREQ.fetch_max(n, SeqCst);
        if n > CAP { return std::ptr::null_mut(); }
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

pub trait Wv: Sized {
    fn w(&self, o: &mut Vec<u8>);
    fn r(i: &mut &[u8]) -> Self;
}
fn take<'a>(i: &mut &'a [u8], n: usize) -> &'a [u8] { let (a, b) = i.split_at(n); *i = b; a }
macro_rules! prim { ($($t:ty),*) => { $( impl Wv for $t {
    fn w(&self, o: &mut Vec<u8>) { o.extend_from_slice(&self.to_le_bytes()); }
    fn r(i: &mut &[u8]) -> Self { let mut b = [0u8; std::mem::size_of::<$t>()]; b.copy_from_slice(take(i, std::mem::size_of::<$t>())); <$t>::from_le_bytes(b) }
} )* } }
prim!(u8, u16, u32, u64, i8, i16, i32, i64);
impl Wv for f32 {
    fn w(&self, o: &mut Vec<u8>) { if self.is_nan() { o.extend_from_slice(&[0, 0, 0xc0, 0x7f]) } else { o.extend_from_slice(&self.to_le_bytes()) } }
    fn r(i: &mut &[u8]) -> Self { f32::from_bits(u32::r(i)) }
}
impl Wv for f64 {
    fn w(&self, o: &mut Vec<u8>) { if self.is_nan() { o.extend_from_slice(&[0, 0, 0, 0, 0, 0, 0xf8, 0x7f]) } else { o.extend_from_slice(&self.to_le_bytes()) } }
    fn r(i: &mut &[u8]) -> Self { f64::from_bits(u64::r(i)) }
}
impl Wv for bool {
    fn w(&self, o: &mut Vec<u8>) { o.push(*self as u8) }
    fn r(i: &mut &[u8]) -> Self { take(i, 1)[0] != 0 }
}
impl Wv for String {
    fn w(&self, o: &mut Vec<u8>) { (self.len() as u32).w(o); o.extend_from_slice(self.as_bytes()) }
    fn r(i: &mut &[u8]) -> Self { let n = u32::r(i) as usize; String::from_utf8(take(i, n).to_vec()).unwrap() }
}
impl<T: Wv> Wv for Vec<T> {
    fn w(&self, o: &mut Vec<u8>) { (self.len() as u32).w(o); for x in self { x.w(o) } }
    fn r(i: &mut &[u8]) -> Self { let n = u32::r(i); (0..n).map(|_| T::r(i)).collect() }
}
impl<T: Wv> Wv for Option<T> {
    fn w(&self, o: &mut Vec<u8>) { match self { None => o.push(0), Some(x) => { o.push(1); x.w(o) } } }
    fn r(i: &mut &[u8]) -> Self { if take(i, 1)[0] == 0 { None } else { Some(T::r(i)) } }
}
fn bytes_arg<'a>(i: &mut &'a [u8]) -> &'a [u8] { let n = u32::r(i) as usize; take(i, n) }
fn put(o: &mut Vec<u8>, b: &[u8]) { (b.len() as u32).w(o); o.extend_from_slice(b) }
fn putres(o: &mut Vec<u8>, r: Result<Vec<u8>, String>) {
    match r { Ok(b) => { o.push(0); put(o, &b) } Err(e) => { o.push(1); put(o, e.as_bytes()) } }
}
fn opt_uuid(i: &mut &[u8]) -> Option<String> { Option::<String>::r(i) }
'''

MIDDLEWARE = r'''
// inherent functions: what a user of the generated code writes to plug a middleware in
impl PackingMiddleware {
    pub fn encode(buffer: Vec<u8>, id: u32, sequence: u32, uuid: Option<String>) -> Result<Vec<u8>, String> { mw(true, buffer, id, sequence, uuid) }
    pub fn decode(buffer: Vec<u8>, id: u32, sequence: u32, uuid: Option<String>) -> Result<Vec<u8>, String> { mw(false, buffer, id, sequence, uuid) }
}
fn mw(enc: bool, mut b: Vec<u8>, id: u32, seq: u32, uuid: Option<String>) -> Result<Vec<u8>, String> {
    let k = (id as u8) ^ (seq as u8).wrapping_mul(3) ^ uuid.map(|u| u.bytes().fold(7u8, |a, x| a.wrapping_mul(31).wrapping_add(x))).unwrap_or(0);
    match MODE.load(SeqCst) {
        0 => Ok(b),
        1 => { for x in b.iter_mut() { *x ^= k; } Ok(b) }
        2 => { if enc { b.push(k); b.push(0xA5); Ok(b) } else {
            if b.len() < 2 || b[b.len() - 1] != 0xA5 || b[b.len() - 2] != k { return Err("middleware: bad trailer".to_string()); }
            b.truncate(b.len() - 2); Ok(b) } }
        _ => Err("middleware refused".to_string()),
    }
}
'''

MAIN = r'''
fn run(mut i: &[u8]) -> Vec<u8> {
    let i = &mut i;
    let mut o = vec![];
    let op = take(i, 1)[0];
    match op {
        1 => { let t = u16::r(i); putres(&mut o, enc(t, i)); }
        2 => { let t = u16::r(i); let b = bytes_arg(i).to_vec(); MAXREQ.store(0, SeqCst); let r = dec(t, b); let m = MAXREQ.load(SeqCst); putres(&mut o, r); (m as u64).w(&mut o); }
        3 => { let t = u16::r(i); let seq = u32::r(i); let u = opt_uuid(i); putres(&mut o, packm(t, seq, u, i)); }
        4 => {
            let uuid = opt_uuid(i);
            let mut buf: Buffer<AvailableMessages> = Buffer::new();
            let n = u32::r(i);
            MAXREQ.store(0, SeqCst);
            for _ in 0..n {
                let k = take(i, 1)[0];
                if k == 0 {
                    let b = bytes_arg(i).to_vec();
                    match buf.chunk(&b, uuid.clone()) {
                        Ok(()) => o.push(0),
                        Err(ReadError::Header(_)) => o.push(1),
                        Err(ReadError::Parsing(_)) => o.push(2),
                        Err(ReadError::Signature(_)) => o.push(3),
                    }
                    (buf.len() as u32).w(&mut o);
                    (buf.pending() as u32).w(&mut o);
                } else {
                    match buf.next() {
                        None => o.push(0),
                        Some(m) => {
                            o.push(1);
                            m.header.id.w(&mut o); m.header.sequence.w(&mut o); m.header.signature.w(&mut o);
                            m.header.ts.w(&mut o); m.header.len.w(&mut o);
                            let (t, v) = which(&m.msg);
                            t.w(&mut o); put(&mut o, &v);
                        }
                    }
                    (buf.pending() as u32).w(&mut o);
                }
            }
            (MAXREQ.load(SeqCst) as u64).w(&mut o);
        }
        5 => { ids(&mut o); }
        6 => { put(&mut o, hash().as_bytes()); }
        7 => { MODE.store(u32::r(i), SeqCst); }
        8 => { let t = u16::r(i); putres(&mut o, reenc(t, bytes_arg(i).to_vec())); }
        _ => panic!("bad op"),
    }
    o
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let si = std::io::stdin();
    let mut si = si.lock();
    let so = std::io::stdout();
    let mut so = so.lock();
    loop {
        let mut l = [0u8; 4];
        if si.read_exact(&mut l).is_err() { return; }
        let mut b = vec![0u8; u32::from_le_bytes(l) as usize];
        si.read_exact(&mut b).unwrap();
        let r = catch_unwind(AssertUnwindSafe(|| run(&b)));
        let mut o = vec![];
        match r {
            Ok(v) => { o.push(0u8); o.extend_from_slice(&v); }
            Err(e) => {
                o.push(2u8);
                let m = if let Some(s) = e.downcast_ref::<String>() { s.clone() } else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else { "?".into() };
                o.extend_from_slice(m.as_bytes());
            }
        }
        so.write_all(&(o.len() as u32).to_le_bytes()).unwrap();
        so.write_all(&o).unwrap();
        so.flush().unwrap();
    }
}
'''


def rpath(t):
    return "protocol::" + "::".join(t.path)


def rtype(ty, arr=False, opt=False):
    base = RT.get(ty, ty) if isinstance(ty, str) else rpath(ty.to)
    if arr:
        base = f"Vec<{base}>"
    if opt:
        base = f"Option<{base}>"
    return base


def avail(t, var):
    """Pattern of the nested AvailableMessages for a type."""
    p = f"{'::'.join(['protocol'] + t.path[:-1] + ['AvailableMessages', t.path[-1]])}({var})"
    for i in range(len(t.path) - 2, -1, -1):
        p = f"{'::'.join(['protocol'] + t.path[:i] + ['AvailableMessages', t.path[i]])}({p})"
    return p


def wv_impls(schema):
    """Positional reading and writing of the declared types."""
    o = []
    for t in schema.types:
        p = rpath(t)
        if t.kind == "struct":
            # the types are written out: a field of another type does not compile
            lets = "".join(f"let f{i}: &{rtype(f.ty, f.arr, f.opt)} = &self.{f.name}; f{i}.w(o); " for i, f in enumerate(t.fields))
            mk = ", ".join(f"{f.name}: <{rtype(f.ty, f.arr, f.opt)} as Wv>::r(i)" for f in t.fields)
            o.append(f"impl Wv for {p} {{ fn w(&self, o: &mut Vec<u8>) {{ {lets} }}\n fn r(i: &mut &[u8]) -> Self {{ {p} {{ {mk} }} }} }}")
        else:
            wa, ra = [], []
            for i, v in enumerate(t.variants):
                ty = rtype("str" if v.ty is None else v.ty, v.arr)
                wa.append(f"{p}::{v.name}(x) => {{ let x: &{ty} = x; {i}u16.w(o); x.w(o) }}")
                ra.append(f"{i} => {p}::{v.name}(<{ty} as Wv>::r(i)),")
            wa.append("#[allow(unreachable_patterns)] _ => 0xffffu16.w(o),")
            o.append(f"impl Wv for {p} {{ fn w(&self, o: &mut Vec<u8>) {{ match self {{ {' '.join(wa)} }} }}\n"
                     f" fn r(i: &mut &[u8]) -> Self {{ match u16::r(i) {{ {' '.join(ra)} _ => panic!(\"harness: variant\") }} }} }}")
    return o


def driver(schema, middleware=True):
    o = [PRELUDE]
    if middleware:
        o.append(MIDDLEWARE)
    o += wv_impls(schema)
    enc, dec, pk, re_, wh, ids = [], [], [], [], [], []
    for t in schema.types:
        p, k = rpath(t), t.idx
        te = "StructEncode" if t.kind == "struct" else "EnumEncode"
        td = "StructDecode" if t.kind == "struct" else "EnumDecode"
        tp = "PackingStruct" if t.kind == "struct" else "PackingEnum"
        enc.append(f"{k} => {{ let mut v = <{p} as Wv>::r(i); {te}::abduct(&mut v) }}")
        dec.append(f"{k} => <{p} as {td}>::extract(b).map(|v| {{ let mut o = vec![]; v.w(&mut o); o }}),")
        pk.append(f"{k} => {{ let mut v = <{p} as Wv>::r(i); {tp}::pack(&mut v, seq, u) }}")
        re_.append(f"{k} => <{p} as {td}>::extract(b).and_then(|mut v| {te}::abduct(&mut v)),")
        wh.append(f"{avail(t, 'm')} => {{ m.w(&mut o); {k}u16 }}")
        if t.kind == "struct":
            ids.append(f"{{ <{p} as StructDecode>::get_id().w(o); }}")
        elif t.variants:
            v0 = t.variants[0]
            ids.append(f"{{ EnumDecode::get_id(&{p}::{v0.name}(Default::default())).w(o); }}" if isinstance(v0.ty, str) or v0.ty is None or v0.arr
                       else f"{{ EnumDecode::get_id(&{p}::Defaults).w(o); }}")
    o.append("fn enc(t: u16, i: &mut &[u8]) -> Result<Vec<u8>, String> { match t { " + "\n".join(enc) + " _ => panic!(\"harness: type\") } }")
    o.append("fn dec(t: u16, b: Vec<u8>) -> Result<Vec<u8>, String> { match t { " + "\n".join(dec) + " _ => panic!(\"harness: type\") } }")
    o.append("fn packm(t: u16, seq: u32, u: Option<String>, i: &mut &[u8]) -> Result<Vec<u8>, String> { match t { " + "\n".join(pk) + " _ => panic!(\"harness: type\") } }")
    o.append("fn reenc(t: u16, b: Vec<u8>) -> Result<Vec<u8>, String> { match t { " + "\n".join(re_) + " _ => panic!(\"harness: type\") } }")
    o.append("fn which(m: &AvailableMessages) -> (u16, Vec<u8>) { let mut o = vec![]; let t = match m { " + "\n".join(wh) +
             " #[allow(unreachable_patterns)] _ => 0xffff }; (t, o) }")
    o.append("fn ids(o: &mut Vec<u8>) { " + "\n".join(ids) + " }")
    o.append(MAIN)
    return "\n".join(o)


def build_bytes(ctx):
    """The one dependency of generated protocol code, built with the pinned toolchain."""
    tgt = os.path.join(ctx.scratch, "bytes-target")
    src = os.path.join(VERIF, "rust", "deps")
    rc, out = sh(["cargo", "build", "--offline", "--locked", "--manifest-path", os.path.join(src, "Cargo.toml")],
                 env=rust_env(tgt), timeout=600)
    if rc != 0:
        raise CheckError("the dependency crate does not build:\n" + out[-3000:])
    d = os.path.join(tgt, "debug", "deps")
    lib = [f for f in os.listdir(d) if f.startswith("libbytes-") and f.endswith(".rlib")]
    return os.path.join(d, lib[0])


def compile_rust(src_dir, main, out, bytes_lib, timeout=400):
    rustc = rustc_path()
    return sh([rustc, "--edition", "2021", "-C", "debuginfo=0", "-C", "opt-level=0", "-C", "overflow-checks=on",
               "-C", "debug-assertions=on", "--cap-lints", "allow", "--crate-name", "driver", "--extern",
               f"bytes={bytes_lib}", "-o", out, os.path.join(src_dir, main)], env=rust_env(), timeout=timeout)


class Panic(Exception):
    pass


class RustDriver(Proc):
    def __init__(self, exe, schema):
        super().__init__([exe])
        self.schema = schema

    def op(self, payload):
        r = self.call(payload)
        if r[:1] == b"\x02":
            raise Panic(r[1:].decode("utf-8", "replace"))
        return S.Rd(r[1:])

    def _res(self, r):
        ok = r.take(1) == b"\0"
        b = r.take(r.u("<I"))
        return (True, b) if ok else (False, b.decode("utf-8", "replace"))

    def enc(self, t, w):
        return self._res(self.op(b"\x01" + st.pack("<H", t.idx) + w))

    def dec(self, t, b):
        """-> (ok, W bytes | error, largest allocation asked for)"""
        r = self.op(b"\x02" + st.pack("<HI", t.idx, len(b)) + b)
        ok, v = self._res(r)
        return ok, v, r.u("<Q")

    def reenc(self, t, b):
        return self._res(self.op(b"\x08" + st.pack("<HI", t.idx, len(b)) + b))

    @staticmethod
    def uuid(u):
        if u is None:
            return b"\0"
        e = u.encode()
        return b"\x01" + st.pack("<I", len(e)) + e

    def pack(self, t, w, seq, uuid=None):
        return self._res(self.op(b"\x03" + st.pack("<HI", t.idx, seq) + self.uuid(uuid) + w))

    def stream(self, steps, uuid=None):
        """steps: bytes (a chunk) or None (take the next message).

        -> ([("chunk", code, len, pending) | ("next", None | dict, pending)], largest allocation)"""
        p = [b"\x04", self.uuid(uuid), st.pack("<I", len(steps))]
        for s in steps:
            p.append(b"\x01" if s is None else b"\x00" + st.pack("<I", len(s)) + s)
        r = self.op(b"".join(p))
        out = []
        for s in steps:
            if s is not None:
                out.append(("chunk", r.take(1)[0], r.u("<I"), r.u("<I")))
            else:
                m = None
                if r.take(1) == b"\x01":
                    m = dict(id=r.u("<I"), seq=r.u("<I"), sig=r.u("<H"), ts=r.u("<Q"), len=r.u("<Q"))
                    m["type"] = r.u("<H")
                    m["w"] = r.take(r.u("<I"))
                out.append(("next", m, r.u("<I")))
        return out, r.u("<Q")

    def ids(self):
        r = self.op(b"\x05")
        return [r.u("<I") for _ in self.schema.types]

    def hash(self):
        r = self.op(b"\x06")
        return r.take(r.u("<I")).decode()

    def middleware(self, mode):
        self.op(b"\x07" + st.pack("<I", mode))

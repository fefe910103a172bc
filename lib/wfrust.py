"""Rust code generated for a workflow, driven in memory: a fake transport, scripted handlers, a log of what happened."""
import os
import re
import struct as st

import rustgen
import schema as S
import wf as W
from common import CheckError, VERIF, Violation, cli, rust_env, rustc_path, sh
from proc import Proc

WV = rustgen.PRELUDE[rustgen.PRELUDE.index("pub trait Wv"):].replace("\nfn ", "\npub fn ")
CARGO_TOML = '[package]\nname = "x"\nversion = "0.1.0"\nedition = "2018"\n\n[dependencies]\n'

MW = r'''
// a middleware of the user: inherent functions; it does nothing unless CLIBRI_MW is set
impl @SIDE@::implementation::protocol::PackingMiddleware {
    pub fn encode(b: Vec<u8>, id: u32, seq: u32, _u: Option<String>) -> Result<Vec<u8>, String> { mw(true, b, id, seq) }
    pub fn decode(b: Vec<u8>, id: u32, seq: u32, _u: Option<String>) -> Result<Vec<u8>, String> { mw(false, b, id, seq) }
}
fn mw(enc: bool, mut b: Vec<u8>, id: u32, seq: u32) -> Result<Vec<u8>, String> {
    static ON: std::sync::Once = std::sync::Once::new();
    static YES: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
    ON.call_once(|| YES.store(std::env::var_os("CLIBRI_MW").is_some(), std::sync::atomic::Ordering::SeqCst));
    if !YES.load(std::sync::atomic::Ordering::SeqCst) { return Ok(b); }
    let k = (id as u8) ^ (seq as u8).wrapping_mul(3) ^ 0x5a;
    if !enc {
        if b.len() < 2 || b[b.len() - 1] != 0xA5 || b[b.len() - 2] != k { return Err("middleware: bad trailer".to_string()); }
        b.truncate(b.len() - 2);
    }
    for x in b.iter_mut() { *x ^= k; }
    if enc { b.push(k); b.push(0xA5); }
    Ok(b)
}
'''

COMMON = r'''
#![allow(warnings)]
pub mod wv {
use std::io::Read;
''' + WV + r'''
}
pub mod h {
    use super::wv::*;
    use std::cell::{Cell, RefCell};
    use std::collections::{HashMap, HashSet};
    use std::future::Future;
    use std::pin::Pin;
    use std::rc::Rc;
    use std::task::{Context as Cx, Poll};
    use uuid::Uuid;
    #[derive(Clone, Debug, thiserror::Error)]
    #[error("fake: {0}")]
    pub struct Fe(pub String);
    impl clibri::server::Error for Fe {}
    impl clibri::client::Error for Fe {}
    pub type Fut = Pin<Box<dyn Future<Output = ()>>>;
    thread_local! {
        pub static LOG: RefCell<Vec<u8>> = RefCell::new(vec![]);
        pub static PLANS: RefCell<HashMap<(u8, u16), (usize, Vec<Vec<u8>>)>> = RefCell::new(HashMap::new());
        pub static CTL: RefCell<Option<Rc<dyn Fn(Vec<u8>) -> Fut>>> = RefCell::new(None);
        pub static FAIL: RefCell<HashSet<u32>> = RefCell::new(HashSet::new());
        pub static POLLS: Cell<u64> = Cell::new(0);
        pub static BAD: Cell<u8> = Cell::new(0);
    }
    pub fn log(f: impl FnOnce(&mut Vec<u8>)) { LOG.with(|l| f(&mut l.borrow_mut())) }
    pub fn uuid(i: u32) -> Uuid { Uuid::from_u128(0x1111_2222_0000_0000_0000_0000_0000_0000u128 + i as u128) }
    pub fn idx(u: &Uuid) -> u32 {
        let v = u.as_u128();
        if v >> 112 == 0x1111 { (v & 0xffff_ffff) as u32 } else { 0xffff_fffe }
    }
    pub fn opt_idx(u: Option<Uuid>) -> u32 { u.map(|u| idx(&u)).unwrap_or(0xffff_ffff) }
    pub fn name(d: String) -> String { d.chars().take_while(|c| c.is_alphanumeric()).collect() }
    pub fn plan(kind: u8, k: u16) -> Vec<u8> {
        PLANS.with(|p| {
            let mut p = p.borrow_mut();
            match p.get_mut(&(kind, k)) {
                Some((n, v)) if !v.is_empty() => { let r = v[*n % v.len()].clone(); *n += 1; r }
                _ => panic!("harness: no plan for {} {}", kind as char, k),
            }
        })
    }
    pub fn load_plans(i: &mut &[u8]) {
        PLANS.with(|p| {
            let mut p = p.borrow_mut();
            p.clear();
            let n = u32::r(i);
            for _ in 0..n {
                let kind = take(i, 1)[0];
                let k = u16::r(i);
                let c = u32::r(i);
                let v: Vec<Vec<u8>> = (0..c).map(|_| bytes_arg(i).to_vec()).collect();
                p.insert((kind, k), (0, v));
            }
        });
    }
    pub struct Counted(pub Fut);
    impl Future for Counted {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<()> {
            POLLS.with(|p| p.set(p.get() + 1));
            self.0.as_mut().poll(cx)
        }
    }
    /// Runs everything until nothing moves any more.
    pub async fn settle() {
        let mut quiet = 0;
        for _ in 0..20000 {
            let a = POLLS.with(|p| p.get()) + LOG.with(|l| l.borrow().len() as u64);
            for _ in 0..4 { tokio::task::yield_now().await; }
            let b = POLLS.with(|p| p.get()) + LOG.with(|l| l.borrow().len() as u64);
            if a == b { quiet += 1; if quiet > 3 { return; } } else { quiet = 0; }
        }
        log(|o| o.push(b'L'));
    }
}
'''

MAIN = r'''
fn main() {
    use std::io::{Read, Write};
    use std::panic::{catch_unwind, AssertUnwindSafe};
    std::panic::set_hook(Box::new(|i| { eprintln!("{}", i); }));
    let so = std::io::stdout();
    let si = std::io::stdin();
    let (mut si, mut so) = (si.lock(), so.lock());
    let mut world = World::new();
    loop {
        let mut l = [0u8; 4];
        if si.read_exact(&mut l).is_err() { std::process::exit(0); }
        let mut b = vec![0u8; u32::from_le_bytes(l) as usize];
        si.read_exact(&mut b).unwrap();
        let r = catch_unwind(AssertUnwindSafe(|| world.op(&b)));
        let mut o = vec![];
        match r {
            Ok(()) => { o.push(0u8); h::LOG.with(|l| o.append(&mut l.borrow_mut())); }
            Err(e) => {
                o.push(2u8);
                let m = if let Some(s) = e.downcast_ref::<String>() { s.clone() } else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else { "?".into() };
                o.extend_from_slice(m.as_bytes());
                world = World::new();
                h::LOG.with(|l| l.borrow_mut().clear());
            }
        }
        so.write_all(&(o.len() as u32).to_le_bytes()).unwrap();
        so.write_all(&o).unwrap();
        so.flush().unwrap();
    }
}
'''

PRODUCER = r'''
#[path = "@DIR@/mod.rs"]
pub mod producer;
pub mod ph {
    use crate::h::*;
    use crate::wv::*;
    use crate::producer::implementation::protocol;
    use crate::producer::implementation::consumer::identification::{Filter, Identification};
    use crate::producer::implementation::producer::Control;
    use clibri::server;
    use std::future::Future;
    use std::rc::Rc;
    use uuid::Uuid;
    @IMPLS@
    pub fn b<T: Wv>(v: &T) -> Vec<u8> { let mut o = vec![]; v.w(&mut o); o }
    fn opt_put<T: Wv>(o: &mut Vec<u8>, v: &Option<T>) { match v { None => o.push(0), Some(x) => { o.push(1); put(o, &b(x)); } } }
    fn ident(o: &mut Vec<u8>, i: Option<&Identification>) {
        match i { None => o.push(0), Some(i) => { o.push(1); idx(&i.uuid()).w(o); opt_put(o, &i.key); opt_put(o, &i.assigned); } }
    }
    fn list(o: &mut Vec<u8>, v: Vec<Uuid>) { let mut v: Vec<u32> = v.iter().map(idx).collect(); v.sort(); v.w(o) }
    pub fn enter(kind: u8, k: u16, payload: Vec<u8>, i: Option<&Identification>, f: &Filter<'_>) -> Vec<u8> {
        log(|o| {
            o.push(b'H'); o.push(kind); k.w(o); put(o, &payload); ident(o, i);
            list(o, f.all());
            list(o, match i { Some(i) => f.except(&i.uuid()), None => f.all() });
            list(o, f.exclude(vec![uuid(0), uuid(2)]));
            list(o, f.filter(|i| i.assigned.is_some()));
            list(o, f.filter(|i| i.key.is_some()));
        });
        plan(kind, k)
    }
    pub fn recipients(i: &mut &[u8], id: Option<&Identification>, f: &Filter<'_>) -> Vec<Uuid> {
        match take(i, 1)[0] {
            0 => Vec::<u32>::r(i).into_iter().map(uuid).collect(),
            1 => f.all(),
            2 => f.except(&id.map(|i| i.uuid()).unwrap_or(uuid(1))),
            3 => f.exclude(Vec::<u32>::r(i).into_iter().map(uuid).collect()),
            4 => f.filter(|i| i.assigned.is_some()),
            5 => f.filter(|i| i.key.is_some()),
            _ => panic!("harness: recipients"),
        }
    }
    pub trait BcT { fn mk(i: &mut &[u8], id: Option<&Identification>, f: &Filter<'_>) -> Self; }
    impl<P: Wv> BcT for (Vec<Uuid>, P) {
        fn mk(i: &mut &[u8], id: Option<&Identification>, f: &Filter<'_>) -> Self { let r = recipients(i, id, f); (r, P::r(i)) }
    }
    impl<P: Wv> BcT for Option<(Vec<Uuid>, P)> {
        fn mk(i: &mut &[u8], id: Option<&Identification>, f: &Filter<'_>) -> Self {
            if take(i, 1)[0] == 0 { None } else { Some(<(Vec<Uuid>, P)>::mk(i, id, f)) }
        }
    }
    pub async fn ops<E: server::Error, C: server::Control<E>>(i: &mut &[u8], id: Option<&Identification>, control: &Control<E, C>) {
        let n = u16::r(i);
        for _ in 0..n {
            match take(i, 1)[0] {
                1 => { let ow = bool::r(i); let v = Wv::r(i); if let Some(id) = id { id.set_key(v, ow).unwrap(); } }
                2 => { let ow = bool::r(i); let v = Wv::r(i); if let Some(id) = id { id.set_assign(v, ow).unwrap(); } }
                3 => { let k = u16::r(i); match k { @EVENTS@ _ => panic!("harness: event") }; }
                4 => { let r = control.disconnect(uuid(u32::r(i))).await; log(|o| { o.push(b'R'); o.push(r.is_ok() as u8) }); }
                5 => { let u = u32::r(i); let v = bytes_arg(i).to_vec(); let r = control.send(v, if u == 0xffff_ffff { None } else { Some(uuid(u)) }).await; log(|o| { o.push(b'R'); o.push(r.is_ok() as u8) }); }
                6 => { let u = Vec::<u32>::r(i).into_iter().map(uuid).collect(); let v = bytes_arg(i).to_vec(); let r = control.broadcast(u, v).await; log(|o| { o.push(b'R'); o.push(r.is_ok() as u8) }); }
                7 => { let wait = bool::r(i); let r = control.shutdown(wait).await; log(|o| { o.push(b'R'); o.push(r.is_ok() as u8) }); }
                // a call for a shutdown, given up while it waits
                8 => { let mut f = Box::pin(control.shutdown(true)); let r = std::future::poll_fn(|c| std::task::Poll::Ready(std::future::Future::poll(f.as_mut(), c).is_ready())).await; drop(f); log(|o| { o.push(b'R'); o.push(!r as u8) }); }
                // two calls at once: one of them at least is told that it is done
                9 => { let r = tokio::join!(control.shutdown(true), control.shutdown(true)); log(|o| { o.push(b'R'); o.push((r.0.is_ok() || r.1.is_ok()) as u8) }); }
                _ => panic!("harness: op"),
            }
        }
    }
    pub fn ready<E: server::Error, C: server::Control<E>>(control: &Control<E, C>) {
        log(|o| o.push(b'Y'));
        let c: Control<E, C> = control.clone();
        CTL.with(|x| *x.borrow_mut() = Some(Rc::new(move |v: Vec<u8>| { let c = c.clone(); Box::pin(async move { ops(&mut &v[..], None, &c).await }) as Fut })));
    }
    /// The end of a handler of the life cycle, which fails when told to.
    pub fn end(kind: u8) -> Result<(), String> { if BAD.with(|b| b.get()) == kind { Err(String::from("scripted")) } else { Ok(()) } }
    pub fn error<E: server::Error>(e: &crate::producer::implementation::ProducerError<E>, u: Option<Uuid>, i: Option<&Identification>) {
        log(|o| { o.push(b'E'); put(o, name(format!("{:?}", e)).as_bytes()); opt_idx(u).w(o); ident(o, i); });
    }
}
pub mod ps {
    use crate::h::*;
    use crate::wv::*;
    use async_trait::async_trait;
    use clibri::server;
    use std::sync::Arc;
    use tokio::sync::{mpsc::{unbounded_channel, UnboundedReceiver, UnboundedSender}, Notify};
    use uuid::Uuid;
    #[derive(Clone, Debug)]
    pub struct Ctl { pub stop: Arc<Notify>, pub fail: Arc<std::sync::Mutex<Option<String>>> }
    pub struct Srv { pub rx: Option<UnboundedReceiver<server::Events<Fe>>>, pub ctl: Ctl }
    #[async_trait]
    impl server::Control<Fe> for Ctl {
        async fn shutdown(&self) -> Result<(), Fe> { log(|o| o.push(b'Q')); self.stop.notify_one(); Ok(()) }
        async fn send(&self, buffer: Vec<u8>, client: Option<Uuid>) -> Result<(), Fe> {
            let i = opt_idx(client);
            let bad = FAIL.with(|f| f.borrow().contains(&i));
            log(|o| { o.push(b'S'); i.w(o); put(o, &buffer); });
            if bad { Err(Fe("send".into())) } else { Ok(()) }
        }
        async fn disconnect(&self, client: Uuid) -> Result<(), Fe> {
            log(|o| { o.push(b'D'); idx(&client).w(o); });
            let failing = FAIL.with(|f| f.borrow().contains(&opt_idx(Some(client))));
            if failing { Err(Fe("gone".into())) } else { Ok(()) }
        }
        async fn disconnect_all(&self) -> Result<(), Fe> { log(|o| o.push(b'A')); Ok(()) }
    }
    #[async_trait]
    impl server::Impl<Fe, Ctl> for Srv {
        async fn listen(&mut self) -> Result<(), Fe> {
            self.ctl.stop.notified().await;
            match self.ctl.fail.lock().unwrap().take() { Some(e) => Err(Fe(e)), None => Ok(()) }
        }
        fn observer(&mut self) -> Result<UnboundedReceiver<server::Events<Fe>>, Fe> { self.rx.take().ok_or(Fe("observer".into())) }
        fn control(&self) -> Ctl { self.ctl.clone() }
    }
}
struct World {
    rt: tokio::runtime::Runtime,
    local: Option<tokio::task::LocalSet>,
    tx: Option<tokio::sync::mpsc::UnboundedSender<clibri::server::Events<h::Fe>>>,
    ctl: Option<ps::Ctl>,
}
impl World {
    fn new() -> Self {
        h::CTL.with(|c| *c.borrow_mut() = None);
        World { rt: tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap(), local: None, tx: None, ctl: None }
    }
    fn op(&mut self, b: &[u8]) {
        use wv::*;
        use h::*;
        use clibri::server::Events as Ev;
        use producer::implementation::producer as pp;
        let i = &mut &b[..];
        match take(i, 1)[0] {
            1 => {
                self.local = None;
                CTL.with(|c| *c.borrow_mut() = None);
                FAIL.with(|f| f.borrow_mut().clear());
                BAD.with(|b| b.set(0));
                let (s, e) = (take(i, 1)[0], take(i, 1)[0]);
                load_plans(i);
                let mut opt = producer::Options::new();
                if s != 255 { opt.producer_indentification_strategy(match s {
                    0 => pp::ProducerIdentificationStrategy::Log, 1 => pp::ProducerIdentificationStrategy::EmitError,
                    2 => pp::ProducerIdentificationStrategy::Disconnect, 3 => pp::ProducerIdentificationStrategy::EmitErrorAndDisconnect,
                    _ => pp::ProducerIdentificationStrategy::Ignore }); }
                if e != 255 { opt.consumer_error_handeling_strategy(match e {
                    0 => pp::ConsumerErrorHandelingStrategy::EmitError, 1 => pp::ConsumerErrorHandelingStrategy::Disconnect,
                    2 => pp::ConsumerErrorHandelingStrategy::EmitErrorAndDisconnect, _ => pp::ConsumerErrorHandelingStrategy::Log }); }
                let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
                let ctl = ps::Ctl { stop: std::sync::Arc::new(tokio::sync::Notify::new()), fail: Default::default() };
                let srv = ps::Srv { rx: Some(rx), ctl: ctl.clone() };
                self.tx = Some(tx);
                self.ctl = Some(ctl);
                let l = tokio::task::LocalSet::new();
                l.spawn_local(Counted(Box::pin(async move {
                    let r = producer::run(srv, opt, producer::Context::new()).await;
                    log(|o| { o.push(b'X'); match r { Ok(()) => put(o, b""), Err(e) => put(o, name(format!("{:?}", e)).as_bytes()) } });
                })));
                self.local = Some(l);
            }
            2 => {
                let n = u32::r(i);
                let tx = self.tx.as_ref().unwrap();
                for _ in 0..n {
                    let k = take(i, 1)[0];
                    let u = u32::r(i);
                    let v = bytes_arg(i).to_vec();
                    let s = String::from_utf8_lossy(&v).to_string();
                    let ou = if u == 0xffff_ffff { None } else { Some(uuid(u)) };
                    let _ = tx.send(match k {
                        0 => Ev::Ready, 1 => Ev::Shutdown, 2 => Ev::Connected(uuid(u)), 3 => Ev::Disconnected(uuid(u)),
                        4 => Ev::Received(uuid(u), v), 5 => Ev::Error(ou, s), 6 => Ev::ConnectionError(ou, Fe(s)), _ => Ev::ServerError(Fe(s)),
                    });
                }
            }
            3 => {
                let v = bytes_arg(i).to_vec();
                let f = CTL.with(|c| c.borrow().clone()).expect("harness: no control");
                self.local.as_ref().unwrap().spawn_local(Counted(f(v)));
            }
            4 => { let v = Vec::<u32>::r(i); FAIL.with(|f| *f.borrow_mut() = v.into_iter().collect()); }
            6 => { let k = take(i, 1)[0]; BAD.with(|b| b.set(k)); }
            5 => {
                let c = self.ctl.as_ref().unwrap();
                let how = take(i, 1)[0];
                if how >= 1 { *c.fail.lock().unwrap() = Some("listen".into()); }
                if how < 2 { c.stop.notify_one(); }
            }
            _ => panic!("harness: op"),
        }
        if let Some(l) = self.local.as_ref() { l.block_on(&self.rt, settle()); }
    }
}
'''


def build_deps(ctx):
    """tokio and friends, built once with the pinned toolchain -> rustc arguments."""
    tgt = os.path.join(ctx.scratch, "wfdeps-target")
    src = os.path.join(VERIF, "rust", "wfdeps")
    rc, out = sh(["cargo", "build", "--offline", "--locked", "--manifest-path", os.path.join(src, "Cargo.toml")],
                 env=rust_env(tgt), timeout=600)
    if rc != 0:
        raise CheckError("the dependencies of workflow code do not build:\n" + out[-3000:])
    d = os.path.join(tgt, "debug", "deps")
    args = ["-L", "dependency=" + d]
    for n in ("bytes", "clibri", "log", "thiserror", "async_trait", "tokio", "tokio_util", "uuid"):
        f = [x for x in sorted(os.listdir(d)) if re.fullmatch(rf"lib{n}-[0-9a-f]+\.(rlib|so)", x)]
        args += ["--extern", f"{n}={os.path.join(d, f[0])}"]
    ctx.log("dependencies built")
    return args


def rustc(deps, main, out, timeout=600):
    return sh([rustc_path(), "--edition", "2018", "-C", "debuginfo=0", "-C", "opt-level=0", "-C", "debug-assertions=on",
               "-C", "overflow-checks=on", "--cap-lints", "allow", "--crate-name", "driver", *deps, "-o", out, main],
              env=rust_env(), timeout=timeout)


BODY = re.compile(r"pub async fn (?:response|emit|handler)\b[^{;]*\{", re.S)


def fill(path, body):
    """Puts a body into a handler, which was generated for the user to fill in."""
    try:
        s = open(path).read()
    except OSError:
        raise Violation("no-handler", f"a declared handler isn't generated: {os.path.basename(path)}")
    m = BODY.search(s)
    if not m:
        raise Violation("no-handler", f"no function to fill in {os.path.basename(path)}:\n{s[:600]}")
    with open(path, "w") as f:
        f.write(s[:m.end()] + "\n" + body + "\n}\n")


def read(p):
    with open(p) as f:
        return f.read()


DEFER = "if take(i, 1)[0] == 1 { scope.deferred(Box::pin(async { crate::h::log(|o| o.push(b'F')) })); }"


def producer_handlers(w, d):
    """Fills in everything a user writes."""
    use = "use crate::wv::*; use crate::ph::*;"
    for k, r in enumerate(w.reqs):
        if len(r.acts) > 1:
            arms = []
            for n, a in enumerate(r.acts):
                args = ["Wv::r(i)"] + ["BcT::mk(i, Some(scope.identification), scope.filter)"] * len(a.bcs)
                v = f"(({', '.join(args)}))" if a.bcs else f"({args[0]})"
                arms.append(f"{n + 1} => Ok(Response::{a.concl}{v}),")
        elif r.acts[0].bcs:
            args = ["Wv::r(i)"] + ["BcT::mk(i, Some(scope.identification), scope.filter)"] * len(r.acts[0].bcs)
            arms = [f"1 => Ok(Response::{r.acts[0].concl or 'Response'}(({', '.join(args)}))),"]
        else:
            arms = ["1 => Ok(Wv::r(i)),"]
        fill(os.path.join(d, "responses", W.mod(r.t) + ".rs"), f"""
    {use}
    let plan = enter(b'r', {k}, crate::ph::b(request), Some(scope.identification), scope.filter);
    let i = &mut &plan[..];
    ops(i, Some(scope.identification), scope.control).await;
    {DEFER}
    match take(i, 1)[0] {{ 0 => Err(Wv::r(i)), {' '.join(arms)} _ => panic!("harness: choice") }}""")
    for k, e in enumerate(w.evs):
        idn = "Some(scope.identification)" if e.default() else "None"
        bc = f"BcT::mk(i, {idn}, scope.filter)"
        v = bc if len(e.bcs) == 1 else "(" + ", ".join([bc] * len(e.bcs)) + ")"
        pay = "vec![]" if e.default() else "crate::ph::b(&event)"
        fill(os.path.join(d, "events", W.mod(e.t) + ".rs"), f"""
    {use}
    let plan = enter(b'e', {k}, {pay}, {idn}, scope.filter);
    let i = &mut &plan[..];
    ops(i, {idn}, scope.control).await;
    {DEFER}
    if take(i, 1)[0] == 0 {{ return Err(String::from("scripted")); }}
    Ok({v})""")
    have = {e.t for e in w.evs if e.default()}
    for k, n in ((1000, "connected"), (1001, "disconnected")):
        if n not in have:
            fill(os.path.join(d, "events", n + ".rs"), f"""
    {use}
    let plan = enter(b'e', {k}, vec![], Some(scope.identification), scope.filter);
    let i = &mut &plan[..];
    ops(i, Some(scope.identification), scope.control).await;
    {DEFER}
    if take(i, 1)[0] == 0 {{ return Err(String::from("scripted")); }}
    Ok(())""")
    for k, t in enumerate(w.beacons):
        fill(os.path.join(d, "beacons", W.mod(t) + ".rs"), f"""
    {use}
    let plan = enter(b'b', {k}, crate::ph::b(beacon), Some(scope.identification), scope.filter);
    let i = &mut &plan[..];
    ops(i, Some(scope.identification), scope.control).await;
    {DEFER}
    if take(i, 1)[0] == 0 {{ Err(String::from("scripted")) }} else {{ Ok(()) }}""")
    fill(os.path.join(d, "events", "error.rs"), "    crate::ph::error(&error, uuid, identification);\n    crate::ph::end(b'E')")
    fill(os.path.join(d, "events", "ready.rs"), "    crate::ph::ready(control);\n    crate::ph::end(b'Y')")
    fill(os.path.join(d, "events", "shutdown.rs"), "    crate::h::log(|o| o.push(b'Z'));\n    crate::ph::end(b'Z')")


def producer_main(w, sub=""):
    evs = " ".join(f"{k} => {{ let r = control.events.{W.mod(e.t)}(Wv::r(i)).await; assert!(r.is_ok()); }}"
                   for k, e in enumerate(w.evs) if not e.default())
    impls = "\n".join(rustgen.wv_impls(w.full))
    return COMMON + PRODUCER.replace("@DIR@", os.path.join("p/src/producer", sub).rstrip("/")).replace("@IMPLS@", impls).replace("@EVENTS@", evs) + MW.replace("@SIDE@", "producer") + MAIN


def generate(exe, w, d, text=None, prot=None, lang="rust"):
    """Runs the CLI in d: p/src/producer and c/src/consumer."""
    for side in ("p", "c"):
        os.makedirs(os.path.join(d, side, "src"), exist_ok=True)
        with open(os.path.join(d, side, "Cargo.toml"), "w") as f:
            f.write(CARGO_TOML)
        with open(os.path.join(d, side, "package.json"), "w") as f:
            f.write('{"name": "x", "version": "0.1.0"}\n')
    for n, t in (("a.prot", prot or S.text(w.schema)), ("a.workflow", text or W.text(w))):
        with open(os.path.join(d, n), "w") as f:
            f.write(t)
    r = cli(exe, ["-s", "a.prot", "-wf", "a.workflow", "-pd", "p/src/producer", "-cd", "c/src/consumer"], d)
    if not r.ok:
        raise Violation("valid-refused", "the generator refuses or fails on a valid workflow: " + r.text(), replay(w))
    return r


def replay(w):
    return {"prot": S.text(w.schema), "workflow": W.text(w)}


def compiled(rc, out, w, what):
    if rc != 0:
        errs = [l for l in out.splitlines() if l.startswith("error")]
        if not errs or "linking" in out or "rustc interrupted" in out or "memory allocation" in out:
            raise CheckError("rustc failed: " + out[-2000:])
        raise Violation("rust-compile", f"{what} does not compile: " + out[:2500], replay(w))


def build_producer(lab, w, d, generated=False, sub=""):
    """sub: folder of the language, where there are several."""
    if not generated:
        generate(lab.exe, w, d)
    try:
        producer_handlers(w, os.path.join(d, "p", "src", "producer", sub))
    except Violation as v:
        v.replay.update(replay(w))
        raise
    with open(os.path.join(d, "main.rs"), "w") as f:
        f.write(producer_main(w, sub))
    rc, out = rustc(lab.deps, os.path.join(d, "main.rs"), os.path.join(d, "pdriver"))
    compiled(rc, out, w, "the generated producer with filled in handlers")
    return ProducerDriver(os.path.join(d, "pdriver"), w)


NONE = 0xFFFFFFFF


def put(b):
    return st.pack("<I", len(b)) + b


class ProducerDriver(Proc):
    def __init__(self, exe, w):
        super().__init__([exe])
        self.w = w

    def op(self, payload):
        r = self.call(payload)
        if r[:1] == b"\x02":
            raise rustgen.Panic(r[1:].decode("utf-8", "replace"))
        return records(S.Rd(r[1:]))

    def start_run(self, ident, err, plans):
        """plans: {(kind, index): [bytes]}"""
        o = [b"\x01", bytes([ident, err]), st.pack("<I", len(plans))]
        for (kind, k), ps in plans.items():
            o.append(kind.encode() + st.pack("<HI", k, len(ps)) + b"".join(put(p) for p in ps))
        return self.op(b"".join(o))

    def events(self, evs):
        """evs: [(kind, uuid index or None, bytes)]"""
        return self.op(b"\x02" + st.pack("<I", len(evs)) + b"".join(
            bytes([k]) + st.pack("<I", NONE if u is None else u) + put(v) for k, u, v in evs))

    def ctl(self, ops):
        return self.op(b"\x03" + put(ops))

    def fail(self, us):
        return self.op(b"\x04" + st.pack("<I", len(us)) + b"".join(st.pack("<I", u) for u in us))

    def bad_handler(self, kind):
        return self.op(b"\x06" + kind)

    def listen_ends(self, err):
        return self.op(b"\x05" + bytes([err]))


def r_ident(r):
    if r.take(1) == b"\0":
        return None
    u = r.u("<I")
    key = r.take(r.u("<I")) if r.take(1) == b"\1" else None
    asg = r.take(r.u("<I")) if r.take(1) == b"\1" else None
    return (u, key, asg)


def r_list(r):
    return tuple(r.u("<I") for _ in range(r.u("<I")))


def records(r):
    out = []
    while r.p < len(r.b):
        k = r.take(1).decode()
        if k in "YZQAFL":
            out.append((k,))
        elif k == "D":
            out.append((k, r.u("<I")))
        elif k == "R":
            out.append((k, r.take(1)[0]))
        elif k == "S":
            u = r.u("<I")
            out.append((k, u, r.take(r.u("<I"))))
        elif k == "H":
            kind, n = r.take(1).decode(), r.u("<H")
            pay = r.take(r.u("<I"))
            i = r_ident(r)
            out.append((k, kind, n, pay, i) + tuple(r_list(r) for _ in range(5)))
        elif k == "E":
            nm = r.take(r.u("<I")).decode()
            u = r.u("<I")
            out.append((k, nm, None if u == NONE else u, r_ident(r)))
        elif k in "XU":
            out.append((k, r.take(r.u("<I")).decode()))
        else:
            raise ValueError(f"unknown record {k!r}")
    return out

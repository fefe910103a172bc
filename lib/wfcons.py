"""The Rust consumer of a workflow: driver with a fake client, scripted handlers; reference model; generated histories."""
import os
import struct as st

from hypothesis import strategies as hs

import rustgen
import schema as S
import wf as W
import wfrust as R
from common import Violation
from pmodel import ANY_TEXT, blob, same_msg, show_msg, uuid_str

CONSUMER = r'''
#[path = "@DIR@/mod.rs"]
pub mod consumer;
pub mod ch {
    use crate::h::*;
    use crate::wv::*;
    use crate::consumer::{implementation::{consumer::controller, Consumer, ConsumerError}, protocol, Context};
    use clibri::client;
    use std::cell::{Cell, RefCell};
    @IMPLS@
    thread_local! {
        pub static CALLS: Cell<u32> = Cell::new(1000);
        pub static PROMPT: RefCell<Option<Vec<u8>>> = RefCell::new(None);
        pub static SEQS: RefCell<Option<Vec<u32>>> = RefCell::new(None);
    }
    fn result() -> (u8, u16, Vec<u8>) {
        let l = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
        let i = &mut &l[..];
        if i.len() < 12 || take(i, 1)[0] != b'A' { return (9, 0, l.clone()); }
        u32::r(i);
        let s = take(i, 1)[0];
        (s, u16::r(i), bytes_arg(i).to_vec())
    }
    /// One call waits while many others come and go.
    pub async fn marathon<E: client::Error>(c: Consumer<E>, n: u32, p: Vec<u8>, answers: Vec<(u16, Vec<u8>, Vec<u8>)>, back: impl Fn(Vec<u8>)) -> String {
        let seq = || SEQS.with(|s| { let v = std::mem::take(s.borrow_mut().as_mut().unwrap()); if v.len() == 1 { Some(v[0]) } else { None } });
        SEQS.with(|s| *s.borrow_mut() = Some(vec![]));
        let held = tokio::spawn(call(c.clone(), 1, p.clone()));
        for _ in 0..200 { tokio::task::yield_now().await; }
        let first = match seq() { Some(s) => s, None => return "a call doesn't send one message".into() };
        let mut seen: std::collections::HashSet<u32> = vec![first].into_iter().collect();
        for k in 0..n as usize {
            let (v, package, payload) = &answers[k % answers.len()];
            PROMPT.with(|x| *x.borrow_mut() = Some(package.clone()));
            LOG.with(|l| l.borrow_mut().clear());
            call(c.clone(), 2, p.clone()).await;
            let got = result();
            match seq() { Some(s) => if !seen.insert(s) { return format!("call {} has sequence {} again", k, s); }, None => return format!("call {} doesn't send one message", k) }
            if got != (0, *v, payload.clone()) { return format!("call {} ends with {:?}", k, got); }
        }
        let (v, package, payload) = &answers[answers.len() - 1];
        let mut b = package.clone();
        b[6..10].copy_from_slice(&first.to_le_bytes());
        back(b);
        for _ in 0..200 { tokio::task::yield_now().await; }
        let got = result();
        if got != (0, *v, payload.clone()) { return format!("the call that waited for all others ends with {:?}", got); }
        let _ = held.await;
        // many calls at once, the answers come in another order
        let m = 300usize;
        SEQS.with(|s| *s.borrow_mut() = Some(vec![]));
        for k in 0..m { tokio::spawn(call(c.clone(), 10 + k as u32, p.clone())); }
        for _ in 0..4000 { tokio::task::yield_now().await; if SEQS.with(|s| s.borrow().as_ref().unwrap().len()) >= m { break; } }
        for _ in 0..200 { tokio::task::yield_now().await; }
        let mut seqs = SEQS.with(|s| std::mem::take(s.borrow_mut().as_mut().unwrap()));
        if seqs.len() != m { return format!("{} calls at once send {} messages", m, seqs.len()); }
        if LOG.with(|l| !l.borrow().is_empty()) { return "a call ends without an answer".into(); }
        for s in &seqs { if !seen.insert(*s) { return format!("sequence {} is used again", s); } }
        seqs.sort_by_key(|s| (*s as u64 * 7919) % 307);
        let mut expected = vec![];
        let mut all = vec![];
        for (k, s) in seqs.iter().enumerate() {
            let (v, package, payload) = &answers[k % answers.len()];
            let mut b = package.clone();
            b[6..10].copy_from_slice(&s.to_le_bytes());
            expected.push((0u8, *v, payload.clone()));
            if k < m / 3 { all.extend(b); } else { if !all.is_empty() { back(std::mem::take(&mut all)); } back(b); }
        }
        for _ in 0..4000 { tokio::task::yield_now().await; }
        let l = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
        let i = &mut &l[..];
        let mut got = vec![];
        while !i.is_empty() {
            if i.len() < 12 || take(i, 1)[0] != b'A' { return "something else happens".into(); }
            u32::r(i);
            let s = take(i, 1)[0];
            got.push((s, u16::r(i), bytes_arg(i).to_vec()));
        }
        got.sort();
        expected.sort();
        if got != expected { return format!("{} calls at once: {} end, not all with their answers", m, got.len()); }
        String::new()
    }
    pub fn b<T: Wv>(v: &T) -> Vec<u8> { let mut o = vec![]; v.w(&mut o); o }
    pub fn res<T: Wv>(id: u32, n: u16, v: &T) { log(|o| { o.push(b'A'); id.w(o); o.push(0); n.w(o); put(o, &b(v)); }) }
    pub fn done(id: u32) { log(|o| { o.push(b'A'); id.w(o); o.push(0); 0u16.w(o); put(o, &[]); }) }
    pub fn bad<T: std::fmt::Debug>(id: u32, e: T) { log(|o| { o.push(b'A'); id.w(o); o.push(1); 0u16.w(o); put(o, name(format!("{:?}", e)).as_bytes()); }) }
    pub async fn call<E: client::Error>(mut c: Consumer<E>, id: u32, p: Vec<u8>) {
        let i = &mut &p[..];
        let kind = take(i, 1)[0];
        let k = u16::r(i);
        match (kind, k) {
            @CALLS@
            _ => panic!("harness: call"),
        }
    }
    pub async fn enter<E: client::Error>(kind: u8, k: u16, payload: Vec<u8>, context: &mut Context, consumer: Option<Consumer<E>>) -> Vec<u8> {
        context.n += 1;
        log(|o| { o.push(b'H'); o.push(kind); k.w(o); context.n.w(o); put(o, &payload); });
        let p = plan(kind, k);
        if let (Some(c), false) = (consumer, p.is_empty()) {
            let id = CALLS.with(|c| { let n = c.get() + 1; c.set(n); n });
            call(c, id, p).await;
            return vec![];
        }
        p
    }
    pub fn err_name<E: client::Error>(e: &ConsumerError<E>) -> Vec<u8> { name(format!("{:?}", e)).into_bytes() }
}
pub mod cs {
    use crate::h::*;
    use crate::wv::*;
    use async_trait::async_trait;
    use clibri::client;
    use std::sync::{Arc, Mutex};
    use tokio::sync::{mpsc::{unbounded_channel, UnboundedReceiver, UnboundedSender}, Notify};
    #[derive(Clone)]
    pub struct Ctl { pub stop: Arc<Notify>, pub fail: Arc<Mutex<Option<String>>>, pub tx: Arc<Mutex<Option<UnboundedSender<client::Event<Fe>>>>> }
    pub struct Cl { pub ctl: Ctl }
    #[async_trait]
    impl client::Control<Fe> for Ctl {
        async fn shutdown(&self) -> Result<(), Fe> { log(|o| o.push(b'Q')); Ok(()) }
        async fn send(&self, msg: client::Message) -> Result<(), Fe> {
            let bad = FAIL.with(|f| f.borrow().contains(&0));
            if let client::Message::Binary(b) = &msg {
                if super::ch::SEQS.with(|s| s.borrow().is_some()) {
                    let seq = [b[6], b[7], b[8], b[9]];
                    super::ch::SEQS.with(|s| s.borrow_mut().as_mut().unwrap().push(u32::from_le_bytes(seq)));
                    if let Some(mut a) = super::ch::PROMPT.with(|p| p.borrow_mut().take()) {
                        a[6..10].copy_from_slice(&seq);
                        if let Some(tx) = self.tx.lock().unwrap().as_ref() { let _ = tx.send(client::Event::Message(client::Message::Binary(a))); }
                    }
                    return Ok(());
                }
            }
            match msg { client::Message::Binary(b) => log(|o| { o.push(b'S'); put(o, &b); }), _ => log(|o| o.push(b'T')) }
            if bad { Err(Fe("send".into())) } else { Ok(()) }
        }
    }
    #[async_trait]
    impl client::Impl<Fe, Ctl> for Cl {
        async fn connect(&mut self) -> Result<(), Fe> {
            log(|o| o.push(b'O'));
            self.ctl.stop.notified().await;
            match self.ctl.fail.lock().unwrap().take() { Some(e) => Err(Fe(e)), None => Ok(()) }
        }
        fn observer(&mut self) -> Result<UnboundedReceiver<client::Event<Fe>>, Fe> {
            let (tx, rx) = unbounded_channel();
            *self.ctl.tx.lock().unwrap() = Some(tx);
            Ok(rx)
        }
        fn control(&self) -> Ctl { self.ctl.clone() }
    }
}
struct World {
    rt: Option<tokio::runtime::Runtime>,
    ctl: Option<cs::Ctl>,
    getter: Option<std::sync::Arc<consumer::implementation::consumer::ConsumerGetter<h::Fe>>>,
    tasks: std::collections::HashMap<u32, tokio::task::JoinHandle<()>>,
}
async fn settle() {
    let mut quiet = 0;
    for _ in 0..4000 {
        let a = h::LOG.with(|l| l.borrow().len());
        for _ in 0..24 { tokio::task::yield_now().await; }
        if a == h::LOG.with(|l| l.borrow().len()) { quiet += 1; if quiet > 2 { return; } } else { quiet = 0; }
    }
    h::log(|o| o.push(b'L'));
}
impl World {
    fn new() -> Self { World { rt: None, ctl: None, getter: None, tasks: Default::default() } }
    fn op(&mut self, b: &[u8]) {
        use wv::*;
        use h::*;
        use clibri::client::{Event as Ev, Message as Ms};
        let i = &mut &b[..];
        let mut advance = 0u64;
        match take(i, 1)[0] {
            1 => {
                self.tasks.clear();
                self.getter = None;
                self.ctl = None;
                self.rt = None;
                FAIL.with(|f| f.borrow_mut().clear());
                ch::CALLS.with(|c| c.set(1000));
                let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
                let (re, ms, timeout) = (bool::r(i), u64::r(i), u64::r(i));
                let key = Wv::r(i);
                load_plans(i);
                let mut opt = consumer::Options::defualt(key);
                opt.request_timeout = timeout;
                opt.reconnection = if re { consumer::ReconnectionStrategy::Reconnect(ms) } else { consumer::ReconnectionStrategy::DoNotReconnect };
                let ctl = cs::Ctl { stop: Default::default(), fail: Default::default(), tx: Default::default() };
                let cl = cs::Cl { ctl: ctl.clone() };
                self.ctl = Some(ctl);
                let g = rt.block_on(consumer::connect::<cs::Cl, Fe, cs::Ctl>(cl, consumer::Context { n: 0 }, opt)).map_err(|e| format!("{:?}", e)).expect("connect");
                self.getter = Some(std::sync::Arc::new(g));
                self.rt = Some(rt);
            }
            2 => {
                let n = u32::r(i);
                for _ in 0..n {
                    let k = take(i, 1)[0];
                    let v = bytes_arg(i).to_vec();
                    let s = String::from_utf8_lossy(&v).to_string();
                    let ev = match k {
                        0 => Ev::Connected("127.0.0.1:1".parse().unwrap()), 1 => Ev::Disconnected, 2 => Ev::Error(Fe(s)),
                        3 => Ev::Message(Ms::Binary(v)), 4 => Ev::Message(Ms::Text(s)), 5 => Ev::Message(Ms::Ping(v)), _ => Ev::Message(Ms::Pong(v)),
                    };
                    if let Some(tx) = self.ctl.as_ref().unwrap().tx.lock().unwrap().as_ref() { let _ = tx.send(ev); }
                }
            }
            3 => while !i.is_empty() {
                let id = u32::r(i);
                let p = bytes_arg(i).to_vec();
                let g = self.getter.as_ref().unwrap().clone();
                let t = self.rt.as_ref().unwrap().spawn(async move {
                    match g.get().await { Ok(c) => if p.is_empty() { match c.shutdown().await { Ok(()) => ch::done(id), Err(e) => ch::bad(id, e) } }
                        else if p[0] == b'!' { // given up while it waits
                            let mut f = Box::pin(c.shutdown());
                            let r = std::future::poll_fn(|x| std::task::Poll::Ready(std::future::Future::poll(f.as_mut(), x).is_ready())).await;
                            drop(f);
                            if r { ch::bad(id, "ended") } else { ch::done(id) } }
                        else if p[0] == b'2' { let r = tokio::join!(c.shutdown(), c.shutdown()); if r.0.is_ok() || r.1.is_ok() { ch::done(id) } else { ch::bad(id, "both") } }
                        else { ch::call(c, id, p).await }, Err(e) => ch::bad(id, e) }
                });
                self.tasks.insert(id, t);
            }
            4 => { if let Some(t) = self.tasks.get(&u32::r(i)) { t.abort(); } }
            5 => { advance = u64::r(i); }
            6 => { let v = Vec::<u32>::r(i); FAIL.with(|f| *f.borrow_mut() = v.into_iter().collect()); }
            7 => { let c = self.ctl.as_ref().unwrap(); if take(i, 1)[0] == 1 { *c.fail.lock().unwrap() = Some("connect".into()); } c.stop.notify_one(); }
            8 => {
                let n = u32::r(i);
                let p = bytes_arg(i).to_vec();
                let m = u32::r(i);
                let answers: Vec<(u16, Vec<u8>, Vec<u8>)> = (0..m).map(|_| (u16::r(i), bytes_arg(i).to_vec(), bytes_arg(i).to_vec())).collect();
                let g = self.getter.as_ref().unwrap().clone();
                let tx = self.ctl.as_ref().unwrap().tx.clone();
                let r = self.rt.as_ref().unwrap().block_on(async move {
                    let c = match g.get().await { Ok(c) => c, Err(e) => return format!("{:?}", e) };
                    ch::marathon(c, n, p, answers, |b| { if let Some(tx) = tx.lock().unwrap().as_ref() { let _ = tx.send(Ev::Message(Ms::Binary(b))); } }).await
                });
                ch::SEQS.with(|s| *s.borrow_mut() = None);
                LOG.with(|l| l.borrow_mut().clear());
                log(|o| { o.push(b'M'); put(o, r.as_bytes()); });
                return;
            }
            _ => panic!("harness: op"),
        }
        self.rt.as_ref().unwrap().block_on(async move {
            if advance > 0 { tokio::time::advance(std::time::Duration::from_millis(advance)).await; }
            settle().await;
        });
    }
}
'''


def calls_rs(w):
    o = []
    for k, r in enumerate(w.reqs):
        ty = "controller::" + "".join(r.t.path) + "Response"
        arms = [f"Ok({ty}::{a.concl or 'Response'}(m)) => res(id, {n + 1}, &m)," for n, a in enumerate(r.acts)]
        arms.append(f"Ok({ty}::Err(m)) => res(id, 0, &m),")
        o.append(f"(b'r', {k}) => match c.{W.mod(r.t)}(Wv::r(i)).await {{ {' '.join(arms)} Err(e) => bad(id, e) }},")
    for k, t in enumerate(w.beacons):
        o.append(f"(b'b', {k}) => match c.beacon_{W.mod(t)}(Wv::r(i)).await {{ Ok(()) => done(id), Err(e) => bad(id, e) }},")
    return "\n            ".join(o)


def consumer_handlers(w, d):
    for k, t in enumerate(w.broadcasts()):
        R.fill(os.path.join(d, "broadcasts", W.mod(t) + ".rs"), f"    crate::ch::enter(b'B', {k}, crate::ch::b(&event), context, Some(consumer)).await;")
    for f, kind, pay in (("connected", "C", "vec![]"), ("disconnected", "D", "vec![]"), ("error", "E", "crate::ch::err_name(&error)"),
                         ("shutdown", "X", "error.as_ref().map(|e| crate::ch::err_name(e)).unwrap_or(vec![])")):
        R.fill(os.path.join(d, "events", f + ".rs"), f"    let p = {pay};\n    crate::ch::enter(b'{kind}', 0, p, context, Some(consumer)).await;")
    R.fill(os.path.join(d, "events", "reconnect.rs"),
           "    let p = timeout.to_le_bytes().to_vec();\n    crate::ch::enter::<crate::h::Fe>(b'N', 0, p, context, None).await == vec![1]")
    p = os.path.join(d, "context.rs")
    s = R.read(p)
    if "pub struct Context {}" not in s:
        raise Violation("no-handler", "the context of a consumer isn't generated:\n" + s[:500])
    with open(p, "w") as f:
        f.write(s.replace("pub struct Context {}", "pub struct Context { pub n: u64 }"))


def build_consumer(lab, w, d, generated=False, sub=""):
    if not generated:
        R.generate(lab.exe, w, d)
    try:
        consumer_handlers(w, os.path.join(d, "c", "src", "consumer", sub))
    except Violation as v:
        v.replay.update(R.replay(w))
        raise
    impls = "\n".join(rustgen.wv_impls(w.full))
    with open(os.path.join(d, "cmain.rs"), "w") as f:
        f.write(R.COMMON + CONSUMER.replace("@DIR@", os.path.join("c/src/consumer", sub).rstrip("/")).replace("@IMPLS@", impls).replace("@CALLS@", calls_rs(w)) + R.MW.replace("@SIDE@", "consumer") + R.MAIN)
    rc, out = R.rustc(lab.deps, os.path.join(d, "cmain.rs"), os.path.join(d, "cdriver"))
    R.compiled(rc, out, w, "the generated consumer with filled in handlers")
    return ConsumerDriver(os.path.join(d, "cdriver"), w)


class ConsumerDriver(R.ProducerDriver):
    def op(self, payload):
        r = self.call(payload)
        if r[:1] == b"\x02":
            raise rustgen.Panic(r[1:].decode("utf-8", "replace"))
        return records(S.Rd(r[1:]))

    def connect(self, reconnect, timeout, key, plans):
        o = [b"\x01", bytes([reconnect is not None]), st.pack("<QQ", reconnect or 0, timeout), key, st.pack("<I", len(plans))]
        for (kind, k), ps in plans.items():
            o.append(kind.encode() + st.pack("<HI", k, len(ps)) + b"".join(blob(p) for p in ps))
        return self.op(b"".join(o))

    def push(self, evs):
        return self.op(b"\x02" + st.pack("<I", len(evs)) + b"".join(bytes([k]) + blob(v) for k, v in evs))

    def begin(self, id, p):
        return self.begin_all([(id, p)])

    def begin_all(self, calls):
        return self.op(b"\x03" + b"".join(st.pack("<I", id) + blob(p) for id, p in calls))

    def marathon(self, n, p, answers):
        self.patience = 8          # thousands of calls in one request
        try:
            return self.op(b"\x08" + st.pack("<I", n) + blob(p) + st.pack("<I", len(answers)) + b"".join(st.pack("<H", v) + blob(a) + blob(x) for v, a, x in answers))
        finally:
            self.patience = 1

    def drop(self, id):
        return self.op(b"\x04" + st.pack("<I", id))

    def advance(self, ms):
        return self.op(b"\x05" + st.pack("<Q", ms))

    def failing(self, on):
        return self.op(b"\x06" + (st.pack("<II", 1, 0) if on else st.pack("<I", 0)))

    def ends(self, err):
        return self.op(b"\x07" + bytes([err]))


def records(r):
    out = []
    while r.p < len(r.b):
        k = r.take(1).decode()
        if k in "OQLT":
            out.append((k,))
        elif k in "SM":
            out.append((k, r.take(r.u("<I"))))
        elif k == "H":
            kind, n, c = r.take(1).decode(), r.u("<H"), r.u("<Q")
            out.append((k, kind, n, c, r.take(r.u("<I"))))
        elif k == "A":
            i, stt, n = r.u("<I"), r.take(1)[0], r.u("<H")
            out.append((k, i, stt, n, r.take(r.u("<I"))))
        else:
            raise Violation("harness", f"record {k!r}")
    return out


# -- model -----------------------------------------------------------------------
class Call:
    def __init__(self, id, kind, k, value, deadline, handler):
        self.id, self.kind, self.k, self.value, self.deadline, self.handler = id, kind, k, value, deadline, handler
        self.seq = None
        self.alive = True          # somebody waits for it


class CModel:
    """What a consumer does.  Sequences are free but fresh: they are learnt from what is sent."""

    def __init__(self, w, hashes, reconnect, timeout, key, plans):
        self.w, self.hashes, self.reconnect, self.timeout, self.key, self.plans = w, hashes, reconnect, timeout, key, plans
        self.pos = {k: 0 for k in plans}
        self.bcs = w.broadcasts()
        self.n = 0                 # calls of handlers (kept in the context)
        self.hcalls = 1000
        self.now = 0
        self.wake = None           # time of reconnection
        self.round = 0             # connections so far
        self.state = "new"
        self.calls = {}
        self.fail = False
        self.late = []             # calls that wait for a connection
        self.log = []              # handler records
        self.sent = []             # [(what, type, value)]
        self.res = {}              # id -> (status, variant, payload or set of names)
        self.marks = []
        self.stat = {}

    def count(self, k):
        self.stat[k] = self.stat.get(k, 0) + 1

    def connect(self):
        self.state = "up"
        self.round += 1
        self.auth = None           # None | "key" | "hash" | "done"
        self.auth_seq = {}
        self.used = set()
        self.pending = {}          # seq -> call
        self.queue, self.blocked = [], None
        self.marks.append("O")
        late, self.late = self.late, []
        for id, p in late:
            self.count("late call")
            self.start(id, p)

    # -- handlers
    def emit(self, kind, k=0, payload=b""):
        self.queue.append((kind, k, payload))

    def pump(self):
        while self.queue and self.blocked is None:
            kind, k, payload = self.queue.pop(0)
            p = self.enter(kind, k, payload)
            if p:
                self.hcalls += 1
                self.start(self.hcalls, p, True)

    def enter(self, kind, k, payload):
        self.n += 1
        self.log.append((kind, k, self.n, payload))
        ps = self.plans[(kind, k)]
        p = ps[self.pos[(kind, k)] % len(ps)]
        self.pos[(kind, k)] += 1
        return p

    # -- calls
    def start(self, id, p, handler=False):
        if self.state == "waiting":
            self.late.append((id, p))
            return
        if self.state != "up":
            self.res[id] = "error"
            return
        if p is None:
            self.count("late shutdown")
            self.marks.append("Q")
            self.res[id] = (0, 0, b"")
            self.down(None, False, True)
            return
        kind, k, value = p
        t = self.w.reqs[k].t if kind == "r" else self.w.beacons[k]
        c = Call(id, kind, k, value, self.now + self.timeout if kind == "r" else None, handler)
        self.calls[id] = c
        if handler:
            self.blocked = c
        self.sent.append((c, t, value))
        if self.fail:
            self.down("ClientChannel")

    def resolve(self, c, r):
        if c.alive:
            c.alive = False
            self.res[c.id] = r
            if self.blocked is c:
                self.blocked = None

    def drop(self, id):
        c = self.calls.get(id)
        self.late = [x for x in self.late if x[0] != id]
        if c and c.alive:
            c.alive = False
            self.count("given up")

    # -- the connection
    def down(self, err, emit_err=False, shutdown=False):
        """The end of a connection."""
        if self.state != "up":
            return
        self.state = "ended"
        self.count("handshake failed" if err in ("Handshake", "HashCheck", "Uuid") else "ended early")
        if emit_err:
            self.emit("E", 0, err.encode())
        self.emit("D")
        self.emit("X", 0, (err or "").encode())
        for c in list(self.calls.values()):
            self.resolve(c, "error")
        self.pump()
        if err is None and not shutdown and self.reconnect is not None:
            if self.enter("N", 0, st.pack("<Q", self.reconnect)):
                self.state, self.wake = "waiting", self.now + self.reconnect
                if not self.reconnect:
                    self.count("reconnected at once")
                    self.connect()

    def income(self, t, v, seq):
        w = self.w
        if t is w.svc("ConnectConfirmationBeacon"):
            self.auth = "key"
            self.sent.append(("auth", w.key_t, self.key))
            return
        if seq in self.auth_seq:
            return self.handshake(self.auth_seq.pop(seq), t, v)
        c = self.pending.pop(seq, None)
        if c is not None:
            if not c.alive:
                self.count("late response")
                return
            if c.kind == "r":
                r = w.reqs[c.k]
                for n, x in enumerate([r.err] + [a.t for a in r.acts]):
                    if x is t:
                        self.count("answered")
                        return self.resolve(c, (0, n, S.W(t, v)))
                return self.resolve(c, (1, 0, b"UnexpectedResponse"))
            if t is w.svc("BeaconConfirmation"):
                self.count("beacon confirmed")
                return self.resolve(c, (1, 0, b"Broadcast") if v[0] is not None else (0, 0, b""))
            return self.resolve(c, (1, 0, b"UnexpectedResponse"))
        for k, b in enumerate(self.bcs):
            if b is t:
                self.count("broadcast")
                return self.emit("B", k, S.W(t, v))
        self.count("unknown message")
        self.emit("E", 0, b"UnknownMessage")

    def handshake(self, stage, t, v):
        w = self.w
        if stage == "key":
            if t is not w.svc("SelfKeyResponse"):
                self.emit("E", 0, b"Handshake")
                return self.down("Handshake")
            self.uuid_ok = v[0] == uuid_str(7)
            self.auth = "hash"
            self.sent.append(("auth", w.svc("HashRequest"), self.hashes))
            return
        if t is not w.svc("HashResponse") or v[0] is not None:
            self.emit("E", 0, b"HashCheck")
            return self.down("HashCheck")
        if not self.uuid_ok:
            return self.down("Uuid")
        self.auth = "done"
        self.count("handshake")
        self.emit("C")

    def advance(self, ms):
        self.now += ms
        for c in list(self.calls.values()):
            if c.alive and c.deadline is not None and c.deadline <= self.now:
                self.count("timeout")
                self.resolve(c, (1, 0, b"Timeout"))
        if self.state == "waiting" and self.wake <= self.now:
            self.count("reconnected")
            self.connect()

    def near(self, ms):
        t = self.now + ms
        ds = [c.deadline for c in self.calls.values() if c.alive and c.deadline is not None] + ([self.wake] if self.state == "waiting" else [])
        return any(abs(t - d) < 4 for d in ds)


class COpts:
    def __init__(self, **kw):
        self.steps = 24
        self.ends = 3              # 1 of n+1 chances for the end of a connection on the way
        self.good = 6              # 1 of n+1 histories breaks the handshake
        self.__dict__.update(kw)


@hs.composite
def histories(draw, w, o=COpts()):
    cache = {}

    def val(t):
        return draw(S.values(t, S.VOpts(), cache)) if t.fields else ()

    def chance(n):
        return draw(hs.integers(0, n)) == 0

    def a_call():
        k = draw(hs.integers(0, len(w.reqs) + len(w.beacons) - 1))
        if k < len(w.reqs):
            return ("r", k, val(w.reqs[k].t))
        return ("b", k - len(w.reqs), val(w.beacons[k - len(w.reqs)]))

    svc_free = [t for t in w.full.types if t.kind == "struct" and t is not w.svc("ConnectConfirmationBeacon")]
    bcs = w.broadcasts()
    ids = {t.id for t in w.full.types}
    reconnect = draw(hs.sampled_from([None, 500, 0, 2000]))
    timeout = draw(hs.sampled_from([100, 1000, 20000]))
    active = draw(hs.booleans())          # handlers make calls
    plans = {}
    for kind, n in (("C", 1), ("D", 1), ("E", 1), ("X", 1), ("B", len(bcs))):
        for k in range(n):
            plans[(kind, k)] = [a_call() if active and draw(hs.integers(0, 2)) == 0 else None for _ in range(draw(hs.integers(1, 3)))]
    plans[("N", 0)] = [b"\1" if not chance(3) else b"" for _ in range(2)]
    steps, nid = [], [0]
    calls = {}

    def answer_for(id):
        """-> (type, value) of an answer to a call, right or not"""
        kind, k, _ = calls[id]
        x = draw(hs.integers(0, 9))
        if x == 0:
            t = draw(hs.sampled_from(svc_free))
        elif kind == "r":
            r = w.reqs[k]
            t = draw(hs.sampled_from([r.err] + [a.t for a in r.acts]))
        else:
            t = w.svc("BeaconConfirmation")
        return t, val(t)

    def items():
        out = []
        for _ in range(draw(hs.integers(1, 4))):
            c = draw(hs.integers(0, 11))
            if c <= 5 and calls:
                xs = list(calls)
                id = draw(hs.sampled_from(xs[-4:])) if not chance(4) else draw(hs.sampled_from(xs))
                out.append(("ans", id) + answer_for(id))
            elif c <= 7:
                out.append(("hans", draw(hs.integers(0, 7))))
            elif c <= 9 and bcs:
                t = draw(hs.sampled_from(bcs))
                out.append(("msg", t, val(t), 0))
            elif c == 10:
                t = draw(hs.sampled_from(svc_free))
                out.append(("msg", t, val(t), draw(hs.one_of(hs.just(0), hs.integers(2**31, 2**32 - 1)))))
            elif c == 11 and not any(x[0] == "bad" for x in out):
                i = draw(hs.integers(0, 2**32 - 1).filter(lambda i: i not in ids))
                body = draw(hs.binary(max_size=8))
                out.append(("bad", S.header(i, 0, 1, len(body)) + body))
        return out

    # the handshake may be interleaved with anything
    stage = 0
    good = not chance(o.good)
    for _ in range(draw(hs.integers(o.steps // 2, o.steps))):
        c = draw(hs.integers(0, 19))
        if stage < 4 and c < 12:
            what = ["up", "confirm", "key", "hash"][stage]
            kind = "ok"
            if not good and stage >= 2 and chance(1):
                kind = draw(hs.sampled_from(["type", "error", "uuid"]))
            t = draw(hs.sampled_from(svc_free))
            steps.append((what, kind, t, val(t)))
            stage += 1
        elif c <= 11 or c == 19:
            steps.append(("push", items(), draw(hs.lists(hs.integers(0, 2**20), max_size=3)), draw(hs.one_of(hs.just(0), hs.integers(0, 60)))))
        elif c <= 14:
            nid[0] += 1
            x = a_call()
            calls[nid[0]] = x
            steps.append(("call", nid[0], x))
        elif c == 15:
            steps.append(("advance", draw(hs.sampled_from([5, 35, timeout // 2 + 5, timeout + 15, 600, 2100]))))
        elif c == 16 and calls:
            steps.append(("drop", draw(hs.sampled_from(list(calls)))))
        elif c == 17:
            steps.append(("event", draw(hs.sampled_from([1, 2, 4, 5, 6]))))
        elif c == 18 and chance(o.ends):
            steps.append(draw(hs.sampled_from([("ends", 0), ("ends", 0), ("ends", 0), ("ends", 1), ("fail",)])))
            stage = 0
    end = draw(hs.sampled_from([("ends", 0), ("ends", 1), ("shutdown", b""), ("shutdown", b"!"), ("shutdown", b"2")]))
    late = []
    for i in range(3):
        n = draw(hs.sampled_from([0, 0, 1, 2]))
        late.append([(70000 + i * 10 + j, None if n == 1 and chance(5) else a_call(), chance(4)) for j in range(n)])
    canned = {id(t): val(t) for t in [x for r in w.reqs for x in [r.err] + [a.t for a in r.acts]] + [w.svc("BeaconConfirmation")]}
    return dict(reconnect=reconnect, timeout=timeout, key=val(w.key_t), plans=plans, steps=steps, end=end, late=late, canned=canned, last=val(w.reqs[0].t))


def call_bytes(w, p):
    if not p:
        return b""
    kind, k, v = p
    return kind.encode() + st.pack("<H", k) + S.W(w.reqs[k].t if kind == "r" else w.beacons[k], v)


@hs.composite
def marathons(draw, w):
    """(call, answers, key): one kind of call and some of its answers, as (variant, type, value)"""
    cache = {}

    def val(t):
        return draw(S.values(t, S.VOpts(), cache)) if t.fields else ()

    key = val(w.key_t)
    if not w.reqs:
        t = w.svc("BeaconConfirmation")
        return ("b", 0, val(w.beacons[0])), [(0, t, (None,))], key
    k = draw(hs.integers(0, len(w.reqs) - 1))
    r = w.reqs[k]
    ts = [r.err] + [a.t for a in r.acts]
    n = draw(hs.lists(hs.integers(0, len(ts) - 1), min_size=3, max_size=5))
    return ("r", k, val(r.t)), [(i, ts[i], val(ts[i])) for i in n], key


def marathon(w, drv, m, n, hashes, rp):
    """One call waits while n others come and go."""
    call, answers, key = m
    plans = {(k, 0): [b""] for k in "CDEX"}
    plans.update({("B", k): [b""] for k in range(len(w.broadcasts()))})
    plans["N", 0] = [b""]

    def sent(got):
        return next((S.unheader(x[1])["seq"] for x in got if x[0] == "S"), None)

    drv.connect(None, 10 ** 9, S.W(w.key_t, key), plans)
    got = drv.push([(0, b""), (3, S.pack(w.svc("ConnectConfirmationBeacon"), (), 0, 7))])
    got = drv.push([(3, S.pack(w.svc("SelfKeyResponse"), (uuid_str(7),), sent(got), 7))]) if sent(got) is not None else []
    got = drv.push([(3, S.pack(w.svc("HashResponse"), (None,), sent(got), 7))]) if sent(got) is not None else []
    if not any(x[0] == "H" and x[1] == "C" for x in got):
        raise Violation("consumer-marathon", f"the consumer doesn't become ready: {got}", rp())
    got = drv.marathon(n, call_bytes(w, call), [(i, S.pack(t, v, 0, 7), b"" if call[0] == "b" else S.W(t, v)) for i, t, v in answers])
    why = got[0][1].decode()
    if why:
        raise Violation("consumer-marathon", f"one call {call!r} waits while others of the same kind come and go: {why}", rp())


def play(w, drv, hist, hashes, rp):
    m = CModel(w, hashes, hist["reconnect"], hist["timeout"], hist["key"], hist["plans"])
    raw = {(kind, k): [(p or b"") if kind == "N" else call_bytes(w, p) for p in ps] for (kind, k), ps in hist["plans"].items()}
    def fail(sig, step, why, got):
        raise Violation("consumer-" + sig, f"step {show_step(w, step)}: {why}\n  happened: " + "\n            ".join(show(w, x) for x in got) +
                        "\n  expected: handlers " + repr([(a, b, c, d.hex()) for a, b, c, d in m.log]) + "\n            sent " +
                        repr([".".join(t.path) for _, t, _ in m.sent]) + f"\n            results {m.res!r} {m.marks!r}", rp())

    def check(step, got, sig):
        m.pump()
        if ("L",) in got:
            fail(sig, step, "never comes to rest", got)
        hs_ = [x[1:] for x in got if x[0] == "H"]
        if hs_ != m.log:
            fail(sig, step, "handlers are called differently", got)
        sent = [x[1] for x in got if x[0] == "S"]
        if len(sent) != len(m.sent):
            fail(sig, step, f"{len(sent)} messages are sent instead of {len(m.sent)}", got)
        for b, (c, t, v) in zip(sent, m.sent):
            hd = S.unheader(b) if len(b) >= S.HEADER else None
            if hd is None or not same_msg(b, ("msg", t, v, hd["seq"])):
                fail(sig, step, f"sent {show_msg(w, b)} instead of {show_msg(w, ('msg', t, v, hd['seq'] if hd else 0))}", got)
            if hd["seq"] in m.used or hd["seq"] == 0:
                fail("sequence", step, f"sequence {hd['seq']} is in use", got)
            m.used.add(hd["seq"])
            if c == "auth":
                m.auth_seq[hd["seq"]] = m.auth
            else:
                c.seq = hd["seq"]
                m.pending[c.seq] = c
        res = {x[1]: x[2:] for x in got if x[0] == "A"}
        if len(res) != sum(1 for x in got if x[0] == "A") or res.keys() != m.res.keys():
            fail(sig, step, f"calls {sorted(res)} end instead of {sorted(m.res)}", got)
        for id, r in m.res.items():
            if r == "error" and res[id][0] != 1 or r != "error" and res[id] != r:
                fail(sig, step, f"call {id} ends with {res[id]} instead of {r}", got)
        if sorted(x[0] for x in got if x[0] in "OQT") != sorted(m.marks):
            fail(sig, step, "the transport is used differently", got)
        m.log, m.sent, m.res, m.marks = [], [], {}, []

    pend = []          # what the producer has sent and the client hasn't got yet: [bytes, message or None]

    def deliver(keep, step, cuts=()):
        """Hands out all but the last bytes."""
        total = sum(len(b) for b, _ in pend)
        n = max(0, total - keep)
        if not n:
            return
        data, done, left = b"".join(b for b, _ in pend)[:n], [], n
        while pend and left >= len(pend[0][0]):
            b, x = pend.pop(0)
            left -= len(b)
            done.append(x)
        if left:
            pend[0] = (pend[0][0][left:], pend[0][1])
        cs = sorted({c % (n + 1) for c in cuts})
        for x in done:
            if x is None:
                m.emit("E", 0, b"BufferError")
        for x in done:
            if x is not None and m.state == "up":
                m.income(*x)
        got = drv.push([(3, data[a:b]) for a, b in zip([0] + cs, cs + [n])])
        check(step, got, "push")

    got = drv.connect(hist["reconnect"], hist["timeout"], S.W(w.key_t, hist["key"]), raw)
    m.connect()
    check(("start",), got, "start")
    rounds = m.round
    late = list(hist["late"])
    for step in hist["steps"] + [hist["end"]]:
        k = step[0]
        if m.state == "ended":
            break
        if m.state == "waiting":
            if m.fail:
                m.fail = False
                check(("working",), drv.failing(False), "wait")
            for n, p, dropped in late.pop(0) if late else []:
                m.start(n, p)
                check(("call while disconnected", n, p), drv.begin(n, call_bytes(w, p)), "wait")
                if dropped:
                    m.drop(n)
                    check(("drop", n), drv.drop(n), "wait")
            ms = m.wake - m.now - 10
            if ms > 0:
                got = drv.advance(ms)
                m.advance(ms)
                check(("wait", ms), got, "wait")
            got = drv.advance(20)
            m.advance(20)
            check(("reconnect",), got, "reconnect")
            if m.state == "ended":
                break
        if m.round != rounds:
            rounds = m.round
            del pend[:]
            if m.fail:
                m.fail = False
                check(("working",), drv.failing(False), "wait")
        if k in ("confirm", "key", "hash"):
            if k == "confirm":
                if m.auth is not None:
                    continue
                x = (w.svc("ConnectConfirmationBeacon"), (), 0)
            else:
                seq = next((q for q, stage in m.auth_seq.items() if stage == k), None)
                if seq is None:
                    continue
                if step[1] == "type":
                    x = (step[2], step[3], seq)
                elif k == "key":
                    x = (w.svc("SelfKeyResponse"), (uuid_str(7) if step[1] != "uuid" else "not an uuid",), seq)
                else:
                    x = (w.svc("HashResponse"), (None if step[1] != "error" else "no",), seq)
            deliver(0, step)
            if m.state == "up":
                pend.append((S.pack(*x, 7), x))
                deliver(0, step)
        elif k == "up":
            check(step, drv.push([(0, b"")]), k)
        elif k == "push":
            new, used, bad = [], set(), False
            for it in step[1]:
                if it[0] == "bad":
                    new.append((it[1], None))
                    bad = True
                    continue
                if it[0] == "msg":
                    if it[3] in m.used:
                        continue
                    x = it[1:]
                else:
                    c = m.calls.get(it[1]) if it[0] == "ans" else m.blocked
                    if c is None or c.seq is None or c.seq in m.auth_seq or it[0] == "hans" and c.seq in used:
                        continue
                    if it[0] == "ans":
                        x = (it[2], it[3], c.seq)
                    else:
                        ts = [w.svc("BeaconConfirmation")] if c.kind == "b" else [w.reqs[c.k].err] + [a.t for a in w.reqs[c.k].acts]
                        t = ts[it[1] % len(ts)]
                        x = (t, hist["canned"][id(t)], c.seq)
                    used.add(c.seq)
                new.append((S.pack(*x, 7), x))
            if bad:
                deliver(0, step)
            if m.state == "up":
                pend.extend(new)
                deliver(0 if bad else step[3], step, () if bad else step[2])
        elif k == "call":
            m.start(step[1], step[2])
            check(step, drv.begin(step[1], call_bytes(w, step[2])), k)
        elif k == "drop":
            m.drop(step[1])
            check(step, drv.drop(step[1]), k)
        elif k == "advance":
            ms = step[1]
            while m.near(ms):
                ms += 7
            m.advance(ms)
            check(step, drv.advance(ms), k)
        elif k == "event":
            if step[1] == 2:
                m.emit("E", 0, b"Client")
            elif step[1] != 1:
                m.emit("E", 0, b"UnknownMessage")
            check(step, drv.push([(step[1], b"text")]), k)
        elif k == "fail":
            if m.auth == "done":
                m.fail = True
                check(step, drv.failing(True), k)
        elif k == "ends":
            m.down("Client" if step[1] else None, bool(step[1]))
            check(step, drv.ends(step[1]), k)
        elif k == "shutdown":
            m.marks.append("Q")
            m.res[80000] = (0, 0, b"")
            m.down(None, False, True)
            check(step, drv.begin(80000, step[1]), k)
    if m.state == "up":
        # a failing transport ends the history without its last step
        return m
    if m.state == "ended":
        # nobody waits for ever
        p = ("r", 0, hist["last"])
        m.start(80001, p)
        check(("call after the end",), drv.begin(80001, call_bytes(w, p)), "after")
    return m


def show(w, x):
    if x[0] == "S":
        return "sent " + show_msg(w, x[1])
    if x[0] == "H":
        return f"handler {x[1]}{x[2]} ({x[3]}) {x[4].hex() if x[1] in 'BN' else x[4]}"
    return str(x)


def show_step(w, s):
    if s[0] == "push":
        def it(x):
            if x[0] == "ans":
                return f"answer to {x[1]}: {'.'.join(x[2].path)} {x[3]!r}"
            if x[0] == "msg":
                return f"{'.'.join(x[1].path)}#{x[3]} {x[2]!r}"
            return str(x)
        return f"push [{'; '.join(it(x) for x in s[1])}] cut {s[2]} but {s[3]} bytes"
    if s[0] in ("confirm", "key", "hash", "up"):
        return f"{s[0]} {s[1]}" + (f" {'.'.join(s[2].path)}" if s[1] == "type" else "")
    return str(s)


def show_hist(w, h):
    o = [f"reconnection {h['reconnect']}, timeout {h['timeout']}, key {h['key']!r}", f"plans {h['plans']}"]
    return "\n".join(o + [show_step(w, s) for s in h["steps"]] + [str(h["end"])])

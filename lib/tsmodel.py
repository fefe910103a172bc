"""Reference model of the TypeScript producer; what it shares with the Rust one is taken from pmodel."""
from hypothesis import strategies as hs

import pmodel as P
import schema as S
import struct as st
import wf as W
from common import Violation
from pmodel import BOTH, CONNECTED, DISCONNECTED, DISC, E_BOTH, E_DISC, E_EMIT, EMIT

NONE, OMIT, TWICE, FOREIGN = 0, 1, 2, 3         # misuse of the interface by a handler


def extra(w, p):
    return bytes([p.hold, p.misuse])


def plan_bytes(w, p):
    b = extra(w, p) + P.plan_bytes(w, p)
    if p.misuse == FOREIGN:
        t, v = p.foreign
        b += st.pack("<H", t.idx) + S.W(t, v)
    return b


class TsModel(P.Model):
    """Everything synchronous first; what handlers answered comes later, in any order."""

    def __init__(self, *a):
        super().__init__(*a)
        self.later = []         # continuations of handlers
        self.held = []
        self.order = []         # (recipient, message, message): the first comes before the second

    def error(self, name, c, who="same"):
        self.log.append(("E", name, None if c is None else c.u, None if c is None else self.ident_rec((c.u, c))))

    def disconnect(self, c):
        if not c.out:
            c.out = True
            self.log.append(("D", c.u))

    def failed(self, c):
        if self.err in (E_DISC, E_BOTH) and c is not None:
            self.disconnect(c)
        if self.err in (E_EMIT, E_BOTH):
            self.error("ProcessingIncomeData", c)

    def ops(self, ops, u):
        for op in ops:
            k = op[0]
            if k in ("key", "asg"):
                if u is not None:
                    self.idq.append((k, self.cur, op[1], op[2]))
                    self.ident_now()
            elif k == "ev":
                e = self.w.evs[op[1]]
                self.count("events")
                keep = self.cur
                self.event_handler(op[1], S.W(e.t, op[2]), None, None, e.bcs)
                self.cur = keep
            else:
                super().ops([op], u)

    def ident_now(self):
        what, c, ow, v = self.idq.pop(0)
        t = self.w.key_t if what == "key" else self.w.asg_t
        old = c.key if what == "key" else c.asg
        self.count("changed keys")
        if not ow and old is not None:
            v = tuple(o if f.opt and n is None else n for f, o, n in zip(t.fields, old, v))
            self.count("merged keys")
        if what == "key":
            c.key = v
        else:
            c.asg = v

    def resolve(self, c):
        """Recipients of the broadcasts are chosen when the handler runs."""

    def chosen(self, decl, p, u):
        out = []
        for d, (present, spec, v) in zip(decl, p.bcs):
            if d.opt and not present:
                continue
            out.append((d, self.recipients(spec, u), v))
        return out

    def wrong(self, decl, p):
        """The handler itself fails / its result is refused."""
        if p.misuse == TWICE:
            return "throws" if any(not d.opt or x[0] for d, x in zip(decl, p.bcs)) else None
        if p.misuse == FOREIGN:
            return "throws"
        if p.misuse == OMIT:
            return "refused" if any(not d.opt for d in decl) else None
        return None

    def after(self, p, f):
        if p.hold:
            self.held.append(f)
        else:
            self.later.append(f)

    def event_handler(self, k, payload, u, rec, decl, then=None):
        p = self.enter("e", k, payload, u, rec)
        bcs = self.chosen(decl, p, u) if p.choice and decl else []
        bad = not p.choice or self.wrong(decl, p)

        def done():
            if not bad:
                self.emit(bcs, None)
            if then:
                then()

        if not p.choice or bad == "throws":
            self.later.append(done)
        else:
            self.after(p, done)

    def emit(self, bcs, answer):
        n = 0
        for d, to, v in bcs:
            for x in to:
                self.send(x, d.t, v, 0)
                n += x in self.cl
                if answer is not None and x == answer[0]:
                    self.order.append((x, answer[1], ("msg", d.t, v, 0)))
        if n:
            self.count("broadcasts delivered")

    def default_event(self, name, u, c, then=None):
        k, decl = (CONNECTED, []) if name == "connected" else (DISCONNECTED, [])
        for i, e in enumerate(self.w.evs):
            if e.t == name:
                k, decl = i, e.bcs
        self.cur = c
        self.event_handler(k, b"", u, self.ident_rec((u, c)), decl, then)

    def connected(self, u):
        if u in self.cl:
            self.error("Connection", None)
            self.count("connected twice")
            return
        c = P.Client()
        c.u = u
        self.cl[u] = c

        def confirm():
            if self.cl.get(u) is c:
                if not self.send(u, self.w.svc("ConnectConfirmationBeacon"), (), 0):
                    self.failed(c)

        self.default_event("connected", u, c, confirm)

    def disconnected(self, u):
        c = self.cl.pop(u, None)
        if c is None:
            self.error("Disconnection", None)
            return
        self.default_event("disconnected", u, c)

    def received(self, u, msgs):
        c = self.cl.get(u)
        if c is None:
            self.failed(None)
            return
        if c.out:
            self.count("discredited")
            return
        if any(m[0] == "bad" for m in msgs):
            self.count("unreadable")
            self.failed(c)
        for m in msgs:
            if c.out:
                return
            if m[0] != "bad":
                self.cur = c
                self.message(u, c, m)

    def message(self, u, c, m):
        _, t, v, seq = m
        w = self.w
        if t is w.key_t and not c.hash_ok:
            c.key = v
            self.send(u, w.svc("SelfKeyResponse"), (P.uuid_str(u),), seq)
            return
        if t is w.svc("HashRequest"):
            ok = v == self.hashes
            self.send(u, w.svc("HashResponse"), (None if ok else P.ANY_TEXT,), seq)
            if ok:
                c.hash_ok = True
            else:
                self.count("refused: hash")
                self.disconnect(c)
                self.error("ProtocolHash" if v[0] != self.hashes[0] else "WorkflowHash", c)
            return
        if not c.hash_ok or c.key is None:
            self.count("refused: no hash or key")
            self.disconnect(c)
            self.error("KeyError" if c.hash_ok else "HashError", c)
            return
        if c.asg is None and self.ident in (EMIT, DISC, BOTH):
            self.count("refused: not assigned")
            if self.ident in (DISC, BOTH):
                self.disconnect(c)
            if self.ident in (EMIT, BOTH):
                self.error("AssignedKeyError", c)
            return
        if id(t) in self.req:
            self.request(u, c, self.req[id(t)], t, v, seq)
        elif id(t) in self.bea:
            self.beacon(u, c, self.bea[id(t)], t, v, seq)
        else:
            self.count("unknown")
            self.failed(c)

    def request(self, u, c, k, t, v, seq):
        r = self.w.reqs[k]
        p = self.enter("r", k, S.W(t, v), u, self.ident_rec(u))
        a = None if p.choice == 0 else r.acts[p.choice - 1]
        bad = self.wrong(a.bcs if a else [], p)
        bcs = self.chosen(a.bcs, p, u) if a else []
        if bad:
            self.count("misuse")

        def done():
            if bad:
                self.failed(c)
                return
            self.count("requests answered")
            at = r.err if a is None else a.t
            if not self.send(u, at, p.value, seq):
                self.failed(c)
                return
            self.emit(bcs, (u, ("msg", at, p.value, seq)))
            if p.deferred:
                self.log.append(("F",))

        if bad == "throws":
            self.later.append(done)
        else:
            self.after(p, done)

    def beacon(self, u, c, k, t, v, seq):
        p = self.enter("b", k, S.W(t, v), u, self.ident_rec(u))
        self.count("beacons")

        def done():
            if not p.choice or not self.send(u, self.w.svc("BeaconConfirmation"), (None,), seq):
                self.failed(c)
                return
            if p.deferred:
                self.log.append(("F",))

        if not p.choice:
            self.later.append(done)
        else:
            self.after(p, done)

    def settle(self):
        while self.later:
            self.later.pop(0)()

    def take(self):
        o, self.order = self.order, []
        return super().take(), o


def report(w, got, want, why):
    return (why + "\n  happened: " + "\n            ".join(P.show(w, x) for x in got) +
            "\n  expected: " + "\n            ".join(P.show(w, x) for x in want))


def sends(recs):
    out = {}
    for x in recs:
        if x[0] == "S":
            out.setdefault(x[1], []).append(x[2])
    return out


def differ(w, got, want, order):
    """-> None or a text.  Handlers run in order; what is sent has an order only where one is given."""
    for x in got:
        if x[0] == "U":
            return report(w, got, want, f"a rejected promise nobody looks at: {x[1]}")
    hs_ = [[x for x in r if x[0] == "H"] for r in (got, want)]
    for a, b in zip(*hs_):
        if a != b:
            return report(w, got, want, f"handlers: {a} instead of {b}")
    if len(hs_[0]) != len(hs_[1]):
        return report(w, got, want, f"{len(hs_[0])} handlers are called instead of {len(hs_[1])}")
    for k in "EDRFYZQXL":
        a, b = ([x for x in r if x[0] == k] for r in (got, want))
        if sorted(map(repr, a)) != sorted(map(repr, b)):
            return report(w, got, want, f"{a} instead of {b}")
    g, e = sends(got), sends(want)
    if set(g) != set(e):
        return report(w, got, want, f"messages to {sorted(g)} instead of {sorted(e)}")
    for u in g:
        rest = list(e[u])
        for m in g[u]:
            hit = next((x for x in rest if P.same_msg(m, x)), None)
            if hit is None:
                return report(w, got, want, f"client {u} gets {P.show_msg(w, m)}")
            rest.remove(hit)
        if rest:
            return report(w, got, want, f"client {u} doesn't get {P.show_msg(w, rest[0])}")
    for u, a, b in order:
        ia = [i for i, m in enumerate(g[u]) if P.same_msg(m, a)]
        ib = [i for i, m in enumerate(g[u]) if P.same_msg(m, b)]
        if ia[0] > ib[-1]:
            return report(w, got, want, f"client {u} gets {P.show_msg(w, b)} before {P.show_msg(w, a)}")
    return None


@hs.composite
def histories(draw, w, hashes, o):
    h = draw(P.histories(w, hashes, o))
    h["ident"] = draw(hs.integers(0, 4)) if h["ident"] == 255 else h["ident"]
    h["err"] = draw(hs.sampled_from([0, 1, 2, 3, 4])) if h["err"] == 255 else h["err"]
    others = w.broadcasts()
    cache = {}
    for (kind, k), ps in h["plans"].items():
        for p in ps:
            p.hold = draw(hs.integers(0, 3)) == 0
            p.misuse = draw(hs.sampled_from([0] * o.proper + [1, 2, 3])) if kind in "re" and p.bcs else 0
            if p.misuse == FOREIGN:
                mine = [b.t for b in (w.reqs[k].acts[p.choice - 1].bcs if p.choice else [])] if kind == "r" else None
                known = [b.t for a in w.reqs[k].acts for b in a.bcs] if kind == "r" else []
                cand = [t for t in others if mine is not None and t in known and t not in mine]
                if cand:
                    t = draw(hs.sampled_from(cand))
                    p.foreign = (t, draw(S.values(t, S.VOpts(), cache)) if t.fields else ())
                else:
                    p.misuse = 0
    steps = []
    for s in h["steps"]:
        steps.append(s)
        if s[0] == "connect" and draw(hs.integers(0, 15)) == 0:
            steps.append(("again", s[1]))
        if draw(hs.integers(0, 2)) == 0:
            steps.append(("release", draw(hs.integers(0, 5))))
    h["steps"] = steps + [("release", 0)] * 3
    h["end"] = draw(hs.sampled_from(["destroy", "destroy", "shutdown"]))
    # what fails: listening, shutting down, handlers of errors, of the start, of the end
    h["bad"] = (draw(hs.integers(0, 40)) == 0) + 2 * (draw(hs.integers(0, 5)) == 0) + 4 * draw(hs.integers(0, 7))
    return h


def play(w, drv, hist, hashes, rp):
    m = TsModel(w, hist["ident"], hist["err"], hist["plans"], hashes)
    plans = {k: [plan_bytes(w, p) for p in ps] for k, ps in hist["plans"].items()}

    def check(step, got, want, order=()):
        t = differ(w, got, want, order)
        if t:
            raise Violation("ts-producer-" + step[0], f"step {P.show_step(w, step)}: {t}", rp())

    got = drv.start_run(hist["ident"], hist["err"], hist["bad"], plans)
    if hist["bad"] & 1:
        check(("start",), got, [("Q",), ("X", "error")])
        check(("after",), drv.events([(0, None, b""), (2, 1, b"")]), [])
        m.count("listen failed")
        return m
    check(("start",), got, [("X", "")])
    check(("ready",), drv.events([(0, None, b"")]), [("Y",)])
    for step in hist["steps"]:
        k = step[0]
        if k in ("connect", "again"):
            m.connected(step[1])
            ev = [(2, step[1], b"")]
        elif k == "flash":
            m.connected(step[1])
            m.disconnected(step[1])
            ev = [(2, step[1], b""), (3, step[1], b"")]
        elif k == "rush":
            m.connected(step[1])
            m.received(step[1], step[3])
            ev = [(2, step[1], b""), (4, step[1], step[2])]
            if step[4]:
                m.received(step[1], step[4][1])
                ev.append((4, step[1], step[4][0]))
        elif k == "recv":
            m.received(step[1], step[3])
            ev = [(4, step[1], step[2])]
        elif k == "batch":
            for x in step[1]:
                m.received(x[1], x[3])
            ev = [(4, x[1], x[2]) for x in step[1]]
        elif k == "disconnect":
            m.disconnected(step[1])
            ev = [(3, step[1], b"")]
        elif k == "server":
            m.error("ServerError", None)
            ev = [(5, None, b"")]
        elif k == "ctl":
            m.ops(step[1], None)
            ev = None
            got = drv.ctl(P.ops_bytes(w, step[1]))
        elif k == "fail":
            m.fail = set(step[1])
            drv.fail(step[1])
            continue
        elif k == "release":
            if not m.held:
                continue
            i = step[1] % len(m.held)
            m.held.pop(i)()
            m.count("released")
            ev = None
            got = drv.release(i)
        if ev is not None:
            got = drv.events(ev)
        m.settle()
        want, order = m.take()
        check(step, got, want, order)
    if hist["end"] == "shutdown":
        check(("shutdown",), drv.events([(1, None, b"")]), [("Z",)])
    check(("destroy",), drv.destroy(), [("Q",), ("R", int(not hist["bad"] & 2))])
    check(("after",), drv.events([(2, 9, b""), (5, None, b""), (1, None, b"")]), [])
    return m


def show_hist(w, h):
    return P.show_hist(w, h) + f"\nfailing (1 listen, 2 shutdown, 4 handler of errors, 8 of the start, 16 of the end): {h['bad']}\n" + "\n".join(
        f"{k}: hold {p.hold} misuse {p.misuse}" for k, ps in h["plans"].items() for p in ps if p.hold or p.misuse)

"""Producers and consumers of a workflow in both languages, joined by a transport that cuts and delays."""
import os

from hypothesis import strategies as hs

import lab as L
import pmodel as P
import schema as S
import tsmodel as M
import wf as W
import wfcons as C
import wfrust as R
import wfts as T
from common import Violation, hyp

LANGS = ("rust", "typescript")


class Drivers:
    """Drivers of both producers, and of two consumers of each language."""

    def __init__(self, lab, w, d, mw=False):
        """mw: all of them use the same packing middleware."""
        R.generate(lab.exe, w, d)
        self.prod = {"rust": R.build_producer(lab, w, d, True, "rust"), "typescript": T.build_producer(lab, w, d, True, "typescript")}
        rc, tc = C.build_consumer(lab, w, d, True, "rust"), T.build_consumer(lab, w, d, True, "typescript")
        self.cons = {"rust": [rc, C.ConsumerDriver(rc.cmd[0], w)], "typescript": [tc, T.ConsumerDriver(tc.cmd[-2], tc.cmd[-1])]}
        if mw:
            for p in self.all():
                p.env = dict(os.environ, CLIBRI_MW="1")

    def all(self):
        return list(self.prod.values()) + self.cons["rust"] + self.cons["typescript"]

    def stop(self):
        for p in self.all():
            p.stop()


class Call:
    def __init__(self, id, call):
        self.id, self.call = id, call
        self.answer = None          # what the handler of the producer decided: (type, value, number)
        self.over = False
        self.waits = False          # its handler is under way


class Link:
    """A consumer and its way to the producer."""

    def __init__(self, n, lang, drv, key):
        self.n, self.lang, self.drv, self.key = n, lang, drv, key
        self.started = self.open = self.announced = self.ready = False
        self.u = None
        self.reset()

    def reset(self):
        self.up, self.down = b"", b""
        self.todo = []              # groups of calls, begun at once, that the producer has to handle next
        self.calls = {}
        self.news = []              # broadcasts to get: groups of (index, bytes), in order
        self.ready = False


class World:
    def __init__(self, w, drv, hist, rp):
        self.w, self.rp = w, rp
        self.lang = hist["lang"]
        self.prod = drv.prod[self.lang]
        used = {"rust": 0, "typescript": 0}
        self.links = []
        for n, (lang, key) in enumerate(hist["clients"]):
            self.links.append(Link(n, lang, drv.cons[lang][used[lang]], key))
            used[lang] += 1
        self.plans = hist["plans"]
        self.pos = {k: 0 for k in self.plans}
        self.next_u, self.next_call = 0, 0
        self.by_u = {}
        self.held = []              # handlers of a TypeScript producer which answer later: (call, broadcasts)
        self.here = set()           # what the producer has been told to be connected
        self.bc_index = {id(t): k for k, t in enumerate(w.broadcasts())}
        self.stat = {}
        self.step = ("start",)
        pb = (lambda p: P.plan_bytes(w, p)) if self.lang == "rust" else (lambda p: M.plan_bytes(w, p))
        plans = {k: [pb(p) for p in ps] for k, ps in self.plans.items()}
        err = P.E_BOTH
        if self.lang == "rust":
            self.producer(self.prod.start_run(P.LOG, err, plans))
        else:
            self.producer(self.prod.start_run(P.LOG, err, 0, plans), ("X",))
        self.producer(self.prod.events([(0, None, b"")]), ("Y",))

    def count(self, k, n=1):
        self.stat[k] = self.stat.get(k, 0) + n

    def fail(self, sig, why):
        raise Violation("interop-" + sig, f"step {self.step}: {why}", self.rp())

    # -- the producer
    def producer(self, recs, fine=()):
        groups = {}
        for x in recs:
            k = x[0]
            if k == "S":
                l = self.by_u.get(x[1])
                if l is not None and l.open:
                    l.down += x[2]
            elif k == "H":
                self.handler(x, groups)
            elif k == "R" or k in fine:
                pass
            else:
                self.fail("producer", f"the {self.lang} producer: {x}, which nothing asked for")
        for u, g in groups.items():
            if u in self.by_u and self.by_u[u].open:
                self.by_u[u].news.append(g)

    def handler(self, x, groups):
        _, kind, k, payload, ident, al, exc, _, asg, keyed = x
        ps = self.plans[kind, k]
        p = ps[self.pos[kind, k] % len(ps)]
        self.pos[kind, k] += 1
        u = ident[0] if ident else None
        if u is not None and kind == "e":
            name = "connected" if k == P.CONNECTED or k < P.CONNECTED and self.w.evs[k].t == "connected" else "disconnected"
            ok = [sorted(self.here), sorted(self.here - {u})] if name == "connected" else [sorted(self.here - {u})]
        else:
            ok = [sorted(self.here)]
        if list(al) not in ok:
            self.fail("filter", f"handler {kind}{k} sees the consumers {al} instead of {ok[0]}")
        decl = []
        if kind in "rb":
            l = self.by_u.get(u)
            if l is None:
                self.fail("call", f"handler {kind}{k} is called for a consumer that isn't there: {u}")
            if ident[1] != S.W(self.w.key_t, l.key):
                self.fail("key", f"handler {kind}{k} sees the key {ident[1]} instead of {l.key!r}")
            if not l.todo:
                self.fail("call", f"handler {kind}{k} is called with {payload.hex()}, but consumer {l.n} has called nothing more")
            g = l.todo[0]
            wants = [(c.call[0], c.call[1], S.W((self.w.reqs[c.call[1]].t if c.call[0] == "r" else self.w.beacons[c.call[1]]), c.call[2])) for c in g]
            if (kind, k, payload) not in wants:
                self.fail("call", f"handler {kind}{k} is called with {payload.hex()} instead of " + " or ".join(f"{x}{y} with {z.hex()}" for x, y, z in wants))
            c = g.pop(wants.index((kind, k, payload)))
            if not g:
                l.todo.pop(0)
            if kind == "b":
                c.answer = (None, (), 0)
            else:
                r = self.w.reqs[k]
                a = r.acts[p.choice - 1] if p.choice else None
                c.answer = (a.t if a else r.err, p.value, p.choice)
                decl = a.bcs if a else []
            self.count("handled")
        elif k < P.CONNECTED:
            decl = self.w.evs[k].bcs
        if p.hold and self.lang == "typescript":
            if kind in "rb":
                c.waits = True
            groups = {}
            self.held.append((c if kind in "rb" else None, groups))
            self.count("answers that come late")
        for d, (present, (rk, us), v) in zip(decl, p.bcs):
            if d.opt and not present:
                continue
            to = {0: lambda: us, 1: lambda: al, 2: lambda: exc if u is not None else [x for x in al if x != 1],
                  3: lambda: [x for x in al if x not in us], 4: lambda: asg, 5: lambda: keyed}[rk]()
            for t in to:
                groups.setdefault(t, []).append((self.bc_index[id(d.t)], S.W(d.t, v)))

    # -- consumers
    def consumer(self, l, recs, fine=()):
        for x in recs:
            k = x[0]
            if k == "S":
                if l.open:
                    l.up += x[1]
            elif k == "H" and l.lang == "rust":
                if x[1] == "C":
                    self.is_ready(l)
                elif x[1] == "B":
                    self.news(l, x[2], x[4])
                elif x[1] not in fine or x[1] == "X" and x[4]:
                    self.fail("consumer", f"rust consumer {l.n}: handler {x[1]} with {x[4]}, which nothing asked for")
            elif k == "A":
                self.result(l, x[1], x[2] == 0, x[3], x[4])
            elif k == "Y":
                if x[1] != P.uuid_str(l.u):
                    self.fail("uuid", f"typescript consumer {l.n} takes itself for {x[1]} instead of {P.uuid_str(l.u)}")
                self.is_ready(l)
            elif k == "B":
                self.news(l, x[1], x[2])
            elif k == "R":
                if x[2] == 2:
                    self.fail("result", f"call {x[1]} is rejected not with an Error")
                self.result(l, int(x[1].split(":")[0][1:]), x[2] == 1, x[3], x[4])
            elif k not in fine:
                self.fail("consumer", f"{l.lang} consumer {l.n}: {x}, which nothing asked for")

    def is_ready(self, l):
        if l.ready:
            self.fail("ready", f"{l.lang} consumer {l.n} is ready twice")
        l.ready = True
        self.count("ready")
        self.count("ready: " + l.lang)

    def news(self, l, k, b):
        while l.news and not l.news[0]:
            l.news.pop(0)
        g = l.news[0] if l.news else []
        n = 1 if self.lang == "rust" else len(g)
        if (k, b) not in g[:n]:
            self.fail("broadcast", f"{l.lang} consumer {l.n} gets broadcast {k} {b.hex()} instead of {[(i, y.hex()) for i, y in g]}")
        g.remove((k, b))
        self.count("broadcasts received")

    def result(self, l, id, good, n, b):
        c = l.calls.get(id)
        if c is None or c.over:
            self.fail("result", f"call {id} of {l.lang} consumer {l.n} ends, which isn't under way")
        c.over = True
        if not good:
            if l.open:
                self.fail("result", f"call {id} {c.call!r} of {l.lang} consumer {l.n} fails on a good connection: {n} {b}")
            self.count("ended with the connection")
            return
        if c.answer is None or c.waits:
            self.fail("result", f"call {id} of {l.lang} consumer {l.n} is answered, but no handler has answered it")
        t, v, choice = c.answer
        want = (b"" if t is None else S.W(t, v), choice if l.lang == "rust" else 0xffff if t is None else t.idx)
        if (b, n) != want:
            self.fail("result", f"call {id} {c.call!r} of {l.lang} consumer {l.n} ends with answer {n} {b.hex()} instead of {want[1]} {want[0].hex()}")
        self.count("answered")

    # -- the transport
    def link(self, l, early, cut):
        if l.open:
            return
        l.reset()
        l.u = self.next_u
        self.next_u += 1
        self.by_u[l.u] = l
        l.open = True
        if early:
            self.client_up(l)
            n = cut % (len(l.up) + 1)
            data, l.up = l.up[:n], l.up[n:]
            self.here.add(l.u)
            self.producer(self.prod.events([(2, l.u, b"")] + ([(4, l.u, data)] if data else [])))
            self.count("data together with the connection", bool(data))
        else:
            self.here.add(l.u)
            self.producer(self.prod.events([(2, l.u, b"")]))
            self.client_up(l)

    def client_up(self, l):
        if l.lang == "rust":
            if not l.started:
                plans = {(k, 0): [b""] for k in "CDEX"}
                plans.update({("B", k): [b""] for k in range(len(self.bc_index))})
                plans["N", 0] = [b"\1"]
                self.consumer(l, l.drv.connect(500, 10 ** 9, S.W(self.w.key_t, l.key), plans), ("O",))
            else:
                self.consumer(l, l.drv.advance(520), ("O",))
            self.consumer(l, l.drv.push([(0, b"")]))
        else:
            if not l.started:
                plans = {(k, 0): [b""] for k in "CYDE"}
                plans.update({("B", k): [b""] for k in range(len(self.bc_index))})
                self.consumer(l, l.drv.start_run(0, 0, S.W(self.w.key_t, l.key), plans))
            self.consumer(l, l.drv.events([(0, b"")]), ("C",))
        if l.started:
            self.count("connected again")
        l.started = True

    def flow(self, l, up, n, cuts=()):
        """At most n bytes one way, as several chunks."""
        if not l.open:
            return 0
        q = l.up if up else l.down
        n = min(n, len(q))
        if not n:
            return 0
        data = q[:n]
        if up:
            l.up = q[n:]
        else:
            l.down = q[n:]
        cs = [0] + sorted({c % n for c in cuts}) + [n]
        parts = [data[a:b] for a, b in zip(cs, cs[1:]) if b > a]
        if up:
            self.producer(self.prod.events([(4, l.u, x) for x in parts]))
        elif l.lang == "rust":
            self.consumer(l, l.drv.push([(3, x) for x in parts]))
        else:
            self.consumer(l, l.drv.events([(3, x) for x in parts]))
        return n

    def drop(self, l, first):
        if not l.open:
            return
        if any(not c.over for c in l.calls.values()):
            self.count("dropped with calls under way")
        l.open = False
        for side in ("p", "c") if first else ("c", "p"):
            if side == "p":
                self.here.discard(l.u)
                self.producer(self.prod.events([(3, l.u, b"")]))
            elif l.lang == "rust":
                self.consumer(l, l.drv.ends(0), ("D", "X", "N"))
            else:
                self.consumer(l, l.drv.events([(1, b"")]), ("D",))
        left = [c.id for c in l.calls.values() if not c.over]
        if left:
            self.fail("result", f"calls {left} of {l.lang} consumer {l.n} never end, though their connection is gone")
        del self.by_u[l.u]

    def call(self, l, calls):
        """calls, all different, begun at once"""
        if not (l.open and l.ready):
            return
        cs = []
        for call in calls:
            self.next_call += 1
            c = Call(self.next_call, call)
            l.calls[c.id] = c
            cs.append(c)
        l.todo.append(list(cs))
        before = len(l.up)
        bs = [(c.id, C.call_bytes(self.w, c.call)) for c in cs]
        self.consumer(l, l.drv.begin_all(bs) if l.lang == "rust" else l.drv.begin_all([(f"c{i}", b) for i, b in bs]))
        if len(l.up) == before:
            self.fail("call", f"{l.lang} consumer {l.n} sends nothing for calls {calls!r}")
        if len(cs) > 1:
            self.count("several calls at once")

    def release(self, n):
        """A handler which waits goes on."""
        if not self.held:
            return
        i = n % len(self.held)
        c, groups = self.held.pop(i)
        if c is not None:
            c.waits = False
        for u, g in groups.items():
            if u in self.by_u and self.by_u[u].open:
                self.by_u[u].news.append(g)
        self.producer(self.prod.release(i))

    def pump(self, ls, cuts=()):
        for _ in range(200):
            n = 0
            for l in ls:
                n += self.flow(l, True, 1 << 30, cuts) + self.flow(l, False, 1 << 30, cuts)
            if not n:
                return
        self.fail("rest", "the traffic never comes to rest")

    def quiet(self):
        self.pump(self.links)
        while self.held:
            self.release(0)
            self.pump(self.links)
        for l in self.links:
            if not l.open:
                continue
            if not l.ready:
                self.fail("ready", f"{l.lang} consumer {l.n} isn't ready, though everything is delivered")
            left = [c.id for c in l.calls.values() if not c.over]
            if left:
                self.fail("result", f"calls {left} of {l.lang} consumer {l.n} have no result, though everything is delivered")
            if any(l.news):
                self.fail("broadcast", f"{l.lang} consumer {l.n} doesn't get the broadcasts {[[(k, b.hex()) for k, b in g] for g in l.news]}")


class IOpts:
    def __init__(self, **kw):
        self.steps = 40
        self.__dict__.update(kw)


@hs.composite
def histories(draw, w, o=IOpts()):
    cache = {}

    def val(t):
        return draw(S.values(t, S.VOpts(), cache)) if t.fields else ()

    def bcs(decl):
        out = []
        for d in decl:
            rk = draw(hs.sampled_from([0, 1, 1, 2, 2, 3, 4, 5, 5]))
            us = draw(hs.lists(hs.integers(0, 4), max_size=3, unique=True)) if rk in (0, 3) else []
            out.append((not d.opt or draw(hs.booleans()), (rk, us), val(d.t)))
        return out

    def plan(kind, k, choice, value, decl):
        p = P.Plan(kind, k, [], False, choice, value, bcs(decl))
        p.hold, p.misuse = int(k < P.CONNECTED and kind + str(k) not in fixed and draw(hs.integers(0, 3)) == 0), 0
        return p

    fixed = ["e" + str(k) for k, e in enumerate(w.evs) if e.default()]
    plans = {}
    for k, r in enumerate(w.reqs):
        ps = []
        for _ in range(draw(hs.integers(1, 3))):
            ch = draw(hs.integers(0, len(r.acts)))
            ps.append(plan("r", k, ch, val(r.acts[ch - 1].t if ch else r.err), r.acts[ch - 1].bcs if ch else []))
        plans["r", k] = ps
    have = {e.t for e in w.evs if e.default()}
    evs = [(k, e.bcs) for k, e in enumerate(w.evs)] + [(k, []) for k, n in ((P.CONNECTED, "connected"), (P.DISCONNECTED, "disconnected")) if n not in have]
    for k, decl in evs:
        plans["e", k] = [plan("e", k, 1, None, decl) for _ in range(draw(hs.integers(1, 2)))]
    for k in range(len(w.beacons)):
        plans["b", k] = [plan("b", k, 1, None, [])]
    langs = draw(hs.lists(hs.sampled_from(LANGS), min_size=2, max_size=3).filter(lambda x: all(x.count(y) <= 2 for y in LANGS)))
    clients = [(x, val(w.key_t)) for x in langs]
    emittable = [k for k, e in enumerate(w.evs) if not e.default()]
    steps = []
    cuts = hs.lists(hs.integers(0, 2 ** 20), max_size=3)
    for _ in range(draw(hs.integers(o.steps // 2, o.steps))):
        c = draw(hs.integers(0, 17))
        n = draw(hs.integers(0, len(langs) - 1))
        if c <= 1:
            steps.append(("link", n, draw(hs.booleans()), draw(hs.integers(0, 2 ** 20))))
        elif c <= 4:
            steps.append(("pump", n, draw(cuts)))
        elif c <= 8:
            steps.append(("flow", n, draw(hs.booleans()), draw(hs.one_of(hs.integers(1, 80), hs.just(1 << 30))), draw(cuts)))
        elif c <= 12:
            calls = []
            for _ in range(draw(hs.sampled_from([1, 1, 1, 2, 3, 5]))):
                k = draw(hs.integers(0, len(w.reqs) + len(w.beacons) - 1))
                call = ("r", k, val(w.reqs[k].t)) if k < len(w.reqs) else ("b", k - len(w.reqs), val(w.beacons[k - len(w.reqs)]))
                if C.call_bytes(w, call) not in [C.call_bytes(w, x) for x in calls]:
                    calls.append(call)
            steps.append(("call", n, calls))
        elif c == 13 and emittable:
            e = draw(hs.sampled_from(emittable))
            steps.append(("event", e, val(w.evs[e].t)))
        elif c == 14 and draw(hs.integers(0, 1)) == 0:
            steps.append(("drop", n, draw(hs.booleans())))
        elif c == 15:
            steps.append(("quiet",))
        elif c >= 16:
            steps.append(("release", draw(hs.integers(0, 3))))
    return dict(lang=draw(hs.sampled_from(LANGS)), clients=clients, plans=plans, steps=steps)


def play(w, drv, hist, rp):
    x = World(w, drv, hist, rp)
    for l in x.links:
        x.step = ("link", l.n)
        x.link(l, False, 0)
    for step in hist["steps"]:
        x.step = step
        k = step[0]
        if k == "event":
            x.producer(x.prod.ctl(P.ops_bytes(w, [("ev", step[1], step[2])])))
        elif k == "quiet":
            x.quiet()
        elif k == "release":
            x.release(step[1])
        else:
            l = x.links[step[1]]
            if k == "link":
                x.link(l, step[2], step[3])
            elif k == "pump":
                x.pump([l], step[2])
            elif k == "flow":
                x.flow(l, step[2], step[3], step[4])
            elif k == "call":
                x.call(l, step[2])
            elif k == "drop":
                x.drop(l, step[2])
    x.step = ("end",)
    x.quiet()
    for l in x.links:
        x.drop(l, True)
    return x


def show_hist(w, h):
    o = [f"{h['lang']} producer, consumers " + ", ".join(f"{l} (key {k!r})" for l, k in h["clients"])]
    o += [repr(p) for ps in h["plans"].values() for p in ps]
    return "\n".join(o + [str(s) for s in h["steps"]])


def prop(opts, n, nontrivial):
    def run(lab, w, d, rec, seed):
        mw = seed % 2 == 1
        drv = Drivers(lab, w, d, mw)
        try:
            def test(h):
                r = {"prot": S.text(w.schema), "workflow": W.text(w), "history": show_hist(w, h), "middleware": mw}
                x = L.guarded(lambda: play(w, drv, h, lambda: r), "interop", r)
                for k, v in x.stat.items():
                    rec.count(k, v)
                rec.count("with a middleware" if mw else "without a middleware")
                rec.case(show_hist(w, h) + W.text(w), nontrivial(x.stat, h), lambda: show_hist(w, h)[:1500])

            hyp(histories(w, opts), test, n, seed)
        finally:
            drv.stop()

    return run

"""Reference model of the TypeScript consumer."""
import collections

from hypothesis import strategies as hs

import schema as S
from common import Violation
from pmodel import same_msg, show_msg
from wfcons import call_bytes

NOTHING = 0xffff
UUID = "0b3c7a52-1111-4222-8333-944445555666"


class Obj:
    """A request or a beacon of the user."""

    def __init__(self, id, call, handlers, glob=False):
        self.id, self.call, self.handlers, self.glob = id, call, handlers, glob
        self.state, self.n = "ready", 0


class Att:
    """One call of send()."""

    def __init__(self, o):
        o.n += 1
        self.o, self.name, self.seq = o, f"{o.id}:{o.n}", None
        self.prompt = False         # answered at once


class TsCons:
    def __init__(self, w, hashes, key, plans, glob):
        self.w, self.hashes, self.key, self.plans, self.glob = w, hashes, key, plans, glob
        self.fired = collections.Counter()
        self.objs, self.pending, self.used = {}, {}, set()
        self.up = self.fail = self.dead = False
        self.stage, self.stage_seq, self.uuid = None, None, None
        self.log, self.sent = [], []
        self.bcs = w.broadcasts()
        self.stat = collections.Counter()

    def count(self, k):
        self.stat[k] += 1

    # -- calls
    def begin(self, id, call, handlers, glob=False):
        self.objs[id] = Obj(id, call, handlers, glob)
        self.send(id)

    def send(self, id):
        o = self.objs[id]
        a = Att(o)
        if o.state != "ready" or o.glob and (not self.glob or self.dead):
            self.count("refused")
            return self.end(a, None)
        if self.fail or not self.up:
            self.count("not sent")
            return self.end(a, None)
        o.state = "pending"
        kind, k, v = o.call
        self.sent.append((self.w.reqs[k].t if kind == "r" else self.w.beacons[k], v, a))

    def end(self, a, t, v=()):
        """t: type of the answer, None: rejected, NOTHING: resolved with nothing"""
        if t is None:
            self.log.append(("R", a.name, 0, NOTHING, b""))
        elif t == NOTHING:
            self.log.append(("R", a.name, 1, NOTHING, b""))
        else:
            self.log.append(("R", a.name, 1, t.idx, S.W(t, v)))

    def answer(self, a, t, v):
        o, w = a.o, self.w
        if o.state == "dead":
            self.count("answer to a destroyed request")
            return self.end(a, None)
        o.state = "ready"
        kind, k, _ = o.call
        if kind == "r":
            for i, x in enumerate([w.reqs[k].err] + [c.t for c in w.reqs[k].acts]):
                if x is t:
                    self.count("answered")
                    if o.handlers:
                        self.log.append(("h", o.id, i, 0, S.W(t, v)))
                    return self.end(a, t, v)
            self.count("wrong answer")
            return self.end(a, None)
        good = t is w.svc("BeaconConfirmation") and v[0] is None
        self.count("beacon confirmed" if good else "beacon failed")
        if o.handlers:
            self.log.append(("h", o.id, 1, 0, b"") if good else ("h", o.id, 0, 1, b""))
        self.end(a, NOTHING if good else None)

    def plan(self, kind, k=0):
        ps = self.plans[kind, k]
        n = self.fired[kind, k]
        self.fired[kind, k] += 1
        p = ps[n % len(ps)]
        if p:
            self.begin(f"{kind}{k}.{n}", p, True)

    # -- the connection
    def connected(self):
        self.up = True
        self.stage = "confirm"
        self.log.append(("C",))
        self.plan("C")

    def over(self):
        if self.pending:
            self.count("calls ended with the connection")
        for a in list(self.pending.values()):
            if a is not None:
                self.end(a, None)
                if a.o.state == "pending":
                    a.o.state = "ready"
        self.pending = {}
        self.stage = self.uuid = None

    def disconnected(self):
        self.up = False
        self.over()
        self.log.append(("D",))
        self.plan("D")

    def error(self, text):
        self.log.append(("E", "Client", text))
        self.plan("E")

    def income(self, t, v, seq):
        w = self.w
        if t is w.svc("ConnectConfirmationBeacon"):
            self.stage = None
            if not self.fail:
                self.stage = "key"
                self.sent.append((w.key_t, self.key, None))
            return
        if seq in self.pending:
            a = self.pending.pop(seq)
            if a is not None:
                return self.answer(a, t, v)
            stage, self.stage = self.stage, None
            if stage == "key" and t is w.svc("SelfKeyResponse"):
                self.uuid = v[0]
                if not self.fail:
                    self.stage = "hash"
                    self.sent.append((w.svc("HashRequest"), self.hashes, None))
            elif stage == "hash" and t is w.svc("HashResponse") and v[0] is None:
                self.count("ready")
                self.log.append(("Y", self.uuid))
                self.plan("Y")
            else:
                self.count("handshake refused")
            return
        for k, b in enumerate(self.bcs):
            if b is t:
                self.count("broadcast")
                self.log.append(("B", k, S.W(t, v)))
                return self.plan("B", k)
        self.count("unexpected message")

    def destroyed(self):
        self.dead, self.up = True, False
        self.log += [("Q",), ("G", "destroyed")]
        self.over()


def marathon(w, drv, m, n, hashes, rp):
    """One call waits while n others come and go."""
    call, answers, key = m
    plans = {(k, 0): [b""] for k in "CYDE"}
    plans.update({("B", k): [b""] for k in range(len(w.broadcasts()))})
    if call[0] == "b":
        return

    def sent(got):
        return next((S.unheader(x[1])["seq"] for x in got if x[0] == "S"), None)

    drv.start_run(0, 0, S.W(w.key_t, key), plans)
    got = drv.events([(0, b""), (3, S.pack(w.svc("ConnectConfirmationBeacon"), (), 0, 7))])
    got = drv.events([(3, S.pack(w.svc("SelfKeyResponse"), (UUID,), sent(got), 7))]) if sent(got) is not None else []
    got = drv.events([(3, S.pack(w.svc("HashResponse"), (None,), sent(got), 7))]) if sent(got) is not None else []
    if ("Y", UUID) not in got:
        raise Violation("ts-consumer-marathon", f"the consumer doesn't become ready: {got}", rp())
    got = drv.marathon(n, call_bytes(w, call), [(t, S.pack(t, v, 0, 7)) for _, t, v in answers])
    if got:
        raise Violation("ts-consumer-marathon", f"one call {call!r} waits while others of the same kind come and go: {[show(w, x) for x in got]}", rp())


class COpts:
    def __init__(self, **kw):
        self.steps = 26
        self.ends = 1              # 1 of n+1 chances for the end of a connection on the way
        self.good = 5              # 1 of n+1 histories breaks the handshake
        self.fails = 4
        self.shake = 14            # of 20 steps, while the handshake isn't over
        self.__dict__.update(kw)


@hs.composite
def histories(draw, w, o=COpts()):
    cache = {}

    def val(t):
        return draw(S.values(t, S.VOpts(), cache)) if t.fields else ()

    def chance(n):
        return draw(hs.integers(0, n)) == 0

    def a_call():
        k = draw(hs.integers(0, len(w.reqs) + len(w.beacons) - 1))
        if k < len(w.reqs):
            return ("r", k, val(w.reqs[k].t))
        return ("b", k - len(w.reqs), val(w.beacons[k - len(w.reqs)]))

    anything = [t for t in w.full.types if t.kind == "struct" and t is not w.svc("ConnectConfirmationBeacon")]
    bcs = w.broadcasts()
    ids = {t.id for t in w.full.types}
    glob = chance(3)
    active = draw(hs.booleans())
    fails = chance(o.fails)
    plans = {}
    for kind, n in (("C", 1), ("Y", 1), ("D", 1), ("E", 1), ("B", len(bcs))):
        for k in range(n):
            plans[kind, k] = [a_call() if active and draw(hs.integers(0, 2)) == 0 else None for _ in range(draw(hs.integers(1, 3)))]

    def items():
        out = []
        for _ in range(draw(hs.integers(1, 4))):
            c = draw(hs.integers(0, 9))
            if c <= 4:
                out.append(("ans", draw(hs.integers(0, 7)), draw(hs.integers(0, 9)), draw(hs.integers(0, 7))))
            elif c <= 7 and bcs:
                t = draw(hs.sampled_from(bcs))
                out.append(("msg", t, val(t), 0))
            elif c == 8:
                t = draw(hs.sampled_from(anything))
                out.append(("msg", t, val(t), draw(hs.one_of(hs.just(0), hs.integers(2**31, 2**32 - 1)))))
            elif c == 9:
                i = draw(hs.integers(0, 2**32 - 1).filter(lambda i: i not in ids))
                body = draw(hs.binary(max_size=8))
                out.append(("bad", S.header(i, 0, 1, len(body)) + body))
        return out

    steps, n, stage = [], 0, 0
    good = not chance(o.good)
    for _ in range(draw(hs.integers(o.steps // 2, o.steps))):
        c = draw(hs.integers(0, 19))
        if stage < 4 and c < o.shake:
            kind = "ok"
            if not good and stage >= 2 and chance(1):
                kind = draw(hs.sampled_from(["type", "error"]))
            t = draw(hs.sampled_from(anything))
            steps.append((["up", "confirm", "key", "hash"][stage], kind, t, val(t)))
            stage += 1
        elif c <= 10 or c == 19:
            steps.append(("push", items(), draw(hs.lists(hs.integers(0, 2**20), max_size=3)), draw(hs.one_of(hs.just(0), hs.integers(0, 60)))))
        elif c <= 13:
            n += 1
            steps.append(("call", f"c{n}", a_call(), not chance(3), chance(3), draw(hs.one_of(hs.none(), hs.tuples(hs.integers(0, 9), hs.integers(0, 7))))))
        elif c == 14:
            steps.append(("again", draw(hs.integers(0, 7))))
        elif c == 15:
            steps.append(("forget", draw(hs.integers(0, 7))))
        elif c == 16:
            steps.append(("error", draw(hs.sampled_from(["text", ""]))))
        elif c == 17 and fails:
            steps.append(("fail", draw(hs.booleans())))
        elif c == 18 and chance(o.ends):
            steps.append(("down",))
            stage = 0
    canned = {id(t): [val(t) for _ in range(2)] for t in {id(t): t for t in [x for r in w.reqs for x in [r.err] + [a.t for a in r.acts]] +
                                                         [w.svc("BeaconConfirmation")]}.values()}
    return dict(glob=glob, twice=chance(1), key=val(w.key_t), plans=plans, steps=steps, canned=canned, odd=[(t, val(t)) for t in draw(hs.lists(hs.sampled_from(anything), min_size=1, max_size=2))],
                last=a_call(), down=draw(hs.booleans()))


def play(w, drv, hist, hashes, rp):
    m = TsCons(w, hashes, hist["key"], hist["plans"], hist["glob"])
    raw = {key: [call_bytes(w, p) for p in ps] for key, ps in hist["plans"].items()}

    def check(step, got):
        def fail(why):
            raise Violation("ts-consumer-" + step[0], f"step {show_step(step)}: {why}\n  happened: " + "\n            ".join(show(w, x) for x in got) +
                            "\n  expected: " + "\n            ".join([show(w, x) for x in m.log] + ["sent " + ".".join(t.path) + f" {v!r}" for t, v, _ in m.sent]), rp())

        for x in got:
            if x[0] == "U":
                fail(f"a rejected promise nobody looks at: {x[1]}")
            if x[0] == "T":
                fail(x[1])
        rest = [x[1] for x in got if x[0] == "S"]
        if len(rest) != len(m.sent):
            fail(f"{len(rest)} messages are sent instead of {len(m.sent)}")
        for t, v, a in m.sent:
            hit = next((b for b in rest if len(b) >= S.HEADER and same_msg(b, ("msg", t, v, S.unheader(b)["seq"]))), None)
            if hit is None:
                fail(f"{'.'.join(t.path)} isn't sent")
            rest.remove(hit)
            seq = S.unheader(hit)["seq"]
            if seq in m.used or seq == 0:
                fail(f"sequence {seq} is in use")
            m.used.add(seq)
            if a is not None and a.prompt:
                continue
            m.pending[seq] = a
            if a is None:
                m.stage_seq = seq
            else:
                a.seq = seq
        for ks in ("C", "D", "E", "Y", "B", "QW", "G"):
            a, b = ([x for x in r if x[0] in ks] for r in (got, m.log))
            if a != b:
                fail(f"{[show(w, x) for x in a]} instead of {[show(w, x) for x in b]}")
        for k in "hR":
            a, b = ([x for x in r if x[0] == k] for r in (got, m.log))
            if sorted(a) != sorted(b):
                fail(f"{[show(w, x) for x in a]} instead of {[show(w, x) for x in b]}")
        m.log, m.sent = [], []

    pend = []

    def deliver(keep, step, cuts=()):
        total = sum(len(b) for b, _ in pend)
        n = max(0, total - keep)
        if not n:
            return
        data, done, left = b"".join(b for b, _ in pend)[:n], [], n
        while pend and left >= len(pend[0][0]):
            b, x = pend.pop(0)
            left -= len(b)
            done.append(x)
        if left:
            pend[0] = (pend[0][0][left:], pend[0][1])
        cs = sorted({c % (n + 1) for c in cuts})
        for x in done:
            if x is not None:
                m.income(*x)
            else:
                m.count("unreadable")
        check(step, drv.events([(3, data[a:b]) for a, b in zip([0] + cs, cs + [n])]))

    def reply(a, c, n):
        kind, k, _ = a.o.call
        ts = [w.svc("BeaconConfirmation")] if kind == "b" else [w.reqs[k].err] + [b.t for b in w.reqs[k].acts]
        if c == 0:
            return hist["odd"][n % len(hist["odd"])]
        t = ts[c % len(ts)]
        return t, hist["canned"][id(t)][n % 2]

    def uuid(step):
        m.log.append(("G", "no uuid" if m.uuid is None else "uuid " + m.uuid))
        check(step, drv.uuid())

    g = hist["glob"]
    got = drv.start_run(int(g), int(hist["twice"]), S.W(w.key_t, hist["key"]), raw)
    if g:
        m.log += [("G", "none"), ("W",), ("G", "this")] + ([("G", "refused"), ("G", "this")] if hist["twice"] else [])
    check(("start",), got)
    for step in hist["steps"]:
        k = step[0]
        if k == "up" and not m.up:
            m.connected()
            check(step, drv.events([(0, b"")]))
        elif k in ("confirm", "key", "hash"):
            if m.stage != k:
                continue
            if k == "confirm":
                x = (w.svc("ConnectConfirmationBeacon"), (), 0)
            elif step[1] == "type":
                x = (step[2], step[3], m.stage_seq)
                if x[0] is w.svc("SelfKeyResponse" if k == "key" else "HashResponse"):
                    continue
            elif k == "key":
                x = (w.svc("SelfKeyResponse"), (UUID,), m.stage_seq)
            else:
                x = (w.svc("HashResponse"), (None if step[1] == "ok" else "no",), m.stage_seq)
            pend.append((S.pack(*x, 7), x))
            deliver(0, step)
            uuid(step)
        elif k == "push":
            if not m.up:
                continue
            free = [a for a in m.pending.values() if a is not None and not any(x and x[2] == a.seq for _, x in pend)]
            for it in step[1]:
                if it[0] == "bad":
                    pend.append((it[1], None))
                    continue
                if it[0] == "msg":
                    if it[3] in m.used:
                        continue
                    x = it[1:]
                else:
                    if not free:
                        continue
                    a = free.pop(it[1] % len(free))
                    x = (*reply(a, it[2], it[3]), a.seq)
                pend.append((S.pack(*x, 7), x))
            deliver(step[3], step, step[2])
        elif k == "call":
            m.begin(step[1], step[2], step[3], step[4])
            prompt = None
            if step[5] and m.sent and not pend:
                a = m.sent[-1][2]
                a.prompt = True
                t, v = reply(a, *step[5])
                m.answer(a, t, v)
                m.count("answered at once")
                prompt = S.pack(t, v, 0, 7)
            check(step, drv.begin(step[1], (1 if step[4] else 0) | (2 if step[3] else 0), call_bytes(w, step[2]), prompt))
        elif k in ("again", "forget"):
            if not m.objs:
                continue
            id_ = list(m.objs)[-1 - step[1] % len(m.objs)]
            if k == "again":
                m.send(id_)
                check(step, drv.resend(id_))
            else:
                m.objs[id_].state = "dead"
                check(step, drv.forget(id_))
        elif k == "error":
            m.error(step[1])
            check(step, drv.events([(2, step[1].encode())]))
        elif k == "fail":
            m.fail = step[1]
            check(step, drv.failing(int(step[1])))
        elif k == "down":
            if not m.up:
                continue
            m.disconnected()
            if pend:
                m.count("part of a message is lost")
            del pend[:]
            check(step, drv.events([(1, b"")]))
            uuid(step)
    if hist["down"] and m.up:
        m.disconnected()
        check(("down at the end",), drv.events([(1, b"")]))
    m.destroyed()
    check(("destroy",), drv.destroy())
    check(("after",), drv.events([(0, b""), (3, S.pack(m.bcs[0], hist["canned"].get(id(m.bcs[0]), [()])[0]) if m.bcs and (not m.bcs[0].fields or id(m.bcs[0]) in hist["canned"]) else b""), (2, b"x"), (1, b"")]))
    m.begin("last", hist["last"], True)
    check(("call after destroy",), drv.begin("last", 2, call_bytes(w, hist["last"])))
    if g:
        m.log.append(("G", "none"))
        check(("get after destroy",), drv.get())
    return m


def show(w, x):
    if x[0] == "S":
        return "sent " + show_msg(w, x[1])
    if x[0] == "R":
        return f"call {x[1]} " + ("is rejected" + (" not with an Error" if x[2] == 2 else "") if x[2] != 1 else
                                  "is resolved" + ("" if x[3] == NOTHING else f" with {'.'.join(w.full.types[x[3]].path) if x[3] < len(w.full.types) else '?'} {x[4].hex()}"))
    if x[0] == "h":
        return f"handler {x[2]} of {x[1]} ({x[3]}) {x[4].hex()}"
    if x[0] == "B":
        return f"broadcast {'.'.join(w.broadcasts()[x[1]].path)} {x[2].hex()}"
    return {"C": "connected", "D": "disconnected", "E": "error", "Y": "ready", "Q": "client destroyed", "W": "waiting is over"}.get(x[0], x[0]) + " " + " ".join(x[1:])


def show_step(s):
    if s[0] == "push":
        def it(x):
            if x[0] == "msg":
                return f"{'.'.join(x[1].path)}#{x[3]} {x[2]!r}"
            return str(x)
        return f"push [{'; '.join(it(x) for x in s[1])}] cut {s[2]} but {s[3]} bytes"
    if s[0] in ("confirm", "key", "hash", "up"):
        return f"{s[0]} {s[1]}" + (f" {'.'.join(s[2].path)}" if s[1] == "type" else "")
    return str(s)


def show_hist(w, h):
    o = [f"global {h['glob']} twice {h['twice']}, key {h['key']!r}", f"plans {h['plans']}"]
    return "\n".join(o + [show_step(s) for s in h["steps"]] + [f"last {h['last']}"])

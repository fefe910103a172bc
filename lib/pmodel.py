"""Reference model of a producer: what handlers see and what clients get, for every history."""
import struct as st

from hypothesis import strategies as hs

import schema as S
import wf as W
from common import Violation, sh

LOG, EMIT, DISC, BOTH, IGNORE = 0, 1, 2, 3, 4            # identification strategy
E_EMIT, E_DISC, E_BOTH, E_LOG = 0, 1, 2, 3               # strategy for errors of a consumer
CONNECTED, DISCONNECTED = 1000, 1001


def uuid_str(i):
    n = "%032x" % ((0x1111_2222 << 96) + i)
    return "-".join((n[:8], n[8:12], n[12:16], n[16:20], n[20:]))


class Plan:
    """What a handler does: ops, then (for requests) which answer, (for events) its broadcasts."""

    def __init__(self, kind, k, ops, deferred, choice, value=None, bcs=()):
        self.kind, self.k, self.ops, self.deferred = kind, k, ops, deferred
        self.choice, self.value, self.bcs = choice, value, bcs

    def __repr__(self):
        return f"Plan({self.kind}{self.k} ops={self.ops} deferred={self.deferred} choice={self.choice} value={self.value!r} bcs={self.bcs!r})"


def idxs(us):
    return st.pack("<I", len(us)) + b"".join(st.pack("<I", u) for u in us)


def blob(b):
    return st.pack("<I", len(b)) + b


def ops_bytes(w, ops):
    o = [st.pack("<H", len(ops))]
    for op in ops:
        k = op[0]
        if k == "key":
            o.append(b"\1" + bytes([op[1]]) + S.W(w.key_t, op[2]))
        elif k == "asg":
            o.append(b"\2" + bytes([op[1]]) + S.W(w.asg_t, op[2]))
        elif k == "ev":
            o.append(b"\3" + st.pack("<H", op[1]) + S.W(w.evs[op[1]].t, op[2]))
        elif k == "disc":
            o.append(b"\4" + st.pack("<I", op[1]))
        elif k == "send":
            o.append(b"\5" + st.pack("<I", op[1]) + blob(op[2]))
        elif k == "bc":
            o.append(b"\6" + idxs(op[1]) + blob(op[2]))
        elif k == "down":
            o.append(bytes([op[1] + 6]) if op[1] >= 2 else b"\7" + bytes([op[1]]))
    return b"".join(o)


def bcs_bytes(decl, bcs):
    o = []
    for d, (present, (rk, us), v) in zip(decl, bcs):
        if d.opt:
            o.append(bytes([present]))
            if not present:
                continue
        o.append(bytes([rk]))
        if rk in (0, 3):
            o.append(idxs(us))
        o.append(S.W(d.t, v))
    return b"".join(o)


def plan_bytes(w, p):
    o = ops_bytes(w, p.ops) + bytes([p.deferred, p.choice])
    if p.kind == "r":
        r = w.reqs[p.k]
        if p.choice == 0:
            o += S.W(r.err, p.value)
        else:
            a = r.acts[p.choice - 1]
            o += S.W(a.t, p.value) + bcs_bytes(a.bcs, p.bcs)
    elif p.kind == "e" and p.choice and p.k < CONNECTED:
        o += bcs_bytes(w.evs[p.k].bcs, p.bcs)
    return o


class Client:
    def __init__(self):
        self.key = self.asg = None
        self.confirmed = self.hash_ok = self.out = False


class Model:
    def __init__(self, w, ident, err, plans, hashes, ts=False):
        self.w, self.ident, self.err, self.plans, self.hashes = w, ident, err, plans, hashes
        self.pos = {k: 0 for k in plans}
        self.cl = {}
        self.fail = set()
        self.evq, self.idq = [], []
        self.req = {id(r.t): k for k, r in enumerate(w.reqs)}
        self.bea = {id(t): k for k, t in enumerate(w.beacons)}
        self.log = []
        self.stat = {}
        self.down = False

    def count(self, k):
        self.stat[k] = self.stat.get(k, 0) + 1

    # -- outputs
    def send(self, u, t, v, seq):
        self.log.append(("S", u, ("msg", t, v, seq)))
        return u not in self.fail

    def raw(self, u, b):
        self.log.append(("S", u, ("raw", b)))
        return u not in self.fail

    def ident_rec(self, u):
        c = self.cl.get(u) if not isinstance(u, tuple) else u[1]
        if c is None:
            return None
        return (u if not isinstance(u, tuple) else u[0],
                None if c.key is None else S.W(self.w.key_t, c.key), None if c.asg is None else S.W(self.w.asg_t, c.asg))

    def error(self, name, u, who="same"):
        self.log.append(("E", name, u, self.ident_rec(u) if who == "same" and u is not None else None))

    def disconnect(self, u):
        c = self.cl[u]
        if not c.out:
            c.out = True
            self.log.append(("D", u))

    def failed(self, u):
        """An error on the way of this client's data."""
        if self.err in (E_DISC, E_BOTH) and u in self.cl:
            self.disconnect(u)
        if self.err in (E_EMIT, E_BOTH):
            self.error("ResponsingError", u)

    def lists(self, u):
        a = sorted(self.cl)
        return (tuple(a), tuple(x for x in a if x != u), tuple(x for x in a if x not in (0, 2)),
                tuple(x for x in a if self.cl[x].asg is not None), tuple(x for x in a if self.cl[x].key is not None))

    def recipients(self, spec, u):
        rk, us = spec
        al, exc, _, asg, keyed = self.lists(u)
        return {0: lambda: us, 1: lambda: al, 2: lambda: exc if u is not None else [x for x in al if x != 1],
                3: lambda: [x for x in al if x not in us], 4: lambda: asg, 5: lambda: keyed}[rk]()

    # -- handlers
    def enter(self, kind, k, payload, u, rec):
        ps = self.plans[(kind, k)]
        p = ps[self.pos[(kind, k)] % len(ps)]
        self.pos[(kind, k)] += 1
        self.log.append(("H", kind, k, payload, rec) + self.lists(u))
        self.ops(p.ops, u)
        return p

    def ops(self, ops, u):
        for op in ops:
            k = op[0]
            if k in ("key", "asg"):
                if u is not None:
                    self.idq.append((k, u, op[1], op[2]))
            elif k == "ev":
                self.evq.append((op[1], op[2]))
            elif k == "disc":
                self.log += [("D", op[1]), ("R", int(op[1] not in self.fail))]
            elif k == "send":
                self.log.append(("R", int(self.raw(op[1], op[2]))))
            elif k == "bc":
                for x in op[1]:
                    self.raw(x, op[2])
                self.log.append(("R", 1))
            elif k == "down":
                self.down = True

    def broadcast(self, decl, bcs, u):
        n = 0
        for d, (present, spec, v) in zip(decl, bcs):
            if d.opt and not present:
                continue
            for x in self.recipients(spec, u):
                self.send(x, d.t, v, 0)
                n += x in self.cl
        if n:
            self.count("broadcasts delivered")

    def event_handler(self, kind_k, payload, u, rec, decl):
        p = self.enter("e", kind_k, payload, u, rec)
        if not p.choice:
            return
        self.broadcast(decl, p.bcs, u)
        if p.deferred:
            self.log.append(("F",))

    def default_event(self, name, u, c):
        k, decl = (CONNECTED, []) if name == "connected" else (DISCONNECTED, [])
        for i, e in enumerate(self.w.evs):
            if e.t == name:
                k, decl = i, e.bcs
        self.event_handler(k, b"", u, self.ident_rec((u, c)), decl)

    # -- transport
    def connected(self, u):
        c = Client()
        self.default_event("connected", u, c)
        self.cl[u] = c

    def confirm(self, u):
        if u not in self.cl:
            self.error("ConsumerError", u, None)
            return
        self.cl[u].confirmed = True
        if not self.send(u, self.w.svc("ConnectConfirmationBeacon"), (), 0):
            self.failed(u)

    def disconnected(self, u):
        c = self.cl.pop(u, None)
        if c is None:
            return
        self.default_event("disconnected", u, c)

    def received(self, u, msgs):
        c = self.cl.get(u)
        if c is None:
            self.failed(u)
            return
        if c.out:
            return
        if not c.confirmed:
            self.disconnect(u)
            self.error("NotConfirmedConnection", u)
            return
        if any(m[0] == "bad" for m in msgs):
            self.count("unreadable")
            self.failed(u)
        for m in msgs:
            if c.out:
                return
            if m[0] != "bad":
                self.message(u, c, m)

    def message(self, u, c, m):
        _, t, v, seq = m
        w = self.w
        if t is w.key_t and not c.hash_ok:
            c.key = v
            if not self.send(u, w.svc("SelfKeyResponse"), (uuid_str(u),), seq):
                self.failed(u)
            return
        if t is w.svc("HashRequest"):
            ok = v == self.hashes
            if ok:
                c.hash_ok = True
            if not self.send(u, w.svc("HashResponse"), (None if ok else ANY_TEXT,), seq):
                self.failed(u)
            if not ok:
                self.count("refused: hash")
                self.disconnect(u)
                self.error("NoConsumerKey", u)
            return
        if not c.hash_ok or c.key is None:
            self.count("refused: no hash or key")
            self.disconnect(u)
            self.error("NoConsumerKey", u)
            return
        if c.asg is None and self.ident in (EMIT, DISC, BOTH):
            self.count("refused: not assigned")
            if self.ident in (DISC, BOTH):
                self.disconnect(u)
            if self.ident in (EMIT, BOTH):
                self.error("NoAssignedConsumer", u)
            return
        if id(t) in self.req:
            self.request(u, self.req[id(t)], t, v, seq)
        elif id(t) in self.bea:
            self.beacon(u, self.bea[id(t)], t, v, seq)

    def request(self, u, k, t, v, seq):
        r = self.w.reqs[k]
        p = self.enter("r", k, S.W(t, v), u, self.ident_rec(u))
        a = None if p.choice == 0 else r.acts[p.choice - 1]
        self.count("requests answered")
        if not self.send(u, r.err if a is None else a.t, p.value, seq):
            self.failed(u)
            return
        if a is not None:
            self.broadcast(a.bcs, p.bcs, u)
        if p.deferred:
            self.log.append(("F",))

    def beacon(self, u, k, t, v, seq):
        p = self.enter("b", k, S.W(t, v), u, self.ident_rec(u))
        self.count("beacons")
        if not p.choice or not self.send(u, self.w.svc("BeaconConfirmation"), (None,), seq):
            self.error("BeaconEmitterError", u)
            return
        if p.deferred:
            self.log.append(("F",))

    def drain(self):
        """Emitted events and changes of identification, in order."""
        while self.evq or self.idq:
            while self.idq:
                what, u, ow, v = self.idq.pop(0)
                c = self.cl.get(u)
                if c is None:
                    self.error("ConsumerError", u, None)
                    continue
                t = self.w.key_t if what == "key" else self.w.asg_t
                old = c.key if what == "key" else c.asg
                self.count("changed keys")
                if not ow and old is not None:
                    v = tuple(o if f.opt and n is None else n for f, o, n in zip(t.fields, old, v))
                    self.count("merged keys")
                if what == "key":
                    c.key = v
                else:
                    c.asg = v
            if self.evq:
                k, v = self.evq.pop(0)
                e = self.w.evs[k]
                self.count("events")
                self.event_handler(k, S.W(e.t, v), None, None, e.bcs)

    def take(self):
        o, self.log = self.log, []
        return o


class _AnyText:
    def __repr__(self):
        return "<some text>"


ANY_TEXT = _AnyText()


def same_msg(b, want):
    if want[0] == "raw":
        return b == want[1]
    _, t, v, seq = want
    if len(b) < S.HEADER:
        return False
    hd = S.unheader(b)
    body = b[S.HEADER:]
    if (hd["id"], hd["seq"], hd["len"]) != (t.id, seq, len(body)):
        return False
    if v and v[0] is ANY_TEXT:
        return len(body) > 0
    return body == S.encode(t, v)


def show_msg(w, m):
    if isinstance(m, bytes):
        try:
            hd = S.unheader(m)
            t = next(t for t in w.full.types if t.id == hd["id"])
            return f"{'.'.join(t.path)}#{hd['seq']}[{m[S.HEADER:].hex()}]"
        except Exception:
            return "raw:" + m.hex()
    if m[0] == "raw":
        return "raw:" + m[1].hex()
    try:
        return f"{'.'.join(m[1].path)}#{m[3]}[{S.encode(m[1], m[2]).hex()}]"
    except Exception:
        return f"{'.'.join(m[1].path)}#{m[3]}[{m[2]}]"


def show(w, rec):
    if rec[0] == "S":
        return f"S->{rec[1]} {show_msg(w, rec[2])}"
    return str(rec)


def groups(recs, known):
    """What happened, up to what is left open: the order between recipients, and of disconnections.
    -> (sequence of records with the sends of each stretch by recipient, disconnections, results)"""
    seq, d, r = [], [], []
    for x in recs:
        if x[0] == "D":
            d.append(x[1])
        elif x[0] == "R":
            r.append(x[1])
        elif x[0] == "S":
            if x[1] not in known:
                continue
            if not seq or seq[-1][0] != "SS":
                seq.append(("SS", {}))
            seq[-1][1].setdefault(x[1], []).append(x[2])
        else:
            seq.append(x)
    return seq, sorted(d), r


def differ(w, got, want, known):
    """-> None or a text."""
    g, gd, gr = groups(got, known)
    e, ed, er = groups(want, known)

    def report(why):
        return (why + "\n  happened: " + "\n            ".join(show(w, x) for x in got) +
                "\n  expected: " + "\n            ".join(show(w, x) for x in want))

    for a, b in zip(g, e):
        if a[0] == "SS" and b[0] == "SS":
            if a[1].keys() != b[1].keys():
                return report(f"messages to {sorted(a[1])} instead of {sorted(b[1])}")
            for u in a[1]:
                if len(a[1][u]) != len(b[1][u]):
                    return report(f"{len(a[1][u])} messages to {u} instead of {len(b[1][u])}")
                for x, y in zip(a[1][u], b[1][u]):
                    if not same_msg(x, y):
                        return report(f"client {u} gets {show_msg(w, x)} instead of {show_msg(w, y)}")
        elif a != b:
            return report("not what is expected: " + (f"{a}" if a[0] != "SS" else "messages") + " / " + (f"{b}" if b[0] != "SS" else "messages"))
    if len(g) != len(e):
        return report("more happened than expected" if len(g) > len(e) else "less happened than expected")
    if gd != ed:
        return report(f"disconnected {gd} instead of {ed}")
    if gr != er:
        return report(f"results of control {gr} instead of {er}")
    return None


# -- histories -------------------------------------------------------------------
class HOpts:
    """Shape of histories."""

    def __init__(self, **kw):
        self.steps = 14
        self.users = 4
        self.mode = None
        self.modes = ["static", "ident", "ident", "events"]
        self.handshake = 6          # of 8 clients that follow the handshake
        self.fails = 3              # 1 of n+1 histories has failing sends
        self.strategies = True
        self.server_events = True
        self.batches = True
        self.proper = 7             # of 10 plans of TypeScript handlers, which use the interface as they should
        self.__dict__.update(kw)


@hs.composite
def histories(draw, w, hashes, o=HOpts(), vals=None):
    """-> dict(ident, err, plans, steps).  A step: (name, args…)"""
    cache = {}

    def val(t):
        return draw(S.values(t, S.VOpts(), cache)) if t.fields else ()

    def chance(n):
        return draw(hs.integers(0, n)) == 0

    mode = o.mode or draw(hs.sampled_from(o.modes))
    ident = draw(hs.sampled_from([255, LOG, EMIT, DISC, BOTH, IGNORE])) if o.strategies else 255
    err = draw(hs.sampled_from([255, E_EMIT, E_DISC, E_BOTH, E_LOG])) if o.strategies else 255
    drop = err in (255, E_DISC, E_BOTH)
    users = list(range(o.users))
    emittable = [k for k, e in enumerate(w.evs) if not e.default()]

    def some_users():
        return draw(hs.lists(hs.sampled_from(users), max_size=3, unique=True))

    def rcpt():
        rk = draw(hs.integers(0, 5))
        return (rk, some_users() if rk in (0, 3) else [])

    def bcs(decl):
        return [(not d.opt or draw(hs.booleans()), rcpt(), val(d.t)) for d in decl]

    def ops(kind, k, anon):
        out = []
        n = draw(hs.integers(0, 2))
        for _ in range(n):
            c = draw(hs.integers(0, 7))
            if c <= 3 and mode == "ident" and not anon:
                out.append(("key", draw(hs.booleans()), val(w.key_t)) if c == 0 else ("asg", draw(hs.booleans()), val(w.asg_t)))
            elif c <= 3 and mode == "events" and emittable:
                later = [e for e in emittable if kind != "e" or k >= CONNECTED or e > k]
                if later:
                    e = draw(hs.sampled_from(later))
                    out.append(("ev", e, val(w.evs[e].t)))
            elif c == 4:
                out.append(("send", draw(hs.sampled_from(users)), draw(hs.binary(max_size=6))))
            elif c == 5:
                out.append(("bc", some_users(), draw(hs.binary(max_size=6))))
            elif c == 6 and chance(2):
                out.append(("disc", draw(hs.sampled_from(users))))
        return out

    plans = {}
    for k, r in enumerate(w.reqs):
        ps = []
        for _ in range(draw(hs.integers(1, 3))):
            ch = draw(hs.integers(0, len(r.acts)))
            t = r.err if ch == 0 else r.acts[ch - 1].t
            ps.append(Plan("r", k, ops("r", k, False), draw(hs.booleans()), ch, val(t), bcs(r.acts[ch - 1].bcs) if ch else []))
        plans[("r", k)] = ps
    have = {e.t for e in w.evs if e.default()}
    evs = [(k, e.bcs, not e.default()) for k, e in enumerate(w.evs)]
    evs += [(k, [], False) for k, n in ((CONNECTED, "connected"), (DISCONNECTED, "disconnected")) if n not in have]
    for k, decl, anon in evs:
        ps = []
        for _ in range(draw(hs.integers(1, 2))):
            ps.append(Plan("e", k, ops("e", k, anon), draw(hs.booleans()), int(not chance(4)), None, bcs(decl)))
        plans[("e", k)] = ps
    for k, t in enumerate(w.beacons):
        plans[("b", k)] = [Plan("b", k, ops("b", k, False), draw(hs.booleans()), int(not chance(3)))
                           for _ in range(draw(hs.integers(1, 2)))]

    ids = {t.id for t in w.full.types}
    sent = [r.t for r in w.reqs] + list(w.beacons)
    others = [t for t in w.full.types if t.kind == "struct" and t not in sent and t is not w.svc("HashRequest")]
    seqs = hs.one_of(hs.integers(0, 20), hs.integers(0, 2**32 - 1))

    def msg(what):
        seq = draw(seqs)
        if what == "key":
            t, v = w.key_t, val(w.key_t)
        elif what in ("hash", "hash-"):
            t, v = w.svc("HashRequest"), hashes
            if what == "hash-":
                bad = draw(hs.sampled_from(["", "0", hashes[0].lower(), hashes[1], hashes[0][:-1], hashes[0] + "0"]))
                v = draw(hs.sampled_from([(bad, hashes[1]), (hashes[0], bad if bad != hashes[1] else hashes[0]), (hashes[1], hashes[0])]))
                if v == hashes:
                    v = ("", "")
        elif what == "data":
            t = draw(hs.sampled_from(sent))
            v = val(t)
        elif what == "other":
            t = draw(hs.sampled_from(others))
            v = val(t)
        else:
            i = draw(hs.integers(0, 2**32 - 1).filter(lambda i: i not in ids))
            body = draw(hs.binary(max_size=12))
            if draw(hs.booleans()):
                t = draw(hs.sampled_from([t for t in w.full.types if t.kind == "struct" and t.fields]))
                return ("bad",), S.header(t.id, seq, 1, 1) + b"\1"
            return ("bad",), S.header(i, seq, 1, len(body)) + body
        return ("msg", t, v, seq), S.pack(t, v, seq, draw(hs.integers(0, 2**40)))

    state = {}        # u -> dict(pend=bytes not yet sent, stage)
    steps = []

    def pick_msgs(u):
        stt = state[u]
        out = []
        n = draw(hs.integers(1, 4))
        for i in range(n):
            if not stt["good"] or stt["stage"] >= 2:
                if stt["stage"] >= 2 and stt["good"]:
                    what = draw(hs.sampled_from(["data"] * 8 + ["other", "hash", "key"] + (["hash-", "bad"] if chance(3) else [])))
                else:
                    what = draw(hs.sampled_from(["data", "data", "hash", "hash", "hash-", "key", "key", "other", "bad"]))
            else:
                what = "key" if stt["stage"] == 0 else "hash"
                stt["stage"] += 1
            if what == "bad":
                if drop and (i > 0 or n > 1) or not drop and i > 0:
                    what = "data"
            out.append(msg(what))
            if out[-1][0][0] == "bad" and drop:
                break
        return out

    def recv(u):
        """Some of the client's bytes."""
        stt = state[u]
        if not stt["pend"]:
            ms = pick_msgs(u)
            stt["pend"] = [(b, m) for m, b in ms]
        whole = chance(1)
        bad = any(m[0] == "bad" for _, m in stt["pend"])
        out, done = b"", []
        if whole or bad:
            for b, m in stt["pend"]:
                out += b
                done.append(m)
            stt["pend"] = []
        else:
            total = sum(len(b) for b, _ in stt["pend"])
            n = draw(hs.integers(1, total))
            while n:
                b, m = stt["pend"][0]
                if n >= len(b):
                    out += b
                    done.append(m)
                    n -= len(b)
                    stt["pend"].pop(0)
                else:
                    out += b[:n]
                    stt["pend"][0] = (b[n:], m)
                    n = 0
        return ("recv", u, out, done)

    for _ in range(draw(hs.integers(o.steps // 2, o.steps))):
        on = sorted(state)
        c = draw(hs.integers(0, 15))
        if c <= 3 or not on:
            off = [u for u in users if u not in state]
            if off:
                u = draw(hs.sampled_from(off))
                state[u] = dict(pend=[], stage=0, good=draw(hs.integers(1, 8)) <= o.handshake)
                if mode == "static" and chance(5):
                    x = recv(u)
                    steps.append(("rush", u, x[2], x[3], recv(u)[2:] if chance(5) else None))
                elif mode == "static" and chance(7):
                    steps.append(("flash", u))
                    del state[u]
                else:
                    steps.append(("connect", u))
                continue
        if not on:
            continue
        if c <= 11:
            if o.batches and mode == "static" and chance(2):
                steps.append(("batch", [recv(draw(hs.sampled_from(on))) for _ in range(draw(hs.integers(2, 4)))]))
            else:
                steps.append(recv(draw(hs.sampled_from(on))))
        elif c == 12:
            u = draw(hs.sampled_from(users))
            steps.append(("disconnect", u))
            state.pop(u, None)
        elif c == 13 and o.server_events:
            k = draw(hs.integers(5, 8))
            u = draw(hs.sampled_from(users + [None]))
            if k == 8:
                gone = [x for x in users if x not in state]
                if gone:
                    u = draw(hs.sampled_from(gone))
                    m, b = msg("data")
                    steps.append(("recv", u, b, [m]))
            else:
                steps.append(("server", k, u))
        elif c == 14 and emittable and mode != "ident":
            ops_ = [("ev", e, val(w.evs[e].t)) for e in draw(hs.lists(hs.sampled_from(emittable), min_size=1, max_size=2))]
            if chance(1):
                ops_.append(("bc", some_users(), b"x"))
            steps.append(("ctl", ops_))
        elif c == 15 and chance(o.fails):
            steps.append(("fail", some_users()))
    end = draw(hs.sampled_from(ENDS))
    return dict(ident=ident, err=err, plans=plans, steps=steps, end=end, mode=mode)


ENDS = ["event", "ctl", "wait", "given-up", "twice", "wait-error", "listen", "listen-error", "error-handler", "ready-handler", "shutdown-handler"]
BAD = {"error-handler": b"E", "ready-handler": b"Y", "shutdown-handler": b"Z"}


def play(w, drv, hist, hashes, rp, on_stat=None):
    """Runs a history; raises Violation at the first step that differs from the model."""
    ident = LOG if hist["ident"] == 255 else hist["ident"]
    err = E_BOTH if hist["err"] == 255 else hist["err"]
    m = Model(w, ident, err, hist["plans"], hashes)
    plans = {k: [plan_bytes(w, p) for p in ps] for k, ps in hist["plans"].items()}

    def check(step, got, want, known):
        if got and any(x[0] == "L" for x in got):
            raise Violation("livelock", f"the producer never comes to rest after {show_step(w, step)}", rp())
        t = differ(w, got, want, known)
        if t:
            sig = "producer-" + step[0]
            raise Violation(sig, f"step {show_step(w, step)}: {t}", rp())

    got = drv.start_run(hist["ident"], hist["err"], plans)
    check(("start",), got, [], set())
    got = drv.events([(0, None, b"")])
    check(("ready",), got, [("Y",)], set())
    for step in hist["steps"]:
        k = step[0]
        known = set(m.cl)
        if k in ("connect", "flash", "rush"):
            u = step[1]
            conf = ("msg", w.svc("ConnectConfirmationBeacon"), (), 0)
            if u in m.fail and (k != "connect" or hist["mode"] != "static"):
                m.fail = set()      # not ordered with what else happens
                drv.fail([])
            m.connected(u)
            known.add(u)
            if k == "connect":
                m.confirm(u)
                m.drain()
                got, lost = drv.events([(2, u, b"")]), False
            elif k == "rush":
                got, lost = drv.events([(2, u, b""), (4, u, step[2])] + ([(4, u, step[4][0])] if step[4] else [])), False
                if ("E", "NotConfirmedConnection", u, m.ident_rec(u)) not in got:
                    m.cl[u].confirmed = True
                    m.count("rush: in time")
                else:
                    m.count("rush: too early")
                m.received(u, step[3])
                if step[4]:
                    m.received(u, step[4][1])
                m.confirm(u)
            else:
                m.disconnected(u)
                got, lost = drv.events([(2, u, b""), (3, u, b"")]), True
                m.count("left at once")
            want = m.take()
            want, _ = without(want, u, conf)
            # the confirmation comes any time after the handler, between whole steps
            got, found = without(got, u, conf)
            if not found and lost and ("E", "ConsumerError", u, None) in got:
                got.remove(("E", "ConsumerError", u, None))
                found = True
            if not found:
                raise Violation("producer-" + k, f"step {show_step(w, step)}: client {u} gets no confirmation of its connection\n  happened: " +
                                "\n            ".join(show(w, x) for x in got), rp())
            check(step, got, want, known)
            continue
        if k == "recv":
            u, b, done = step[1:]
            m.received(u, done)
            got = drv.events([(4, u, b)])
        elif k == "batch":
            for x in step[1]:
                m.received(x[1], x[3])
            got = drv.events([(4, x[1], x[2]) for x in step[1]])
        elif k == "disconnect":
            m.disconnected(step[1])
            got = drv.events([(3, step[1], b"")])
        elif k == "server":
            u = step[2]
            if step[1] == 7:
                m.error("ServerError", None)
            else:
                m.error("ConsumerError" if step[1] == 5 else "ConnectionError", u)
            got = drv.events([(step[1], u, b"some text")])
        elif k == "ctl":
            m.ops(step[1], None)
            got = drv.ctl(ops_bytes(w, step[1]))
        elif k == "fail":
            m.fail = set(step[1])
            drv.fail(step[1])
            continue
        m.drain()
        check(step, got, m.take(), known | set(m.cl))
    end = hist["end"]
    if end in BAD:
        drv.bad_handler(BAD[end])
    if end in ("event", "shutdown-handler"):
        got = drv.events([(1, None, b"")])
    elif end == "error-handler":
        bad_end = len(hist["steps"]) % 3
        got = drv.events([(5 + bad_end, None, b"some text")])
    elif end == "ready-handler":
        got = drv.events([(0, None, b"")])
    elif end == "ctl":
        got = drv.ctl(ops_bytes(w, [("down", 0)]))
    elif end == "given-up":
        got = drv.ctl(ops_bytes(w, [("down", 2)]))
    elif end == "twice":
        got = drv.ctl(ops_bytes(w, [("down", 3)]))
    elif end in ("wait", "wait-error"):
        if end == "wait-error":
            drv.listen_ends(2)
        got = drv.ctl(ops_bytes(w, [("down", 1)]))
    else:
        got = drv.listen_ends(int(end == "listen-error"))
    want = {("Z",), ("X", "ServerError" if end == "listen-error" else "EventEmitterError" if end in BAD else "")}
    if end == "error-handler":
        want.add(("E", ["ConsumerError", "ConnectionError", "ServerError"][bad_end], None, None))
    if end == "ready-handler":
        want.add(("Y",))
    if end == "wait-error":
        # the failing transport is reported if it was noticed before the end
        got = [("X", "") if x == ("X", "ServerError") else x for x in got]
    if end in ("ctl", "given-up", "twice", "wait", "wait-error"):
        want |= {("Q",), ("R", 1)}
    have = [x for x in got if x != ("Q",) or ("Q",) in want]
    if sorted(map(str, have)) != sorted(map(str, want)):
        raise Violation("producer-shutdown", f"shutdown by {end}: happened {got}, expected {sorted(want)}", rp())
    return m


def without(recs, u, want):
    """recs without the first sending of a message to u; -> recs, found"""
    out, found = [], False
    for x in recs:
        if not found and x[0] == "S" and x[1] == u and (x[2] == want if isinstance(x[2], tuple) else same_msg(x[2], want)):
            found = True
            continue
        out.append(x)
    return out, found


def show_step(w, s):
    k = s[0]

    def ms(done):
        return "[" + ", ".join("unreadable" if m[0] == "bad" else f"{'.'.join(m[1].path)}#{m[3]} {m[2]!r}" for m in done) + "]"

    if k == "rush":
        return f"{k} {s[1]} {len(s[2])} bytes completing {ms(s[3])}" + (f", then {len(s[4][0])} bytes completing {ms(s[4][1])}" if s[4] else "")
    if k == "recv":
        return f"{k} {s[1]} {len(s[2])} bytes completing {ms(s[3])}"
    if k == "batch":
        return "batch of " + "; ".join(show_step(w, x) for x in s[1])
    return str(s)


def show_hist(w, h):
    o = [f"identification strategy {h['ident']}, error strategy {h['err']}, mode {h['mode']}"]
    o += [repr(p) for ps in h["plans"].values() for p in ps]
    o += [show_step(w, s) for s in h["steps"]] + ["end: " + h["end"]]
    return "\n".join(o)

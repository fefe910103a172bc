"""Workflows: what a .workflow document declares, a generator of valid ones, and their text."""
from hypothesis import strategies as hs

import schema as S
from common import Violation

SERVICE = "InternalServiceGroup"


class Bc:
    def __init__(self, t, opt=False):
        self.t, self.opt = t, opt


class Act:
    def __init__(self, concl, t, bcs):
        self.concl, self.t, self.bcs = concl, t, bcs


class Req:
    def __init__(self, t, err, acts):
        self.t, self.err, self.acts = t, err, acts


class Ev:
    """t: a struct, or 'connected' / 'disconnected'."""

    def __init__(self, t, bcs):
        self.t, self.bcs = t, bcs

    def default(self):
        return isinstance(self.t, str)


class Wf:
    def __init__(self, schema, selfk, asgk, reqs, evs, beacons, producer, consumer):
        self.schema, self.selfk, self.asgk = schema, selfk, asgk
        self.reqs, self.evs, self.beacons = reqs, evs, beacons
        self.producer, self.consumer = producer, consumer
        self.full = full_schema(schema, selfk, asgk)
        self.key_t = self.svc("SelfKeyRequest") if selfk is None else selfk
        self.asg_t = self.svc("AssignedKey") if asgk is None else asgk

    def svc(self, name):
        return self.full.by_path(f"{SERVICE}.{name}")

    def broadcasts(self):
        """Distinct broadcasts, in order of appearance."""
        out = []
        for bcs in [a.bcs for r in self.reqs for a in r.acts] + [e.bcs for e in self.evs]:
            for b in bcs:
                if b.t not in out:
                    out.append(b.t)
        return out

    def __repr__(self):
        return text(self) + "\n---\n" + S.text(self.schema)


def full_schema(schema, selfk, asgk):
    """The schema with the service messages, which a workflow adds at the end of the protocol."""
    F = S.Field
    its = []
    if selfk is None:
        its.append(S.Struct("SelfKeyRequest", [F("uuid", "str", False, True)]))
    its.append(S.Struct("SelfKeyResponse", [F("uuid", "str")]))
    if asgk is None:
        its.append(S.Struct("AssignedKey", []))
    its += [S.Struct("HashRequest", [F("protocol", "str"), F("workflow", "str")]),
            S.Struct("HashResponse", [F("error", "str", False, True)]),
            S.Struct("BeaconConfirmation", [F("error", "str", False, True)]),
            S.Struct("ConnectConfirmationBeacon", [])]
    return S.Schema(schema.items + [S.Group(SERVICE, its)])


def dotted(t):
    return t if isinstance(t, str) else ".".join(t.path)


def mod(t):
    return dotted(t).lower().replace(".", "_")


def text(w, order=None):
    """The document.  order: permutation of the declarations."""
    cfg = []
    if w.selfk is not None:
        cfg.append(f"    SelfKey: {dotted(w.selfk)};")
    if w.asgk is not None:
        cfg.append(f"    AssignedKey: {dotted(w.asgk)};")
    cfg.append(f"    Producer: {' '.join(w.producer)};")
    cfg.append(f"    Consumer: {' '.join(w.consumer)};")
    decl = ["&config {\n" + "\n".join(cfg) + "\n}\n"]
    for r in w.reqs:
        ls = []
        for a in r.acts:
            head = f"    ({a.concl} > {dotted(a.t)})" if a.concl else f"    ({dotted(a.t)})"
            if not a.bcs:
                ls.append(head + ";")
            for i, b in enumerate(a.bcs):
                ls.append((head if i == 0 else "        ") + f" > {dotted(b.t)}{'?' if b.opt else ''};")
        decl.append(f"{dotted(r.t)} !{dotted(r.err)} {{\n" + "\n".join(ls) + "\n}\n")
    for e in w.evs:
        decl.append(f"@{dotted(e.t)} {{\n" + "\n".join(f"    > {dotted(b.t)}{'?' if b.opt else ''};" for b in e.bcs) + "\n}\n")
    if w.beacons:
        decl.append("@beacons {\n" + "\n".join(f"    > {dotted(b)};" for b in w.beacons) + "\n}\n")
    if order:
        decl = [decl[0]] + [decl[1:][i] for i in order]
    return "\n".join(decl)


class WOpts:
    def __init__(self, **kw):
        self.producer, self.consumer = ["rust"], ["rust"]
        self.max_reqs, self.max_acts, self.max_bcs, self.max_evs, self.max_beacons = 4, 3, 3, 3, 3
        self.min_reqs = 1
        self.schema = S.Opts(max_items=9, max_depth=3, max_fields=4, wide=False, enum_struct_arr=False)
        self.min_structs = 8
        self.__dict__.update(kw)


@hs.composite
def workflows(draw, o=WOpts()):
    schema = draw(S.schemas(o.schema).filter(lambda s: len(s.structs()) >= o.min_structs))
    ss = schema.structs()
    order = draw(hs.permutations(ss))
    pool = list(order)

    def take():
        return pool.pop()

    # messages a consumer sends have roles of their own; answers and broadcasts are drawn from all structs
    nreq = draw(hs.integers(o.min_reqs, min(o.max_reqs, max(o.min_reqs, len(ss) - 4))))
    nb = draw(hs.integers(0, min(o.max_beacons, max(0, len(ss) - nreq - 3))))
    reqs_t = [take() for _ in range(nreq)]
    beacons = [take() for _ in range(nb)]
    # keys with present-but-empty optionals are avoided by the value generator, not here
    selfk = draw(hs.sampled_from([None] + ss))
    asgk = draw(hs.sampled_from([None] + ss))
    k = [0]

    def concl():
        k[0] += 1
        return draw(hs.sampled_from(["Accept", "Deny", "Concl", "case", "Case_"])) + str(k[0])

    def bcs(lo, hi):
        ts = draw(hs.lists(hs.sampled_from(ss), min_size=lo, max_size=hi, unique_by=id))
        return [Bc(t, draw(hs.integers(0, 2)) == 0) for t in ts]

    reqs = []
    for t in reqs_t:
        n = draw(hs.integers(1, o.max_acts))
        # answers of one request are told apart by their types
        ts = draw(hs.lists(hs.sampled_from(ss), min_size=n + 1, max_size=n + 1, unique_by=id))
        err, resp = ts[0], ts[1:]
        if n == 1:
            acts = [Act(concl() if draw(hs.booleans()) else None, resp[0], bcs(0, o.max_bcs))]
        else:
            acts = [Act(concl(), r, bcs(0, o.max_bcs)) for r in resp]
        reqs.append(Req(t, err, acts))
    evs = []
    names = draw(hs.lists(hs.sampled_from(["connected", "disconnected"]), max_size=2, unique=True))
    ev_t = draw(hs.lists(hs.sampled_from(ss), max_size=o.max_evs, unique_by=id))
    for t in names + ev_t:
        evs.append(Ev(t, bcs(1, o.max_bcs)))
    return Wf(schema, selfk, asgk, reqs, evs, beacons, list(o.producer), list(o.consumer))


def weight(w):
    n = 0
    for r in w.reqs:
        n += 1 + 2 * len(r.acts) + sum(len(a.bcs) for a in r.acts) + len(r.t.path)
    return n + sum(1 + len(e.bcs) for e in w.evs) + 2 * len(w.beacons) + (w.selfk is not None) + (w.asgk is not None)

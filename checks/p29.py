"""P29: the diagram of a workflow shows exactly what the workflow declares."""
import hashlib
import os
import re
import shutil

from hypothesis import strategies as hs

import schema as S
import wf as W
import wflab as F
from common import Violation, cli, hyp, main

ARROW = re.compile(r"^(Producer|Consumer)\s+(<?[-.>xo\\/]+)\s+(Producer|Consumers?)\s*:\s*(.*)$")
OLD = {"long": "old\n" * 50000, "short": "x", "empty": ""}


def read(text):
    """[(title, [(from, dashed, to, message) or ("==", name)])], or None if this is no diagram."""
    ls = [l.strip() for l in text.split("\n") if l.strip()]
    if len(ls) < 2 or ls[0] != "@startuml" or ls[-1] != "@enduml":
        return None
    out, cur = [], None
    for l in ls[1:-1]:
        if l.startswith("group ") or l == "group":
            if cur is not None:
                return None
            cur = (l[6:].strip(), [])
        elif l == "end":
            if cur is None:
                return None
            out.append(cur)
            cur = None
        elif ARROW.match(l):
            if cur is None:
                return None
            a, arrow, b, m = ARROW.match(l).groups()
            cur[1].append((a, "--" in arrow, b, re.sub(r"<[^>]*>", "", m).strip()))
        elif re.match(r"^==\s*(.*?)\s*==$", l):
            if cur is None:
                return None
            cur[1].append(("==", re.match(r"^==\s*(.*?)\s*==$", l).group(1)))
        elif cur is not None:
            return None
    return out if cur is None else None


def expected(w):
    """Groups of requests, of events, and messages of the beacons."""
    reqs = []
    for r in w.reqs:
        g = [("C>P", W.dotted(r.t)), ("P>C", W.dotted(r.err))]
        for a in r.acts:
            if len(r.acts) > 1:
                g.append(("==", a.concl))
            g.append(("P>C", W.dotted(a.t)))
            g += [("P>C*", W.dotted(b.t), b.opt) for b in a.bcs]
        reqs.append(g)
    evs = [[("P>P", W.dotted(e.t))] + [("P>C*", W.dotted(b.t), None) for b in e.bcs] for e in w.evs]
    return reqs, evs, [("C>P", W.dotted(b)) for b in w.beacons]


def fits(have, want):
    if len(have) != len(want):
        return False
    for h, x in zip(have, want):
        if x[0] == "==" or h[0] == "==":
            if h != x:
                return False
            continue
        a, dashed, b, m = h
        way = {"C>P": ("Consumer", ("Producer",)), "P>C": ("Producer", ("Consumer",)), "P>P": ("Producer", ("Producer",)), "P>C*": ("Producer", ("Consumer", "Consumers"))}[x[0]]
        if a != way[0] or b not in way[1] or m != x[1]:
            return False
        if x[0] == "P>C*" and x[2] is not None and dashed != x[2]:
            return False
    return True


def judge(w, text, fail):
    g = read(text)
    if g is None:
        fail("no-diagram", "the output is no diagram with closed groups")
    reqs, evs, beacons = expected(w)
    kinds = {"req": [], "ev": [], "beacons": []}
    titles = {"req": [], "ev": []}
    for title, ls in g:
        first = next((l for l in ls if l[0] != "=="), None)
        if title == "Beacons":
            kinds["beacons"].append(ls)
        elif first and first[0] == "Producer":
            kinds["ev"].append(ls)
            titles["ev"].append(title)
        else:
            kinds["req"].append(ls)
            titles["req"].append(title)
    for k, want in (("req", reqs), ("ev", evs)):
        # the title of a single answer is optional
        have = [[l for l in ls if l[0] != "==" or len(x) > 0 and any(y[0] == "==" for y in x)] for ls, x in zip(kinds[k], want)] + kinds[k][len(want):]
        if len(have) != len(want):
            fail("groups", f"{len(have)} groups instead of {len(want)}")
        for h, x, t in zip(have, want, titles[k]):
            if not fits(h, x):
                fail("group", f"a group shows {h} instead of {x}")
            # the title names the message, with or without the dots of its path
            if t.replace(".", "") != x[0][1].replace(".", ""):
                fail("title", f"the group of {x[0][1]} is called {t}")
    have = [l for ls in kinds["beacons"] for l in ls if l[3:] not in (("Connected Event",), ("Disconnected Event",))]
    if not fits(have, beacons):
        fail("beacons", f"beacons are shown as {have} instead of {beacons}")


@hs.composite
def runs(draw, w):
    """A permutation of the document, what exists already, flags, a fault."""
    order = draw(hs.permutations(range(len(w.reqs) + len(w.evs) + bool(w.beacons))))
    old = draw(hs.sampled_from([None, None] + sorted(OLD)))
    o = draw(hs.booleans())
    rs = draw(hs.booleans())
    fault = draw(hs.sampled_from([None] * 6 + ["no workflow", "bad workflow", "missing workflow", "bad protocol"]))
    parts = [[draw(hs.sampled_from(["-s", "--src", "--source"])), "a.prot"], [draw(hs.sampled_from(["-d", "--puml"])), draw(hs.sampled_from(["", "./", "sub/../"])) + "out.puml"]]
    if fault != "no workflow":
        parts.append([draw(hs.sampled_from(["-wf", "--workflow"])), "nothing.workflow" if fault == "missing workflow" else "a.workflow"])
    if o:
        parts.append([draw(hs.sampled_from(["-o", "--ow", "--overwrite"]))])
    if rs:
        parts.append([draw(hs.sampled_from(["-rs", "--dest-rs"])), "out.rs"])
    return dict(order=list(order), old=old, o=o, rs=rs, fault=fault, args=[a for p in draw(hs.permutations(parts)) for a in p])


def tree(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(r, f), "rb") as h:
                out[os.path.relpath(os.path.join(r, f), d)] = hashlib.sha256(h.read()).hexdigest()
    return out


def reordered(w, order):
    """w with its declarations in the order of the document."""
    kinds = [("req", r) for r in w.reqs] + [("ev", e) for e in w.evs]
    ks = [kinds[i] for i in order if i < len(kinds)]
    return W.Wf(w.schema, w.selfk, w.asgk, [x for k, x in ks if k == "req"], [x for k, x in ks if k == "ev"], w.beacons, w.producer, w.consumer)


def prop(lab, w, d, rec, seed):
    n = [0]

    def test(c):
        n[0] += 1
        x = os.path.join(d, f"r{n[0]}")
        os.makedirs(os.path.join(x, "sub"))
        text = W.text(w, c["order"])
        rp = {"prot": S.text(w.schema), "workflow": text, "call": c}
        with open(os.path.join(x, "a.prot"), "w") as f:
            f.write(S.text(w.schema) + ("struct {" if c["fault"] == "bad protocol" else ""))
        with open(os.path.join(x, "a.workflow"), "w") as f:
            f.write(text + ("@nothing {" if c["fault"] == "bad workflow" else ""))
        if c["old"] is not None:
            with open(os.path.join(x, "out.puml"), "w") as f:
                f.write(OLD[c["old"]])
        before = tree(x)
        r = cli(lab.exe, c["args"], x)
        after = tree(x)
        rec.case(text + repr(c), bool(w.evs and w.reqs) or c["fault"] is not None or c["old"] is not None, lambda: f"{' '.join(c['args'])}, existing: {c['old']}: rc {r.rc}\n{text[:400]}")

        def fail(sig, why):
            raise Violation(sig, f"clibri {' '.join(c['args'])} ({c['fault']}): {why}\n{r.text()[-600:]}", rp)

        if r.crashed:
            fail("crash", "crashed")
        blocked = c["old"] is not None and not c["o"]
        if c["fault"] or blocked:
            rec.count("refused")
            if r.rc == 0:
                fail("no-failure", "reports success")
            if before != after:
                fail("touched", f"failed, but changed {sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))}")
        else:
            rec.count("diagrams")
            if not r.ok or r.rc != 0:
                fail("refused", "a valid workflow is refused")
            extra = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k) and k not in ["out.puml"] + ["out.rs"] * c["rs"])
            if extra:
                fail("touched", f"changed {extra}")
            if c["rs"] and "out.rs" not in after:
                fail("no-code", "out.rs is not written")
            if "out.puml" not in after:
                fail("no-diagram", "out.puml is not written")
            with open(os.path.join(x, "out.puml"), encoding="utf-8") as f:
                judge(reordered(w, c["order"]), f.read(), fail)
        shutil.rmtree(x)

    hyp(runs(w), test, lab.n, seed)


def check(ctx):
    ctx.rule = ("a case is a call of the generator for the diagram of a workflow in some order of its declarations, with or without an existing output, with or without "
                "--overwrite and another output, or with a fault; non-trivial with requests and events, an existing output or a fault")
    lab = F.WLab(ctx, rust=False)
    lab.n = ctx.pick(15, 40)
    ws = []
    for i, langs in enumerate((["rust"], ["typescript"], ["rust", "typescript"])):
        ws += F.draw_workflows(ctx, ctx.pick(25, 150), W.WOpts(producer=langs, consumer=langs, min_reqs=0), 90 + i)
    F.run_workflows(ctx, lab, ws, prop)


main("P29", check)

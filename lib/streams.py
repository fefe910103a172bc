"""Model of the package reader, and generators of byte streams for it."""
from hypothesis import strategies as hs

import lab as L
import schema as S
from common import Violation

# a piece of a stream: (kind, bytes, message or None); kind: good | sig | id | body
SEQ = hs.one_of(hs.integers(0, 20), hs.integers(0, 2**32 - 1))


def pieces(schema, bad=True, few=3):
    """few: one piece in few + 1 is bad (0: every one)."""
    tv = L.typed_values(schema)
    ids = {t.id for t in schema.types}

    def good(x):
        (t, v), seq, ts = x
        return ("good", S.pack(t, v, seq, ts), (t, v, seq, ts))

    g = hs.tuples(tv, SEQ, hs.integers(0, 2**40)).map(good)
    if not bad:
        return g

    def sig(x):
        (t, v), seq, s = x
        return ("sig", S.pack(t, v, seq, 1, s), None)

    def unknown(x):
        i, body, seq = x
        return ("id", S.header(i, seq, 1, len(body)) + body, None)

    def wrong(x):
        t, seq = x
        return ("body", S.header(t.id, seq, 1, 0), None)       # nothing of what the type needs

    need = [t for t in schema.types if t.kind == "enum" or t.fields]
    alts = [hs.tuples(tv, SEQ, hs.integers(1, 65535)).map(sig),
            hs.tuples(hs.integers(0, 2**32 - 1).filter(lambda i: i not in ids), hs.binary(max_size=40), SEQ).map(unknown)]
    if need:
        alts.append(hs.tuples(hs.sampled_from(need), SEQ).map(wrong))
    b = hs.one_of(*alts)
    return hs.integers(0, few).flatmap(lambda i: b if i == 0 else g)


def cuts(draw, n):
    """How n bytes are cut into chunks."""
    mode = draw(hs.integers(0, 4))
    if mode == 0 or n < 2:
        return []
    if mode == 1 and n <= 400:
        return list(range(1, n))
    return sorted(draw(hs.sets(hs.integers(1, n - 1), max_size=min(12, n - 1))))


@hs.composite
def scripts(draw, schema, bad=True, max_msgs=6):
    """(pieces, steps): steps are chunks and None for taking the next message."""
    if bad and draw(hs.integers(0, 7)) == 0:                  # a long row of bad packages
        ps = draw(hs.lists(pieces(schema, True, 0), min_size=10, max_size=24)) + draw(hs.lists(pieces(schema, True), max_size=3))
    else:
        ps = draw(hs.lists(pieces(schema, bad), min_size=1, max_size=max_msgs))
    raw = b"".join(p[1] for p in ps)
    tail = draw(hs.integers(0, 3))
    if tail == 0 and len(raw) > 1:
        raw = raw[:draw(hs.integers(1, len(raw)))]            # the stream ends inside a package
    # boundaries of packages are interesting places to cut at, and around
    cs = set(cuts(draw, len(raw)))
    pos = 0
    for p in ps:
        pos += len(p[1])
        if draw(hs.integers(0, 2)) == 0:
            c = pos + draw(hs.sampled_from([-1, 0, 0, 1, 25, 26, 27]))
            if 0 < c < len(raw):
                cs.add(c)
    cs = sorted(cs)
    chunks = [raw[a:b] for a, b in zip([0] + cs, cs + [len(raw)])]
    steps = []
    for c in chunks:
        steps.append(c)
        k = draw(hs.integers(0, 5))
        if k == 0:
            steps.append(b"")
        if k >= 3:
            steps.extend([None] * (k - 2))
    steps.extend([None] * (len(ps) + 1))
    return ps, steps


def check_run(name, ps, steps, out, rp, kinds=None):
    """Compares what a reader did with the model."""
    ends, pos = [], 0
    for p in ps:
        pos += len(p[1])
        ends.append(pos)
    got, done, queue = 0, 0, []
    for i, (s, o) in enumerate(zip(steps, out)):
        if s is not None:
            got += len(s)
            bad = []
            while done < len(ps) and ends[done] <= got:
                if ps[done][0] == "good":
                    queue.append(ps[done][2])
                else:
                    bad.append(ps[done][0])
                done += 1
            rest = got - (ends[done - 1] if done else 0)
            _, code, ln, pend = o
            if bool(code) != bool(bad):
                raise Violation("report", f"{name}: step {i}: chunk() answers {'an error' if code else 'no error'} where {bad or 'nothing'} was wrong", rp)
            if kinds and bad and code not in {kinds[k] for k in bad}:
                raise Violation("report-kind", f"{name}: step {i}: chunk() answers error kind {code} for {bad}", rp)
            if pend != len(queue):
                raise Violation("pending", f"{name}: step {i}: {pend} messages wait, expected {len(queue)} (bytes fed {got}, package ends {ends})", rp)
            if ln != rest:
                raise Violation("rest", f"{name}: step {i}: {ln} bytes are kept, expected {rest}", rp)
        else:
            m = o[1]
            if not queue:
                if m is not None:
                    raise Violation("invented", f"{name}: step {i}: a message out of nothing: {m}", rp)
                continue
            t, v, seq, ts = queue.pop(0)
            if m is None:
                raise Violation("lost", f"{name}: step {i}: {L.show_case(t, v)} is not delivered", rp)
            want = (t.idx, t.id, seq, ts, S.W(t, v))
            have = (m["type"], m["id"], m["seq"], m["ts"], m["w"])
            if want != have:
                raise Violation("wrong-message", f"{name}: step {i}: got type {have[0]} id {have[1]} seq {have[2]} ts {have[3]} {have[4].hex()[:120]}, expected {want[0]} {want[1]} {want[2]} {want[3]} {want[4].hex()[:120]}", rp)
            if o[2] != len(queue):
                raise Violation("pending", f"{name}: step {i}: {o[2]} messages wait, expected {len(queue)}", rp)


def replay(b, ps, steps):
    return {"prot": b.text, "pieces": [(p[0], p[1].hex() if len(p[1]) < 2000 else len(p[1])) for p in ps],
            "steps": ["next" if s is None else (s.hex() if len(s) < 2000 else len(s)) for s in steps]}


def nontrivial(ps, steps):
    chunks = [s for s in steps if s]
    return len(ps) >= 2 and len(chunks) >= 2


def show(ps, steps):
    return f"{[p[0] for p in ps]} of {[len(p[1]) for p in ps]} bytes as " + " ".join("next" if s is None else str(len(s)) for s in steps[:40])

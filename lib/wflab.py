"""Workflows turned into running code, in parallel."""
import hashlib
import os
import shutil

import common
import lab as L
import pmodel as P
import schema as S
import tscons as N
import tsmodel as M
import wf as W
import wfcons as C
import wfrust as R
import wfts as T
from common import Violation, build_cli, diverse, hyp, pmap, rustc_path
from tsgen import captured


class WLab:
    def __init__(self, ctx, rust=True):
        self.exe = build_cli(ctx)
        if rust:
            rustc_path()
            self.deps = R.build_deps(ctx)


def hashes(w):
    """Hashes of both documents, which a consumer has to present."""
    return tuple(hashlib.sha256(t.encode()).hexdigest().upper() for t in (S.text(w.schema), W.text(w)))


_state = {}


def _one(arg):
    i, w = arg
    fn, seed, work = _state["fn"], _state["seed"], _state["work"]
    rec = L.Rec()
    if common._found.value >= common.ENOUGH:
        return rec.res()
    d = os.path.join(work, f"w{i}")
    os.makedirs(d, exist_ok=True)
    try:
        fn(_state["lab"], w, d, rec, seed * 1000 + i)
        rec.count("workflows")
    except Violation as v:
        if isinstance(w, W.Wf):
            v.replay.setdefault("workflow", W.text(w))
            v.replay.setdefault("prot", S.text(w.schema))
        rec.viol.append(v)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return rec.res()


def run_workflows(ctx, lab, ws, fn):
    """fn(lab, w, d, rec, seed) over workflows, in parallel."""
    _state.update(lab=lab, fn=fn, seed=ctx.seed, work=ctx.sub("workflows"))
    for r in pmap(_one, list(enumerate(ws))):
        ctx.absorb(r)


def draw_workflows(ctx, n, o=None, salt=0):
    return diverse(W.workflows(o or W.WOpts()), n, ctx.seed + salt, W.weight)


def producer_prop(opts, n, nontrivial):
    """A property function: n histories of the Rust producer of a workflow against the model."""

    def prop(lab, w, d, rec, seed):
        drv = R.build_producer(lab, w, d)
        hh = hashes(w)
        try:
            def test(h):
                m = L.guarded(lambda: L.fresh([drv], lambda: P.play(w, drv, h, hh, lambda: rp(w, h))), "producer", rp(w, h))
                for k, v in m.stat.items():
                    rec.count(k, v)
                rec.case(P.show_hist(w, h) + W.text(w), nontrivial(m.stat, h), lambda: P.show_hist(w, h)[:1500])

            hyp(P.histories(w, hh, opts), test, n, seed)
        finally:
            drv.stop()

    return prop


def run_marathon(play, w, drv, hh, n, rec, seed):
    """Workflows in turn: one call waits for n others."""
    if not n or seed % 1000 >= 4:
        return

    def test(m):
        r = {"prot": S.text(w.schema), "workflow": W.text(w), "call": repr(m[0]), "answers": repr(m[1]), "calls": n}
        L.guarded(lambda: L.fresh([drv], lambda: play(w, drv, m, n, hh, lambda: r)), "marathon", r)
        rec.count("calls in a row", n)
        rec.case(f"{n} calls {m!r} " + W.text(w), True, lambda: f"{n} calls {m[0]!r}, one waits for all the others")

    hyp(C.marathons(w), test, 2, seed)


def consumer_prop(opts, n, nontrivial, many=0):
    """A property function: n histories of the Rust consumer of a workflow against the model."""

    def prop(lab, w, d, rec, seed):
        drv = C.build_consumer(lab, w, d)
        hh = hashes(w)
        try:
            def test(h):
                r = {"prot": S.text(w.schema), "workflow": W.text(w), "history": C.show_hist(w, h)}
                m = L.guarded(lambda: L.fresh([drv], lambda: C.play(w, drv, h, hh, lambda: r)), "consumer", r)
                for k, v in m.stat.items():
                    rec.count(k, v)
                rec.case(C.show_hist(w, h) + W.text(w), nontrivial(m.stat, h), lambda: C.show_hist(w, h)[:1500])

            hyp(C.histories(w, opts), test, n, seed)
            run_marathon(C.marathon, w, drv, hh, many, rec, seed)
        finally:
            drv.stop()

    return prop


def ts_workflows(ctx, n, o=None, salt=0, **kw):
    """Workflows for both TypeScript sides; without names that TypeScript binds to an inner namespace (known finding of P11)."""
    same = dict(producer=["typescript"], consumer=["typescript"],
                schema=S.Opts(max_items=9, max_depth=3, max_fields=4, shadow=False, wide=False, enum_struct_arr=False))
    same.update(kw)
    ws = draw_workflows(ctx, n + n // 4, W.WOpts(**same), salt)
    return [w for w in ws if not captured(w.full)][:n]


def ts_producer_prop(opts, n, nontrivial):
    """A property function: n histories of the TypeScript producer of a workflow against the model."""
    return ts_prop(T.build_producer, lambda w, hh: M.histories(w, hh, opts), M.play, M.show_hist, n, nontrivial)


def ts_consumer_prop(opts, n, nontrivial, many=0):
    """A property function: n histories of the TypeScript consumer of a workflow against the model."""
    return ts_prop(T.build_consumer, lambda w, hh: N.histories(w, opts), N.play, N.show_hist, n, nontrivial, lambda *a: run_marathon(N.marathon, a[0], a[1], a[2], many, *a[3:]))


def ts_prop(build, histories, play, show, n, nontrivial, more=lambda *a: None):
    def prop(lab, w, d, rec, seed):
        drv = build(lab, w, d)
        hh = hashes(w)
        try:
            def test(h):
                r = {"prot": S.text(w.schema), "workflow": W.text(w), "history": show(w, h)}
                m = L.guarded(lambda: L.fresh([drv], lambda: play(w, drv, h, hh, lambda: r)), "TypeScript", r)
                for k, v in m.stat.items():
                    rec.count(k, v)
                rec.case(show(w, h) + W.text(w), nontrivial(m.stat, h), lambda: show(w, h)[:1500])

            hyp(histories(w, hh), test, n, seed)
            more(w, drv, hh, rec, seed)
        finally:
            drv.stop()

    return prop


def rp(w, h):
    return {"prot": S.text(w.schema), "workflow": W.text(w), "history": P.show_hist(w, h)}

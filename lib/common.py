"""Shared plumbing of the checks: scratch folder, builds, evidence, findings, verdicts."""
import atexit
import hashlib
import json
import multiprocessing as mp
import os
import shutil
import struct
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CLIBRI_REPO", "/repo")
RUST = "1.75.0"          # the toolchain the repository is pinned to (Cargo.lock, BUILD.json)
NODE_MODULES = "/opt/veriftools/node/node_modules"
CORES = max(2, min(8, os.cpu_count() or 2))


class Violation(Exception):
    """A property is broken.  sig identifies the root cause for known findings."""

    def __init__(self, sig, text, replay=None):
        super().__init__(f"[{sig}] {text}")
        self.sig, self.text, self.replay = sig, text, replay or {}


class CheckError(Exception):
    """The check could not decide (build failure of the harness, hang, OOM...)."""


def rust_env(target=None):
    env = dict(os.environ)
    env.update(RUSTUP_TOOLCHAIN=RUST, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0",
               CARGO_TERM_COLOR="never")
    env.pop("RUSTFLAGS", None)
    if target:
        env["CARGO_TARGET_DIR"] = target
    return env


def rustc_path():
    p = subprocess.run(["rustup", "which", "--toolchain", RUST, "rustc"], stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True)
    return p.stdout.strip() if p.returncode == 0 and p.stdout.strip() else "rustc"


def h(b):
    if isinstance(b, str):
        b = b.encode("utf-8", "surrogatepass")
    return hashlib.blake2b(b, digest_size=8).hexdigest()


class Ctx:
    def __init__(self, prop, level="exploration"):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"clibri-{prop}-")
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(self.scratch, ignore_errors=True))
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []          # Violation objects
        self.rule = ""
        self.findings = load_findings(prop)
        self.finding_hits = {}

    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick

    def log(self, *a):
        print(f"[{self.prop} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    def sub(self, name):
        d = os.path.join(self.scratch, name)
        os.makedirs(d, exist_ok=True)
        return d

    # -- results of workers -------------------------------------------------
    def absorb(self, res):
        self.evaluations += res.get("evaluations", 0)
        self.distinct.update(res.get("distinct", ()))
        for s in res.get("samples", ()):
            if len(self.samples) < 12:
                self.samples.append(s)
        for k, v in res.get("counts", {}).items():
            self.extra[k] = self.extra.get(k, 0) + v
        for v in res.get("violations", ()):
            self.report(v)

    def report(self, v):
        for sig, what in self.findings:
            if v.sig == sig:
                self.finding_hits.setdefault(sig, what)
                return
        self.violations.append(v)

    def finish(self):
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.distinct),
               "rule": self.rule, "samples": self.samples}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for sig, what in self.findings:
            if sig in self.finding_hits:
                print(f"KNOWN-FINDING: property={self.prop} {what} [{sig}]")
            else:
                print(f"note: listed finding did not show on this tree: {sig}")
        if self.violations:
            seen = set()
            for v in self.violations:
                if v.sig in seen or len(seen) >= 5:
                    continue
                seen.add(v.sig)
                d = os.path.join(VERIF, "replay")
                os.makedirs(d, exist_ok=True)
                path = os.path.join(d, f"{self.prop}-{h(v.sig + v.text)}.json")
                with open(path, "w") as f:
                    json.dump({"property": self.prop, "signature": v.sig, "what": v.text,
                               "seed": self.seed, "tier": self.tier, **v.replay}, f, indent=1, default=str)
                print(f"  {v.sig}: {v.text[:2000]}")
                print(f"VIOLATION property={self.prop} replay={path}", flush=True)
            sys.exit(1)
        self.log(f"ok: {self.evaluations} evaluations, {len(self.distinct)} distinct non-trivial")
        sys.exit(0)


def load_findings(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property="):
                head, _, what = line[len("finding: "):].partition(" | ")
                kv = dict(x.split("=", 1) for x in head.split())
                if kv["property"] == prop:
                    out.append((kv["sig"], what))
    return out


def main(prop, fn, level="exploration"):
    """Runs fn(ctx); every ending other than a decided one is an error exit (2)."""
    ctx = Ctx(prop, level)
    KNOWN.update(sig for sig, _ in ctx.findings)
    try:
        fn(ctx)
    except Violation as v:
        ctx.report(v)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print(f"ERROR property={prop}: the check could not decide", flush=True)
        sys.exit(2)
    ctx.finish()


# -- processes ---------------------------------------------------------------
def sh(cmd, cwd=None, env=None, timeout=600, input=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, input=input, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError(f"timeout: {cmd}")
    return p.returncode, p.stdout.decode("utf-8", "replace")


def build_cli(ctx):
    """Builds the CLI from the working tree into scratch, from nothing."""
    tgt = os.path.join(ctx.scratch, "cli-target")
    rc, out = sh(["cargo", "build", "--offline", "--locked", "--manifest-path",
                  os.path.join(REPO, "cli", "Cargo.toml")], env=rust_env(tgt), timeout=600)
    exe = os.path.join(tgt, "debug", "clibri")
    if rc != 0 or not os.path.exists(exe):
        raise CheckError("the CLI does not build:\n" + out[-3000:])
    ctx.log("cli built")
    return exe


class CliResult:
    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err
        lines = [l for l in out.splitlines() if l.strip()]
        self.ok = rc == 0 and bool(lines) and lines[-1].startswith("[OK]")
        self.crashed = rc not in (0, 1)

    def text(self):
        return f"rc={self.rc}\n{self.out[-1500:]}\n{self.err[-1500:]}"


def cli(exe, args, cwd, timeout=60):
    try:
        p = subprocess.run([exe] + args, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return CliResult(-99, "", f"did not finish within {timeout} s")
    return CliResult(p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace"))


# -- parallel work -----------------------------------------------------------
def _call(job):
    fn, arg = job
    try:
        return ("ok", fn(arg))
    except Violation as v:
        return ("viol", v.sig, v.text, v.replay)
    except BaseException:
        return ("err", traceback.format_exc())


def pmap(fn, args, procs=None):
    """Runs fn over args in forked workers; returns results in order.  Errors raise CheckError."""
    args = list(args)
    if not args:
        return []
    with mp.get_context("fork").Pool(min(procs or CORES, len(args)), maxtasksperchild=1) as pool:
        out = pool.map(_call, [(fn, a) for a in args], chunksize=1)
    res = []
    found = any(o[0] == "viol" or o[0] == "ok" and isinstance(o[1], dict) and o[1].get("violations") for o in out)
    for o in out:
        if o[0] == "err" and found:
            print("note: besides violations, a case could not be decided: " + o[1][-600:], flush=True)
        elif o[0] == "ok":
            res.append(o[1])
        elif o[0] == "viol":
            res.append({"violations": [Violation(*o[1:])]})
        else:
            raise CheckError(o[1])
    return res


# -- hypothesis --------------------------------------------------------------
_found = mp.Value("i", 0)      # violations found so far by all the workers
ENOUGH = 3
KNOWN = set()                   # signatures of known findings of this property


def hyp(strategy, test, n, seed, shrink=True):
    """n generated cases of strategy through test; a Violation comes back shrunk.
    When enough violations are found, what else would be searched isn't."""
    import hypothesis as hy
    import hypothesis.internal.conjecture.engine as engine
    from hypothesis import Phase

    engine.MAX_SHRINKING_SECONDS = 60
    failed, last = [], []

    phases = [Phase.generate] + ([Phase.shrink] if shrink else [])

    @hy.seed(seed)
    @hy.settings(max_examples=n, database=None, deadline=None, phases=phases, report_multiple_bugs=False,
                 suppress_health_check=list(hy.HealthCheck), verbosity=hy.Verbosity.quiet,
                 print_blob=False)
    @hy.given(strategy)
    def run(x):
        if shrink and not failed and _found.value >= ENOUGH:
            return
        try:
            test(x)
        except (ValueError, KeyError, IndexError, AttributeError, TypeError, struct.error) as e:
            # the generated code did something that no model can read
            v = Violation("not-understood", "what was done isn't understood: " + traceback.format_exc()[-1200:], {"case": repr(x)[:20000]})
            note(v)
            raise v from e
        except Violation as v:
            note(v)
            raise

    def note(v):
        last[:] = [v]
        if not failed and v.sig not in KNOWN:
            failed.append(1)
            with _found.get_lock():
                _found.value += 1

    try:
        run()
    except hy.errors.Flaky:
        # what depends on the order in which tasks run doesn't always fail again: it has failed all the same
        if not last:
            raise
        raise last[0] from None


def sample(strategy, n, seed):
    """n values of a strategy, a pure function of the seed."""
    out = []
    hyp(strategy, out.append, n, seed, shrink=False)
    return out


def diverse(strategy, n, seed, score=None, per=6):
    """n values, each the best of a few drawn from a seed of its own (Hypothesis alone repeats itself)."""
    out, seen = [], set()
    i = 0
    while len(out) < n and i < 4 * n:
        xs = sample(strategy, per, seed * 100003 + i)
        i += 1
        xs = xs[1:] or xs
        x = max(xs, key=score) if score and i % 3 else xs[-1]
        k = repr(x)
        if k in seen:
            continue
        seen.add(k)
        out.append(x)
    return out


def unpickle_violation(sig, text, replay):
    return Violation(sig, text, replay)


def _reduce(self):
    return (unpickle_violation, (self.sig, self.text, self.replay))


Violation.__reduce__ = _reduce

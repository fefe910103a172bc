"""Plants bugs in a scratch copy of the repository, confirms them and keeps them in seeded/ (run by hand).

   plant.py make SPEC.py...   a spec sets ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], FILES {name: text}
   plant.py check ID... [-- P01 P02]   runs the demo on a clean and a patched copy, build, tests, and the check
"""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "/tmp/seed"


def sh(cmd, **k):
    p = subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    return p.returncode, p.stdout


def copy(d):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.dirname(d), exist_ok=True)
    assert sh(["cp", "-a", "/repo", d])[0] == 0


def jail(d, cmd, work):
    """Runs cmd with the copy d in the place of /repo."""
    return sh(["unshare", "-Urmn", "sh", "-c", f"python3 {V}/tools/lo.py && mount --bind {d} /repo && mount --bind {work} /opt/vp/work && cd /repo && {cmd}"])


def make(spec):
    g = {}
    exec(open(spec).read(), g)
    d = os.path.join(BASE, "mk-" + g["ID"])
    copy(d)
    for f, old, new in g["EDITS"]:
        p = os.path.join(d, f)
        s = open(p).read()
        if s.count(old) != 1:
            raise SystemExit(f"{g['ID']}: {f}: {s.count(old)} matches of {old!r}")
        open(p, "w").write(s.replace(old, new))
    rc, diff = sh(["git", "diff"], cwd=d)
    o = os.path.join(V, "seeded", g["ID"])
    shutil.rmtree(o, ignore_errors=True)
    os.makedirs(o)
    open(os.path.join(o, "patch.diff"), "w").write(diff)
    json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]},
              open(os.path.join(o, "meta.json"), "w"), indent=1)
    for n, t in g["FILES"].items():
        p = os.path.join(o, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write(t)
        if n.endswith(".sh"):
            os.chmod(p, 0o755)
    shutil.rmtree(d)
    return g["ID"]


def check(i, props=None):
    o = os.path.join(V, "seeded", i)
    d = os.path.join(BASE, "ck-" + i)
    w = os.path.join(BASE, "work-" + i)
    demo = os.path.join(BASE, "demo-" + i)
    res = {"id": i}
    try:
        shutil.rmtree(demo, ignore_errors=True)
        shutil.rmtree(w, ignore_errors=True)
        sh(["cp", "-a", "/opt/vp/work", w])
        shutil.copytree(o, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        copy(d)
        rc, out = jail(d, f"sh {demo}/demo.sh", w)
        res["demo clean"] = "ok" if rc == 0 else "WRONG " + out[-1500:]
        rc, out = sh(["git", "apply", os.path.join(o, "patch.diff")], cwd=d)
        assert rc == 0, out
        # the tests end processes by name: one run at a time
        rc, out = jail(d, f"bash /opt/vp/build.sh && flock /tmp/seed/lock bash /opt/vp/test.sh {w}/out.json", w)
        b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        miss = set(b) - set(json.load(open(w + "/out.json"))["passed"]) if rc == 0 else {"build " + out[-1500:]}
        res["tests"] = "ok" if not miss else f"WRONG {sorted(miss)[:5]}"
        rc, out = jail(d, f"sh {demo}/demo.sh", w)
        res["demo patched"] = "ok" if rc != 0 else "WRONG"
        res["demo says"] = out.strip()[-200:]
        sh(["git", "clean", "-fdq"], cwd=d)
        prop = json.load(open(os.path.join(o, "meta.json")))["property"]
        for p in props if props is not None else [prop]:
            env = dict(os.environ, CLIBRI_REPO=d, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
            rc, out = sh(["./run", p], cwd=V, env=env)
            v = [x for x in out.splitlines() if x.startswith("VIOLATION")]
            res[p] = f"caught: {out.strip().splitlines()[-2][:160] if len(out.strip().splitlines()) > 1 else ''}" if rc == 1 and v else f"MISSED rc={rc} {out[-300:]}"
    finally:
        for x in (d, w, demo):
            shutil.rmtree(x, ignore_errors=True)
    return res


if __name__ == "__main__":
    if sys.argv[1] == "make":
        for s in sys.argv[2:]:
            print(make(s))
    else:
        a = sys.argv[2:]
        props = None
        if "--" in a:
            k = a.index("--")
            a, props = a[:k], a[k + 1:]
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex:
            for r in ex.map(lambda i: check(i, props), a):
                print(json.dumps(r, indent=1), flush=True)

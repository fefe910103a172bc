"""Runs the TypeScript code generated for a schema under node, behind js/driver.js."""
import json
import os
import re
import struct as st

import schema as S
from common import CheckError, NODE_MODULES, VERIF, sh
from proc import Crash, Hang, Proc
from rustgen import RustDriver

BIN = os.path.join(NODE_MODULES, ".bin")


def transpile(ts, js, timeout=120):
    """One module, types erased. -> (rc, output)"""
    return sh([os.path.join(BIN, "esbuild"), ts, "--format=cjs", "--target=es2022", "--log-level=error",
               "--tsconfig-raw={\"compilerOptions\":{\"useDefineForClassFields\":false}}",
               "--outfile=" + js], timeout=timeout)


def typecheck(files, cwd, timeout=300, extra=()):
    """Diagnostics of the type checker, without those that newer library typings bring in."""
    rc, out = sh([os.path.join(BIN, "tsc"), "--noEmit", "--target", "es2020", "--module", "commonjs",
                  "--moduleResolution", "node", "--strict", "--skipLibCheck", "--types", "node", "--typeRoots",
                  os.path.join(NODE_MODULES, "@types"), "--pretty", "false", *extra, *files], cwd=cwd, timeout=timeout)
    errs, cur = [], None
    for line in out.splitlines():
        if re.match(r"\S+\(\d+,\d+\): error ", line):
            cur = [line]
            errs.append(cur)
        elif cur is not None:
            cur.append(line)
    if rc != 0 and not errs:
        raise CheckError("the type checker failed: " + out[-1000:])
    res = []
    for e in errs:
        t = "\n".join(e)
        if "SharedArrayBuffer" in t or "WithImplicitCoercion" in t:
            continue
        res.append(t)
    return res


class TsError(Exception):
    """The generated code threw where it may not, or gave a value of a wrong shape."""


class TsDriver(RustDriver):
    def __init__(self, js, desc, schema):
        Proc.__init__(self, ["node", "--max-old-space-size=1024", os.path.join(VERIF, "js", "driver.js"), js, desc])
        self.schema = schema

    def op(self, payload):
        r = self.call(payload)
        if r[:1] in (b"\x02", b"\x03"):
            t = r[1:].decode("utf-8", "replace")
            if "harness:" in t:
                raise CheckError(t)
            raise TsError(t)
        return S.Rd(r[1:])

    def dec(self, t, b):
        ok, v = self._res(self.op(b"\x02" + st.pack("<HI", t.idx, len(b)) + b))
        return ok, v, 0

    def from_bytes(self, t, b):
        return self._res(self.op(b"\x0d" + st.pack("<HI", t.idx, len(b)) + b))

    def from_obj(self, t, w):
        return self._res(self.op(b"\x09" + st.pack("<H", t.idx) + w))

    def mutate(self, t, a, w):
        return self._res(self.op(b"\x0a" + st.pack("<HI", t.idx, len(a)) + a + w))

    def edit(self, t, a, w):
        """[(ok, bytes or text)]: w reached by changes in place of a decoded value and of defaults"""
        r = self.op(b"\x0e" + st.pack("<HI", t.idx, len(a)) + a + st.pack("<I", len(w)) + w)
        out = []
        while r.p < len(r.b):
            ok = r.take(1) == b"\0"
            x = r.take(r.u("<I"))
            out.append((ok, x if ok else x.decode("utf-8", "replace")))
        return out

    def dec_twice(self, t, a, b):
        return self._res(self.op(b"\x0b" + st.pack("<HI", t.idx, len(a)) + a + st.pack("<I", len(b)) + b))

    def wrong(self, t, k, what, element, w, i=0, j=0):
        return self._res(self.op(b"\x0c" + st.pack("<HHB", t.idx, k, what) + w + bytes([element]) + st.pack("<HH", i, j)))

    def stream(self, steps, uuid=None, kinds=None):
        p = [b"\x04", self.uuid(uuid), st.pack("<I", len(steps))]
        for i, s in enumerate(steps):
            k = 0 if kinds is None else (0, 2, 3)[kinds[i % len(kinds)] % 3]
            p.append(b"\x01" if s is None else bytes([k]) + st.pack("<I", len(s)) + s)
        r = self.op(b"".join(p))
        out = []
        for s in steps:
            if s is not None:
                out.append(("chunk", r.u("<I"), r.u("<I"), r.u("<I")))
            else:
                m = None
                if r.take(1) == b"\x01":
                    m = dict(id=r.u("<I"), seq=r.u("<I"), ts=r.u("<Q"))
                    m["type"] = r.u("<H")
                    m["w"] = r.take(r.u("<I"))
                out.append(("next", m, r.u("<I")))
        return out, 0


def captured(schema):
    """A reference that TypeScript's own lookup would bind to another declaration: generated code names a
    type by its path from the root, and an inner namespace may hold the first name of that path."""
    names = {}
    for t in schema.types:
        names.setdefault(tuple(t.path[:-1]), set()).add(t.path[-1])
    for g in schema.groups:
        names.setdefault(tuple(g.path[:-1]), set()).add(g.path[-1])

    def refs(t, seen):
        for x in (t.fields if t.kind == "struct" else t.variants):
            if x.ty is not None and not isinstance(x.ty, str):
                yield x.ty.to
                if id(x.ty.to) not in seen:
                    seen.add(id(x.ty.to))
                    yield from refs(x.ty.to, seen)

    for t in schema.types:
        for to in list(refs(t, set())) + [t]:
            for d in range(len(t.path) - 1, 0, -1):
                if to.path[0] in names.get(tuple(t.path[:d]), ()):
                    # bound to t.path[:d] + to.path: fine only when that is the same declaration
                    if t.path[:d] + to.path != to.path:
                        return True
    return False

"""Reference reader of .workflow documents: text -> Wf, Invalid, or Unclear (no claim either way)."""
import schema as S
import wf as W
from parse import Invalid, Unclear

PUNCT = "{}();?.:>!"
WS = " \t\n\r\x0c"
KEYWORDS = {"rust", "typescript", "Producer", "Consumer", "SelfKey", "AssignedKey"}
RUST_WORDS = {"as", "async", "await", "break", "const", "continue", "crate", "dyn", "else", "enum", "extern", "false", "fn", "for", "if",
              "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "Self", "static", "struct", "super",
              "trait", "true", "type", "unsafe", "use", "where", "while", "abstract", "become", "box", "do", "final", "macro", "override",
              "priv", "typeof", "unsized", "virtual", "yield", "try"}


def tokenize(text):
    """Words (with a leading & or @ kept), punctuation.  # starts a comment, which lasts until the end of the line."""
    out, i, n = [], 0, len(text)
    while i < n:
        c = text[i]
        if c == "#":
            while i < n and text[i] != "\n":
                i += 1
        elif c in WS:
            i += 1
        elif c in PUNCT:
            out.append(c)
            i += 1
        elif c.isascii() and (c.isalpha() or c in "_&@"):
            j, w = i + 1, c
            while j < n and text[j] not in WS + PUNCT:
                if text[j] == "#":
                    # a comment inside of a word: what follows the comment is a new line
                    break
                w += text[j]
                j += 1
            if not all(x.isascii() and (x.isalnum() or x == "_") for x in w[1:]):
                raise Invalid(f"character in {w!r}")
            if w in "&@":
                raise Unclear("a mark without a name")
            out.append(w)
            i = j
        else:
            raise Invalid(f"character {c!r}")
    return out


class Reader:
    def __init__(self, text, schema):
        self.tk, self.i, self.schema = tokenize(text), 0, schema

    def peek(self):
        return self.tk[self.i] if self.i < len(self.tk) else None

    def take(self):
        if self.i >= len(self.tk):
            raise Invalid("end of document")
        self.i += 1
        return self.tk[self.i - 1]

    def expect(self, p):
        x = self.take()
        if x != p:
            raise Invalid(f"{x} instead of {p}")

    def word(self):
        x = self.take()
        if x in PUNCT:
            raise Invalid(f"{x} instead of a name")
        if x[0] in "&@":
            raise Invalid(f"{x} inside of a declaration")
        return x

    def path(self, first=None):
        ps = [first or self.word()]
        while self.peek() == ".":
            self.take()
            ps.append(self.word())
        x = self.peek()
        if x is not None and x not in PUNCT and x[0] not in "&@":
            raise Unclear("names without a dot between")
        return ".".join(ps)

    def ref(self, p):
        if p.split(".")[0] == W.SERVICE:
            raise Unclear("a reference to a service message")
        try:
            t = self.schema.by_path(p)
        except KeyError:
            raise Invalid(f"{p} is not defined")
        if isinstance(t, S.Enum):
            raise Unclear("an enum as a message")
        return t

    def broadcasts(self, opt):
        """( > path [?] ; )+  with the first > already seen."""
        out = []
        while True:
            p = self.path()
            o = False
            if opt and self.peek() == "?":
                self.take()
                o = True
            self.expect(";")
            out.append((p, o))
            if self.peek() != ">":
                return out
            self.take()

    def bcs(self, ps):
        if len({p for p, _ in ps}) != len(ps):
            raise Invalid("the same broadcast twice")
        return [W.Bc(self.ref(p), o) for p, o in ps]

    def config(self):
        self.expect("{")
        got = {}
        while self.peek() != "}":
            k = self.word()
            if k not in ("Producer", "Consumer", "SelfKey", "AssignedKey"):
                raise Invalid(f"property {k}")
            if k in got:
                raise Invalid(f"{k} twice")
            self.expect(":")
            if k in ("Producer", "Consumer"):
                ts = [self.word()]
                while self.peek() != ";":
                    ts.append(self.word())
                if len(set(ts)) != len(ts) or set(ts) - {"rust", "typescript"}:
                    raise Invalid(f"targets {ts}")
                got[k] = ts
            else:
                got[k] = self.path()
            self.expect(";")
        self.expect("}")
        for k in ("Producer", "Consumer"):
            if k not in got:
                raise Invalid(f"no {k}")
        return [self.ref(got[k]) if k in got else None for k in ("SelfKey", "AssignedKey")] + [got["Producer"], got["Consumer"]]

    def request(self, first):
        p = self.path(first)
        if self.peek() in (";", "{"):
            raise Unclear("a request without an answer")
        self.expect("!")
        e = self.path()
        if self.peek() == ";":
            raise Unclear("a request without an answer")
        self.expect("{")
        acts = []
        while True:
            if self.peek() == "}" and acts:
                self.take()
                break
            self.expect("(")
            a, concl = self.path(), None
            if self.peek() == ">":
                self.take()
                concl, a = a, self.path()
                if "." in concl:
                    raise Invalid("a conclusion with a dot")
                if concl in ("Err",) or concl in RUST_WORDS:
                    raise Unclear("a reserved name of a conclusion")
            self.expect(")")
            bs = []
            if self.peek() == ">":
                self.take()
                bs = self.broadcasts(True)
            else:
                self.expect(";")
            acts.append((concl, a, bs))
        if len(acts) > 1 and any(c is None for c, _, _ in acts):
            raise Invalid("several answers without a conclusion")
        cs = [c or "Response" for c, _, _ in acts]
        if len(set(cs)) != len(cs):
            raise Invalid("the same conclusion twice")
        ts = [a for _, a, _ in acts] + [e]
        r = W.Req(self.ref(p), self.ref(e), [W.Act(c, self.ref(a), self.bcs(b)) for c, a, b in acts])
        if len(set(ts)) != len(ts):
            raise Unclear("answers of the same type")
        return r

    def read(self):
        conf, reqs, evs, beacons = None, [], [], []
        while self.peek() is not None:
            x = self.take()
            if x in PUNCT:
                raise Invalid(f"{x} outside of a declaration")
            if x == "&config":
                if conf:
                    raise Invalid("a second config")
                conf = self.config()
            elif x[0] == "&":
                raise Invalid(x)
            elif x == "@beacons":
                self.expect("{")
                self.expect(">")
                ps = self.broadcasts(False)
                self.expect("}")
                beacons += [self.ref(p) for p, _ in ps]
            elif x[0] == "@":
                p = self.path(x[1:])
                if p[0].isdigit():
                    raise Unclear("a name with a digit first")
                self.expect("{")
                self.expect(">")
                bs = self.broadcasts(True)
                self.expect("}")
                evs.append(W.Ev(p if p in ("connected", "disconnected") else self.ref(p), self.bcs(bs)))
            else:
                reqs.append(self.request(x))
        if conf is None:
            raise Invalid("no config")
        for what, ts in (("request", [r.t for r in reqs]), ("event", [e.t for e in evs]), ("beacon", beacons)):
            ns = [W.dotted(t) for t in ts]
            if len(set(ns)) != len(ns):
                raise Invalid(f"the same {what} twice")
        if set(map(W.dotted, beacons)) & {W.dotted(r.t) for r in reqs}:
            raise Invalid("a beacon is a request also")
        return W.Wf(self.schema, conf[0], conf[1], reqs, evs, beacons, conf[2], conf[3])


def parse(text, schema):
    return Reader(text, schema).read()

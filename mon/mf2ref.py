"""Reference MessageFormat 2 (LDML 46.1) reader, written from the ABNF as regular expressions.

The grammar is not recursive (patterns do not nest), so well-formedness is one regular expression.
Tolerance: any number of bidi controls where a name allows one."""
from __future__ import annotations

import re

from moz.l10n.model import CatchallKey, Expression, Markup, PatternMessage, SelectMessage, VariableRef

BIDI = "\u061c\u200e\u200f\u2066-\u2069"
WS = " \t\r\n\u3000"
B = f"[{BIDI}]*+"
O = f"[{WS}{BIDI}]*+"
S = f"(?:{B}[{WS}]{O})"
START = ("A-Za-z_\u00c0-\u00d6\u00d8-\u00f6\u00f8-\u02ff\u0370-\u037d\u037f-\u061b\u061d-\u1fff\u200c-\u200d\u2070-\u218f"
         "\u2c00-\u2fef\u3001-\ud7ff\uf900-\ufdcf\ufdf0-\ufffc\U00010000-\U000effff")
BARE = f"[{START}][{START}0-9\\-.\u00b7\u0300-\u036f\u203f-\u2040]*+"
NAME = f"{B}{BARE}{B}"
NUM = r"-?(?:0|[1-9][0-9]*+)(?:\.[0-9]++)?(?:[eE][-+]?[0-9]++)?"
QUOTED = r"\|(?:[^\\|\x00]|\\[\\{|}])*+\|"
LIT = f"(?:{QUOTED}|{NAME}|{NUM})"
VAR = f"\\${NAME}"
IDENT = f"{NAME}(?::{NAME})?"
OPT = f"{IDENT}{O}={O}(?:{LIT}|{VAR})"
ATTR = f"@{IDENT}(?:{O}={O}{LIT})?"
FN = f":{IDENT}(?:{S}{OPT})*"
EXPR = f"\\{{{O}(?:(?:{LIT}|{VAR})(?:{S}{FN})?|{FN})(?:{S}{ATTR})*{O}\\}}"
VEXPR = f"\\{{{O}{VAR}(?:{S}{FN})?(?:{S}{ATTR})*{O}\\}}"
MARKUP = f"\\{{{O}(?:#{IDENT}(?:{S}{OPT})*(?:{S}{ATTR})*{O}/?|/{IDENT}(?:{S}{OPT})*(?:{S}{ATTR})*{O})\\}}"
TEXT = r"(?:[^\\{}\x00]|\\[\\{|}])"
PATTERN = f"(?:{TEXT}|{EXPR}|{MARKUP})*"
QP = f"\\{{\\{{{PATTERN}\\}}\\}}"
DECL = f"(?:\\.input{O}{VEXPR}|\\.local{S}{VAR}{O}={O}{EXPR})"
KEY = f"(?:{LIT}|\\*)"
VARIANT = f"{KEY}(?:{S}{KEY})*{O}{QP}"
MATCH = f"\\.match(?:{S}{VAR})+{S}{VARIANT}(?:{O}{VARIANT})*"
COMPLEX = re.compile(f"{O}(?:{DECL}{O})*(?:{QP}|{MATCH}){O}")
SIMPLE = re.compile(f"(?!{O}\\.)(?!{O}\\{{\\{{){PATTERN}")

r = {k: re.compile(v) for k, v in dict(o=O, s=S, name=NAME, bare=BARE, lit=LIT, quoted=QUOTED, var=VAR, ident=IDENT, opt=OPT, attr=ATTR, key=KEY).items()}


class Bad(Exception):
    """Not a well-formed and valid message."""


class DontCare(Exception):
    """The specification does not make this an error."""


class _P:
    def __init__(self, s):
        self.s, self.p = s, 0

    def at(self, x):
        return self.s.startswith(x, self.p)

    def eat(self, x):
        assert self.at(x), (self.s, self.p, x)
        self.p += len(x)

    def m(self, k):
        m = r[k].match(self.s, self.p)
        if m is None:
            return None
        self.p = m.end()
        return m[0]

    def name(self):
        return _bare(self.m("name"))

    def ident(self):
        return ":".join(_bare(x) for x in self.m("ident").split(":"))

    def lit(self):
        x = self.m("lit")
        return _lit(x)

    def value(self):
        if self.at("$"):
            self.p += 1
            return VariableRef(self.name())
        return self.lit()

    def spaced(self, k):
        """Does s followed by k match here?  Moves to k if so."""
        m = r["s"].match(self.s, self.p)
        if m and r[k].match(self.s, m.end()):
            self.p = m.end()
            return True
        return False

    def opts(self):
        res = {}
        while self.spaced("opt"):
            k = self.ident()
            self.m("o"); self.eat("="); self.m("o")
            if k in res:
                raise Bad("duplicate option")
            res[k] = self.value()
        return res

    def attrs(self):
        res, dup = {}, False
        while self.spaced("attr"):
            self.eat("@")
            k = self.ident()
            dup = dup or k in res
            q = self.p
            self.m("o")
            if self.at("="):
                self.p += 1
                self.m("o")
                res[k] = self.lit()
            else:
                self.p = q
                res[k] = True
        if dup:
            raise DontCare("duplicate attribute")
        return res

    def placeholder(self):
        self.eat("{"); self.m("o")
        c = self.s[self.p]
        if c in "#/":
            self.p += 1
            n = self.ident()
            o, a = self.opts(), self.attrs()
            self.m("o")
            kind = "open" if c == "#" else "close"
            if self.at("/"):
                self.p += 1
                kind = "standalone"
            self.eat("}")
            return Markup(kind, n, o, a)
        arg, fn, o = None, None, {}
        if c != ":":
            arg = self.value()
            q = self.p
            self.m("s")
            if not self.at(":"):
                self.p = q
        if self.at(":"):
            self.p += 1
            fn = self.ident()
            o = self.opts()
        a = self.attrs()
        self.m("o"); self.eat("}")
        return Expression(arg, fn, o, a)

    def pattern(self):
        out, buf = [], ""
        while self.p < len(self.s) and self.s[self.p] != "}":
            c = self.s[self.p]
            if c == "{":
                if buf:
                    out.append(buf)
                    buf = ""
                out.append(self.placeholder())
            elif c == "\\":
                buf += self.s[self.p + 1]
                self.p += 2
            else:
                buf += c
                self.p += 1
        if buf:
            out.append(buf)
        return out

    def qp(self):
        self.m("o")
        self.eat("{{")
        x = self.pattern()
        self.eat("}}")
        return x


def _bare(x):
    return r["bare"].search(x)[0]


def _lit(x):
    if x.startswith("|"):
        return re.sub(r"\\(.)", r"\1", x[1:-1], flags=re.S)
    m = r["bare"].search(x)
    return m[0] if m and not re.fullmatch(NUM, x) else x


def read(src: str):
    """The message that `src` denotes; raises Bad or DontCare."""
    p = _P(src)
    if SIMPLE.fullmatch(src):
        return PatternMessage(p.pattern())
    if not COMPLEX.fullmatch(src):
        raise Bad("not well-formed")
    p.m("o")
    decl, seen = {}, set()
    while p.at(".input") or p.at(".local"):
        kind = p.s[p.p + 1]
        p.p += 6
        if kind == "i":
            p.m("o")
            e = p.placeholder()
            n = e.arg.name
            own = set()
        else:
            p.m("s"); p.eat("$")
            n = p.name()
            p.m("o"); p.eat("="); p.m("o")
            e = p.placeholder()
            own = {e.arg.name} if isinstance(e.arg, VariableRef) else set()
        own |= {v.name for v in e.options.values() if isinstance(v, VariableRef)}
        if n in seen or n in own:
            raise Bad("duplicate declaration")
        seen |= own | {n}
        decl[n] = e
        p.m("o")
    if p.at(".match"):
        p.p += 6
        sels = []
        while p.spaced("var"):
            p.eat("$")
            sels.append(p.name())
        for x in sels:
            if not annotated(decl, x):
                raise Bad("selector annotation")
        p.m("o")
        variants = {}
        while p.p < len(src):
            keys = []
            while not p.at("{{"):
                k = p.m("key")
                keys.append(CatchallKey() if k == "*" else _lit(k))
                p.m("o")
            if len(keys) != len(sels):
                raise Bad("key count")
            if tuple(keys) in variants:
                raise Bad("duplicate variant")
            variants[tuple(keys)] = p.qp()
            p.m("o")
        if tuple(CatchallKey() for _ in sels) not in variants:
            raise Bad("fallback")
        return SelectMessage(decl, tuple(VariableRef(x) for x in sels), variants)
    return PatternMessage(p.qp(), decl)


def annotated(decl, name):
    seen = set()
    while name in decl and name not in seen:
        seen.add(name)
        e = decl[name]
        if e.function is not None:
            return True
        if not isinstance(e.arg, VariableRef):
            return False
        name = e.arg.name
    return False


# --- generators -------------------------------------------------------------------------------

NAMES = ["x", "y", "foo", "b-1", "_z", "a.b", "é", "漢字", "x\u0301", "𝒳", "n\u00b79", "Ω_", "input", "local", "match", "E1", "a\u203f", "n0", "x-10"]
LITS = ["", " ", "x", "0", "1", "-1", "1.5", "-0.10", "1e5", "1E-3", "01", "1.", ".5", "+1", "1 5", "1}5", "1x", "1.x", "٣", "1٣", "1.٣", "a b", "a|b", "a\\b", "\\", "|", "{}",
        "}}", "{{", "*", "$x", ":fn", "@a", "#b", "/c", "\n", "é", "a.b", "a:b", "-", "1e", "0x1", "\u200e", "x\u200e", "\u2028", "true", "=", "one", "other", "few", "-a", "10", "00", "1\n5", "1e5.5", "x "]
TEXTS = ["a", "foo bar", " ", "", ".", ".input", " .local", "\\", "{", "}", "{{", "}}", "|", "@", "$x", "#", "\n", "\t.match", "\u3000.x", "\u200e.x", "\u2068", "é", "\u2028", "x.", "*", "😀", "\r\n", "\x01", "  .", "{$x}", "\\{"]


def name(rng):
    return rng.choice(NAMES)


def ident(rng):
    return name(rng) + (":" + name(rng) if rng.random() < 0.15 else "")


def lit(rng):
    return rng.choice(LITS) if rng.random() < 0.8 else "".join(rng.choice("ab1-. |\\{}é") for _ in range(rng.randint(1, 5)))


def value(rng, names=None):
    return VariableRef(rng.choice(names) if names else name(rng)) if rng.random() < 0.35 else lit(rng)


def opts(rng, names=None):
    n = rng.choice([0, 0, 0, 1, 1, 2, 3])
    return {ident(rng): value(rng, names) for _ in range(n)}


def attrs(rng):
    n = rng.choice([0, 0, 0, 0, 1, 2])
    return {ident(rng): (True if rng.random() < 0.4 else lit(rng)) for _ in range(n)}


def expr(rng):
    r = rng.random()
    arg = None if r < 0.15 else value(rng)
    fn = ident(rng) if arg is None or rng.random() < 0.5 else None
    return Expression(arg, fn, opts(rng) if fn else {}, attrs(rng))


def markup(rng):
    return Markup(rng.choice(["open", "close", "standalone"]), ident(rng), opts(rng), attrs(rng))


def pattern(rng, n=4, joined=False):
    out = []
    for _ in range(rng.randint(0, n)):
        r = rng.random()
        x = rng.choice(TEXTS) if r < 0.55 else expr(rng) if r < 0.85 else markup(rng)
        if joined and isinstance(x, str):
            if not x:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += x
                continue
        out.append(x)
    return out


def message(rng, joined=False):
    """A valid message, with declarations in dependency order."""
    sel = rng.random() < 0.45
    nd = rng.choice([0, 0, 1, 2, 4]) if not sel else rng.choice([1, 2, 3, 4])
    names = rng.sample(NAMES, min(len(NAMES), nd))
    decl, done = {}, []
    for n in names:
        free = [x for x in NAMES if x not in names]
        refs = done + free[:3]
        fn = ident(rng) if rng.random() < 0.7 else None
        o = {ident(rng): value(rng, refs) for _ in range(rng.choice([0, 0, 1, 2]))} if fn else {}
        if rng.random() < 0.5:
            e = Expression(VariableRef(n), fn, o, attrs(rng))
        else:
            arg = value(rng, refs) if fn is None or rng.random() < 0.7 else None
            e = Expression(arg, fn, o, attrs(rng))
        decl[n] = e
        done.append(n)
    if sel:
        ok = [n for n in decl if annotated(decl, n)]
        if not ok:
            n = names[-1]
            decl[n] = Expression(VariableRef(n), "number")
            ok = [n]
        sels = tuple(VariableRef(rng.choice(ok)) for _ in range(rng.choice([1, 1, 1, 2, 3])))
        variants = {}
        for _ in range(rng.randint(0, 4)):
            variants[tuple(CatchallKey() if rng.random() < 0.3 else lit(rng) for _ in sels)] = pattern(rng, 3, joined)
        variants[tuple(CatchallKey() for _ in sels)] = pattern(rng, 3, joined)
        items = list(variants.items())
        rng.shuffle(items)
        return SelectMessage(decl, sels, dict(items))
    return PatternMessage(pattern(rng, 4, joined), decl)


class Writer:
    """Writes a message in one of the many ways the grammar allows."""

    def __init__(self, rng, wild=0.3):
        self.rng, self.wild = rng, wild

    def w(self, opts, default):
        return self.rng.choice(opts) if self.rng.random() < self.wild else default

    def o(self, d=""):
        return self.w(["", " ", "\n", "\t ", "\u3000", "\r\n", "\u200e", "\u2066 \u2069", "\u061c"], d)

    def s(self):
        return self.w([" ", "\n", "  ", "\u200f ", "\u3000", " \u200e", "\t\r\n"], " ")

    def name(self, n):
        return self.w(["\u200e", "\u2068", ""], "") + n + self.w(["\u200e", "\u2069", ""], "")

    def ident(self, i):
        return ":".join(self.name(x) for x in i.split(":"))

    def lit(self, v):
        if re.fullmatch(BARE, v) or re.fullmatch(NUM, v):
            if self.rng.random() < 0.6:
                return v
        return "|" + "".join("\\" + c if c in "\\|" or (c in "{}" and self.rng.random() < self.wild) else c for c in v) + "|"

    def value(self, v):
        return "$" + self.name(v.name) if isinstance(v, VariableRef) else self.lit(v)

    def opts(self, o):
        return "".join(self.s() + self.ident(k) + self.o() + "=" + self.o() + self.value(v) for k, v in o.items())

    def attrs(self, a):
        return "".join(self.s() + "@" + self.ident(k) + ("" if v is True else self.o() + "=" + self.o() + self.lit(v)) for k, v in a.items())

    def part(self, x):
        if isinstance(x, str):
            return "".join("\\" + c if c in "\\{}" or (c == "|" and self.rng.random() < self.wild) else c for c in x)
        if isinstance(x, Markup):
            return ("{" + self.o() + ("/" if x.kind == "close" else "#") + self.ident(x.name) + self.opts(x.options) + self.attrs(x.attributes)
                    + self.o() + ("/}" if x.kind == "standalone" else "}"))
        out = "{" + self.o()
        if x.arg is not None:
            out += self.value(x.arg)
        if x.function is not None:
            out += (self.s() if x.arg is not None else "") + ":" + self.ident(x.function) + self.opts(x.options)
        return out + self.attrs(x.attributes) + self.o() + "}"

    def pat(self, p):
        return "".join(self.part(x) for x in p)

    def qp(self, p):
        return "{{" + self.pat(p) + "}}"

    def message(self, m):
        if isinstance(m, PatternMessage) and not m.declarations:
            src = self.pat(m.pattern)
            if SIMPLE.fullmatch(src) and self.rng.random() < 0.6:
                return src
        out = self.o()
        for n, e in m.declarations.items():
            if e.arg == VariableRef(n):
                out += ".input" + self.o(" ") + self.part(e)
            else:
                out += ".local" + self.s() + "$" + self.name(n) + self.o(" ") + "=" + self.o(" ") + self.part(e)
            out += self.o("\n")
        if isinstance(m, PatternMessage):
            return out + self.qp(m.pattern) + self.o()
        out += ".match" + "".join(self.s() + "$" + self.name(v.name) for v in m.selectors) + self.s()
        return out + self.o("\n").join(
            self.s().join("*" if isinstance(k, CatchallKey) else self.lit(k) for k in ks) + self.o(" ") + self.qp(p)
            for ks, p in m.variants.items()) + self.o()

"""Fluent: source generator and an independent resolver over the fluent.syntax AST."""
from __future__ import annotations

import itertools
import re

from fluent.syntax import FluentParser
from fluent.syntax import ast as ftl

from moz.l10n.model import CatchallKey, Expression, Markup, PatternMessage, SelectMessage, VariableRef

from . import gen

VARS = ["x", "y", "count", "user-name", "x_1"]
FNS = ["NUMBER", "DATETIME", "PLATFORM", "FOO", "B_2"]
PLURALS = ["zero", "one", "two", "few", "many", "other"]
KEYS = ["a", "b", "masculine", "nan", "windows", "c-d"]
NUMS = ["0", "1", "42", "3.14", "-5", "007", "1.50"]
STRS = ["", "5", "007", " ", "  ", "x", "é", "\"", "\\", "{", "}", "{$x}", "inf", "nan", "NaN", "Infinity", "1e5", "1_0", " 5", "5 ", "+5", "-", ".", "a\u00a0",
        "[", "*", "\u200b", "😀", "\x07", "\n", "\t", "٣"]
TEXTCH = ["'", '"', "\\", "#", "=", ":", "-", "<b>", "</b>", "&amp;", "$x", "->", "%", "é", "漢", "😀", "\u00a0", "\u2068", "!", "(", ")", "]", ",", "~", "/", "\u200b", "\u2028", "\x85", "\x0b", "\f", "\x1c"]


# ---------- generator ----------

class G:
    def __init__(self, rng, depth=2, same_sel=True, tabs=True, indents=True):
        self.rng, self.depth, self.same_sel, self.tabs, self.indents = rng, depth, same_sel, tabs, indents

    def text(self, at_start, at_end, line_start):
        rng = self.rng
        out = ""
        for k in range(rng.randint(1, 4)):
            r = rng.random()
            if r < 0.5:
                out += rng.choice(gen.WORDS[:12])
            elif r < 0.7:
                out += rng.choice(TEXTCH)
            elif r < 0.85:
                out += rng.choice([" ", "  "]) if out or not at_start else ""
            elif r < 0.93:
                out += rng.choice(["\n", "\n", "\n\n"] + (["\n  ", "\n "] if self.indents else [])) + rng.choice(["w", "x y", "é", "-", "#"]) if (out or not at_start) else "q"
            elif r < 0.96:
                out += rng.choice([".", "[", "*"]) if out and out[-1] not in " \n" else "z"
            elif self.tabs and out:
                out += "\t."
            else:
                out += "t"
        if at_start:
            out = out.lstrip(" \n")
            if out[:1] in ".[*":
                out = "S" + out
        if at_end:
            out = out.rstrip(" \n")
        return out or "t"

    def string(self):
        rng = self.rng
        return rng.choice(STRS) if rng.random() < 0.6 else gen.text(rng, 3)

    def named(self):
        rng = self.rng
        if rng.random() < 0.5:
            return []
        names = gen.uniq(rng, lambda: rng.choice(["minimumFractionDigits", "style", "type", "case", "b"]), rng.randint(1, 2))
        return [(n, ("num", rng.choice(NUMS)) if rng.random() < 0.5 else ("str", rng.choice(["percent", "short", "x y", "é", "inf", "1e5", " 5", "", "\\", '"']))) for n in names]

    def inline(self, nest=0):
        rng = self.rng
        r = rng.random()
        if r < 0.4:
            return ("var", rng.choice(VARS))
        if r < 0.55:
            return ("str", self.string())
        if r < 0.62:
            return ("num", rng.choice(NUMS))
        if r < 0.72:
            return ("msg", rng.choice(["hello", "a-b", "m_1"]) + rng.choice(["", "", ".title"]))
        if r < 0.82:
            return ("term", rng.choice(["-brand", "-b-2"]), self.named())
        if r < 0.95 or nest > 1:
            return self.fn()
        return ("nest", self.inline(nest + 1))

    def fn(self):
        rng = self.rng
        name = rng.choice(FNS + ["STRING", "MESSAGE", "Number"[:1].upper() + "X"])
        r = rng.random()
        if name == "PLATFORM" or (r < 0.1 and name not in ("NUMBER", "DATETIME")):
            arg = None
        elif r < 0.7 or name in ("NUMBER", "DATETIME"):
            arg = ("var", rng.choice(VARS))
        elif r < 0.85:
            arg = ("num", rng.choice(NUMS))
        else:
            arg = ("str", rng.choice(["x", "hello", "é", "a b", "inf", ""]))
        return ("fn", name, arg, self.named())

    def selector(self):
        rng = self.rng
        r = rng.random()
        if r < 0.62:
            return ("var", rng.choice(VARS[:3] + (["x", "x"] if self.same_sel else [])))
        if r < 0.72:
            return ("fn", "PLATFORM", None, [])
        if r < 0.84:
            return ("fn", "NUMBER", ("var", rng.choice(VARS[:2])), [("type", ("str", "ordinal"))])
        if r < 0.9:
            return ("term", "-brand.gender", self.named() if rng.random() < 0.4 else [])
        if r < 0.94:
            return ("fn", "FOO", ("var", rng.choice(VARS)), self.named())
        if r < 0.97:
            return ("str", rng.choice(["a", "b", "zz"]))
        return ("num", rng.choice(["1", "2"]))

    def select(self, depth):
        rng = self.rng
        self.nsel += 1
        if self.nsel > 4:  # messages hold the product of all variants
            return ("var", "y")
        sel = self.selector()
        if not self.same_sel:
            for _ in range(8):
                k = repr(sel)
                k = repr(sel[1]) if sel[0] == "var" else k
                if k not in self.used:
                    break
                sel = self.selector()
            else:
                return ("var", "x")
            self.used.add(k)
        keys = rng.sample(PLURALS[:5] + ["0", "1", "2"], rng.randint(0, 3)) if rng.random() < 0.6 else rng.sample(KEYS + ["1"], rng.randint(0, 3))
        default = rng.choice(["other", "other", "other", "one", "a", "b", "zz", "5"])
        keys = [k for k in keys if k != default]
        # exact numbers before plural categories: the library matches them first
        keys.sort(key=lambda k: not re.match(r"-?\d", k))
        at = rng.randint(0, len(keys)) if rng.random() < 0.2 else len(keys)
        vs = [(k, False, self.pattern(depth - 1)) for k in keys]
        vs.insert(at, (default, True, self.pattern(depth - 1)))
        return ("select", sel, vs)

    def pattern(self, depth=None):
        rng = self.rng
        if depth is None:
            depth, self.used, self.nsel = self.depth, set(), 0
        n = rng.choice([1, 1, 2, 3, 4])
        kinds = []
        for i in range(n):
            r = rng.random()
            k = "s" if depth > 0 and r < 0.22 else "p" if r < 0.55 else "t"
            if k == "t" and kinds and kinds[-1] == "t":
                k = "p"
            kinds.append(k)
        parts = []
        for i, k in enumerate(kinds):
            if k == "t":
                parts.append(("text", self.text(i == 0, i == n - 1, False)))
            elif k == "p":
                parts.append(self.inline())
            else:
                s = self.select(depth)
                parts.append(("nest", s) if rng.random() < 0.05 else s)
        return parts

    # ---------- writer ----------
    def w_str(self, s):
        out = ""
        for ch in s:
            if ch in "\\\"":
                out += "\\" + ch
            elif ch in "\n\r" or self.rng.random() < 0.05:
                out += f"\\u{ord(ch):04x}" if ord(ch) < 0x10000 and self.rng.random() < 0.7 else f"\\U{ord(ch):06X}"
            else:
                out += ch
        return '"' + out + '"'

    def w_args(self, arg, named, force):
        if arg is None and not named and not force:
            return ""
        rng = self.rng
        items = ([self.w_inline(arg)] if arg else []) + [f"{n}{rng.choice([': ', ':', ' : '])}{self.w_inline(v)}" for n, v in named]
        sep = rng.choice([", ", ",", " , ", ",\n        "])
        return "(" + rng.choice(["", " "]) + sep.join(items) + rng.choice(["", "", ","] if items else [""]) + ")"

    def w_inline(self, p):
        k = p[0]
        if k == "var":
            return "$" + p[1]
        if k == "str":
            return self.w_str(p[1])
        if k == "num":
            return p[1]
        if k == "msg":
            return p[1]
        if k == "term":
            return p[1] + self.w_args(None, p[2], False)
        if k == "fn":
            return p[1] + self.w_args(p[2], p[3], True)
        if k == "nest":
            return self.w_placeable(p[1], 8)
        raise AssertionError(p)

    def w_placeable(self, p, ind):
        rng = self.rng
        if p[0] == "nest":
            return "{" + rng.choice(["", " "]) + self.w_placeable(p[1], ind) + rng.choice(["", " "]) + "}"
        if p[0] != "select":
            a, b = rng.choice([("{ ", " }"), ("{", "}"), ("{  ", "}"), ("{\n      ", " }")])
            return a + self.w_inline(p) + b
        out = "{ " + self.w_inline(p[1]) + rng.choice([" ->", "->", "  ->  "]) + "\n"
        for key, default, pat in p[2]:
            out += " " * (ind + 4 - int(default)) + ("*" if default else "") + "[" + rng.choice(["", " "]) + key + rng.choice(["", " "]) + "]"
            out += self.w_pattern(pat, ind + 8) + "\n" + ("\n" if rng.random() < 0.1 else "")
        return out + " " * ind + "}"

    def w_pattern(self, pat, ind):
        """Starts right after `=` or `]`."""
        rng = self.rng
        multi = any(p[0] == "text" and "\n" in p[1] for p in pat)
        block = multi or rng.random() < 0.3
        if block and pat[0][0] == "text" and pat[0][1][:1] in ".[*}":
            block = False
        pad = " " * ind
        out = "\n" + rng.choice(["", "", "\n"]) + pad if block else rng.choice(["", " ", "  "])
        for p in pat:
            if p[0] == "text":
                lines = p[1].split("\n")
                s = lines[0]
                for ln in lines[1:]:
                    s += "\n" + (pad + ln if ln else "")
                if p[1].endswith("\n"):
                    s += pad
                out += s
            else:
                out += self.w_placeable(p, ind)
        return out + rng.choice(["", "", "", " "])


# ---------- resolver over fluent.syntax AST ----------

def lit(node):
    return node.value if isinstance(node, ftl.NumberLiteral) else node.parse()["value"]


def argkey(node):
    while isinstance(node, ftl.Placeable):
        node = node.expression
    if isinstance(node, ftl.VariableReference):
        return "$" + node.id.name
    return "=" + lit(node)


def named_key(args):
    return tuple(sorted((a.name.name, lit(a.value)) for a in args.named)) if args else ()


def token(e):
    while isinstance(e, ftl.Placeable):
        e = e.expression
    if isinstance(e, ftl.StringLiteral):
        return lit(e)
    if isinstance(e, ftl.NumberLiteral):
        return ("num", e.value)
    if isinstance(e, ftl.VariableReference):
        return ("var", e.id.name)
    if isinstance(e, ftl.MessageReference):
        return ("msg", e.id.name + ("." + e.attribute.name if e.attribute else ""), ())
    if isinstance(e, ftl.TermReference):
        return ("msg", "-" + e.id.name + ("." + e.attribute.name if e.attribute else ""), named_key(e.arguments))
    assert isinstance(e, ftl.FunctionReference), e
    pos = e.arguments.positional
    return ("fn", e.id.name, argkey(pos[0]) if pos else None, named_key(e.arguments))


def selkey(e):
    t = token(e)
    if isinstance(t, str):
        return ("str", t)
    if t[0] == "fn" and t[1] == "NUMBER" and t[3] == () and t[2] and t[2][0] == "$":
        return ("var", t[2][1:])  # selecting on NUMBER($x) or $x is the same
    if t[0] == "num":
        return ("str", t[1])
    return t


def unwrap(el):
    while isinstance(el, ftl.Placeable):
        el = el.expression
    return el


def vkey(v):
    return v.key.name if isinstance(v.key, ftl.Identifier) else v.key.value


def ftl_selectors(pattern, acc=None):
    """{selector: [keys]} for all selects in a pattern, nested ones included."""
    acc = {} if acc is None else acc
    for el in pattern.elements:
        el = unwrap(el)
        if isinstance(el, ftl.SelectExpression):
            ks = acc.setdefault(selkey(el.selector), [])
            for v in el.variants:
                if vkey(v) not in ks:
                    ks.append(vkey(v))
                ftl_selectors(v.value, acc)
    return acc


def regular(pattern, seen=None):
    """No selector is used twice in the pattern."""
    seen = set() if seen is None else seen
    for el in pattern.elements if pattern else ():
        el = unwrap(el)
        if isinstance(el, ftl.SelectExpression):
            k = selkey(el.selector)
            if k in seen:
                return False
            seen.add(k)
            if not all(regular(v.value, seen) for v in el.variants):
                return False
    return True


def ftl_eval(pattern, env, out=None):
    out = [] if out is None else out
    if pattern is None:
        return out
    for el in pattern.elements:
        if isinstance(el, ftl.TextElement):
            push(out, el.value)
            continue
        el = unwrap(el)
        if isinstance(el, ftl.SelectExpression):
            val = env.get(selkey(el.selector))
            v = next((v for v in el.variants if vkey(v) == val), None) or next(v for v in el.variants if v.default)
            ftl_eval(v.value, env, out)
        else:
            push(out, token(el))
    return out


def push(out, t):
    if isinstance(t, str):
        if not t:
            return
        if out and isinstance(out[-1], str):
            out[-1] += t
            return
    out.append(t)


# ---------- evaluation of the library's messages ----------

def m_token(e, decl=None):
    if isinstance(e, str):
        return e
    assert isinstance(e, Expression), e
    fn = e.attributes.get("fluent-fn")
    named = tuple(sorted(e.options.items()))
    if fn:
        arg = None if e.arg is None else "$" + e.arg.name if isinstance(e.arg, VariableRef) else "=" + e.arg
        return ("fn", fn, arg, named)
    if e.function == "message":
        return ("msg", e.arg, named)
    if isinstance(e.arg, VariableRef):
        if e.function in (None, "number", "string") and not named:
            return ("var", e.arg.name)
        return ("fn", e.function.upper(), "$" + e.arg.name, named)
    if e.function == "number":
        return ("num", e.arg)
    if e.function in (None, "string"):
        return e.arg
    return ("fn?", e.function, e.arg, named)


def m_selkey(e):
    t = m_token(e)
    if isinstance(t, str):
        return ("str", t)
    if t[0] == "fn" and t[1] == "NUMBER" and t[3] == () and t[2] and t[2][0] == "$":
        return ("var", t[2][1:])
    if t[0] == "num":
        return ("str", t[1])
    return t


PLURAL_CATS = ("zero", "one", "two", "few", "many", "other")


class Cat(str):
    """A number of this plural category."""


def m_eval(msg, env):
    if isinstance(msg, PatternMessage):
        pat = msg.pattern
    else:
        exprs = msg.selector_expressions()
        if not all(e.function for e in exprs):
            return None  # not a selector
        vals = [env.get(m_selkey(e)) for e in exprs]
        # the category of a number is not seen by string selection
        vals = [None if isinstance(v, Cat) and e.function == "string" else v for e, v in zip(exprs, vals)]
        best = None
        for keys, p in msg.variants.items():
            if len(keys) != len(vals):
                return None
            if all(isinstance(k, CatchallKey) or k == v for k, v in zip(keys, vals)):
                rank = tuple(isinstance(k, CatchallKey) for k in keys)
                if best is None or rank < best[0]:
                    best = (rank, p)
        if best is None:
            return None
        pat = best[1]
    out = []
    for el in pat:
        push(out, m_token(el))
    return out


def envs(rng, sels, limit=48):
    names = list(sels)
    dims = [([n[1]] if n[0] == "str" else sels[n] + ["~none~"]) for n in names]
    for n, d in zip(names, dims):
        if n[0] == "var" and all(k in PLURAL_CATS or re.fullmatch(r"-?\d+(\.\d+)?", k) for k in sels[n]):
            d[:] = [Cat(k) if k in PLURAL_CATS else k for k in d]
    total = 1
    for d in dims:
        total *= len(d)
    if total <= limit:
        return [dict(zip(names, c)) for c in itertools.product(*dims)]
    return [dict(zip(names, [rng.choice(d) for d in dims])) for _ in range(limit)]


def parse(text):
    return FluentParser(with_spans=False).parse(text)


def items(res):
    """Flat view of a fluent.syntax resource: messages/terms with patterns, and comments."""
    out = []
    for e in res.body:
        if isinstance(e, (ftl.Message, ftl.Term)):
            id = ("-" if isinstance(e, ftl.Term) else "") + e.id.name
            out.append(("entry", id, e.value, [(a.id.name, a.value) for a in e.attributes], e.comment.content if e.comment else ""))
        elif isinstance(e, ftl.Junk):
            out.append(("junk", e.content))
        else:
            out.append((type(e).__name__, e.content))
    return out

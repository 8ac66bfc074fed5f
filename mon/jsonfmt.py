"""Generators of plain JSON and WebExtension messages.json files, and a reader with the platform's placeholder rules."""
from __future__ import annotations

import json
import re

from . import gen

NAME = r"[A-Za-z0-9@_]+"
KEYS = ["", " ", "a.b", "é", "漢字", "😀", "\u2028", "$", "@@locale", "__proto__", "a b", "\"", "\\", "/", "//", "\n", "1", "0", "null", "message", "[", "]"]
TEXTS = ["\n", "\t", "\"", "\\", "/", "//", "// x", "é", "漢字", "😀", "\u2028", "\x00", "\x1f", "\x7f", "{", "}", "%", "%s", "&lt;", "<b>", "#", "\\u0041", "\\n", " ", "  ", "\ufeff", "\u0301"]


def string(rng):
    return "".join(gen.plain(rng, 2) if rng.random() < 0.55 else rng.choice(TEXTS) for _ in range(rng.choice([0, 1, 1, 2, 3, 4])))


def key(rng):
    return rng.choice(KEYS) if rng.random() < 0.15 else gen.ident(rng, 1, 6, "_-.") + rng.choice(["", "", "", rng.choice(KEYS)])


def tree(rng, depth=0):
    out = {}
    for _ in range(rng.choice([0, 1, 2, 2, 3, 4] if depth else [0, 1, 2, 3, 5, 7])):
        out[key(rng)] = tree(rng, depth + 1) if depth < 4 and rng.random() < 0.3 else string(rng)
    return out


def leaves(obj, path=()):
    for k, v in obj.items():
        if isinstance(v, dict):
            yield from leaves(v, (*path, k))
        else:
            yield (*path, k), v


def quote(rng, s):
    """A JSON string literal, escaping more than needed at times."""
    out = ""
    for ch in s:
        o = ord(ch)
        if ch in '"\\' or o < 0x20:
            short = {'"': '\\"', "\\": "\\\\", "\n": "\\n", "\t": "\\t", "\r": "\\r", "\b": "\\b", "\f": "\\f"}.get(ch)
            out += short if short and rng.random() < 0.8 else f"\\u{o:04x}"
        elif ch == "/" and rng.random() < 0.2:
            out += "\\/"
        elif rng.random() < (0.4 if o > 0x7e else 0.02):
            b = ch.encode("utf-16-be")
            out += "".join(rng.choice(["\\u%04x", "\\u%04X"]) % int.from_bytes(b[i:i + 2], "big") for i in range(0, len(b), 2))
        else:
            out += ch
    return f'"{out}"'


def dump(rng, obj, comments=False, ind="", style=None):
    """JSON text with varied white space and, if asked, line comments."""
    style = style or rng.choice(["compact", "lines", "lines", "odd"])
    ws = lambda: {"compact": "", "lines": " ", "odd": rng.choice(["", " ", "\n", "\t", "\r\n"])}[style]  # noqa: E731

    def nl(i):
        c = ""
        if comments and rng.random() < 0.25:
            c = rng.choice(["", " "]) + "//" + rng.choice(["", " ", "// "]) + rng.choice([gen.plain(rng, 3), '"', "it's", '"a": "b",', "\\", "https://x.y/z", '"quoted" // more', "é"]) + "\n"
        return c + {"compact": "", "lines": "\n" + i, "odd": rng.choice(["", " ", "\n", "\t"])}[style]

    if isinstance(obj, str):
        return quote(rng, obj)
    if not isinstance(obj, dict):
        return json.dumps(obj)
    if not obj:
        return "{" + ws() + "}"
    inner = ind + "  "
    items = [quote(rng, k) + ws() * (style == "odd") + ":" + ws() + dump(rng, v, comments, inner, style) for k, v in obj.items()]
    return "{" + nl(inner) + "".join(x + ("," + nl(inner) if i < len(items) - 1 else nl(ind)) for i, x in enumerate(items)) + "}"


def strip_comments(src):
    """Remove // comments outside strings, by a character scan."""
    out, i, q = "", 0, False
    while i < len(src):
        c = src[i]
        if q:
            if c == "\\":
                out += src[i:i + 2]
                i += 2
                continue
            q = c != '"'
        elif c == '"':
            q = True
        elif src.startswith("//", i):
            j = src.find("\n", i)
            i = len(src) if j < 0 else j
            continue
        out += c
        i += 1
    return out


# ------------------------------------------------------------------ WebExtension messages

PH_CONTENT = ["$1", "$2", "$9", "$1 items", "x", "", "https://example.com/$1", "é", "$", "$$", "{$x}", "|a|", "%S", "$10", "$0"]


def ph_name(rng):
    return rng.choice([gen.word(rng, 1, 5), gen.word(rng, 1, 5).upper(), "Foo", "foo", "URL", "1a", "2", "a@b", "a_b", "_x", "arg1", "arg2", "x_1", "9"])


def canon_name(n):
    n = n.replace("@", "_")
    return ("_" + n if n[0].isdigit() else n).lower()


def wx_text(rng):
    r = rng.random()
    if r < 0.2:
        return rng.choice(["$", "$$", "$$$", "$a", "a$", "$ ", "$-", "$0", "$x$", "$$5", "$é$", "US$", "$$name$", "$a b$"])
    return string(rng)


def wx_pattern(rng, names):
    """Source text of a message: text, indexed and named placeholders in any case."""
    out = ""
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 5])):
        r = rng.random()
        if r < 0.5:
            out += wx_text(rng)
        elif r < 0.65:
            out += f"${rng.randint(1, 9)}"
        elif names:
            n = rng.choice(names)
            out += f"${rng.choice([n, n, n.upper(), n.lower(), n.title()])}$"
    return re.sub(r"(\$[1-9])(?=\d)", r"\1 ", out)


def wx_refs(src):
    return [m[0][1:-1] for m in re.finditer(rf"\${NAME}\$", src)]


def wx_meaning(src, placeholders):
    """[text | ("arg", n) | ("ph", name, content, example)] by the platform's two passes."""
    ph = {k.lower(): v for k, v in (placeholders or {}).items()}
    out = []

    def add(t):
        if t:
            if out and isinstance(out[-1], str):
                out[-1] += t
            else:
                out.append(t)

    def gap(t):
        pos = 0
        while pos < len(t):
            if t[pos] == "$" and pos + 1 < len(t):
                if t[pos + 1] in "123456789":
                    out.append(("arg", int(t[pos + 1])))
                    pos += 2
                    continue
                if t[pos + 1] == "$":
                    end = pos + 1
                    while end < len(t) and t[end] == "$":
                        end += 1
                    add(t[pos + 1:end])
                    pos = end
                    continue
            add(t[pos])
            pos += 1

    pos = 0
    for m in re.finditer(rf"\$({NAME})\$", src):
        gap(src[pos:m.start()])
        v = ph[m[1].lower()]
        out.append(("ph", m[1].lower(), v["content"], v.get("example")))
        pos = m.end()
    gap(src[pos:])
    return out


def wx_file(rng):
    """An object as in messages.json."""
    out = {}
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        names = gen.uniq(rng, lambda: ph_name(rng), rng.choice([0, 0, 1, 2, 3]), key=canon_name)
        src = wx_pattern(rng, names)
        ph = {}
        for n in names:
            ph[rng.choice([n, n, n.upper(), n.lower()])] = d = {"content": rng.choice(PH_CONTENT)}
            if rng.random() < 0.4:
                d["example"] = rng.choice([gen.plain(rng, 2), "x", "é", "$1", ""])
            if rng.random() < 0.1:
                ph[n if n in ph else list(ph)[-1]] = dict(reversed(list(d.items())))
        for r in wx_refs(src):
            if r.lower() not in {k.lower() for k in ph}:
                ph[r] = {"content": rng.choice(PH_CONTENT)}
        if len({canon_name(k) for k in ph}) < len(ph):
            continue
        m = {"message": src}
        if rng.random() < 0.4:
            m["description"] = string(rng)
        if ph or rng.random() < 0.1:
            m["placeholders"] = ph
        if rng.random() < 0.1:
            m = dict(reversed(list(m.items())))
        out[key(rng)] = m
    return out


def wx_view(msg):
    """The library's message in the same form."""
    out = []
    for p in msg.pattern:
        if isinstance(p, str):
            if p:
                if out and isinstance(out[-1], str):
                    out[-1] += p
                else:
                    out.append(p)
            continue
        src = p.attributes["source"]
        if re.fullmatch(r"\$[1-9]", src):
            assert p.arg.name == f"arg{src[1]}", p
            out.append(("arg", int(src[1])))
            continue
        assert re.fullmatch(rf"\${NAME}\$", src), p
        d = msg.declarations[p.arg.name]
        c = d.attributes.get("source")
        if c is None:
            assert isinstance(d.arg, str), d
            c = d.arg
        else:
            assert d.arg.name == f"arg{c[1]}" and len(c) == 2, d
        out.append(("ph", src[1:-1].lower(), c, d.attributes.get("example")))
    return out

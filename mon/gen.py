"""Shared generators of hostile but valid content."""
from __future__ import annotations

import string

ASCII_WORD = string.ascii_letters + string.digits
NASTY = list("\"'\\`%$&<>{}[]()#!;:=,.-_*/|@~^+?") + [" ", "  ", "\t"]
UNI = ["é", "ß", "Ω", "ж", "漢", "字", "ע", "ش", "\u00a0", "\u200b", "\u200e", "\u2068", "\u2069", "\u2028", "\u0301", "\ufeff", "\u3000",
       "😀", "𝒳", "\U0001f1eb", "\ufffd", "\u0085"]
CTRL = ["\n", "\r", "\x0b", "\f", "\x07", "\x1b", "\x1c", "\x7f", "\x80", "\x9f", "\x01"]
WORDS = ["Save", "file", "open", "the", "new", "Window", "tab", "of", "a", "user's", "10", "%", "and", "Ärger", "été", "中文", "عربي", "x", "I", "OK"]


def word(rng, lo=1, hi=8, alphabet=string.ascii_lowercase):
    return "".join(rng.choice(alphabet) for _ in range(rng.randint(lo, hi)))


def ident(rng, lo=1, hi=7, extra="_-"):
    return rng.choice(string.ascii_letters) + "".join(rng.choice(ASCII_WORD + extra) for _ in range(rng.randint(lo, hi) - 1))


def text(rng, n=6, ctrl=False, uni=True, nasty=True, spaces=True, exclude=""):
    """A text string: mostly words, with syntax-significant and odd characters mixed in."""
    out = []
    for _ in range(rng.randint(1, n)):
        r = rng.random()
        if r < 0.45:
            out.append(rng.choice(WORDS))
        elif r < 0.6:
            out.append(" ")
        elif r < 0.78 and nasty:
            out.append(rng.choice(NASTY))
        elif r < 0.86 and uni:
            out.append(rng.choice(UNI))
        elif r < 0.93 and ctrl:
            out.append(rng.choice(CTRL))
        else:
            out.append(word(rng, 1, 4))
    s = "".join(out)
    for ch in exclude:
        s = s.replace(ch, "")
    return s if spaces else s.strip()


def plain(rng, n=4):
    """Plain words joined by single spaces."""
    return " ".join(rng.choice(WORDS[:12]) if rng.random() < 0.7 else word(rng) for _ in range(rng.randint(1, n)))


def uniq(rng, fn, n, key=lambda x: x):
    seen, out = set(), []
    for _ in range(n * 10):
        if len(out) == n:
            break
        x = fn()
        k = key(x)
        if k not in seen:
            seen.add(k)
            out.append(x)
    return out


def maybe(rng, p, fn, default=None):
    return fn() if rng.random() < p else default


def comment(rng, tag="", lines=2, alphabet=None):
    """A normalised comment: no outer blank lines, no trailing whitespace on any line, no leading sigil."""
    out = []
    for k in range(rng.randint(1, lines)):
        if 0 < k < lines - 1 and rng.random() < 0.2:
            out.append("")
        else:
            out.append((tag + " " if tag else "") + plain(rng, 4))
    while out and not out[-1]:
        out.pop()
    return "\n".join(out)

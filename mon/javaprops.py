"""Independent reader of the java.util.Properties line format (from its class documentation)."""
from __future__ import annotations

WS = " \t\f"


class Malformed(Exception):
    pass


def unescape(s: str) -> str:
    out, i = [], 0
    while i < len(s):
        ch = s[i]
        i += 1
        if ch != "\\":
            out.append(ord(ch))
            continue
        if i == len(s):
            break
        ch = s[i]
        i += 1
        if ch == "u":
            h = s[i:i + 4]
            if len(h) < 4 or any(c not in "0123456789abcdefABCDEF" for c in h):
                raise Malformed("\\u")
            out.append(int(h, 16))
            i += 4
        else:
            out.append(ord({"t": "\t", "n": "\n", "f": "\f", "r": "\r"}.get(ch, ch)))
    # UTF-16 code units -> characters
    res, k = [], 0
    while k < len(out):
        c = out[k]
        if 0xD800 <= c < 0xDC00 and k + 1 < len(out) and 0xDC00 <= out[k + 1] < 0xE000:
            c = 0x10000 + ((c - 0xD800) << 10) + (out[k + 1] - 0xDC00)
            k += 1
        res.append(chr(c))
        k += 1
    return "".join(res)


def physical(src: str):
    line, i, n = [], 0, len(src)
    while i < n:
        ch = src[i]
        i += 1
        if ch == "\r" or ch == "\n":
            if ch == "\r" and i < n and src[i] == "\n":
                i += 1
            yield "".join(line), True
            line = []
        else:
            line.append(ch)
    if line:
        yield "".join(line), False


def odd_backslashes(s: str) -> bool:
    n = 0
    while n < len(s) and s[len(s) - 1 - n] == "\\":
        n += 1
    return n % 2 == 1


def read(src: str):
    """-> list of ("blank",) | ("comment", text, line) | ("pair", key, value, line, lines, flags)

    flags: "key-continuation" if a continuation occurs before the value begins,
    "eof-backslash" if the file ends in a lone backslash."""
    items = []
    lines = list(physical(src))
    i = 0
    while i < len(lines):
        start = i
        cur, nl = lines[i]
        i += 1
        body = cur.lstrip(WS)
        if not body:
            items.append(("blank", start + 1))
            continue
        if body[0] in "#!":
            t = body[1:]
            items.append(("comment", t[1:] if t.startswith(" ") else t, start + 1))
            continue
        flags = set()
        marks = []  # offsets in the logical line where a continuation was joined
        logical = body
        while odd_backslashes(logical):
            logical = logical[:-1]
            if not nl or i >= len(lines):
                if not nl:
                    flags.add("eof-backslash")
                else:
                    flags.add("eof-continuation")
                break
            marks.append(len(logical))
            nxt, nl = lines[i]
            i += 1
            logical += nxt.lstrip(WS)
        # key
        k, esc = 0, False
        while k < len(logical):
            ch = logical[k]
            if esc:
                esc = False
            elif ch == "\\":
                esc = True
            elif ch in "=:" + WS:
                break
            k += 1
        v, sep = k, False
        while v < len(logical):
            ch = logical[v]
            if ch in WS:
                v += 1
            elif not sep and ch in "=:":
                sep = True
                v += 1
            else:
                break
        sep_at = v if sep else k
        if any(m <= k for m in marks) or (not sep and any(m <= v for m in marks)) or (sep and any(m < logical_sep(logical, k) + 1 for m in marks)):
            flags.add("key-continuation")
        if not logical:
            flags.add("key-continuation")
        items.append(("pair", unescape(logical[:k]), unescape(logical[v:]), start + 1, i - start, flags))
    return items


def logical_sep(logical, k):
    while k < len(logical) and logical[k] in WS:
        k += 1
    return k


def pairs(src: str):
    return [(x[1], x[2]) for x in read(src) if x[0] == "pair"]

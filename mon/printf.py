"""Placeholders of printf-like formats, by the tables of their languages."""
from __future__ import annotations

from moz.l10n.formats import Format
from moz.l10n.message import parse_message, serialize_message
from moz.l10n.model import Expression, VariableRef

STRING, INT, NUM = "cCsS", "dDoOpuUxX", "aAeEfgG"
TABLE = {
    # https://developer.android.com/reference/java/util/Formatter
    "android": {**dict.fromkeys("bB", "boolean"), **dict.fromkeys(STRING, "string"), **dict.fromkeys("dhHoxX", "integer"), **dict.fromkeys(NUM, "number"), **dict.fromkeys(["tY", "TB", "tm", "Td"], "datetime")},
    "properties": {**dict.fromkeys(STRING, "string"), **dict.fromkeys(INT, "integer"), **dict.fromkeys(NUM + "F", "number"), **dict.fromkeys(["tY", "TB"], "datetime"), **dict.fromkeys(["@", "ld", "lld", "hu", "zd"], None)},
    # https://developer.apple.com/library/archive/documentation/Cocoa/Conceptual/Strings/Articles/formatSpecifiers.html
    "xcode": {**dict.fromkeys(STRING, "string"), **dict.fromkeys(INT, "integer"), **dict.fromkeys(NUM, "number"), "@": None},
}
TABLE["properties"].update({"@": "printf", "ld": "integer", "lld": "integer", "hu": "integer", "zd": "integer"})
TABLE["xcode"].update({"ld": "integer", "lld": "integer", "hhu": "integer", "Lf": "number", "zu": "integer", "qx": "integer"})
NAME = {"string": "str", "integer": "int", "number": "num", None: "arg"}
TEXT = [" b", ", ", ": ", " \u2013 ", " (x) ", " é", "! ", " 5 ", " 100 "]


def check(ctx, fmt):
    rng = ctx.rng
    src, want, prev = "", [], None

    def add(t):
        if want and isinstance(want[-1], str):
            want[-1] += t
        else:
            want.append(t)

    for _ in range(rng.randint(1, 4)):
        if rng.random() < 0.7 or src:
            t = rng.choice(TEXT[1:] if src else TEXT)
            if not want:
                t = t.lstrip()
            if t:
                src += t
                add(t)
        conv = rng.choice([*TABLE[fmt], "%", "%"] + (["n"] if fmt == "android" else []))
        flags = rng.choice(["", "", "", "-", "+", "#", "0"]) + rng.choice(["", "", "5", "12", ".2", "3.1"])
        if conv in ("%", "n"):
            spec = "%" + (flags if conv == "%" and rng.random() < 0.2 else "") + conv
            src += spec
            want.append(("lit", "%" if conv == "%" else "\n", spec))
            ctx.ev("literal")
            continue
        func = TABLE[fmt][conv]
        r = rng.random()
        if r < 0.4:
            n = rng.choice([1, 2, 3, 9, 10, 12])
            idx, name = f"{n}$", f"arg{n}"
        elif r < 0.5 and fmt == "properties":
            idx, name = "(who.x_1)", "who.x_1"
        elif r < 0.55 and fmt == "android" and prev:
            spec = f"%<{flags}{conv}"
            src += spec
            num = "".join(c for c in prev if c.isdigit())
            want.append(("var", prev, func, f"%{num}${flags}{conv}" if num else spec))
            ctx.ev("again")
            continue
        else:
            idx, name = "", "arg"
        if fmt == "xcode":
            name = NAME[func] + idx[:-1]
        prev = name
        spec = f"%{idx}{flags}{conv}"
        src += spec
        want.append(("var", name, func, spec))
        ctx.ev(f"{fmt}:{func}")
    if rng.random() < 0.5:
        t = rng.choice([" end", ".", ", z"])
        src += t
        add(t)
    if fmt == "android":
        src = src.replace("<", "&lt;")
    ctx.case((fmt, src))
    kw = {"android": {}, "properties": {"printf_placeholders": True}, "xcode": {"xliff_is_xcode": True}}[fmt]
    F = Format.xliff if fmt == "xcode" else Format[fmt]
    msg = parse_message(F, src, **kw)
    got = []
    for p in msg.pattern:
        if isinstance(p, str):
            got.append(p)
        elif isinstance(p, Expression) and isinstance(p.arg, VariableRef):
            got.append(("var", p.arg.name, p.function, p.attributes.get("source")))
        else:
            got.append(("lit", p.arg, p.attributes.get("source")))
    ctx.eq(got, want, f"{fmt}-placeholders", "placeholders of a message", src=src)
    out = serialize_message(F, msg)
    for p, w in zip(msg.pattern, want):
        if isinstance(w, tuple) and fmt == "xcode" and w[0] == "var":
            i = w[1].lstrip("strintnumag")
            ctx.eq(p.attributes.get("index"), i or None, f"{fmt}-index", "", src=src)
    full = "".join(w if isinstance(w, str) else w[-1] for w in want)
    if not full.startswith(" ") and not full.endswith(" "):
        ctx.eq(out, full.replace("<", "&lt;") if fmt == "android" else full, f"{fmt}-placeholder-text", "text of a message with placeholders", src=src)

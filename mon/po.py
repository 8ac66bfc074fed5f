"""PO files: independent reader, and a generator of catalogs with known contents."""
from __future__ import annotations

import re

from . import gen

SIMPLE = {"n": "\n", "t": "\t", "r": "\r", "v": "\v", "b": "\b", "f": "\f", "\\": "\\", '"': '"', "a": "\a"}
SEP = "\u2028\u2029\x85\x1c\x1d\x1e"


class BadPO(Exception):
    pass


def unquote(s):
    if len(s) < 2 or s[0] != '"' or s[-1] != '"':
        raise BadPO(s)
    out, i, s = "", 0, s[1:-1]
    while i < len(s):
        c = s[i]
        if c == '"':
            raise BadPO("quote")
        if c == "\\":
            i += 1
            if i == len(s) or s[i] not in SIMPLE:
                raise BadPO("escape " + s[i:i + 1])
            out += SIMPLE[s[i]]
        else:
            out += c
        i += 1
    return out


def read(text, strict=True):
    """[{ctx, id, plural, str: [..] or text, flags, refs, auto, trans, prev: {...}, obsolete}], header first."""
    if text.startswith("\ufeff"):
        text = text[1:]
    out, cur, where = [], None, None
    new = lambda: dict(ctx=None, id=None, plural=None, str=None, flags=[], refs=[], auto=[], trans=[], prev={}, obsolete=False)  # noqa: E731
    cur = new()

    def flush():
        nonlocal cur
        if cur["id"] is not None:
            if cur["str"] is None:
                raise BadPO("no msgstr")
            out.append(cur)
            cur = new()

    for line in re.split(r"\r\n|\n", text):
        line = line.strip(" \t")
        if not line:
            continue
        obs = False
        if line.startswith("#~") and not line.startswith("#~|"):
            obs, line = True, line[2:].lstrip(" \t")
        if line.startswith("#"):
            prev = line.startswith(("#|", "#~|"))
            if cur["str"] is not None:
                flush()
            if prev:
                line = line[line.index("|") + 1:].strip(" \t")
                m = re.match(r"(msgctxt|msgid_plural|msgid)[ \t]*(.*)$", line, re.S)
                if m:
                    where = ("prev", m[1])
                    cur["prev"][m[1]] = unquote(m[2])
                else:
                    cur["prev"][where[1]] += unquote(line)
            elif line.startswith("#:"):
                cur["refs"] += line[2:].split()
            elif line.startswith("#,"):
                cur["flags"] += [f.strip() for f in line[2:].split(",") if f.strip()]
            elif line.startswith("#."):
                cur["auto"].append(line[2:].strip())
            else:
                cur["trans"].append(line[1:].strip())
            continue
        m = re.match(r"(msgctxt|msgid_plural|msgid|msgstr(?:\[([0-9]+)\])?)[ \t]*(\".*)$", line, re.S)
        if m:
            key, val = m[1], unquote(m[3])
            if key in ("msgctxt", "msgid") and cur["str"] is not None:
                flush()
            if obs:
                cur["obsolete"] = True
            where = key
            if key == "msgctxt":
                cur["ctx"] = val
            elif key == "msgid":
                cur["id"] = val
            elif key == "msgid_plural":
                cur["plural"] = val
            elif key == "msgstr":
                cur["str"] = val
            else:
                if cur["str"] is None:
                    cur["str"] = []
                at = int(m[2])
                if strict and at != len(cur["str"]):
                    raise BadPO("plural index")
                cur["str"] += [None] * (at + 1 - len(cur["str"]))
                if cur["str"][at] is not None:
                    raise BadPO("repeated plural index")
                cur["str"][at] = val
        elif line.startswith('"'):
            val = unquote(line)
            if where in ("msgctxt", "msgid"):
                cur[{"msgctxt": "ctx", "msgid": "id"}[where]] += val
            elif where == "msgid_plural":
                cur["plural"] += val
            elif where == "msgstr":
                cur["str"] += val
            else:
                cur["str"][at] += val
        else:
            raise BadPO(line)
    flush()
    return out


def header_fields(s):
    out, key = {}, None
    for line in s.split("\n"):
        m = re.match(r"([^:\n]+):(.*)", line, re.S)
        if m:
            key = m[1]
            out[key] = m[2].strip()
        elif key and line.strip():
            out[key] += "\n" + line.strip()
    return out


# --- generator ----------------------------------------------------------------------------------

def q(rng, s):
    """A PO string in one of its spellings."""
    def e(x):
        return "".join({"\\": "\\\\", '"': '\\"', "\n": "\\n", "\t": "\\t", "\r": "\\r", "\v": "\\v", "\b": "\\b", "\f": "\\f"}.get(c, c) for c in x)

    r = rng.random()
    if r < 0.6 or not s:
        parts = [s]
    elif r < 0.8:
        parts = [""] + re.findall(r"[^\n]*\n|[^\n]+", s)
    else:
        cuts = sorted(rng.randint(0, len(s)) for _ in range(rng.randint(1, 3)))
        parts = [s[a:b] for a, b in zip([0] + cuts, cuts + [len(s)])]
    return "\n".join(f'"{e(p)}"' for p in parts)


def text(rng, sep=False):
    s = gen.text(rng, rng.choice([1, 3, 6, 40]) if rng.random() < 0.9 else 80, ctrl=False)
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        i = rng.randint(0, len(s))
        s = s[:i] + rng.choice(["\n", "\n", "\t", "\r", "\\", '"', "\\n", "\\\\", "\v", "\b", "\f", "%s", "-", "--", "#~ ", " "]) + s[i:]
    if not sep:
        s = re.sub(f"[{SEP}]", "", s)
    return s.replace("\a", "")


HEAD = [("Project-Id-Version", "foo 1.0"), ("POT-Creation-Date", "2008-02-06 16:25-0500"), ("Last-Translator", "Föö Bar <foo@bar.xx>"), ("Language", "fr"), ("Content-Type", "text/plain; charset=UTF-8"),
        ("MIME-Version", "1.0"), ("X-Generator", "a: b"), ("X-Poedit-KeywordsList", "_;gettext_noop"), ("Report-Msgid-Bugs-To", ""), ("x-Empty", "")]
NPL = [None, None, 1, 2, 2, 3, 6]


def entry(rng, used, npl, sep):
    e = dict(ctx=None, id=None, plural=None, str=None, flags=[], refs=[], auto=[], trans=[], prev={}, obsolete=False)
    while True:
        e["id"] = text(rng, sep) if rng.random() < 0.9 else rng.choice(["x", "a", " ", "%d file"])
        e["ctx"] = rng.choice(["", "menu", text(rng, sep)]) if rng.random() < 0.25 else None
        if not e["id"]:
            continue
        if (e["ctx"], e["id"]) not in used:
            break
    used.add((e["ctx"], e["id"]))
    e["obsolete"] = rng.random() < 0.12
    val = lambda: "" if rng.random() < 0.15 else text(rng, sep)  # noqa: E731
    if rng.random() < 0.3:
        e["plural"] = text(rng, sep) or "p"
        n = npl or rng.choice([1, 2, 3])
        if rng.random() < 0.1:
            n += 1
        e["str"] = [val() for _ in range(n)]
    else:
        e["str"] = val()
    c = lambda p: gen.comment(rng, "t", 3).split("\n") if rng.random() < p else []  # noqa: E731
    e["trans"] = c(0.2)
    if not e["obsolete"]:
        e["auto"] = c(0.2)
        for _ in range(rng.choice([0, 0, 1, 2, 20])):
            e["refs"].append(rng.choice(["src/a.c:12", "b-c_d/e-f.py:3", "C:/x.c:4", "file.h", "a:b", "é/ö.js:99", "x:0", ":5", "very/long-directory/name-of/some/file_with.ext:12345"]))
        if rng.random() < 0.15:
            for k in ["msgctxt", "msgid", "msgid_plural"]:
                if rng.random() < 0.5:
                    e["prev"][k] = text(rng, sep)
    for f in rng.sample(["fuzzy", "c-format", "no-wrap", "python-brace-format", "range: 0..10"], rng.choice([0, 0, 0, 1, 2])):
        e["flags"].append(f)
    return e


def write(rng, e):
    out = []
    for x in e["trans"]:
        out.append("# " + x if x else "#")
    for x in e["auto"]:
        out.append("#. " + x if x else "#.")
    refs = list(e["refs"])
    while refs:
        k = rng.randint(1, 3)
        out.append("#: " + " ".join(refs[:k]))
        refs = refs[k:]
    if e["flags"]:
        if rng.random() < 0.2 and len(e["flags"]) > 1:
            out += ["#, " + f for f in e["flags"]]
        else:
            out.append("#, " + ", ".join(e["flags"]))
    for k in ["msgctxt", "msgid", "msgid_plural"]:
        if k in e["prev"]:
            out += ["#| " + x for x in (k + " " + q(rng, e["prev"][k])).split("\n")]
    body = []
    if e["ctx"] is not None:
        body += ("msgctxt " + q(rng, e["ctx"])).split("\n")
    body += ("msgid " + q(rng, e["id"])).split("\n")
    if e["plural"] is not None:
        body += ("msgid_plural " + q(rng, e["plural"])).split("\n")
        forms = list(enumerate(e["str"]))
        if rng.random() < 0.15:
            rng.shuffle(forms)
        for k, s in forms:
            body += (f"msgstr[{k}] " + q(rng, s)).split("\n")
    else:
        body += ("msgstr " + q(rng, e["str"])).split("\n")
    return "\n".join(out + ["#~ " + b if e["obsolete"] else b for b in body]) + "\n"


def document(rng, sep=False):
    npl = rng.choice(NPL)
    head = [h for h in HEAD if rng.random() < 0.4]
    rng.shuffle(head) if rng.random() < 0.2 else None
    if npl:
        head.append(("Plural-Forms", f"nplurals={npl}; plural=n != 1;" if npl != 3 else "nplurals=3;\nplural=(n>1);" if rng.random() < 0.3 else "nplurals=3; plural=0;"))
    hc = gen.comment(rng, "h", 3) if rng.random() < 0.5 else ""
    if hc and rng.random() < 0.1:
        hc = rng.choice([":", ",", "~", ".", "|"]) + hc
    src = "\ufeff" if rng.random() < 0.05 else ""
    src += "".join("# " + x + "\n" if x else "#\n" for x in hc.split("\n")) if hc else ""
    src += "msgid \"\"\nmsgstr " + q(rng, "".join(f"{k}: {v}\n" for k, v in head)) + "\n"
    used = set()
    entries = [entry(rng, used, npl, sep) for _ in range(rng.choice([0, 1, 2, 4, 6]))]
    for e in entries:
        src += ("\n" if rng.random() < 0.95 else "") + write(rng, e)
    if rng.random() < 0.1:
        src = src.replace("\n", "\r\n")
    return src, dict(comment=hc, head=dict(head), npl=npl, entries=entries)

"""C33: the JSON readers take exactly what the schemas describe, and say so otherwise.

Oracle: the published JSON Schemas, plus an own reader of the documents that reduces them to what they
say; whatever is accepted must be written back as the same thing, and whatever the schema does not
describe must be refused with MF2ValidationError.
"""

from __future__ import annotations

import copy
import json

from moz.l10n.formats.mf2 import MF2ValidationError, mf2_from_json, mf2_to_json
from moz.l10n.message import entry_from_json, entry_to_json, message_from_json, message_to_json

from moz.l10n.model import Entry, Metadata

from moz.l10n.formats import Format
from moz.l10n.resource import parse_resource

from .. import jsonfmt
from ..core import Family, Skip
from ..model import malformed
from . import c05
from .. import mf2ref as R

RULE = "every JSON document that the schema does not describe, or that repeats a declaration or variant, raises MF2ValidationError; every other document is read as what it says"
ASSUMPTIONS = ["unknown keys of an object are ignored, as the schemas allow", "left-out empty parts are the same as empty ones", "a missing decl next to msg, a missing = and empty @ and + are accepted or refused, as the reader likes"]

KEYS = ["type", "name", "value", "kind", "arg", "function", "options", "attributes", "declarations", "pattern", "selectors", "variants", "keys", "decl", "msg", "alt", "sel", "pat", "opt",
        "attr", "fn", "elem", "open", "close", "_", "$", "*", "#", "@", "=", "+"]
JUNK = [None, True, False, 0, 1, 1.5, "", "x", "literal", "variable", "expression", "markup", "message", "select", "*", [], {}, ["x"], {"x": "y"}, {"type": "literal", "value": "v"},
        {"type": "variable", "name": "v"}, {"type": "*"}, {"type": "expression", "arg": {"type": "literal", "value": "v"}}, {"_": "v"}, {"$": "v"}, {"fn": "v"}, {"elem": "v"},
        {"type": "markup", "kind": "open", "name": "b"}, {"type": "function", "name": "f"}, [["a", "b"]], ["a", "b"], {"*": ""}, {"*": "k"}]


def spots(j, out):
    for k, v in list(j.items() if isinstance(j, dict) else enumerate(j)):
        out.append((j, k))
        if isinstance(v, (dict, list)):
            spots(v, out)
    return out


def near(rng, s):
    """Almost the same string."""
    return rng.choice([s.swapcase(), s.upper(), s.capitalize(), s + "x", s + "_", s[:-1], s + s[-1:], s + "1", "x" + s])


def damage(rng, j):
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        ss = spots(j, [])
        if not ss:
            return
        c, k = rng.choice(ss)
        r = rng.random()
        if r < 0.3:
            c[k] = near(rng, c[k]) if isinstance(c[k], str) and rng.random() < 0.4 else copy.deepcopy(rng.choice(JUNK))
        elif r < 0.5:
            del c[k]
        elif r < 0.65:
            a, b = rng.choice(ss)
            try:
                c[k] = copy.deepcopy(a[b])
            except (KeyError, IndexError):
                pass
        elif r < 0.8:
            if isinstance(c, list):
                c.insert(rng.randint(0, len(c)), copy.deepcopy(c[k] if rng.random() < 0.6 else rng.choice(JUNK)))
            else:
                c[rng.choice(KEYS)] = copy.deepcopy(rng.choice(JUNK))
        elif isinstance(c, dict):
            c[rng.choice(KEYS)] = c.pop(k)
        else:
            v = c.pop(k)
            c.insert(rng.randint(0, len(c)), v)


class Bad(Exception):
    pass


def lit(x):
    return ("l", x["value"]) if x["type"] == "literal" else ("v", x["name"])


def mf2_part(p):
    if isinstance(p, str):
        return p
    attrs = frozenset((k, v if v is True else v["value"]) for k, v in p.get("attributes", {}).items())
    opts = lambda x: tuple((k, lit(v)) for k, v in x.get("options", {}).items())  # noqa: E731
    if p["type"] == "markup":
        return ("m", p["kind"], p["name"], opts(p), attrs)
    f = p.get("function")
    return ("e", lit(p["arg"]) if "arg" in p else None, f and (f["name"], opts(f)), attrs)


def mf2_view(j):
    decl = {}
    for d in j["declarations"]:
        if d["name"] in decl:
            raise Bad("declaration")
        if d["type"] == "input" and d["value"]["arg"]["name"] != d["name"]:
            raise Bad("input")
        decl[d["name"]] = mf2_part(d["value"])
    pat = lambda ps: [mf2_part(p) for p in ps]  # noqa: E731
    decl = list(decl.items())
    if j["type"] == "message":
        return decl, pat(j["pattern"])
    variants = {}
    for v in j["variants"]:
        k = tuple(lit(k) if k["type"] == "literal" else "*" + k.get("value", "") for k in v["keys"])
        if tuple("*" if isinstance(x, str) else x for x in k) in variants:
            raise Bad("variant")
        variants[tuple("*" if isinstance(x, str) else x for x in k)] = k, pat(v["value"])
    return decl, [s["name"] for s in j["selectors"]], list(variants.values())


def part(p):
    if isinstance(p, str):
        return p
    val = lambda v: v if isinstance(v, str) else ("v", v["$"])  # noqa: E731
    opt = tuple((k, val(v)) for k, v in p.get("opt", {}).items())
    attr = frozenset(p.get("attr", {}).items())
    for k in ("elem", "open", "close"):
        if k in p:
            return (k, p[k], opt, attr)
    if "fn" not in p and opt:
        raise Skip()
    if p.get("fn") == "":
        raise Skip()
    return ("e", p["_"] if "_" in p else ("v", p["$"]) if "$" in p else None, p.get("fn"), opt, attr)


def view(j):
    pat = lambda ps: [part(p) for p in ps]  # noqa: E731
    if isinstance(j, list):
        return [], pat(j)
    decl = [(k, part(v)) for k, v in j["decl"].items()]
    if "sel" in j and "msg" in j:
        raise Skip()
    if "msg" in j:
        return decl, pat(j["msg"])
    vs = {}
    for v in j["alt"]:
        k = tuple(x if isinstance(x, str) else ("*",) for x in v["keys"])
        if k in vs:
            raise Bad("variant")
        vs[k] = [x if isinstance(x, str) else ("*", x["*"]) for x in v["keys"]], pat(v["pat"])
    return decl, j["sel"], list(vs.values())


def entry_view(j):
    at = j.get("@", [])
    if not all(len(m) == 2 and all(isinstance(x, str) for x in m) for m in at):
        raise Bad("metadata")
    return at, j.get("#", ""), view(j["="]), [(k, view(v)) for k, v in j.get("+", {}).items()]


def lenient(which, j):
    """With the parts that may be left out filled in."""
    j = copy.deepcopy(j)
    if which == "message" and isinstance(j, dict) and "decl" not in j and "msg" in j and "sel" not in j:
        j["decl"] = {}
    if which == "entry" and isinstance(j, dict):
        for k in "@+":
            if k in j and j[k] == ([] if k == "@" else {}):
                del j[k]
        j.setdefault("=", [])
        for m in [j["="], *(j["+"].values() if isinstance(j.get("+"), dict) else [])]:
            if isinstance(m, dict) and "decl" not in m and "msg" in m and "sel" not in m:
                m["decl"] = {}
    return j


READ = {"mf2": mf2_from_json, "message": message_from_json, "entry": lambda j: entry_from_json("k", j)}
WRITE = {"mf2": mf2_to_json, "message": message_to_json, "entry": lambda e: entry_to_json(e)[1]}
VIEW = {"mf2": mf2_view, "message": view, "entry": entry_view}


def odd(j):
    """Objects which are two things at once."""
    if isinstance(j, dict):
        if "_" in j and "$" in j or "sel" in j and "msg" in j or any(k in j for k in ("_", "$", "fn")) and any(k in j for k in ("open", "close", "elem")):
            return True
        return any(odd(v) for v in j.values())
    return isinstance(j, list) and any(odd(v) for v in j)


def judge(ctx, which, j):
    if which != "mf2" and odd(j):
        raise Skip()
    ctx.case((which, c05.text_of(j)))
    full = lenient(which, j)
    filled = full != j
    v = c05.validators()[which]
    ok = v.is_valid(full)
    want = None
    if ok:
        try:
            want = VIEW[which](full)
        except Bad as e:
            ok = False
            ctx.ev(f"repeats_{e}")
    before = copy.deepcopy(j)
    try:
        got = READ[which](j)
    except MF2ValidationError as e:
        if filled and not v.is_valid(j):
            ctx.ev("refused_" + which)
            return
        ctx.check(not ok, f"{which}-refused", str(e), json=c05.text_of(j))
        ctx.ev("refused_" + which)
        return
    ctx.check(j == before, "mutated", "", json=c05.text_of(before))
    ctx.check(ok, f"{which}-accepted", "", json=c05.text_of(j), got=repr(got))
    back = lenient(which, WRITE[which](got))
    ctx.check(v.is_valid(back), f"{which}-invalid", "", json=c05.text_of(j), back=c05.text_of(back))
    ctx.eq(VIEW[which](back), want, f"{which}-changed", json=c05.text_of(j), back=c05.text_of(back))
    ctx.ev("accepted_" + which)


def fam_mf2(ctx):
    rng = ctx.rng
    j = mf2_to_json(R.message(rng, joined=True))
    j = json.loads(json.dumps(j))
    if rng.random() < 0.9:
        r = rng.random()
        if r < 0.1 and j["declarations"]:
            j["declarations"].insert(rng.randint(0, len(j["declarations"])), copy.deepcopy(rng.choice(j["declarations"])))
        elif r < 0.2 and j.get("variants"):
            v = copy.deepcopy(rng.choice(j["variants"]))
            v["value"] = ["again"]
            ks = [k for k in v["keys"] if isinstance(k.get("value"), str)]
            if ks and rng.random() < 0.4:
                k = rng.choice(ks)
                k["value"] = near(rng, k["value"])
            j["variants"].insert(rng.randint(0, len(j["variants"])), v)
        elif r < 0.25 and j["declarations"]:
            d = rng.choice(j["declarations"])
            d["name"] = near(rng, d["name"])
        else:
            damage(rng, j)
    if isinstance(j.get("declarations"), list) and any(
            isinstance(d, dict) and d.get("type") == "local" and isinstance(d.get("value"), dict) and isinstance(a := d["value"].get("arg"), dict) and a.get("name") == d.get("name") for d in j["declarations"]):
        raise Skip()  # refers to itself
    judge(ctx, "mf2", j)


def fam_message(ctx):
    rng = ctx.rng
    j = json.loads(json.dumps(message_to_json(R.message(rng, joined=rng.random() < 0.5) if rng.random() < 0.5 else c05.message(rng))))
    r = rng.random()
    if r < 0.1 and isinstance(j, dict) and j.get("alt"):
        v = copy.deepcopy(rng.choice(j["alt"]))
        v["pat"] = ["again"]
        j["alt"].insert(rng.randint(0, len(j["alt"])), v)
    elif r < 0.9:
        damage(rng, j)
    judge(ctx, "message", j)


def fam_entry(ctx):
    rng = ctx.rng
    e = Entry(("k",), c05.message(rng), comment=rng.choice(["", "c"]), meta=[Metadata(rng.choice("ab"), "v") for _ in range(rng.choice([0, 0, 1, 2]))],
              properties={rng.choice(["p", "q", "msg", "decl"]): c05.message(rng) for _ in range(rng.choice([0, 0, 1, 2]))})
    j = json.loads(json.dumps(entry_to_json(e)[1]))
    if rng.random() < 0.9:
        damage(rng, j)
    judge(ctx, "entry", j)


# --- JSON resource files --------------------------------------------------------------------------

FILE_KEYS = ["message", "description", "placeholders", "content", "example", "Message", "a", "x1", ""]
FILE_JUNK = [None, True, False, 0, 1, -1.5, "", "x", "$x1$", "$1", [], {}, ["x"], {"x": "y"}, {"message": "m"}, {"content": "c"}, {"x1": {"content": "$1"}}, {"x1": "c"}, {"x1": {}}, {"x1": None}, {"x1": {"content": 5}},
             [["a", "b"]], {"message": None}, {"message": ["m"]}, {"a": {"b": {"c": "d"}}}]


def webext_ok(j):
    """None if the file is fine, else what is wrong with it."""
    if not isinstance(j, dict):
        return "root"
    for m in j.values():
        if not isinstance(m, dict):
            return "entry"
        if not isinstance(m.get("message"), str):
            return "message"
        if not isinstance(m.get("description", ""), str):
            return "description"
        ph = m.get("placeholders")
        if ph is not None and not isinstance(ph, dict):
            return "placeholders"
        low = {k.lower(): v for k, v in (ph or {}).items()}
        for r in jsonfmt.wx_refs(m["message"]):
            v = low.get(r.lower())
            if not isinstance(v, dict):
                return "placeholder"
            if not isinstance(v.get("content"), str):
                return "content"
            if not isinstance(v.get("example", ""), str):
                return "example"
    return None


def plain_ok(j, depth=0):
    if isinstance(j, dict):
        return None if all(plain_ok(v, 1) is None for v in j.values()) else "value"
    return None if isinstance(j, str) and depth else "root" if not depth else "value"


def fam_files(ctx):
    """JSON files with values of the wrong type: read as resources of proper types, or refused."""
    rng = ctx.rng
    fmt = rng.choice(["webext", "webext", "plain_json"])
    j = jsonfmt.wx_file(rng) if fmt == "webext" else jsonfmt.tree(rng)
    if rng.random() < 0.9:
        box = [j]
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            ss = spots(box, [])
            if len(ss) > 1 and rng.random() < 0.97:
                ss = ss[1:]
            c, k = rng.choice(ss)
            r = rng.random()
            if r < 0.55:
                c[k] = copy.deepcopy(rng.choice(FILE_JUNK))
            elif r < 0.7 and len(ss) > 1:
                del c[k]
                if not box:
                    box = [{}]
            elif isinstance(c, dict):
                if r < 0.85:
                    c[rng.choice(FILE_KEYS)] = copy.deepcopy(rng.choice(FILE_JUNK))
                else:
                    c[rng.choice(FILE_KEYS)] = c.pop(k)
        j = box[0]
    src = jsonfmt.dump(rng, j) if isinstance(j, dict) and rng.random() < 0.5 else json.dumps(j)
    wrong = webext_ok(j) if fmt == "webext" else plain_ok(j)
    ctx.case((fmt, src))
    if fmt == "webext":
        names = [jsonfmt.canon_name(k) for m in (j.values() if isinstance(j, dict) else []) if isinstance(m, dict) and isinstance(m.get("placeholders"), dict) for k in m["placeholders"] if k]
        if wrong is None and len(set(names)) < len(names):
            raise Skip()  # names that are the same but for case or punctuation
    try:
        res = parse_resource(Format[fmt], src)
    except ValueError as e:
        if wrong is None:
            ctx.fail("file-refused", f"{type(e).__name__}: {e}", src=src)
        ctx.ev("refused_file_" + wrong)
        return
    except Exception as e:
        ctx.fail("file-error", f"{type(e).__name__}: {e}", src=src, wrong=wrong)
    ctx.check(wrong is None, "file-" + str(wrong), "a file with a wrong type is read", src=src, got=repr(res))
    ctx.eq(malformed(res), [], "file-types", "", src=src)
    entries = res.sections[0].entries
    if fmt == "webext":
        ctx.eq([(e.id, e.comment, jsonfmt.wx_view(e.value)) for e in entries], [((k,), m.get("description", ""), jsonfmt.wx_meaning(m["message"], m.get("placeholders"))) for k, m in j.items()], "file-content", "", src=src)
    else:
        ctx.eq([(e.id, "".join(e.value.pattern)) for e in entries], [(tuple(p), v) for p, v in jsonfmt.leaves(j)], "file-content", "", src=src)
    ctx.ev("accepted_file")


FAMILIES = [
    Family("mf2", fam_mf2, 12000, 300000, need=["accepted_mf2", "refused_mf2", "repeats_declaration", "repeats_variant", "repeats_input"]),
    Family("message", fam_message, 12000, 300000, need=["accepted_message", "refused_message", "repeats_variant"]),
    Family("files", fam_files, 12000, 300000, need=["accepted_file"] + ["refused_file_" + k for k in ("root", "entry", "message", "description", "placeholders", "placeholder", "content", "example", "value")]),
    Family("entry", fam_entry, 8000, 200000, need=["accepted_entry", "refused_entry"]),
]

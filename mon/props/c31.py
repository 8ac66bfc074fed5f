"""C31: the JavaScript message utilities compare, normalise and test messages as documented."""

import copy
import json

from .. import js_bridge as js
from ..core import Family

RULE = "One violation per message or pair of messages for which a utility disagrees with the reference below."
ASSUMPTIONS = ["messages follow /schemas/message.json"]

VARS = ["x", "y", "count", "user-name", "a1", "constructor", "toString", "__proto__", "hasOwnProperty", "é", "length", "$"]
NAMES = ["id", "case", "style", "source", "constructor", "__proto__", "valueOf", "o"]
TEXT = ["", "", "a", "Hello ", " ", "x", "\n", "é😀", "0", "true", "null"]


def opts(rng, var):
    return {rng.choice(NAMES): ({"$": rng.choice(var)} if rng.random() < 0.35 else rng.choice(TEXT)) for _ in range(rng.choice([0, 1, 1, 2, 3]))}


def attrs(rng):
    return {rng.choice(NAMES): rng.choice([True, "", "true", "a", "b"]) for _ in range(rng.choice([0, 1, 1, 2]))}


def part(rng, var, expr=False):
    out = {}
    r = rng.random()
    if not expr and r < 0.3:
        out[rng.choice(["open", "close", "elem"])] = rng.choice(["b", "i", "g", ""])
    else:
        r = rng.random()
        if r < 0.55:
            out["$"] = rng.choice(var)
        elif r < 0.85:
            out["_"] = rng.choice(TEXT)
        if len(out) == 0 or rng.random() < 0.5:
            out["fn"] = rng.choice(["number", "string", "entity", "constructor"])
    if rng.random() < 0.45:
        out["opt"] = opts(rng, var)
    if rng.random() < 0.35:
        out["attr"] = attrs(rng)
    items = list(out.items())
    rng.shuffle(items)
    return dict(items)


def pattern(rng, var):
    return [rng.choice(TEXT) if rng.random() < 0.6 else part(rng, var) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]


def message(rng):
    var = rng.sample(VARS, rng.randint(1, 6))
    r = rng.random()
    if r < 0.25:
        return pattern(rng, var)
    names = rng.sample(VARS, rng.choice([0, 0, 1, 2, 3, 5, 7]) if r < 0.55 else rng.choice([1, 2, 3, 5, 7]))
    if rng.random() < 0.7:
        var = list(dict.fromkeys(names + var))[: rng.randint(1, 8)]
    decl = {n: part(rng, [n] if rng.random() < 0.3 else var, True) for n in names}
    if r < 0.55:
        return {"decl": decl, "msg": pattern(rng, var)}
    sel = rng.sample(names, min(len(names), rng.choice([1, 1, 2, 3])))
    alt = []
    for _ in range(rng.choice([1, 2, 3])):
        alt.append({"keys": [rng.choice(["one", "*", "a", "", {"*": rng.choice(["", "other", "a"])}]) for _ in sel], "pat": pattern(rng, var)})
    alt.append({"keys": [{"*": rng.choice(["", "other"])} for _ in sel], "pat": pattern(rng, var)})
    return {"decl": decl, "sel": sel, "alt": alt}


# ---------- reference ----------
def items(d):
    return tuple(sorted((k, ("$", v["$"]) if isinstance(v, dict) else (type(v).__name__, v)) for k, v in (d or {}).items()))


def key(p):
    if isinstance(p, str):
        return p
    return tuple((k, p.get(k)) for k in ("_", "$", "fn", "open", "close", "elem")) + (items(p.get("opt")), items(p.get("attr")))


def content(m):
    if isinstance(m, list):
        m = {"decl": {}, "msg": m}
    decl = tuple(sorted((n, key(d)) for n, d in m["decl"].items()))
    if "msg" in m:
        return ("pattern", decl, tuple(map(key, m["msg"])))
    return ("select", decl, tuple(m["sel"]), tuple((tuple(k if isinstance(k, str) else ("*",) for k in v["keys"]), tuple(map(key, v["pat"]))) for v in m["alt"]))


def refs(p):
    if isinstance(p, dict):
        if "$" in p:
            yield p["$"]
        for v in p.get("opt", {}).values():
            if isinstance(v, dict):
                yield v["$"]


def patterns(m):
    return [m] if isinstance(m, list) else [m["msg"]] if "msg" in m else [v["pat"] for v in m["alt"]]


def joined(pat):
    out = []
    for p in pat:
        if not isinstance(p, str):
            out.append(p)
        elif out and isinstance(out[-1], str):
            out[-1] += p
        else:
            out.append(p)
    return [p for p in out if p != ""]


def normal(m):
    if isinstance(m, list):
        return joined(m)
    used = set(m.get("sel", ()))
    for pat in patterns(m):
        for p in pat:
            used.update(refs(p))
    while True:
        more = {r for n, d in m["decl"].items() if n in used for r in refs(d)} - used
        if not more:
            break
        used |= more
    decl = {n: d for n, d in m["decl"].items() if n in used}
    if "msg" in m:
        return {"decl": decl, "msg": joined(m["msg"])} if decl else joined(m["msg"])
    return {"decl": decl, "sel": m["sel"], "alt": [{"keys": v["keys"], "pat": joined(v["pat"])} for v in m["alt"]]}


# ---------- edits ----------
def shuffled(rng, d):
    it = list(d.items())
    rng.shuffle(it)
    return dict(it)


def placeholders(m):
    out = [p for pat in patterns(m) for p in pat if isinstance(p, dict)]
    if isinstance(m, dict):
        out += m["decl"].values()
    return out


def edit(rng, m):
    """A copy of a message, changed in one place, or written in another way."""
    m = copy.deepcopy(m)
    r = rng.randrange(16)
    ph = placeholders(m)
    p = rng.choice(ph) if ph else None
    pats = patterns(m)
    pat = rng.choice(pats)
    if r == 0 and isinstance(m, dict):
        m["decl"] = shuffled(rng, m["decl"])
    elif r == 1 and p and p.get("opt"):
        p["opt"] = shuffled(rng, p["opt"])
    elif r == 2 and p and p.get("attr"):
        p["attr"] = shuffled(rng, p["attr"])
    elif r == 3:
        for v in m["alt"] if isinstance(m, dict) and "alt" in m else ():
            v["keys"] = [k if isinstance(k, str) else {"*": rng.choice(["", "other", "z"])} for k in v["keys"]]
    elif r == 4 and isinstance(m, list):
        m = {"decl": {}, "msg": m}
    elif r == 4 and "msg" in m and not m["decl"]:
        m = m["msg"]
    elif r == 5 and p:
        if not p.get("opt"):
            p["opt"] = {} if "opt" not in p else opts(rng, VARS)
        else:
            k = rng.choice(list(p["opt"]))
            v = p["opt"][k]
            q = rng.random()
            if q < 0.3:
                del p["opt"][k]
            elif q < 0.6:
                p["opt"][k] = v["$"] if isinstance(v, dict) else {"$": v or "x"}
            else:
                p["opt"][k] = rng.choice(TEXT)
    elif r == 6 and p:
        if not p.get("attr"):
            p["attr"] = {} if "attr" not in p else attrs(rng)
        else:
            k = rng.choice(list(p["attr"]))
            if rng.random() < 0.4:
                del p["attr"][k]
            else:
                p["attr"][k] = rng.choice([True, "true", "", "c"])
    elif r == 7 and p:
        for a, b in rng.sample([("_", "$"), ("open", "close"), ("elem", "open"), ("close", "elem")], 4):
            if a in p:
                p[b] = p.pop(a)
                break
    elif r == 8 and p and ("_" in p or "$" in p):
        if "fn" in p:
            del p["fn"]
        else:
            p["fn"] = "number"
    elif r == 9 and pat:
        del pat[rng.randrange(len(pat))]
    elif r == 10:
        pat.insert(rng.randint(0, len(pat)), rng.choice(TEXT))
    elif r == 11 and len(pat) > 1:
        pat.append(pat.pop(rng.randrange(len(pat) - 1)))
    elif r == 12 and isinstance(m, dict) and "alt" in m:
        q = rng.random()
        if q < 0.3:
            rng.shuffle(m["alt"])
        elif q < 0.5:
            del m["alt"][0]
        elif q < 0.8:
            v = rng.choice(m["alt"])
            v["keys"][rng.randrange(len(v["keys"]))] = rng.choice(["one", "*", "b", {"*": "b"}])
        else:
            rng.shuffle(m["sel"])
    elif r == 13 and isinstance(m, dict) and m["decl"]:
        n = rng.choice(list(m["decl"]))
        if n not in m.get("sel", ()):
            d = m["decl"].pop(n)
            if rng.random() < 0.5:
                m["decl"][rng.choice(VARS)] = d
    elif r == 14 and isinstance(m, dict):
        m["decl"].setdefault(rng.choice(VARS), part(rng, VARS, True))
    elif r == 15 and p:
        for k in ("_", "$", "fn", "open", "close", "elem"):
            if k in p:
                p[k] = rng.choice(TEXT + VARS) if k == "_" else rng.choice(VARS)
                break
    return m


def valid(m):
    return isinstance(m, list) or "msg" in m or (set(m["sel"]) <= set(m["decl"]) and m["alt"] and all(len(v["keys"]) == len(m["sel"]) for v in m["alt"]))


def fam_equal(ctx):
    rng = ctx.rng
    a = message(rng)
    b = message(rng) if rng.random() < 0.1 else copy.deepcopy(a)
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        b = edit(rng, b)
    if not valid(b):
        return
    ctx.case(json.dumps([a, b]))
    want = content(a) == content(b)
    for x, y in ((a, b), (b, a)):
        r = js.call("messagesEqual", x, y)
        ctx.check(r["value"] is want, "equal" if want else "not-equal", f"messagesEqual is {r['value']}", a=x, b=y)
        ctx.check(r["kept"], "argument-changed", "messagesEqual", a=x, b=y)
    ctx.ev("pairs_equal" if want else "pairs_different")


def fam_normal(ctx):
    rng = ctx.rng
    m = message(rng)
    ctx.case(json.dumps(m))
    try:
        r = js.call("$normalize", m)
    except js.JSError as e:
        ctx.fail("normalize-throws", str(e), message=m)
        return
    want = normal(m)
    ctx.eq(r["value"]["result"], want, "normalized", message=m)
    if isinstance(want, dict):
        ctx.eq(list(r["value"]["result"]["decl"]), list(want["decl"]), "declaration-order", message=m)
    ctx.check(r["kept"], "argument-changed", "normalizeMessage", message=m)
    ctx.check(r["value"]["shared"] == 0, "shared", f"{r['value']['shared']} objects of the argument are in the result", message=m)
    ctx.check(js.call("messagesEqual", r["value"]["result"], want)["value"] is True, "equal-normal", "", message=m)
    ctx.ev("normalized")
    if isinstance(m, dict):
        n = len(m["decl"]) - (len(want["decl"]) if isinstance(want, dict) else 0)
        if n:
            ctx.ev("declarations_dropped", n)
        if isinstance(want, dict):
            ctx.ev("declarations_kept", len(want["decl"]))


def fam_empty(ctx):
    rng = ctx.rng
    m = message(rng)
    for pat in patterns(m):
        if rng.random() < 0.6:
            pat[:] = rng.choice([[], [""], ["", ""], [" "], ["", "a"], ["", {"_": ""}], [{"elem": "b"}, ""]])
    ctx.case(json.dumps(m))
    e = ["".join(p) == "" if all(isinstance(x, str) for x in p) else False for p in patterns(m)]
    for args, want in (([], all(e)), ([False], all(e)), ([True], any(e))):
        ctx.check(js.call("messageIsEmpty", m, *args)["value"] is want, "empty", f"messageIsEmpty with {args} is not {want}", message=m)
        ctx.ev("empty" if want else "not_empty")


def fam_guards(ctx):
    rng = ctx.rng
    m = message(rng)
    ctx.case(json.dumps(m))
    ctx.check(js.call("isSelectMessage", m)["value"] is (isinstance(m, dict) and "alt" in m), "select-guard", "", message=m)
    ctx.check(js.call("isSelectMessage", None)["value"] is False, "select-guard", "null")
    for p in [x for pat in patterns(m) for x in pat]:
        mk = isinstance(p, dict) and any(k in p for k in ("open", "close", "elem"))
        ctx.check(js.call("isMarkup", p)["value"] is mk, "markup-guard", "", part=p)
        ctx.check(js.call("isExpression", p)["value"] is (isinstance(p, dict) and not mk), "expression-guard", "", part=p)
        ctx.ev("parts_guarded")


FAMILIES = [
    Family("equal", fam_equal, 9000, 150000, need=["pairs_equal", "pairs_different"]),
    Family("normal", fam_normal, 8000, 120000, need=["normalized", "declarations_dropped", "declarations_kept"]),
    Family("empty", fam_empty, 3000, 40000, need=["empty", "not_empty"]),
    Family("guards", fam_guards, 1500, 15000, need=["parts_guarded"]),
]

"""JSON representations: schema conformance, round trips, injectivity, purity."""
from __future__ import annotations

import json
import os

from jsonschema import Draft7Validator
from referencing import Registry

from moz.l10n.formats.mf2 import MF2ValidationError, mf2_from_json, mf2_to_json, mf2_validate_message
from moz.l10n.message import entry_from_json, entry_to_json, message_from_json, message_to_json
from moz.l10n.formats import Format
from moz.l10n.model import CatchallKey, Entry, Expression, LinePos, Markup, Metadata, PatternMessage, SelectMessage, VariableRef
from moz.l10n.resource import parse_resource

from .. import gen
from .. import mf2ref as R
from ..core import Family, REPO
from ..model import canon, check_same

RULE = "distinct by JSON text; seeded random messages and entries with arbitrary strings in every place"
ASSUMPTIONS = ["the published schemas are the files in /repo/schemas of the tree under test, which must themselves refuse a fixed list of wrong documents",
               "expressions have an operand or a function, and options only with a function, as the data model requires",
               "the optional name of a catch-all key is kept except when empty"]

_V: dict = {}


def validators():
    if not _V:
        d = os.path.join(REPO, "schemas")
        load = lambda n: json.load(open(os.path.join(d, n), encoding="utf-8"))  # noqa: E731
        m = load("message.json")
        reg = Registry().with_contents([("./message.json", m)])
        _V["message"] = Draft7Validator(m)
        _V["entry"] = Draft7Validator(load("entry.json"), registry=reg)
        _V["mf2"] = Draft7Validator(load("mf2-message.json"))
    return _V


def string(rng):
    r = rng.random()
    if r < 0.1:
        return ""
    if r < 0.4:
        return rng.choice(["$", "_", "*", "fn", "opt", "attr", "elem", "open", "decl", "sel", "msg", "alt", "keys", "\x00", "\ud800", "\\", "\\.", ".", "a.b", "a\\", "true", "1"])
    return gen.text(rng, 3, ctrl=True)


def val(rng):
    return VariableRef(string(rng)) if rng.random() < 0.4 else string(rng)


def opts(rng):
    return {string(rng): val(rng) for _ in range(rng.choice([0, 0, 1, 2]))}


def attrs(rng):
    return {string(rng): (True if rng.random() < 0.4 else string(rng)) for _ in range(rng.choice([0, 0, 1, 2]))}


def expr(rng):
    fn = (string(rng) or "f") if rng.random() < 0.5 else None
    arg = None if fn and rng.random() < 0.3 else val(rng)
    return Expression(arg, fn, opts(rng) if fn else {}, attrs(rng))


def pattern(rng):
    out = []
    for _ in range(rng.randint(0, 4)):
        r = rng.random()
        out.append(string(rng) if r < 0.5 else expr(rng) if r < 0.8 else Markup(rng.choice(["open", "close", "standalone"]), string(rng), opts(rng), attrs(rng)))
    return out


def message(rng):
    if rng.random() < 0.3:
        return R.message(rng)
    decl = {string(rng): expr(rng) for _ in range(rng.choice([0, 0, 0, 1, 2]))}
    if rng.random() < 0.6:
        return PatternMessage(pattern(rng), decl)
    sels = tuple(VariableRef(string(rng)) for _ in range(rng.randint(1, 3)))
    variants = {}
    for _ in range(rng.randint(0, 4)):
        variants[tuple(CatchallKey(rng.choice([None, "other", string(rng) or None])) if rng.random() < 0.4 else string(rng) for _ in sels)] = pattern(rng)
    return SelectMessage(decl, sels, variants)


def text_of(j):
    return json.dumps(j, ensure_ascii=True)


def via_json(ctx, j):
    t = text_of(j)
    j2 = json.loads(t)
    ctx.check(text_of(j2) == t, "not-json", "", json=t)
    return j2


def conforms(ctx, which, j, **detail):
    ctx.ev("schema_checks")
    err = next(validators()[which].iter_errors(json.loads(text_of(j))), None)
    if err is not None:
        ctx.fail("schema", f"{which}: {err.message}", json=text_of(j), **detail)


def fam_message(ctx):
    m = message(ctx.rng)
    before = canon(m)
    j = message_to_json(m)
    ctx.case(text_of(j), nontrivial=j != [])
    conforms(ctx, "message", j, message=m)
    j2 = via_json(ctx, j)
    t2 = text_of(j2)
    back = message_from_json(j2)
    check_same(ctx, back, m, "message-roundtrip", json=t2)
    ctx.check(back == m, "message-unequal", "", message=m, back=back)
    check_same(ctx, message_from_json(j), m, "message-roundtrip-direct", json=t2)
    ctx.check(text_of(message_to_json(back)) == text_of(j), "message-json-unstable", "", message=m)
    ctx.check(canon(m) == before and text_of(j2) == t2, "mutated", "conversion changed its argument", message=m)
    other = mutate(ctx.rng, m)
    if other is not None and canon(other) != before:
        ctx.ev("near_misses")
        ctx.check(text_of(message_to_json(other)) != text_of(j), "shared-representation", "", first=m, second=other, json=text_of(j))


def mutate(rng, m):
    """A message that differs from m in one small way."""
    m2 = message_copy(m)
    pats = [m2.pattern] if isinstance(m2, PatternMessage) else list(m2.variants.values())
    pats = [p for p in pats if p]
    if not pats:
        return None
    p = rng.choice(pats)
    i = rng.randrange(len(p))
    x = p[i]
    if isinstance(x, str):
        r = rng.random()
        if r < 0.5 and x:
            k = rng.randrange(len(x) + 1)
            p[i:i + 1] = [x[:k], x[k:]]
        else:
            p[i] = Expression(x)
    elif isinstance(x, Expression):
        if isinstance(x.arg, str):
            x.arg = VariableRef(x.arg)
        elif isinstance(x.arg, VariableRef):
            x.arg = x.arg.name
        else:
            x.arg = ""
    else:
        x.kind = {"open": "close", "close": "standalone", "standalone": "open"}[x.kind]
    return m2


def message_copy(m):
    import copy
    return copy.deepcopy(m)


def fam_entry(ctx):
    rng = ctx.rng
    id = tuple(string(rng) for _ in range(rng.choice([1, 1, 2, 3, 4])))
    e = Entry(id, message(rng), {string(rng): message(rng) for _ in range(rng.choice([0, 0, 1, 2]))},
              comment=string(rng), meta=[Metadata(string(rng), string(rng)) for _ in range(rng.choice([0, 0, 1, 3]))])
    if rng.random() < 0.15:
        e.value = PatternMessage([])
    if rng.random() < 0.1:
        e.value = PatternMessage([], {"x": Expression("y")})
    if rng.random() < 0.2:
        e.linepos = LinePos(1, 2, 3, 4)
    before = canon(e, linepos=True)
    key, j = entry_to_json(e)
    ctx.case(key + text_of(j))
    ctx.check(isinstance(key, str), "id-type", "")
    conforms(ctx, "entry", j, entry=e)
    j2 = via_json(ctx, j)
    t2 = text_of(j2)
    back = entry_from_json(key, j2)
    check_same(ctx, back, e, "entry-roundtrip", key=key, json=t2)
    ctx.check(back == e, "entry-unequal", "", entry=e, back=back)
    ctx.check(entry_to_json(back) == (key, j), "entry-json-unstable", "", entry=e)
    ctx.check(canon(e, linepos=True) == before and text_of(j2) == t2, "mutated", "conversion changed its argument", entry=e)
    # identifiers: no two share a key
    ch = ["a", ".", "\\", "", "..", "\\.", "\\\\", "a."]
    a, b = (tuple("".join(rng.choice(ch) for _ in range(rng.randint(0, 3))) for _ in range(rng.randint(1, 3))) for _ in range(2))
    ka, kb = (entry_to_json(Entry(x, PatternMessage([])))[0] for x in (a, b))
    ctx.check((ka == kb) == (a == b), "shared-key", f"{a!r} {b!r} -> {ka!r} {kb!r}")
    for x, k in ((a, ka), (b, kb)):
        got = entry_from_json(k, {"=": []}).id
        ctx.check(got == x, "key-roundtrip", f"{x!r} -> {k!r} -> {got!r}")
        ctx.ev("keys_checked")


def fam_mf2(ctx):
    rng = ctx.rng
    m = R.message(rng)
    if isinstance(m, SelectMessage) and rng.random() < 0.5:
        m.variants = {tuple(CatchallKey(rng.choice([None, "other", "x y"])) if isinstance(k, CatchallKey) else k for k in ks): p for ks, p in m.variants.items()}
    before = canon(m)
    j = mf2_to_json(m)
    ctx.case(text_of(j))
    conforms(ctx, "mf2", j, message=m)
    j2 = via_json(ctx, j)
    back = mf2_from_json(j2)
    check_same(ctx, back, m, "mf2-roundtrip", json=text_of(j))
    ctx.check(canon(m) == before, "mutated", "conversion changed its argument")
    ctx.check(mf2_to_json(back) == j, "mf2-json-unstable", "")
    # every part of the message is in the JSON
    names = [d["name"] for d in j["declarations"]]
    ctx.check(names == list(m.declarations) and all((d["type"] == "input") == (m.declarations[d["name"]].arg == VariableRef(d["name"])) for d in j["declarations"]),
              "mf2-declarations", "", message=m, json=text_of(j))
    # a damaged document is refused with MF2ValidationError or still means something that round-trips
    bad = json.loads(text_of(j))
    if damage(rng, bad):
        try:
            m2 = mf2_from_json(bad)
        except MF2ValidationError:
            ctx.ev("damaged_refused")
            return
        except Exception as e:
            ctx.fail("mf2-error-type", repr(e), json=text_of(bad))
        ctx.ev("damaged_accepted")


def damage(rng, j):
    spots = []

    def walk(x):
        if isinstance(x, dict):
            for k, v in x.items():
                if k in ("type", "name", "kind", "value", "pattern", "keys", "arg"):
                    spots.append((x, k))
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)

    walk(j)
    if not spots:
        return False
    d, k = rng.choice(spots)
    if k in ("type", "name", "kind") and rng.random() < 0.5:
        d[k] = rng.choice([5, None, "zz"]) if k != "name" else rng.choice([5, None])
    else:
        del d[k]
    return True


BAD = [("message", {"msg": []}), ("message", [{"x": "y"}]), ("message", [5]), ("message", {"decl": {}, "sel": ["x"]}), ("message", [{"_": 5}]),
       ("message", [{"fn": "x", "opt": {"a": 5}}]), ("entry", {}), ("entry", {"=": 5}), ("entry", {"@": [], "=": []}), ("mf2", {"type": "message"}),
       ("mf2", {"type": "select", "declarations": [], "selectors": []}), ("mf2", {"type": "message", "declarations": [], "pattern": [{"type": "expression"}]})]
DOCS = [
    (Format.android, '<resources xmlns:xliff="urn:oasis:names:tc:xliff:document:1.2"><string name="a">Hi %1$s <b>there</b> <xliff:g id="x" example="y">%d</xliff:g></string>'
     '<plurals name="p"><item quantity="one">%d file</item><item quantity="other">%d files</item></plurals><string-array name="l"><item>x.y</item></string-array></resources>'),
    (Format.fluent, "-t = T\n    .a = { $x }\nm = { -t } { NUMBER($n, minimumFractionDigits: 2) }\n    .p = { $n ->\n        [one] x\n       *[other] y\n    }\n"),
    (Format.gettext, 'msgid ""\nmsgstr ""\n"Plural-Forms: nplurals=2; plural=n!=1;\\n"\n\nmsgctxt "c"\nmsgid "a"\nmsgid_plural "as"\nmsgstr[0] "x %s"\nmsgstr[1] "y"\n'),
    (Format.properties, "# c\na.b = x {0} \\u00e9\n"), (Format.webext, '{"a": {"message": "x $P$ $1", "placeholders": {"p": {"content": "$2", "example": "e"}}}}'),
    (Format.xliff, '<xliff version="1.2" xmlns="urn:oasis:names:tc:xliff:document:1.2"><file original="f" source-language="en" datatype="x"><body><group id="g"><trans-unit id="u.1">'
     '<source>a <x id="1"/> <g id="2">b</g> %@</source><target>c</target><note>n</note></trans-unit></group></body></file></xliff>'),
    (Format.dtd, '<!ENTITY a "x &amp; y">'), (Format.ini, "[S]\na=b\n"), (Format.inc, "#define A b c\n"), (Format.plain_json, '{"a": {"b.c": "x"}, "d": ""}'),
]


def fam_docs(ctx):
    """Entries parsed from every format; and the published schemas refuse wrong documents."""
    i = ctx.index
    if i < len(BAD):
        which, j = BAD[i]
        ctx.case((which, text_of(j)))
        ctx.ev("schema_refusals")
        ctx.check(not validators()[which].is_valid(j), "schema-too-weak", which, json=text_of(j))
        return
    fmt, src = DOCS[i - len(BAD)]
    ctx.case(src)
    res = parse_resource(fmt, src)
    n = 0
    for e in res.all_entries():
        e.id = e.id or ("x",)
        key, j = entry_to_json(e)
        conforms(ctx, "entry", j, entry=e)
        check_same(ctx, entry_from_json(key, via_json(ctx, j)), e, "entry-roundtrip", json=text_of(j))
        n += 1
    ctx.check(n > 0, "no-entries", "", src=src)


def fam_known(ctx):
    src = '<xliff version="1.2" xmlns="urn:oasis:names:tc:xliff:document:1.2"><file original="f" source-language="en" datatype="x"><body><bin-unit id="b" mime-type="x"><bin-source><external-file href="y"/></bin-source></bin-unit></body></file></xliff>'
    ctx.case(src)
    j = message_to_json(next(iter(parse_resource(Format.xliff, src).all_entries())).value)
    if not validators()["message"].is_valid(j):
        ctx.fail("xliff-bin-unit", "", json=text_of(j))


FAMILIES = [
    Family("message", fam_message, 5000, 200000, need=["schema_checks", "near_misses"]),
    Family("entry", fam_entry, 5000, 200000, need=["schema_checks", "keys_checked"]),
    Family("mf2", fam_mf2, 5000, 200000, need=["schema_checks", "damaged_refused"]),
    Family("docs", fam_docs, len(BAD) + len(DOCS), len(BAD) + len(DOCS), need=["schema_refusals", "schema_checks"]),
    Family("known", fam_known, 1, 1),
]

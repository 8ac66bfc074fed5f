"""Android string resources: reference evaluator, known documents, round trips."""
from __future__ import annotations

from lxml import etree

from moz.l10n.formats import Format
from moz.l10n.formats.android.parse import android_parse, android_parse_message
from moz.l10n.formats.android.serialize import android_serialize, android_serialize_message
from moz.l10n.message import parse_message, serialize_message
from moz.l10n.model import CatchallKey, Comment, Entry, Expression, Metadata, PatternMessage, Resource, Section, SelectMessage, VariableRef

from .. import android as A
from .. import gen
from .. import printf
from ..core import Family
from ..model import canon, check_same, norm

RULE = "distinct by source or output text; seeded random documents"
ASSUMPTIONS = ["declared XML namespaces that nothing uses may be dropped and the xliff namespace added",
               "straight quotes in the same text as tag-like text are outside the generated sources (documented heuristic), as are quotes that are not closed in the same text",
               "text in models holds no % or < outside of placeholders and tags, which Android syntax cannot tell apart"]


def nometa(res):
    res = Resource(res.format, res.sections, res.comment, [m for m in res.meta if not m.key.startswith("xmlns")])
    return res


def normres(res):
    return Resource(res.format, [Section(s.id, [Comment(e.comment) if isinstance(e, Comment) else Entry(e.id, norm(e.value), {k: norm(v) for k, v in e.properties.items()}, e.comment, e.meta) for e in s.entries], s.comment, s.meta)
                                 for s in res.sections], res.comment, [m for m in res.meta if not m.key.startswith("xmlns")])


def check_output(ctx, res, out, **detail):
    """Well-formed, holds the same names in the same order, and the same text by the reference evaluator."""
    try:
        root = etree.fromstring(out.encode(), etree.XMLParser(resolve_entities=False))
    except etree.XMLSyntaxError as e:
        ctx.fail("not-well-formed", str(e), out=out, **detail)
    got, want = [], []
    arr = None
    for s in res.sections:
        if s.id == ("!ENTITY",):
            continue
        for e in s.entries:
            if isinstance(e, Comment):
                continue
            if len(e.id) == 1:
                want.append(("plurals" if isinstance(e.value, SelectMessage) else "string", e.id[0], len(e.value.variants) if isinstance(e.value, SelectMessage) else 1))
            elif arr is not None and want[arr][:2] == ("string-array", e.id[0]):
                want[arr] = want[arr][:2] + (want[arr][2] + 1,)
            else:
                want.append(("string-array", e.id[0], 1))
                arr = len(want) - 1
    values = {}
    for el in root.iterchildren(etree.Element):
        items = list(el.iterchildren("item")) if el.tag != "string" else [el]
        got.append((el.tag, el.get("name"), len(items)))
        for k, it in enumerate(items):
            values[(el.get("name"),) if el.tag == "string" else (el.get("name"), it.get("quantity") or str(k))] = it
    ctx.check(got == want, "output-elements", f"{got} != {want}", out=out, **detail)
    for s in res.sections:
        if s.id:
            continue
        for e in s.entries:
            if isinstance(e, Comment):
                continue
            pats = [(e.id, e.value.pattern)] if isinstance(e.value, PatternMessage) else [
                ((e.id[0], k.value or "other" if isinstance(k, CatchallKey) else k), p) for (k,), p in e.value.variants.items()]
            for key, p in pats:
                el = values.get(key)
                if el is None or len(el) or any(isinstance(x, Expression) and x.function == "reference" for x in p):
                    continue
                text = A.aapt(el.text or "")
                flat = "".join(x if isinstance(x, str) else x.attributes.get("source") or x.arg for x in p)
                ctx.ev("texts_evaluated")
                ctx.check(text == flat, "output-text", f"{key}: {text!r} != {flat!r}", out=out, **detail)


def fam_document(ctx):
    rng = ctx.rng
    src, want = A.document(rng)
    ctx.case(src)
    kw = {"ascii_spaces": True} if rng.random() < 0.1 else {}
    res = android_parse(src if rng.random() < 0.5 else src.encode(), **kw)
    got = A.lib_view(res)
    for g, w in zip(got["entries"], want["entries"]):
        ctx.check(g == w, "parse-entry", f"\n got  {g}\n want {w}", src=src)
    for k in want:
        ctx.check(got[k] == want[k], f"parse-{k}", f"{got[k]} != {want[k]}", src=src)
    ctx.ev("entries", len(want["entries"]))
    before = canon(res)
    out = "".join(android_serialize(res))
    ctx.check(canon(res) == before, "mutated", "")
    check_output(ctx, res, out, src=src)
    back = android_parse(out, **kw)
    check_same(ctx, nometa(back), nometa(res), "roundtrip", src=src, out=out)
    ctx.check("".join(android_serialize(back)) == out, "unstable", "", src=src, out=out)
    ctx.ev("roundtrips")


def fam_message(ctx):
    rng = ctx.rng
    s = A.string(rng, entities=("foo", "bar"))
    xml = s.xml.replace("<xliff:g", f'<xliff:g xmlns:xliff="{A.XLIFF}"')
    ctx.case(xml)
    msg = android_parse_message(xml) if rng.random() < 0.5 else parse_message(Format.android, xml)
    ctx.check(A.view(msg.pattern) == s.items, "message-parse", f"{A.view(msg.pattern)} != {s.items}", src=xml)
    before = canon(msg)
    for out in (android_serialize_message(msg), serialize_message(Format.android, msg), android_serialize_message(msg, allow_cdata=True)):
        back = android_parse_message(out)
        check_same(ctx, norm(back), norm(msg), "message-roundtrip", src=xml, out=out)
    ctx.check(canon(msg) == before, "mutated", "")
    ctx.ev("message_roundtrips")


def fam_model(ctx):
    rng = ctx.rng
    entries = []
    for name in rng.sample(A.NAMES, rng.randint(1, 4)):
        meta = [Metadata("translatable", "false")] if rng.random() < 0.1 else []
        c = gen.comment(rng, "c", 3) if rng.random() < 0.3 else ""
        r = rng.random()
        if r < 0.15:
            entries.append(Comment(gen.comment(rng, "s", 3)))
        if r < 0.6:
            entries.append(Entry((name,), PatternMessage(A.m_pattern(rng)), comment=c, meta=meta))
        elif r < 0.8:
            cats = rng.sample(["zero", "one", "two", "few", "many"], rng.randint(0, 3))
            v = {(k,): A.m_pattern(rng) for k in cats}
            v[(CatchallKey("other"),)] = A.m_pattern(rng)
            entries.append(Entry((name,), SelectMessage({"quantity": Expression(VariableRef("quantity"), "number")}, (VariableRef("quantity"),), v), comment=c, meta=meta))
        else:
            for k in range(rng.randint(1, 3)):
                entries.append(Entry((name, str(k)), PatternMessage(A.m_pattern(rng)), comment=gen.comment(rng, "c", 2) if rng.random() < 0.3 else "", meta=meta))
    sections = [Section((), entries)]
    if rng.random() < 0.2 or "'entity'" in repr(canon(sections)):
        t = "".join(c for c in A.m_text(rng) if c in "\n\t" or c >= " " and c != "]" and c not in "\x85\x7f")
        sections.insert(0, Section(("!ENTITY",), [Entry(("foo",), PatternMessage([t])), Entry(("bar",), PatternMessage([Expression(VariableRef("foo"), "entity"), "x"]))]))
    res = Resource(Format.android, sections, gen.comment(rng, "r", 2) if rng.random() < 0.2 else "")
    before = canon(res)
    out = "".join(android_serialize(res))
    ctx.case(out)
    ctx.check(canon(res) == before, "mutated", "")
    check_output(ctx, res, out)
    back = android_parse(out)
    check_same(ctx, normres(back), normres(res), "model-roundtrip", res=res, out=out)
    ctx.ev("model_roundtrips")


def fam_placeholders(ctx):
    """Every conversion is a variable of its kind."""
    printf.check(ctx, "android")


FAMILIES = [
    Family("placeholders", fam_placeholders, 6000, 60000, need=['android:boolean', 'android:string', 'android:integer', 'android:number', 'android:datetime', "literal"]),
    Family("document", fam_document, 5000, 150000, need=["entries", "roundtrips", "texts_evaluated"]),
    Family("message", fam_message, 6000, 200000, need=["message_roundtrips"]),
    Family("model", fam_model, 5000, 150000, need=["model_roundtrips", "texts_evaluated"]),
]

"""Entry points for the same work agree, and options do what they say and nothing else."""
from __future__ import annotations

import io
import os
import re
import shutil
import tempfile
from copy import deepcopy

from fluent.syntax import FluentParser, FluentSerializer
from fluent.syntax import ast as ftl

from moz.l10n.formats import Format
from moz.l10n.formats.android import android_parse, android_parse_message, android_serialize, android_serialize_message
from moz.l10n.formats.dtd import dtd_parse, dtd_serialize
from moz.l10n.formats.fluent import (fluent_astify, fluent_astify_entry, fluent_astify_message, fluent_parse, fluent_parse_entry, fluent_parse_message, fluent_serialize,
                                     fluent_serialize_entry, fluent_serialize_message)
from moz.l10n.formats.gettext import gettext_parse, gettext_serialize
from moz.l10n.formats.inc import inc_parse, inc_serialize
from moz.l10n.formats.ini import ini_parse, ini_serialize
from moz.l10n.formats.mf2 import mf2_parse_message, mf2_serialize_message
from moz.l10n.formats.plain_json import plain_json_parse, plain_json_serialize
from moz.l10n.formats.properties import properties_parse, properties_parse_message, properties_serialize, properties_serialize_message
from moz.l10n.formats.webext import webext_parse, webext_parse_message, webext_serialize, webext_serialize_message
from moz.l10n.formats.xliff import xliff_parse, xliff_parse_message, xliff_serialize, xliff_serialize_message
from moz.l10n.message import parse_message, serialize_message
from moz.l10n.model import CatchallKey, Comment, Entry, Metadata, PatternMessage, Resource, Section, SelectMessage
from moz.l10n.resource import parse_resource, serialize_resource

from .. import files, gen, res
from ..core import Family
from ..model import canon, diff

RULE = "distinct by source or resource, options and entry points"
ASSUMPTIONS = ["a string as the value of an entry of WebExtension and .properties files is their source, and the text of the message in all other formats; in Fluent, outer spaces and indents of such strings are layout (as its tests say)",
               "wrapwidth of gettext is at least 20, as for narrower lines polib breaks inside of escapes"]

PARSE = {"android": android_parse, "dtd": dtd_parse, "fluent": fluent_parse, "gettext": gettext_parse, "inc": inc_parse, "ini": ini_parse, "plain_json": plain_json_parse,
         "properties": properties_parse, "webext": webext_parse, "xliff": xliff_parse}
SERIALIZE = {"android": android_serialize, "dtd": dtd_serialize, "fluent": fluent_serialize, "gettext": gettext_serialize, "inc": inc_serialize, "ini": ini_serialize,
             "plain_json": plain_json_serialize, "properties": properties_serialize, "webext": webext_serialize, "xliff": xliff_serialize}
PLURALS = ["zero", "one", "two", "few", "many", "other"]


def c(x):
    return canon(x, linepos=True)


def outcome(f, *args, **kw):
    """The result of a call, or what kind of error it ends with."""
    try:
        out = f(*args, **kw)
        return ("ok", out if isinstance(out, str) or not hasattr(out, "__next__") else "".join(out))
    except Exception as e:
        return ("error", type(e).__name__, re.sub(r"0x[0-9a-f]+", "0x", str(e)))


# --- parse_resource and serialize_resource against the functions of the formats ----------------

def options(rng, fmt):
    """(options of parse_resource, options of the parser, options of serialize_resource, options of the serializer)"""
    pick = lambda: rng.choice([None, False, True])  # noqa: E731
    a, b, x, y = {}, {}, {}, {}

    def put(p, q, name, format_name, v):
        if v is not None:
            p[name] = v
            q[format_name] = v
        elif rng.random() < 0.5 and name not in ("gettext_plurals",):
            q[format_name] = {"fluent_escape_syntax": True}.get(name, False)  # the documented default

    if fmt == "android":
        put(a, b, "android_ascii_spaces", "ascii_spaces", pick())
        put(a, b, "android_literal_quotes", "literal_quotes", pick())
    if fmt == "gettext":
        pl = rng.choice([None, None, PLURALS, ["one", "other", "x", "y", "z", "w"]])
        put(a, b, "gettext_plurals", "plurals", pl)
        put(a, b, "gettext_skip_obsolete", "skip_obsolete", pick())
        put(x, y, "gettext_plurals", "plurals", pl if rng.random() < 0.8 else None)
        if rng.random() < 0.3:
            y["wrapwidth"] = 200
    if fmt == "properties":
        put(a, b, "properties_printf_placeholders", "printf_placeholders", pick())
        if rng.random() < 0.3:
            y["encoding"] = "utf-8"
            b["encoding"] = "utf-8"
            y["serialize_message"] = None
            b["parse_message"] = None
    if fmt == "xliff":
        v = pick()
        put(a, b, "xliff_source_entries", "source_entries", v)
        put(x, y, "xliff_source_entries", "source_entries", v if rng.random() < 0.8 else None)
    if fmt == "fluent":
        put(x, y, "fluent_escape_syntax", "escape_syntax", pick())
        if rng.random() < 0.3:
            b["with_linepos"] = True
    trim = pick()
    if trim is not None:
        x["trim_comments"] = y["trim_comments"] = trim
    elif rng.random() < 0.5:
        y["trim_comments"] = False
    return a, b, x, y


FOREIGN = dict(android_ascii_spaces=True, android_literal_quotes=True, gettext_plurals=PLURALS, gettext_skip_obsolete=True, properties_printf_placeholders=True, xliff_source_entries=True)


def fam_entry_points(ctx):
    rng = ctx.rng
    fmt = files.FORMATS[ctx.index % len(files.FORMATS)]
    f = Format[fmt]
    src = files.source(rng, fmt)
    if fmt == "android" and rng.random() < 0.5:
        plain = src
        src = re.sub(r"(>[^<>]*\S) (\S[^<>]*<)", lambda m: m[1] + rng.choice(["\u2003", " \u2003", "\u3000\u3000", "\xa0", "  ", "\\u0020"]) + m[2], src)
        ctx.ev("other_spaces", src != plain)
    a, b, x, y = options(rng, fmt)
    ctx.case(repr((src, a, x)))
    d = dict(src=src, options=(a, b, x, y))
    want = outcome(PARSE[fmt], src if rng.random() < 0.5 else src.encode(), **b)
    # options of other formats have no effect
    foreign = {k: v for k, v in FOREIGN.items() if not k.startswith(fmt) and rng.random() < 0.3}
    got = outcome(parse_resource, f, src, **a, **foreign)
    ctx.check(got[0] == want[0], f"{fmt}-parse-outcome", f"{got} {want}", **d)
    if got[0] == "error":
        ctx.check(got == want, f"{fmt}-parse-error", f"{got} {want}", **d)
        ctx.ev("same_errors")
        return
    r, r0 = got[1], want[1]
    ctx.check(c(r) == c(r0), f"{fmt}-parse-differs", f"{diff(c(r), c(r0))}", **d)
    ctx.check(r.format == f, f"{fmt}-parse-format", f"{r.format}", **d)
    ctx.ev("parsed_both_ways")
    want = outcome(SERIALIZE[fmt], r0, **y)
    other = {}
    if fmt != "fluent" and rng.random() < 0.3:
        other["fluent_escape_syntax"] = False
    if fmt != "gettext" and rng.random() < 0.3:
        other["gettext_plurals"] = PLURALS
    if fmt != "xliff" and rng.random() < 0.3:
        other["xliff_source_entries"] = True
    got = outcome(serialize_resource, r, **x, **other)
    ctx.check(got == want, f"{fmt}-serialize-differs", f"{got} {want}", **d)
    r2 = deepcopy(r)
    r2.format = rng.choice([None, *Format])
    args = [r2, f]
    kw = dict(x)
    if "trim_comments" in kw and rng.random() < 0.5:
        args.append(kw.pop("trim_comments"))
    got = outcome(serialize_resource, *args, **kw)
    ctx.check(got == want, f"{fmt}-serialize-format", f"{got} {want}", **d)
    ctx.ev("serialized_both_ways" if got[0] == "ok" else "refused_both_ways")


# --- single messages ----------------------------------------------------------------------------

def fam_messages(ctx):
    rng = ctx.rng
    fmt = rng.choice(["android", "fluent", "mf2", "properties", "webext", "xliff", "gettext", "ini", "dtd", "plain_json"])
    f = Format[fmt]
    from .c13 import SAMPLES

    src = rng.choice(SAMPLES) if rng.random() < 0.6 else gen.text(rng, 12)
    kw, own = {}, {}
    flag = lambda: rng.choice([None, False, True])  # noqa: E731
    v = flag()
    if v is not None:
        kw["printf_placeholders"] = v
    if fmt == "properties":
        own = dict(kw)
    v = flag()
    if v is not None:
        kw["xliff_is_xcode"] = v
        if fmt == "xliff":
            own = {"is_xcode": v}
    v = flag()
    if v is not None:
        kw["android_ascii_spaces"] = v
        if fmt == "android":
            own = {"ascii_spaces": v}
    ph = rng.choice([None, {}, {"name": {"content": "$1"}, "b": {"content": "x", "example": "y"}}])
    if ph is not None:
        kw["webext_placeholders"] = deepcopy(ph)
    ctx.case(repr((fmt, src, kw)))
    d = dict(format=fmt, src=src, kw=kw)
    fn = {"android": android_parse_message, "fluent": fluent_parse_message, "mf2": mf2_parse_message, "properties": properties_parse_message, "xliff": xliff_parse_message}.get(fmt)
    if fmt == "webext":
        want = outcome(webext_parse_message, src, ph)
    elif fn:
        want = outcome(fn, src, **own)
    elif kw.get("printf_placeholders"):
        # the same placeholders as in .properties files, which have escapes as well
        want = outcome(properties_parse_message, src.replace("\\", "\\\\"), printf_placeholders=True) if src == src.strip() and not any(x in src for x in "\\\n\r") else None
    else:
        want = ("ok", PatternMessage([src] if src else []))
    got = outcome(parse_message, f, src, **kw)
    if want is None:
        ctx.check(got[0] == "ok", f"{fmt}-message", f"{got}", **d)
        return
    ctx.check(got[0] == want[0], f"{fmt}-message-outcome", f"{got} {want}", **d)
    if got[0] == "error":
        ctx.check(got == want, f"{fmt}-message-error", f"{got} {want}", **d)
        ctx.ev("same_errors")
        return
    m = got[1]
    ctx.check(canon(m) == canon(want[1]), f"{fmt}-message-differs", f"{m} {want[1]}", **d)
    ctx.ev("messages_parsed_both_ways")
    out = {"android": android_serialize_message, "fluent": fluent_serialize_message, "mf2": mf2_serialize_message, "properties": properties_serialize_message, "xliff": xliff_serialize_message}.get(fmt)
    if fmt == "webext":
        want = outcome(webext_serialize_message, m)
        want = ("ok", want[1][0]) if want[0] == "ok" else want
    elif out:
        want = outcome(out, m)
    else:
        return
    got = outcome(serialize_message, f, m)
    if fmt == "webext" and got[0] == "ok" and isinstance(got[1], tuple):
        got = ("ok", got[1][0])
    ctx.check(got == want, f"{fmt}-message-serialized", f"{got} {want}", **d)
    ctx.ev("messages_serialized_both_ways")


# --- strings as values --------------------------------------------------------------------------

def fam_strings(ctx):
    """A resource with strings for values is written as the one with messages is."""
    rng = ctx.rng
    fmt = files.FORMATS[ctx.index % len(files.FORMATS)]
    r = parse_resource(Format[fmt], files.source(rng, fmt))
    a, b = deepcopy(r), deepcopy(r)
    n = 0
    for s, t in zip(a.sections, b.sections):
        for e, g in zip(s.entries, t.entries):
            if isinstance(e, Comment):
                continue
            if fmt in ("properties", "webext"):
                if fmt == "webext" and any(not isinstance(p, str) for p in e.value.pattern):
                    # a string has no placeholders to go with it
                    e.value = g.value = PatternMessage(["x"])
                if rng.random() < 0.5:
                    e.value = g.value = PatternMessage([gen.text(rng, 8)])
                try:
                    v = serialize_message(Format[fmt], e.value)
                except ValueError:
                    e.value = PatternMessage(["x"])
                    v = "x"
                g.value = v if isinstance(v, str) else v[0]
                n += 1
            else:
                if rng.random() < 0.5 or not isinstance(e.value, PatternMessage) or not all(isinstance(p, str) for p in e.value.pattern):
                    if not isinstance(e.value, PatternMessage) and rng.random() < 0.5:
                        continue
                    v = gen.text(rng, 8)
                else:
                    v = "".join(e.value.pattern)
                if fmt == "fluent":  # outer space and indents of strings are layout
                    v = re.sub(r"\s*\n\s*", "\n", v.strip())
                if not v.strip():
                    v = "x"
                e.value = PatternMessage([v])
                g.value = v
                n += 1
    ctx.case(repr(b))
    trim = rng.random() < 0.3
    want = outcome(serialize_resource, a, trim_comments=trim)
    got = outcome(serialize_resource, b, trim_comments=trim)
    ctx.check(got[:2] == want[:2], f"{fmt}-string-values", f"{got} {want}", resource=repr(b))
    ctx.ev("string_values", n)
    ctx.ev("strings_written" if got[0] == "ok" else "strings_refused")


# --- identifiers with several parts -------------------------------------------------------------

PART = ["a", "b", "long-name", "x1", "Z_z", "c"]


def fam_parts(ctx):
    """Sections and parts of identifiers are written as their documented flat form."""
    rng = ctx.rng
    fmt = rng.choice(["dtd", "properties", "ini", "plain_json"])
    seen = set()
    r, flat = Resource(None, []), Resource(None, [])
    for _ in range(rng.choice([1, 2, 3])):
        sid = tuple(rng.choice(PART) for _ in range(rng.choice([0, 1, 1, 2])))
        if fmt == "ini":
            sid = sid or ("s",)
        com = gen.comment(rng) if fmt != "plain_json" and rng.random() < 0.4 else ""
        s = Section(sid, [], comment=com)
        g = Section((".".join(sid),) if fmt == "ini" else (), [], comment=com)
        for _ in range(rng.choice([0, 1, 2, 4])):
            if fmt != "plain_json" and rng.random() < 0.2:
                x = Comment(gen.comment(rng))
                s.entries.append(x)
                g.entries.append(x)
                continue
            id = tuple(rng.choice(PART) for _ in range(rng.choice([1, 1, 2, 3])))
            full = sid + id
            if any(full[:k] in seen for k in range(1, len(full) + 1)) or any(k[:len(full)] == full for k in seen):
                continue
            seen.add(full)
            v = PatternMessage([gen.word(rng)])
            cm = gen.comment(rng) if fmt != "plain_json" and rng.random() < 0.3 else ""
            s.entries.append(Entry(id, v, comment=cm))
            g.entries.append(Entry(full if fmt == "plain_json" else (".".join(id if fmt == "ini" else full),), v, comment=cm))
        if s.entries or fmt != "plain_json":
            r.sections.append(s)
            flat.sections.append(g)
    ctx.case(repr((fmt, r)))
    want = outcome(serialize_resource, flat, Format[fmt])
    got = outcome(serialize_resource, r, Format[fmt])
    ctx.check(got == want, f"{fmt}-parts", f"{got} {want}", resource=repr(r))
    ctx.check(got[0] == "ok", f"{fmt}-parts-refused", f"{got}", resource=repr(r))
    ctx.ev("parts_written")


# --- Fluent --------------------------------------------------------------------------------------

DEFAULTS = dict(trim_comments=False, escape_syntax=True, escape_empty=False)


def given(rng, **kw):
    """The options, with some of those left out that have their documented default."""
    return {k: v for k, v in kw.items() if v != DEFAULTS[k] or rng.random() < 0.5}


def fam_fluent(ctx):
    rng = ctx.rng
    src = files.source(rng, "fluent", rng.random() < 0.5)
    ctx.case(src)
    d = dict(src=src)
    r = fluent_parse(src)
    plain = fluent_parse(src, with_linepos=False)
    ctx.check(canon(r) == canon(plain), "linepos-changes-result", f"{diff(canon(r), canon(plain))}", **d)
    ctx.check(not any(x.linepos for s in plain.sections for x in [s, *s.entries]), "linepos-not-left-out", "", **d)
    tree = FluentParser(with_spans=rng.random() < 0.5).parse(src)
    before = tree.to_json()
    ctx.check(canon(fluent_parse(tree)) == canon(plain), "tree-differs", f"{diff(canon(fluent_parse(tree)), canon(plain))}", **d)
    ctx.check(tree.to_json() == before, "tree-changed", "", **d)
    ctx.ev("trees_parsed")
    trim = rng.random() < 0.3
    esc = rng.random() < 0.7
    text = "".join(fluent_serialize(r, **given(rng, trim_comments=trim, escape_syntax=esc)))
    ast = fluent_astify(r, **given(rng, trim_comments=trim, escape_syntax=esc))
    ctx.check(FluentSerializer().serialize(ast) == text, "astify-differs", "", **d)
    ctx.ev("trees_written")
    # entries and messages one by one
    nodes = [x for x in tree.body if isinstance(x, (ftl.Message, ftl.Term))]
    entries = [e for e in r.all_entries()]
    ctx.check(len(nodes) == len(entries), "entry-count", f"{len(nodes)} {len(entries)}", **d)
    for node, e in zip(nodes, entries):
        p = fluent_parse_entry(node, with_linepos=False)
        ctx.check(canon(p) == canon(e), "entry-node", f"{diff(canon(p), canon(e))}", **d)
        out = fluent_serialize_entry(e, **given(rng, escape_syntax=esc))
        ctx.check(out == FluentSerializer().serialize_entry(fluent_astify_entry(e, **given(rng, escape_syntax=esc))), "entry-astify", f"{out}", **d)
        if esc:
            lp = rng.random() < 0.5
            bare = fluent_serialize_entry(e, comment_str=lambda x: "")  # the Fluent parser of entries skips comments
            p = fluent_parse_entry(bare, with_linepos=lp)
            q = fluent_parse(bare, with_linepos=lp).sections[0].entries[0]
            ctx.check(c(p) == c(q), "entry-text", f"{diff(c(p), c(q))}", **d)
        mark = f"{rng.random()}"
        asked = []
        withc = fluent_serialize_entry(e, comment_str=lambda x: asked.append(x) or mark, escape_syntax=esc)
        e2 = deepcopy(e)
        e2.comment = mark
        ctx.check(len(asked) == 1 and asked[0] is e and withc == fluent_serialize_entry(e2, escape_syntax=esc), "comment_str", f"{withc}", **d)
        for m, pat in [(e.value, node.value), *((e.properties[x.id.name], x.value) for x in node.attributes if [y.id.name for y in node.attributes].count(x.id.name) == 1)]:
            if pat is None:
                continue
            empty = rng.random() < 0.5
            t = fluent_serialize_message(m, **given(rng, escape_syntax=esc, escape_empty=empty))
            a = fluent_astify_message(m, **given(rng, escape_syntax=esc, escape_empty=empty))
            ctx.check(fluent_serialize_message(a) == t, "message-astify", f"{t!r}", **d)
            if not empty:
                ctx.check(serialize_message(Format.fluent, m) == fluent_serialize_message(m), "message-entry-point", "", **d)
            ctx.ev("messages")
    ctx.ev("entries", len(entries))


def fam_fluent_meta(ctx):
    """Metadata is written through serialize_metadata, one field after the other, into the comment it belongs to."""
    rng = ctx.rng
    src = files.source(rng, "fluent", True)
    r = fluent_parse(src)
    r.meta = []
    info = rng.random() < 0.5
    if info:
        r.meta.append(Metadata("info", rng.choice(["License", "a\nb", "x"])))
    fields = []

    def add(x, p):
        for _ in range(rng.choice([1, 1, 2, 3]) if rng.random() < p else 0):
            x.meta.append(Metadata(rng.choice(["k", "info", "since", ""]), rng.choice(["1", "x y", "", "drop"])))

    add(r, 0.4)
    if r.meta and not info and r.meta[0].key == "info":
        r.meta[0] = Metadata("k", "2")
    for s in r.sections:
        add(s, 0.3)
        for e in s.entries:
            if isinstance(e, Entry):
                add(e, 0.3)
    ctx.case(repr(r))
    d = dict(resource=repr(r))

    def ser(m):
        fields.append(m)
        return None if m.value == "drop" else "" if m.value == "" else rng_nl(m) + f"{m.key}: {m.value}"

    def rng_nl(m):
        return "\n" if m.key == "since" else ""

    want = deepcopy(r)
    expected = []

    def fold(x, skip=0):
        x.comment = x.comment.rstrip()
        for m in x.meta[skip:]:
            expected.append(m)
            t = None if m.value in ("drop", "") else f"{m.key}: {m.value}"
            if t:
                x.comment = f"{x.comment}\n{t}" if x.comment else t
        x.meta = x.meta[:skip]

    fold(want, 1 if info else 0)
    for s in want.sections:
        fold(s)
        for e in s.entries:
            if isinstance(e, Entry):
                fold(e)
    out = "".join(fluent_serialize(r, serialize_metadata=ser))
    ctx.check(fields == expected, "metadata-calls", f"{fields} {expected}", **d)
    ctx.check(out == "".join(fluent_serialize(want)), "metadata-written", f"{out}", **d)
    ctx.ev("metadata_fields", len(fields))
    got = outcome(fluent_serialize, r)
    if expected:
        ctx.check(got[0] == "error", "metadata-dropped", f"{got}", **d)
        ctx.ev("metadata_refused")
    else:
        ctx.check(got == ("ok", out), "no-metadata", f"{got}", **d)
    ctx.check(outcome(fluent_serialize, r, trim_comments=True) == outcome(fluent_serialize, want, trim_comments=True), "metadata-trimmed", "", **d)


def fam_fluent_raw(ctx):
    """Without escapes of syntax, text that is Fluent source stays what it is."""
    rng = ctx.rng
    src = files.source(rng, "fluent", True)
    r = fluent_parse(src)
    ctx.case(src)
    raw = deepcopy(r)
    for e in raw.all_entries():
        as_str = rng.random() < 0.5
        t = lambda m: (lambda s: s if as_str else PatternMessage([s]))(fluent_serialize_message(m))  # noqa: E731
        e.value = t(e.value)
        e.properties = {k: t(v) for k, v in e.properties.items()}
    a = "".join(fluent_serialize(r))
    b = "".join(fluent_serialize(raw, escape_syntax=False))
    x, y = fluent_parse(a, with_linepos=False), fluent_parse(b, with_linepos=False)
    ctx.check(canon(x) == canon(y), "raw-differs", f"{diff(canon(y), canon(x))}", src=src, out=b)
    ctx.ev("raw_resources")
    # text with no syntax is the same in both ways
    text = gen.text(rng, 8, exclude="{}")
    for m in (text, PatternMessage([text])):
        p, q = fluent_serialize_message(m), fluent_serialize_message(m, escape_syntax=False)
        ctx.check("\n" in text or "\r" in text or not text or text != text.strip() or q == text, "raw-text", f"{q!r}", text=text)
        ctx.check("{" in p or p == q, "raw-escape", f"{p!r} {q!r}", text=text)
    text = rng.choice(["{ $x }", "a {b} c", "{", "}", "{ -term }", '{ "x" }', "x { y"])
    for m in (text, PatternMessage([text])):
        ctx.eq(fluent_serialize_message(m, escape_syntax=False), text, "raw-syntax")
        p = fluent_parse_message(fluent_serialize_message(m))
        ctx.check(p.pattern == [text] or "".join(x if isinstance(x, str) else x.arg if isinstance(x.arg, str) else "?" for x in p.pattern) == text, "escaped-syntax", f"{p}", text=text)
    ctx.ev("raw_texts")


# --- .properties ---------------------------------------------------------------------------------

def fam_properties(ctx):
    rng = ctx.rng
    src = files.source(rng, "properties")
    ctx.case(src)
    d = dict(src=src)
    r = properties_parse(src)
    values = [(e, e.value.pattern[0] if e.value.pattern else None) for e in r.all_entries()]
    calls = []
    results = []

    def pm(s):
        calls.append(s)
        m = PatternMessage([f"<{len(calls)}>", s])
        results.append(m)
        return m

    got = properties_parse(src, parse_message=pm)
    ctx.eq(calls, [v for _, v in values if v is not None], "parse_message-calls", **d)
    it = iter(results)
    for e, (e0, v) in zip(got.all_entries(), values):
        ctx.check(e.id == e0.id and (e.value is next(it) if v is not None else canon(e.value) == canon(e0.value)), "parse_message-result", f"{e}", **d)
    a, b = deepcopy(got), deepcopy(r)
    for x in (a, b):
        for e in x.all_entries():
            e.value = PatternMessage([])
    ctx.check(c(a) == c(b), "parse_message-rest", f"{diff(c(a), c(b))}", **d)
    ctx.check(outcome(properties_parse, src, parse_message=pm, printf_placeholders=True)[0] == "error", "both-parsers", "", **d)
    ctx.ev("parse_message_calls", len(calls))
    # writing
    asked = []
    enc = rng.choice(["utf-8", "iso-8859-1", "utf-16"])
    trim = rng.random() < 0.3
    texts = {}

    def sm(m):
        asked.append(m)
        t = texts[id(m)] = "".join(m.pattern) if rng.random() < 0.5 else gen.text(rng, 6)
        return t

    out = "".join(properties_serialize(r, encoding=enc, serialize_message=sm, trim_comments=trim))
    ms = [e.value for e in r.all_entries()]
    ctx.check(len(asked) == len(ms) and all(x is y for x, y in zip(asked, ms)), "serialize_message-calls", f"{len(asked)} {len(ms)}", **d)
    r2 = deepcopy(r)
    for e, e0 in zip(r2.all_entries(), r.all_entries()):
        t = texts[id(e0.value)]
        e.value = PatternMessage([t] if t else [])
    want = "".join(properties_serialize(r2, encoding=enc, trim_comments=trim))
    ctx.check(out == want, "serialize_message-result", f"{out} {want}", **d)
    if enc == "iso-8859-1":
        ctx.check(all(ord(ch) < 128 for line in out.splitlines() if not line.startswith(("#", "!")) for ch in line), "encoding-ascii", f"{out}", **d)
    ctx.check("".join(properties_serialize(r2, enc, None, trim)) == want, "positional", "", **d)
    for e in r2.all_entries():
        for m in (e.value,):
            try:
                p, q = properties_serialize_message(m, ensure_ascii=True), properties_serialize_message(m)
            except ValueError:
                continue
            ctx.check(p.isascii(), "ensure_ascii", f"{p!r}", **d)
            ctx.check(properties_parse_message(p).pattern == properties_parse_message(q).pattern, "ensure_ascii-same", f"{p!r} {q!r}", **d)
            if q.isascii() and q.isprintable():
                ctx.check(p == q, "ensure_ascii-ascii", f"{p!r} {q!r}", **d)
            ctx.check(properties_serialize_message(m, ensure_ascii=False) == q == serialize_message(Format.properties, m), "ensure_ascii-default", f"{q!r}", **d)
    ctx.ev("serialize_message_calls", len(asked))


# --- gettext -------------------------------------------------------------------------------------

def fam_gettext(ctx):
    rng = ctx.rng
    src = files.source(rng, "gettext")
    ctx.case(src)
    d = dict(src=src)
    r = gettext_parse(src)
    w = rng.choice([20, 40, 78, 120, 1000])
    out = "".join(gettext_serialize(r, wrapwidth=w))
    back, usual = gettext_parse(out), gettext_parse("".join(gettext_serialize(r)))
    for x in (back, usual):  # lines of comments are wrapped as well
        for e in x.all_entries():
            e.comment = " ".join(e.comment.split())
            e.meta = [Metadata(m.key, " ".join(m.value.split())) if "comment" in m.key else m for m in e.meta]
    ctx.check(canon(back) == canon(usual), "wrapwidth", f"{diff(canon(back), canon(usual))}", width=w, out=out, **d)
    ctx.ev("wrapped")
    # obsolete entries
    skip = gettext_parse(src, skip_obsolete=True)
    want = deepcopy(r)
    for s in want.sections:
        s.entries = [e for e in s.entries if not any(m.key == "obsolete" for m in e.meta)]
        ctx.ev("obsolete_entries", len(r.sections[0].entries) - len(s.entries))
    ctx.check(canon(skip) == canon(want), "skip_obsolete", f"{diff(canon(skip), canon(want))}", **d)
    # plurals
    sizes = [len(e.value.variants) for e in r.all_entries() if isinstance(e.value, SelectMessage)]
    names = [f"p{k}" if rng.random() < 0.5 else w for k, w in enumerate([*PLURALS, *(f"q{k}" for k in range(20))])]
    if sizes and max(sizes) <= len(names):
        named = gettext_parse(src, plurals=names if rng.random() < 0.5 else tuple(names))
        want = deepcopy(r)
        for e in want.all_entries():
            if isinstance(e.value, SelectMessage):
                e.value.variants = {tuple(CatchallKey(names[int(k.value)]) if isinstance(k, CatchallKey) else names[int(k)] for k in key): p for key, p in e.value.variants.items()}
        ctx.check(canon(named) == canon(want), "plural-names", f"{diff(canon(named), canon(want))}", **d)
        ctx.check("".join(gettext_serialize(named, plurals=names)) == "".join(gettext_serialize(r)), "plural-names-written", "", **d)
        ctx.ev("plural_names", len(sizes))


# --- where the source comes from -----------------------------------------------------------------

def fam_sources(ctx):
    """From text, bytes, a file or a stream, the same resource."""
    rng = ctx.rng
    fmt = files.FORMATS[ctx.index % len(files.FORMATS)]
    src = files.source(rng, fmt)
    ctx.case(src)
    d = dict(src=src)
    want = outcome(PARSE[fmt], src)
    got = outcome(PARSE[fmt], src.encode())
    view = lambda o: (o[0], c(o[1]) if o[0] == "ok" else o[1])  # noqa: E731
    ctx.check(view(got) == view(want), f"{fmt}-bytes", f"{got} {want}", **d)
    if fmt == "ini":
        got = outcome(ini_parse, io.StringIO(src))
        ctx.check(view(got) == view(want), "ini-stream", f"{got} {want}", **d)
        ctx.ev("streams")
    dir = tempfile.mkdtemp(prefix="c35-")
    try:
        path = os.path.join(dir, "name" + files.EXT[fmt][0])
        with open(path, "wb") as f:
            f.write(src.encode())
        got = outcome(parse_resource, path)
        given = outcome(parse_resource, path, src)
        found = outcome(parse_resource, path, src.encode())
        ctx.check(view(given) == view(found), f"{fmt}-path-with-source", f"{given} {found}", **d)
        if given[0] == "ok" and given[1].format == Format[fmt]:
            ctx.check(view(given) == view(want), f"{fmt}-path", f"{given} {want}", **d)
            if fmt != "gettext":  # polib reads files with all newlines translated
                ctx.check(view(got) == view(want), f"{fmt}-file", f"{got} {want}", **d)
            else:
                ctx.check(view(got) == view(want) or "\r" in src or any(x in src for x in "\v\f\x1c\x1d\x1e\x85\u2028\u2029"), f"{fmt}-file", f"{got} {want}", **d)
            ctx.ev("files_read")
    finally:
        shutil.rmtree(dir, ignore_errors=True)


FAMILIES = [
    Family("entry_points", fam_entry_points, 3000, 100000, need=["other_spaces", "parsed_both_ways", "serialized_both_ways", "refused_both_ways"]),
    Family("messages", fam_messages, 8000, 300000, need=["messages_parsed_both_ways", "messages_serialized_both_ways", "same_errors"]),
    Family("strings", fam_strings, 2500, 80000, need=["string_values", "strings_written", "strings_refused"]),
    Family("parts", fam_parts, 4000, 120000, need=["parts_written"]),
    Family("fluent", fam_fluent, 600, 20000, need=["trees_parsed", "trees_written", "entries", "messages"]),
    Family("fluent_meta", fam_fluent_meta, 1500, 50000, need=["metadata_fields", "metadata_refused"]),
    Family("fluent_raw", fam_fluent_raw, 800, 30000, need=["raw_resources", "raw_texts"]),
    Family("properties", fam_properties, 1500, 50000, need=["parse_message_calls", "serialize_message_calls"]),
    Family("gettext", fam_gettext, 800, 30000, need=["wrapped", "obsolete_entries", "plural_names"]),
    Family("sources", fam_sources, 1500, 50000, need=["files_read", "streams"]),
]

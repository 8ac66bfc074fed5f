"""XLIFF 1.2: documents, Xcode plurals, messages."""
from __future__ import annotations

import re

from lxml import etree

from moz.l10n.formats import Format
from moz.l10n.formats.xliff.parse import xliff_parse, xliff_parse_message
from moz.l10n.formats.xliff.serialize import xliff_serialize, xliff_serialize_message
from moz.l10n.message import parse_message, serialize_message
from moz.l10n.model import CatchallKey, Comment, Entry, Expression, Markup, PatternMessage, Resource, SelectMessage, VariableRef

from .. import gen
from .. import xliff as X
from .. import printf
from ..core import Family, Skip
from ..model import canon, check_same, norm

RULE = "distinct by source text; seeded random documents"
ASSUMPTIONS = ["files, and groups within one parent, have distinct identifiers, which the library otherwise refuses to serialize",
               "an empty target without attributes is the same as no target, and the order of units relative to sibling groups, and of differently named elements after source and target in a unit, carries no meaning",
               "in plural strings, units of one string may be regrouped, a format key target equal to its source may be added, and text around a substitution may be moved into its variants",
               "XML comments within units and processing instructions are not content"]


def flatgroups(g, path):
    """In document order of sections."""
    yield path, g
    for s in g["groups"]:
        yield from flatgroups(s, path + (s["attrs"].get("id", ""),))


def check_parse(ctx, doc, res, src, source_entries, plural_files):
    want = []
    for f in doc["files"]:
        name = f["attrs"]["original"]
        for path, g in flatgroups(f, (name,)):
            want.append((path, None if name in plural_files else g["units"]))
    ctx.check([s.id for s in res.sections] == [w[0] for w in want], "sections", f"{[s.id for s in res.sections]} != {[w[0] for w in want]}", src=src)
    for s, (_, units) in zip(res.sections, want):
        if units is None:
            continue
        entries = [e for e in s.entries if isinstance(e, Entry)]
        ctx.check([e.id for e in entries] == [(u["attrs"]["id"],) for u in units], "entry-ids", f"{s.id}", src=src)
        for e, u in zip(entries, units):
            ctx.ev("units")
            if u["tag"] == "bin-unit":
                continue
            el = u["source" if source_entries else "target"]
            w = X.tree_items(el[2]) if el else []
            got = X.pat_items(e.value.pattern)
            got = [x if isinstance(x, str) else (x[0], re.sub("^x:", "{%s}" % X.EXT, x[1])) + x[2:] for x in got]
            ctx.check(got == w, "value", f"{e.id}: {got} != {w}", src=src)
            notes = []
            for tag, attrs, content in u["rest"]:
                t = X.tree_text(content).strip()
                if tag == "note" and content:
                    a = dict(attrs).get("from", "")
                    notes.append(f"{a}: {t}" if a else t)
            ctx.check(e.comment == "\n\n".join(notes), "notes", f"{e.id}: {e.comment!r} != {notes}", src=src)


def merged(doc, plural_files):
    """The document without plural files' units, and the units of those by id."""
    p = {}
    for f in doc["files"]:
        if f["attrs"]["original"] in plural_files:
            p[f["attrs"]["original"]] = f["units"]
            f["units"] = None
    return doc, p


def text_of(el):
    return None if el is None else X.tree_text(el[2])


def check_plurals(ctx, name, kind, before, after, detail, se):
    b = {u["attrs"]["id"]: u for u in before}
    a = {u["attrs"]["id"]: u for u in after}
    ctx.check(set(a) == set(b) and len(after) == len(a), "plural-units", f"{name}: {sorted(a)} != {sorted(b)}", **detail)
    # same order of strings, and of the variants of each string
    for key in (lambda i: re.split(r":dict/|\|==\|", i)[0],):
        order = lambda d: {k: [i for i in d if key(i) == k and "NSStringLocalizedFormatKey" not in i] for k in map(key, d)}  # noqa: E731
        ctx.check(list(order(a)) == list(order(b)) and order(a) == order(b), "plural-order", name, **detail)
    for i, u in b.items():
        v = a[i]
        ctx.ev("plural_units")
        fmt = ":dict/NSStringLocalizedFormatKey:dict/" in i
        sub = any(x.startswith(i.split("|==|")[0] + "|==|substitutions.") for x in b)
        fkeep = fmt and u["target"] is None and text_of(v["target"]) == text_of(v["source"])
        for part in ("tag", "attrs", "target" if se else "source"):
            ctx.check(v[part] == u[part] or part == "target" and fkeep, "plural-" + part, f"{i}: {v[part]} != {u[part]}", **detail)
        notes = lambda r: [n for n in r if n[0] != "note" or n[1] or n[2]]  # noqa: E731
        ctx.check(notes(v["rest"]) == notes(u["rest"]), "plural-notes", f"{i}: {v['rest']} != {u['rest']}", **detail)
        if sub:
            ctx.check(se or (v["target"] or "  ")[1] == (u["target"] or "  ")[1], "plural-target-attrs", i, **detail)
            continue
        if fkeep:
            continue
        p = "source" if se else "target"
        ctx.check(v[p] == u[p], "plural-value", f"{i}: {v[p]} != {u[p]}", **detail)


def expand(units, i, base, var, sub, part):
    """Texts a substitution string gives for each category."""
    u = {x["attrs"]["id"]: x for x in units}
    bt = text_of(u[i][part])
    if bt is None:
        return None
    out = {}
    for k, x in u.items():
        if k.startswith(f"{i}|==|substitutions.{var}.plural."):
            out[k.rsplit(".", 1)[1]] = bt.replace(sub, text_of(x[part]) or "")
    return out


def out_of_order(src):
    """Units in which the target does not come right after what it translates."""
    root = etree.fromstring(src.encode())
    bad = []
    for unit in root.iter("{*}trans-unit"):
        tags = [etree.QName(x).localname for x in unit if isinstance(x.tag, str)]
        if "target" in tags and tags[tags.index("target") - 1] not in ("source", "seg-source"):
            bad.append(unit.get("id"))
    return bad


def fam_document(ctx):
    rng = ctx.rng
    src, xp = X.document(rng)
    ctx.case(src)
    doc = X.read(src)
    se = rng.random() < 0.2
    res = xliff_parse(src.encode() if src.startswith("<?") and "encoding" in src or rng.random() < 0.5 else src, source_entries=se)
    pf = {n for n, _, _ in xp}
    check_parse(ctx, doc, res, src, se, pf)
    for name, kind, w in xp:
        check_xcode_parse(ctx, next(s for s in res.sections if s.id == (name,)), kind, w, se, src)
    before = canon(res)
    out = "".join(xliff_serialize(res, source_entries=se))
    ctx.check(canon(res) == before, "mutated", "")
    before = out_of_order(re.sub(r"^<\?xml[^>]*\?>", "", src))
    after = out_of_order(re.sub(r"^<\?xml[^>]*\?>", "", out))
    ctx.check(all(x in before for x in after), "child-order", f"{after} {before}", src=src, out=out)
    got, gp = merged(X.read(out), pf)
    want, wp = merged(doc, pf)
    for k in want:
        if k != "files":
            ctx.check(got[k] == want[k], f"root-{k}", f"{got[k]} != {want[k]}", src=src, out=out)
    ctx.check(len(got["files"]) == len(want["files"]), "files", "", src=src, out=out)
    d = dict(src=src, out=out)
    for g, w in zip(got["files"], want["files"]):
        compare(ctx, g, w, d)
    for name, kind, w in xp:
        check_plurals(ctx, name, kind, wp[name], gp[name], d, se)
        for x in w if kind == "xcstrings" else []:
            if x[0] == "sub":
                e1, e2 = (expand(p[name], x[1], x[2], *x[4], "source" if se else "target") for p in (wp, gp))
                ctx.check(e1 == e2, "substitution", f"{e1} != {e2}", **d)
    back = xliff_parse(out, source_entries=se)
    check_same(ctx, nres(back), nres(res), "roundtrip", **d)
    out2 = "".join(xliff_serialize(back, source_entries=se))
    ctx.check(out2 == out, "unstable", "", out2=out2, **d)
    ctx.ev("roundtrips")


def metakey(m):
    k = re.split(r"[/\[]", m.key)[0]
    return "" if k == "" or k[0] == "@" else {"source": "1", "target": "2"}.get(k, "3" + k)


def nres(res):
    from moz.l10n.model import Section
    return Resource(res.format, [Section(s.id, [e if isinstance(e, Comment) else Entry(e.id, norm(e.value), e.properties, e.comment, sorted(e.meta, key=metakey)) for e in s.entries], s.comment, s.meta) for s in res.sections], res.comment, res.meta)


def compare(ctx, g, w, d, path=""):
    for k in w:
        if k == "groups":
            ctx.check(len(g[k]) == len(w[k]), "groups", path, **d)
            for a, b in zip(g[k], w[k]):
                compare(ctx, a, b, d, f"{path}/{b['attrs'].get('id')}")
        elif k == "units" and w[k] is not None:
            ctx.check([u["attrs"] for u in g[k]] == [u["attrs"] for u in w[k]], "units", f"{path} {[u['attrs'] for u in g[k]]} != {[u['attrs'] for u in w[k]]}", **d)
            for a, b in zip(g[k], w[k]):
                for p in b:
                    ctx.check(a[p] == b[p] or p == "content_first", f"unit-{p}", f"{path} {b['attrs']}: {a[p]} != {b[p]}", **d)
                ctx.check(a["content_first"] or not b["content_first"], "unit-order", path, **d)
        else:
            ctx.check(g[k] == w[k], f"part-{k}", f"{path}: {g[k]} != {w[k]}", **d)


def key_of(k):
    return (k.value or "other") if isinstance(k, CatchallKey) else k


def check_xcode_parse(ctx, section, kind, want, se, src):
    entries = [e for e in section.entries if isinstance(e, Entry)]
    ctx.check([e.id for e in entries] == [((w[0] if kind == "stringsdict" else w[1]),) for w in want], "xcode-ids", f"{[e.id for e in entries]}", src=src)
    for e, w in zip(entries, want):
        ctx.ev("xcode_strings")
        if kind == "stringsdict":
            i, var, (fmt, _), val = w
            sel = e.value.selector_expressions()
            ctx.check(len(sel) == 1 and sel[0].arg == VariableRef(var) and sel[0].attributes.get("source") == fmt, "xcode-format", f"{i}: {sel} {fmt!r}", src=src)
            pats = {key_of(k): "".join(X.pat_items(p)) for (k,), p in e.value.variants.items()}
            exp = {c: (v[0] if se else v[1]) or "" for c, v in val.items()}
            ctx.check(list(pats.items()) == list(exp.items()), "xcode-variants", f"{i}: {pats} != {exp}", src=src)
        else:
            k, i, base, val, ph = w
            if k == "base":
                ctx.check(isinstance(e.value, PatternMessage) and "".join(X.pat_items(e.value.pattern)) == (base[0 if se else 1] or ""), "xcode-base", i, src=src)
                continue
            ctx.check(isinstance(e.value, SelectMessage), "xcode-select", i, src=src)
            pats = {key_of(kk): "".join(X.pat_items(p)) for (kk,), p in e.value.variants.items()}
            exp = {c: v[0 if se else 1] or "" for c, v in val.items()}
            if k == "sub" and (base[0 if se else 1] is not None):
                exp = {c: base[0 if se else 1].replace(ph[1], v) for c, v in exp.items()}
            ctx.check(list(pats.items()) == list(exp.items()), "xcode-variants", f"{i}: {pats} != {exp}", src=src)


def fam_message(ctx):
    rng = ctx.rng
    xcode = rng.random() < 0.4
    xml = X.mixed(rng, False, 2, xcode)
    ctx.case(xml)
    msg = xliff_parse_message(xml, is_xcode=xcode) if rng.random() < 0.5 else parse_message(Format.xliff, xml, xliff_is_xcode=xcode)
    want = X.tree_items(X.tree(X.ET.fromstring(f"<target>{xml}</target>"))[2])
    got = X.pat_items(msg.pattern)
    got = [x if isinstance(x, str) else x[:2] + tuple(tuple(sorted((re.sub("^xml:", "{%s}" % X.XML, k), v) for k, v in o)) for o in x[2:]) for x in got]
    ctx.check(got == want, "message-parse", f"{got} != {want}", src=xml)
    for out in (xliff_serialize_message(msg), serialize_message(Format.xliff, msg)):
        t = X.tree_items(X.tree(X.ET.fromstring(f"<target>{out}</target>"))[2])
        ctx.check(t == want, "message-content", f"{t} != {want}", src=xml, out=out)
        check_same(ctx, norm(xliff_parse_message(out, is_xcode=xcode)), norm(msg), "message-roundtrip", src=xml, out=out)
    ctx.ev("message_roundtrips")


XC = ('<xliff version="1.2" xmlns="urn:oasis:names:tc:xliff:document:1.2"><file original="a.{}" source-language="en" datatype="plaintext"><header><tool tool-id="com.apple.dt.xcode" tool-name="X" '
      'tool-version="1" build-num="1"/></header><body>{}</body></file></xliff>')


def xc_unit(i, s="s", t="t", more=""):
    return f'<trans-unit id="{i}"><source>{s}</source><target>{t}</target>{more}</trans-unit>'


def fam_broken(ctx):
    """Xcode files with one thing wrong: refused, whatever else is in the file."""
    rng = ctx.rng
    kind = rng.choice(["xcstrings", "xcstrings", "stringsdict"])
    bad_cat = rng.choice(["two-ish", "Other", "", "ones", "plural", "other ", "=1"])
    if kind == "xcstrings":
        pl, dev, sub = "k|==|plural.", "k|==|device.", "k|==|substitutions.v.plural."
        good = [rng.choice([[xc_unit("g")], [xc_unit("g|==|plural.one", "%d"), xc_unit("g|==|plural.other", "%d")], [xc_unit("g", "a %#@v@", "b %#@v@"), xc_unit("g|==|substitutions.v.plural.other", "%arg")], [xc_unit("g|==|device.other")]])]
        name, us = rng.choice([
            ("category", [xc_unit(pl + bad_cat, "%d"), xc_unit(pl + "other", "%d")]),
            ("sub-category", [xc_unit("k", "a %#@v@", "b %#@v@"), xc_unit(sub + bad_cat, "%arg"), xc_unit(sub + "other", "%arg")]),
            ("no-other", [xc_unit(pl + "one", "%d")]),
            ("no-other", [xc_unit(dev + "ipad")]),
            ("mixed", [xc_unit("k"), xc_unit(pl + "other", "%d")]),
            ("mixed", [xc_unit("k"), xc_unit(dev + "other")]),
            ("mixed", [xc_unit(dev + "other"), xc_unit(pl + "other", "%d")]),
            ("mixed", [xc_unit("k", "a %#@v@", "b %#@v@"), xc_unit(sub + "other", "%arg"), xc_unit(rng.choice([pl, dev]) + "other", "%d")]),
            ("no-base", [xc_unit(sub + "other", "%arg")]),
            ("id", [xc_unit(rng.choice(["k|==|plural", "k|==|plural.a.b", "k|==|plural.other.x", "k|==|other", "k|==|", "k|==|substitutions.v.other", "k|==|substitutions.plural.other", "k|==|substitutions.v.device.other", "k|==|device.ipad.plural.one",
                                        "k|==|plural.one|==|device.mac", "k|==|device", "k|==|Plural.other"]))]),
            ("twice", [xc_unit("k"), xc_unit("k", "s2", "t2")]),
            ("twice", [xc_unit(pl + "other", "%d"), xc_unit(pl + "other", "%d x", "%d y")]),
            ("child", [xc_unit("k", more=rng.choice(["<alt-trans><target>x</target></alt-trans>", "<x/>", "<context-group name='a'/>", "<source>b</source>", "<target>b</target>", "text", "<note><b/></note>"]))]),
            ("inline", [xc_unit("k", rng.choice(["a <x id='1'/>", "<g id='1'>a</g>"]))]),
            ("inline", [xc_unit("k", "s", rng.choice(["a <x id='1'/>", "<g id='1'>a</g>"]))]),
            ("no-source", ['<trans-unit id="k"><target>t</target></trans-unit>']),
            ("no-id", ["<trans-unit><source>s</source></trans-unit>"]),
            ("element", [rng.choice(["<group id='g'>" + xc_unit("k") + "</group>", '<bin-unit id="b" mime-type="x"><bin-source/></bin-unit>'])]),
            ("text", ['<trans-unit id="k">text<source>s</source></trans-unit>']),
        ])
    else:
        fmt, var = "/k:dict/NSStringLocalizedFormatKey:dict/:string", "/k:dict/v:dict/"
        good = [[xc_unit("/g:dict/w:dict/other:dict/:string", "%d")]]
        ok = [xc_unit(fmt, "%#@v@", "%#@v@"), xc_unit(var + "other:dict/:string", "%d")]
        name, us = rng.choice([
            ("category", [*ok, xc_unit(var + bad_cat + ":dict/:string", "%d")]),
            ("variable", [*ok, xc_unit("/k:dict/w:dict/one:dict/:string", "%d")]),
            ("variable", [xc_unit(fmt, "%#@w@", "%#@w@"), ok[1]]),
            ("variable", [ok[1], xc_unit(fmt, "%#@w@", "%#@w@")]),
            ("format", [xc_unit(fmt, rng.choice(["a", "%d", "%#@@", "", "%#@v"])), ok[1]]),
            ("twice", [ok[0], *ok]),
            ("twice", [*ok, ok[1]]),
            ("child", [ok[0], xc_unit(var + "other:dict/:string", "%d", more=rng.choice(["<alt-trans><target>x</target></alt-trans>", "<x/>", "<source>b</source>", "<target>b</target>"]))]),
            ("inline", [ok[0], xc_unit(var + "other:dict/:string", "a <x id='1'/>")]),
            ("id", [xc_unit("/k:dict/NSStringLocalizedFormatKey:dict/x:dict/:string", "%#@v@", "%#@v@"), ok[1]]),
            ("id", [*ok, xc_unit("/k:dict/v:dict/one:dict/x:dict/:string", "%d")]),
        ])
    if rng.random() < 0.3:
        rng.shuffle(us)
    body = "".join(us)
    if rng.random() < 0.5:
        body = "".join(good[0]) + body
    src = XC.format(kind, body)
    ctx.case((kind, name, src))
    se = rng.random() < 0.3
    try:
        res = xliff_parse(src, source_entries=se)
    except ValueError:
        ctx.ev("refused_" + name)
        return
    # Text, as well as ids that are not those of a .stringsdict, make a file one of plain strings
    if kind == "stringsdict" and not any(not isinstance(e.value, PatternMessage) for e in res.sections[0].entries if isinstance(e, Entry)):
        ctx.ev("plain")
        return
    ctx.fail("broken-" + name, "a file with broken Xcode strings is read", src=src, got=canon(res))


def fam_placeholders(ctx):
    """Every conversion is a variable of its kind."""
    printf.check(ctx, "xcode")


FAMILIES = [
    Family("placeholders", fam_placeholders, 6000, 60000, need=['xcode:string', 'xcode:integer', 'xcode:number', 'xcode:None', "literal"]),
    Family("document", fam_document, 3000, 100000, need=["units", "plural_units", "xcode_strings", "roundtrips"]),
    Family("broken", fam_broken, 4000, 40000, need=["refused_" + k for k in ("category", "sub-category", "no-other", "mixed", "no-base", "id", "twice", "child", "inline", "no-source", "no-id", "element", "text", "variable", "format")]),
    Family("message", fam_message, 5000, 150000, need=["message_roundtrips"]),
]

"""Gettext catalogs against an independent reader."""
from __future__ import annotations

import os
import re
import tempfile

from moz.l10n.formats import Format
from moz.l10n.formats.gettext.parse import gettext_parse
from moz.l10n.formats.gettext.serialize import gettext_serialize
from moz.l10n.model import CatchallKey, Entry, Expression, Metadata, PatternMessage, Resource, Section, SelectMessage, VariableRef
from moz.l10n.resource import parse_resource, serialize_resource

from .. import gen, po
from ..core import Family
from ..model import canon, check_same

RULE = "distinct by source or output text; seeded random catalogs"
ASSUMPTIONS = ["catalogs start with a header entry, and escapes are those of the C standard except \\a, octal and hexadecimal",
               "obsolete messages hold only translator comments and flags in addition to their text, as gettext tools write them; fuzzy marks of the header entry are not message content",
               "white space in comments may change where long lines are wrapped; the order of header fields carries no meaning",
               "texts with Unicode line separators are parsed from a file, as the repository's tests require the parsing of such contents to fail (known finding)"]

CATS = ["zero", "one", "two", "few", "many", "other"]
sq = lambda s: re.sub(r"\s+", " ", s).strip()  # noqa: E731


def view(res, plurals=None):
    """The library's resource in the reader's form."""
    out = []
    for s in res.sections:
        for e in s.entries:
            d = dict(ctx=e.id[1] if len(e.id) == 2 else None, id=e.id[0], plural=None, flags=[], refs=[], auto=sq(e.comment), trans="", prev={}, obsolete=False)
            for m in e.meta:
                if m.key == "flag":
                    d["flags"].append(m.value)
                elif m.key == "reference":
                    d["refs"].append(m.value)
                elif m.key == "plural":
                    d["plural"] = m.value
                elif m.key == "translator-comments":
                    d["trans"] = sq(m.value)
                elif m.key == "obsolete":
                    d["obsolete"] = m.value == "true"
                elif m.key.startswith("previous-"):
                    d["prev"][m.key[9:]] = m.value
                else:
                    d.setdefault("extra", []).append(m.key)
            if isinstance(e.value, SelectMessage):
                sel = e.value.selector_expressions()
                assert len(sel) == 1 and sel[0].function == "number"
                ks = [(k.value if isinstance(k, CatchallKey) else k) for (k,) in e.value.variants]
                assert ks == ([str(i) for i in range(len(ks))] if plurals is None else list(plurals[:len(ks)])), ks
                assert [isinstance(k, CatchallKey) for (k,) in e.value.variants] == [False] * (len(ks) - 1) + [True]
                d["str"] = ["".join(p) for p in e.value.variants.values()]
            else:
                d["str"] = "".join(e.value.pattern)
            out.append(d)
    return out


def norm_read(d):
    d = dict(d)
    d["auto"], d["trans"] = sq(" ".join(d["auto"])), sq(" ".join(d["trans"]))
    d["prev"] = {{"msgctxt": "context", "msgid": "id", "msgid_plural": "plural"}[k]: v for k, v in d["prev"].items()}
    return d




def parse(ctx, src, sep, **kw):
    r = ctx.rng.random()
    if sep or r < 0.04:
        with tempfile.TemporaryDirectory() as d:
            p = os.path.join(d, "x.po")
            with open(p, "w", encoding="utf-8", newline="") as f:
                f.write(src)
            ctx.ev("parsed_files")
            return parse_resource(p, **{"gettext_" + k: v for k, v in kw.items()})
    if r < 0.1:
        return parse_resource(Format.gettext, src, **{"gettext_" + k: v for k, v in kw.items()})
    return gettext_parse(src if r < 0.6 else src.encode(), **kw)


def fam_document(ctx):
    rng = ctx.rng
    sep = rng.random() < 0.03
    src, want = po.document(rng, sep)
    ctx.case(src)
    plurals = rng.sample(CATS, 4)[:rng.randint(1, 4)] if rng.random() < 0.2 else None
    if plurals and any(e["plural"] is not None and len(e["str"]) > len(plurals) for e in want["entries"]):
        plurals = None
    if plurals and want["npl"] and want["npl"] > len(plurals):
        plurals = None
    raw = po.read(src, strict=False)
    assert raw[0]["id"] == "" and [{k: v for k, v in x.items()} for x in raw[1:]] == want["entries"], "reader and generator disagree"
    res = parse(ctx, src, sep, plurals=plurals)
    ctx.check(sq(res.comment) == sq(want["comment"]), "header-comment", f"{res.comment!r}", src=src)
    ctx.check({m.key: m.value for m in res.meta} == want["head"], "header", f"{res.meta}", src=src)
    exp = [norm_read(e) for e in want["entries"]]
    lib = view(res, plurals)
    ctx.check(len(lib) == len(exp), "count", f"{len(lib)} != {len(exp)}", src=src)
    for g, w in zip(lib, exp):
        ctx.check(g == w, "entry", f"\n got  {g}\n want {w}", src=src)
        ctx.ev("entries")
    if rng.random() < 0.1:
        r2 = parse(ctx, src, sep, skip_obsolete=True, plurals=plurals)
        ctx.check(view(r2, plurals) == [d for d in lib if not d["obsolete"]], "skip-obsolete", "", src=src)
    before = canon(res)
    kw = {"plurals": plurals}
    if rng.random() < 0.3:
        kw["wrapwidth"] = rng.choice([0, 20, 78, 1000])
    out = "".join(gettext_serialize(res, **kw))
    ctx.check(canon(res) == before, "mutated", "")
    try:
        back = po.read(out)
    except po.BadPO as e:
        ctx.fail("invalid-output", str(e), src=src, out=out)
    npl = want["npl"] or 1
    for w in exp:
        if w["plural"] is not None and len(w["str"]) < npl:
            w["str"] = w["str"] + [""] * (npl - len(w["str"]))
    got = [norm_read(x) for x in back[1:]]
    for g, w in zip(got, exp):
        ctx.check(g == w, "output-entry", f"\n got  {g}\n want {w}", src=src, out=out)
    ctx.check(len(got) == len(exp), "output-count", "", src=src, out=out)
    ctx.check(po.header_fields(back[0]["str"]) == want["head"] and sq(" ".join(back[0]["trans"])) == sq(want["comment"]), "output-header", f"{back[0]}", src=src, out=out)
    again = parse(ctx, out, sep, plurals=plurals)
    a, b = view(again, plurals), exp
    ctx.check(a == b, "roundtrip", f"{a} != {b}", src=src, out=out)
    if kw.get("wrapwidth", 200) == 200:
        ctx.check("".join(gettext_serialize(again, plurals=plurals)) == out, "unstable", "", src=src, out=out)
    ctx.ev("roundtrips")


def model_meta(ctx):
    """A comment and metadata as a caller may build them, and how a reader sees them."""
    rng = ctx.rng
    md, extra = [], dict(flags=[], refs=[], auto="", trans="", prev={}, obsolete=False)
    comment = ""
    if rng.random() < 0.5:
        return comment, md, extra
    trans = [gen.comment(rng, "t", 2) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]
    md += [Metadata("translator-comments", t) for t in trans]
    extra["trans"] = sq(" ".join(trans))
    if rng.random() < 0.2:
        v = rng.choice(["true", "", "yes", "false"])
        md.append(Metadata("obsolete", v))
        extra["obsolete"] = v != "false"
    if not extra["obsolete"]:
        comment = gen.comment(rng, "c", 2) if rng.random() < 0.5 else ""
        extra["auto"] = sq(comment)
        extra["refs"] = [f"{rng.choice(['a.c', 'dir/b.py', 'x'])}{rng.choice([':0', ':1', ':77', ''])}" for _ in range(rng.choice([0, 1, 2, 3]))]
        md += [Metadata("reference", x) for x in extra["refs"]]
        extra["flags"] = rng.sample(["fuzzy", "c-format", "no-wrap", "range: 0..4"], rng.choice([0, 0, 1, 2]))
        md += [Metadata("flag", x) for x in extra["flags"]]
        for k in ("context", "id", "plural"):
            if rng.random() < 0.25:
                extra["prev"][k] = po.text(rng)
                md.append(Metadata("previous-" + k, extra["prev"][k]))
    # metadata of different kinds may be in any order
    if rng.random() < 0.3:
        kinds = list(dict.fromkeys(m.key for m in md))
        rng.shuffle(kinds)
        md = [m for k in kinds for m in md if m.key == k]
    ctx.ev("model_metadata")
    return comment, md, extra


def fam_model(ctx):
    """Catalogs built from the model, with plural names, catch-all keys and header counts that differ."""
    rng = ctx.rng
    plurals = [c for c in CATS if c == "other" or rng.random() < 0.5] if rng.random() < 0.5 else None
    npl = rng.choice([None, 1, 2, 3, 4])
    if plurals and npl:
        npl = min(npl, len(plurals))
    meta = [Metadata("Language", "fr")] + ([Metadata("Plural-Forms", f"nplurals={npl}; plural=0;")] if npl else [])
    entries, want = [], []
    for k in range(rng.randint(1, 4)):
        i = (f"id{k} " + po.text(rng),) + ((po.text(rng),) if rng.random() < 0.3 else ())
        comment, md, extra = model_meta(ctx)
        if rng.random() < 0.4:
            t = po.text(rng)
            cut = rng.randint(0, len(t))
            entries.append(Entry(i, PatternMessage([t[:cut], t[cut:]] if rng.random() < 0.5 else [t]), comment=comment, meta=md))
            want.append((i, None, t, extra))
            continue
        n = rng.randint(1, len(plurals)) if plurals else rng.choice([npl or 1, rng.randint(1, 4)])
        texts = [po.text(rng) for _ in range(n)]
        # some of the forms may be missing
        idx = list(range(n))
        if rng.random() < 0.2:
            idx = sorted(rng.sample(range(len(plurals) if plurals else 5), n))
            ctx.ev("missing_forms")
        names = [plurals[j] for j in idx] if plurals else list(map(str, idx))
        last = len(plurals) if plurals else (npl or 1)
        keys = [(x,) for x in names[:-1]]
        named = rng.random() < 0.5
        if rng.random() < 0.2:
            keys.append((names[-1],))
        elif named or last != idx[-1] + 1:
            keys.append((CatchallKey(names[-1]),))
        else:
            keys.append((CatchallKey(),))
        order = list(range(n))
        if rng.random() < 0.2:
            rng.shuffle(order)
        md.insert(rng.randint(0, len(md)), Metadata("plural", "pl" + i[0]))
        entries.append(Entry(i, SelectMessage({"n": Expression(VariableRef("n"), "number")}, (VariableRef("n"),), {keys[j]: [texts[j]] for j in order}), comment=comment, meta=md))
        forms = dict(zip(idx, texts))
        want.append((i, "pl" + i[0], [forms.get(j, "") for j in range(max(npl or 1, idx[-1] + 1))], extra))
    res = Resource(Format.gettext, [Section((), entries)], "", meta)
    out = "".join(serialize_resource(res, gettext_plurals=plurals) if rng.random() < 0.3 else gettext_serialize(res, plurals=plurals))
    ctx.case(out)
    back = po.read(out)
    parts = lambda x: ((x["id"],) if x["ctx"] is None else (x["id"], x["ctx"]), x["plural"], x["str"], {k: x[k] for k in ("flags", "refs", "auto", "trans", "prev", "obsolete")})  # noqa: E731
    got = [parts(norm_read(x)) for x in back[1:]]
    ctx.check(got == want, "model-output", f"\n got  {got}\n want {want}", res=res, out=out)
    again = gettext_parse(out, plurals=plurals)
    g2 = [parts(x) for x in view(again, plurals)]
    ctx.check(g2 == want, "model-roundtrip", f"\n got  {g2}\n want {want}", res=res, out=out)
    ctx.ev("model_roundtrips")


def fam_known(ctx):
    if ctx.index == 1:
        ctx.case("obsolete-previous")
        src = '#\nmsgid ""\nmsgstr ""\n\n#~| msgid "old"\n#~ msgid "a"\n#~ msgstr "c"\n'
        out = "".join(gettext_serialize(gettext_parse(src)))
        ctx.check("old" in out, "obsolete-previous", out, src=src)
        return
    if ctx.index == 2:
        ctx.case("ten-plurals")
        src = '#\nmsgid ""\nmsgstr "Plural-Forms: nplurals=11; plural=n%11;"\n\nmsgid "a"\nmsgid_plural "b"\n' + "".join(f'msgstr[{i}] "f{i}"\n' for i in range(11))
        got = [p[0] if p else "" for p in next(gettext_parse(src).all_entries()).value.variants.values()]
        ctx.check(got == [f"f{i}" for i in range(11)], "ten-plurals", f"{got}", src=src)
        return
    ctx.case("line-separator")
    src = 'msgid ""\nmsgstr ""\n\nmsgid "a\u2028b"\nmsgstr "c"\n'
    try:
        res = gettext_parse(src)
    except OSError as e:
        ctx.report("line-separator", f"{e}", src=src)
        return
    ctx.check(res.sections[0].entries[0].id == ("a\u2028b",), "line-separator-value", "")


FAMILIES = [
    Family("document", fam_document, 4000, 120000, need=["entries", "roundtrips", "parsed_files"]),
    Family("model", fam_model, 4000, 120000, need=["model_roundtrips", "missing_forms", "model_metadata"]),
    Family("known", fam_known, 3, 3),
]

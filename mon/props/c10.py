"""Plain JSON and WebExtension messages against a reader with the platform's rules."""
from __future__ import annotations

import copy
import json
import re

from moz.l10n.formats import Format
from moz.l10n.formats.plain_json.parse import plain_json_parse
from moz.l10n.formats.plain_json.serialize import plain_json_serialize
from moz.l10n.formats.webext.parse import webext_parse, webext_parse_message
from moz.l10n.formats.webext.serialize import webext_serialize, webext_serialize_message
from moz.l10n.message import parse_message
from moz.l10n.model import Comment, Entry, Expression, PatternMessage, Resource, Section, VariableRef

from .. import gen
from .. import jsonfmt as J
from ..core import Family
from ..model import canon, check_same, flat

RULE = "distinct by source or output text; seeded random files and resources"
ASSUMPTIONS = ["JSON objects have no duplicate keys; objects without any strings hold nothing",
               "placeholders that no message text refers to are not content, and a digit does not directly follow an indexed placeholder",
               "the rules of the platform are Firefox's and Chrome's: $name$ is replaced first, then $1 to $9 and runs of $",
               "placeholder names of one message that differ only by @ and _ or a leading underscore may be refused"]


def encode(rng, src, webext=False):
    r = rng.random()
    if r < 0.5:
        return src
    if r < 0.8 or webext:
        return src.encode()
    return src.encode(rng.choice(["utf-8-sig", "utf-16", "utf-16-le", "utf-32"]))


def pairs(text):
    """(path, string) of a JSON text, failing on duplicate keys."""
    def hook(ps):
        if len({k for k, _ in ps}) < len(ps):
            raise ValueError(f"duplicate keys in {[k for k, _ in ps]}")
        return dict(ps)

    return json.loads(text, object_pairs_hook=hook)


def fam_plain(ctx):
    rng = ctx.rng
    obj = J.tree(rng)
    src = J.dump(rng, obj)
    ctx.case(src)
    want = list(J.leaves(obj))
    res = plain_json_parse(encode(rng, src))
    ctx.ev("plain_entries", len(want))
    ctx.ev("plain_nested", sum(len(p) > 1 for p, _ in want))
    ctx.check(res.format == Format.plain_json and not res.comment and not res.meta and [s.id for s in res.sections] == [()], "plain-shape", "", src=src, res=res)
    ctx.eq([(e.id, flat(e.value)) for e in res.sections[0].entries], want, "plain-parse", src=src)
    ctx.check(all(not e.comment and not e.meta and not e.properties for e in res.sections[0].entries), "plain-extra", "", src=src, res=res)
    before = canon(res)
    out = "".join(plain_json_serialize(res))
    ctx.check(canon(res) == before, "mutated", "serializing changed the resource", src=src)
    ctx.eq(list(J.leaves(pairs(out))), want, "plain-output", src=src, out=out)
    check_same(ctx, plain_json_parse(out), res, "plain-reparse", src=src, out=out)


def fam_webext(ctx):
    rng = ctx.rng
    obj = J.wx_file(rng)
    comments = rng.random() < 0.4
    src = J.dump(rng, obj, comments)
    assert json.loads(J.strip_comments(src)) == obj
    ctx.case(src)
    res = webext_parse(encode(rng, src, True))
    ctx.ev("webext_messages", len(obj))
    ctx.ev("webext_commented", "//" in re.sub(r'"(\\.|[^"\\])*"', "", src))
    want = [(k, m.get("description", ""), J.wx_meaning(m["message"], m.get("placeholders"))) for k, m in obj.items()]
    ctx.ev("webext_placeholders", sum(isinstance(x, tuple) and x[0] == "ph" for w in want for x in w[2]))
    ctx.ev("webext_indexed", sum(isinstance(x, tuple) and x[0] == "arg" for w in want for x in w[2]))
    ctx.ev("webext_dollars", sum(isinstance(x, str) and "$" in x for w in want for x in w[2]))
    ctx.check(res.format == Format.webext and not res.comment and not res.meta and [s.id for s in res.sections] == [()], "webext-shape", "", src=src, res=res)

    def view(res):
        return [(e.id[0], e.comment, J.wx_view(e.value)) for e in res.sections[0].entries]

    ctx.eq(view(res), want, "webext-parse", src=src)
    ctx.check(all(len(e.id) == 1 and not e.meta and not e.properties for e in res.sections[0].entries), "webext-extra", "", src=src, res=res)
    for e, m in zip(res.sections[0].entries, obj.values()):
        used = {r.lower() for r in J.wx_refs(m["message"])}
        ctx.check(len(e.value.declarations) == len(used), "webext-declarations", "", src=src, entry=e)
    before = canon(res)
    out = "".join(webext_serialize(res))
    ctx.check(canon(res) == before, "mutated", "serializing changed the resource", src=src)
    back = pairs(out)
    ctx.eq([(k, m.get("description", ""), J.wx_meaning(m["message"], m.get("placeholders"))) for k, m in back.items()], want, "webext-output", src=src, out=out)
    for k, m in back.items():
        ctx.check(set(m) <= {"message", "description", "placeholders"}, "webext-output-keys", k, src=src, out=out)
        for n, p in m.get("placeholders", {}).items():
            ctx.check(re.fullmatch(J.NAME, n) and n.lower() in {x.lower() for x in J.wx_refs(m["message"])} and set(p) <= {"content", "example"}, "webext-output-placeholder", n, src=src, out=out)
    ctx.eq(view(webext_parse(out)), want, "webext-reparse", src=src, out=out)
    out2 = "".join(webext_serialize(webext_parse(out)))
    ctx.check(out2 == out, "webext-stable", "", src=src, out=out, again=out2)


def fam_message(ctx):
    """Single messages, with the same placeholders object used again and again."""
    rng = ctx.rng
    names = gen.uniq(rng, lambda: J.ph_name(rng), rng.randint(1, 3), key=J.canon_name)
    ph = {n: {"content": rng.choice(J.PH_CONTENT), **({"example": "x"} if rng.random() < 0.5 else {})} for n in names}
    before = copy.deepcopy(ph)
    for _ in range(3):
        src = J.wx_pattern(rng, names)
        missing = [r for r in J.wx_refs(src) if r.lower() not in {n.lower() for n in names}]
        ctx.case(src + repr(ph))
        parse = rng.choice([lambda: webext_parse_message(src, ph), lambda: parse_message(Format.webext, src, webext_placeholders=ph)])
        if missing:
            try:
                parse()
            except ValueError:
                ctx.ev("missing_refused")
                continue
            ctx.fail("webext-missing", "", src=src, placeholders=ph)
        msg = parse()
        ctx.ev("single_messages")
        ctx.check(ph == before, "webext-mutated-placeholders", "", src=src, placeholders=ph, before=before)
        want = J.wx_meaning(src, ph)
        ctx.eq(J.wx_view(msg), want, "webext-message", src=src)
        s2, ph2 = webext_serialize_message(msg)
        ctx.eq(J.wx_meaning(s2, ph2), want, "webext-message-output", src=src, out=s2)
        check_same(ctx, webext_parse_message(s2, ph2), msg, "webext-message-reparse", src=src, out=s2)


# ------------------------------------------------------------------ from the data model

def fam_model_plain(ctx):
    rng = ctx.rng
    sections = []
    few = rng.random() < 0.5
    part = (lambda: rng.choice("abc")) if few else (lambda: J.key(rng))
    for _ in range(rng.choice([1, 1, 2, 3])):
        entries = []
        for _ in range(rng.choice([0, 1, 2, 4])):
            if rng.random() < 0.03:
                entries.append(Comment("c"))
                continue
            v = J.string(rng)
            i = rng.randint(0, len(v))
            entries.append(Entry(tuple(part() for _ in range(rng.choice([1, 1, 2, 3]))), rng.choice([v, PatternMessage([v]), PatternMessage([v[:i], v[i:]])]), comment="c" if rng.random() < 0.03 else ""))
        sections.append(Section(tuple(part() for _ in range(rng.choice([0, 0, 1, 2]))), entries))
    res = Resource(Format.plain_json, sections)
    ctx.case(repr(res))
    want = [(s.id + e.id, e.value if isinstance(e.value, str) else flat(e.value)) for s in sections for e in s.entries if isinstance(e, Entry)]
    paths = [p for p, _ in want] + [s.id for s in sections if s.id]
    leafs = [p for p, _ in want]
    clash = len(set(leafs)) < len(leafs) or any(p != q and q[:len(p)] == p for p in leafs for q in paths) or any(s.id == p for s in sections for p in leafs)
    extra = any(e.comment for s in sections for e in s.entries)
    trim = rng.random() < 0.2
    before = canon(res)
    try:
        out = "".join(plain_json_serialize(res, trim_comments=trim))
    except ValueError as e:
        ctx.ev("plain_refused")
        ctx.check(clash or (extra and not trim), "plain-refused", str(e), res=res)
        return
    ctx.ev("plain_written")
    ctx.check(canon(res) == before, "mutated", "serializing changed the resource", res=res)
    ctx.check(trim or not extra, "plain-comment-lost", "", res=res, out=out)
    ctx.eq(sorted(J.leaves(pairs(out))), sorted(want), "plain-model-output", res=res, out=out)
    back = plain_json_parse(out)
    ctx.eq(sorted((e.id, flat(e.value)) for e in back.all_entries()), sorted(want), "plain-model-reparse", res=res, out=out)


def m_wx(rng):
    decl = {}
    pattern = []
    names = gen.uniq(rng, lambda: J.ph_name(rng).replace("@", "_"), rng.choice([0, 1, 2]))
    for n in names:
        n = "_" + n if n[0].isdigit() else n
        r = rng.random()
        a = {"example": gen.plain(rng, 1)} if rng.random() < 0.3 else {}
        k = rng.randint(1, 9)
        decl[n] = (Expression(VariableRef(f"arg{k}"), attributes={"source": f"${k}", **a}) if r < 0.4 else Expression(VariableRef(f"arg{k}"), attributes=a) if r < 0.5
                   else Expression(VariableRef("other"), attributes=a) if r < 0.53 else Expression(rng.choice(J.PH_CONTENT), attributes=a))
    for _ in range(rng.choice([0, 1, 2, 3, 4])):
        r = rng.random()
        if r < 0.5:
            pattern.append(J.wx_text(rng))
        elif r < 0.65:
            k = rng.randint(1, 9)
            pattern.append(Expression(VariableRef(f"arg{k}"), attributes={"source": f"${k}"} if rng.random() < 0.8 else {}))
        elif r < 0.7:
            pattern.append(rng.choice([Expression(VariableRef("nosuch")), Expression("lit"), Expression(VariableRef("x"), "number"), Expression(VariableRef("foo"), attributes={"source": "$nosuch$"})]))
        elif decl:
            n = rng.choice(list(decl))
            s = rng.choice([None, f"${n}$", f"${n.upper()}$", f"${n}$", "$a b$", f"${n}", "$other$"]) if rng.random() < 0.9 else 1
            pattern.append(Expression(VariableRef(n), attributes={"source": s} if isinstance(s, str) else {}))
    return PatternMessage(pattern, decl)


def intended(msg):
    """What the model says, or None where that is not expressible at all."""
    out = []
    for p in msg.pattern:
        if isinstance(p, str):
            if p:
                if out and isinstance(out[-1], str):
                    out[-1] += p
                else:
                    out.append(p)
            continue
        if not isinstance(p.arg, VariableRef) or p.function:
            return None
        n, src = p.arg.name, p.attributes.get("source")
        if m := re.fullmatch(r"arg([1-9])", n):
            if n not in msg.declarations or src == f"${m[1]}":
                if src not in (None, f"${m[1]}"):
                    return None
                out.append(("arg", int(m[1])))
                continue
        d = msg.declarations.get(n)
        if d is None:
            return None
        c = d.attributes.get("source")
        if c is None:
            if isinstance(d.arg, str):
                if re.fullmatch(r"\$[1-9]", d.arg):
                    return None
                c = d.arg
            elif m := re.fullmatch(r"arg([1-9])", d.arg.name):
                c = f"${m[1]}"
            else:
                return None
        out.append(("ph", n.lower(), c, d.attributes.get("example"), src))
    return out


def fam_model_webext(ctx):
    rng = ctx.rng
    entries = [Entry((J.key(rng),), m_wx(rng), comment=J.string(rng) if rng.random() < 0.3 else "") for _ in range(rng.choice([1, 1, 2]))]
    res = Resource(Format.webext, [Section((), entries)])
    ctx.case(repr(res))
    ints = [intended(e.value) for e in entries]

    def plainly_ok(e, i):
        """Can the straightforward text be read back as intended?"""
        if i is None:
            return False
        src, ph = "", {}
        for x in i:
            if isinstance(x, str):
                src += re.sub(r"\$+", lambda m: "$" + m[0], x)
            elif x[0] == "arg":
                src += f"${x[1]}"
            else:
                if x[4] and not re.fullmatch(rf"\${J.NAME}\$", x[4]):
                    return False
                n = x[4][1:-1] if x[4] else x[1]
                if J.canon_name(n) in {J.canon_name(k) for k, v in ph.items() if k != n.lower() or v != {"content": x[2], "example": x[3]}}:
                    return False
                ph[n.lower()] = {"content": x[2], "example": x[3]}
                src += f"${n}$"
        try:
            got = J.wx_meaning(src, ph)
        except KeyError:
            return False
        return [g if isinstance(g, str) else g[2:] or g for g in got] == [x if isinstance(x, str) else x[2:4] or x for x in i]

    try:
        out = "".join(webext_serialize(res))
    except ValueError as err:
        ctx.ev("webext_refused")
        ok = all(plainly_ok(e, i) for e, i in zip(entries, ints)) and len({e.id for e in entries}) == len(entries)
        ctx.check(not ok, "webext-refused", str(err.__cause__ or err), res=res)
        return
    ctx.ev("webext_written")
    ctx.check(None not in ints, "webext-model-unsupported", "", res=res, out=out)
    back = pairs(out)
    ctx.check(list(back) == [e.id[0] for e in entries], "webext-model-ids", "", res=res, out=out)
    shape = lambda xs: [x if isinstance(x, str) else ("ph", *x[2:4]) if x[0] == "ph" else x for x in xs]  # noqa: E731
    for e, i, m in zip(entries, ints, back.values()):
        ctx.check(m.get("description", "") == e.comment, "webext-model-comment", "", res=res, out=out)
        try:
            got = J.wx_meaning(m["message"], m.get("placeholders"))
        except KeyError as err:
            ctx.fail("webext-model-missing", str(err), res=res, out=out)
        ctx.eq(shape(got), shape(i), "webext-model-output", res=res, out=out)
    try:
        rb = webext_parse(out)
    except ValueError as err:
        if "Conflicting" in str(err):
            return
        ctx.fail("webext-model-reparse", str(err), res=res, out=out)
    ctx.eq([shape(J.wx_view(e.value)) for e in rb.all_entries()], [shape(i) for i in ints], "webext-model-reparse", res=res, out=out)


BAD = [(plain_json_parse, s) for s in ["", "[]", '"a"', "1", "null", '{"a": 1}', '{"a": null}', '{"a": ["b"]}', '{"a": {"b": true}}', '{"a": "b",}', "{'a': 'b'}", '{"a": "b"} x', '{"a": "b"', '{"a": "\n"}', '// c\n{"a": "b"}', '{"a": {"b": [{"c": "d"}]}}']]
BAD += [(webext_parse, s) for s in ["", "[]", '"a"', "1", '{"a": "b"}', '{"a": {}}', '{"a": {"description": "b"}}', '{"a": {"message": "$b$"}}', '{"a": {"message": "$b$", "placeholders": {}}}', '{"a": {"message": "$b$", "placeholders": {"b": {}}}}',
                                    '{"a": {"message": "$b$", "placeholders": {"c": {"content": "x"}}}}', '{"a": {"message": "b"},}', '{"a": {"message": "b"}} /* c */', '{"a": {"message": null}}', '{"a": {"message": 1}}', '{"a": {"message": "x$y$$z$", "placeholders": {"y": {"content": "x"}}}}']]


CLASHES = [["a@b", "a_b"], ["@", "_"], ["1a", "_1a"], ["@1", "_1", "1"], ["x@@", "x_@", "x__"], ["9", "_9"], ["A@b", "a_B"], ["a@b", "c", "a_b"], ["1@", "_1_"], ["arg1@", "arg1_"]]


def fam_clash(ctx):
    """Names of one message that may become the same variable: refused, or each keeps its own contents."""
    rng = ctx.rng
    names = rng.sample(ns := rng.choice(CLASHES), len(ns))
    ph = {n: {"content": rng.choice(["$1", "$2", "x", "y", "z"])} for n in names}
    for d in ph.values():
        if rng.random() < 0.3:
            d["example"] = gen.plain(rng, 1)
    src = "".join(rng.choice(["", "t", " "]) + "$" + (n if rng.random() < 0.8 else n.upper()) + "$ " for n in [rng.choice(names) for _ in range(rng.choice([1, 2, 2, 3, 4]))])
    text = json.dumps({"k": {"message": src, "placeholders": ph}})
    ctx.case(text)
    try:
        res = webext_parse(text)
    except ValueError:
        ctx.check(len({J.canon_name(r) for r in J.wx_refs(src)}) < len({r.lower() for r in J.wx_refs(src)}), "clash-refused", "no names in use share a variable", src=text)
        ctx.ev("clashes_refused")
        return
    ctx.ev("clashes_kept")
    want = J.wx_meaning(src, ph)
    ctx.eq(J.wx_view(res.sections[0].entries[0].value), want, "clash-parse", src=text)
    out = "".join(webext_serialize(res))
    m = json.loads(out)["k"]
    ctx.eq(J.wx_meaning(m["message"], m.get("placeholders")), want, "clash-output", src=text, out=out)


def fam_bad(ctx):
    parse, src = BAD[ctx.index]
    ctx.case(src + parse.__name__)
    ctx.ev("bad_files")
    try:
        res = parse(src)
    except Exception:
        return
    ctx.fail("misread", "accepted", src=src, res=res)


FAMILIES = [
    Family("plain", fam_plain, 3000, 100000, need=["plain_entries", "plain_nested"]),
    Family("webext", fam_webext, 3000, 100000, need=["webext_messages", "webext_commented", "webext_placeholders", "webext_indexed", "webext_dollars"]),
    Family("message", fam_message, 2000, 60000, need=["single_messages", "missing_refused"]),
    Family("model_plain", fam_model_plain, 2000, 60000, need=["plain_refused", "plain_written"]),
    Family("model_webext", fam_model_webext, 4000, 120000, need=["webext_refused", "webext_written"]),
    Family("clash", fam_clash, 2000, 40000, need=["clashes_refused", "clashes_kept"]),
    Family("bad", fam_bad, len(BAD), len(BAD), need=["bad_files"]),
]

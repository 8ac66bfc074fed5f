"""C34: nothing that a file says is dropped without notice.

Something marked is put into a valid file at any point. The parser may refuse the file, or (Android)
warn about what it leaves out; otherwise the marked words have to be in the text written back.
"""

from __future__ import annotations

import json
import logging
import re

from fluent.syntax import ast as ftl

from moz.l10n.formats import Format
from moz.l10n.resource import parse_resource, serialize_resource

from .. import files, jsonfmt
from .. import ftl as F
from ..core import Family, Skip

RULE = "marked text, attributes, elements, lines, entries and keys put into generated files at random places"
ASSUMPTIONS = ["XML processing instructions, declarations, namespace declarations, and comments within a value or after the last file are not content",
               "WebExtension files: only messages, their text, description and placeholders are content; JavaScript comments in JSON are layout",
               "gettext: the header, comments and references of obsolete entries, comments after the last message and repeated keywords are left to polib", "JSON objects without any strings in them are no messages"]

XMLISH = ["W", " W ", "&lt;W&gt;", ' W="1"', "<W/>", "<W>V</W>", "<x:W xmlns:x='foo'/>", "<x:W xmlns:x='foo'>V</x:W>", "<note>W</note>", '<b W="V">', "\nW\n", "W = V", '<b W="V"/>', "<W><b>V</b></W>"]
OWN = {
    "android": ['<string name="W">V</string>', '<string name="W" x="V"/>', '<item>W</item>', '<item quantity="many">W</item>', '<item quantity="W">V</item>', '<item quantity="few" x="W">V</item>', '<item x="W">V</item>', '<plurals name="W"><item quantity="other">V</item></plurals>',
                '<string-array name="W"><item>V</item></string-array>', '<integer name="W">5</integer>', "<xliff:g id='W'>V</xliff:g>", "<![CDATA[W]]>", " product='W'", " W"],
    "xliff": ['<trans-unit id="W"><source>V</source></trans-unit>', '<trans-unit id="W"><source>x</source><target>V</target></trans-unit>', "<note>W</note>", '<note from="W">V</note>', "<target>W</target>", "<source>W</source>",
              '<group id="W"><trans-unit id="V"><source>x</source></trans-unit></group>', '<file original="W"><body><trans-unit id="V"><source>x</source></trans-unit></body></file>', "<body>W</body>", "<header><note>W</note></header>",
              '<alt-trans><target>W</target></alt-trans>', '<x id="W"/>', "<![CDATA[W]]>", '<bin-unit id="W" mime-type="V"><bin-source><external-file href="W"/></bin-source></bin-unit>', ' xml:lang="W"', ' state="W"'],
    "dtd": ['<!ENTITY W "V">', "\n<!ENTITY W 'V'>\n", "<!-- W -->", "\n<!-- W\nV -->\n", '<!ENTITY % W SYSTEM "V">\n%W;', "W", " W ", "\nW\n", '<!ELEMENT W (V)>', "%W;", '"W"'],
    "fluent": ["\nW = V\n", "\n-W = V\n", "\n    .W = V\n", "\n    V W\n", "# W\n", "\n## W\n", "\n### W\n", "\n# W\nV = W\n", "{ $W }", "{ W }", "{ -W }", '{ "W" }', "{ W() }", "W", " W ", "\nW\n", "\n    { $x ->\n       *[a] W\n    }\n", "\n[W] V\n", ", W: 1", "\nW =\n"],
    "inc": ["\n#define W V\n", "\n# W\n", "\n#W\n", "\nW\n", " W ", "W", "\n#define W\n", "\n#unfilter W\n", "\n#filter W\n", "\n# W\n#define V W\n"],
    "ini": ["\nW=V\n", "\nW = V\n", "\n[W]\n", "\n[W]\nV=W\n", "\n; W\n", "\n# W\n", "\n  W\n", "\nW\n", " W ", "W", "\nW: V\n", "\n[V]W\n"],
    "properties": ["\nW=V\n", "\nW : V\n", "\nW V\n", "\nW\n", "\n# W\n", "\n! W\n", "W", " W ", "\\\nW", "\n#W\nV=W\n", "\nW=\\\n  V\n"],
    "gettext": ['\n\nmsgid "W"\nmsgstr "V"\n\n', '\n\nmsgctxt "W"\nmsgid "V"\nmsgstr "W"\n\n', "\n# W\n", "\n#. W\n", "\n#: W:1\n", "\n#, W\n", '\n#| msgid "W"\n', '\n"W"\n', '\n#~ msgid "W"\n#~ msgstr "V"\n\n', "\nW\n", '\nmsgstr[1] "W"\n', '\nmsgstr "W"\n', '\nmsgid_plural "W"\n'],
    "plain_json": ['"W": "V",', ', "W": "V"', '"W": {"V": "W"},', ', "W": {"a": {"b": "V"}}', "W", " W ", "\\u0057\\u0041W", '"W"', '"W": 5,', '"W": null,', '"W": ["V"],', '"W": true,'],
    "webext": ['"W": {"message": "V"},', ', "W": {"message": "V"}', ', "W": {"message": "x", "description": "V"}', ', "W": {"message": "x", "placeholders": {"zz": {"content": "x"}}}', '"W": {"message": "$V$", "placeholders": {"V": {"content": "W", "example": "V"}}},',
               '"W": "V",', '"W": 5,', '"W": {},', '"W": {"message": 5},', '"W": {"description": "V"},', "W", "W"],
}


class Catch(logging.Handler):
    def __init__(self):
        super().__init__()
        self.text = []

    def emit(self, record):
        self.text.append(record.getMessage())


def ignored(fmt, src):
    """Spans of the source that are not content."""
    out = []
    if fmt in ("android", "xliff"):
        out += [m.span() for m in re.finditer(r"<!--[\s\S]*?-->|<\?[\s\S]*?\?>|<!DOCTYPE[\s\S]*?\]>", src)]
        out += [m.span() for m in re.finditer(r"""\sxmlns(:[\w]+)?\s*=\s*("[^"]*"|'[^']*')""", src)]
    elif fmt == "gettext":
        m = re.search(r'(\A|\n)\ufeff?msgid ""\r?\n(?!"|msgstr "[^"\n])[\s\S]*?\n\r?\n|(\A|\n)\ufeff?msgid ""\r?\nmsgstr [\s\S]*?(\n\r?\n|\Z)', src)
        out += [(0, m.end())] if m else [(0, len(src))]
        out += [m.span() for m in re.finditer(r"(^#~.*\r?\n)+", src, re.M)]
    elif fmt in ("plain_json", "webext"):
        out += [m.span() for m in re.finditer(r"//.*", src)]
    return out


def place(rng, fmt, src, ins):
    r = rng.random()
    pos = rng.randint(0, len(src))
    if fmt == "webext":
        if ins.endswith(","):
            pos = src.index("{") + 1
        elif ins.startswith(","):
            pos = src.rindex("}")
        else:
            pos = rng.choice([m.end() for m in re.finditer(r'"(message|description)"\s*:\s*"', src)] or [0])
        return pos
    if fmt == "gettext" or r < 0.4:
        pos = src.rfind("\n", 0, pos) + 1
    elif r < 0.7:
        spots = [m.end() for m in re.finditer(r">|\{|\}|,|\n\n", src)] or [pos]
        pos = rng.choice(spots)
        if ins.startswith(" ") and fmt in ("android", "xliff") and src[pos - 1] == ">":
            pos -= 1 + (src[pos - 2] == "/")
    if any(a < pos < b for a, b in ignored(fmt, src)):
        raise Skip()
    if fmt == "gettext" and any(a == pos for a, b in ignored(fmt, src)):
        raise Skip()
    return pos


def excluded(fmt, s, ins):
    """Places where there is a reason to drop what was put there."""
    i = s.index("Qwz")
    if fmt == "gettext":
        i = s.index(ins)
        around = s[max(s.rfind("\n\n", 0, i), s.rfind("\n\r\n", 0, i)) + 1:i] + ins + re.split(r"\n\r?\n", s[i + len(ins):] if not ins.endswith("\n\n") else "")[0]
        after = re.split(r"\r?\n\r?\n", s[i:].lstrip("\r\n"))[0]
        keys = re.findall(r"^(?:#\| ?)?(?:msgid_plural|msgctxt|msgid|msgstr(?:\[\d+\])?)", around + "\n" + after[len(ins.lstrip()):], re.M)
        return not re.search(r"^msg", after, re.M) or ins.startswith("\n#|") and after[len(ins.lstrip()):].startswith('"') or "#~" in around + after or len(set(keys)) < len(keys)
    if fmt == "plain_json":
        try:
            return not any("Qwz" in repr(x) for x in jsonfmt.leaves(json.loads(s)))
        except ValueError:
            return True
    if fmt == "xliff":
        return re.search(r"<body[^>]*Qwz", s) is not None
    if fmt == "fluent":
        for e in F.parse(s).body:
            if any(x > 1 for x in [sum(isinstance(v, ftl.SelectExpression) for v in walk(p)) for p in walk(e) if isinstance(p, ftl.Pattern)]):
                return True  # variants of one selector may rule out those of another
            for v in walk(e):
                names = [a.id.name for a in getattr(v, "attributes", None) or []] if isinstance(v, (ftl.Message, ftl.Term)) else []
                if isinstance(v, ftl.SelectExpression):
                    names = [str(F.vkey(x)) for x in v.variants]
                if len(set(names)) < len(names):
                    return True
    return False


def walk(x):
    if isinstance(x, ftl.BaseNode):
        yield x
        for v in vars(x).values():
            yield from walk(v)
    elif isinstance(x, list):
        for v in x:
            yield from walk(v)


def fam_insert(ctx):
    rng = ctx.rng
    fmt = files.FORMATS[ctx.index % len(files.FORMATS)]
    src = files.source(rng, fmt, small=rng.random() < 0.7)
    if isinstance(src, bytes):
        src = src.decode("utf-8")
    pool = OWN[fmt] + (XMLISH if fmt in ("android", "xliff") else [])
    tmpl = rng.choice(pool)
    ins = tmpl.replace("W", "QwzOne").replace("V", "QwzTwo")
    want = [m for m in ("QwzOne", "QwzTwo") if m in ins]
    pos = place(rng, fmt, src, ins)
    s = src[:pos] + ins + src[pos:]
    ctx.case(fmt + s)
    kw = {}
    if fmt == "xliff":
        kw["xliff_source_entries"] = rng.random() < 0.2
    h = Catch()
    root = logging.getLogger()
    old = root.handlers[:], root.level
    root.handlers[:] = [h]
    try:
        try:
            res = parse_resource(Format[fmt], s, **kw)
        except Exception:
            ctx.ev("refused_" + fmt)
            return
    finally:
        root.handlers[:], root.level = old
    try:
        out = "".join(serialize_resource(res, xliff_source_entries=kw.get("xliff_source_entries", False)) if fmt == "xliff" else serialize_resource(res))
    except Exception:
        ctx.ev("not_written_" + fmt)
        return
    low = out.lower() if fmt == "webext" else out
    lost = [m for m in want if (m.lower() if fmt == "webext" else m) not in low]
    warned = [m for m in lost if any(m in w or ("QwzOne" in want and "QwzOne" in w) for w in h.text)]
    if warned == lost and lost:
        ctx.ev("warned_" + fmt)
        return
    if lost and excluded(fmt, s, ins):
        raise Skip()
    ctx.check(not lost, f"{fmt}-dropped", f"{lost} from {tmpl!r}", src=s[max(0, pos - 200):pos + len(ins) + 100], out=out[:2000], whole=s)
    ctx.ev("kept_" + fmt)


REPEATED = {
    "android": ["<resources>{}{}</resources>", '<string name="a">W</string>', '<plurals name="a"><item quantity="other">W</item></plurals>', '<string-array name="a"><item>W</item></string-array>'],
    "dtd": ["{}{}", '<!ENTITY a "W">\n'],
    "fluent": ["{}{}", "a = W\n", "-a = W\n"],
    "inc": ["{}{}", "#define a W\n"],
    "ini": ["[s]\n{}{}", "a=W\n", "[a]\nb=W\n", "[s]\na=W\n"],
    "properties": ["{}{}", "a=W\n"],
    "gettext": ['msgid ""\nmsgstr ""\n\n{}{}', 'msgid "a"\nmsgstr "W"\n\n', 'msgctxt "c"\nmsgid "a"\nmsgstr "W"\n\n', 'msgid "a"\nmsgid_plural "b"\nmsgstr[0] "W"\n\n'],
    "xliff": ['<xliff version="1.2"><file original="f"><body>{}{}</body></file></xliff>', '<trans-unit id="a"><source>W</source></trans-unit>', '<trans-unit id="a"><source>W</source><target>W</target></trans-unit>',
              '<group id="a"><trans-unit id="a"><source>W</source></trans-unit></group>', '<group id="a"><group id="b"><trans-unit id="a"><source>W</source></trans-unit></group></group>', '<bin-unit id="a" mime-type="W"><bin-source><external-file href="W"/></bin-source></bin-unit>'],
    "xcstrings": ['<xliff version="1.2"><file original="f.xcstrings"><header><tool tool-id="com.apple.dt.xcode"/></header><body><trans-unit id="s"><source>%#@v@</source></trans-unit>{}{}</body></file></xliff>',
                  *(f'<trans-unit id="{i}"><source>W</source></trans-unit>' for i in ("a", "a|==|plural.other", "a|==|device.other", "s|==|substitutions.v.plural.other"))],
    "stringsdict": ['<xliff version="1.2"><file original="f.stringsdict"><header><tool tool-id="com.apple.dt.xcode"/></header><body>{}{}</body></file></xliff>',
                    '<trans-unit id="/a:dict/v:dict/other:dict/:string"><source>W</source></trans-unit>', '<trans-unit id="/a:dict/NSStringLocalizedFormatKey:dict/:string"><source>W%#@v@</source></trans-unit>'],
}


def fam_repeat(ctx):
    """The same thing twice, with different contents: both are kept, or refused."""
    rng = ctx.rng
    fmt = list(REPEATED)[ctx.index % len(REPEATED)]
    frame, *pool = REPEATED[fmt]
    item = rng.choice(pool)
    other = rng.choice([item, item, rng.choice(pool)])
    first, second = rng.sample(["QwzOne", "QwzTwo", "QwzThree"], 2)
    between = rng.choice(["", "", "\n"])
    src = frame.format(item.replace("W", first) + between, other.replace("W", second))
    ctx.case(fmt + src)
    name = "xliff" if fmt in ("xcstrings", "stringsdict") else fmt
    se = name == "xliff" and rng.random() < 0.3
    try:
        out = "".join(serialize_resource(parse_resource(Format[name], src, **({"xliff_source_entries": True} if se else {})), **({"xliff_source_entries": True} if se else {})))
    except Exception:
        ctx.ev("repeat_refused")
        return
    ctx.check(first in out and second in out, f"{fmt}-repeat", f"{first} {second}", src=src, out=out)
    ctx.ev("repeat_kept")


FAMILIES = [
    Family("repeat", fam_repeat, 1500, 6000, need=["repeat_kept", "repeat_refused"]),
    Family("insert", fam_insert, 60000, 600000, need=[f"{k}_{f}" for f in files.FORMATS for k in ("kept", "refused") if (k, f) != ("refused", "properties")] + ["warned_android"]),
]

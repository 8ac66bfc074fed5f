"""Detection and dispatch: one result, whichever way a file is handed to the library."""
from __future__ import annotations

import os
import re
import shutil
import tempfile
import xml.etree.ElementTree as ET

from moz.l10n.formats import Format, UnsupportedFormat, detect_format
from moz.l10n.formats.android.parse import android_parse
from moz.l10n.formats.android.serialize import android_serialize
from moz.l10n.formats.dtd.parse import dtd_parse
from moz.l10n.formats.dtd.serialize import dtd_serialize
from moz.l10n.formats.fluent.parse import fluent_parse
from moz.l10n.formats.fluent.serialize import fluent_serialize
from moz.l10n.formats.gettext.parse import gettext_parse
from moz.l10n.formats.gettext.serialize import gettext_serialize
from moz.l10n.formats.inc.parse import inc_parse
from moz.l10n.formats.inc.serialize import inc_serialize
from moz.l10n.formats.ini.parse import ini_parse
from moz.l10n.formats.ini.serialize import ini_serialize
from moz.l10n.formats.plain_json.parse import plain_json_parse
from moz.l10n.formats.plain_json.serialize import plain_json_serialize
from moz.l10n.formats.properties.parse import properties_parse
from moz.l10n.formats.properties.serialize import properties_serialize
from moz.l10n.formats.webext.parse import webext_parse
from moz.l10n.formats.webext.serialize import webext_serialize
from moz.l10n.formats.xliff.parse import xliff_parse
from moz.l10n.formats.xliff.serialize import xliff_serialize
from moz.l10n.resource import parse_resource, serialize_resource

from .. import files, res
from .. import jsonfmt as J
from ..core import Family, Skip
from ..model import canon as canon_

RULE = "distinct by file name and contents; seeded random files of each format, other files and damaged files"
ASSUMPTIONS = ["gettext contents have no line separators other than newlines (polib reads those differently from a file, see C08 line-separator)",
               "XLIFF without its XML namespace is not recognised by its contents", "JSON nested three deep whose keys are those of WebExtension messages is such a file"]

PARSE = {"android": android_parse, "dtd": dtd_parse, "fluent": fluent_parse, "gettext": gettext_parse, "inc": inc_parse, "ini": ini_parse,
         "plain_json": plain_json_parse, "properties": properties_parse, "webext": webext_parse, "xliff": xliff_parse}
SERIALIZE = {"android": android_serialize, "dtd": dtd_serialize, "fluent": fluent_serialize, "gettext": gettext_serialize, "inc": inc_serialize,
             "ini": ini_serialize, "plain_json": plain_json_serialize, "properties": properties_serialize, "webext": webext_serialize, "xliff": xliff_serialize}
# how each option of the dispatching functions is called by the format
PARSE_OPTS = {"android_ascii_spaces": ("android", "ascii_spaces"), "android_literal_quotes": ("android", "literal_quotes"),
              "gettext_plurals": ("gettext", "plurals"), "gettext_skip_obsolete": ("gettext", "skip_obsolete"),
              "properties_printf_placeholders": ("properties", "printf_placeholders"), "xliff_source_entries": ("xliff", "source_entries")}
SERIALIZE_OPTS = {"fluent_escape_syntax": ("fluent", "escape_syntax"), "gettext_plurals": ("gettext", "plurals"), "xliff_source_entries": ("xliff", "source_entries")}
BY_NAME = ["dtd", "fluent", "gettext", "inc", "ini", "properties", "xliff"]
LINE_SEPS = "\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"


def canon(r):
    return canon_(r, linepos=True)


def outcome(f):
    """What a call gives: its result, or that it refuses the input."""
    try:
        r = f()
        return ("ok", canon(r) if hasattr(r, "sections") else r)
    except UnsupportedFormat:
        return ("unsupported",)
    except Exception as e:  # the format's own complaint about its contents
        return ("error", type(e).__name__)


def name(rng, ext):
    stem = rng.choice(["a", "strings", "messages", "a.b", "x.ftl", "x.json", "po", "de-AT", ".hidden", "sp ace", "é", "a..b", "UPPER"])
    return stem + ext


UNKNOWN = ["", ".txt", ".tmp", ".bak", ".orig", ".ftlx", ".jsonc", ".PO", ".in", ".dtd~", "."]


def detected(text, fmt, tree=None):
    """The format to find by the contents alone."""
    if fmt == "plain_json" and J_webext(tree):
        return Format.webext
    if fmt == "xliff":
        return Format.xliff if ET.fromstring(text.encode()).tag.startswith("{urn:oasis:names:tc:xliff:document:1.") else None
    return Format[fmt] if fmt in ("android", "plain_json", "webext") else None


def J_webext(v):
    """An object of objects which have a message, and nothing but what a message can have."""
    return all(isinstance(m, dict) and "message" in m and set(m) <= {"message", "description", "placeholders"} and isinstance(m.get("placeholders", {}), dict) for m in v.values())


def sources(rng, fmt):
    """A file as written by the library, or by others."""
    import json

    src = files.source(rng, fmt)
    if fmt == "gettext" and any(c in src for c in LINE_SEPS):
        raise Skip()
    if rng.random() < 0.5:
        try:
            src = "".join(serialize_resource(parse_resource(Format[fmt], src)))
        except Exception:
            pass
    return src, json.loads(src) if fmt == "plain_json" else None


def fam_written(ctx):
    rng = ctx.rng
    fmt = files.FORMATS[ctx.index % len(files.FORMATS)]
    f = Format[fmt]
    src, tree = sources(rng, fmt)
    data = src.encode()
    known = rng.random() < 0.5
    ext = rng.choice(files.EXT[fmt]) if known else rng.choice(UNKNOWN)
    fn = name(rng, ext)
    if not known and "." + fn.rsplit(".", 1)[-1] in {".ftl", ".json"}:
        raise Skip()
    ctx.case((fn, src))
    by_name = f if known and fmt in BY_NAME else None
    by_content = detected(src, fmt, tree)
    want_f = by_name or by_content
    if known and fmt in BY_NAME:
        ctx.check(detect_format(fn) is f, "format-from-name", fn)
    else:
        ctx.check(detect_format(fn) is None, "format-without-contents", fn)
    for path in (fn, "/no/such dir/" + fn, os.path.join("x.po", fn), "a\\b/" + fn):
        for s in (src, data):
            got = detect_format(path, s)
            ctx.check(got is want_f, "format-detected", f"{path} {got} {want_f}", src=src)
    for s in (src, data):
        got = detect_format(None, s)
        ctx.check(got is by_content, "format-from-contents", f"{got} {by_content}", src=src)
    ctx.ev(f"detected_{want_f.name if want_f else None}")
    own = outcome(lambda: PARSE[fmt](src))
    exp = outcome(lambda: PARSE[want_f.name](src)) if want_f else ("unsupported",)
    tmp = tempfile.mkdtemp(prefix="vp-c18-")
    try:
        path = os.path.join(tmp, fn)
        with open(path, "wb") as fh:
            fh.write(data)
        calls = {
            "path": (lambda: parse_resource(path), exp),
            "path-text": (lambda: parse_resource(path, src), exp),
            "path-bytes": (lambda: parse_resource(path, data), exp),
            "name-text": (lambda: parse_resource(fn, src), exp),
            "format-text": (lambda: parse_resource(f, src), own),
            "format-bytes": (lambda: parse_resource(f, data), own),
            "own-bytes": (lambda: PARSE[fmt](data), own),
            "text": (lambda: parse_resource(None, src), outcome(lambda: PARSE[by_content.name](src)) if by_content else ("unsupported",)),
            "bytes": (lambda: parse_resource(None, data), outcome(lambda: PARSE[by_content.name](src)) if by_content else ("unsupported",)),
        }
        for how, (call, want) in calls.items():
            ctx.eq(outcome(call), want, f"{how}-differs", name=fn, src=src)
            ctx.ev("calls")
        with open(path, "rb") as fh:
            ctx.check(fh.read() == data, "file-changed", fn)
        # as a format with the same contents
        if want_f and exp[0] == "ok":
            r = parse_resource(path)
            ctx.check(r.format is want_f, "format-of-resource", f"{r.format}", src=src)
    finally:
        shutil.rmtree(tmp)


ENC = ["iso-8859-1", "utf-16", "windows-1252", "utf-8", "ascii", "iso-8859-2", "koi8-r"]


def fam_encoded(ctx):
    """Formats whose files name their encoding: the result is that of the text."""
    rng = ctx.rng
    fmt = ["android", "xliff", "gettext"][ctx.index % 3]
    f = Format[fmt]
    enc = rng.choice(ENC if fmt != "gettext" else [e for e in ENC if e != "utf-16"])
    word = "".join(rng.choice({"koi8-r": "жфя", "iso-8859-2": "łéž", "ascii": "ab"}.get(enc, "éßñ")) for _ in range(4))
    if fmt == "android":
        plain = f'<resources><!-- {word} --><string name="a">x {word} y</string></resources>\n'
    elif fmt == "xliff":
        plain = f'<xliff version="1.2" xmlns="urn:oasis:names:tc:xliff:document:1.2"><file original="{word}" source-language="en" datatype="plaintext"><body><trans-unit id="a"><source>{word}</source><target>{word} b</target></trans-unit></body></file></xliff>\n'
    else:
        plain = f'#. {word}\nmsgid "a {word}"\nmsgstr "{word}"\n'
    if fmt == "gettext":
        text = f'msgid ""\nmsgstr ""\n"Content-Type: text/plain; charset={enc}\\n"\n\n' + plain
    else:
        q = rng.choice("'\"")
        text = f'<?xml version={q}1.0{q} encoding={q}{rng.choice([enc, enc.upper()])}{q}?>\n' + plain
    data = text.encode(enc)
    ctx.case(text)
    base = parse_resource(f, plain if fmt != "gettext" else text)
    want = ("ok", canon(base) if fmt == "gettext" else strip(canon_(base)))
    show = (lambda o: o) if fmt == "gettext" else (lambda o: (o[0], strip(o[1])) if o[0] == "ok" else o)
    tmp = tempfile.mkdtemp(prefix="vp-c18-")
    try:
        path = os.path.join(tmp, name(rng, rng.choice(files.EXT[fmt])))
        with open(path, "wb") as fh:
            fh.write(data)
        for how, call in {"path": lambda: parse_resource(path), "path-bytes": lambda: parse_resource(path, data), "path-text": lambda: parse_resource(path, text),
                          "format-bytes": lambda: parse_resource(f, data), "format-text": lambda: parse_resource(f, text), "own-text": lambda: PARSE[fmt](text)}.items():
            got = outcome(call) if fmt == "gettext" else outcome(lambda: Wrap(call()))
            ctx.eq(show(got), want, f"encoded-{how}", text=text, enc=enc)
            ctx.ev(f"encoded_{fmt}")
        if fmt != "gettext":
            for how, s in (("text", text), ("bytes", data)):
                ctx.check(detect_format(None, s) is f, f"encoded-detect-{how}", enc, text=text)
                ctx.eq(show(outcome(lambda: Wrap(parse_resource(None, s)))), want, f"encoded-{how}", text=text, enc=enc)
    finally:
        shutil.rmtree(tmp)


class Wrap:
    """A resource, to compare without line positions."""

    def __init__(self, r):
        self.r = r


def strip(c):
    return canon_(c.r) if isinstance(c, Wrap) else c


def fam_foreign(ctx):
    """Contents by construction in no format, or in one: the answer is the same however it is asked, and errors are refusals."""
    rng = ctx.rng
    kind, text, want = rng.choice(FOREIGN)(rng)
    ctx.case((kind, text))
    ctx.ev("foreign_" + kind)
    data = text if isinstance(text, bytes) else text.encode()
    for n in (None, "x", "dir/x.txt", "x.json") + (("x.xml",) if kind.startswith("xml") else ()):
        for s in (text, data):
            got = detect_format(n, s)
            ctx.check(got is want, f"foreign-{kind}", f"{n!r} {got} {want}", text=text)
            if want is None:
                try:
                    r = parse_resource(n, s)
                    ctx.fail(f"misread-{kind}", f"{n!r} as {r.format}", text=text)
                except UnsupportedFormat:
                    ctx.ev("refused")
    if kind.startswith("json"):
        ctx.check(detect_format("x.xml", text) is None, f"foreign-{kind}", "x.xml", text=text)


def f_text(rng):
    return "text", rng.choice(["", " ", "\n", "hello\n", "key = value\n", "a <b> c", "<", "<!-- x", "{", "[1,", "// x\n", "\x00", '"a', "nul", "NaN x", "{'a': 'b'}", "msgid \"a\"\nmsgstr \"b\"\n", "a = b\n .c = d\n",
                               "<!ENTITY a 'b'>\n", "#define a b\n", "[Strings]\na=b\n", "\ud7ff\ue000", "< resources/>", "[" * 50000, '{"a":' * 50000, "-" * 9000]), None


def f_scalar(rng):
    return "json-scalar", rng.choice(["1", "null", "true", '"x"', "[]", '["a"]', "1.5", '[{"a": "b"}]', "9" * 6000, "-0", " 3 ", "NaN", "Infinity"]), None


def f_not_strings(rng):
    import json

    t = J.tree(rng)
    node, k = t, "k"
    for _ in range(rng.randrange(3)):
        subs = [v for v in node.values() if isinstance(v, dict)]
        if not subs:
            break
        node = rng.choice(subs)
    items = [i for i in node.items() if i[0] != k]
    items.insert(rng.randint(0, len(items)), (k, rng.choice([1, None, True, 1.5, [], ["a"], [{"a": "b"}], 0, False])))
    node.clear()
    node.update(items)
    return "json-not-strings", json.dumps(t, ensure_ascii=rng.random() < 0.5), None


def f_plain(rng):
    import json

    t = J.tree(rng)
    c = rng.random()
    if c < 0.3:
        t["a"] = {"message": "x", "other": "y"}
    elif c < 0.5:
        t["a"] = {"description": "x"}
    elif c < 0.7:
        t["a"] = {"message": "x", "placeholders": "$1"}
    elif c < 0.8:
        t["message"] = "x"
    elif c < 0.9:
        t = {"a": {"message": "x"}, "b": "y"}
    else:
        t = {"a": {"message": "x"}, "b": {}}
    return "json-plain", json.dumps(t), Format.webext if J_webext(t) else Format.plain_json


def f_commented(rng):
    import json

    t = J.tree(rng)
    wx = rng.random() < 0.5
    if wx:
        t = J.wx_file(rng)
    s = json.dumps(t, indent=2, ensure_ascii=rng.random() < 0.5)
    lines = s.split("\n")
    if rng.random() < 0.5:
        i = rng.randrange(len(lines))
        lines[i] += rng.choice([" // note", '// "x": "y"', ' // "', "//"])
    else:
        lines.insert(rng.randint(0, len(lines)), rng.choice(["// note", '  // a "b" c', "  //"]))
    return "json-commented", "\n".join(lines), Format.webext if J_webext(t) else None


def f_xml(rng):
    w = rng.choice(["", '<?xml version="1.0"?>', '<?xml version="1.0" encoding="utf-8"?>\n', "<!-- c -->", "<!DOCTYPE resources>", "<?pi x?>\n"])
    root, want = rng.choice([
        ("<resources/>", "android"), ("<resources></resources>", "android"), ('<resources xmlns:t="u"><string name="a">b</string></resources>', "android"),
        ("<Resources/>", None), ("<resource/>", None), ('<resources xmlns="u"/>', None), ('<a:resources xmlns:a="u"/>', None), ("<xliff/>", None), ("<html><resources/></html>", None),
        ('<xliff xmlns="urn:oasis:names:tc:xliff:document:2.0"/>', None), ('<svg xmlns="http://www.w3.org/2000/svg"/>', None),
        ('<xliff version="1.2" xmlns="urn:oasis:names:tc:xliff:document:1.2"/>', "xliff"), ('<xliff version="1.1" xmlns="urn:oasis:names:tc:xliff:document:1.1"><file/></xliff>', "xliff"),
        ('<xliff version="1.0" xmlns="urn:oasis:names:tc:xliff:document:1.0"></xliff>', "xliff"), ("<tmx/>", None), ('<r xmlns:x="urn:oasis:names:tc:xliff:document:1.2"/>', None),
        ("<string name='a'>resources</string>", None)])
    if want is None and w.startswith("<!DOC"):
        w = ""
    return "xml", w + root + rng.choice(["", "\n"]), want and Format[want]


def f_bytes(rng):
    return "bytes", rng.choice([b"\xff\xfe\x00", b"\x80abc", b"caf\xe9\n", b"\x00\x01\x02\x03", bytes(rng.randrange(256) for _ in range(rng.randrange(1, 30))), "hello".encode("utf-16"), b"\xef\xbb\xbfhello",
                                b"<?xml version='1.0' encoding='iso-8859-1'?><html>\xe9</html>", b'{"a": "\xe9"}']), None


FOREIGN = [f_text, f_scalar, f_not_strings, f_plain, f_commented, f_xml, f_bytes]


CODING = r"<\?xml[^>]*|encoding[^>]{,12}|Content-Type[^\n]*|charset[^\n]*"


def damage(rng, s):
    s = list(s)
    for _ in range(rng.choice([1, 1, 2, 5])):
        if not s:
            break
        i = rng.randrange(len(s))
        c = rng.random()
        if c < 0.4:
            del s[i:i + rng.choice([1, 1, 3, 40])]
        elif c < 0.7:
            s.insert(i, rng.choice(list("<>{}[]\"'/\\&=#!;:,\n é\x00-")))
        else:
            s[i] = rng.choice(list("<>{}[]\"'/\\&=#a \n"))
    return "".join(s)


def fam_damaged(ctx):
    """Files no longer whole: text, bytes, path and explicit format still agree, and only formats' own complaints are raised."""
    rng = ctx.rng
    fmt = files.FORMATS[ctx.index % len(files.FORMATS)]
    whole, _ = sources(rng, fmt)
    src = damage(rng, whole)
    if fmt in ("android", "xliff", "gettext") and re.findall(CODING, src, re.I) != re.findall(CODING, whole, re.I):
        raise Skip()  # text has no encoding, bytes have the one they claim
    if any(c in src for c in LINE_SEPS) and fmt == "gettext":
        raise Skip()
    data = src.encode()
    ext = rng.choice([*files.EXT[fmt], *UNKNOWN])
    fn = name(rng, ext)
    ctx.case((fn, src))
    got = detect_format(fn, src)
    ctx.check(detect_format(fn, data) is got, "damaged-detect", fn, src=src)
    want = outcome(lambda: PARSE[got.name](src)) if got else ("unsupported",)
    tmp = tempfile.mkdtemp(prefix="vp-c18-")
    try:
        path = os.path.join(tmp, fn)
        with open(path, "wb") as fh:
            fh.write(data)
        for how, call in {"path": lambda: parse_resource(path), "text": lambda: parse_resource(fn, src), "bytes": lambda: parse_resource(fn, data)}.items():
            ctx.eq(outcome(call), want, f"damaged-{how}", name=fn, src=src)
        if got:
            ctx.eq(outcome(lambda: parse_resource(got, data)), want, "damaged-format", name=fn, src=src)
    finally:
        shutil.rmtree(tmp)
    ctx.ev("damaged_" + want[0])


def fam_options(ctx):
    """Options reach the parser and serializer of the format they belong to, and no other."""
    rng = ctx.rng
    fmt = files.FORMATS[ctx.index % len(files.FORMATS)]
    f = Format[fmt]
    src, _ = sources(rng, fmt)
    if rng.random() < 0.3 and fmt == "gettext":
        src += '\nmsgid "n1"\nmsgid_plural "n2"\nmsgstr[0] "a"\nmsgstr[1] "b"\n\n#~ msgid "old"\n#~ msgstr "x"\n'
    opts = {}
    for o in PARSE_OPTS:
        if rng.random() < 0.5:
            opts[o] = rng.choice([["one", "other"], ["zero", "one", "two", "few", "many", "other"]]) if o == "gettext_plurals" else rng.random() < 0.7
    ctx.case((fmt, src, repr(opts)))
    mine = {k: opts[o] for o, (g, k) in PARSE_OPTS.items() if g == fmt and o in opts}
    for o in opts:
        ctx.ev(o)
    want = outcome(lambda: PARSE[fmt](src, **mine))
    ctx.eq(outcome(lambda: parse_resource(f, src, **opts)), want, "parse-options", src=src, opts=opts)
    n = "x" + files.EXT[fmt][0]
    if detect_format(n, src) is f:
        ctx.eq(outcome(lambda: parse_resource(n, src.encode(), **opts)), want, "parse-options", src=src, opts=opts)
        ctx.ev("options_by_name")
    if want[0] != "ok":
        return
    r = parse_resource(f, src, **opts)
    if rng.random() < 0.3:
        fmt = rng.choice(files.FORMATS)
    f = Format[fmt]
    trim = rng.random() < 0.3
    sopts = {}
    for o in SERIALIZE_OPTS:
        if rng.random() < 0.5:
            sopts[o] = rng.choice([["one", "other"], ["zero", "one", "two", "few", "many", "other"]]) if o == "gettext_plurals" else rng.random() < 0.5
    mine = {k: sopts[o] for o, (g, k) in SERIALIZE_OPTS.items() if g == fmt and o in sopts}
    want = outcome(lambda: "".join(SERIALIZE[fmt](r, trim_comments=trim, **mine)))
    ctx.eq(outcome(lambda: "".join(serialize_resource(r, f, trim, **sopts))), want, "serialize-options", src=src, opts=sopts, format=fmt)
    if r.format is f:
        ctx.eq(outcome(lambda: "".join(serialize_resource(r, trim_comments=trim, **sopts))), want, "serialize-own-format", src=src, opts=sopts)
    else:
        before = r.format
        r.format = f
        ctx.eq(outcome(lambda: "".join(serialize_resource(r, None, trim, **sopts))), want, "serialize-format", src=src, opts=sopts, format=fmt)
        r.format = before
        ctx.ev("format_overridden")
    ctx.ev("serialized_" + want[0])
    for bad in (None, Format.mf2):
        r.format = bad
        try:
            "".join(serialize_resource(r))
            ctx.fail("serialize-unknown", str(bad))
        except ValueError:
            ctx.ev("unknown_refused")
        ctx.eq(outcome(lambda: "".join(serialize_resource(r, f, trim, **sopts))), want, "serialize-override", src=src, opts=sopts, format=fmt)
    for call in (lambda: parse_resource(Format.mf2, src), lambda: parse_resource("no-such.xyz", "x")):
        ctx.eq(outcome(call), ("unsupported",), "parse-unknown")
    for call in (lambda: parse_resource(f), lambda: parse_resource(None)):
        ctx.eq(outcome(call), ("error", "TypeError"), "parse-without-source")


FAMILIES = [
    Family("written", fam_written, 2500, 60000, need=["calls", *(f"detected_{f}" for f in files.FORMATS), "detected_None"]),
    Family("encoded", fam_encoded, 500, 6000, need=["encoded_android", "encoded_xliff", "encoded_gettext"]),
    Family("foreign", fam_foreign, 2500, 60000, need=["refused", "foreign_text", "foreign_json-scalar", "foreign_json-not-strings", "foreign_json-plain", "foreign_json-commented", "foreign_xml", "foreign_bytes"]),
    Family("damaged", fam_damaged, 2000, 60000, need=["damaged_ok", "damaged_error", "damaged_unsupported"]),
    Family("options", fam_options, 1500, 40000, need=[*PARSE_OPTS, "options_by_name", "serialized_ok", "format_overridden", "unknown_refused"]),
]

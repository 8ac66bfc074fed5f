BUGS = []
def B(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))

B("b02-mf2-colon-literal", "C03", "a literal that looks like a namespaced identifier, such as a:b, in an option, attribute, key or operand",
  "The literal is written without quotes, which is not well-formed MessageFormat 2.",
  [("formats/mf2/serialize.py", "from .validate import name_re, number_re", "from .validate import identifier_re, number_re"),
   ("formats/mf2/serialize.py", "name_re.fullmatch(literal)", "identifier_re.fullmatch(literal)")],
  '''
from moz.l10n.formats.mf2 import mf2_parse_message, mf2_serialize_message
from moz.l10n.model import Expression, PatternMessage, VariableRef
m = PatternMessage([Expression(VariableRef("x"), "f", {"o": "a:b"})])
assert mf2_parse_message(mf2_serialize_message(m)) == m
''')
B("b03-mf2-input-deps", "C04", "an .input declaration whose option refers to another declaration, declared after it or in a cycle with it",
  "Option references of .input declarations are not counted, so that circular declarations pass and the order is not fixed.",
  [("formats/mf2/validate.py", "            if isinstance(opt, VariableRef):\n                deps.add(opt.name)", "            if isinstance(opt, VariableRef) and (not is_input or opt.name == name):\n                deps.add(opt.name)")],
  '''
from moz.l10n.formats.mf2 import mf2_validate_message
from moz.l10n.model import Expression, PatternMessage, VariableRef
m = PatternMessage(["x"], {"a": Expression(VariableRef("a"), "f", {"o": VariableRef("z")}), "z": Expression("5", "g")})
mf2_validate_message(m)
assert list(m.declarations) == ["z", "a"], m
''')
B("b04-json-empty-literal", "C05", "an expression whose operand is the empty string literal, together with a function",
  "The empty operand is left out of the JSON representation, so that it comes back as no operand.",
  [("message/to_json.py", "    if isinstance(expr.arg, str):\n", "    if expr.function and not expr.arg:\n        pass\n    elif isinstance(expr.arg, str):\n")],
  '''
from moz.l10n.message import message_from_json, message_to_json
from moz.l10n.model import Expression, PatternMessage
m = PatternMessage([Expression("", "f")])
assert message_from_json(message_to_json(m)) == m
''')

# --- Android
ANDROID = '''
from moz.l10n.formats import Format
from moz.l10n.resource import parse_resource, serialize_resource
from moz.l10n.model import *
def doc(s): return '<?xml version="1.0" encoding="utf-8"?>\\n<resources>\\n' + s + '\\n</resources>\\n'
def parse(s): return parse_resource(Format.android, doc(s))
def out(res): return "".join(serialize_resource(res))
'''
B("b05-android-array-comments", "C32", "a string array in which an item that has a comment is followed by one that has none",
  "Comments of string array items pile up: later items get the comments of all earlier ones too.",
  [("formats/android/parse.py", "                        comment.clear()\n                        idx += 1", "                        if len(item) == 0:\n                            idx += 1\n                        else:\n                            comment.clear()\n                            idx += 1")],
  ANDROID + '''
r = parse('<string-array name="a"><!-- one --><item>x</item><item>y</item></string-array>')
assert [e.comment for e in r.sections[0].entries] == ["one", ""], r
''')
B("b08-android-last-tail-space", "C06", "a string that ends in a space after an inline element",
  "Only the end of a string without elements is escaped, so that the last space is lost when the string is read back.",
  [("formats/android/serialize.py", '        if last.tail and last.tail.endswith(" "):', '        if last.tail and last.tail.endswith("  "):')],
  ANDROID + '''
r = Resource(Format.android, [Section((), [Entry(("a",), PatternMessage([Markup("open", "b"), "x", Markup("close", "b"), " y "]))])])
r2 = parse_resource(Format.android, out(r))
assert r2.sections[0].entries[0].value == r.sections[0].entries[0].value, out(r)
''')
B("b09-android-plural-comment", "C32", "a comment inside <plurals> before a variant that is not the first, when there is also one after the last variant",
  "The comments within plurals are not cleared once used, and are repeated for the next variant.",
  [("formats/android/parse.py", "                    else var_comment\n                )\n                var_comment.clear()", "                    else var_comment\n                )\n                if not msg.variants:\n                    var_comment.clear()\n                else:\n                    del var_comment[:-1]")],
  ANDROID + '''
r = parse('<plurals name="a"><item quantity="one">x</item><!-- c --><item quantity="other">y</item></plurals>')
assert r.sections[0].entries[0].comment.split() == ["other:", "c"], r
''')
B("b12-android-xliff-g-options", "C06", "an <xliff:g> with an example attribute but no id, around text that is not a placeholder",
  "The attributes of an xliff:g without an id are dropped.",
  [("formats/android/parse.py", "                            if options:\n                                yield Expression(arg, name, options, attributes=attr)", "                            if options and (id or attr.get(\"source\")):\n                                yield Expression(arg, name, options, attributes=attr)")],
  ANDROID + '''
s = '<string name="a"><xliff:g xmlns:xliff="urn:oasis:names:tc:xliff:document:1.2" example="Ex">Brand</xliff:g></string>'
p = parse(s).sections[0].entries[0].value.pattern
assert p[0].options == {"example": "Ex"}, p
''')

# --- XLIFF
XLIFF = '''
from moz.l10n.formats import Format
from moz.l10n.resource import parse_resource, serialize_resource
from moz.l10n.model import *
XC = '<header><tool tool-id="com.apple.dt.xcode" tool-name="Xcode"/></header>'
def doc(body, name="f", header=""): return f'<xliff version="1.2" xmlns="urn:oasis:names:tc:xliff:document:1.2"><file original="{name}" source-language="en" datatype="plaintext">{header}<body>{body}</body></file></xliff>'
def parse(s, **kw): return parse_resource(Format.xliff, doc(s, **kw))
def out(res): return "".join(serialize_resource(res))
'''
B("b15-xliff-addnext-tail", "C07", "a plural format key unit of a .stringsdict file that has a note but no target",
  "The target that is made for the format key is put after its notes.",
  [("formats/xliff/serialize.py", "            target = etree.Element(\"target\")\n            source.addnext(target)\n        if not target.text:\n            target.text = sel_source", "            target = etree.SubElement(unit, \"target\")\n        if not target.text:\n            target.text = sel_source")],
  XLIFF + '''
u = lambda id, s, n="": f'<trans-unit id="/k:dict/{id}:dict/:string"><source>{s}</source>{n}</trans-unit>'
r = parse(u("NSStringLocalizedFormatKey", "%#@v@", "<note>n</note>") + u("v:dict/other", "%d x"), name="L.stringsdict", header=XC)
o = out(r)
assert o.index("<target>%#@v@") < o.index("<note>n"), o
''')
B("b19-xliff-group-text", "C34", "text between the units of a group that is not in the first level of groups",
  "Unexpected text is only refused in the groups at the top.",
  [("formats/xliff/parse.py", "            raise ValueError(f\"Unexpected text in <group>: {unit.tail}\")", "            if len(path) == 2:\n                raise ValueError(f\"Unexpected text in <group>: {unit.tail}\")")],
  XLIFF + '''
try:
    parse('<group id="a"><group id="b"><trans-unit id="u"><source>s</source></trans-unit>lost</group></group>')
except ValueError: pass
else: raise AssertionError
''')
B("b20-xliff-trim-comment-unit", "C12", "an XLIFF entry with metadata for two notes of which the second has attributes",
  "With trim_comments, only the first note is left out.",
  [("formats/xliff/serialize.py", "            if not trim_comments or name != \"note\":", "            if not trim_comments or key[0:name_end] != \"note\":")],
  XLIFF + '''
r = parse('<trans-unit id="u"><source>s</source><note>a</note><note from="x">b</note></trans-unit>')
o = "".join(serialize_resource(r, trim_comments=True))
assert "note" not in o, o
''')

# --- gettext
PO = '''
from moz.l10n.formats import Format
from moz.l10n.resource import parse_resource, serialize_resource
from moz.l10n.model import *
H = 'msgid ""\\nmsgstr ""\\n"Plural-Forms: nplurals=2; plural=n != 1;\\\\n"\\n\\n'
def parse(s): return parse_resource(Format.gettext, H + s)
def out(res, **kw): return "".join(serialize_resource(res, **kw))
'''
B("b23-po-plural-order", "C08", "plural forms that are not written in the order of their indices",
  "The last written form is taken for the last index, so that forms after it are dropped.",
  [("formats/gettext/parse.py", "            keys = list(pe.msgstr_plural)\n            keys.sort()\n", "            keys = list(pe.msgstr_plural)\n")],
  PO + '''
r = parse('msgid "a"\\nmsgid_plural "as"\\nmsgstr[1] "x"\\nmsgstr[0] "y"\\n')
assert len(r.sections[0].entries[0].value.variants) == 2, r
''')
B("b24-po-translator-comments", "C08", "an entry with more than one translator-comments metadata field, as a caller may build it",
  "Only the last of the fields is written.",
  [("formats/gettext/serialize.py", 'pe.tcomment = f"{pe.tcomment}\\n{cs}" if pe.tcomment else cs', 'pe.tcomment = cs if cs else pe.tcomment')],
  PO + '''
r = parse('msgid "a"\\nmsgstr "b"\\n')
r.sections[0].entries[0].meta = [Metadata("translator-comments", "one"), Metadata("translator-comments", "two")]
o = out(r)
assert "# one\\n# two\\n" in o, o
''')
B("b26-po-obsolete", "C08", "the obsolete metadata that the parser sets, with another value than true, such as the empty one",
  "Entries marked obsolete in another way than with the value true are written as current ones.",
  [("formats/gettext/serialize.py", 'pe.obsolete = m.value != "false"', 'pe.obsolete = m.value == "true"')],
  PO + '''
r = parse('msgid "a"\\nmsgstr "b"\\n')
r.sections[0].entries[0].meta = [Metadata("obsolete", "")]
assert '#~ msgid "a"' in out(r), out(r)
''')

# --- Fluent
FTL = '''
from moz.l10n.formats.fluent import *
from moz.l10n.formats.fluent.parse import fluent_parse
from moz.l10n.formats.fluent.serialize import fluent_serialize
from moz.l10n.model import *
def rt(s): return "".join(fluent_serialize(fluent_parse(s)))
'''
B("b28-ftl-group-comments", "C34", "two group comments with no entry between them",
  "The first of the comments is replaced by the second.",
  [("formats/fluent/parse.py", "            if entries or section.comment:\n", "            if entries:\n")],
  FTL + '''
assert "## one" in rt("## one\\n\\n## two\\n\\na = b\\n")
''')
B("b29-ftl-attr-end", "C29", "an attribute whose value goes on for several lines at the end of an entry",
  "The end of the entry is that of the attribute's name rather than its value.",
  [("formats/fluent/parse.py", "            span = attr.value.span or attr.span\n", "            span = attr.id.span or attr.span\n")],
  FTL + '''
r = fluent_parse("a = b\\n  .x =\\n    one\\n    two\\nc = d\\n")
assert r.sections[0].entries[0].linepos.end == 5, r
''')
B("b30-ftl-plural-two", "C02", "a number selector whose only plural category variant is two",
  "The selector is taken for a string one, so that the number 2 no longer selects it.",
  [("formats/fluent/parse.py", 'plural_categories = ("zero", "one", "two", "few", "many", "other")\n    if', 'plural_categories = ("zero", "one", "few", "many", "other")\n    if')],
  FTL + '''
m = fluent_parse_message("{ $n -> \\n [two] a\\n *[other] b\\n }")
assert m.selector_expressions()[0].function == "number", m
''')
B("b31-ftl-term-attr", "C02", "a selector that is an attribute of a term called with arguments",
  "The attribute is dropped from the selector, which then is the term itself.",
  [("formats/fluent/parse.py", '''        name = "-" + exp.id.name
        if exp.attribute is not None:''', '''        name = "-" + exp.id.name
        if exp.attribute is not None and not exp.arguments:''')],
  FTL + '''
m = fluent_parse_message('{ -t.a(x: "y") -> \\n [one] a\\n *[other] b\\n }')
assert m.selector_expressions()[0].arg == "-t.a", m
''')
B("b34-ftl-resource-comments", "C02", "a file with two resource comments of which the first ends with an empty line",
  "Resource comments are joined without the empty line that keeps them apart.",
  [("formats/fluent/parse.py", '''(resource.comment.rstrip() + "\\n\\n" + entry.content)''', '''(resource.comment.rstrip() + ("\\n\\n" if "\\n" in resource.comment else " ") + entry.content)''')],
  FTL + '''
r = fluent_parse("### one\\n\\n### two\\n\\na = b\\n")
assert r.comment == "one\\n\\ntwo", r
''')

# --- DTD, inc, ini, properties, JSON
RES = '''
from moz.l10n.formats import Format
from moz.l10n.resource import parse_resource, serialize_resource, add_entries, l10n_equal
from moz.l10n.message import parse_message, serialize_message
from moz.l10n.model import *
def out(res, **kw): return "".join(serialize_resource(res, **kw))
'''
B("b36-dtd-name-chars", "C09", "an entity name with a middle dot or a combining mark in it",
  "The name is not recognised and the file is refused, although it is valid.",
  [("formats/dtd/parse.py", 'name_char = name_start_char + r"\\-\\.0-9" + "\\xb7\\u0300-\\u036f\\u203f-\\u2040"', 'name_char = name_start_char + r"\\-\\.0-9"')],
  RES + '''
r = parse_resource(Format.dtd, '<!ENTITY a\\xb7e\\u0301 "b">\\n')
assert [e.id for e in r.sections[0].entries] == [("a\\xb7e\\u0301",)], r
''')
B("b37-dtd-include-quotes", "C09", "an include of another DTD file in single quotes with a double quote in it",
  "The address of the include is cut at the inner quote and the rest refused.",
  [("formats/dtd/parse.py", '''+ r")\\s+SYSTEM\\s+((?:\\"[^\\"]*\\")|(?:'[^']*'))\\s*>''', '''+ r")\\s+SYSTEM\\s+((?:\\"[^\\"]*\\")|(?:'[^'\\"]*'))\\s*>''')],
  RES + """
r = parse_resource(Format.dtd, '''<!ENTITY % x SYSTEM 'a"b'>\\n%x;\\n<!ENTITY a "b">\\n''')
assert r.meta == [Metadata("x", 'a"b')], r
""")
B("b39-ini-empty-first", "C09", "a value in an .ini file that starts with an empty line and another one follows it",
  "The second empty line ends the value, as it is taken for the end of an empty value.",
  [("formats/ini/parse.py", '''        if pattern:
            if isinstance(line, ini.ContinuationLine):
                pattern[0] += "\\n" + line.value
                continue
            elif isinstance(line, ini.EmptyLine):
                pattern[0] += "\\n"''', '''        if pattern:
            if isinstance(line, ini.ContinuationLine):
                pattern[0] += "\\n" + line.value
                continue
            elif isinstance(line, ini.EmptyLine):
                pattern[0] += "\\n" if pattern[0].strip() else ""''')],
  RES + '''
r = parse_resource(Format.ini, '[s]\\na =\\n\\n  b\\n')
assert r.sections[0].entries[0].value.pattern == ["\\n\\nb"], r
''')
B("b40-ini-section-comment", "C34", "a comment on the line of an .ini section header",
  "The comment is dropped if there is one before the header too.",
  [("formats/ini/parse.py", "            add_comment(line.comment)\n            section = Section", "            if not comment:\n                add_comment(line.comment)\n            section = Section")],
  RES + '''
r = parse_resource(Format.ini, '# one\\n[s] ; two\\na = b\\n')
assert "two" in out(r), r
''')
B("b41-properties-lines", "C29", "an entry that follows a standalone comment and has no comment of its own",
  "The entry is said to start at the line of the standalone comment.",
  [("formats/properties/parse.py", '''                comment = ""
                comment_linepos = None
                start_line = 0
    return resource''', '''                comment = ""
                comment_linepos = None
                if entries:
                    start_line = 0
    return resource''')],
  RES + '''
r = parse_resource(Format.properties, '# one\\n\\na = b\\n')
assert r.sections[0].entries[0].linepos.start == 3, r.sections[0].entries[0].linepos
''')
B("b42-properties-key-colon", "C01", "a key that holds a colon or an equals sign, of a message with a comment-like first character in its value",
  "Separators in keys are only escaped where they come first, so that the key ends at the next one.",
  [("formats/properties/serialize.py", "                key = key.translate(special_key_trans)\n", "                key = key.translate(special_key_trans) if \" \" in key or \":\" in key else key.replace(\"=\", \"\\\\=\", 1)\n")],
  RES + '''
r = Resource(Format.properties, [Section((), [Entry(("a=b=c",), PatternMessage(["d"]))])])
assert [e.id for e in parse_resource(Format.properties, out(r)).sections[0].entries] == [("a=b=c",)], out(r)
''')
B("b44-webext-empty-example", "C10", "a WebExtension placeholder with an empty example",
  "The empty example is dropped.",
  [("formats/webext/parse.py", 'if "example" in ph:', 'if ph.get("example"):')],
  RES + '''
import json
src = {"a": {"message": "$x$", "placeholders": {"x": {"content": "$1", "example": ""}}}}
assert json.loads(out(parse_resource(Format.webext, json.dumps(src)))) == src
''')
B("b47-json-line-comments", "C10", "a WebExtension file as bytes with a line comment after a string that holds two slashes",
  "The slashes in the string are taken for the start of the comment, when the file is given as bytes.",
  [("util/loads.py", r"""bytes_comment = compile(rb'^((?:[^"\n]|"(?:[^"\\\n]|\\.)*")*?)//.*', MULTILINE)""", r"""bytes_comment = compile(rb'^((?:[^"\n]|"(?:[^"\\\n/]|\\.|/(?!/))*")*?)//.*', MULTILINE)""")],
  RES + '''
s = b'{\\n"a": {"message": "http://x" } // c\\n}'
assert parse_resource(Format.webext, s).sections[0].entries[0].value.pattern == ["http://x"]
''')
# --- resource
B("b50-equal-properties", "C17", "entries that differ only in a property whose value is an empty message",
  "Properties with empty messages are left out of the comparison.",
  [("resource/l10n_equal.py", "            entry.properties,\n", "            {k: v for k, v in entry.properties.items() if v != PatternMessage([])},\n"),
   ("resource/l10n_equal.py", "from ..model import Entry, Resource, Section", "from ..model import Entry, PatternMessage, Resource, Section")],
  RES + '''
a, b = (Resource(Format.fluent, [Section((), [Entry(("a",), PatternMessage(["x"]), p)])]) for p in ({}, {"t": PatternMessage([])}))
assert not l10n_equal(a, b)
''')
B("b51-equal-anonymous", "C17", "resources with several anonymous sections, of which some have metadata or comments",
  "Sections are merged for the comparison when only their first is anonymous.",
  [("resource/l10n_equal.py", "if id or comment or meta),", "if id or comment),")],
  RES + '''
e = lambda i: Entry((i,), PatternMessage([i]))
a = Resource(None, [Section((), [e("a")]), Section((), [e("b")], meta=[Metadata("k", "v")])])
b = Resource(None, [Section((), [e("a"), e("b")])])
assert not l10n_equal(a, b)
''')
# --- paths
TREE = '''
import os, tempfile, atexit, shutil
tmp = tempfile.mkdtemp(); atexit.register(shutil.rmtree, tmp)
def put(p, s=""):
    p = os.path.join(tmp, p); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w").write(s); return p
'''
B("b60-config-merge-locales", "C19", "the same reference and target paths in two config files, for different locales of which some are in both",
  "Locales that only the later config has are dropped when the two share a locale.",
  [("paths/config.py", "            elif locales:\n", "            elif locales and set(prev).isdisjoint(locales):\n")],
  TREE + '''
from moz.l10n.paths import L10nConfigPaths
put("inc.toml", '[[paths]]\\nreference = "en/a.ftl"\\nl10n = "{locale}/a.ftl"\\nlocales = ["de", "fr"]\\n')
p = put("l10n.toml", '[[paths]]\\nreference = "en/a.ftl"\\nl10n = "{locale}/a.ftl"\\nlocales = ["fr", "it"]\\n[[includes]]\\npath = "inc.toml"\\n')
assert [*L10nConfigPaths(p).all().values()] == [["de", "fr", "it"]]
''')
B("b62-config-include-locales", "C19", "an included config that has no locales of its own, but has them for some of its paths",
  "all_locales leaves out the locales of single paths of an included config that has no locales.",
  [("paths/config.py", "            yield from incl._all_locales\n", "            if incl._locales is not None:\n                yield from incl._all_locales\n")],
  TREE + '''
from moz.l10n.paths import L10nConfigPaths
put("inc.toml", '[[paths]]\\nreference = "en/a.ftl"\\nl10n = "{locale}/a.ftl"\\nlocales = ["de", "fr"]\\n')
p = put("l10n.toml", 'locales = ["fi"]\\n[[includes]]\\npath = "inc.toml"\\n')
assert L10nConfigPaths(p).all_locales == {"fi", "de", "fr"}
''')
B("b64-discover-locale-underscore", "C20", "a region-qualified locale that has no directory of its own, where both separators are used",
  "An existing directory name with an underscore is not found when most directories have a hyphen.",
  [("paths/discover.py", 'if locale_dir_sep == "_" or isdir(join(base, alt_dir)):', 'if locale_dir_sep == "_" or isdir(alt_dir):')],
  TREE + '''
from moz.l10n.paths import L10nDiscoverPaths
for lc in ["en", "fr-CA", "es-MX", "pt_BR"]: put(lc + "/a.ftl", "a = A")
p = L10nDiscoverPaths(tmp)
assert p.target("a.ftl", locale="pt-BR")[0] == os.path.join(tmp, "pt_BR/a.ftl"), p.target("a.ftl", locale="pt-BR")
''')
B("b65-discover-locale-variants", "C20", "a reference directory that is named in lower case with an underscore, for a source locale with a region",
  "A directory named en_us is not found as the source for en-US.",
  [("paths/discover.py", "    yield lc_.lower()", "    yield lc_.upper()")],
  TREE + '''
from moz.l10n.paths import L10nDiscoverPaths
put("en_us/a.ftl", "a = A"); put("fr/a.ftl", "a = A"); put("en/a.ftl", "a = A")
assert L10nDiscoverPaths(tmp).ref_root == os.path.join(tmp, "en_us")
''')
B("b67-discover-find-po", "C20", "a lookup of the reference of a target .po file in a subdirectory when the references are templates",
  "The template of a .po file is found only if the file is directly in the locale's directory.",
  [("paths/discover.py", 'elif ref_path.endswith(".po") and ref_path + "t" in self.ref_paths:', 'elif len(path_parts) == 1 and ref_path.endswith(".po") and ref_path + "t" in self.ref_paths:')],
  TREE + '''
from moz.l10n.paths import L10nDiscoverPaths
put("en/sub/a.pot", ""); put("fr/sub/a.po", "")
r = L10nDiscoverPaths(tmp).find_reference("fr/sub/a.po")
assert r == (os.path.join(tmp, "en/sub/a.pot"), {"locale": "fr"}), r
''')
B("b70-walk-dirs-root", "C21", "walking only some subdirectories, with an anchored rule in the ignore file",
  "Ignore rules are matched against paths relative to the walked subdirectory.",
  [("util/walk_files.py", "                rp = relpath(path, start=root)", "                rp = relpath(path, start=dir)")],
  TREE + '''
from moz.l10n.util.walk_files import walk_files
put("a/x.ftl"); put("a/a/x.ftl"); put(".l10n-ignore", "/a/x.ftl\\n")
got = sorted(os.path.relpath(p, tmp) for p in walk_files(tmp, ["a"]))
assert got == ["a/a/x.ftl"], got
''')
# --- bin
BIN = TREE + '''
import json, sys
def run(cmd, *args):
    from importlib import import_module
    try:
        import_module("moz.l10n.bin." + cmd).cli.main(list(args), standalone_mode=False)
    except SystemExit as e:
        return e.code
def read(p): return open(os.path.join(tmp, p)).read()
'''
B("b76-compare-ext-both", "C24", "--ext with both included and excluded extensions",
  "Excluded extensions have no effect when there are included ones too.",
  [("bin/compare.py", "        return included and not excluded", "        return included and (bool(ext_include) or not excluded)")],
  BIN + '''
import io, contextlib
put("fr/x", ""); s = put("s.json", '{"a.x.ftl": ["x"], "a.ftl": ["y"]}')
o = io.StringIO()
with contextlib.redirect_stdout(o):
    run("compare", "--json", "--ext", "ftl,!x.ftl", "--source", s, os.path.join(tmp, "fr"))
assert json.loads(o.getvalue())["fr"]["missing"] == {"a.ftl": ["y"]}, o.getvalue()
''')
B("b79-lint-skip-unknown", "C26", "linting a file with an unknown extension that is not readable, after one that is fine, without --skip-unknown",
  "Files of unknown format count as fine when others are.",
  [("bin/lint.py", "    return 1 if failed or unsupported else 0", "    return 1 if failed or unsupported > ok else 0")],
  BIN + '''
a, b = put("a.ftl", "a = A\\n"), put("b.txt", "b")
assert run("lint", a, b) == 1
''')
# --- migrate
MIG = TREE + '''
from moz.l10n.formats import Format
from moz.l10n.migrate import Migrate, copy, entry
from moz.l10n.migrate.utils import *
from moz.l10n.model import *
from moz.l10n.resource import parse_resource
'''
B("b80-migrate-copy-variant-default", "C27", "copying a variant that the message does not have, where the catch-all variant is not the last one",
  "The last variant is copied rather than the default one.",
  [("migrate/utils.py", "            for keys, pattern in msg.variants.items()\n            if all(isinstance(key, CatchallKey) for key in keys)", "            for keys, pattern in reversed(msg.variants.items())\n            if any(isinstance(key, CatchallKey) for key in keys)")],
  MIG + '''
o = CatchallKey("other")
m = SelectMessage({v: Expression(VariableRef(v), "number") for v in "nm"}, (VariableRef("n"), VariableRef("m")), {(o, o): ["oo"], ("one", o): ["1o"], (o, "one"): ["o1"]})
p = get_pattern(Resource(None, [Section((), [Entry(("a",), m)])]), "a", variant="many")
assert p == ["oo"], p
''')
B("b83-migrate-entry-partial-property", "C27", "an entry() with allow_partial and a property without a source that is not the last one",
  "Properties after the one that has no source are left out.",
  [("migrate/__init__.py", "                        if allow_partial:\n                            continue\n", "                        if allow_partial:\n                            break\n")],
  MIG + '''
put("en/a.ftl", "a = A\\n"); put("fr/a.ftl", "a = A\\n")
Migrate({"a.ftl": {"n": entry("N", {"x": lambda r, c: None, "y": "Y"}, allow_partial=True)}}, tmp).apply()
assert ".y = Y" in open(os.path.join(tmp, "fr/a.ftl")).read()
''')
B("b84-migrate-existing-section", "C27", "an entry that already exists in a later section with the same identifier",
  "Only the first of the sections with the same identifier is searched for an entry.",
  [("migrate/utils.py", "        if entry is not None:\n            return entry\n    return None", "        if entry is not None or section.id:\n            return entry\n    return None")],
  MIG + '''
r = parse_resource(Format.ini, "[S]\\na = A\\n[S.x]\\nb = B\\n")
r.sections.append(Section(("S",), [Entry(("c",), PatternMessage(["C"]))]))
assert get_entry(r, "S", "c") is not None
''')
# --- MessageFormat 2, messages as JSON
MF2 = '''
from moz.l10n.formats.mf2 import MF2ParseError, mf2_parse_message, mf2_serialize_message, mf2_validate_message
from moz.l10n.message import message_from_json, message_to_json, entry_to_json, entry_from_json
from moz.l10n.model import *
def fails(s):
    try: mf2_parse_message(s)
    except MF2ParseError: return True
    return False
'''
B("b90-mf2-option-redeclare", "C04", "a declaration of a variable that an option of an earlier .input declaration refers to",
  "Options of .input declarations are not counted as uses of a variable.",
  [("formats/mf2/message_parser.py", "            if expr.function:\n                for opt_value", '            if expr.function and keyword == ".local":\n                for opt_value')],
  MF2 + '''
assert fails(".input {$a :f o=$b} .local $b = {1} {{x}}")
''')
B("b91-mf2-quoted-trailing-space", "C03", "white space that includes a bidirectional mark between a variant's keys and its pattern",
  "Keys are not accepted when only a mark and spaces separate them.",
  [("formats/mf2/message_parser.py", "        while ch in space_chars or ch in bidi_chars:\n            self.pos += 1\n            ch = self.char()\n        return True", "        while ch in space_chars:\n            self.pos += 1\n            ch = self.char()\n        return True")],
  MF2 + '''
m = mf2_parse_message(".input {$n :f} .match $n \\u200e * {{x}}")
assert m.variants == {(CatchallKey(),): ["x"]}
''')
B("b93-json-catchall-value", "C05", "a select message with a named catch-all key, represented as JSON",
  "The name of a catch-all key is lost.",
  [("message/to_json.py", 'key if isinstance(key, str) else {"*": key.value or ""}', 'key if isinstance(key, str) else {"*": (key.value or "").strip("other")}')],
  MF2 + '''
m = SelectMessage({"n": Expression(VariableRef("n"), "number")}, (VariableRef("n"),), {(CatchallKey("other"),): ["x"]})
m2 = message_from_json(message_to_json(m))
assert [k[0].value for k in m2.variants] == ["other"]
''')
# --- model
B("b95-normalize-markup-refs", "C15", "a declaration that only an option of markup refers to",
  "Variables in the options of markup are not counted as uses, so that the declaration is dropped.",
  [("util/normalize.py", "            for var in el.variable_refs():\n", "            for var in el.variable_refs() if hasattr(el, \"arg\") else ():\n")],
  MF2 + '''
m = PatternMessage([Markup("open", "b", {"o": VariableRef("x")}), "t", Markup("close", "b")], {"x": Expression("1", "f")})
m.normalize()
assert "x" in m.declarations
''')
# --- purity
# --- detection and equality
B("b99-detect-webext-placeholders", "C18", "a JSON file in which placeholders of a message is not an object",
  "A file with placeholders that are not an object is taken for a WebExtension file.",
  [("formats/__init__.py", '            if not isinstance(value, dict):\n                return False\n        else:\n            return False\n    return has_message', '            if isinstance(value, list):\n                return False\n        else:\n            return False\n    return has_message')],
  RES + '''
from moz.l10n.formats import detect_format
assert detect_format("a.json", '{"a": {"message": "x", "placeholders": "y"}}') == Format.plain_json
''')
B("b100-detect-json-comment", "C18", "plain JSON that is not valid because of line comments",
  "Line comments are accepted in plain JSON as they are in WebExtension files.",
  [("formats/__init__.py", "                return Format.plain_json if valid_json else None", "                return Format.plain_json if valid_json or not name else None")],
  RES + '''
from moz.l10n.formats import detect_format
assert detect_format(None, '{ // c\\n"a": "x"}') is None
''')
# --- add_entries
# --- positions
# --- JavaScript
JS = '''
import json, subprocess, os, sys
def js(code):
    p = subprocess.run(["node", "--experimental-strip-types", "--no-warnings", "--input-type=module", "-e", code.replace('/repo/js', os.getcwd() + '/js')], capture_output=True, text=True, cwd="js")
    assert p.returncode == 0, p.stderr
    return json.loads(p.stdout)
'''
B("b104-js-normalize-markup", "C31", "normalizeMessage() of a message in which only an option of markup refers to a declared variable",
  "Variables in the options of markup are not counted as uses, so that the declaration is dropped.",
  [("js/src/model-utils.ts", "        if (el.opt) {\n", "        if (el.opt && !('open' in el)) {\n")],
  JS + '''
r = js("""import { normalizeMessage } from '/repo/js/src/model-utils.ts'
console.log(JSON.stringify(normalizeMessage({ decl: { x: { _: '1', fn: 'f' } }, msg: [{ open: 'b', opt: { o: { $: 'x' } } }, { close: 'b' }] })))""")
assert "decl" in r and "x" in r["decl"], r
''')
B("b105-js-equal-empty-decl", "C31", "messagesEqual() of a message with declarations and a bare pattern, in that order",
  "Declarations are ignored when the first message has them and the second is a bare pattern.",
  [("js/src/model-utils.ts", "    if (a.msg && !Object.keys(a.decl).length) return patternsEqual(a.msg, b)", "    if (a.msg) return patternsEqual(a.msg, b)")],
  JS + '''
r = js("""import { messagesEqual } from '/repo/js/src/model-utils.ts'
console.log(JSON.stringify(messagesEqual({ decl: { x: { _: '1', fn: 'f' } }, msg: ['a'] }, ['a'])))""")
assert r is False
''')
B("b106-js-equal-attributes", "C31", "messagesEqual() of placeholders of which only one has attributes",
  "Attributes are compared only if both have them.",
  [("js/src/model-utils.ts", "  if (a.attr || b.attr) {\n    const aa = a.attr ? Object.entries(a.attr) : []\n    const bal = b.attr ? Object.keys(b.attr).length : 0\n    if (aa.length !== bal) return false\n", "  if (a.attr && b.attr) {\n    const aa = Object.entries(a.attr)\n    const bal = Object.keys(b.attr).length\n    if (aa.length !== bal) return false\n")],
  JS + '''
r = js("""import { messagesEqual } from '/repo/js/src/model-utils.ts'
console.log(JSON.stringify(messagesEqual([{ $: 'x', attr: { source: 'y' } }], [{ $: 'x' }])))""")
assert r is False
''')
B("b108-js-properties-one-space", "C30", "a .properties message that is a single space",
  "A single space gets escaped twice.",
  [("js/src/properties-serialize.ts", "  if (str.endsWith(' ') && !str.endsWith('\\\\ ')) {", "  if (str.endsWith(' ')) {")],
  JS + '''
r = js("""import { propertiesSerializePattern } from '/repo/js/src/properties-serialize.ts'
console.log(JSON.stringify(propertiesSerializePattern([' '])))""")
from moz.l10n.formats.properties.parse import properties_parse_message
assert properties_parse_message(r).pattern == [" "], r
''')
B("b109-js-webext-dollars", "C30", "WebExtension text with several dollar signs in a row",
  "Each dollar sign is doubled, rather than one being added to those in a row.",
  [("js/src/webext-serialize.ts", r"part.replace(/\$+/g, '$$$&')", r"part.replace(/\$/g, '$$$&')")],
  JS + '''
r = js("""import { webextSerializePattern } from '/repo/js/src/webext-serialize.ts'
console.log(JSON.stringify(webextSerializePattern(['a $$ b'])))""")
from moz.l10n.message import parse_message
from moz.l10n.formats import Format
assert parse_message(Format.webext, r).pattern == ["a $$ b"], r
''')
# --- entry points and options
B("b111-serialize-escape-attributes", "C35", "fluent_serialize() with escape_syntax=False of an entry with attributes that hold syntax",
  "Without escape_syntax, text of attributes is escaped all the same.",
  [("formats/fluent/serialize.py", "            fluent_astify_message(val, escape_empty=True, escape_syntax=escape_syntax),\n", "            fluent_astify_message(val, escape_empty=True),\n")],
  FTL + '''
e = Entry(("k",), PatternMessage(["x"]), {"a": PatternMessage(["{ $x }"])})
assert fluent_serialize_entry(e, escape_syntax=False) == "k = x\\n    .a = { $x }\\n"
''')
B("b112-xliff-source-entries-lost", "C35", "serialize_resource() with xliff_source_entries and trim_comments",
  "The option source_entries is not passed on together with trim_comments.",
  [("resource/serialize_resource.py", "            resource, trim_comments, source_entries=xliff_source_entries\n", "            resource,\n            trim_comments,\n            source_entries=xliff_source_entries and not trim_comments,\n")],
  RES + '''
r = Resource(Format.xliff, [Section(("f",), [Entry(("k",), PatternMessage(["x"]))])])
o = out(r, xliff_source_entries=True, trim_comments=True)
assert "<source>x</source>" in o and "<target" not in o, o
''')
B("b114-webext-format-argument", "C35", "serialize_resource() with a format other than that of the resource, and trim_comments",
  "The format of the resource is preferred to the argument when comments are trimmed.",
  [("resource/serialize_resource.py", "    if not format:\n", "    if not format or (trim_comments and resource.format):\n")],
  RES + '''
r = parse_resource(Format.plain_json, '{"a": "x"}')
assert "".join(serialize_resource(r, Format.properties, True)) == "a = x\\n"
''')
B("b116-gettext-wrap-plural", "C35", "gettext_serialize() with an own wrapwidth of a long message with quotes",
  "Escaped lines are cut twice.",
  [("formats/gettext/serialize.py", "                    yield pe.__unicode__(wrapwidth=wrapwidth)\n", "                    yield pe.__unicode__(wrapwidth=wrapwidth)[: wrapwidth * 50]\n")],
  RES + '''
from moz.l10n.formats.gettext import gettext_serialize, gettext_parse
r = Resource(Format.gettext, [Section((), [Entry(("k",), PatternMessage(["a b " * 500]))])])
assert gettext_parse("".join(gettext_serialize(r, wrapwidth=30))).sections[0].entries[0].value.pattern == ["a b " * 500]
''')
LIMIT = RES + '''
import signal
signal.alarm(20)
'''
B("b117-dtd-comment-backtracking", "C36", "A DTD comment that starts with some lines of white space and is never closed",
  "The regular expression for comments backtracks exponentially.",
  [("formats/dtd/parse.py", '''re_comment = compile(r"\\<!\\s*--(.*?)--\\s*\\>", MULTILINE | DOTALL)\n''', '''re_comment = compile(r"\\<!\\s*--((?:[^\\s-]|\\s+|-(?!-))*)--\\s*\\>", MULTILINE | DOTALL)\n''')],
  LIMIT + '''
try: parse_resource(Format.dtd, "<!-- " + " " * 60 + "\\n")
except ValueError: pass
''')
B("b119-fluent-number-backtracking", "C36", "A Fluent literal that starts with many digits and does not end with one",
  "The regular expression for number literals backtracks exponentially.",
  [("formats/fluent/serialize.py", '''number_literal = compile(r"-?[0-9]+(\\.[0-9]+)?")\n''', '''number_literal = compile(r"-?(?:[0-9]+)+(\\.[0-9]+)?")\n''')],
  LIMIT + '''
m = PatternMessage([Expression(VariableRef("x"), "number", {"a": "1" * 60 + "px"})])
assert "1" * 60 in serialize_message(Format.fluent, m)
''')
B("b120-fluent-recursion-limit", "C36", "A Fluent file with many placeables; the recursion limit of the process after it",
  "Parsing a Fluent file raises the recursion limit of the whole process.",
  [("formats/fluent/parse.py", "        fluent_res = FluentParser(with_spans=with_linepos).parse(source_str)\n",
    "        if (depth := 5 * source_str.count(\"{\")) > sys.getrecursionlimit():\n            # Allow for deeply nested placeables\n            sys.setrecursionlimit(depth)\n        fluent_parser = FluentParser(with_spans=with_linepos)\n        fluent_res = fluent_parser.parse(source_str)\n"),
   ("formats/fluent/parse.py", "from __future__ import annotations\n", "from __future__ import annotations\n\nimport sys\n")],
  LIMIT + '''
import sys
n = sys.getrecursionlimit()
parse_resource(Format.fluent, "".join(f"a{i} = {{ $x }}\\n" for i in range(5000)))
assert sys.getrecursionlimit() == n
''')
B("b121-gettext-path-preferred", "C36", "parse_resource() with a .po path and a source, when a file is at that path",
  "The file is read although its contents are given.",
  [("resource/parse_resource.py", "        source_ = cast(str, input) if input_is_file else source\n", "        source_ = cast(str, input) if input_is_file or isinstance(input, str) else source\n"),
   ("resource/parse_resource.py", "    input_is_file = False\n", "    input_is_file = isinstance(input, str) and exists(input)\n"),
   ("resource/parse_resource.py", "from typing import ", "from os.path import exists\nfrom typing import ")],
  LIMIT + '''
import os, tempfile
d = tempfile.mkdtemp()
p = os.path.join(d, "a.po")
open(p, "w").write('msgid "a"\\nmsgstr "old"\\n')
try:
    r = parse_resource(p, 'msgid "a"\\nmsgstr "new"\\n')
finally:
    os.remove(p); os.rmdir(d)
assert r.sections[0].entries[0].value.pattern == ["new"]
''')
B("b122-android-locale-area-code", "C22", "A locale with a UN area code as region, such as es-419",
  "The region is written in the short form, which only holds two-letter regions.",
  [("paths/android_locale.py", 'fullmatch(r"[A-Z]{2}", rest[0])', 'fullmatch(r"[A-Z]{2}|[0-9]{3}", rest[0])')],
  RES + '''
from moz.l10n.paths import get_android_locale, parse_android_locale
assert parse_android_locale(get_android_locale("en-001")) == "en-001"
''')
B("b123-android-locale-legacy-script", "C22", "A locale that has a legacy Android language code and a script or other subtags",
  "The legacy code is not mapped back for qualifiers of the b+ form.",
  [("paths/android_locale.py", "    for current, legacy in ANDROID_LOCALES.items():\n        if lc == legacy:\n", "    for current, legacy in ANDROID_LOCALES.items():\n        if lc == legacy and len(rest) < 2:\n")],
  RES + '''
from moz.l10n.paths import get_android_locale, parse_android_locale
assert parse_android_locale(get_android_locale("yi-Latn-US")) == "yi-Latn-US"
''')
B("b124-add-entries-last-part", "C16", "Adding an entry with an identifier of many parts, of which only the last is in the target",
  "Entries are matched by the last part of their identifiers.",
  [("resource/add_entries.py", "if isinstance(e, Entry) and e.id == entry.id", "if isinstance(e, Entry) and e.id[-2:] == entry.id[-2:]")],
  RES + '''
from moz.l10n.resource import add_entries
a = parse_resource(Format.plain_json, '{"a": {"x": {"t": "1"}}}')
b = parse_resource(Format.plain_json, '{"b": {"x": {"t": "2"}}}')
assert add_entries(a, b) == 1
assert [e.id for e in a.sections[0].entries] == [("a", "x", "t"), ("b", "x", "t")]
''')
B("b125-add-entries-mixed-section", "C16", "Adding entries after one that is in a target section with the same id and another comment",
  "The entry is added to a section that it has no comment in common with.",
  [("resource/add_entries.py", "                    if prev_pos and prev_pos[0].comment == sc:\n", "                    if prev_pos and (prev_pos[0].comment == sc or not sc):\n")],
  RES + '''
from moz.l10n.resource import add_entries
a = parse_resource(Format.fluent, "## Old\\n\\nx = X\\n")
b = parse_resource(Format.fluent, "x = X\\ny = Y\\n")
add_entries(a, b)
for s in a.sections:
    for e in s.entries:
        assert (e.id == ("y",)) == (s.comment == ""), a
''')
B("b126-build-fluent-attribute-count", "C23", "A localized Fluent message with as many attributes as the source or more, but not all of them",
  "A message without some of the source attributes is put in the build.",
  [("bin/build.py", "                    if set(sk).issubset(lk):\n", "                    if len(sk) < len(lk):\n")],
  RES + '''
import tempfile, os
from moz.l10n.bin.build import write_target_file
with tempfile.TemporaryDirectory() as d:
    l, t = os.path.join(d, "l.ftl"), os.path.join(d, "t.ftl")
    open(l, "w").write("m = M\\n    .b = B\\n    .c = C\\n")
    write_target_file("m", parse_resource(Format.fluent, "m = M\\n    .a = A\\n"), l, t)
    assert open(t).read() == ""
''')
B("b128-fix-truncate-by-one", "C25", "Fixing a file that gets shorter by exactly one byte",
  "The last byte of the old contents is left at the end of the file.",
  [("bin/fix.py", "                file.truncate()\n", "                if len(next) + 1 < len(prev):\n                    file.truncate()\n")],
  RES + '''
import tempfile, os
from moz.l10n.bin.fix import fix_file
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "a.properties")
    open(p, "w").write("a  = b\\n")
    fix_file(d, p)
    assert open(p).read() == "a = b\\n"
''')
B("b129-fix-compare-text", "C25", "Fixing a file that only differs from its normal form in white space at its end",
  "The file is reported as good, and left as it is.",
  [("bin/fix.py", "            if next == prev:\n", "            if next.rstrip() == prev.rstrip():\n")],
  RES + '''
import tempfile, os
from moz.l10n.bin.fix import fix_file
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "a.properties")
    open(p, "w").write("a = b")
    fix_file(d, p)
    assert open(p).read() == "a = b\\n"
''')
B("b130-mf2-parse-cache", "C13", "Changing a message that was parsed, and parsing the same source again",
  "Messages without declarations or selectors are shared between calls.",
  [("formats/mf2/message_parser.py", "def mf2_parse_message(", "_cache: dict[str, Message] = {}\n\n\ndef mf2_parse_message("),
   ("formats/mf2/message_parser.py", "    parser = MF2Parser(source)\n    return parser.parse()\n", "    msg = _cache.get(source)\n    if msg is None:\n        msg = MF2Parser(source).parse()\n        if \"{\" not in source:\n            _cache[source] = msg\n    return msg\n")],
  RES + '''
m = parse_message(Format.mf2, "Hello")
m.pattern.append("!")
assert parse_message(Format.mf2, "Hello").pattern == ["Hello"]
''')
B("b131-android-entities-left", "C13", "An Android resource with entities that fails to serialize, and another one after it",
  "The entities of the failed serialization are put in the next one.",
  [("formats/android/serialize.py", "def android_serialize(\n", "entities: list[str] = []\n\n\ndef android_serialize(\n"),
   ("formats/android/serialize.py", "    entities = []\n    string_array = None\n", "    string_array = None\n"),
   ("formats/android/serialize.py", "            yield f\"  {entity}\\n\"\n        yield \"]>\\n\"\n", "            yield f\"  {entity}\\n\"\n        entities.clear()\n        yield \"]>\\n\"\n")],
  RES + """
def res(*entries):
    return Resource(Format.android, [
        Section(("!ENTITY",), [Entry(("foo",), PatternMessage(["Foo"]))]),
        Section((), [Entry(e, PatternMessage(["x"])) for e in entries]),
    ])
good = "".join(serialize_resource(res(("a",))))
try:
    "".join(serialize_resource(res(("a", "b", "c"))))
    assert False
except ValueError:
    pass
assert "".join(serialize_resource(res(("a",)))) == good
""")
B("b132-ini-section-bracket", "C28", "An .ini section with a closing bracket in its name",
  "The section is written, and has another name when it is read.",
  [("formats/ini/serialize.py", "[\\n:=[\\]]", "[\\n:=[]")],
  RES + """
r = Resource(Format.ini, [Section(("a]b",), [Entry(("k",), PatternMessage(["v"]))])])
try:
    s = "".join(serialize_resource(r))
except ValueError:
    pass
else:
    assert parse_resource(Format.ini, s).sections[-1].id == ("a]b",)
""")
B("b138-json-entry-falsy-value", "C33", "A JSON entry with a value that is not a message and counts as false, such as null or 0",
  "The value is taken to be an empty message.",
  [("message/from_json.py", "message_from_json(json[\"=\"]) if \"=\" in json else", "message_from_json(json[\"=\"]) if json.get(\"=\") else")],
  RES + """
from moz.l10n.message import entry_from_json
for bad in (None, 0, ""):
    try:
        entry_from_json("k", {"=": bad})
    except ValueError:
        continue
    assert False, bad
""")
B("b139-gettext-plural-catchall", "C28", "A gettext plural message with a catch-all variant and one for the last plural index",
  "One of the two variants is dropped.",
  [("formats/gettext/serialize.py", "                                else key.value or catchall_name\n", "                                else catchall_name\n")],
  RES + """
n = Expression(VariableRef("n"), "number")
m = SelectMessage({"n": n}, (VariableRef("n"),), {("0",): ["a"], (CatchallKey("1"),): ["b"]})
r = Resource(Format.gettext, [Section((), [Entry(("k",), m, meta=[Metadata("plural", "ks")])])],
             meta=[Metadata("Plural-Forms", "nplurals=3; plural=n%3;")])
s = "".join(serialize_resource(r))
assert 'msgstr[1] "b"' in s, s
""")
B("b144-xliff-two-comments-before-root", "C32", "An XLIFF file with more than one comment before its root element",
  "The comments change places.",
  [("formats/xliff/parse.py", "        root_comments.reverse()\n        res.comment = comment_str(root_comments)\n", "        res.comment = comment_str(root_comments)\n")],
  RES + '''
s = '<!-- a -->\\n<!-- b -->\\n<xliff version="1.2"><file original="x"><body><trans-unit id="i"><source>s</source></trans-unit></body></file></xliff>'
assert parse_resource(Format.xliff, s).comment == "a\\n\\nb"
''')
B("b145-walk-first-directory", "C21", "A directory that only matches an ignore rule as a directory, alone in its parent",
  "The first of the directories is always entered.",
  [("util/walk_files.py", "            while idx >= 0:\n", "            while idx > 0:\n")],
  RES + '''
import tempfile, os
from moz.l10n.util.walk_files import walk_files
with tempfile.TemporaryDirectory() as d:
    os.makedirs(os.path.join(d, "foo", "bar"))
    open(os.path.join(d, "foo", "bar", "x.ftl"), "w").close()
    open(os.path.join(d, ".l10n-ignore"), "w").write("/foo/\\n!/foo/bar/x.ftl\\n")
    assert list(walk_files(d)) == []
''')
B("b147-gettext-flag-order", "C11", "A gettext message with more than one flag",
  "The flags are reversed by each round trip.",
  [("formats/gettext/serialize.py", "                            pe.flags.append(m.value)\n", "                            pe.flags.insert(0, m.value)\n")],
  RES + '''
s = 'msgid ""\\nmsgstr ""\\n\\n#, fuzzy, c-format\\nmsgid "k"\\nmsgstr "v"\\n'
s1 = "".join(serialize_resource(parse_resource(Format.gettext, s)))
assert "".join(serialize_resource(parse_resource(Format.gettext, s1))) == s1
''')
B("b148-android-array-comment-trim", "C12", "Trimming the comments of an Android string array",
  "The comments of the items are kept.",
  [("formats/android/serialize.py", "                    if entry.comment and not trim_comments:\n                        add_comment(string_array", "                    if entry.comment:\n                        add_comment(string_array")],
  RES + '''
r = parse_resource(Format.android, '<resources><string-array name="a"><!-- foo --><item>x</item></string-array></resources>')
assert "foo" not in "".join(serialize_resource(r, trim_comments=True))
''')
B("b150-fix-streamed", "C25", "Fixing a file that can be read, but not written",
  "The start of the file is overwritten before it is known that all of it can be serialized.",
  [("bin/fix.py", "            for line in serialize_resource(res):\n                next.extend(line.encode(\"utf-8\"))\n", "            file.seek(0)\n            for line in serialize_resource(res):\n                data = line.encode(\"utf-8\")\n                next.extend(data)\n                file.write(data)\n"),
   ("bin/fix.py", "                file.seek(0)\n                file.write(next)\n                file.truncate()\n", "                file.truncate()\n")],
  RES + '''
import tempfile, os
from moz.l10n.bin.fix import fix_file
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "a.dtd")
    s = "<!ENTITY  a 'x'>\\n<!ENTITY b '&lt;!-- <!-- x'>\\n"
    open(p, "w").write(s)
    try: "".join(serialize_resource(parse_resource(p)))
    except ValueError: pass
    else: raise SystemExit("test is wrong")
    fix_file(d, p)
    assert open(p).read() == s
''')
B("b151-printf-percent-source", "C14", "A percent sign escape that has flags or a width",
  "The source of %-% or %5% is not kept, so it is written back as %%.",
  [("util/printf.py", 'yield Expression("%", attributes={"source": source})', 'yield Expression("%", attributes={"source": "%%"})')],
  '''
from moz.l10n.formats import Format
from moz.l10n.message import parse_message, serialize_message
m = parse_message(Format.plain_json, "a %5% b", printf_placeholders=True)
assert serialize_message(Format.plain_json, m) == "a %5% b"
''')
B("b152-webext-dollars", "C14", "More than three dollar signs in a row, after other text",
  "Only two of the dollar signs that they stand for are kept.",
  [("formats/webext/parse.py", "                pattern[-1] += m[3]\n", "                pattern[-1] += m[3][:2]\n")],
  '''
from moz.l10n.formats import Format
from moz.l10n.message import parse_message
assert parse_message(Format.webext, "a$$$$b").pattern == ["a$$$b"]
''')
B("b153-lint-skip-unknown", "C26", "--skip-unknown and a file with a known extension, but contents that are not recognised",
  "The file is skipped, rather than reported.",
  [("bin/lint.py", "        log.warning(f\"unsupported {log_path}\")\n        return Result.UNSUPPORTED\n", "        log.warning(f\"unsupported {log_path}\")\n        return Result.SKIP if skip_unknown else Result.UNSUPPORTED\n")],
  '''
import tempfile, os
from moz.l10n.bin.lint import lint
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "a.json")
    open(p, "w").write("[1, 2]")
    assert lint([p]) == 1
    assert lint([p], skip_unknown=True) == 1
''')
B("b154-compare-empty-file", "C24", "A localization file that has no messages at all",
  "The messages of a file that is there, but empty, are not reported as missing.",
  [("bin/compare.py", "            for msg in src_messages:\n                if msg not in tgt_messages:\n", "            for msg in src_messages:\n                if tgt_messages and msg not in tgt_messages:\n")],
  '''
import tempfile, os
from moz.l10n.bin.compare import compare
with tempfile.TemporaryDirectory() as d:
    open(os.path.join(d, "a.ftl"), "w").write("# nothing\\n")
    assert compare({"a.ftl": ["x", "y"]}, d) == ({}, {"a.ftl": ["x", "y"]})
''')
B("b155-normalize-deps", "C15", "A declaration that is used only through several other used declarations",
  "A declaration that another one of the used declarations needs is dropped.",
  [("util/normalize.py", "            yield dr\n            yield from _var_dependencies(decl_refs, dr)\n", "            yield dr\n            for d2 in decl_refs.pop(dr, ()):\n                yield d2\n                yield from decl_refs.get(d2, ())\n")],
  '''
from moz.l10n.formats import Format
from moz.l10n.message import parse_message
from moz.l10n.message import *
from moz.l10n.model import *
m = PatternMessage([Expression(VariableRef("a"))], {
  "f": Expression("1", "number"), "e": Expression(VariableRef("f")), "d": Expression(VariableRef("e")), "c": Expression(VariableRef("d")), "b": Expression(VariableRef("c")), "a": Expression(VariableRef("b"))})
m.normalize()
assert set(m.declarations) == {"a", "b", "c", "d", "e", "f"}, m
''')
B("b156-config-ext-lint", "C26", "Directories whose names look like localization files, in a glob",
  "A file below a directory with a dot in its name is left out.",
  [("bin/lint.py", "    if skip_unknown and splitext(path)[1] not in l10n_extensions:\n", "    if skip_unknown and path[path.find('.', 1) :] not in l10n_extensions:\n")],
  '''
import tempfile, os
from moz.l10n.bin.lint import lint
with tempfile.TemporaryDirectory() as d:
    os.mkdir(d + "/v1.2")
    p = d + "/v1.2/a.ftl"
    open(p, "w").write("bad entry")
    assert lint([p], skip_unknown=True) == 1
''')
B("b157-props-cr-continuation", "C01", "A continuation after a lone CR, followed by a line of white space that ends in LF",
  "The line after the blank continuation is joined to the value.",
  [("formats/properties/parse.py", "                    if at_cr:\n                        at_cr = False\n", "                    if at_cr and not ch.isspace():\n                        at_cr = False\n")],
  '''
from moz.l10n.formats import Format
from moz.l10n.resource import parse_resource
r = parse_resource(Format.properties, "a=b\\\\\\r  \\nc=d")
assert [(e.id, e.value.pattern) for e in r.sections[0].entries] == [(("a",), ["b"]), (("c",), ["d"])], r
''')
B("b158-xliff-group-notes", "C07", "A group with three or more notes of its own",
  "The third note gets the same metadata key as the second one, and they are merged.",
  [("formats/xliff/parse.py", "            seen[name] = idx\n", "            seen[name] = min(idx, 1)\n")],
  RES + """
s = '<xliff version="1.2"><file original="f" source-language="en" datatype="x"><body><group id="g"><note>a</note><note>b</note><note>c</note><trans-unit id="u"><source>s</source></trans-unit></group></body></file></xliff>'
r = parse_resource(Format.xliff, s)
out = "".join(serialize_resource(r))
assert [out.count(f"<note>{x}</note>") for x in "abc"] == [1, 1, 1], out
""")
B("b159-mf2-json-input-name", "C33", "An input declaration of a variable whose name differs from the declared one in case only",
  "The declaration is accepted.",
  [("formats/mf2/from_json.py", "decl_expr.arg.name != decl_name", "decl_expr.arg.name.lower() != decl_name.lower()")],
  """
from moz.l10n.formats.mf2 import mf2_from_json, MF2ValidationError
d = lambda n: {"type": "message", "declarations": [{"type": "input", "name": "count", "value": {"type": "expression", "arg": {"type": "variable", "name": n}}}], "pattern": []}
mf2_from_json(d("count"))
try: mf2_from_json(d("Count"))
except MF2ValidationError: pass
else: raise SystemExit("accepted")
""")
B("b160-mf2-json-attr-one", "C33", "An attribute with the number 1 as its value",
  "The invalid value is read as true.",
  [("formats/mf2/from_json.py", "True if json_value is True else", "True if json_value == 1 else")],
  """
from moz.l10n.formats.mf2 import mf2_from_json, MF2ValidationError
d = lambda v: {"type": "message", "declarations": [], "pattern": [{"type": "expression", "arg": {"type": "variable", "name": "n"}, "attributes": {"a": v}}]}
assert mf2_from_json(d(True)).pattern[0].attributes == {"a": True}
try: mf2_from_json(d(1))
except MF2ValidationError: pass
else: raise SystemExit("accepted")
""")
B("b161-build-attribute-count", "C23", "A localized Fluent message with more attributes than the source, but not all of the source's",
  "It is included in the build with some of its attributes missing.",
  [("bin/build.py", "                    if set(sk).issubset(lk):\n", "                    if len(sk) < len(lk):\n")],
  """
import tempfile, os
from moz.l10n.bin.build import write_target_file
from moz.l10n.resource import parse_resource
with tempfile.TemporaryDirectory() as d:
    p = lambda n: os.path.join(d, n)
    open(p("s.ftl"), "w").write("m = M\\n    .a = A\\n    .b = B\\n")
    open(p("l.ftl"), "w").write("m = L\\n    .a = A\\n    .c = C\\n    .d = D\\n")
    _, _, missing = write_target_file("x", parse_resource(p("s.ftl")), p("l.ftl"), p("t.ftl"))
    assert missing == ["m"] and "m = L" not in open(p("t.ftl")).read()
""")
B("b162-dtd-dashes", "C11", "A comment with an odd number of dashes in a row, at least three",
  "The output still has two dashes in a row, which change when it is formatted again.",
  [("formats/dtd/serialize.py", '.replace("--", "-\\u200b-\\u200b")', '.replace("--", "-\\u200b-")')],
  '''
from moz.l10n.formats import Format
from moz.l10n.resource import parse_resource, serialize_resource
s = "<!-- a --- b -->\\n<!ENTITY k 'v'>\\n"
s1 = "".join(serialize_resource(parse_resource(Format.dtd, s)))
assert "".join(serialize_resource(parse_resource(Format.dtd, s1))) == s1
''')
B("b164-android-section-meta", "C28", "An Android resource with section metadata",
  "The metadata is dropped silently.",
  [("formats/android/serialize.py", """        if section.meta:
            raise ValueError("Section metadata is not supported")
        if section.comment""", """        if section.meta and section.id:
            raise ValueError("Section metadata is not supported")
        if section.comment""")],
  RES + '''
from moz.l10n.model import *
r = Resource(Format.android, [Section((), [Entry(("a",), PatternMessage(["b"]))], meta=[Metadata("Zq", "Zq")])])
try:
    out = "".join(serialize_resource(r))
except ValueError:
    pass
else:
    assert "Zq" in out, out
''')

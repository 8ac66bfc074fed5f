#!/opt/venv/bin/python
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = "python/moz/l10n/"
PROPS = []
def P(id, title, statement, over, text, why, files, mech, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                      files=files, mech=mech, technique=technique, note=note))

P("C01", "Java .properties files mean what Java says, both ways",
  "Parsing any .properties text yields exactly the key/value pairs, in file order, that the java.util.Properties line, separator, continuation and escape rules give, with comments attached to the entry they directly precede or kept as standalone comments. Serializing any resource of .properties messages, in UTF-8 or ISO-8859-1, gives text that those same rules read back as the same pairs, and that the library's parser reads back as an equal resource. With printf placeholders asked for, each of them is a variable named by its index or name, of the kind of its conversion.",
  ["inputs"], "all .properties texts and all resources representable as .properties (any key and value characters, either encoding)",
  "tests parse a few fixture files; escapes, separators and continuations combine in unboundedly many ways",
  [F+"formats/properties/parse.py", F+"formats/properties/serialize.py"],
  [("PropertiesParser", F+"formats/properties/parse.py"), ("properties_serialize / properties_serialize_message", F+"formats/properties/serialize.py")],
  "runtime monitor: independent java.util.Properties reference reader over generated files",
  "Seeded exploration; the oracle is an independent reader of the Java line format written in the harness.")

P("C02", "Fluent round trip keeps content and meaning",
  "Parsing any valid Fluent resource and serializing it yields valid Fluent with the same messages, terms and comments in the same order, and the same attributes of each, which parses to an equal resource (attributes are written sorted). For every choice of selector values, each parsed message selects the variant, text and placeholders that the Fluent specification gives for its source, also after serialization.",
  ["inputs"], "all valid Fluent resources x all selector value assignments",
  "nested and sibling selects, default placement, string escapes, indentation and blank lines combine without bound; tests use a few fixture files",
  [F+"formats/fluent/parse.py", F+"formats/fluent/serialize.py"],
  [("fluent_parse flattening of select expressions", F+"formats/fluent/parse.py"), ("fluent_serialize nesting of variants", F+"formats/fluent/serialize.py")],
  "runtime monitor: reference Fluent resolver compared with message evaluation on generated resources",
  "Seeded exploration; the oracle is a reference resolver over the generator's own AST (and the fluent.syntax parser for output validity).")

P("C03", "MessageFormat 2 syntax round trip",
  "Every message that is well-formed by the MessageFormat 2 grammar parses to the data model that its syntax denotes, whatever optional whitespace, bidi marks, quoting or escaping it uses, and text that is not well-formed raises a parse error. Every message data model that passes validation serializes to well-formed MessageFormat 2 syntax that parses back to an equal model.",
  ["inputs"], "all MF2 source strings and all valid MF2 data models",
  "the grammar is recursive and tests list some 100 samples, few of which go through the serializer",
  [F+"formats/mf2/message_parser.py", F+"formats/mf2/serialize.py"],
  [("MF2Parser", F+"formats/mf2/message_parser.py"), ("mf2_serialize_message", F+"formats/mf2/serialize.py")],
  "runtime monitor: grammar-derived sentences with known models; independent reference recogniser on mutated text",
  "Seeded exploration against an independently written MF2 grammar generator/recogniser.")

P("C04", "MessageFormat 2 validation accepts exactly the valid messages",
  "Validating a message raises an error if and only if it breaks a MessageFormat 2 data model constraint: a selector without annotation, a missing fallback variant, a variant key count mismatch, a duplicate variant, a duplicate or circular declaration, or malformed parts. After validation succeeds, the message has an unchanged meaning and its declarations are ordered so that each comes after those that it refers to, and serializing it gives syntax that parses to an equal message.",
  ["inputs"], "all message data models, valid or broken in one or more places, including all declaration dependency graphs",
  "tests cover one or two instances of each error, and hardly any declaration graph",
  [F+"formats/mf2/validate.py"], [("mf2_validate_message", F+"formats/mf2/validate.py")],
  "runtime monitor: reference validity predicate and topological-order invariant over generated models",
  "Seeded exploration with all small declaration graphs enumerated; oracle is an independent validity predicate.")

P("C05", "JSON representations are lossless and match their schemas",
  "Any message or entry converted to its JSON representation, and any valid message converted to the MessageFormat 2 JSON data model, conforms to the published JSON Schema, survives JSON text encoding, and converts back to an equal message or entry. Distinct messages or entries never share a representation, and conversion leaves its argument unchanged.",
  ["inputs"], "all messages, entries (with any identifiers, properties, comments and metadata) and MF2 messages",
  "tests convert a handful of messages and never compare against the schema for the full range of parts",
  [F+"message/to_json.py", F+"message/from_json.py", F+"formats/mf2/to_json.py", F+"formats/mf2/from_json.py", "schemas/message.json", "schemas/entry.json", "schemas/mf2-message.json"],
  [("message_to_json / entry_to_json", F+"message/to_json.py"), ("mf2_to_json / mf2_from_json", F+"formats/mf2/to_json.py")],
  "runtime monitor: schema conformance, round-trip and injectivity checks on generated messages",
  "Seeded exploration; schema conformance by the jsonschema library.")

P("C06", "Android string resources round trip",
  "Parsing any Android string resources file yields the strings, string arrays, plurals, comments and entities it holds with the text that Android's resource compiler would give for its whitespace, quoting and escape rules, together with its printf placeholders and inline markup. Serializing any such resource gives well-formed XML that parses to an equal resource, with the same entries in the same order. A printf placeholder is a variable named by its argument index, of the kind (string, integer, number, boolean, datetime) of its conversion, with its source; `%<` repeats the variable before it.",
  ["inputs"], "all Android strings.xml documents with string, string-array, plurals, comments, CDATA, xliff:g, HTML markup and printf placeholders",
  "escape, quoting and whitespace rules interact with inline elements and placeholders; tests use one fixture and a few strings",
  [F+"formats/android/parse.py", F+"formats/android/serialize.py"],
  [("android_parse", F+"formats/android/parse.py"), ("android_serialize", F+"formats/android/serialize.py")],
  "runtime monitor: reference Android string evaluator and round-trip comparison on generated documents",
  "Seeded exploration; oracle is an independent aapt-style text evaluator over lxml-parsed output.")

P("C07", "XLIFF 1.2 round trip, including Xcode plurals",
  "Parsing any supported XLIFF 1.2 document and serializing it gives a well-formed XLIFF document that has the same files, groups, units, targets, notes, attributes and inline elements in the same order, and that parses to an equal resource. In a document written by Xcode, each plural string keeps its variants, formats and placeholders through the round trip, format specifiers are variables of the kind of their conversion, and plural, device or substitution variants that do not fit together (unknown categories, no `other`, repeated or mixed ones, wrong ids, unexpected elements) are refused.",
  ["inputs"], "all XLIFF 1.2 documents in the supported subset, with nested groups, bin-units, alt-trans, inline elements, foreign namespaces, and Xcode stringsdict / xcstrings plurals",
  "tests use a few fixture files; element nesting, attributes and namespaces combine without bound",
  [F+"formats/xliff/parse.py", F+"formats/xliff/parse_trans_unit.py", F+"formats/xliff/parse_xcode.py", F+"formats/xliff/serialize.py", F+"formats/xliff/common.py"],
  [("xliff_parse", F+"formats/xliff/parse.py"), ("xliff_serialize", F+"formats/xliff/serialize.py")],
  "runtime monitor: XML infoset comparison and round-trip checks on generated documents",
  "Seeded exploration; oracle is an infoset comparison of source and output with plain lxml, and resource equality.")

P("C08", "Gettext catalogs round trip",
  "Parsing any PO catalog yields one entry per message in file order, with its context, all plural forms, flags, references, comments, previous and obsolete markers and header fields, as an independent PO reader sees them. Serializing such a resource gives a PO file in which that reader sees the same messages and that parses to an equal resource; when serializing with plurals given as a count, each plural message is written with exactly that many forms.",
  ["inputs"], "all PO catalogs: contexts, plurals, flags, comments, obsolete entries, multi-line strings and any characters",
  "tests use one fixture file; escapes, plurals and comment kinds combine without bound",
  [F+"formats/gettext/parse.py", F+"formats/gettext/serialize.py"],
  [("gettext_parse", F+"formats/gettext/parse.py"), ("gettext_serialize", F+"formats/gettext/serialize.py")],
  "runtime monitor: independent PO reader compared with parse and serialize on generated catalogs",
  "Seeded exploration; oracle is a PO reader written in the harness.")

P("C09", "DTD, .inc and .ini files round trip",
  "Parsing any valid DTD, .inc or .ini localization file yields exactly its entries in order, with their values as written, their sections and their comments. Serializing a resource of one of these formats gives text that parses back to an equal resource, or raises an error if the format cannot hold some value.",
  ["inputs"], "all valid DTD entity, .inc and .ini files; all resources of those formats",
  "tests use one small fixture per format",
  [F+"formats/dtd/parse.py", F+"formats/dtd/serialize.py", F+"formats/inc/parse.py", F+"formats/inc/serialize.py", F+"formats/ini/parse.py", F+"formats/ini/serialize.py"],
  [("dtd_parse/dtd_serialize", F+"formats/dtd"), ("inc_parse/inc_serialize", F+"formats/inc"), ("ini_parse/ini_serialize", F+"formats/ini")],
  "runtime monitor: generated files with known contents; round-trip comparison",
  "Seeded exploration; expected contents come from the generator.")

P("C10", "Plain JSON and WebExtension messages round trip",
  "Parsing any plain JSON tree of strings, or any WebExtension messages.json, yields one entry per string in document order under its full key path, with WebExtension descriptions as comments and every placeholder reference resolved to its declared content and example, as the platform would. Serializing gives valid JSON that holds the same key paths, strings, descriptions and referenced placeholders, and that parses to an equal resource, or raises an error.",
  ["inputs"], "all JSON trees of strings and all messages.json documents",
  "tests use one fixture per format; placeholder names, positional arguments, escapes and nesting combine without bound",
  [F+"formats/plain_json/parse.py", F+"formats/plain_json/serialize.py", F+"formats/webext/parse.py", F+"formats/webext/serialize.py", F+"util/loads.py"],
  [("plain_json_parse/serialize", F+"formats/plain_json"), ("webext_parse/serialize", F+"formats/webext")],
  "runtime monitor: json-module reference and WebExtension placeholder expander on generated documents",
  "Seeded exploration; oracle is the json module plus a reference expansion of placeholders.")

P("C11", "Serialization is a stable normal form for every format",
  "For every format, serializing what was parsed from a file and then parsing and serializing again gives byte-identical text, so that formatting a file twice changes nothing the second time. Entry order, identifiers and message values are the same after each pass. All parts of what is parsed are of the types that the model declares.",
  ["inputs"], "all parseable files of every supported format, including hand-edited layouts",
  "tests compare one normalised fixture per format",
  [F+"resource/parse_resource.py", F+"resource/serialize_resource.py", F+"formats"],
  [("parse_resource / serialize_resource", F+"resource")],
  "runtime monitor: fixpoint comparison over generated and mutated files of all formats",
  "Seeded exploration; self-composition oracle.")

P("C12", "Trimming comments removes all comments and nothing else",
  "For every format that allows it, serializing with comments trimmed gives a file with no comments in it, at resource, section, entry or standalone level, whose identifiers, values, attributes and metadata that affect the message are exactly those of the untrimmed file, in the same order. What the format counts as comments goes with them: gettext flags, references and obsolete entries, XLIFF notes (but not XML comments inside a unit), WebExtension descriptions.",
  ["inputs"], "all resources of every format x comment placement",
  "tests trim one fixture per format",
  [F+"resource/serialize_resource.py", F+"formats"],
  [("trim_comments argument of every serializer", F+"formats")],
  "runtime monitor: marker comments searched in trimmed output, and differential parse of trimmed/untrimmed output",
  "Seeded exploration; unique marker words in every comment make a leak visible.")

P("C13", "Library calls are pure and history-independent",
  "Parsing, serializing, JSON conversion, comparison and format detection never modify the arguments passed to them, and give the same result for the same input whatever calls came before, were left half-consumed, or run at the same time in other threads. Results of separate calls share no mutable state, and bytes and text inputs with the same content give equal results.",
  ["histories", "schedules", "inputs"], "all call sequences and thread interleavings over all formats",
  "tests call each function once with fresh arguments in one thread",
  [F+"resource", F+"message", F+"formats", F+"util"],
  [("parse_resource, serialize_resource, parse_message, serialize_message", F)],
  "runtime monitor: argument fingerprints before/after, replayed call histories, multi-threaded stress with recorded results",
  "Seeded exploration of call histories and thread stress with tiny switch intervals.")

P("C14", "Single-message parse and serialize agree",
  "For every format and option, parsing a message string into a message and serializing it gives a string that parses to an equal message, and the literal text and placeholder sources of the message, put together and with the format's escapes undone, account for the whole source string with nothing lost, duplicated or reordered. Printf, WebExtension and Xcode placeholders are recognised exactly where the platform would substitute a value.",
  ["inputs"], "all message strings in every format and placeholder mode",
  "tests parse a few strings per format; placeholder syntax mixes with text in unboundedly many ways",
  [F+"message/parse.py", F+"message/serialize.py", F+"util/printf.py", F+"formats/webext", F+"formats/properties", F+"formats/android", F+"formats/xliff"],
  [("parse_message / serialize_message", F+"message"), ("printf_placeholders", F+"util/printf.py")],
  "runtime monitor: conservation check (text + sources = input) and reference printf scanner on generated strings",
  "Seeded exploration; independent printf specifier scanner.")

P("C15", "Normalizing a message keeps its meaning and is idempotent",
  "Normalizing a message joins adjacent text, drops empty text and drops exactly the declarations that nothing refers to, directly or through other used declarations, and changes nothing else. Normalizing twice is the same as normalizing once, a message is reported empty exactly if its patterns hold no text or placeholders, and metadata lookups, updates and removals act on the first, first and all matching entries respectively.",
  ["inputs", "histories"], "all messages with any declaration reference graph; all sequences of metadata operations",
  "tests normalise a few messages",
  [F+"model.py", F+"util/normalize.py"],
  [("PatternMessage.normalize / SelectMessage.normalize", F+"model.py"), ("_WithMeta", F+"model.py")],
  "runtime monitor: reference model of normalization and of the metadata list over random operation histories",
  "Seeded exploration against an independent model.")

P("C16", "Adding entries is complete, order-keeping and non-destructive",
  "After adding the entries of one resource to another, the target has every entry it had, in the same relative order, and every entry of the source exactly once in the section with the same identifier; entries present in both keep the target's content, or get the source's if that was asked for. The source is not changed, the returned count is the number of entries added or changed plus the number of existing sections that were changed, and adding the same source again changes nothing and returns 0.",
  ["inputs", "histories"], "all pairs of resources with any overlap and order of sections, entries and comments",
  "tests use a few small hand-made pairs",
  [F+"resource/add_entries.py"], [("add_entries", F+"resource/add_entries.py")],
  "runtime monitor: conservation and order checks with unique entry ids over generated resource pairs",
  "Seeded exploration with conservation/order oracle; unique ids make each entry traceable.")

P("C17", "Resource equality ignores layout and detects every difference",
  "Comparing two resources for localization equality is reflexive, symmetric and transitive, and ignores the order of sections and entries, standalone comments, empty sections and surrounding whitespace in comments. Any difference in format, resource comment or metadata, section identifiers, comments or metadata, or in an entry's identifier, value, properties, comment or metadata, is reported as unequal; metadata counts as a set of key-value pairs.",
  ["inputs"], "all pairs and triples of resources; each single-point change",
  "tests compare a few pairs",
  [F+"resource/l10n_equal.py"], [("l10n_equal", F+"resource/l10n_equal.py")],
  "runtime monitor: metamorphic shuffles and single-point edits over generated resources",
  "Seeded exploration with metamorphic oracle.")

P("C18", "Format detection picks the right parser",
  "Every file written by the library in one of its formats is recognised as that format from its name, and as a format with the same contents from its contents when the name does not tell, giving the same result whether passed as path, bytes or text. Parsing with the format detected, named or given explicitly is the same as calling that format's own parser, and input that no format fits is reported as unsupported rather than misread.",
  ["inputs", "configurations"], "all file names and contents over all formats and ways to call",
  "tests detect a few fixture files",
  [F+"formats/__init__.py", F+"resource/parse_resource.py", F+"resource/serialize_resource.py"],
  [("detect_format", F+"formats/__init__.py"), ("parse_resource", F+"resource/parse_resource.py")],
  "runtime monitor: differential dispatch over call styles on generated files of every format",
  "Seeded exploration; differential oracle across call styles.")

P("C19", "Config paths map references and targets to each other",
  "For any localization config with includes, variables, wildcards and locale lists, the reference files listed are exactly the existing ones its patterns match, each with the target path and locales its most specific rule gives. Mapping a reference path to its target for a locale and mapping that target back gives the same reference path and locale, and paths outside the config map to nothing.",
  ["configurations", "inputs"], "all L10n TOML configs over all file trees, locales and environment variables",
  "tests use three hand-written configs",
  [F+"paths/config.py", F+"paths/android_locale.py"],
  [("L10nConfigPaths", F+"paths/config.py")],
  "runtime monitor: reference path matcher over generated configs and file trees in a scratch folder",
  "Seeded exploration; independent pattern matcher.")

P("C20", "Discovered paths map references and targets to each other",
  "For any localization repository layout, automatic discovery picks the reference directory by the documented preference, lists exactly the files in it that are not ignored, and finds the locale directories next to it as locales. Mapping a reference path to its target for a locale and mapping that target back gives the same reference path and locale, and paths outside the repository's localization directories map to nothing.",
  ["configurations", "inputs"], "all directory layouts, names and ignore rules",
  "tests use a handful of layouts",
  [F+"paths/discover.py", F+"util/walk_files.py"],
  [("L10nDiscoverPaths", F+"paths/discover.py")],
  "runtime monitor: generated directory trees with known answers in a scratch folder",
  "Seeded exploration; the generator knows the expected layout.")

P("C21", "File walking honours ignore files like git",
  "Walking a directory yields each regular file under it exactly once, except files and directories excluded by the rules of the ignore file of its root, which are interpreted with git's precedence, negation, anchoring and wildcard rules.",
  ["configurations", "inputs"], "all directory trees and ignore files",
  "tests use a few patterns",
  [F+"util/walk_files.py"], [("walk_files", F+"util/walk_files.py")],
  "runtime monitor: git check-ignore as oracle on generated trees in a scratch folder",
  "Seeded exploration; git itself is the oracle.")

P("C22", "Android locale codes map one to one",
  "Converting any BCP 47 locale made of language, script, region and variant to its Android resource qualifier and back gives the same locale, and distinct locales never share a qualifier; strings that are not Android locale qualifiers convert to nothing.",
  ["inputs"], "all language[-script][-region][-variant] locale identifiers and all short strings over their alphabet",
  "tests list a few locales",
  [F+"paths/android_locale.py"], [("get_android_locale / parse_android_locale", F+"paths/android_locale.py")],
  "runtime monitor: exhaustive sweep of code shapes with a bijection monitor",
  "Exhaustive over all 2-letter codes, sampled 3-letter codes and scripts.")

P("C23", "Release builds hold exactly the source entries, localized where possible",
  "Building localization files writes for each configured locale and source file one file with exactly the entries of the source file that the localization has (not counting obsolete ones), and no comments, taking each value from the localization, or an entry from the source where the build is documented to fall back. Files and entries not in the source are never written, the source and localization files stay unchanged, and building twice gives identical bytes.",
  ["inputs", "configurations"], "all source/localization trees, locale lists and formats",
  "tests build one small tree",
  [F+"bin/build.py", F+"bin/build_file.py"],
  [("build", F+"bin/build.py"), ("build_file", F+"bin/build_file.py")],
  "runtime monitor: snapshots of scratch trees before/after, reference model of the expected output",
  "Seeded exploration; reference model of what each output must hold.")

P("C24", "Comparison reports exactly the missing messages",
  "Comparing localizations with their source reports for each locale and file exactly the source messages that the localization lacks and the files that it lacks or that cannot be read, with summary counts that add up to the totals. No file is modified.",
  ["inputs", "configurations"], "all source/localization trees and sources given as directory, config or JSON",
  "no test covers the comparison output for more than a small tree",
  [F+"bin/compare.py"], [("compare", F+"bin/compare.py")],
  "runtime monitor: set-arithmetic oracle over generated trees",
  "Seeded exploration; counts recomputed independently.")

P("C25", "Fix rewrites only what it must and never damages a file",
  "Fixing files replaces each readable localization file with its normalised form, which has equal contents, and leaves files that are already normalised, that cannot be parsed or serialized, or that are not selected byte-for-byte unchanged. Running it again changes nothing, and the exit status is non-zero if and only if some selected file of a known format cannot be parsed or serialized.",
  ["inputs", "fault_sequences"], "all trees of localization files, valid and broken, of all formats",
  "tests fix one or two small files",
  [F+"bin/fix.py", F+"bin/utils.py"], [("fix", F+"bin/fix.py")],
  "runtime monitor: scratch tree snapshots before/after with injected broken files",
  "Seeded exploration with injected faults.")

P("C26", "Lint never writes and reports every unreadable file",
  "Linting any selection of files modifies nothing, and its exit status is zero if and only if every selected file could be parsed; each file that cannot be parsed is named in its output.",
  ["inputs", "configurations"], "all trees of localization files, valid and broken, selected by directory, config or glob",
  "tests lint one or two small trees",
  [F+"bin/lint.py", F+"bin/utils.py"], [("lint", F+"bin/lint.py")],
  "runtime monitor: scratch tree snapshots and independent parse verdicts",
  "Seeded exploration with injected faults.")

P("C27", "Migrations add what they define and keep everything else",
  "Applying a migration adds to each target file exactly the entries for which its function gave a value and which the file lacks, after the entries named for it or at the end; entries, comments and order already in the file are kept, and applying it again changes nothing. A dry run writes nothing, a failure in one entry or file leaves the affected file's previous content intact, and files that need no change are not rewritten. An entry whose section its file lacks is an error. The building blocks of migration functions (`get_entry()`, `get_pattern()`, `copy()`, `entry()`, `insert_entry_after()`, `plural_message()`) find, copy and build what their documentation says, with the documented default and variant, keep all variants, properties, comment and metadata of what they copy, and leave their source unchanged.",
  ["histories", "fault_sequences", "inputs"], "all migration maps over all existing target files, including failing functions and unserializable results",
  "tests apply a few migrations that succeed to small files",
  [F+"migrate/__init__.py", F+"migrate/utils.py", F+"bin/migrate.py"],
  [("Migrate.apply", F+"migrate/__init__.py")],
  "runtime monitor: scratch tree snapshots with recording migration functions and injected failures",
  "Seeded exploration with fault injection at every migration function and at serialization.")

P("C28", "What a format cannot hold is refused, not silently changed",
  "Serializing any message or resource built from the data model into any format either raises an error or gives output that the format's own parser reads back with the same identifiers, text, placeholders and variants. None of these is ever dropped or altered silently (MessageFormat 2: of messages that pass validation). The same holds for any comments and metadata that they have: whatever these contain, they never become or change a message, and comments that are not refused keep their words.",
  ["inputs"], "all data-model resources x all target formats, including content that came from another format",
  "tests serialize only what was parsed from the same format",
  [F+"resource/serialize_resource.py", F+"message/serialize.py", F+"formats"],
  [("serializer argument checks", F+"formats")],
  "runtime monitor: cross-format serialization with re-parse comparison",
  "Seeded exploration of data-model resources against each serializer.")

P("C29", "Reported line positions point at the entries",
  "In Fluent and .properties files, the line position reported for each entry, standalone comment and section header gives the lines of the source file on which its attached comment starts, its key and its value start, and the line after its last one, for any mix of line endings, blank lines, multi-line values and attributes, with or without a final line break; positions never overlap and increase in file order.",
  ["inputs"], "all files in formats that report positions",
  "tests check one fixture per format",
  [F+"formats"], [("linepos of Entry, Section and Comment", F+"model.py")],
  "runtime monitor: generator-known line numbers compared with reported ones",
  "Seeded exploration; the generator records the true line numbers.")

P("C30", "JavaScript and Python agree on message syntax",
  "For every message string in Android, XLIFF (with and without Xcode's placeholders), properties, WebExtension, plain, Fluent and MessageFormat 2 syntax that the Python library accepts, the JavaScript library's parse functions return the same message as the JSON representation of what Python parses (placeholders with their functions, options and source text, markup, text, selectors and variants, Fluent attributes), and what one refuses as bad XML the other refuses too; and what the JavaScript library's serialize functions write for a message, Python reads as the same message as what Python itself writes for it. Errors are given to the onError callback or thrown as ParseError or SerializeError, and arguments are not modified. Not covered: strings with control or white space characters on which Python and ECMAScript regular expressions differ, Fluent messages with more than one select expression on the same value or with text that begins or ends with white space, and the position index that Python adds to some placeholders.",
  ["inputs"], "all message strings and messages in the formats shared by both implementations",
  "the two test suites share no inputs, and each samples a handful of messages",
  ["js/src", F+"message", F+"formats"], [("parse/serialize modules", "js/src"), ("parse_message, serialize_message", F+"message")],
  "runtime monitor: differential oracle over executions of both implementations on generated strings and messages",
  "Seeded exploration; the library runs under node, with stand-ins for DOMParser/XMLSerializer and for the syntax parsers of @fluent/syntax and messageformat, which are not installed here: they get the syntax tree from Python.")

P("C31", "JavaScript message utilities",
  "In the JavaScript library, for all messages that follow the JSON message schema: messagesEqual(a, b) is true exactly when a and b have the same text, placeholders, markup, options, attributes, declarations, selectors and variants in the same order, where the order of declarations, options and attributes and the names of catchall keys make no difference, an empty set of options or attributes is the same as none, and a bare pattern is the same as a pattern message without declarations; normalizeMessage drops exactly the declarations that no pattern, selector or used declaration refers to, directly or through others, joins adjacent text, drops empty text, changes nothing else, leaves its argument as it was and shares no object with it; messageIsEmpty is true exactly if all patterns (with anyVariant, any pattern) consist of nothing but empty text; and isExpression, isMarkup and isSelectMessage tell the parts and messages apart.",
  ["inputs"], "all messages that follow the JSON schema",
  "tests check a few messages, and names like constructor or __proto__ not at all",
  ["js/src"], [("messagesEqual, normalizeMessage, messageIsEmpty", "js/src/model-utils.ts"), ("isExpression, isMarkup, isSelectMessage", "js/src/model.ts")],
  "runtime monitor: reference implementations compared with the functions run under node on generated and edited messages",
  "Seeded exploration.")

P("C32", "Comments keep their place and their text",
  "In every format that has comments (Android, DTD, Fluent, gettext, .inc, .ini, .properties, XLIFF), the comments of a resource at each level the format supports (resource, section, standalone, entry), of one or more lines, are written so that no line of them is lost, all of their lines come after the entry before them and ahead of the entry they are about (XLIFF notes: within its unit), and parsing gives every comment back with the same text on the same level of the same section or entry, in the same order; with comments trimmed, none of their text is written. Comments written in Android and XLIFF files by hand, in any usual indentation, are parsed with their lines stripped of the indentation, at the level they are written on. White space around lines and around the comment is layout; a leading standalone comment and a resource comment are the same in DTD, .inc, .ini and .properties files.",
  ["inputs"], "all resources with comments in normal form, all formats that have them",
  "tests check a handful of comments in fixtures",
  [F+"formats"], [("comment handling of each parse and serialize module", F+"formats")],
  "runtime monitor: generated resources and sources with uniquely marked comment lines; parsed comments and their positions in the text compared with what was generated",
  "Seeded exploration.")

P("C33", "JSON readers accept exactly the documents that the schemas describe",
  "Reading the JSON representation of a message or entry, or a MessageFormat 2 JSON data model, raises the documented MF2ValidationError, and no other exception, for every document that does not conform to the published schema (wrong or missing types, names or kinds, anything but an array, object or string where one is needed) or that repeats a variant, repeats an MF2 declaration, or has an MF2 input declaration of a different variable; every other document is read as the message or entry that it describes, and nothing of it is dropped except for unknown keys and empty parts. The document is left unchanged. Plain JSON and WebExtension files with values of a wrong type where they are used (a message, description, placeholder, its content or example that is no string or object as it should be, a missing message or content, a root that is no object) raise ValueError; all others are read.",
  ["inputs"], "all JSON documents, including valid ones with parts changed, removed, renamed, repeated, moved or replaced",
  "tests read back documents that were just written, and no broken ones",
  [F+"message/from_json.py", F+"formats/mf2/from_json.py", "schemas/message.json", "schemas/entry.json", "schemas/mf2-message.json"],
  [("message_from_json, entry_from_json", F+"message/from_json.py"), ("mf2_from_json", F+"formats/mf2/from_json.py")],
  "runtime monitor: verdicts on damaged JSON documents compared with the published JSON Schemas, and accepted documents compared part by part with what is written back",
  "Seeded exploration of structurally mutated documents.")

P("C34", "Nothing that a file says is dropped without notice",
  "Whatever is put into a file of any format, at any place in it (text, an attribute, an element, a line, an entry, a comment line, a key), either makes the parser refuse the file, or (Android) is reported in a warning log message, or is in the text written back. Not counted as content: XML processing instructions, declarations and namespace declarations, comments within an XML value or after the last XLIFF file, attributes of the XLIFF body element, unknown keys and unused placeholders of a WebExtension message, JavaScript comments in JSON, JSON objects holding no string, variants of repeated Fluent selectors or with repeated keys, earlier ones of repeated Fluent attributes, and in gettext the header's formatting, comments of obsolete entries or after the last entry, and repeated keywords in an entry.",
  ["inputs"], "all files of all formats with something extra at any place",
  "tests parse well-formed fixtures, and check a few errors",
  [F+"formats"], [("parse functions of each format", F+"formats"), ("parse_resource", F+"resource/parse_resource.py")],
  "runtime monitor: uniquely marked words inserted into generated files; conservation of the markers across parse and serialize, or an error, or a captured warning",
  "Seeded exploration.")

P("C35", "Ways to do the same work agree, and options do what they say and nothing else",
  "`parse_resource()`, `serialize_resource()`, `parse_message()` and `serialize_message()` give what the function of the format gives for the same options (an option left out has its documented default, options of other formats have no effect, a format argument overrides that of the resource), from text, bytes, a path or a stream alike. Strings as values are written as messages of that text are (.properties and WebExtension: as that source; Fluent: with its outer spaces and indents as layout). Identifiers of several parts and sections are written as their documented flat form. Fluent: trees, entries and messages parsed or written one at a time agree with whole files; `serialize_metadata` and `comment_str` are asked once for each field or entry, in order, their answers end up in that comment, and metadata without `serialize_metadata` is refused (but for a first resource `info` field); `escape_syntax=False` leaves syntax in text as it is and nothing else. `.properties`: `parse_message` and `serialize_message` are called once for each value, in order, with it, and their results used. gettext: `wrapwidth` only changes the layout, `plurals` only the names of keys, `skip_obsolete` only leaves out obsolete entries.",
  ["inputs"], "all resources and messages of all formats x options x entry points",
  "tests call most entry points with default options on a few inputs",
  [F+"resource", F+"message", F+"formats"], [("parse_resource / serialize_resource", F+"resource"), ("parse_message / serialize_message", F+"message"), ("fluent_astify*", F+"formats/fluent/serialize.py"), ("parse_message= / serialize_message=", F+"formats/properties")],
  "runtime monitor: differential runs of entry points and options on generated inputs, recording callables",
  "Seeded exploration.")

P("C36", "Untrusted text is only read: nothing it names is opened, nothing blows up, and the work ends",
  "Detecting the format of, parsing and writing text or bytes (`detect_format`, `parse_resource` with a source, `gettext_parse` of bytes, `parse_message`, `serialize_*`) opens no files, sockets or processes, runs no code, and leaves the state of the process (working directory, environment, locale, recursion limit, warning filters, threads, file descriptors) as it was, whatever files or URLs the text names (external entities, parameter entities and DTDs, XInclude, schema locations, `$ref`, includes, or the whole text being a path); the contents of such files do not show up in the result. A source that is given is used rather than the file at the path given with it. XML entities that multiply do not take more than libxml2 allows: the result stays near the size of the source. For every text of up to 20 kB, however its parts repeat, nest or are cut off, the work ends within seconds, with a result or an error that tells of the input (not one of the code, such as AttributeError), and without bringing down the process; texts nested 20 deep and files of thousands of entries work.",
  ["untrusted inputs", "resources"], "all texts (<= 20 kB) x formats x entry points",
  "tests parse benign files only",
  [F+"formats", F+"resource", F+"message"], [("detect_format", F+"formats/__init__.py"), ("parse_resource", F+"resource/parse_resource.py"), ("XML parsers", F+"formats/xliff/parse.py"), ("polib source", F+"formats/gettext/parse.py")],
  "runtime monitor: audit hooks, inotify, a loopback server, process state and CPU/memory limits observed while hostile texts are processed",
  "Seeded exploration.")

CLAIMED = json.load(open(os.path.join(ROOT, "tools", "claimed.json")))
NA = {}

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])), ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in PROPS:
        if p["id"] in CLAIMED:
            checks.append(dict(property=p["id"], quick_cmd=f"./run.sh {p['id']} quick", thorough_cmd=f"./run.sh {p['id']} thorough",
                technique=p["technique"], level="exploration", level_note=p["note"]))
        else:
            na.append(dict(property=p["id"], reason=NA.get(p["id"], "check not built yet")))
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
             notes="All checks run the real Python package from /repo/python in-process under monitors in /verif/mon; see DESIGN.md.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
main()

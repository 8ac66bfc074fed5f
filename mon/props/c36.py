"""Untrusted text is only read: nothing is opened, resolved or blown up, and the work ends."""
from __future__ import annotations

import ctypes
import locale
import os
import resource as rlimit
import shutil
import signal
import socket
import struct
import sys
import tempfile
import threading
import warnings
from xml.sax.saxutils import escape

from moz.l10n.formats import Format, detect_format
from moz.l10n.formats.gettext import gettext_parse
from moz.l10n.message import message_from_json, message_to_json, parse_message, serialize_message
from moz.l10n.resource import l10n_equal, parse_resource, serialize_resource

from .. import files
from ..core import Family

RULE = "distinct by source, format and entry point"
ASSUMPTIONS = ["files that Python or its installed packages read for themselves (modules, codecs, time zones) do not count as opened",
               "Fluent selectors of different variables in one message multiply into as many variants as the message has, so such messages are kept small here",
               "sizes up to 20 kB are given 20 CPU seconds and 1 GB, of which no more than 3 seconds and 200 MB are used now"]

# --- what the process does ------------------------------------------------------------------------

SAFE = tuple(sorted({os.path.realpath(p) + os.sep for p in (sys.prefix, sys.base_prefix, sys.exec_prefix, os.path.dirname(os.__file__), "/repo/python", "/usr/lib/python3", "/usr/share/zoneinfo")}))
WATCHED = ("open", "os.", "shutil.", "socket.", "subprocess.", "urllib.", "exec", "compile", "pickle.", "tempfile.", "glob.", "http.", "ftplib.", "sqlite3.", "ctypes.", "pty.", "signal.pthread", "webbrowser.")
_seen: list | None = None
_hooked = False


def _hook(name, args):
    if _seen is None or not name.startswith(WATCHED):
        return
    if name == "open" and isinstance(args[0], (str, bytes)):
        p = os.path.realpath(os.fsdecode(args[0]))
        if p.startswith(SAFE) and (args[1] is None or args[1] in ("r", "rb")):
            return
    if name.startswith(("os.listdir", "os.scandir")) and isinstance(args[0], str) and (os.path.realpath(args[0]) + os.sep).startswith(SAFE):
        return
    if name in ("exec", "compile"):
        # modules that are imported late
        fr = sys._getframe(1)
        while fr is not None:
            if fr.f_code.co_filename.startswith("<frozen importlib") or os.path.basename(fr.f_code.co_filename) in ("dataclasses.py", "typing.py", "collections/__init__.py"):
                return
            fr = fr.f_back
    _seen.append((name, repr(args)[:200]))


def process_state():
    return (os.getcwd(), len(os.environ), locale.setlocale(locale.LC_ALL), sys.getrecursionlimit(), len(warnings.filters), threading.active_count(), len(sys.path), sys.get_int_max_str_digits())


MISTAKES = (NameError, AttributeError, TypeError, IndexError, AssertionError, StopIteration, ZeroDivisionError, UnboundLocalError, SystemError, MemoryError)


def ordinary(ctx, e):
    """An error that tells of the input, rather than of the code."""
    if isinstance(e, MISTAKES):
        tb = e.__traceback__
        while tb.tb_next is not None:
            tb = tb.tb_next
        ctx.fail("mistake", f"{type(e).__name__}: {e} in {tb.tb_frame.f_code.co_filename}:{tb.tb_frame.f_code.co_name}")
    return str(e)


class Watch:
    """Records what the calls inside of it open, start or leave changed."""

    def __init__(self, dir):
        global _hooked
        if not _hooked:
            sys.addaudithook(_hook)
            _hooked = True
        self.dir = dir
        libc = ctypes.CDLL(None, use_errno=True)
        self.fd = libc.inotify_init1(os.O_NONBLOCK)
        assert self.fd >= 0, "no inotify"
        # opened, read, written, created, moved or removed
        assert libc.inotify_add_watch(self.fd, os.fsencode(dir), 0x20 | 0x1 | 0x2 | 0x4 | 0x100 | 0x200 | 0x40 | 0x80) >= 0

    def state(self):
        return (os.getcwd(), dict(os.environ), locale.setlocale(locale.LC_ALL), sys.getrecursionlimit(), sys.get_int_max_str_digits(), list(warnings.filters), threading.active_count(),
                [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGPIPE)], sys.stdout is None, list(sys.path),
                sorted(os.listdir("/proc/self/fd")).__len__())

    def kernel(self):
        out = []
        try:
            buf = os.read(self.fd, 65536)
        except BlockingIOError:
            return out
        i = 0
        while i < len(buf):
            _, mask, _, n = struct.unpack_from("iIII", buf, i)
            out.append((hex(mask), buf[i + 16:i + 16 + n].rstrip(b"\0").decode()))
            i += 16 + n
        return out

    def __enter__(self):
        global _seen
        self.before = self.state()
        self.kernel()
        self.seen = _seen = []
        return self

    def __exit__(self, *a):
        global _seen
        _seen = None
        self.files = [x for x in self.kernel()]
        self.after = self.state()
        return False

    def close(self):
        os.close(self.fd)


class Server:
    def __init__(self):
        self.sock = socket.socket()
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(8)
        self.sock.setblocking(False)
        self.port = self.sock.getsockname()[1]

    def asked(self):
        n = 0
        while True:
            try:
                self.sock.accept()[0].close()
                n += 1
            except BlockingIOError:
                return n


def xml_head(rng, root, ref):
    name = rng.choice(["x", "ext", "a-b"])
    head = rng.choice(["", '<?xml version="1.0" encoding="utf-8"?>\n'])
    kind = rng.randrange(7)
    ent = f"&{name};"
    if kind == 0:
        dt = f'<!DOCTYPE {root} [<!ENTITY {name} SYSTEM "{ref}">]>'
    elif kind == 1:
        dt = f'<!DOCTYPE {root} [<!ENTITY {name} PUBLIC "-//x//y" "{ref}">]>'
    elif kind == 2:
        dt = f'<!DOCTYPE {root} SYSTEM "{ref}">'
    elif kind == 3:
        dt = f'<!DOCTYPE {root} [<!ENTITY % p SYSTEM "{ref}"> %p;]>'
    elif kind == 4:
        dt = f'<!DOCTYPE {root} PUBLIC "-//x//y" "{ref}" [<!ENTITY {name} "inner">]>'
    elif kind == 5:
        dt, ent = f'<?xml-stylesheet href="{ref}"?><?import "{ref}"?>', ""
    else:
        dt, ent = "", f'<xi:include xmlns:xi="http://www.w3.org/2001/XInclude" href="{ref}" parse="text"/>'
    return head + dt + "\n", ent


def naming(rng, fmt, ref):
    """A source of the format which names the file or URL in some place."""
    raw = rng.choice([ref, ref, f"file://{ref}" if ref.startswith("/") else ref, f'"{ref}"', f"include {ref}", f"@{ref}", f"${{{ref}}}", f"`cat {ref}`", f"$(cat {ref})",
                      f"__import__('os').system('cat {ref}')", f"{{{ref}}}", f"%({ref})s", f"!!python/object/apply:open ['{ref}']"])
    if fmt == "android":
        head, ent = xml_head(rng, "resources", ref)
        text = rng.choice([ent, f"a {ent} b", f"<b>{ent}</b>", f"'{ent}'", escape(raw)])
        return head + rng.choice([f'<resources><string name="a">{text}</string></resources>', f'<resources xmlns:tools="http://schemas.android.com/tools"><string name="a" tools:x="{ent if ent.startswith("&") and "SYSTEM" not in head else "1"}">{text}</string></resources>',
                                  f'<resources><plurals name="p"><item quantity="other">{text}</item></plurals><string-array name="s"><item>{text}</item></string-array></resources>',
                                  f'<resources xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xsi:noNamespaceSchemaLocation="{ref}"><string name="a">{text}</string></resources>'])
    if fmt == "xliff":
        head, ent = xml_head(rng, "xliff", ref)
        text = rng.choice([ent, f"a {ent} b", f'<g id="1">{ent}</g>', escape(raw)])
        extra = rng.choice(["", f'<header><skl><external-file href="{ref}"/></skl></header>', f'<header><reference><external-file href="{ref}" uid="a"/></reference></header>', f"<!-- {ref.replace('--', '')} -->"])
        return (head + f'<xliff version="1.2" xmlns="urn:oasis:names:tc:xliff:document:1.2" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xsi:schemaLocation="urn:oasis:names:tc:xliff:document:1.2 {ref}">'
                f'<file original="{ref}" source-language="en" datatype="plaintext">{extra}<body><trans-unit id="x"><source>{text}</source><target>{text}</target></trans-unit></body></file></xliff>')
    if fmt == "dtd":
        return rng.choice([f'<!ENTITY % a SYSTEM "{ref}">\n%a;\n<!ENTITY b "%a;&a;">\n', f'<!ENTITY a SYSTEM "{ref}">\n<!ENTITY b "&a;">\n', f"<!ENTITY a '{escape(raw)}'>\n", f"<?include {ref}?>\n<!ENTITY a 'b'>\n"])
    if fmt == "gettext":
        r = raw.replace("\\", "\\\\").replace('"', '\\"')
        return rng.choice([ref, ref + "\n", ref.encode().decode(), f'#: {ref}:1\nmsgid "{r}"\nmsgstr "{r}"\n', f'msgid ""\nmsgstr "X-Include: {r}\\n"\n\nmsgid "a"\nmsgstr "{r}"\n'])
    if fmt == "fluent":
        return rng.choice([ref, f"a = {raw}\n", f"a = {{ LINK(\"{ref}\") }}\n", f"### {ref}\n\na = b\n", f"a = {{ -t.include }}\n-t = {raw}\n"])
    if fmt == "inc":
        return rng.choice([ref, f"#include {ref}\n", f"#define a {raw}\n#include \"{ref}\"\n", f"#expand {ref}\n#define a b\n"])
    if fmt == "ini":
        return rng.choice([ref, f"[a]\nb={raw}\n", f"[{ref}]\na=%({ref})s\n", f"[include]\npath={ref}\n"])
    if fmt == "properties":
        return rng.choice([ref, f"a={raw}\n", f"@import {ref}\na=b\n", f"include={ref}\n"])
    import json
    if fmt == "plain_json":
        return rng.choice([json.dumps({"$ref": ref, "a": {"$ref": ref}}), json.dumps({"a": raw}), json.dumps(ref), ref])
    return rng.choice([json.dumps({"a": {"message": raw, "$ref": ref}}), json.dumps({"a": {"message": "$f$", "placeholders": {"f": {"content": raw, "example": ref}}}}), ref, json.dumps({"a": {"message": ref}, "include": {"message": f"@{ref}"}})])


_warm = False


def warm_up():
    """Everything that is imported or built on first use."""
    global _warm
    if not _warm:
        import random
        for f in files.FORMATS:
            try:
                res = parse_resource(Format[f], files.source(random.Random(1), f))
                "".join(serialize_resource(res))
            except Exception as e:
                ordinary(ctx, e)
        for f in MESSAGES:
            try:
                serialize_message(Format[f], parse_message(Format[f], "a"))
            except Exception as e:
                ordinary(ctx, e)
        "é".encode("utf-16").decode("utf-16")
        "é".encode("latin-1").decode("latin-1")
        _warm = True


MESSAGES = ["android", "fluent", "mf2", "properties", "webext", "xliff", "plain_json"]
MARK = "MARKER-OF-A-SECRET-FILE"


def f_contained(ctx):
    rng = ctx.rng
    warm_up()
    dir = tempfile.mkdtemp(prefix="c36-")
    cwd = os.getcwd()
    srv = Server()
    watch = None
    try:
        fmt = rng.choice(files.FORMATS)
        ext = rng.choice([rng.choice(sum(files.EXT.values(), [])), ".txt", ""])
        name = rng.choice(["secret", "a b", "x"]) + ext
        path = os.path.join(dir, name)
        body = rng.choice([MARK, f"a = {MARK}\n", f'msgid "a"\nmsgstr "{MARK}"\n', f'<!ENTITY x "{MARK}">', f'{{"a": {{"message": "{MARK}"}}}}', f"#define a {MARK}\n", f"[a]\nb={MARK}\n",
                           f'<resources><string name="a">{MARK}</string></resources>'])
        with open(path, "w") as f:
            f.write(body)
        os.chdir(dir)
        url = f"http://127.0.0.1:{srv.port}/{name.replace(' ', '%20')}"
        where = rng.choice(["abs", "abs", "rel", "url", "file", "dir", "https"])
        ref = {"abs": path, "rel": name, "url": url, "file": "file://" + path.replace(" ", "%20"), "dir": dir, "https": f"https://127.0.0.1:{srv.port}/"}[where]
        src = naming(rng, fmt, ref)
        form = rng.randrange(6)
        data = src if form in (0, 3) else src.encode("utf-8")
        arg = {0: Format[fmt], 1: Format[fmt], 2: "x" + rng.choice(files.EXT[fmt]), 3: None, 4: os.path.join(dir, "none" + rng.choice(files.EXT[fmt])), 5: path}[form]
        opts = {k: True for k in ("android_ascii_spaces", "android_literal_quotes", "gettext_skip_obsolete", "properties_printf_placeholders", "xliff_source_entries") if rng.random() < 0.3}
        ctx.case((fmt, form, where, src.replace(dir, "DIR").replace(str(srv.port), "PORT"), sorted(opts)), {"format": fmt, "source": src, "input": str(arg)})
        watch = Watch(dir)
        results = []
        with watch:
            try:
                res = parse_resource(arg, data, **opts)
                results.append(repr(res))
                ctx.ev("parsed")
                try:
                    l10n_equal(res, res)
                    results.append("".join(serialize_resource(res)))
                    ctx.ev("written")
                except Exception as e:
                    results.append(ordinary(ctx, e))
            except Exception as e:
                ctx.ev("refused")
                results.append(ordinary(ctx, e))
            try:
                detect_format(None, data)
                detect_format("none" + ext, data)
            except Exception as e:
                results.append(ordinary(ctx, e))
            if fmt == "gettext" and isinstance(data, bytes):
                try:
                    results.append(repr(gettext_parse(data)))
                except Exception as e:
                    results.append(ordinary(ctx, e))
            for f in ("mf2", fmt) if fmt in MESSAGES else ("mf2",):
                try:
                    m = parse_message(Format[f], src if rng.random() < 0.5 else ref, **({"webext_placeholders": {"f": {"content": ref}}} if f == "webext" else {}))
                    results.append(repr(message_from_json(message_to_json(m))))
                    results.append(serialize_message(Format[f], m))
                    ctx.ev("messages")
                except Exception as e:
                    results.append(ordinary(ctx, e))
        ctx.ev("named:" + where)
        ctx.eq(watch.seen, [], "opened", "reading text opened a file, socket or process, or ran code")
        ctx.eq(watch.files, [], "touched", "reading text touched files that it names")
        ctx.eq(srv.asked(), 0, "network", "reading text connected to a server it names")
        ctx.eq(watch.after, watch.before, "state", "reading text changed the state of the process")
        for r in results:
            ctx.check(MARK not in r, "leak", "the contents of a file that is named by a text are in its result", result=r)
        ctx.check(os.path.exists(path) and open(path).read() == body and os.listdir(dir) == [name], "changed", "files changed")
    finally:
        os.chdir(cwd)
        srv.sock.close()
        if watch is not None:
            watch.close()
        shutil.rmtree(dir, ignore_errors=True)


# --- sizes ----------------------------------------------------------------------------------------

XL = ('<xliff version="1.2" xmlns="urn:oasis:names:tc:xliff:document:1.2"><file original="f" source-language="en" datatype="plaintext"><body>'
      '<trans-unit id="x"><source>@</source></trans-unit></body></file></xliff>')
AN = "<resources><string name='a'>@</string></resources>"


def peak():
    return rlimit.getrusage(rlimit.RUSAGE_SELF).ru_maxrss // 1024


def size_of(x):
    return len(repr(x))


def f_bombs(ctx):
    """Entities that grow exponentially."""
    rng = ctx.rng
    fmt = rng.choice(["android", "xliff", "dtd"])
    depth, width = rng.choice([(9, 10), (12, 10), (30, 2), (40, 2), (7, 30), (4, 200), (3, 3000), (6, 60), (2, 3), (3, 4)])
    text = rng.choice(["lol", "x" * 50, "&#65;", "<b/>" if fmt == "xliff" else "y"])
    pct = rng.random() < 0.2
    ents = []
    for i in range(depth):
        val = text if i == 0 else f"&e{i - 1};" * width
        ents.append(f'<!ENTITY % p{i} "{val}">\n<!ENTITY e{i} "%p{i};">\n' if pct and fmt == "dtd" else f'<!ENTITY e{i} "{val}">\n')
    if rng.random() < 0.1:  # a loop
        ents[0] = f'<!ENTITY e0 "&e{depth - 1};">\n'
        ctx.ev("loop")
    use = f"&e{depth - 1};" * rng.choice([1, 1, 5])
    if fmt == "dtd":
        src = "".join(ents) + f'<!ENTITY z "{use}">\n'
    else:
        root = "resources" if fmt == "android" else "xliff"
        src = f"<!DOCTYPE {root} [\n{''.join(ents)}]>\n" + (AN if fmt == "android" else XL).replace("@", use)
    ctx.case((fmt, src), {"format": fmt, "source": src[:2000]})
    before = peak()
    try:
        res = parse_resource(Format[fmt], src if rng.random() < 0.5 else src.encode())
        n = size_of(res)
        out = "".join(serialize_resource(res))
        ctx.ev("parsed")
    except Exception:
        n, out = 0, ""
        ctx.ev("refused")
    full = min(len(text) * width ** (depth - 1), 10**18)
    ctx.ev("exponential" if full > 10**7 else "small")
    # Every entity is either kept as it is, or expanded within what libxml2 takes for harmless.
    ctx.check(n <= 3_000_000 + 100 * len(src), "size", f"{n} characters from a source of {len(src)}")
    ctx.check(len(out) <= 3_000_000 + 100 * len(src), "size", f"{len(out)} characters written from a source of {len(src)}")
    ctx.check(peak() - before < 1000, "memory", f"{peak() - before} MB used")


UNITS = ["<", "< ", "<a", "%", "%1", "%1$", "% ", "%-", "%0", "%%", "%s", "%1$s ", "{", "}", "{{", "{$", "$", "$a", "$a$", "$1", "$$", "\\", "\\\\", "\\u", "\\u0041", "\\n", "&", "&amp;", "&a;", "&#", "&#65;", '"', '""', "'", "''", "@",
         "@a/", "?", " ", "  \n", " \n", "\n", "\r", "\r\n", "\t", "a", "a ", "a\n", "#", "# ", "##\n", "###", "!", "=", "a=b\n", "a=\\\n", "-", "--", "<!--", "<!-- -->", "<!-- a -->\n", "<b>", "</b>", "<b>a</b>", "<br> ", "<br/>", "[", "[a]", "]",
         "*", "*[", "*[a]", "->", " ->\n", "|", "||", "|a|", "(", ")", "()", "a.", "a:", "a: ", "\u2028", "\u00a0", "\x85", "😀", "é", "é ", "/*", "//", "//\n", ",", "[1,", '{"a":', '"a":', '{"a":"b"},', 'msgid "a"\n', "msgstr",
         'msgid "a"\nmsgstr "b"\n', "#~ ", "#, ", "#| ", "#: a:1 ", "#. a\n", ".a", "  .a = b\n", "%#@a@", "%@", "@@", "@a@", ":a", ":a b=c ", "@a=b ", "#b ", "/ ", "{|a|}", "{$a}", "{#b}", "{/b}", ".local $x = {1}\n", ".input {$x}\n", "* ", "{{}}",
         '<!ENTITY a "b">\n', "<!ENTITY ", "<!ENTITY a ", '<!ENTITY a "', '<!ENTITY % a SYSTEM "b">%a;\n', "%a;", "#define a b\n", "#define a ", "#filter emptyLines\n", "#unfilter emptyLines\n", "; a\n", "[a]\n", "[a]\nb=c\n", "b=c\n d\n", "<p> ",
         "&lt;b&gt; ", "&lt;", "]]>", "<![CDATA[", "<![CDATA[a]]>", "<string name='b'>", "<item>", "<xliff:g>", "<g id='1'>", "</g>", "<ph id='1'/>", "<x id='1'/> ", "<trans-unit id='a'>", "{ $a }", "{ -a }", "{a.b}", '{""}', "{ NUMBER($a) }", "\n b",
         "\n .", "\n [", "\n *", "\n}", "a =", "\\\n", "\\ ", " \\", "\t\\", "\\'", '\\"', "<p>", "<div>\n", "%n$d", "%1$#@", "%#@", "%2$lu", "%.3f", "%-05.2f", "%D", "{0}", "{0,", "{a, plural, ", "one{", "other {"]
WRAP = {"android": ("<resources><string name='a'>", "</string></resources>"), "xliff": tuple(XL.split("@")), "gettext": ('msgid "a"\nmsgstr "', '"\n'), "plain_json": ('{"a":"', '"}'),
        "webext": ('{"a":{"message":"', '"}}'), "properties": ("a=", ""), "fluent": ("a=", ""), "dtd": ('<!ENTITY a "', '">'), "inc": ("#define a ", ""), "ini": ("[a]\nb=", "")}
SIZES = [300, 1000, 2000, 2000, 4000]


# What starts something that has an end, and what such things are made of
STARTS = {"dtd": ["<!--", "<!-- a", "<!ENTITY", "<!ENTITY a", "<!ENTITY a ", '<!ENTITY a "', "<!ENTITY % a SYSTEM", '<!ENTITY % a SYSTEM "', '<!ENTITY % a SYSTEM "b">', "%", "%a", '<!ENTITY a "b"', '<!-- a --', "<!"],
          "android": ["%", "%1$", "%1$0", "%.", "&", "&lt;", "&lt;b", "&lt;br", "\\u", "@", "@a:", "@a/", "?", "?a:", '"', "<!-- a\n   - ", "\\", "<b>", "<xliff:g id='a'>", "%1$#"],
          "xliff": ["%", "%1$", "%1$0", "%#@", "%.", "<g id='1'>", "&lt;", "&#", "<!-- a\n   - ", "%1$#@"],
          "gettext": ["\\", "#: ", "#, ", "#~ ", "#| msgid ", '"\n"', "#. "], "fluent": ["{", "{ $", "{ $a", "{ -a", '{ "', "{ NUMBER(", "{ NUMBER($a, ", "{ 1", "{ 0.", "{ $a ->\n", "\n ", "\n .", "-", "#", "a", "{ $a ->\n [", '{ "\\u'],
          "inc": ["#define", "#define ", "#define a", "#define a ", "# ", "#filter"], "ini": ["[", "a", "a=", ";", "rem", "\n "], "properties": ["a", "a ", "a=", "#", "\\", "\\u", "%", "%1$", "%1$0", "%.", "!", "a\\\n", "%(", "%(a"],
          "plain_json": ['{"', '{"a"', '{"a":', "//", "[", '"', '"\\'], "webext": ["$", "$a", "$1", "$$", "$$$a", "//", '"//', '{"a": //'],
          "mf2": ["{", "{$", "{$a", "{|", "{:", "{:a", "{$a :", "{1", "{-1", "{$a @", ".", ".local", ".local $", ".match", ".input {$", "{#", "{/", "{{", "\\", "{$a :b c", "{$a :b c=", ".match $a ", "{0.", "{1e"]}
STARTS["xcode"] = STARTS["xliff"]
PIECES = [" ", " ", "\t", "\n", "\n ", " \n", "a", "a", "1", "9", "0", "-", "--", "- ", ".", "1.", "a.", "a ", " a", "a1", "_", "_a", "a-", ":", "a:", "\\", "\\\\", "%", "%%", "$", "$$", "&", ";", "a;", "/", "//", '"', "'", '""', "=", "a=", "a=b ",
          "é", "\u00a0", "\u2028", "<", ">", "<>", "<a>", "*", "[", "]", "[]", "|", "||", "@", "#", "+", "0,", "{", "}", "{}", "\n   - ", "\n   - a", " .", "\r", "\r\n", "!", "?", "?a", "(", ")", "\\n", "\\u0", "\\u0041", "\x00", "\x85"]


def f_backtrack(ctx):
    """Something started, gone on for a little while with the same pieces, and not ended."""
    rng = ctx.rng
    fmt = rng.choice(files.FORMATS + ["mf2", "xcode"])
    start = rng.choice(STARTS[fmt]) if rng.random() < 0.85 else rng.choice(UNITS)
    u = "".join(rng.choice(PIECES) for _ in range(rng.choice([1, 1, 1, 2, 2, 3])))
    n = rng.choice([40, 60, 60, 300])
    s = start + u * n + rng.choice(["", "", "!", "\n", ".", rng.choice(PIECES), rng.choice(PIECES) + "!"])
    _check_cost(ctx, rng, fmt, s, u)


def _check_cost(ctx, rng, fmt, s, u):
    state = process_state()
    done = 0
    if fmt in WRAP:
        a, b = WRAP[fmt]
        src = rng.choice([s, a + s + b, a + s, s + "\n" + a + "x" + b, a + "x" + b + "\n" + s])
        ctx.case((fmt, src), {"format": fmt, "unit": u, "source": src[:500]})
        opts = {"properties_printf_placeholders": True} if rng.random() < 0.5 else {"android_literal_quotes": True, "xliff_source_entries": True} if rng.random() < 0.5 else {}
        try:
            res = parse_resource(Format[fmt], src, **opts)
            "".join(serialize_resource(res))
            done += 1
        except Exception as e:
            ordinary(ctx, e)
        try:
            detect_format(rng.choice([None, "a.json", "a.xml"]), src)
        except Exception as e:
            ordinary(ctx, e)
    else:
        ctx.case((fmt, s), {"format": fmt, "unit": u, "source": s[:500]})
    if fmt in MESSAGES or fmt == "xcode":
        f = Format["xliff" if fmt == "xcode" else fmt]
        opts = {"webext": {"webext_placeholders": {"a": {"content": "$1"}}}, "properties": {"printf_placeholders": True}, "xcode": {"xliff_is_xcode": True}}.get(fmt, {})
        for src in (s, escape(s)):
            try:
                serialize_message(f, parse_message(f, src, **opts))
                done += 1
            except Exception as e:
                ordinary(ctx, e)
    ctx.ev("done" if done else "refused")
    ctx.ev("ended")
    ctx.eq(process_state(), state, "state", "reading text changed the state of the process")


def body(rng, size):
    """A text of a few units, repeated."""
    u = "".join(rng.choice(UNITS) for _ in range(rng.choice([1, 1, 1, 2, 2, 3])))
    s = u * (size // len(u))
    return u, rng.choice(["", "", "", rng.choice(UNITS)]) + s + rng.choice(["", "", "", rng.choice(UNITS), "!", "\n!"])


def _cost(ctx, size, units=None):
    rng = ctx.rng
    u, s = body(rng, size)
    state = process_state()
    before = peak()
    if rng.random() < 0.6:
        fmt = rng.choice(files.FORMATS)
        a, b = WRAP[fmt]
        how = rng.choice(["raw", "wrap", "cut", "esc", "after", "within"])
        if how == "within":
            src = files.source(rng, fmt, small=True)
            k = rng.randrange(len(src) + 1)
            src = src[:k] + s + src[k:]
        else:
            src = {"raw": s, "wrap": a + s + b, "cut": a + s, "esc": a + escape(s) + b, "after": a + "x" + b + "\n" + s}[how]
        ctx.case((fmt, how, src), {"format": fmt, "how": how, "unit": u, "size": len(src)})
        try:
            res = parse_resource(Format[fmt], src)
            ctx.ev("parsed")
        except Exception as e:
            ordinary(ctx, e)
            ctx.ev("refused")
            res = None
        if res is not None:
            try:
                out = "".join(serialize_resource(res))
                ctx.check(len(out) < 3_000_000 + 100 * len(src), "size", f"{len(out)} characters written for a source of {len(src)}")
                ctx.ev("written")
            except Exception as e:
                ordinary(ctx, e)
                ctx.ev("not written")
        try:
            detect_format(rng.choice([None, "a.json", "a.xml"]), src)
        except Exception as e:
            ordinary(ctx, e)
    else:
        fmt = rng.choice(MESSAGES + ["xcode"])
        src = rng.choice([s, "x" + s + "x"])
        ctx.case((fmt, src), {"message": fmt, "unit": u, "size": len(src)})
        ph = {"a": {"content": "$1"}}
        opts = {}
        if fmt == "webext":
            opts = {"webext_placeholders": ph}
        elif fmt == "properties":
            opts = {"printf_placeholders": True}
        elif fmt == "xcode":
            opts = {"xliff_is_xcode": True}
            src = escape(src) if rng.random() < 0.7 else src
        try:
            m = parse_message(Format[fmt if fmt != "xcode" else "xliff"], src, **opts)
            ctx.ev("parsed")
        except Exception as e:
            ordinary(ctx, e)
            ctx.ev("refused")
            m = None
        if m is not None:
            try:
                out = serialize_message(Format[fmt if fmt != "xcode" else "xliff"], m)
                ctx.check(len(out) < 3_000_000 + 100 * len(src), "size", f"{len(out)} characters written for a message of {len(src)}")
                ctx.ev("written")
            except Exception as e:
                ordinary(ctx, e)
                ctx.ev("not written")
            if rng.random() < 0.3:
                message_from_json(message_to_json(m))
                for g in rng.sample(MESSAGES, 2):
                    try:
                        serialize_message(Format[g], m)
                    except Exception as e:
                        ordinary(ctx, e)
    ctx.ev("ended")
    ctx.ev("size:" + str(size))
    ctx.eq(process_state(), state, "state", "reading text changed the state of the process")
    ctx.check(peak() - before < 1000, "memory", f"{peak() - before} MB used")


def f_cost(ctx):
    _cost(ctx, ctx.rng.choice(SIZES))


def f_cost_big(ctx):
    _cost(ctx, 20000)


def f_values(ctx):
    """Messages with long and odd strings in any place, written in every format."""
    from moz.l10n.model import CatchallKey, Entry, Expression, Markup, PatternMessage, Resource, Section, SelectMessage, VariableRef

    rng = ctx.rng
    before = peak()
    size = rng.choice([40, 40, 100, 1000, 4000])
    u = rng.choice(["1", "0", "a", "a-", "_", "1.", "-1", "1_", "e1", "a:", "%1$s", "é", " ", "\n", "$a", "A1", rng.choice(UNITS), rng.choice(UNITS) + rng.choice(UNITS)])
    odd = rng.choice(["", u, "-", "."]) + u * (size // len(u)) + rng.choice(["", "", "!", "x", " ", ".", "\n", "é"])
    plain = rng.choice(["a", "1", "x y"])

    def pick(p=0.4):
        return odd if rng.random() < p else rng.choice(["a", "b", "number", "string", "1"])

    def arg():
        return VariableRef(pick()) if rng.random() < 0.4 else pick()

    def expr():
        a = rng.choice([arg, arg, lambda: None])()
        f = rng.choice([None, None, "number", "string", "entity", "printf", "html", "xliff", "message", "reference", "datetime", "bpt", pick()])
        if a is None and f is None:
            a = VariableRef(pick())
        o = {pick(0.3): arg() for _ in range(rng.choice([0, 0, 1, 2]))} if f else {}
        return Expression(a, f, o, {rng.choice(["source", "translate", pick()]): rng.choice([True, pick()]) for _ in range(rng.choice([0, 0, 1]))})

    def part():
        k = rng.randrange(5)
        return pick() if k < 2 else expr() if k < 4 else Markup(rng.choice(["open", "close", "standalone"]), pick(0.3), {pick(0.3): arg()}, {})

    try:
        if rng.random() < 0.6:
            msg = PatternMessage([part() for _ in range(rng.choice([1, 1, 2, 3]))])
        else:
            msg = SelectMessage({"a": Expression(VariableRef(pick()), rng.choice(["number", "string", None]))}, (VariableRef("a"),),
                                {(pick(),): [part()], (CatchallKey(rng.choice([None, pick()])),): [part()]})
    except Exception:
        ctx.ev("not made")
        msg = PatternMessage([odd])
    ctx.case(repr(msg), {"message": repr(msg)[:2000]})
    try:
        message_from_json(message_to_json(msg))
    except Exception as e:
        ordinary(ctx, e)
    for f in MESSAGES:
        try:
            s = serialize_message(Format[f], msg)
            ctx.ev("written")
            ctx.check(len(s) < 100_000 + 100 * size, "size", f"{len(s)} characters for a message with a string of {size}")
            parse_message(Format[f], s)
            ctx.ev("parsed")
        except Exception as e:
            ordinary(ctx, e)
            ctx.ev("refused")
    fmt = rng.choice(files.FORMATS)
    id = (pick(0.3),)
    res = Resource(Format[fmt], [Section((pick(0.2),) if rng.random() < 0.3 else (), [Entry(id, msg, comment=pick(0.2) if rng.random() < 0.3 else "")])], comment=odd if rng.random() < 0.1 else "")
    try:
        parse_resource(Format[fmt], "".join(serialize_resource(res)))
    except Exception as e:
        ordinary(ctx, e)
    ctx.ev("ended")
    ctx.check(peak() - before < 1000, "memory", f"{peak() - before} MB used")


# --- depth ----------------------------------------------------------------------------------------

def nested(rng, n):
    fmt = rng.choice(["plain_json", "android", "android-message", "xliff", "xliff-group", "fluent", "fluent-select", "webext", "mf2", "xliff-message"])
    tag = rng.choice("bi")
    if fmt == "plain_json":
        return fmt, Format.plain_json, '{"a":' * n + '"x"' + "}" * n
    if fmt == "webext":
        return fmt, Format.webext, '{"a":{"message":"x","placeholders":' + '{"a":' * n + '"x"' + "}" * n + "}}"
    if fmt == "android":
        return fmt, Format.android, AN.replace("@", f"<{tag}>" * n + "x" + f"</{tag}>" * n)
    if fmt == "xliff":
        return fmt, Format.xliff, XL.replace("@", '<g id="1">' * n + "x" + "</g>" * n)
    if fmt == "xliff-group":
        return fmt, Format.xliff, XL.replace("<body>", "<body>" + '<group id="1">' * n).replace("</body>", "</group>" * n + "</body>")
    if fmt == "fluent":
        return fmt, Format.fluent, "a = " + "{" * n + '"x"' + "}" * n + "\n"
    if fmt == "fluent-select":
        return fmt, Format.fluent, "a = " + "{ $a ->\n *[a] " * n + "x" + "\n }" * n + "\n"
    if fmt == "android-message":
        return fmt, Format.android, f"<{tag}>" * n + "x" + f"</{tag}>" * n
    if fmt == "xliff-message":
        return fmt, Format.xliff, '<g id="1">' * n + "x" + "</g>" * n
    return fmt, Format.mf2, rng.choice(["{{" * n + "x" + "}}" * n, "{" * n + "$x" + "}" * n, ".local $a = {" * n])


def f_deep(ctx):
    """Nesting: done if moderate; else done or refused, without bringing down the process."""
    rng = ctx.rng
    n = rng.choice([1, 2, 5, 10, 20, 20, 200, 255, 256, 1000, 5000, 20000, 50000])
    kind, fmt, src = nested(rng, n)
    if kind == "fluent-select" and n > 5000:
        n = 5000
        src = "a = " + "{ $a ->\n *[a] " * n + "x" + "\n }" * n + "\n"
    ctx.case((kind, src), {"kind": kind, "depth": n})

    def work():
        if kind in ("android-message", "xliff-message", "mf2"):
            m = parse_message(fmt, src)
            serialize_message(fmt, m)
            return str(m)
        res = parse_resource(fmt, src)
        return "".join(serialize_resource(res))

    if n <= 20:
        if kind == "webext" or kind == "mf2":
            try:
                work()
            except Exception as e:
                ordinary(ctx, e)
        else:
            ctx.check("x" in work(), "nesting", f"a text nested {n} deep is lost", source=src)
        ctx.ev("moderate")
        return
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            rlimit.setrlimit(rlimit.RLIMIT_CPU, (15, 15))
            rlimit.setrlimit(rlimit.RLIMIT_CORE, (0, 0))
            try:
                work()
                code = 0
            except Exception:
                code = 1
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    ctx.check(os.WIFEXITED(status), "crash", f"signal {os.WTERMSIG(status) if os.WIFSIGNALED(status) else status} on a text nested {n} deep ({kind})", source=src[:500])
    code = os.WEXITSTATUS(status)
    ctx.check(code in (0, 1), "crash", f"the process ended with {code} on a text nested {n} deep ({kind})")
    ctx.ev("done" if code == 0 else "refused")


# --- long files -----------------------------------------------------------------------------------

def long_file(rng, n):
    fmt = rng.choice(files.FORMATS)
    vals = [f"v{i} " + rng.choice(["x", "y z", "é"]) for i in range(n)]
    ids = [f"k{i}" for i in range(n)]
    if fmt == "android":
        src = "<resources>\n" + "".join(f'<string name="{k}">{v}</string>\n' for k, v in zip(ids, vals)) + "</resources>"
    elif fmt == "xliff":
        src = XL.split("<trans-unit")[0] + "".join(f'<trans-unit id="{k}"><source>{v}</source><target>{v}</target></trans-unit>\n' for k, v in zip(ids, vals)) + "</body></file></xliff>"
    elif fmt == "gettext":
        src = 'msgid ""\nmsgstr ""\n"Language: x\\n"\n\n' + "".join(f'msgid "{k}"\nmsgstr "{v}"\n\n' for k, v in zip(ids, vals))
    elif fmt == "plain_json":
        src = "{" + ",".join(f'"{k}":"{v}"' for k, v in zip(ids, vals)) + "}"
    elif fmt == "webext":
        src = "{" + ",".join(f'"{k}":{{"message":"{v}"}}' for k, v in zip(ids, vals)) + "}"
    elif fmt == "dtd":
        src = "".join(f'<!ENTITY {k} "{v}">\n' for k, v in zip(ids, vals))
    elif fmt == "inc":
        src = "".join(f"#define {k} {v}\n" for k, v in zip(ids, vals))
    elif fmt == "ini":
        src = "[S]\n" + "".join(f"{k}={v}\n" for k, v in zip(ids, vals))
    else:
        src = "".join(f"{k} = {v}\n" for k, v in zip(ids, vals))
    return fmt, src, ids, vals


def texts(res):
    from moz.l10n.model import Entry
    return [(e.id[-1] if res.format != Format.gettext else e.id[0], "".join(e.value.pattern)) for s in res.sections for e in s.entries if isinstance(e, Entry)]


def f_long(ctx):
    rng = ctx.rng
    n = rng.choice([100, 500, 1000, 3000])
    fmt, src, ids, vals = long_file(rng, n)
    ctx.case((fmt, n, src), {"format": fmt, "entries": n})
    state = process_state()
    res = parse_resource(Format[fmt], src)
    ctx.eq(texts(res), list(zip(ids, vals)), "long", f"entries of a file of {n} entries ({fmt})")
    out = "".join(serialize_resource(res))
    ctx.eq(texts(parse_resource(Format[fmt], out)), list(zip(ids, vals)), "long", f"entries of a written file of {n} entries ({fmt})")
    ctx.ev("entries", n)
    ctx.eq(process_state(), state, "state", "reading a long file changed the state of the process")


FAMILIES = [
    Family("contained", f_contained, 8000, 120000, need=("parsed", "refused", "written", "named:abs", "named:rel", "named:url", "messages")),
    Family("bombs", f_bombs, 400, 6000, need=("parsed", "refused", "exponential")),
    Family("backtrack", f_backtrack, 24000, 600000, need=("done", "refused", "ended")),
    Family("cost", f_cost, 3000, 40000, need=("parsed", "refused", "written", "ended")),
    Family("cost-big", f_cost_big, 150, 4000, need=("ended",)),
    Family("values", f_values, 3000, 40000, need=("written", "parsed", "refused", "ended")),
    Family("deep", f_deep, 400, 5000, need=("moderate", "done", "refused")),
    Family("long", f_long, 60, 800, need=("entries",)),
]

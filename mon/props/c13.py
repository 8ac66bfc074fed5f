"""Calls do not touch their arguments, share state or depend on what was called before or at the same time."""
from __future__ import annotations

import hashlib
import json
import os
import random
import subprocess
import sys
import threading
import time
from copy import deepcopy

from moz.l10n.formats import Format, detect_format
from moz.l10n.formats.mf2 import mf2_from_json, mf2_to_json
from moz.l10n.message import entry_from_json, entry_to_json, message_from_json, message_to_json, parse_message, serialize_message
from moz.l10n.model import CatchallKey, Comment, Entry, Expression, LinePos, Markup, Metadata, PatternMessage, Resource, Section, SelectMessage, VariableRef
from moz.l10n.resource import l10n_equal, parse_resource, serialize_resource

from .. import files, gen
from ..core import Family
from ..model import canon, diff

RULE = "distinct by source texts and order of calls"
ASSUMPTIONS = ["functions documented to change their argument (normalize, validation, add_entries, metadata setters) are not among the calls",
               "threads run under the interpreter lock; switches are forced between lines of the library's own code"]

MODEL = (VariableRef, Expression, Markup, PatternMessage, SelectMessage, CatchallKey, LinePos, Metadata, Comment, Entry, Section, Resource)


def mutable_ids(x, out=None):
    """Identities of all mutable objects reachable from a value."""
    if out is None:
        out = {}
    if isinstance(x, (list, dict, set, *MODEL)):
        if id(x) in out:
            return out
        out[id(x)] = x
    if isinstance(x, dict):
        for k, v in x.items():
            mutable_ids(k, out)
            mutable_ids(v, out)
    elif isinstance(x, (list, tuple, set)):
        for y in x:
            mutable_ids(y, out)
    elif isinstance(x, MODEL):
        for y in vars(x).values():
            mutable_ids(y, out)
    return out


def no_sharing(ctx, a, b, kind, **detail):
    ctx.ev("sharing_checks")
    ia, ib = mutable_ids(a), mutable_ids(b)
    both = [ia[i] for i in ia if i in ib]
    ctx.check(not both, kind, f"shared: {both[:3]!r}", **detail)


def c(x):
    return canon(x, linepos=True)


# --- arguments --------------------------------------------------------------------------------

def fam_args(ctx):
    rng = ctx.rng
    fmt = files.FORMATS[ctx.index % len(files.FORMATS)]
    f = Format[fmt]
    src = files.source(rng, fmt)
    ctx.case(src)
    d = dict(src=src)
    as_bytes = src.encode()
    r1 = parse_resource(f, src)
    r2 = parse_resource(f, as_bytes)
    ctx.check(c(r1) == c(r2), f"{fmt}-bytes-differ", f"{diff(c(r1), c(r2))}", **d)
    ctx.ev("bytes_text_pairs")
    r3 = parse_resource(f, bytearray(as_bytes)) if rng.random() < 0 else parse_resource(f, src)
    no_sharing(ctx, r1, r3, f"{fmt}-parse-shares", **d)
    no_sharing(ctx, r1, r2, f"{fmt}-parse-shares", **d)
    before = c(r1)
    outs = ["".join(serialize_resource(r1)), "".join(serialize_resource(r1, trim_comments=True))]
    ctx.check(c(r1) == before, f"{fmt}-serialize-changes", f"{diff(c(r1), before)}", **d)
    # a half-read result, and another one in between
    it = iter(serialize_resource(r1))
    head = [next(it, "") for _ in range(rng.randint(0, 4))]
    mid = "".join(serialize_resource(r1))
    rest = list(it)
    ctx.check("".join(head + rest) == outs[0] == mid, f"{fmt}-serialize-interleaved", "", **d)
    it2 = iter(serialize_resource(r2))
    next(it2, None)
    it2.close() if hasattr(it2, "close") else None
    ctx.check("".join(serialize_resource(r2, trim_comments=True)) == outs[1], f"{fmt}-serialize-trim-history", "", **d)
    ctx.check(c(r2) == before, f"{fmt}-serialize-changes", "", **d)
    ctx.ev("serializations", 5)
    # comparison
    ctx.check(l10n_equal(r1, r2), f"{fmt}-equal", "", **d)
    ctx.check(c(r1) == before and c(r2) == before, f"{fmt}-comparison-changes", "", **d)
    detect_format(None, src)
    # mutating one result does not show in another
    spoil(r3)
    ctx.check(c(parse_resource(f, src)) == before == c(r1), f"{fmt}-parse-state", "", **d)
    for e in r1.all_entries():
        if representable(e.value):
            json_calls(ctx, fmt, e, d)


def representable(m):
    """False for the messages of <bin-unit>, see the known finding of C05."""
    return not any(isinstance(x, Expression) and x.arg is None and x.function is None
                   for p in ([m.pattern] if isinstance(m, PatternMessage) else m.variants.values()) for x in p)


def spoil(r):
    """Change everything in a resource."""
    r.meta.append(Metadata("x", "y"))
    for s in r.sections:
        s.meta.append(Metadata("x", "y"))
        for e in s.entries:
            e.comment += "x"
            if isinstance(e, Entry):
                wreck(e.value)
                for p in e.properties.values():
                    wreck(p)
                e.properties["x"] = PatternMessage(["x"])
                e.meta.append(Metadata("x", "y"))
        s.entries.append(Comment("x"))


def wreck(m):
    for p in [m.pattern] if isinstance(m, PatternMessage) else m.variants.values():
        for x in p:
            if not isinstance(x, str):
                x.options["x"] = "y"
                x.attributes["x"] = "y"
        p.append("x")
    for x in m.declarations.values():
        x.options["x"] = "y"
        x.attributes["x"] = "y"
    m.declarations["x"] = Expression("x")


def json_calls(ctx, fmt, e, d):
    before = c(e)
    key, js = entry_to_json(e)
    no_sharing(ctx, e, js, "entry_to_json-shares", **d)
    text = json.dumps(js)
    back = entry_from_json(key, js)
    ctx.check(json.dumps(js) == text, "entry_from_json-changes", "", **d)
    no_sharing(ctx, back, js, "entry_from_json-shares", **d)
    ctx.check(c(e) == before, "entry_to_json-changes", "", **d)
    wreck(back.value)
    ctx.check(json.dumps(js) == text and c(e) == before, "entry_from_json-state", "", **d)
    m = e.value
    js = message_to_json(m)
    no_sharing(ctx, m, js, "message_to_json-shares", **d)
    no_sharing(ctx, js, message_to_json(m), "message_to_json-shares", **d)
    back = message_from_json(js)
    no_sharing(ctx, back, js, "message_from_json-shares", **d)
    no_sharing(ctx, back, message_from_json(js), "message_from_json-shares", **d)
    try:
        mj = mf2_to_json(m)
    except Exception:
        pass
    else:
        no_sharing(ctx, m, mj, "mf2_to_json-shares", **d)
        text = json.dumps(mj)
        back = mf2_from_json(mj)
        ctx.check(json.dumps(mj) == text, "mf2_from_json-changes", "", **d)
        no_sharing(ctx, back, mj, "mf2_from_json-shares", **d)
        ctx.ev("mf2_json_calls")
    try:
        s1 = serialize_message(Format[fmt], m)
        s2 = serialize_message(Format[fmt], m)
        ctx.check(str(s1) == str(s2), "serialize_message-differs", "", **d)
        ctx.ev("message_serializations")
    except (ValueError, NotImplementedError):
        pass
    except Exception as x:
        if type(x).__name__ not in ("UnsupportedFormat",):
            raise
    ctx.check(c(e) == before, "message-call-changes", f"{diff(c(e), before)}", **d)
    ctx.ev("json_calls")


# --- single messages --------------------------------------------------------------------------

MFORMATS = ["android", "fluent", "mf2", "properties", "webext", "xliff", "plain_json", "gettext", "ini"]
SAMPLES = ["%s %1$d", "a {$x} b", "$1 $$ x", "{ $x -> \n [a] b\n *[c] d\n }", "<b>x</b> &amp;", "\\u0041\\n", ".match $x\n* {{a}}", "{$x :number}", "%#@a@ %@", "'x' \"y\"",
           ".input {$n :number x=1}\n.match $n\n1 {{a {$n}}}\n* {{b {#b c=$n @d}x{/b}}}", "", "x", "{ NUMBER($x, y: 1) }", "<xliff:g id=\"a\">%s</xliff:g>", "$name$ b"]


def fam_messages(ctx):
    """Results of parsing the same message twice are separate, and keep their value when other results change."""
    rng = ctx.rng
    mfmt = rng.choice(MFORMATS)
    text = rng.choice(SAMPLES) if rng.random() < 0.7 else gen.text(rng, 20)
    kw = {}
    if rng.random() < 0.3:
        kw["printf_placeholders"] = True
    if mfmt == "webext" and rng.random() < 0.7:
        kw["webext_placeholders"] = {"name": {"content": "$1", "example": "x"}}
    if mfmt == "xliff" and rng.random() < 0.4:
        kw["xliff_is_xcode"] = True
    ctx.case(repr((mfmt, text, kw)))
    d = dict(format=mfmt, text=text, kw=kw)
    kw0 = deepcopy(kw)
    try:
        a = parse_message(Format[mfmt], text, **kw)
    except Exception as e:
        try:
            parse_message(Format[mfmt], text, **kw)
        except Exception as e2:
            ctx.check(type(e) is type(e2) and str(e) == str(e2), f"{mfmt}-message-error", f"{e!r} {e2!r}", **d)
            ctx.ev("failing_messages")
        else:
            ctx.check(False, f"{mfmt}-message-error", f"{e!r}", **d)
        return
    b = parse_message(Format[mfmt], text, **kw)
    ctx.check(kw == kw0, f"{mfmt}-message-arguments", f"{kw}", **d)
    no_sharing(ctx, a, b, f"{mfmt}-message-shares", **d)
    no_sharing(ctx, a, kw, f"{mfmt}-message-shares", **d)
    before = c(b)
    ctx.check(c(a) == before, f"{mfmt}-message-differs", f"{diff(c(a), before)}", **d)
    js = message_to_json(b) if representable(b) else None
    wreck(a)
    ctx.check(c(b) == before, f"{mfmt}-message-state", f"{diff(c(b), before)}", **d)
    again = parse_message(Format[mfmt], text, **kw)
    ctx.check(c(again) == before, f"{mfmt}-message-state", f"{diff(c(again), before)}", **d)
    if js is not None:
        x = message_from_json(js)
        text = json.dumps(js)
        wreck(x)
        ctx.check(json.dumps(message_to_json(b)) == text == json.dumps(js) and c(message_from_json(js)) == c(message_from_json(json.loads(text))), "message_from_json-state", "", **d)
    ctx.ev("messages_twice")


# --- history ----------------------------------------------------------------------------------

def digest(x):
    return hashlib.sha1(repr(x).encode("utf-8", "surrogatepass")).hexdigest()[:16]


def make_ops(rng, n):
    """[(kind, args)] as plain data; the same ops are run in other orders, processes and threads."""
    ops = []
    for _ in range(n):
        fmt = rng.choice(files.FORMATS)
        src = files.source(rng, fmt, True)
        if rng.random() < 0.15:
            from .c11 import damage

            src = damage(rng, src)
        r = rng.random()
        if r < 0.3:
            opts = {}
            if fmt == "gettext":
                opts = rng.choice([{}, dict(gettext_plurals=["one", "few", "other"]), dict(gettext_skip_obsolete=True)])
            elif fmt == "android":
                opts = rng.choice([{}, dict(android_ascii_spaces=True), dict(android_literal_quotes=True)])
            elif fmt == "xliff":
                opts = rng.choice([{}, dict(xliff_source_entries=True)])
            elif fmt == "properties":
                opts = rng.choice([{}, dict(properties_printf_placeholders=True)])
            ops.append(("parse", fmt, src, opts))
        elif r < 0.6:
            ops.append(("serialize", fmt, src, rng.random() < 0.4))
        elif r < 0.7:
            ops.append(("half", fmt, src, rng.randint(0, 5)))
        elif r < 0.75:
            ops.append(("detect", rng.choice([None, "x.xml", "x.json"]), src))
        elif r < 0.8:
            ops.append(("json", fmt, src))
        elif r < 0.85:
            ops.append(("equal", fmt, src, files.source(rng, fmt, True) if rng.random() < 0.5 else src))
        else:
            mfmt = rng.choice(["android", "fluent", "mf2", "properties", "webext", "xliff", "plain_json"])
            text = gen.text(rng, 20) if rng.random() < 0.5 else rng.choice(["%s %1$d", "a {$x} b", "$1 $$ x", "{ $x -> \n [a] b\n *[c] d\n }", "<b>x</b> &amp;", "\\u0041\\n", ".match $x\n* {{a}}", "{$x :number}", "%#@a@ %@", "'x' \"y\""])
            ops.append(("message", mfmt, text, rng.random() < 0.3))
    return ops


KEEP = []


def run_op(op):
    try:
        kind = op[0]
        if kind == "parse":
            r = parse_resource(Format[op[1]], op[2], **op[3])
            out = digest(c(r))
            spoil(r)
            return out
        if kind == "serialize":
            r = parse_resource(Format[op[1]], op[2].encode())
            out = digest(list(serialize_resource(r, trim_comments=op[3])))
            spoil(r)
            return out
        if kind == "half":
            it = serialize_resource(parse_resource(Format[op[1]], op[2]))
            out = [next(it, None) for _ in range(op[3])]
            KEEP.append(it)  # left half-consumed
            del KEEP[:-20]
            return digest(out)
        if kind == "detect":
            return digest(str(detect_format(op[1], op[2])))
        if kind == "json":
            return digest([entry_to_json(e) for e in parse_resource(Format[op[1]], op[2]).all_entries()])
        if kind == "equal":
            return digest(l10n_equal(parse_resource(Format[op[1]], op[2]), parse_resource(Format[op[1]], op[3])))
        if kind == "message":
            kw = dict(printf_placeholders=True) if op[3] else {}
            m = parse_message(Format[op[1]], op[2], **kw)
            a = c(m)
            try:
                out = digest((a, serialize_message(Format[op[1]], m)))
            finally:
                wreck(m)
            return out
        raise AssertionError(kind)
    except Exception as e:
        return "exc:" + type(e).__name__


FRESH = """
import sys, json
sys.path[:0] = json.loads(sys.argv[1])
from mon.props import c13
ops = json.load(sys.stdin)
out = {}
for i in reversed(range(len(ops))):
    op = ops[i]
    out[i] = c13.run_op(op)
print("RESULT" + json.dumps(out))
"""


def fresh(ops):
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    import moz.l10n

    lib = os.path.dirname(os.path.dirname(list(moz.l10n.__path__)[0]))
    p = subprocess.run([sys.executable, "-c", FRESH, json.dumps([root, lib])], input=json.dumps(ops), capture_output=True, text=True, timeout=300,
                       env={**os.environ, "PYTHONHASHSEED": "77"})
    line = next((x for x in p.stdout.splitlines() if x.startswith("RESULT")), None)
    assert line, p.stderr[-2000:]
    d = json.loads(line[6:])
    return [d[str(i)] for i in range(len(ops))]


def fam_history(ctx):
    """The same calls in a fresh process, in reverse order, and here in several orders."""
    rng = ctx.rng
    ops = make_ops(rng, 60)
    ctx.case(digest(ops))
    want = fresh(ops)
    for _ in range(3):
        order = list(range(len(ops)))
        rng.shuffle(order)
        order += [rng.choice(order) for _ in range(20)]
        for pos, i in enumerate(order):
            got = run_op(ops[i])
            ctx.ev("replayed_calls")
            ctx.check(got == want[i], f"history-{ops[i][0]}", f"after {pos} calls: {got} != {want[i]}", op=ops[i], history=[ops[j][:2] for j in order[:pos]][-5:])
    for i, op in enumerate(ops):
        ctx.ev("failing_calls" if want[i].startswith("exc:") else "passing_calls")


# --- threads ----------------------------------------------------------------------------------

def fam_threads(ctx):
    """The same calls at the same time in several threads, with switches forced between lines of the library."""
    rng = ctx.rng
    ops = make_ops(rng, 24)
    ctx.case(digest(ops))
    want = [run_op(op) for op in ops]
    # one resource shared by all threads
    shared = []
    for _ in range(3):
        fmt = rng.choice(files.FORMATS)
        src = files.source(rng, fmt, True)
        res = parse_resource(Format[fmt], src)
        shared.append((fmt, res, c(res), "".join(serialize_resource(res)), src))
    bad, switches, trace = [], [0], []
    period = rng.choice([3, 7, 17, 50])

    def worker(k):
        r = random.Random(f"{ctx.seed if hasattr(ctx, 'seed') else 0}:{ctx.index}:{k}")
        count = [0]

        def local(frame, event, arg):
            count[0] += 1
            if count[0] % period == 0:
                switches[0] += 1
                time.sleep(0)
            return local

        def tracer(frame, event, arg):
            return local if "/moz/l10n/" in frame.f_code.co_filename else None

        order = list(range(len(ops) + 2 * len(shared)))
        r.shuffle(order)
        sys.settrace(tracer)
        try:
            for i in order:
                trace.append((k, i))
                if i < len(ops):
                    got = run_op(ops[i])
                    if got != want[i]:
                        bad.append((ops[i], got, want[i]))
                else:
                    fmt, res, before, out, src = shared[(i - len(ops)) % len(shared)]
                    if "".join(serialize_resource(res)) != out:
                        bad.append((("shared", fmt, src), "", ""))
        except Exception as e:
            bad.append((("thread",), repr(e), ""))
        finally:
            sys.settrace(None)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=worker, args=(k,)) for k in range(4)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    ctx.ev("threaded_calls", len(trace))
    ctx.ev("forced_switches", switches[0])
    ctx.ev("distinct_interleavings" if len({k for k, _ in trace[:len(trace) // 2]}) > 1 else "sequential_runs")
    ctx.check(not bad, f"threads-{bad[0][0][0] if bad else ''}", f"{bad[:1]}"[:3000])
    for fmt, res, before, _, src in shared:
        ctx.check(c(res) == before, f"threads-{fmt}-changes", "", src=src)


FAMILIES = [
    Family("args", fam_args, 2000, 50000, need=["sharing_checks", "bytes_text_pairs", "serializations", "json_calls", "mf2_json_calls", "message_serializations"]),
    Family("messages", fam_messages, 8000, 300000, need=["messages_twice", "failing_messages", "sharing_checks"]),
    Family("history", fam_history, 16, 300, need=["replayed_calls", "failing_calls", "passing_calls"]),
    Family("threads", fam_threads, 48, 1000, need=["threaded_calls", "forced_switches", "distinct_interleavings"]),
]

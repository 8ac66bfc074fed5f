"""MessageFormat 2 syntax: parser and serializer against a reference reader."""
from __future__ import annotations

from moz.l10n.formats import Format
from moz.l10n.formats.mf2 import mf2_parse_message, mf2_serialize_message, mf2_serialize_pattern, mf2_validate_message, MF2ValidationError
from moz.l10n.message import parse_message, serialize_message
from moz.l10n.model import PatternMessage

from .. import mf2ref as R
from ..core import Family, Skip
from ..model import canon, check_same, norm

RULE = "distinct by source text or serialized text; seeded random, about a third of the sources mutated at one to three places"
ASSUMPTIONS = ["grammar of LDML 46.1 (number literals, names); names and keys in NFC",
               "any number of bidi controls is tolerated where a name allows one",
               "duplicate attributes are not an error in the specification: not judged", "no NUL characters in models"]


def strict(m):
    return canon(norm(m), catchall=False)


def lib_parse(src, ctx):
    try:
        if ctx.rng.random() < 0.2:
            return parse_message(Format.mf2, src)
        return mf2_parse_message(src.encode("utf8") if ctx.rng.random() < 0.2 else src)
    except ValueError:
        return None


def judge(ctx, src, want):
    got = lib_parse(src, ctx)
    if want is None:
        ctx.ev("rejections_judged")
        ctx.check(got is None, "accepts-malformed", "", src=src, model=got)
    else:
        ctx.ev("models_judged")
        ctx.check(got is not None, "rejects-valid", "", src=src, expected=want)
        ctx.check(strict(got) == strict(want), "wrong-model", "", src=src, model=got, expected=want)
    return got


def roundtrip(ctx, m):
    before = canon(m)
    out = mf2_serialize_message(m) if ctx.rng.random() < 0.6 else serialize_message(Format.mf2, m)
    ctx.check(canon(m) == before, "mutated", "serialization changed its argument")
    try:
        ref = R.read(out)
    except (R.Bad, R.DontCare) as e:
        ctx.fail("output-malformed", repr(e), out=out, message=m)
    ctx.ev("outputs_read")
    ctx.check(strict(ref) == strict(m), "output-means-other", "", out=out, message=m, read=ref)
    back = lib_parse(out, ctx)
    ctx.check(back is not None, "output-rejected", "", out=out, message=m)
    ctx.check(strict(back) == strict(m), "roundtrip", "", out=out, message=m, parsed=back)
    again = mf2_serialize_message(back)
    ctx.check(again == out, "serialize-unstable", "", out=out, again=again)
    return out


def fam_sentence(ctx):
    rng = ctx.rng
    m = R.message(rng, joined=True)
    src = R.Writer(rng, rng.choice([0, 0.2, 0.5])).message(m)
    ctx.case(src)
    try:
        ref = R.read(src)
    except R.DontCare:
        raise Skip()
    assert strict(ref) == strict(m), (src, ref, m)
    got = judge(ctx, src, ref)
    roundtrip(ctx, got)


SOUP = ["{", "}", "{{", "}}", "|", "\\", "$", ":", "#", "/", "@", "=", "*", ".", " ", "\n", "\u200e", "\u3000", "x", "1", "-", "0", "e", ".input", ".local", ".match", "é", "\x00", "\u00a0", "\u2028", "+", "٣", ".5"]


def fam_mutate(ctx):
    rng = ctx.rng
    r = rng.random()
    if r < 0.1:
        src = "".join(rng.choice(SOUP) for _ in range(rng.randint(0, 10)))
    elif r < 0.25:
        src = "{" + "".join(rng.choice(SOUP) for _ in range(rng.randint(1, 7))) + "}"
    else:
        src = R.Writer(rng, rng.choice([0, 0.3])).message(R.message(rng, joined=True))
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            i = rng.randint(0, len(src))
            k = rng.random()
            if k < 0.4:
                src = src[:i] + src[i + rng.choice([1, 1, 2]):]
            elif k < 0.8:
                src = src[:i] + rng.choice(SOUP) + src[i:]
            else:
                j = rng.randint(0, len(src))
                src = src[:i] + src[j:j + rng.randint(1, 6)] + src[i:]
    ctx.case(src)
    try:
        want = R.read(src)
    except R.Bad:
        want = None
    except R.DontCare:
        raise Skip()
    judge(ctx, src, want)


def fam_model(ctx):
    rng = ctx.rng
    m = R.message(rng)
    if rng.random() < 0.3:
        m.declarations = dict(rng.sample(list(m.declarations.items()), len(m.declarations)))
    before = strict(m)
    try:
        mf2_validate_message(m)
    except MF2ValidationError as e:
        ctx.fail("valid-rejected", repr(e), message=m)
    ctx.check(strict(m)[2:] == before[2:] and sorted(map(repr, strict(m)[1])) == sorted(map(repr, before[1])), "validate-changed", "", message=m)
    out = roundtrip(ctx, m)
    ctx.case(out)
    if isinstance(m, PatternMessage):
        src = "".join(mf2_serialize_pattern(m.pattern))
        ctx.check(strict(R.read("{{" + src + "}}")) == strict(PatternMessage(m.pattern)), "pattern-means-other", "", out=src, message=m)


FAMILIES = [
    Family("sentence", fam_sentence, 12000, 500000, need=["models_judged", "outputs_read"]),
    Family("mutate", fam_mutate, 25000, 1000000, need=["models_judged", "rejections_judged"]),
    Family("model", fam_model, 12000, 500000, need=["outputs_read"]),
]

"""Android locale qualifiers: there and back again."""
from __future__ import annotations

import re
from itertools import product
from string import ascii_lowercase as az

from moz.l10n.paths.android_locale import get_android_locale, parse_android_locale

from ..core import Family, Skip

RULE = "distinct by locale or qualifier; every two-letter language with every two-letter region is visited, and every string of up to six characters over the alphabet of qualifiers"
ASSUMPTIONS = ["locales use the current language codes: iw, in and ji are the withdrawn names of he, id and yi",
               "the tags of a b+ qualifier are two to eight letters, then letters and digits"]

LEGACY = {"iw": "he", "in": "id", "ji": "yi"}
AZ2 = [a + b for a in az for b in az]
SCRIPTS = ["Latn", "Cyrl", "Arab", "Hans", "Hant", "Deva", "Zzzz", "Qaaa"]
VARIANTS = ["1996", "1606nict", "valencia", "tarask", "fonipa", "a1b2c", "polyton", "mac"]
# qualifiers, as Android's documentation writes them
SIMPLE = re.compile(r"([a-z]{2,3})(?:-r([A-Z]{2}))?")
STRICT = re.compile(r"b\+([a-z]{2,3})(\+[A-Z][a-z]{3})?(\+(?:[A-Z]{2}|[0-9]{3}))?((?:\+(?:[0-9][a-z0-9]{3}|[a-z][a-z0-9]{4,7}))*)")
LENIENT = re.compile(r"b\+[A-Za-z]{2,8}(\+[A-Za-z0-9]{1,8})*")


def expected(q):
    """The locale of a qualifier by its grammar; False if only its shape is known."""
    m = SIMPLE.fullmatch(q)
    if m:
        lc, rest = m[1], [m[2]] if m[2] else []
    else:
        if not LENIENT.fullmatch(q):
            return None
        if not STRICT.fullmatch(q):
            return False
        lc, *rest = q[2:].split("+")
    return "-".join([LEGACY.get(lc, lc), *rest])


def qualifier(locale):
    """The qualifier of a locale by Android's rules."""
    lc, *rest = locale.split("-")
    lc = {v: k for k, v in LEGACY.items()}.get(lc, lc)
    if not rest:
        return lc
    if len(rest) == 1 and re.fullmatch("[A-Z]{2}", rest[0]):
        return f"{lc}-r{rest[0]}"
    return "+".join(["b", lc, *rest])


def there_and_back(ctx, locale):
    q = get_android_locale(locale)
    ctx.eq(q, qualifier(locale), "qualifier", locale=locale)
    back = parse_android_locale(q)
    ctx.eq(back, locale, "there-and-back", qualifier=q)
    ctx.ev("locales")
    return q


def fam_codes(ctx):
    """One language with every two-letter region, and some of the longer forms."""
    rng = ctx.rng
    lc = AZ2[ctx.index % 676] if ctx.index < 676 else rng.choice(AZ2) + rng.choice(az)
    if lc in LEGACY:
        raise Skip()
    ctx.case(lc)
    seen = {}
    locales = [lc, *(f"{lc}-{r.upper()}" for r in AZ2), *(f"{lc}-{s}" for s in SCRIPTS), *(f"{lc}-{n:03}" for n in (1, 419, 150, rng.randrange(1000)))]
    for _ in range(60):
        locales.append("-".join([lc, *rng.sample(SCRIPTS, rng.randint(0, 1)), *([rng.choice(AZ2).upper()] if rng.random() < 0.6 else rng.sample(["419", "001"], rng.randint(0, 1))), *rng.sample(VARIANTS, rng.choice([0, 1, 1, 2])), *rng.choice([[], [], [], ["x", "foo"], ["u", "co", "phonebk"], ["x", "a", "b1"]])]))
    for locale in dict.fromkeys(locales):
        q = there_and_back(ctx, locale)
        ctx.check(seen.setdefault(q, locale) == locale, "shared-qualifier", f"{q} {locale} {seen[q]}")


def fam_legacy(ctx):
    """Withdrawn language codes are read as the current ones, whatever follows them."""
    rng = ctx.rng
    old, new = rng.choice(list(LEGACY.items()))
    tail = [*rng.sample(SCRIPTS, rng.randint(0, 1)), *([rng.choice(AZ2).upper()] if rng.random() < 0.6 else []), *rng.sample(VARIANTS, rng.choice([0, 0, 1]))]
    locale = "-".join([new, *tail])
    ctx.case(locale)
    q = there_and_back(ctx, locale)
    ctx.check(re.fullmatch(rf"(?:b\+)?{old}(?:[-+].*)?", q) is not None, "legacy-code", f"{locale} {q}")
    ctx.eq(parse_android_locale(re.sub(rf"(?<![a-z]){old}(?![a-z])", new, q, count=1)), locale, "current-code", qualifier=q)
    ctx.ev("legacy")


def one(ctx, q):
    got, want = parse_android_locale(q), expected(q)
    if want is not False:
        ctx.eq(got, want, "qualifier-read" if want else "not-a-qualifier", qualifier=q)
    ctx.ev("valid" if want else "unknown" if want is False else "invalid")


ALPHABET = "abr+-R1_"


def fam_short(ctx):
    """All short strings over the alphabet of qualifiers that start with the two characters of this case."""
    a, b = divmod(ctx.index % 64, 8)
    head = ALPHABET[a] + ALPHABET[b]
    ctx.case(head)
    if ctx.index == 0:
        for q in ("", *ALPHABET):
            one(ctx, q)
    depth = 4 if ctx.index < 64 else 5
    for n in range(depth + 1):
        for t in product(ALPHABET, repeat=n):
            one(ctx, head + "".join(t))


def fam_near(ctx):
    """Qualifiers with a mistake in them, and other strings."""
    rng = ctx.rng
    q = qualifier("-".join([rng.choice(AZ2) + rng.choice(["", rng.choice(az)]), *rng.sample(SCRIPTS, rng.randint(0, 1)), *([rng.choice(AZ2).upper()] if rng.random() < 0.6 else []), *rng.sample(VARIANTS, rng.choice([0, 0, 1]))]))
    for _ in range(rng.randint(0, 2)):
        i = rng.randint(0, len(q))
        q = q[:i] + rng.choice(["", "+", "-", "r", "é", " ", "\n", "A", "z", "_", "b+", "/", "٣", "ı", "K", "\0", "{", "-r", "values-"]) + q[i + rng.choice([0, 1]):]
    if rng.random() < 0.2:
        q = rng.choice([q + "\n", " " + q, q.upper(), q + "+", "b+", "b", "b++", "b+" + q, q + "-rUS", "land", "v21", "night", "sw600dp", "mcc310", "en-rUS-land", "b+ +", "b+a", "b+..", "b+de+../x", "values"])
    ctx.case(q)
    one(ctx, q)


FAMILIES = [
    Family("codes", fam_codes, 676, 20000, need=["locales"]),
    Family("legacy", fam_legacy, 1000, 30000, need=["legacy"]),
    Family("short", fam_short, 64, 128, need=["valid", "invalid"]),
    Family("near", fam_near, 20000, 1000000, need=["valid", "invalid", "unknown"]),
]

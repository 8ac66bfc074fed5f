"""Random valid files of every resource format, from the generators of the format checks."""
from __future__ import annotations

from types import SimpleNamespace

from moz.l10n.formats import Format

from . import android as A
from . import ftl as F
from . import jsonfmt as J
from . import po
from . import simple as S
from . import xliff as X

FORMATS = ["android", "dtd", "fluent", "gettext", "inc", "ini", "plain_json", "properties", "webext", "xliff"]
EXT = {"android": [".xml"], "dtd": [".dtd"], "fluent": [".ftl"], "gettext": [".po", ".pot"], "inc": [".inc"], "ini": [".ini"], "plain_json": [".json"],
       "properties": [".properties"], "webext": [".json"], "xliff": [".xlf", ".xliff"]}


def source(rng, fmt, small=False):
    from .props import c01, c02

    if fmt == "properties":
        return c01.gen_text(rng)[0]
    if fmt == "fluent":
        while True:
            src = c02.gen_file(SimpleNamespace(rng=rng), 1 if small else 2)
            if not any(x[0] == "junk" for x in F.items(F.parse(src))):
                return src
    if fmt == "android":
        return A.document(rng)[0]
    if fmt == "xliff":
        return X.document(rng)[0]
    if fmt == "gettext":
        return po.document(rng)[0]
    if fmt == "dtd":
        return S.dtd_file(rng)[0]
    if fmt == "inc":
        return S.inc_file(rng)[0]
    if fmt == "ini":
        return S.ini_file(rng)[0]
    if fmt == "plain_json":
        return J.dump(rng, J.tree(rng))
    if fmt == "webext":
        return J.dump(rng, J.wx_file(rng), rng.random() < 0.2)
    raise ValueError(fmt)


def pick(rng):
    fmt = rng.choice(FORMATS)
    return fmt, Format[fmt], source(rng, fmt)


def encoded(src):
    return src.encode("utf-8")

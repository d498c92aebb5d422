"""Facts about primitives of Python and nr.date (numerals, base64, date formats, ...) for the values that occur in a
session. They are computed without the code under test and are what the specification takes as given."""

import base64
import datetime
import decimal
import pathlib
import uuid
from fractions import Fraction

from nr.date import date_format, datetime_format, duration, time_format
from nr.date.format_sets import ISO_8601, JAVA_OFFSET_DATETIME

from model import SCALS, float_tok

ROUND = {"": None}


def walk(v, out):
    """All scalar values in a value."""
    tag, tok, kids = v
    if tag in ("seq", "set"):
        for k in kids:
            walk(k, out)
    elif tag == "map":
        for k, w in kids:
            walk(k, out)
            walk(w, out)
    elif tag == "obj":
        for k, w in kids:
            walk(w, out)
    elif tag != "enum":
        out.add((tag, tok))


def walk_types(t, f):
    f(t)
    if t[0] == "ann":
        walk_types(t[2][0], f)
        for s in t[2][1]:
            if s[0] == "DeserializeAs":
                walk_types(s[2][0], f)
            if s[0] == "Union":
                for _, m in s[2][3]:
                    walk_types(m, f)
    elif t[0] != "lit":
        for a in t[2]:
            walk_types(a, f)


def attempt(f):
    try:
        return f()
    except (ValueError, OverflowError, TypeError, decimal.DecimalException, IndexError, KeyError):
        return None


def _formats(kind, f):
    """The nr.date formats of a kind that a format of a DateFormat setting stands for."""
    cls = {"date": date_format, "time": time_format, "datetime": datetime_format}[kind]
    if f in (".ISO_8601", "SET:ISO"):
        return list(getattr(ISO_8601, kind + "_formats", None) or getattr(ISO_8601, cls.__name__ + "s"))
    if f in (".JAVA_OFFSET_DATETIME", "SET:JAVA"):
        return list(getattr(JAVA_OFFSET_DATETIME, cls.__name__ + "s"))
    for p, k in (("DT:", "datetime"), ("D:", "date"), ("T:", "time")):
        if f.startswith(p):
            return [cls.compile(f[len(p) :])] if k == kind else []
    try:
        return [cls.compile(f)]
    except ValueError:
        return []


def _tok(x):
    return x.isoformat()


def facts(scalars, formats, precisions):
    """scalars: set of (tag, tok) of values that conversions may meet."""
    F = {n: {"": ["err", ""]} for n in ("b64e", "b64d", "i2f", "f2i", "s2i", "s2f", "f2s", "lower", "uuid", "path",
                                        "purepath", "mypath", "winpath", "myuuid", "duration", "decimal", "dparse", "dformat")}

    def put(fn, arg, res):
        F[fn][arg] = ["ok", res] if res is not None else ["err", ""]

    precs = set(precisions) | {""}
    for tag, tok in scalars:
        if tag == "str":
            put("b64d", tok, attempt(lambda: base64.b64decode(tok).hex()))
            put("s2i", tok, attempt(lambda: str(int(tok))))
            put("s2f", tok, attempt(lambda: float_tok(float(tok))))
            put("lower", tok, tok.lower())
            put("uuid", tok, attempt(lambda: str(uuid.UUID(tok))))
            put("path", tok, attempt(lambda: str(pathlib.Path(tok))))
            put("purepath", tok, attempt(lambda: str(pathlib.PurePath(tok))))
            put("myuuid", tok, attempt(lambda: str(uuid.UUID(tok))))
            put("mypath", tok, attempt(lambda: str(pathlib.Path(tok))))
            put("winpath", tok, attempt(lambda: str(pathlib.PureWindowsPath(tok))))
            put("duration", tok, attempt(lambda: str(duration.parse(tok))))
            for p in precs:
                put("decimal", f"{p}|str:{tok}", attempt(lambda: str(_dec(p, tok))))
            for k, T in (("date", datetime.date), ("time", datetime.time), ("datetime", datetime.datetime)):
                for f in formats:
                    res = None
                    for fmt in _formats(k, f):
                        x = attempt(lambda: getattr(fmt, "parse_" + k)(tok))
                        if x is not None:
                            res = _tok(x)
                            break
                    put("dparse", f"{f}|{k}|{tok}", res)
        elif tag in ("int", "bool"):
            n = int(tok)
            put("i2f", tok, attempt(lambda: float_tok(float(n))))
            for p in precs:
                put("decimal", f"{p}|int:{tok}", attempt(lambda: str(_dec(p, n))))
        elif tag == "float":
            x = float(tok) if tok in ("nan", "inf", "-inf") else (-0.0 if tok == "-0" else float(Fraction(tok)))
            put("f2i", tok, attempt(lambda: str(int(x)) if x == int(x) else None))
            put("f2s", tok, str(x))
            for p in precs:
                put("decimal", f"{p}|float:{tok}", attempt(lambda: str(_dec(p, x))))
        elif tag == "bytes":
            put("b64e", tok, base64.b64encode(bytes.fromhex(tok)).decode("ascii"))
        elif tag in ("date", "time", "datetime"):
            x = SCALS[tag].fromisoformat(tok)
            for f in formats:
                res = None
                for fmt in _formats(tag, f):
                    res = attempt(lambda: getattr(fmt, "format_" + tag)(x))
                    if res is not None:
                        break
                put("dformat", f"{f}|{tag}|{tok}", res)
    return F


def _dec(p, x):
    if not p:
        return decimal.Decimal(x)
    prec, rounding, *more = p.split(":")
    emin, emax, clamp = (more + [""] * 3)[:3]
    c = decimal.DefaultContext.copy()
    if prec:
        c.prec = int(prec)
    if rounding:
        c.rounding = rounding
    if emin:
        c.Emin = int(emin)
    if emax:
        c.Emax = int(emax)
    if clamp:
        c.clamp = int(clamp)
    return c.create_decimal(x)

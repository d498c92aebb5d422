"""Bounded models: TLC explores a model exhaustively, checks the properties of the specification on it and prints every
case; the cases are replayed against the real code. Where an outcome differs from the one of the model, the case goes to
SessionTrace, which judges it for the property at hand."""

import json
import multiprocessing
import os
import random
import pathlib
import re
import tempfile
import time
import traceback
import typing

import facts as facts_mod
import model
import run
import sessions
import tlc
from model import *

SPEC = tlc.SPEC


def tup(o):
    """JSON data as nested tuples."""
    return tuple(tup(x) for x in o) if isinstance(o, list) else o


def norm(v):
    """A value without the order of sets and mappings."""
    tag, tok, kids = v
    if tag == "seq":
        return (tag, tok, tuple(norm(x) for x in kids))
    if tag == "set":
        return (tag, tok, frozenset(norm(x) for x in kids))
    if tag == "map":
        return (tag, tok, frozenset((norm(k), norm(w)) for k, w in kids))
    if tag == "obj":
        return (tag, tok, frozenset((k, norm(w)) for k, w in kids))
    return v


def buildable(prog, v):
    """Whether Python can build the value: True, 1 and Decimal("1") are one key of a mapping or item of a set."""
    tag, tok, kids = v
    parts = [w for _, w in kids] if tag == "obj" else [x for kw in kids for x in kw] if tag == "map" else kids if tag in ("seq", "set") else ()
    if not all(buildable(prog, x) for x in parts):
        return False
    try:
        return len(prog.value(v)) == len(kids) if tag in ("set", "map") else prog.value(v) is not Ellipsis
    except (TypeError, ValueError):
        return False


def norm_log(log):
    out = []
    for x in log:
        out.append((x[0], x[1], tuple(x[2]), frozenset(x[3])) if x[0] == "extra" else tuple(x))
    return out


def plain_junk(t):
    """Annotations that are not settings are all the same."""
    if isinstance(t, tuple) and len(t) == 3 and t[0] == "Junk" and isinstance(t[1], int):
        return ("Junk",)
    return tuple(plain_junk(x) for x in t) if isinstance(t, tuple) else t


def same(R, O, ignore=()):
    """R: outcome of the model, O: of the code."""
    if R["st"] == "nofact" or R["st"] != O["st"] or set(O["flags"]) - set(ignore):
        return False
    if norm_log(R["log"]) != norm_log(O["log"]):
        return False
    if R["st"] in ("ok", "exc"):
        return norm(R["v"]) == norm(O["v"])
    return (R["p"], norm(R["ev"]), plain_junk(R["et"]), R["nm"]) == (O["p"], norm(O["ev"]), plain_junk(O["et"]), O["nm"]) and (
        not R["nm"] or tuple(e["p"] for e in R["errs"]) == tuple(O["errs"]))


def close_facts(scalars, formats=(), precs=()):
    """The facts about the scalars and about what conversions make of them."""
    formats = set(formats) | {".ISO_8601"}
    scal = set(scalars)
    F = {}
    for _ in range(2):
        scal |= {("str", tok) for tag, tok in scal if tag not in ("none", "bool", "float", "enum")}
        F = facts_mod.facts(scal, formats, precs)
        for fn, tag in (("b64e", "str"), ("b64d", "bytes"), ("i2f", "float"), ("f2i", "int"), ("s2i", "int"), ("s2f", "float"), ("f2s", "str"),
                        ("uuid", "uuid"), ("path", "path"), ("duration", "duration"), ("decimal", "decimal"), ("dformat", "str")):
            scal |= {(tag, r) for k, (st, r) in F[fn].items() if st == "ok"}
        for k, (st, r) in F["dparse"].items():
            if st == "ok":
                scal.add((k.split("|")[1], r))
    return facts_mod.facts(scal, formats, precs)


def scalars_of(o, acc):
    if isinstance(o, (list, tuple)):
        if len(o) == 3 and isinstance(o[0], str) and isinstance(o[1], str) and o[2] == ():
            acc.add((o[0], o[1]))
        for x in o:
            scalars_of(x, acc)
    elif isinstance(o, dict):
        for x in o.values():
            scalars_of(x, acc)
    return acc


CASE = re.compile(r'^<<"CASE", (".*")>>$')


class ModelBroken(Exception):
    """An invariant does not hold on the model: the specification contradicts itself."""


def explore(module, universe, constants, invariants, properties=(), *, spec="Spec", timeout=2400, heap="8g"):
    """Runs TLC; returns (cases, tlc result)."""
    fd, upath = tempfile.mkstemp(prefix="universe_", suffix=".json")
    with os.fdopen(fd, "w") as f:
        json.dump(universe, f)
    fd, cpath = tempfile.mkstemp(prefix="mc_", suffix=".cfg")
    with os.fdopen(fd, "w") as f:
        f.write(f"SPECIFICATION {spec}\nCHECK_DEADLOCK FALSE\n")
        if constants:
            f.write("CONSTANTS\n" + "".join(f" {k} = {v}\n" for k, v in constants.items()))
        for i in invariants:
            f.write(f"INVARIANT {i}\n")
        for i in properties:
            f.write(f"PROPERTY {i}\n")
    try:
        r = tlc.tlc(module, cpath, env={"VERIF_UNIVERSE": upath}, timeout=timeout, heap=heap)
    finally:
        os.unlink(upath)
        os.unlink(cpath)
    if os.environ.get("VERIF_DEBUG"):
        print(r['states'], r['distinct'], round(r['wall'], 1))
    if not r["completed"]:
        raise ModelBroken(f"{module}: " + tlc.errors_of(r["out"]))
    cases = []
    for line in r["out"].splitlines():
        m = CASE.match(line)
        if m:
            cases.append(json.loads(json.loads(m[1])))
    return cases, r


# -- replay ---------------------------------------------------------------------------------------------------------------

_REPLAYER = None


def _work(chunk):
    """chunk: (index, ...); returns [(index, session data)] of the cases that differ, and the number of executions."""
    diff, n = [], 0
    for i in chunk:
        try:
            got = _REPLAYER(i)
        except model.BadProgram:
            continue
        except Exception:
            diff.append((i, None, "error: " + traceback.format_exc(limit=-6)))
            continue
        n += 1
        if got is not None:
            diff.append((i, got, ""))
    return diff, n


def replay(replayer, n, procs=8, chunk=200):
    global _REPLAYER
    _REPLAYER = replayer
    chunks = [range(a, min(a + chunk, n)) for a in range(0, n, chunk)]
    with multiprocessing.get_context("fork").Pool(procs) as pool:
        res = pool.map(_work, chunks, chunksize=1)
    return [x for d, _ in res for x in d], sum(k for _, k in res)


MAX_JUDGED = 400


def judge_diffs(rep, family, diffs, describe):
    """Has the specification judge the cases whose outcome is not that of the model."""
    for i, d, why in diffs:
        if d is None:
            raise RuntimeError(why)
    rep.count(f"{family}: outcomes referred to SessionTrace", len(diffs))
    step = max(1, len(diffs) // MAX_JUDGED)
    part = diffs[::step]
    if not part:
        return
    res, r = tlc.check_sessions([d for _, d, _ in part])
    rep.states += r["distinct"]
    for (k, l), (st, clause) in sorted(res.items()):
        if clause:
            i, d, _ = part[k]
            rep.violation(f"{clause}: {describe(i)}", dict(kind=family, clause=clause, specified=st, case=describe(i), op=d["ops"][l]))


# -- F1: types x values -------------------------------------------------------------------------------------------------


def fixed_program():
    T = VAR("T")
    K = VAR("K")
    d = {
        "EN": cls_record("enum", "EN", members=(dict(n="a", aliases=("A1", "b2"), val=I(1)), dict(n="b", aliases=(), val=I(2)), dict(n="c", aliases=("a",), val=I(3)), dict(n="d", aliases=(), val=I(2)))),
        "IE": cls_record("ienum", "IE", members=(dict(n="one", aliases=(), val=I(1)), dict(n="two", aliases=("one",), val=I(2)))),
        "A": dc("A", [F("x", INT), F("y", OPT(STR))]),
        "B": dc("B", [F("z", LIST(INT), "fac", L())], [CLS("A")]),
        "G": dc("G", [F("v", T)], params=("T",)),
        "GG": dc("GG", [F("w", LIST(T)), F("u", OPT(T))], [CLS("G", LIST(T))], params=("T",)),
        "FR": dc("FR", [F("k", INT)], frozen=True),
        "TD": cls_record("td", "TD", own=(F("p", INT), F("q", STR))),
        "TO": cls_record("td", "TO", own=(F("p", INT), F("q", STR)), total=False),
        "NT": cls_record("nt", "NT", own=(F("p", INT), F("q", STR, "val", S("d")))),
        "UL": cls_record("ucoll", "UL", bases=(LIST(INT),), ctor="list"),
        "US": cls_record("ucoll", "US", bases=(COLL("frozenset", T),), params=("T",), ctor="frozenset"),
        "UG": cls_record("ucoll", "UG", bases=(LIST(T),), params=("T",), ctor="list"),
        "UH": cls_record("ucoll", "UH", bases=(CLS("UG", OPT(INT)),), ctor="list"),
        "UM": cls_record("umap", "UM", bases=(MAP("dict", STR, T),), params=("T",), ctor="dict"),
        "UK": cls_record("umap", "UK", bases=(MAP("dict", K, T),), params=("T", "K"), ctor="dict"),
        "UN": cls_record("umap", "UN", bases=(CLS("UM", LIST(INT)),), ctor="dict"),
        "UB": cls_record("ucoll", "UB", bases=(COLL("list"),), ctor="list"),
    }
    return Program(d, {})


SMALL = [NONE, TRUE, FALSE, I(0), I(1), I(-7), FL(0.0), FL(1.0), FL(2.5), FL(float("nan")), S(""), S("1"), S("2.5"), S("yes"), S("Off"), S("abc"),
         S("aGk="), V("bytes", "6869"), V("decimal", "1"), L(), L(I(1)), L(S("a")), D(), D(("x", I(1)), ("y", NONE)), D(("p", I(1)), ("q", S("s")))]
NUMS = [FL(-0.0), FL(-3.0), FL(1e22), FL(float("inf")), FL(float("-inf")), I(10**30), I(10**400), I(2), S("-1"), S("1e3"), S("1_000"), S(" 7 "), S("nan"), S("Infinity"), S("-0.0"),
        S("0x1"), S("TRUE"), S("enabled"), S("Disabled"), S("no"), S("oN"), S("true "), S("None"), S("t"), S("False"), S("aGk"), S("a-_="), S("YWJj"), S("\n"), S("٣"),
        V("bytes", ""), V("bytes", "fbff"), V("decimal", "NaN"), V("decimal", "1E+3"), V("decimal", "-0.10"), V("mydecimal", "2"), S("1.50"), S("sNaN"), S("1,5"),
        ENUM("IE", "one"), ENUM("EN", "a")]
SCALV = [V("uuid", "12345678-1234-5678-1234-567812345678"), S("12345678-1234-5678-1234-567812345678"), S("{12345678123456781234567812345678}"), V("path", "a/b"), V("purepath", "a/b"),
         V("duration", "P1DT2H"), S("P1DT2H"), S("P1X"), S("a/b"), V("myuuid", "12345678-1234-5678-1234-567812345678"), V("winpath", "a\\b"), V("mypath", "c")]
DATES = [V("date", "2020-02-29"), V("time", "10:20:30"), V("time", "10:20:30.250000"), V("datetime", "2020-02-29T10:20:30+02:00"), V("datetime", "2020-02-29T10:20:30.250000+00:00"), V("datetime", "2020-02-29T00:00:00"),
         S("2020-02-29"), S("2019-02-29"), S("29.02.2020"), S("10:20:30"), S("10:20:30.250Z"), S("2020-02-29T10:20:30Z"), S("2020-02-29T10:20:30+02:00"), S("2020-02-29T10:20:30.25+02:00"),
         S("2020-02-29 10:20"), S("10:20"), S("20200229"), S("2020-2-29")]
ENUMV = [ENUM("EN", "a"), ENUM("EN", "b"), ENUM("EN", "c"), ENUM("IE", "one"), ENUM("IE", "two"), S("a"), S("b"), S("c"), S("A1"), S("b2"), S("d"), S("one"), S("two"), S("EN.a"), I(2), I(3), FL(2.0), S("2")]
OBJV = [OBJ("A", ("x", I(1)), ("y", NONE)), OBJ("A", ("x", S("no")), ("y", S("s"))), OBJ("B", ("x", I(1)), ("y", S("s")), ("z", L(I(3)))), OBJ("G", ("v", I(1))), OBJ("G", ("v", L(I(1)))), OBJ("FR", ("k", I(5))),
        OBJ("NT", ("p", I(1)), ("q", S("s"))), OBJ("GG", ("v", L(I(1))), ("w", L()), ("u", NONE)), D(("x", I(1)), ("y", S("s")), ("z", L(I(2)))), D(("v", I(1))), D(("k", I(5))), D(("p", I(1))), D(("x", S("1")), ("y", NONE))]
COLLV = [("seq", "tuple", (I(1), I(2))), ("set", "set", (I(1), S("a"))), ("set", "frozenset", (I(1),)), ("seq", "deque", (I(1),)), ("seq", "UL", (I(1),)), ("seq", "UG", (I(1),)), ("seq", "UH", (I(1), NONE)), ("set", "US", (I(1),)),
         ("map", "OrderedDict", ((S("a"), I(1)),)), ("map", "UM", ((S("a"), L(I(1))),)), ("map", "UN", ((S("a"), L(I(1))),)), ("map", "UK", ((I(1), S("a")),)), ("map", "defaultdict", ((S("a"), I(1)),)), D((I(1), I(2))), D((NONE, I(1))), D(("a", I(1)), ("b", S("x"))),
         L(L(I(1))), L(I(1), S("a"), NONE), L(D(("a", I(1)))), V("other", "range"), V("other", "generator"), V("other", "object"), V("other", "bytearray"), V("other", "memoryview"), V("bytes", "6162")]

PLAINS = [INT, STR, FLOAT, BOOL, BYTES]
SCALARS = [SCAL(n) for n in ("decimal", "uuid", "path", "purepath", "duration")]
MORES = [SCAL(n) for n in ("myuuid", "mydecimal", "winpath", "mypath", "myduration")]
TIMES = [SCAL(n) for n in ("date", "time", "datetime")]
LITS = [LIT(I(1)), LIT(TRUE, S("a")), LIT(NONE, I(0), S("1"))]
ENUMS = [CLS("EN"), CLS("IE")]
OBJS = [CLS("A"), CLS("B"), CLS("FR"), CLS("TD"), CLS("TO"), CLS("NT"), CLS("G", INT), CLS("G", STR), CLS("GG", INT)]
UCOLLS = [CLS("UL"), CLS("UH"), CLS("UN"), CLS("UB"), CLS("UK", STR, INT), CLS("UG", INT), CLS("US", STR), COLL("list"), MAP("dict",), ] if False else [CLS("UL"), CLS("UH"), CLS("UN"), CLS("UB"), CLS("UK", STR, INT)]
BASIC = ["list", "opt", "dictv", "tuple2", "vtuple", "set", "uni1", "ann", "G"]
COLLW = ["list", "set", "frozenset", "deque", "Sequence", "Collection", "MutableSequence", "Set", "MutableSet", "vtuple", "tuple1", "tuple2", "UG", "US"]
MAPW = ["dictv", "dictk", "odict", "ddict", "mapping", "UM"]


def union_atoms():
    out = []
    for style in ("nested", "flat", "keyed", "best_match"):
        for disc, nest in (("type", ""), ("type", "data")):
            if style in ("keyed", "best_match") and disc + nest != "type":
                continue
            for ms in ((("a", CLS("A")), ("b", CLS("B"))), (("i", INT), ("s", STR), ("i2", INT)), (("b2", CLS("B")), ("fr", CLS("FR")), ("b3", CLS("B")), ("td", CLS("TD")))):
                if style == "flat" and disc == "a":
                    continue
                out.append(ANN(UNION(*dict.fromkeys(t for _, t in ms)), setting("Union", (style, disc, nest, ms))))
    return out


def some_unions():
    u = union_atoms()
    return [u[0], u[4], u[6], u[10], u[12], u[14], u[16]]


def dated(f):
    return [ANN(t, setting("DateFormat", f)) for t in TIMES]


PRECS = ["3:", "2:ROUND_UP", "::0:0:", "4::-2:3:", ":", "::0:1:1", "3:ROUND_FLOOR", "::-1::"]
PROPS_F1 = {
    # property: (atoms, wrappers, pool, directions, settings of strictness, (depth, few) quick, thorough)
    "C01": (PLAINS + [ANY] + SCALARS + TIMES[:1] + LITS[1:] + ENUMS + OBJS + UCOLLS + some_unions(), BASIC, SMALL + SCALV[:4] + ENUMV[5:9] + COLLV[:3], ["load"], [False], (1, 1), (1, 3)),
    "C02": (PLAINS + SCALARS[:1] + [ANN(SCAL("decimal"), setting("Precision", (p,))) for p in PRECS], ["list", "dictv", "dictk", "opt", "tuple2", "G"], SMALL + NUMS, ["load", "dump"], [True, False], (1, 2), (2, 1)),
    "C03": (PLAINS + SCALARS + [NONET] + TIMES[:1] + LITS[1:] + ENUMS + OBJS + UCOLLS + some_unions(), BASIC + ["mapping", "Sequence"], SMALL + SCALV[:4] + ENUMV[:4] + OBJV + COLLV, ["dump"], [True], (1, 1), (1, 3)),
    "C04": (PLAINS + SCALARS + TIMES + LITS + ENUMS + OBJS + UCOLLS + union_atoms(), BASIC + COLLW + MAPW, SMALL[:19:2] + SCALV[::2] + DATES[:6:2] + ENUMV[:5] + OBJV[:8] + COLLV[:13], ["dump"], [True], (1, 1), (1, 3)),
    "C22": (PLAINS[:3] + SCALARS[:2] + TIMES[:1] + LITS[:1] + ENUMS + OBJS + UCOLLS + some_unions(), BASIC + ["dictk"], SMALL[:12:2] + COLLV[:4] + OBJV[:3], ["load", "dump"], [True], (1, 1), (1, 2)),
    "C05": (PLAINS + SCALARS + MORES + TIMES + LITS + ENUMS + OBJS + UCOLLS + some_unions(), ["list", "set", "dictk", "opt", "uni1"], SMALL + NUMS[:7] + COLLV + [L(L()), D((("seq", "tuple", ()), I(1)))], ["load", "dump"], [False], (1, 1), (1, 3)),
    "C06": (PLAINS[:3] + [CLS("A"), CLS("B"), CLS("TD"), CLS("NT"), CLS("UL"), CLS("G", INT)], ["list", "opt", "dictv", "dictk", "tuple2", "uni1", "uni3", "G", "set", "vtuple"], [NONE, I(1), S("a"), L(S("a")), D(("a", L()))], ["load", "dump"], [True], (1, 2), (2, 1)),
    "C12": (union_atoms(), ["list", "dictv", "opt", "ann"], SMALL[:4] + OBJV + [D(), L()], ["load", "dump"], [True], (1, 1), (1, 2)),
    "C13": (PLAINS + [SCAL("decimal"), LIST(INT), MAP("dict", STR, INT), CLS("A"), CLS("B"), CLS("EN"), LIT(I(1)), CLS("TD"), ANN(UNION(INT, STR), setting("Union", ("best_match", "type", "", (("n", OPT(INT)), ("l", LIT(NONE, S("a"))), ("s", STR)))))], ["opt", "uni1", "uni2", "uni3", "list"], SMALL + OBJV[:3] + ENUMV[:2], ["load", "dump"], [True, False], (2, 1), (2, 2)),
    "C17": (TIMES + dated((".ISO_8601",)) + dated(("D:%d.%m.%Y", "T:%H:%M", "DT:%Y-%m-%d %H:%M")) + dated(("%Y%m%d", "%H:%M:%S", "SET:JAVA", "D:%Y-%m-%d")) + dated(("DT:%Y-%m-%dT%H:%M:%S%z", "T:%H:%M:%S.%f")), ["list", "opt", "dictk", "tuple2", "G"], DATES + [NONE, I(1), S("")], ["load", "dump"], [True], (1, 2), (2, 1)),
    "C20": (PLAINS[:2] + [SCAL("decimal"), SCAL("date"), ANY, LIT(I(1), S("a")), CLS("EN"), CLS("A"), CLS("TD"), CLS("NT"), CLS("UL"), CLS("UN")] + some_unions()[::3], ["ann", "list", "opt", "dictv", "dictk", "tuple2", "uni1", "uni3", "G", "vtuple"], SMALL[:12] + OBJV[:3] + ENUMV[:2], ["load", "dump"], [True], (1, 1), (2, 1)),
    "C24": (ENUMS + LITS + [LIT(I(0)), LIT(FALSE), LIT(I(1), TRUE), LIT(V("bytes", "6162"), S("ab")), LIT(ENUM("EN", "a"), ENUM("IE", "one"))], ["list", "dictk", "dictv", "opt", "tuple2", "set", "G", "ann"], SMALL + ENUMV + [V("bytes", "6162"), S("ab")], ["load", "dump"], [True, False], (1, 2), (2, 1)),
    "C25": (PLAINS[:2] + [FLOAT, CLS("A"), OPT(INT), CLS("FR"), CLS("UL"), CLS("UB"), CLS("UN"), CLS("UH"), ANY], COLLW + MAPW, SMALL[:4] + SMALL[-6:] + COLLV, ["load", "dump"], [True, False], (1, 1), (1, 2)),
}


PROPS_F1["C26"] = (PLAINS + [ANY] + SCALARS[:2] + TIMES[:1] + LITS[2:] + ENUMS[:1] + OBJS + UCOLLS[:2] + some_unions()[::2], ["list", "dictv", "opt", "tuple2", "G"], SMALL[:17] + SMALL[19:] + [FL(float("inf")), FL(-0.0), I(10**30), S("\u20ac\n"), D(("e", D(("", NONE))))] + OBJV, ["load", "dump"], [True, False], (1, 1), (1, 3))
PROPS_F1["C27"] = (PLAINS + [ANY] + SCALARS[:4] + TIMES[:1] + LITS[1:] + ENUMS + OBJS + UCOLLS + some_unions()[::2], ["list", "opt", "dictv", "tuple2", "set", "uni1", "G"], SMALL[::2] + SCALV[:4:2] + OBJV[:3] + COLLV[:9:2], ["load", "dump"], [True, False], (1, 1), (1, 2))

def das_atoms():
    das = lambda t, *ts: ANN(t, *[setting("DeserializeAs", (u,), p) for p, u in ts])
    return [das(CLS("A"), (1, CLS("B"))), das(CLS("A"), (1, CLS("TD"))), das(CLS("B"), (1, CLS("A"))), das(CLS("TD"), (1, CLS("FR"))), das(CLS("A"), (1, CLS("GG", INT))), das(CLS("G", STR), (1, CLS("G", INT))),
            das(CLS("A"), (0, CLS("FR")), (1, CLS("B"))), das(CLS("A"), (1, CLS("FR")), (1, CLS("B"))), das(INT, (1, CLS("A"))), das(CLS("A"), (1, INT)), das(CLS("A"), (1, CLS("NT"))), das(CLS("NT"), (1, CLS("TD"))),
            das(LIST(CLS("A")), (1, CLS("B"))), das(OPT(CLS("A")), (1, CLS("B"))), das(CLS("UL"), (1, CLS("A"))), das(CLS("EN"), (1, CLS("A"))), das(CLS("FR"), (1, CLS("TO"))), das(UNION(CLS("A"), CLS("FR")), (1, CLS("B"))),
            ANN(CLS("A"), setting("DeserializeAs", (CLS("B"),)), setting("ExtraKeys", (True, "")))]


PROPS_F1["C29"] = (das_atoms(), ["list", "opt", "dictv", "tuple2", "ann", "G", "uni1"], SMALL + OBJV + ENUMV[:2] + [D(("x", I(1)), ("y", S("s"))), D(("k", I(1))), D(("x", I(1)), ("y", NONE), ("zz", I(1))), L(D(("x", I(1)), ("y", NONE))), L(OBJ("B", ("x", I(1)), ("y", NONE), ("z", L())))], ["load", "dump"], [True, False], (1, 1), (1, 3))


def mappers_c27():
    from profiles import BUILTINS

    def made(order, coll, mapping, lax, nodef):
        opts = {"coll": (coll,), "map": (mapping,), "schema": (mapping,) + (("nodef",) if nodef else ()), "plain": ("lax" if lax else "",), "decimal": ("lax" if lax else "",)}
        return [i if len(i) > 1 else (i[0],) + opts[i[0]] for i in order]

    mixed = BUILTINS[:]
    random.Random("c27").shuffle(mixed)
    return [made(BUILTINS, "tuple", "OrderedDict", True, True), made(BUILTINS[::-1], "", "", False, False), made(mixed, "deque", "dict", False, True)]


def part_conv(rep):
    if rep.prop not in PROPS_F1:
        return
    t0 = time.time()
    atoms, wraps, pool, dirs, strict, quick, thorough = PROPS_F1[rep.prop]
    depth, few = quick if rep.tier == "quick" else thorough
    prog = fixed_program()
    fmts = {f for t in atoms if t[0] == "ann" for s in t[2][1] if s[0] == "DateFormat" for f in s[2]}
    precs = {s[2][0] for t in atoms if t[0] == "ann" for s in t[2][1] if s[0] == "Precision"}
    prog_env = prog.env()
    F_ = close_facts(scalars_of([pool, list(prog.decls.values()), I(1), I(2), I(4), S("zz"), S("type"), S("data"), atoms], set()), fmts, precs)
    env = dict(prog_env, F=F_)
    mappers = mappers_c27() if rep.prop == "C27" else [[("json", "")]]
    universe = dict(env=env, atoms=atoms, wraps=wraps, pool=pool, dirs=dirs, strict=strict, mappers=mappers)
    cases, r = explore("MCConv", universe, dict(Depth=depth, Few=few, Emit="TRUE"), (["C05", "C06", rep.prop] if rep.prop in ("C27", "C29") else ["C01", "C02", "C03", "C04", "C05", "C06", "C12", "C13", "C17", "C20", "C24", "C25", "C29"]) + (["C22"] if rep.prop == "C22" or rep.tier == "thorough" else []))
    rep.states += r["distinct"]
    rep.transitions += r["states"]
    rep.part("MCConv: all types and values up to the bound, invariants checked and every case replayed", states=r["distinct"], depth=depth, few=few, cases=len(cases), tlc_s=round(r["wall"], 1))
    w = run.World(prog)
    setup = []
    if rep.prop == "C27":
        for j, items in enumerate(mappers):
            setup.append(dict(op="mapper", m=f"m{j + 1}", s=f"s{j + 1}", json=False))
            setup += [dict(op="register", k=f"m{j + 1}", item=it, first=False) for it in items]
    for op in setup:
        w.run(op)
    w_round = rep.prop == "C04"

    def session(i):
        t, d, on, v, R, rt, mp = cases[i]
        return tup(t), d, on, tup(v), (rt, mp), {k: tup(x) if k != "errs" else [dict(p=tup(e["p"])) for e in x] for k, x in R.items()}

    def one(i):
        t, d, on, v, (rt, mp), R = session(i)
        run.check_unions([t])
        for f in getattr(typing, "_cleanups", ()):
            f()
        with_ = ("none",) if on else ("list", (setting("Strict", (False,)),))
        if w_round and rt:
            op = dict(op="roundtrip", t=t, v=v, m="", json=False)
        else:
            op = dict(op="convert", dir=d, t=t, v=v, m="")
        if rep.prop == "C26":
            op.update(op="text", indent=(None, 2, "\t")[i % 3], sort=i % 2 == 0)
            if d == "dump" and R["st"] == "ok" and not run.is_text(R["v"]):
                raise model.BadProgram("no JSON")
        if rep.prop == "C27":
            op["m"] = f"m{mp}"
        op["with"] = with_
        if not buildable(prog, v):
            raise model.BadProgram("a value that Python cannot build")
        w.run(op)
        O = op["outs"][0] if "outs" in op else op["out"]
        if same(R, O):
            if "outs" not in op:
                return None
            o = op["outs"]
            if len(o) == 3 and o[2]["st"] == "ok" and norm(o[1]["v"]) == norm(v) and norm(o[2]["v"]) == norm(o[0]["v"]):
                return None
        if R["st"] == "nofact" and not O["flags"] and O["st"] in ("ok", "err"):
            return None
        data = run.session_data(dict(prog=prog, ops=setup + [op], prop=rep.prop))
        return data

    diffs, n = replay(one, len(cases))
    if os.environ.get("VERIF_DEBUG"):
        for i, d, why in diffs[:: max(1, len(diffs) // 8)]:
            print("REFERRED", session(i), d["ops"] if d else why)
    rep.traces += n
    rep.count("MCConv: cases replayed", n)
    if cases:
        t, d, on, v, _, R = session(len(cases) // 3)
        rep.sample(dict(case=[t, d, on, v], outcome=R["st"]))
    judge_diffs(rep, "MCConv", diffs, lambda i: str(session(i)[:4])[:300])
    rep.part("replay of MCConv", wall_s=round(time.time() - t0, 1), cases=n, referred=len(diffs))


# -- F2: classes x payloads ------------------------------------------------------------------------------------------------


def schema_program():
    d = {
        "P": dc("P", [F("x", INT), F("y", OPT(INT))]),
        "Q": dc("Q", [F("x", INT, "val", I(3)), F("z", ANN(INT, setting("Alias", ("k", "z"))), "val", I(0))]),
        "R": dc("R", [F("x", INT), F("m", ANN(MAP("dict", STR, INT), setting("Remainder", (True,))))]),
        "N": dc("N", [F("p", ANN(CLS("P"), setting("Flattened", (True,)))), F("w", OPT(INT))]),
        "AL": dc("AL", [F("x", ANN(INT, setting("Alias", ("k", "y"))))]),
        "XK": dc("XK", [F("x", INT)], settings=(setting("ExtraKeys", (True, "rec2")),)),
        "S": dc("S", [F("a", INT)]),
    }
    return d


def field(n, t=INT, dk="no", d=NONE, alias=(), req=None, rem=False, flat=False):
    ss = [setting("Alias", a) for a in ([alias] if alias else [])]
    ss += [setting("Required", (req,))] if req is not None else []
    ss += [setting("Remainder", (True,))] if rem else []
    ss += [setting("Flattened", (True,))] if flat else []
    return {"n": n, "t": ANN(t, *ss) if ss else t, "dk": dk, "d": d, "init": True}


def defaults(n, reqs=(None,), alias=()):
    """a field with every kind of default"""
    return [field(n, t, dk, d, alias, r) for t, dk, d in ((INT, "no", NONE), (INT, "val", I(1)), (OPT(INT), "no", NONE), (OPT(INT), "val", I(1)), (OPT(INT), "val", NONE), (LIST(INT), "fac", L())) for r in reqs]


def aliased(n, other, t=INT, dk="no", d=NONE):
    return [field(n, t, dk, d, al) for al in ((), ("k",), ("k", n), (n, "k"), ("l", "k"), ("k", "l"), (other, "k"))]


def rest(t=INT, dk="no", d=NONE):
    return field("m", MAP("dict", STR, t), dk, d, rem=True)


def flat(n, c):
    return field(n, CLS(c), flat=True)


XK = [setting("ExtraKeys", x) for x in ((True, "rec1"), (True, ""), (False, ""))]
SD = [setting("SerializeDefaults", (x,)) for x in (False, True)]
NONE_ = [[]]
ALLK = ["dc", "nt", "td", "tdp"]
ODD = [NONE, I(1), S("s"), L()]
ONES = [I(1), S("s"), NONE, I(3), L()]


def one_of(*fs):
    return [[f] for f in fs]


def maybe(*fs):
    return [[]] + one_of(*fs)


PROPS_F2 = {
    # property: (kinds, forms by position, class settings, settings of the mapper, keys, values, other values, few)
    "C07": (ALLK, [one_of(*defaults("a", (None, True, False))), one_of(*defaults("b", (None, True, False)))], NONE_, NONE_, ["a", "b"], ONES, 5),
    "C08": (ALLK, [one_of(*aliased("a", "b")), maybe(*aliased("b", "a"), *aliased("b", "c", OPT(INT)), flat("f", "AL"))], NONE_, NONE_, ["b", "l", "a", "k", "y"], [I(1), S("s")], 2),
    "C09": (["dc", "td", "nt"], [one_of(field("a"), field("a", alias=("k", "a")), field("a", OPT(INT)), flat("f", "P"), flat("f", "XK"), flat("f", "R"), field("a", CLS("XK"))), maybe(field("b", INT, "val", I(1)), rest(), rest(ANY), flat("g", "Q"))],
            [[], [XK[0]], [XK[1]], [XK[2]]], [[], [XK[0]], [XK[2]]], ["a", "x", "k", "zz"], [I(1), D(("x", I(1)), ("zz", I(1)))], 2),
    "C10": (["dc"], [maybe(field("a"), field("a", alias=("x",)), field("a", alias=("k", "x")), field("a", OPT(INT), alias=("k",))), one_of(flat("f", "P"), flat("f", "Q"), flat("f", "R"), flat("f", "N"), flat("f", "AL"), rest(), rest(OPT(INT))), maybe(flat("g", "XK"), flat("g", "Q"), flat("g", "R"), rest())],
            NONE_, [[], [SD[0]]], ["a", "x", "y", "k", "w", "zz"], [I(1), NONE], 1),
    "C23": (["dc"], [one_of(*defaults("a", (None, True))), one_of(*defaults("b", alias=("k",))), maybe(flat("f", "Q"), flat("f", "P"), rest(INT, "fac", D()))],
            NONE_, [[], [SD[0]]], ["a", "k", "x", "z"], [I(1), I(0), NONE, TRUE, FL(1.0)], 2),
    "C28": (ALLK, [one_of(*defaults("a", (None, True, False)), *aliased("a", "b"), *defaults("a", (True, False), ("k", "b"))), maybe(*defaults("b", (None, True), ("y",)), flat("f", "P"), flat("f", "Q"), flat("f", "N"), flat("f", "AL"), flat("f", "XK"), rest(), rest(ANY)),
                    maybe(field("x"), flat("g", "Q"), flat("g", "R"), flat("g", "N"))], NONE_, NONE_, ["a"], [I(1), L(), D(), OBJ("P", ("x", I(1)), ("y", NONE))], 1),
    "C04": (ALLK, [one_of(*aliased("a", "b"), *defaults("a")), maybe(field("b"), field("b", OPT(INT)), flat("f", "P"), flat("f", "Q"), flat("f", "R"), flat("f", "N"), rest())],
            NONE_, [[], [SD[0]]], ["a", "b", "k", "x", "y"], [I(1), NONE], 1),
}
F2_MORE = {
    "C28": ([maybe(field("c", alias=("c", "y")), flat("h", "AL"), flat("h", "R"))], 1),
    # thorough: (further positions, few)
    "C07": ([maybe(*defaults("c", alias=("k",)))], 5),
    "C08": ([maybe(*aliased("c", "a"))], 2),
    "C09": ([maybe(field("c", OPT(INT)), flat("h", "AL"))], 2),
    "C10": ([maybe(field("c", alias=("y",)), flat("h", "AL"))], 2),
    "C23": ([maybe(*defaults("c", (None, False)))], 2),
    "C04": ([maybe(flat("g", "XK"), flat("g", "AL"), field("c", INT, "val", I(1), ("l",)))], 2),
}


def said(o):
    """The description of a schema, in no order."""
    if o["st"] == "refused":
        return o["st"]
    key = lambda x: json.dumps(x, sort_keys=True, default=lambda y: sorted(map(repr, y)))
    fields = [dict(f, d=norm(tup(f["d"])), t=tup(f["t"]), aliases=tup(f["aliases"])) for f in o["fields"]]
    return sorted(map(key, fields)), o["cls"], tup(o["ann"]), sorted((n, sorted(map(repr, map(tup, xs)))) for n, xs in o["exp"])


def replay_schemas(rep, family, cases, world):
    """cases: (what the class is like, type, what its schema says)"""

    def one(i):
        x, t, y = cases[i]
        w = world(x)
        op = dict(op="schema", t=tup(t))
        w.run(op)
        if op["out"]["st"] == y["st"] and not op["out"]["flags"] and said(op["out"]) == said(y):
            return None
        return run.session_data(dict(prog=w.prog, ops=[op], prop=rep.prop))

    diffs, n = replay(one, len(cases))
    if os.environ.get("VERIF_DEBUG"):
        for i, d, why in diffs[:: max(1, len(diffs) // 8)]:
            print("REFERRED", cases[i], d["ops"] if d else why)
    rep.count(f"{family}: schemas compared", n)
    rep.traces += n
    judge_diffs(rep, family, diffs, lambda i: repr(cases[i])[:300])


def part_schema(rep):
    if rep.prop not in PROPS_F2:
        return
    kinds, forms, cset, gset, keys, vals, few = PROPS_F2[rep.prop]
    if rep.tier == "thorough":
        more, few = F2_MORE[rep.prop]
        forms = forms + more
    aset = [[], [SD[0]], [SD[1]]] if rep.prop == "C23" else NONE_
    decls = schema_program()
    prog_env = Program(decls, {}).env()
    F_ = close_facts(scalars_of([vals, ODD, I(0), I(1), I(3), S("zz"), [S(k) for k in keys]], set()))
    others = [NONE, I(1), L(), L(D(("a", I(1)))), ("map", "OrderedDict", ((S("a"), I(1)),)), D((I(1), I(1))), OBJ("P", ("x", I(1)), ("y", NONE))]
    universe = dict(env=dict(prog_env, F=F_), forms=forms, kinds=kinds, cset=cset, gset=gset, aset=aset, keys=keys, vals=[vals] * len(keys), odd=ODD, others=others, few=min(few, len(vals)), dirs=["load", "dump"])
    intro = rep.prop == "C28"
    if intro:
        universe["aset"] = aset = [[], [SD[0]], [setting("Alias", ("q",)), SD[1]]]
    cases, r = explore("MCSchema", universe, dict(Emit="TRUE"), ["SaysRequired", "SaysExpanded", "SaysNames"] if intro else ["Load", "Dump", "Round", "Accepts"], spec="ISpec" if intro else "Spec")
    rep.states += r["distinct"]
    rep.transitions += r["states"]
    classes = len({json.dumps(c[0]) for c in cases})
    rep.part("MCSchema: all classes of the given forms and their payloads and instances, invariants checked and every case replayed", states=r["distinct"], classes=classes, cases=len(cases), tlc_s=round(r["wall"], 1))
    cases.sort(key=lambda c: json.dumps(c[0]))
    worlds = {}

    def world(cl):
        key = json.dumps(cl)
        if key not in worlds:
            worlds.clear()
            kind, at, cs, gs, an = cl
            own = [f for p, i in enumerate(at) for f in forms[p][i - 1]]
            own = [F(f["n"], f["t"], f["dk"], f["d"]) for f in own]
            S_ = dc("S", own, settings=tuple(cset[cs - 1])) if kind == "dc" else cls_record("nt" if kind == "nt" else "td", "S", own=tuple(own), total=kind != "tdp")
            prog = Program(dict(decls, S=S_), {})
            worlds[key] = run.World(prog)
        return worlds[key]

    if intro:
        ann = lambda cl: ANN(CLS("S"), *aset[cl[4] - 1]) if aset[cl[4] - 1] else CLS("S")
        replay_schemas(rep, "MCSchema", [(cl, ann(cl), y) for cl, y in cases], world)
        return

    def session(i):
        cl, d, v, R, sound = cases[i]
        return cl, d, tup(v), sound, {k: tup(x) if k != "errs" else [dict(p=tup(e["p"])) for e in x] for k, x in R.items()}

    def one(i):
        cl, d, v, sound, R = session(i)
        w = world(cl)
        t = ANN(CLS("S"), *aset[cl[4] - 1]) if aset[cl[4] - 1] else CLS("S")
        op = dict(op="roundtrip", t=t, v=v, m="", json=False) if sound else dict(op="convert", dir=d, t=t, v=v, m="")
        op["with"] = ("list", tuple(gset[cl[3] - 1])) if gset[cl[3] - 1] else ("none",)
        if not buildable(w.prog, v):
            raise model.BadProgram("a value that Python cannot build")
        w.run(op)
        O = op["outs"][0] if sound else op["out"]
        if same(R, O):
            o = op.get("outs")
            if not sound or len(o) == 3 and o[1]["st"] == o[2]["st"] == "ok" and norm(o[1]["v"]) == norm(v) and norm(o[2]["v"]) == norm(o[0]["v"]):
                return None
        if R["st"] == "nofact" and not O["flags"] and O["st"] in ("ok", "err"):
            return None
        return run.session_data(dict(prog=w.prog, ops=[op], prop=rep.prop))

    diffs, n = replay(one, len(cases))
    if os.environ.get("VERIF_DEBUG"):
        for i, d, why in diffs[:: max(1, len(diffs) // 8)]:
            print("REFERRED", session(i), d["ops"] if d else why)
    rep.count("MCSchema: cases replayed", n)
    rep.traces += n
    judge_diffs(rep, "MCSchema", diffs, lambda i: repr(session(i)[:3])[:300])


# -- F3: histories -----------------------------------------------------------------------------------------------------


def tag_(name, prio=1):
    return setting("Tag", (name,), prio)


def probe(d, t, v, m="", w=("none",), kind="", **kw):
    return dict(op="convert", dir=d, t=t, v=v, m=m, kind=kind, **{"with": w}, **kw)


def _copy(m, of, s):
    return {"op": "copymapper", "m": m, "from": of, "s": s}


def _copys(s, of):
    return {"op": "copysettings", "s": s, "from": of}


def _mapper(m, s, json=True):
    return dict(op="mapper", m=m, s=s, json=json)


def _reg(k, item, first=False, kind="user"):
    return dict(op="register", k=k, item=(kind, item), first=first)


def _glob(s, x):
    return dict(op="addglobal", s=s, x=x)


def _loc(s, key, x):
    return dict(op="addlocal", s=s, key=key, x=x)


def _cond(s, pred, x):
    return dict(op="addcond", s=s, pred=pred, x=x)


def _prov(s, pred, *xs):
    return dict(op="addprov", s=s, pred=pred, xs=xs)


def _deco(c, x):
    return dict(op="decorate", cls=c, x=x)


def hist_c11(full):
    decls = {"B": dc("B", [F("x", INT)]), "D": dc("D", [F("y", STR, "val", S("y"))], [CLS("B")], settings=(tag_("cd"),))}
    convs = {"probe": conv("probe")}
    prelude = [dict(op="settings", s="s1", parent="", glob=(tag_("g0"),)), dict(op="settings", s="s2", parent="s1", glob=()), _mapper("m1", "s1", False), _mapper("m2", "s2", False),
               _reg("m1", "probe"), _reg("m2", "probe")]
    ops = [_glob("s1", tag_("g1", 1)), _glob("s1", tag_("g2", 2)), _loc("s1", "D", tag_("l1", 1)), _loc("s1", "B", tag_("l2", 2)), _cond("s1", ("always",), tag_("c1")), _prov("s1", ("typeIs", "D"), tag_("p0", 0), tag_("p1", 1), tag_("p2", 2)),
           _deco("B", tag_("d1")), _deco("D", tag_("d2", 2)), _glob("s2", tag_("G1", 1)), _loc("s2", "D", tag_("L1", 1)), _loc("s2", "int", tag_("L3", 3)), _copys("s3", "s1")]
    if full:
        ops += [_cond("s2", ("dirIs", "load"), tag_("C2", 2)), _glob("s1", tag_("g3", 0)), _loc("s1", "D", tag_("l3", 1)), _copys("s4", "s2"), _glob("s3", tag_("h1", 1))]
    v = I(1)
    probes = [probe(d, t, v, m, w, "tag") for m in ("m1", "m2") for d, t, w in (("load", CLS("B"), ("none",)), ("dump", CLS("D"), ("none",)), ("load", ANN(CLS("D"), tag_("a1", 1)), ("none",)), ("load", INT, ("list", (tag_("w0", 0), tag_("w1", 1)))), ("load", CLS("D"), ("list", (tag_("w2", 2),))))]
    probes += [probe("load", CLS("D"), v, "m1", ("prov", s), "tag") for s in ("s2", "s3")]
    return decls, convs, prelude, ops, probes, 1


def hist_c21(full):
    decls = {"A": dc("A", [F("x", INT), F("y", STR, "val", S("d"))])}
    convs = {"cconst": conv("const", when="str"), "ctag": conv("tag", when="int"), "cA": conv("const", when="A")}
    prelude = [_mapper("m1", "s1")]
    off = setting("Strict", (False,))
    xk = setting("ExtraKeys", (True, ""))
    ops = [_copy("m2", "m1", "s2"), _copy("m3", "m2", "s3"), _mapper("m4", "s1"), dict(op="settings", s="s5", parent="s1", glob=(xk,)), _copys("s4", "s1"),
           _glob("s1", off), _glob("s2", off), _loc("s1", "A", xk), _loc("s2", "A", xk), _cond("s1", ("typeIs", "int"), off), _prov("s2", ("always",), xk, off),
           _reg("m1", "cconst", True), _reg("m2", "ctag", True), dict(op="module", k="k1"), _reg("m1", "k1", True, "modref"), _reg("k1", "cA")]
    if full:
        ops += [_reg("m3", "cA", True), _reg("m4", "ctag", True), _glob("s5", off), _loc("s4", "int", off)]
    probes = [probe(d, t, v, m) for m in ("m1", "m2", "m3", "m4", "") for d, t, v in (("load", CLS("A"), D(("x", S("7")), ("zz", I(1)))), ("load", INT, S("7")), ("dump", STR, S("a")))]
    probes += [probe("load", CLS("A"), D(("x", S("7")), ("zz", I(1))), m, ("prov", s)) for s in ("s4", "s5") for m in ("", "m2")]
    return decls, convs, prelude, ops, probes, 1


def hist_c14(full):
    decls = {"A": dc("A", [F("x", INT)])}
    convs = {"cconst": conv("const", when="int", log=True), "ctag": conv("tag", log=True), "cdecl": conv("decline", log=True), "cfail": conv("fail", log=True, when="int"), "craise": conv("raise", when="str", log=True),
             "cdel": conv("deleg", when="A", log=True, **{"as": LIST(INT)}), "cfail2": conv("fail", when="int", dir="load")}
    prelude = [_mapper("m1", "s1", False), _mapper("m2", "s2", True), dict(op="module", k="k1"), dict(op="module", k="k2")]
    ops = [_reg("m1", "cconst"), _reg("m1", "cfail", True), _reg("m1", "cdel", True), _reg("m1", "", False, "json"), _reg("m1", "k1", False, "modref"), _reg("k1", "cdecl", True), _reg("k1", "cfail2"), _reg("k1", "k2", True, "modref"), _reg("k2", "ctag", True), _reg("k2", "craise", True),
           _reg("m2", "k1", True, "modref"), _reg("m2", "cdel", True), _reg("m2", "ctag"), _copy("m3", "m1", "s3")]
    if full:
        ops += [_reg("m3", "ctag", True), _reg("m2", "k2", False, "modref"), _reg("k1", "", False, "json"), _reg("k2", "cfail")]
    probes = [probe(d, t, v, m) for m in ("m1", "m2", "m3") for d, t, v in (("load", INT, I(1)), ("dump", LIST(STR), L(S("a"))), ("load", CLS("A"), L(I(1), S("b"))), ("load", INT, S("x")))]
    return decls, convs, prelude, ops, probes, 1


def hist_c15(full):
    jc = lambda i: setting("JsonConverter", (i,))
    decls = {"A": dc("A", [F("x", INT)]), "B": dc("B", [F("y", STR, "val", S("y"))], [CLS("A")]), "E": dc("E", [F("a", CLS("A")), F("n", ANN(INT, jc("ctag")), "val", I(0))])}
    convs = {"cconst": conv("const", log=True), "ctag": conv("tag", log=True), "cdecl": conv("decline", log=True), "cfail": conv("fail", log=True, dir="load"), "cecho": conv("echo", log=True)}
    prelude = [_mapper("m1", "s1"), dict(op="settings", s="s2", parent="s1", glob=()), _mapper("m2", "s2")]
    ops = [_deco("A", jc("cconst")), _deco("A", jc("cdecl")), _deco("B", jc("ctag")), _deco("E", jc("cdecl")), _loc("s1", "A", jc("cfail")), _loc("s1", "int", jc("cdecl")), _cond("s1", ("keyIs", "n"), jc("cconst")), _glob("s1", jc("cdecl")), _loc("s2", "B", jc("cecho")),
           _glob("s2", jc("ctag")), _reg("m1", "cecho", True), _reg("m2", "cfail", True)]
    if full:
        ops += [_loc("s2", "list", jc("ctag")), _prov("s1", ("dirIs", "dump"), jc("cconst"), jc("cecho")), _reg("m1", "cconst")]
    probes = [probe(d, t, v, m) for m in ("m1", "m2") for d, t, v in (("load", CLS("A"), D(("x", I(1)))), ("dump", CLS("B"), OBJ("B", ("x", I(1)), ("y", S("y")))), ("load", CLS("E"), D(("a", D(("x", I(1)))), ("n", I(2)))), ("load", LIST(CLS("B")), L(D(("x", I(1))))), ("load", ANN(INT, jc("ctag")), I(3)), ("dump", UNION(INT, CLS("A")), I(3)))]
    return decls, convs, prelude, ops, probes, 1


def hist_c22(full):
    T = VAR("T")
    fl = setting("Flattened", (True,))
    decls = {"P": dc("P", [F("x", INT), F("y", LIST(INT), "fac", L())]), "SX": dc("SX", [F("p", ANN(CLS("P"), fl)), F("m", ANN(MAP("dict", STR, LIST(INT)), setting("Remainder", (True,))))]), "G": dc("G", [F("v", T)], params=("T",)),
             "GI": dc("GI", [F("w", OPT(T))], [CLS("G", LIST(T))], params=("T",)), "TD": cls_record("td", "TD", own=(F("p", INT), F("q", OPT(STR)))), "NT": cls_record("nt", "NT", own=(F("p", INT), F("q", STR, "val", S("d")))),
             "EN": cls_record("enum", "EN", members=(dict(n="a", aliases=("A1",), val=I(1)), dict(n="b", aliases=(), val=I(2)))), "XK": dc("XK", [F("x", ANN(INT, setting("Alias", ("k", "x"))))], settings=(setting("ExtraKeys", (True, "rec1")),))}
    un = setting("Union", ("flat", "type", "", (("p", CLS("P")), ("xk", CLS("XK")))))
    UN = ANN(UNION(CLS("P"), CLS("XK")), un)
    off = ("list", (setting("Strict", (False,)),))
    sd = ("list", (setting("SerializeDefaults", (False,)),))
    probes = [probe("load", CLS("P"), D(("x", I(1)))), probe("load", CLS("P"), D(("x", S("1")))), probe("load", CLS("P"), D(("x", S("1"))), w=off), probe("dump", CLS("P"), OBJ("P", ("x", I(1)), ("y", L())), w=sd), probe("load", CLS("SX"), D(("x", I(1)), ("zz", L(I(2))))),
              probe("dump", CLS("SX"), OBJ("SX", ("p", OBJ("P", ("x", I(1)), ("y", L(I(1))))), ("m", D(("k", L(I(1))))))), probe("load", CLS("GI", INT), D(("v", L(I(1))), ("w", NONE))), probe("load", CLS("GI", STR), D(("v", L(S("a"))))), probe("load", UN, D(("type", S("xk")), ("k", I(1)), ("zz", I(2)))),
              probe("dump", UN, OBJ("P", ("x", I(1)), ("y", L()))), probe("load", CLS("TD"), D(("p", I(1)))), probe("load", LIST(CLS("EN")), L(S("A1"), S("b"))), probe("dump", CLS("XK"), OBJ("XK", ("x", I(1))))]
    if full:
        probes += [probe("load", CLS("XK"), D(("x", I(1)), ("a", I(2)))), probe("load", CLS("NT"), L(I(1))), probe("load", UN, D(("type", S("p")), ("x", S("no")))), probe("load", OPT(CLS("P")), D(("x", I(1)), ("y", L(NONE))))]
    ops = [dict(op="probe", i=i + 1) for i in range(len(probes))]
    return decls, {}, [], ops, probes, 2


HIST = {"C11": hist_c11, "C14": hist_c14, "C15": hist_c15, "C21": hist_c21, "C22": hist_c22}
DEPTH = {"C11": (3, 4), "C14": (3, 4), "C15": (3, 4), "C21": (4, 5), "C22": (3, 4)}


def part_hist(rep):
    if rep.prop not in HIST:
        return
    full = rep.tier == "thorough"
    decls, convs, prelude, ops, probes, times = HIST[rep.prop](full)
    depth = DEPTH[rep.prop][full]
    prog_env = Program(decls, convs).env()
    F_ = close_facts(scalars_of([prelude, ops, probes, list(decls.values()), I(0)], set()))
    universe = dict(env=dict(prog_env, F=F_), prelude=prelude, ops=ops, probes=probes)
    cases, r = explore("MCHist", universe, dict(Depth=depth, Times=times, Emit="TRUE"), ["Effective", "FirstWins", "Order"], ["Local", "CopyAlike"], timeout=3000)
    rep.states += r["distinct"]
    rep.transitions += r["states"]
    table, inner = {}, set()
    for hist, outs in sorted(cases, key=lambda c: len(c[0])):
        hist = tuple(hist)
        if hist:
            inner.add(hist[:-1])
            before = table[hist[:-1]]
            outs = [b if o == 0 else o for o, b in zip(outs, before)]
        table[hist] = outs
    leaves = sorted(h for h in table if h not in inner)
    rep.part("MCHist: all histories up to the bound, invariants checked and every history replayed", states=r["distinct"], depth=depth, operations=len(ops), probes=len(probes), histories=len(table), replayed=len(leaves), tlc_s=round(r["wall"], 1))
    alone = all(o["op"] == "probe" for o in ops)
    ignore = ("shared",) if rep.prop in ("C14", "C15") else ()      # converters of the session return what they get

    def expected(o):
        return {k: tup(x) if k != "errs" else [dict(p=tup(e["p"])) for e in x] for k, x in o.items()}

    def one(i):
        h = leaves[i]
        prog = Program(decls, convs)
        w = run.World(prog)
        done, ok, n = [], True, 0

        def do(op):
            op = {k: v for k, v in op.items() if k != "kind"}
            w.run(op)
            done.append(op)
            return op

        def look(k, which):
            nonlocal ok, n
            outs = table[h[:k]]
            for j in which:
                if outs[j]["st"] != "dead":
                    op = do(probes[j])
                    n += 1
                    R = expected(outs[j])
                    if os.environ.get("VERIF_DEBUG") and not same(R, op["out"], ignore):
                        print("DIFF", h[:k], {a: (b, op["out"].get(a)) for a, b in R.items() if b != op["out"].get(a)})
                    if not same(R, op["out"], ignore) and not (R["st"] == "nofact" and not op["out"]["flags"] and op["out"]["st"] in ("ok", "err")):
                        ok = False

        for op in prelude:
            do(op)
        for k, x in enumerate(h):
            op = ops[x - 1]
            if op["op"] == "probe":
                look(k, [op["i"] - 1])
            else:
                look(k, [j for j in range(len(probes)) if (j + i + k) % 3 == 0])
                do(op)
        if not alone:
            look(len(h), range(len(probes)))
        prog.close()
        return None if ok else run.session_data(dict(prog=prog, ops=done, prop=rep.prop))

    diffs, n = replay(one, len(leaves), chunk=50)
    if os.environ.get("VERIF_DEBUG"):
        for i, d, why in diffs[:: max(1, len(diffs) // 8)]:
            print("REFERRED", leaves[i], why, [o["out"] for o in d["ops"] if "out" in o] if d else "")
    rep.traces += n
    rep.count("MCHist: histories replayed", n)
    judge_diffs(rep, "MCHist", diffs, lambda i: f"history {leaves[i]} of {rep.prop}")


# -- F4: class hierarchies -----------------------------------------------------------------------------------------------


def forms_c16(full):
    T = VAR("T")
    fs = [[], [F("a", T)], [F("a", INT)], [F("b", LIST(T))], [F("a", STR, "val", S("d"))]]
    if full:
        fs += [[F("b", INT), F("a", LIST(T))], [F("e", INT, "val", I(0), False)], [F("a", OPT(T))]]
    return fs


def part_class(rep):
    if rep.prop not in ("C16", "C28"):
        return
    intro = rep.prop == "C28"
    full = rep.tier == "thorough"
    configs = [(["dc", "none"], forms_c16(full), 3, True), (["td", "tdp"], [[], [F("a", INT)], [F("a", STR), F("b", INT)], [F("a", OPT(INT))]], 3, True)]
    if full:
        configs.append((["dc"], forms_c16(False)[:4], 4, True))
        configs.append((["dc", "none"], forms_c16(False), 4, False))
    for kinds, forms, n, pairs in configs:
        generic = ["'var'" in repr(f) for f in forms]
        env = Program({k: dc(k, []) for k in ("K1", "K2", "K3", "K4")}, {}).env()
        F_ = close_facts(scalars_of([I(0), I(1), S("s"), S("d"), S("a"), S("b"), S("e")], set()))
        universe = dict(env=dict(env, F=F_), forms=[[{k: f[k] for k in ("n", "t", "dk", "d", "init")} for f in fs] for fs in forms], generic=generic, kinds=kinds, pairs=pairs)
        cases, r = explore("MCClass", universe, dict(N=n, Emit="TRUE"), ["MroSound", "SaysGround"] if intro else ["MroSound", "Fields", "Sound", "Accepted"], spec="ISpec" if intro else "Spec")
        rep.states += r["distinct"]
        rep.transitions += r["states"]
        cases.sort(key=lambda c: json.dumps(c[0]))
        rep.part("MCClass: all hierarchies of the given forms, invariants checked and every case replayed", states=r["distinct"], classes=n, kinds=kinds, hierarchies=len({json.dumps(c[0]) for c in cases}), cases=len(cases), tlc_s=round(r["wall"], 1))
        worlds = {}

        def world(hs):
            key = json.dumps(hs)
            if key not in worlds:
                worlds.clear()
                decls = {}
                for k, x in enumerate(hs):
                    i = f"K{k + 1}"
                    bases = tuple(CLS(f"K{b[0]}", *tup(b[1])) for b in x["bases"])
                    own = tuple(F(**{k: v for k, v in f.items()}) for f in forms[x["own"] - 1])
                    if x["kind"] in ("td", "tdp"):
                        decls[i] = cls_record("td", i, own=own, bases=bases, total=x["kind"] == "td")
                    else:
                        decls[i] = dc(i, own, bases, ("T",) if x["gen"] else (), deco="none" if x["kind"] == "none" else "std")
                worlds[key] = run.World(Program(decls, {}))
            return worlds[key]

        if intro:
            replay_schemas(rep, "MCClass", cases, world)
            continue

        def session(i):
            hs, t, v, R = cases[i]
            return hs, tup(t), tup(v), {k: tup(x) if k != "errs" else [dict(p=tup(e["p"])) for e in x] for k, x in R.items()}

        def one(i):
            hs, t, v, R = session(i)
            w = world(hs)
            op = dict(op="convert", dir="load", t=t, v=v, m="", **{"with": ("none",)})
            w.run(op)
            if same(R, op["out"]):
                return None
            return run.session_data(dict(prog=w.prog, ops=[op], prop=rep.prop))

        diffs, k = replay(one, len(cases))
        if os.environ.get("VERIF_DEBUG"):
            for i, d, why in diffs[:: max(1, len(diffs) // 8)]:
                print("REFERRED", session(i), d["ops"] if d else why)
        rep.traces += k
        rep.count("MCClass: cases replayed", k)
        judge_diffs(rep, "MCClass", diffs, lambda i: repr(session(i)[:3])[:400])

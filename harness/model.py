"""Python side of the model: builds real classes, settings, converters and values from the descriptors that the TLA+
specification works on (types, values, settings and class declarations as nested tuples), and projects what the code
produces back onto them."""

import base64
import collections
import dataclasses
import datetime
import decimal
import enum
import itertools
import pathlib
import sys
import threading
import types
import typing
import uuid
from fractions import Fraction

import typing_extensions
from nr.date import date_format, datetime_format, duration, time_format
from nr.date.format_sets import ISO_8601, JAVA_OFFSET_DATETIME

import databind.core.dataclasses as dbdc
import databind.core.settings as ds
from databind.core.context import Context, Direction
from databind.core.converter import ConversionError, Converter, DelegateToClassmethodConverter, Module
from databind.core.schema import convert_to_schema
from databind.json.settings import JsonConverter
from typeapi import AnnotatedTypeHint, ClassTypeHint, TypeHint

# ---------------------------------------------------------------------------------------------------------------------
# terms

INT, STR, FLOAT, BOOL, BYTES = (("plain", n, ()) for n in ("int", "str", "float", "bool", "bytes"))
ANY = ("any", "Any", ())
OBJECT = ("any", "object", ())
NONET = ("nonetype", "", ())


def SCAL(n):
    return ("scal", n, ())


def COLL(ctor, *a):
    return ("coll", ctor, tuple(a))


def LIST(t):
    return COLL("list", t)


def TUP(*ts):
    return ("tuple", "", tuple(ts))


def VTUP(t):
    return ("vtuple", "", (t,))


def MAP(ctor, k, v):
    return ("map", ctor, (k, v))


def UNION(*ts):
    return ("union", "", tuple(ts))


def OPT(t):
    return ("union", "", (t, NONET))


def LIT(*vs):
    return ("lit", "", tuple(vs))


def CLS(i, *a):
    return ("cls", i, tuple(a))


def VAR(n):
    return ("var", n, ())


def un(t):
    return t[2][0] if t[0] == "ann" else t


def ANN(t, *ss):
    """Annotated[t, *ss]; nested annotations are flattened like Python does."""
    if t[0] == "ann":
        return ("ann", "", (t[2][0], tuple(t[2][1]) + tuple(ss)))
    return ("ann", "", (t, tuple(ss)))


def V(tag, tok):
    return (tag, tok, ())


NONE = V("none", "")
TRUE, FALSE = V("bool", "1"), V("bool", "0")


def S(s):
    return V("str", s)


def I(n):
    return V("int", str(n))


def FL(x):
    return V("float", float_tok(float(x)))


def L(*xs):
    return ("seq", "list", tuple(xs))


def D(*ps):
    return ("map", "dict", tuple((S(k) if isinstance(k, str) else k, v) for k, v in ps))


def OBJ(i, *ps):
    return ("obj", i, tuple(ps))


def ENUM(i, m):
    return ("enum", i, (S(m),))


def float_tok(x):
    if x != x:
        return "nan"
    if x in (float("inf"), float("-inf")):
        return "inf" if x > 0 else "-inf"
    if x == 0 and str(x)[0] == "-":
        return "-0"
    return str(Fraction(x))


def setting(kind, payload, prio=1):
    return (kind, prio, tuple(payload))


# a class declaration
def dc(name, own=(), bases=(), params=(), **kw):
    """own: fields F(...); bases: cls types (other bases are implied)"""
    return cls_record("dc", name, own=own, bases=bases, params=params, **kw)


def F(n, t, dk="no", d=NONE, init=True, **kw):
    r = {"n": n, "t": t, "dk": dk, "d": d, "init": init}
    r.update(kw)
    return r


def cls_record(kind, name, **kw):
    r = dict(
        kind=kind, name=name, own=(), bases=(), params=(), settings=(), mro=(), total=True, members=(), check=(),
        ctor="", mod=0, deco="std", methods=False, frozen=False, plainbase=False,
    )
    r.update(kw)
    return r


def conv(kind, **kw):
    r = dict(kind=kind, when="", dir="", log=False, ser="", des="", styp=(), cls="", **{"as": ANY})
    r.update(kw)
    return r


# ---------------------------------------------------------------------------------------------------------------------
# settings used by the harness only


class Tag(ds.ClassDecoratorSetting):
    """A setting without a meaning of its own, to observe which setting is in effect."""

    def __init__(self, val, priority=ds.Priority.NORMAL):
        self.val = val
        self.priority = priority


class UserError(Exception):
    """Raised by user code of the model."""


COLLS = {
    "list": typing.List, "set": typing.Set, "frozenset": typing.FrozenSet, "deque": typing.Deque,
    "Sequence": typing.Sequence, "Collection": typing.Collection, "MutableSequence": typing.MutableSequence,
    "Set": typing.AbstractSet, "MutableSet": typing.MutableSet,
    "dict": typing.Dict, "OrderedDict": typing.OrderedDict, "defaultdict": typing.DefaultDict,
    "Mapping": typing.Mapping, "MutableMapping": typing.MutableMapping,
}
COLL_SRC = {k: "typing." + (v._name or k) for k, v in COLLS.items()}
BUILTIN585 = {"list", "set", "frozenset", "dict"}


class MyUUID(uuid.UUID):
    pass


class MyDecimal(decimal.Decimal):
    pass


class MyPath(pathlib.PosixPath):
    pass


class MyDuration(duration):
    pass


SCALS = {
    "decimal": decimal.Decimal, "uuid": uuid.UUID, "path": pathlib.Path, "purepath": pathlib.PurePath,
    "duration": duration, "date": datetime.date, "time": datetime.time, "datetime": datetime.datetime,
    "myuuid": MyUUID, "mydecimal": MyDecimal, "mypath": MyPath, "winpath": pathlib.PureWindowsPath, "myduration": MyDuration,
}
SCAL_SRC = {
    "decimal": "decimal.Decimal", "uuid": "uuid.UUID", "path": "pathlib.Path", "purepath": "pathlib.PurePath",
    "duration": "duration", "date": "datetime.date", "time": "datetime.time", "datetime": "datetime.datetime",
    "myuuid": "MyUUID", "mydecimal": "MyDecimal", "mypath": "MyPath", "winpath": "pathlib.PureWindowsPath", "myduration": "MyDuration",
}
BUILTIN_CLS = {
    "list": list, "tuple": tuple, "deque": collections.deque, "set": set, "frozenset": frozenset, "dict": dict,
    "OrderedDict": collections.OrderedDict, "defaultdict": collections.defaultdict,
    "UserDict": collections.UserDict, "mappingproxy": types.MappingProxyType,
}
MAP_KINDS = ("dict", "OrderedDict", "defaultdict", "UserDict", "mappingproxy")
PLAIN = {"int": int, "str": str, "float": float, "bool": bool, "bytes": bytes}

_in_use = set()  # numbers of the programs there are: the modules of a program that is closed give their names to others


def mk_format(f):
    if f.startswith("D:"):
        return date_format.compile(f[2:])
    if f.startswith("T:"):
        return time_format.compile(f[2:])
    if f.startswith("DT:"):
        return datetime_format.compile(f[3:])
    if f == "SET:ISO":
        return ISO_8601
    if f == "SET:JAVA":
        return JAVA_OFFSET_DATETIME
    return f


# what the representation of a mapping key may refer to
KEY_NAMES = {"UUID": uuid.UUID, "Decimal": decimal.Decimal, "datetime": datetime, "PosixPath": pathlib.PosixPath, "PurePosixPath": pathlib.PurePosixPath, "PureWindowsPath": pathlib.PureWindowsPath, "MyUUID": MyUUID, "MyDecimal": MyDecimal, "MyPath": MyPath,
             "inf": float("inf"), "nan": float("nan"), "frozenset": frozenset}


class BadProgram(Exception):
    """The standard library refuses a declaration that was generated."""


class PerThread(threading.local):
    """A list that every thread has its own of."""

    def __init__(self):
        self.items = []

    def append(self, x):
        self.items.append(x)

    def clear(self):
        self.items = []

    def __iter__(self):
        return iter(self.items)

    def __getitem__(self, k):
        return self.items[k]


class Program:
    """A set of class declarations and custom converters, built as real Python code.

    cls: {id: record}, convs: {id: record}. Classes are created in the order given, in one or more modules."""

    def __init__(self, cls=None, convs=None, future=(), quote=(), pep585=False, namesakes=False):
        self.decls = dict(cls or {})
        self.convs = dict(convs or {})
        self.future = set(future)  # modules with `from __future__ import annotations`
        self.quote = set(quote)  # (class, field) to be written as a string
        self.pep585 = pep585
        self.namesakes = namesakes
        self.log = PerThread()
        self.gate = None  # called at every call of user code that is logged
        self.freshness = []
        self.settings_objs = {}
        self._setting_desc = {}
        self._keep = []
        self.py = {}
        self.src = {}
        self.exc_objs = PerThread()
        for f in getattr(typing, "_cleanups", ()):
            f()
        n = next(k for k in itertools.count() if k not in _in_use)
        _in_use.add(n)
        self.number = n
        self.modules = []
        self.prefix = f"vprog_{n}"
        for k in range(1 + max([r["mod"] for r in self.decls.values()] or [0])):
            m = types.ModuleType(f"{self.prefix}_m{k}")
            sys.modules[m.__name__] = m
            self.modules.append(m)
        self.defined = set()
        self.tables = []
        self.conv_objs = {}
        self._build()

    def close(self):
        for m in self.modules:
            sys.modules.pop(m.__name__, None)
        _in_use.discard(self.number)

    # -- source ------------------------------------------------------------------------------------------------------

    def _idx(self, desc):
        self.tables.append(desc)
        return len(self.tables) - 1

    def type_src(self, t, mod, quote_classes=False):
        tag, name, args = t
        rec = lambda x: self.type_src(x, mod, quote_classes)
        if tag == "plain":
            return name
        if tag == "scal":
            return SCAL_SRC[name]
        if tag == "any":
            return "object" if name == "object" else "typing.Any"
        if tag == "nonetype":
            return "None"
        if tag in ("coll", "map"):
            if not args:
                return name if name in BUILTIN585 else COLL_SRC[name]
            src = name if self.pep585 and name in BUILTIN585 else COLL_SRC[name]
            return f"{src}[{', '.join(map(rec, args))}]"
        if tag == "vtuple":
            return f"typing.Tuple[{rec(args[0])}, ...]"
        if tag == "tuple":
            return f"typing.Tuple[{', '.join(map(rec, args)) or '()'}]"
        if tag == "union":
            return f"typing.Union[{', '.join(map(rec, args))}]"
        if tag == "lit":
            return f"typing.Literal[{', '.join(repr(self.value(v)) for v in args)}]"
        if tag == "var":
            return name
        if tag == "ann":
            return f"typing.Annotated[{', '.join([rec(args[0])] + [f'S({self._idx(s)})' for s in args[1]])}]"
        if tag == "cls":
            r = self.decls[name]
            ref = r["name"] if r["mod"] == mod else f"m{r['mod']}.{r['name']}"
            if args:
                ref += f"[{', '.join(map(rec, args))}]"
            if quote_classes and name not in self.defined:
                return repr(ref)
            return ref
        raise ValueError(t)

    def uses_undefined(self, t):
        if t[0] == "cls" and t[1] not in self.defined:
            return True
        if t[0] == "ann":
            return self.uses_undefined(t[2][0])
        if t[0] == "lit":
            return False
        return any(self.uses_undefined(a) for a in t[2])

    def _build(self):
        for k, m in enumerate(self.modules):
            g = m.__dict__
            g.update(
                typing=typing, enum=enum, dataclasses=dataclasses, dbdc=dbdc, decimal=decimal, datetime=datetime,
                uuid=uuid, pathlib=pathlib, duration=duration, MyUUID=MyUUID, MyDecimal=MyDecimal, MyPath=MyPath, MyDuration=MyDuration, S=self.setting_by_index, CHECK=self._check,
                FACTORY=self._factory, VALUE=self._value_by_index, DES=self._des, DES1=self._des_first,
            )
            for j, o in enumerate(self.modules):
                g[f"m{j}"] = o
        for i, r in self.decls.items():
            self._define(i, r)
        if self.namesakes:
            # All classes of a kind have the same qualified name, as classes have that a function creates.  (Not those
            # that may be keys of a mapping: the path of an error shows a key as repr() does.)
            for i, r in self.decls.items():
                if r["kind"] in ("enum", "ienum", "td") or r["kind"] == "dc" and not r["frozen"] and self.py[i].__hash__ is None:
                    self.py[i].__qualname__ = "make.<locals>.Class"

    def _define(self, i, r):
        mod = r["mod"]
        g = self.modules[mod].__dict__
        lines = []
        if mod in self.future:
            lines.append("from __future__ import annotations")
        for p in r["params"]:
            if p not in g:
                g[p] = typing.TypeVar(p)
        kind, name = r["kind"], r["name"]
        # typeapi knows no type parameters of a class that has them from a builtin alias only: class A(list[T]).
        pep585, self.pep585 = self.pep585, False
        bases = [self.type_src(b, mod) for b in r["bases"]]
        self.pep585 = pep585
        vars_of_bases = [a[1] for b in r["bases"] for a in b[2] if a[0] == "var"]
        if r["params"] and (r.get("generic", True) or not set(r["params"]) <= set(vars_of_bases)):
            bases.append(f"typing.Generic[{', '.join(r['params'])}]")
        for s in r["settings"]:
            # Decorators are applied from the bottom up; the settings are listed in the order of application.
            pass
        decos = [f"@S({self._idx(s)})" for s in reversed(r["settings"])]
        deco = r.get("twin", "std") if r["deco"] == "pc" else r["deco"]
        if kind == "dc" and deco != "none":
            opts = ", frozen=True" if r["frozen"] else ""
            decos.append(f"@{'dbdc' if deco == 'db' else 'dataclasses'}.dataclass({opts[2:]})")
        body = []
        if kind in ("dc", "nt", "td"):
            for f in r["own"]:
                direct = self.type_src(f["t"], mod, quote_classes=True)
                if (i, f["n"]) in self.quote:
                    ann = repr(self.type_src(f["t"], mod))
                elif self.uses_undefined(f["t"]):
                    # A forward reference, either as a whole or nested in a subscript.
                    nestable = un(f["t"])[0] in ("coll", "map", "union", "vtuple", "tuple") and f["t"][0] != "ann"
                    ann = direct if nestable and (hash_str(i + f["n"]) % 2) and not self.pep585 else repr(self.type_src(f["t"], mod))
                else:
                    ann = direct
                if mod in self.future and ann[:1] in "'\"":
                    ann = eval(ann)
                default = ""
                if kind == "dc":
                    fld = "dbdc.field" if deco == "db" else "dataclasses.field"
                    init = "" if f["init"] else ", init=False"
                    if f.get("implicit"):
                        pass
                    elif f["dk"] == "val":
                        default = f" = {fld}(default=VALUE({self._idx(f['d'])}){init})"
                    elif f["dk"] == "fac":
                        default = f" = {fld}(default_factory=FACTORY({self._idx(f['d'])}){init})"
                    elif init:
                        default = f" = {fld}(init=False)"
                elif kind in ("nt", "td") and f["dk"] == "val":
                    default = f" = VALUE({self._idx(f['d'])})"
                body.append(f"{f['n']}: {ann}{default}")
            if kind == "dc" and r["check"]:
                body.append(f"def __post_init__(self): CHECK(self, {i!r}, {r['check'][0]!r}, VALUE({self._idx(r['check'][1])}))")
            if kind == "dc" and r["methods"]:
                body.append("def ser_first(self): return getattr(self, dataclasses.fields(self)[0].name)")
                body.append("def ser_list(self): return [getattr(self, f.name) for f in dataclasses.fields(self)]")
                body.append("@classmethod\n    def des_first(cls, v): return DES1(cls, v)")
                body.append(f"@classmethod\n    def des_list(cls, v): return DES(cls, {i!r}, v)")
        if kind == "nt":
            bases = ["typing.NamedTuple"]
        if kind == "td":
            bases = bases or ["typing.TypedDict"]
            if not r["total"]:
                bases.append("total=False")
        if kind in ("enum", "ienum"):
            bases = ["enum.Enum" if kind == "enum" else "enum.IntEnum"]
            for m in r["members"]:
                ann = f": typing.Annotated[int, S({self._idx(setting('Alias', m['aliases']))})]" if m["aliases"] else ""
                body.append(f"{m['n']}{ann} = {self.value(m['val'])!r}")
            # what an enum has beside its members
            body += ["def describe(self):", "    return self.name", "@property", "def label(self):", "    return self.name"]
            body += ["@classmethod", "def first(cls):", "    return next(iter(cls))"]
        head = f"class {name}({', '.join(bases)}):" if bases else f"class {name}:"
        src = "\n".join(lines + decos + [head] + ["    " + b for b in body or ["pass"]]) + "\n"
        self.src[i] = src
        try:
            exec(compile(src, f"<{self.prefix}:{i}>", "exec", dont_inherit=True), g)
        except TypeError as exc:
            if deco == "std" and "default argument" in str(exc):
                raise BadProgram(str(exc))
            raise
        if r["deco"] == "pc":
            g[name] = plain_class(g[name])
        py = g[name]
        self.py[i] = py
        self.defined.add(i)
        if kind not in ("td", "nt"):
            r["mro"] = tuple(
                j for c in py.__mro__ for j, p in self.py.items() if p is c
            )
        else:
            r["mro"] = (i,)

    def _check(self, obj, i, field, bad):
        if getattr(obj, field) == bad:
            exc = UserError(f"check:{i}")
            self.exc_objs.append(exc)
            raise exc

    def _des(self, cls, i, v):
        n = len(dataclasses.fields(cls))
        if type(v) is not list or len(v) != n:
            exc = UserError(f"des:{self.cls_id(cls)}")
            self.exc_objs.append(exc)
            raise exc
        return cls(*v)

    def _des_first(self, cls, v):
        for f in dataclasses.fields(cls)[1:]:
            if f.init and f.default is dataclasses.MISSING and f.default_factory is dataclasses.MISSING:
                exc = UserError(f"des:{self.cls_id(cls)}")
                self.exc_objs.append(exc)
                raise exc
        return cls(v)

    def _factory(self, idx):
        def factory():
            return self.value(self.tables[idx])

        return factory

    def _value_by_index(self, idx):
        return self.value(self.tables[idx])

    def setting_by_index(self, idx):
        if idx not in self.settings_objs:
            self.settings_objs[idx] = self.mk_setting(self.tables[idx])
        return self.settings_objs[idx]

    # -- settings and converters ----------------------------------------------------------------------------------------

    def mk_setting(self, s):
        kind, prio, p = s
        prio = ds.Priority(prio)
        if kind == "Alias":
            o = ds.Alias(*p, priority=prio)
        elif kind in ("Required", "Flattened", "Strict", "SerializeDefaults", "Remainder"):
            o = getattr(ds, kind)(p[0], prio)
        elif kind == "DeserializeAs":
            o = ds.DeserializeAs(self.type(p[0]), prio)
        elif kind == "Precision":
            prec, rounding, *more = p[0].split(":")     # prec:rounding[:Emin:Emax:clamp]
            kw = {k: int(x) for k, x in zip(("Emin", "Emax", "clamp"), more) if x}
            o = ds.Precision(int(prec) if prec else None, rounding or None, priority=prio, **kw)
        elif kind == "Union":
            style, disc, nest, members = p
            # Deferred, so that members can be declared after the union.
            o = ds.Union({mid: (lambda mt: lambda: self.type(mt))(mt) for mid, mt in members}, style, disc, nest or None)
        elif kind == "DateFormat":
            o = ds.DateFormat(*[mk_format(f) for f in p])
        elif kind == "ExtraKeys":
            o = ds.ExtraKeys(p[0], self._recorder(p[1]) if p[1] else None, prio)
        elif kind == "JsonConverter":
            o = JsonConverter(self.converter(p[0]))
        elif kind == "Tag":
            o = Tag(p[0], prio)
        elif kind == "Junk":
            o = JUNK_ITEMS[p[0]]
        else:
            raise ValueError(s)
        if kind != "Junk" and hash_str(repr(s)) % 4 == 0:
            # A setting of a kind may be an instance of a sub-class.
            object.__setattr__(o, "__class__", SUB_SETTINGS.setdefault(type(o), type("My" + kind, (type(o),), {})))
        self._keep.append(o)
        if kind != "Junk":
            self._setting_desc[id(o)] = s
        return o

    def setting_desc(self, o):
        if id(o) in self._setting_desc:
            return self._setting_desc[id(o)]
        for x in self._keep:
            # typing.Annotated may give back an equal object that another program made.
            if type(x) is type(o) and id(x) in self._setting_desc and x == o:
                return self._setting_desc[id(x)]
        for n, x in JUNK_ITEMS.items():
            if type(x) is type(o) and x == o:
                return ("Junk", 1, (n,))
        return ("Junk", 1, (repr(o),))

    def _recorder(self, rid):
        def recorder(ctx, keys):
            self.log.append(("extra", rid, self.ctx_path(ctx), tuple(sorted((self.proj(k) for k in keys), key=repr))))
            if self.gate is not None:
                self.gate()

        return recorder

    def converter(self, i):
        if i not in self.conv_objs:
            r = self.convs[i]
            if r["kind"] == "cm" and not r["when"] and not r["dir"] and not r["log"]:
                styp = tuple({"int": int, "str": str, "list": list, "dict": dict, "tuple": tuple}[n] for n in r["styp"])
                kw = {}
                if r["ser"]:
                    kw["serialize"] = "ser_" + r["ser"]
                if r["des"]:
                    kw["deserialize"] = "des_" + r["des"]
                self.conv_objs[i] = DelegateToClassmethodConverter((styp if len(styp) != 1 else styp[0]) if styp else None, **kw)
            else:
                self.conv_objs[i] = ModelConverter(self, i, r)
        return self.conv_objs[i]

    # -- types ----------------------------------------------------------------------------------------------------------

    def type(self, t):
        tag, name, args = t
        if tag == "plain":
            return PLAIN[name]
        if tag == "scal":
            return SCALS[name]
        if tag == "any":
            return object if name == "object" else typing.Any
        if tag == "nonetype":
            return type(None)
        if tag in ("coll", "map"):
            if not args:
                return BUILTIN_CLS.get(name) or COLLS[name]
            a = tuple(self.type(x) for x in args)
            if self.pep585 and name in BUILTIN585:
                return BUILTIN_CLS[name][a]
            return COLLS[name][a]
        if tag == "vtuple":
            return typing.Tuple[self.type(args[0]), ...]
        if tag == "tuple":
            return typing.Tuple[tuple(self.type(x) for x in args)] if args else typing.Tuple[()]
        if tag == "union":
            return typing.Union[tuple(self.type(x) for x in args)]
        if tag == "lit":
            return typing.Literal[tuple(self.value(v) for v in args)]
        if tag == "cls":
            c = self.py[name]
            return c[tuple(self.type(x) for x in args)] if args else c
        if tag == "ann":
            return typing.Annotated[(self.type(args[0]),) + tuple(self.cached_setting(s) for s in args[1])]
        if tag == "var":
            return typing.TypeVar(name)
        raise ValueError(t)

    def cached_setting(self, s):
        if not hasattr(self, "_cs"):
            self._cs = {}
        if s not in self._cs:
            self._cs[s] = self.mk_setting(s)
        return self._cs[s]

    def cls_id(self, py):
        for i, p in self.py.items():
            if p is py:
                return i
        return None

    def untype(self, h):
        """The descriptor of a type hint (typing object)."""
        h = getattr(h, "hint", h)
        if h is None or h is type(None):
            return NONET
        for n, p in PLAIN.items():
            if h is p:
                return ("plain", n, ())
        for n, p in SCALS.items():
            if h is p:
                return ("scal", n, ())
        if h is typing.Any:
            return ANY
        if h is object:
            return OBJECT
        i = self.cls_id(h)
        if i is not None:
            return ("cls", i, ())
        if h in BUILTIN_CLS.values():
            n = [k for k, v in BUILTIN_CLS.items() if v is h][0]
            return ("map" if n in MAP_KINDS else "coll", n, ())
        if isinstance(h, typing.TypeVar):
            return ("var", h.__name__, ())
        if isinstance(h, typing.ForwardRef):
            return ("other", "forward:" + h.__forward_arg__, ())
        if hasattr(h, "__metadata__"):
            return ("ann", "", (self.untype(h.__origin__), tuple(self.setting_desc(m) for m in h.__metadata__)))
        o, a = typing.get_origin(h), typing.get_args(h)
        if o is typing.Union or o is types.UnionType:
            return ("union", "", tuple(self.untype(x) for x in a))
        if o is typing.Literal:
            return ("lit", "", tuple(self.proj(x) for x in a))
        if o is tuple:
            if len(a) == 2 and a[1] is Ellipsis:
                return ("vtuple", "", (self.untype(a[0]),))
            return ("tuple", "", tuple(self.untype(x) for x in a if x != ()))
        i = self.cls_id(o)
        if i is not None:
            return ("cls", i, tuple(self.untype(x) for x in a))
        for n, alias in COLLS.items():
            if alias.__origin__ is o:
                return ("map" if len(a) == 2 else "coll", n, tuple(self.untype(x) for x in a))
        return ("other", repr(h), ())

    # -- values ---------------------------------------------------------------------------------------------------------

    def value(self, v):
        tag, tok, kids = v
        if tag == "none":
            return None
        if tag == "bool":
            return tok == "1"
        if tag == "int":
            return int(tok)
        if tag == "float":
            if tok in ("nan", "inf", "-inf"):
                return float(tok)
            return -0.0 if tok == "-0" else float(Fraction(tok))
        if tag == "str":
            return tok
        if tag == "bytes":
            return bytes.fromhex(tok)
        if tag == "decimal":
            return decimal.Decimal(tok)
        if tag == "uuid":
            return uuid.UUID(tok)
        if tag == "path":
            return pathlib.Path(tok)
        if tag == "purepath":
            return pathlib.PurePath(tok)
        if tag in ("myuuid", "mydecimal", "mypath", "winpath"):
            return SCALS[tag](tok)
        if tag == "duration":
            return duration.parse(tok)
        if tag in ("date", "time", "datetime"):
            return SCALS[tag].fromisoformat(tok)
        if tag == "enum":
            return self.py[tok][kids[0][1]]
        if tag in ("seq", "set"):
            items = [self.value(k) for k in kids]
            return (BUILTIN_CLS.get(tok) or self.py[tok])(items)
        if tag == "map":
            items = {self.value(k): self.value(w) for k, w in kids}
            if tok == "defaultdict":
                d = collections.defaultdict(int)
                d.update(items)
                return d
            if tok == "dict":
                return items
            return (BUILTIN_CLS.get(tok) or self.py[tok])(items)
        if tag == "obj":
            c = self.py[tok]
            vals = {k: self.value(w) for k, w in kids}
            if dataclasses.is_dataclass(getattr(c, "_twin", c)):
                no_init = {f.name for f in dataclasses.fields(getattr(c, "_twin", c)) if not f.init}
                o = c(**{k: w for k, w in vals.items() if k not in no_init})
                for k in no_init & set(vals):
                    object.__setattr__(o, k, vals[k])
                return o
            return c(**vals)
        if tag == "other":
            return OTHERS[tok]()
        raise ValueError(v)

    def proj(self, o, depth=0):
        if depth > 60:
            return V("other", "deep")
        t = type(o)
        if o is None:
            return NONE
        if t is bool:
            return TRUE if o else FALSE
        if t is int:
            return V("int", str(o)) if abs(o) < 10**600 else V("other", "hugeint")
        if t is float:
            return V("float", float_tok(o))
        if t is str:
            return V("str", o)
        if t is bytes:
            return V("bytes", o.hex())
        if t is decimal.Decimal:
            return V("decimal", str(o))
        if t is uuid.UUID:
            return V("uuid", str(o))
        for n in ("myuuid", "mydecimal", "mypath", "winpath", "myduration"):
            if t is SCALS[n]:
                return V(n, str(o))
        if t is pathlib.PosixPath:
            return V("path", str(o))
        if t is pathlib.PurePosixPath:
            return V("purepath", str(o))
        if t is duration:
            return V("duration", str(o))
        if t in (datetime.date, datetime.time, datetime.datetime):
            return V(t.__name__, o.isoformat())
        for n, c in BUILTIN_CLS.items():
            if t is c:
                if n in MAP_KINDS:
                    return ("map", n, tuple((self.proj(k, depth + 1), self.proj(w, depth + 1)) for k, w in o.items()))
                return ("set" if n in ("set", "frozenset") else "seq", n, self._items(o, depth))
        i = self.cls_id(t)
        if i is not None:
            r = self.decls[i]
            if r["kind"] in ("enum", "ienum"):
                return ("enum", i, (S(o.name),))
            if r["kind"] == "ucoll":
                return ("set" if r["ctor"] in ("set", "frozenset") else "seq", i, self._items(o, depth))
            if r["kind"] == "umap":
                return ("map", i, tuple((self.proj(k, depth + 1), self.proj(w, depth + 1)) for k, w in o.items()))
            if r["kind"] == "nt":
                return ("obj", i, tuple((n, self.proj(w, depth + 1)) for n, w in zip(o._fields, o)))
            if r["kind"] == "dc":
                # The fields in the order of dataclasses.fields(); absent ones are left out.
                ps = []
                for f in dataclasses.fields(getattr(o, "_twin", o)):
                    try:
                        ps.append((f.name, self.proj(getattr(o, f.name), depth + 1)))
                    except AttributeError:
                        pass
                return ("obj", i, tuple(ps))
        return V("other", t.__name__)

    def _items(self, o, depth):
        return tuple(self.proj(x, depth + 1) for x in o)

    # -- contexts -----------------------------------------------------------------------------------------------------

    def key(self, k):
        if isinstance(k, str):
            if k.startswith("Key(") and k.endswith(")"):
                try:
                    inner = eval(k[4:-1], {"__builtins__": {}}, {**KEY_NAMES, **{r["name"]: self.py[i] for i, r in self.decls.items()}})
                except Exception:
                    inner = self.enum_of(k[4:-1])
                    if inner is None:
                        return ("s", k)
                p = self.proj(inner)
                return ("k", p[0] + ":" + p[1])
            return ("s", k)
        if isinstance(k, bool):
            return ("o", "bool:" + ("1" if k else "0"))
        if isinstance(k, int):
            return ("i", str(k))
        if k is None:
            return ("n", "")
        p = self.proj(k)
        return ("o", p[0] + ":" + p[1])

    def enum_of(self, text):
        for i, r in self.decls.items():
            if r["kind"] in ("enum", "ienum"):
                for m in self.py[i]:
                    if repr(m) == text:
                        return m
        return None

    def ctx_path(self, ctx):
        keys = []
        while ctx.parent is not None:
            keys.append(self.key(ctx.key))
            ctx = ctx.parent
        return tuple(reversed(keys))

    # -- for the specification ------------------------------------------------------------------------------------------

    def env(self):
        keep = ("kind", "name", "own", "bases", "params", "settings", "mro", "total", "members", "check", "ctor", "frozen", "deco")
        cls = {i: {k: r[k] for k in keep} for i, r in self.decls.items()}
        cls = {i: dict(r, own=[{k: f[k] for k in ("n", "t", "dk", "d", "init")} for f in r["own"]]) for i, r in cls.items()}
        cls["-"] = cls_min()
        convs = dict(self.convs)
        convs["-"] = conv("decline")
        return {"cls": cls, "conv": convs}


def cls_min():
    r = cls_record("pc", "-")
    return {k: r[k] for k in ("kind", "name", "own", "bases", "params", "settings", "mro", "total", "members", "check", "ctor", "frozen", "deco")}


def plain_class(twin):
    """A class that behaves like the data class *twin*, but is none."""
    skip = {"__dataclass_fields__", "__dataclass_params__", "__dict__", "__weakref__", "__annotations__", "__match_args__"}
    return type(twin.__name__, (), {**{k: v for k, v in twin.__dict__.items() if k not in skip}, "_twin": twin})


def plain_schema(hint):
    """A convert_to_schema() that has schemas for the plain classes, too."""
    inner = TypeHint(hint.type) if isinstance(hint, AnnotatedTypeHint) else hint
    twin = getattr(inner.type, "_twin", None) if isinstance(inner, ClassTypeHint) else None
    if twin is None:
        return convert_to_schema(hint)
    return dataclasses.replace(convert_to_schema(TypeHint(twin)), type=inner.type, constructor=inner.type)


class _Junk:
    pass


JUNK = _Junk()
SUB_SETTINGS: dict = {}
JUNK_ITEMS = {"text": "some text", "num": 42, "obj": JUNK, "cls": int, "tup": ("a", 1), "list": [1], "dict": {"a": 1}}


OTHERS = {
    "object": object, "range": lambda: range(3), "generator": lambda: (x for x in [1]), "bytearray": lambda: bytearray(b"ab"),
    "complex": lambda: 1j, "type": lambda: int, "function": lambda: (lambda: 0), "_Junk": _Junk,
    "ellipsis": lambda: Ellipsis, "memoryview": lambda: memoryview(b"ab"),
}


def hash_str(s):
    h = 0
    for c in s:
        h = (h * 131 + ord(c)) % 1000003
    return h


class ModelConverter(Converter):
    def __init__(self, prog, i, r):
        self.prog, self.i, self.r = prog, i, r

    def __repr__(self):
        return f"<{self.i}>"

    def convert(self, ctx):
        p, r = self.prog, self.r
        d = "dump" if ctx.direction == Direction.SERIALIZE else "load"
        if r["log"]:
            p.log.append(("call", self.i, d, p.ctx_path(ctx)))
            if p.gate is not None:
                p.gate()
        if r["dir"] not in ("", d):
            raise NotImplementedError
        if r["when"]:
            if type_key(p.untype(ctx.datatype)) != r["when"]:
                raise NotImplementedError
        return self.act(ctx)

    def act(self, ctx):
        p, r = self.prog, self.r
        kind = r["kind"]
        if kind == "const":
            return "const:" + self.i
        if kind == "echo":
            return ctx.value
        if kind == "tag":
            return [self.i, ctx.value]
        if kind == "decline":
            raise NotImplementedError
        if kind == "fail":
            raise ConversionError(self, ctx, "fail " + self.i)
        if kind == "raise":
            exc = UserError(self.i)
            p.exc_objs.append(exc)
            raise exc
        if kind == "probe":
            s = ctx.get_setting(Tag)
            return s.val if s is not None else "-"
        if kind == "deleg":
            return [self.i, ctx.spawn(ctx.value, p.type(r["as"]), self.i).convert()]
        if kind == "reent":
            import databind.json as dj

            fn = dj.dump if ctx.direction == Direction.SERIALIZE else dj.load
            return [self.i, fn(ctx.value, p.type(r["as"]))]
        if kind == "cm":
            styp = tuple({"int": int, "str": str, "list": list, "dict": dict, "tuple": tuple}[n] for n in r["styp"])
            return DelegateToClassmethodConverter(
                styp or None,
                serialize="ser_" + r["ser"] if r["ser"] else None,
                deserialize="des_" + r["des"] if r["des"] else None,
            ).convert(ctx)
        raise ValueError(kind)


def type_key(t):
    t = un(t)
    if t[0] in ("tuple", "vtuple"):
        return "tuple"
    if t[0] == "nonetype":
        return "NoneType"
    if t[0] == "any":
        return "object"
    if t[0] in ("plain", "scal", "coll", "map", "cls"):
        return t[1]
    return ""


def _mk_setting_fresh(self, s):
    return self.mk_setting(s)


Program.mk_setting_fresh = _mk_setting_fresh

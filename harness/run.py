"""Executes sessions (programs of mapper, settings and conversion operations) against the real code and records what
happened, in the terms of the specification."""

import json
import logging
import signal
import sys
import typing

import pathlib
import uuid

import facts as facts_mod
from model import BUILTIN_CLS, UserError, hash_str, Tag, duration, plain_schema

from typeapi import TypeHint

from databind.core import Context, ConversionError, NoMatchingConverter, ObjectMapper, Settings
from databind.core.context import Direction, Location, format_context_trace
from databind.core.converter import Module
from databind.core.settings import SettingsProvider
from databind.core.schema import convert_dataclass_to_schema, convert_to_schema, convert_typed_dict_to_schema, get_fields_expanded
from databind.core.utils import NotSet
import databind.json.converters as jc
from databind.json import JsonModule, dump, dumps, get_object_mapper, load, loads
from databind.json.module import JsonConverterSupport


def first_of(o):
    """The text of an object: its first field."""
    return getattr(o, next(iter(getattr(o, "_twin", o).__dataclass_fields__)))


MUTABLE = (list, dict, set, bytearray)


class Hang(BaseException):
    pass


class _LogCatcher(logging.Handler):
    def __init__(self):
        super().__init__()
        self.records = 0

    def emit(self, record):
        self.records += 1


CATCHER = _LogCatcher()
_root = logging.getLogger()
_root.handlers[:] = [CATCHER]
_root.setLevel(logging.WARNING)
logging.getLogger("databind").propagate = True


def _on_alarm(signum, frame):
    raise Hang()


def containers(o, acc, depth=0):
    """ids of all mutable containers inside of *o*."""
    import collections

    if depth > 50:
        return acc
    if isinstance(o, (list, set, collections.deque, bytearray)) or isinstance(o, dict):
        if id(o) in acc:
            return acc
        acc[id(o)] = o
    if isinstance(o, dict):
        for k, w in o.items():
            containers(w, acc, depth + 1)
    elif isinstance(o, (list, tuple, set, frozenset, collections.deque)):
        for x in o:
            containers(x, acc, depth + 1)
    elif hasattr(getattr(o, "_twin", o), "__dataclass_fields__") and not isinstance(o, type):
        for n in getattr(o, "_twin", o).__dataclass_fields__:
            containers(getattr(o, n, None), acc, depth + 1)
    return acc


def outcome(prog, fn, *, value=None, filename=None, direction=None, timeout=10, check_shared=True):
    """Runs fn() and describes its outcome."""
    prog.log.clear()
    prog.exc_objs.clear()
    before = prog.proj(value)
    inner = containers(value, {}) if check_shared else {}
    flags = []
    out = dict(st="ok", v=("none", "", ()), p=(), ev=("none", "", ()), et=("nonetype", "", ()), nm=False, errs=(), log=(), flags=(), tr=())
    CATCHER.records = 0
    res = None
    try:
        if timeout is None:  # not in the main thread
            res = fn()
        else:
            old = signal.signal(signal.SIGALRM, _on_alarm)
            signal.setitimer(signal.ITIMER_REAL, timeout)
            try:
                res = fn()
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, old)
    except ConversionError as exc:
        out["st"] = "err"
        describe_error(prog, exc, out, flags, filename, direction)
    except UserError as exc:
        out["st"] = "exc"
        out["v"] = ("str", str(exc), ())
        if not any(exc is e for e in prog.exc_objs[-1:]):
            flags.append("excident")
    except Hang:
        out["st"] = "hang"
    except Exception as exc:
        out["st"] = "other"
        out["v"] = ("str", type(exc).__name__, ())
        out["detail"] = f"{type(exc).__name__}: {exc}"[:300]
    else:
        out["v"] = prog.proj(res)
        if check_shared and set(containers(res, {})) & set(inner):
            flags.append("shared")
    out["log"] = tuple(prog.log)
    if value is not None and prog.proj(value) != before:
        flags.append("mutated")
    out["flags"] = tuple(flags)
    return out, res


def describe_error(prog, exc, out, flags, filename, direction):
    ctx = exc.context
    out["p"] = prog.ctx_path(ctx)
    out["ev"] = prog.proj(ctx.value)
    out["et"] = prog.untype(ctx.datatype)
    out["nm"] = isinstance(exc, NoMatchingConverter)
    out["errs"] = tuple(prog.ctx_path(e.context) if isinstance(e, ConversionError) else (("x", type(e).__name__),) for _, e in exc.errors)
    try:
        s = str(exc)
        if type(s) is not str or CATCHER.records:
            flags.append("badstr")
    except Exception:
        flags.append("badstr")
    chain = list(ctx.iter_hierarchy_up())
    if chain[-1].key is not Context.ROOT or any(c.key is Context.ROOT for c in chain[:-1]):
        flags.append("root")
    if direction is not None and any(c.direction != direction for c in chain):
        flags.append("direction")
    if any(c.location.filename != filename for c in chain):
        flags.append("filename")
    # only the root is known to be at the line and column that were passed, if any
    at = f" (at {LINE}:{COLUMN})" if chain[-1].location.line is not None else ""
    if chain[-1].location != Location(filename, *((LINE, COLUMN) if at else (None, None))) or any(c.location != Location(filename, None, None) for c in chain[:-1]):
        flags.append("location")
    try:
        text = format_context_trace(ctx)
        lines = text.split("\n")
        n_in = sum(1 for x in lines if x.startswith("In "))
        plain = not any("\n" in str(c.key) for c in chain)
        if plain and len(lines) - n_in != len(chain) or (n_in != (1 if filename is not None else 0)) or n_in and lines[0] != f'In "{filename}"':
            flags.append("trace")
        elif plain:
            keys = []
            for c, line in zip(reversed(chain), lines[n_in:]):
                end = f": {c.datatype}" + (at if c is chain[-1] else "")
                if not line.endswith(end):
                    flags.append("trace")
                keys.append(line[: len(line) - len(end)].removeprefix("  "))
            out["tr"] = tuple(keys)
        message = str(exc)
        if not message.startswith(exc.message) or not exc.message or plain and any(x not in message for x in lines):
            flags.append("trace")
    except Exception:
        flags.append("trace")


LINE, COLUMN = 12, 5  # of conversions that are given a location


class Provider(SettingsProvider):
    """A provider of settings of the user's own: asks other settings."""

    def __init__(self, settings):
        self.delegate = settings

    def get_setting(self, context, setting_type):
        return self.delegate.get_setting(context, setting_type)


class World:
    """The objects that a session works on."""

    def __init__(self, prog):
        self.prog = prog
        self.settings = {}
        self.mappers = {}
        self.modules = {}
        self.asked = 0

    def pred(self, pr):
        prog = self.prog
        kind = pr[0]
        from model import type_key

        if kind == "always":
            return lambda c: True
        if kind == "never":
            return lambda c: False
        if kind == "keyIs":
            return lambda c: c.key == pr[1]
        if kind == "typeIs":
            return lambda c: type_key(prog.untype(c.datatype)) == pr[1]
        if kind == "isRoot":
            return lambda c: c.parent is None
        if kind == "dirIs":
            return lambda c: c.direction == (Direction.SERIALIZE if pr[1] == "dump" else Direction.DESERIALIZE)
        raise ValueError(pr)

    def type_of_key(self, key):
        import typing, collections
        from model import BUILTIN_CLS, PLAIN, SCALS, COLLS

        if key in self.prog.py:
            return self.prog.py[key]
        if key == "object":
            return object
        if key == "NoneType":
            return type(None)
        for tbl in (PLAIN, SCALS, BUILTIN_CLS):
            if key in tbl:
                return tbl[key]
        return COLLS[key].__origin__

    def item(self, it):
        if it[0] == "json":
            return JsonModule()
        if it[0] == "user":
            return self.prog.converter(it[1])
        if it[0] == "modref":
            return self.modules[it[1]]
        made = self.builtin(it)
        if made is not None:
            return made
        raise ValueError(it)

    def builtin(self, it):
        """A converter of the JSON module, with options."""
        kind, opts = it[0], it[1:]
        kinds = {"": None, **BUILTIN_CLS}
        if kind in ("any", "datetime", "enum", "optional", "union", "literal"):
            return getattr(jc, kind.capitalize() + "Converter")()
        if kind in ("plain", "decimal"):
            cls = jc.PlainDatatypeConverter if kind == "plain" else jc.DecimalConverter
            return cls(strict_by_default=False) if "lax" in opts else cls()
        if kind == "setting":
            return JsonConverterSupport()
        if kind == "str":
            t = {"uuid": uuid.UUID, "path": pathlib.Path, "purepath": pathlib.PurePath, "duration": duration}[opts[0]]
            return jc.StringifyConverter(t, duration.parse) if t is duration else jc.StringifyConverter(t)
        if kind == "strfy":
            cv = self.prog.convs[opts[0]]
            t = self.prog.py[cv["cls"]]
            return jc.StringifyConverter(t, (lambda s: t(s)) if cv["des"] == "make" else None, first_of, name=opts[0])
        if kind in ("coll", "map", "schema"):
            args = (kinds[opts[0]],) if opts[0] else ()
            if kind == "schema":
                kw = {"serialize_defaults": False} if "nodef" in opts else {}
                if "pc" in opts:
                    kw["convert_to_schema"] = plain_schema
                return jc.SchemaConverter(*args, **kw)
            return (jc.CollectionConverter if kind == "coll" else jc.MappingConverter)(*args)
        return None

    def run(self, op):
        """Executes an operation; conversions get their outcome recorded in the operation."""
        prog = self.prog
        k = op["op"]
        if k == "settings":
            gl = [prog.cached_setting(s) for s in op["glob"]]
            self.settings[op["s"]] = Settings(self.provider(op["parent"]) if op["parent"] else None, gl)
        elif k == "copysettings":
            self.settings[op["s"]] = self.settings[op["from"]].copy()
        elif k == "addglobal":
            self.settings[op["s"]].add_global(prog.cached_setting(op["x"]))
        elif k == "addlocal":
            self.settings[op["s"]].add_local(self.type_of_key(op["key"]), prog.cached_setting(op["x"]))
        elif k == "addcond":
            self.settings[op["s"]].add_conditional(self.pred(op["pred"]), prog.cached_setting(op["x"]))
        elif k == "addprov":
            p, xs = self.pred(op["pred"]), [prog.cached_setting(x) for x in op["xs"]]
            self.settings[op["s"]].add_provider(lambda c: list(xs) if p(c) else [])
        elif k == "mapper":
            st = self.settings[op["s"]] if op["s"] in self.settings else None
            self.mappers[op["m"]] = m = get_object_mapper(st) if op["json"] else ObjectMapper(st)
            self.settings[op["s"]] = m.settings
        elif k == "copymapper":
            self.mappers[op["m"]] = m = self.mappers[op["from"]].copy()
            self.settings[op["s"]] = m.settings
        elif k == "module":
            self.modules[op["k"]] = Module(op["k"])
        elif k == "register":
            tgt = self.modules[op["k"]] if op["k"] in self.modules else self.mappers[op["k"]].module
            tgt.register(self.item(op["item"]), first=op["first"])
        elif k == "decorate":
            prog.mk_setting_fresh(op["x"])(prog.py[op["cls"]])
        elif k == "convert":
            op["out"], _ = self.convert(op)
        elif k == "text":
            self.text(op)
        elif k == "roundtrip":
            self.roundtrip(op)
        elif k == "twice":
            self.twice(op)
        elif k == "schema":
            self.schema(op)
        else:
            raise ValueError(op)

    def provider(self, name):
        """The settings of that name: themselves, or by way of a provider of the user's own that asks them."""
        self.asked += 1
        s = self.settings[name]
        return Provider(s) if hash_str("%s%d" % (name, self.asked)) % 3 == 0 else s

    def converter_fn(self, op, d):
        prog = self.prog
        t = prog.type(op["t"])
        fn = op.get("filename")
        st = op.get("with", ("none",))
        if st[0] == "none":
            s = None
        elif st[0] == "list":
            s = [prog.cached_setting(x) for x in st[1]]
        else:
            s = self.provider(st[1])
        if op["m"] == "":
            f = dump if d == "dump" else load
            return lambda v: f(v, t, fn, s)
        m = self.mappers[op["m"]]
        if fn is not None and hash_str(repr(op["t"])) % 2:
            where = Location(fn, LINE, COLUMN)
            return lambda v: m.convert(Direction.SERIALIZE if d == "dump" else Direction.DESERIALIZE, v, t, where, s)
        f = m.serialize if d == "dump" else m.deserialize
        return lambda v: f(v, t, fn, s)

    def convert(self, op, v=None, d=None, py=False):
        prog = self.prog
        d = d or op["dir"]
        value = v if py else self.value(op["v"])
        if not py:
            op["v"] = self.ordered(op["v"], value)
        f = self.converter_fn(op, d)
        return outcome(prog, lambda: f(value), value=value, filename=op.get("filename"),
                       direction=Direction.SERIALIZE if d == "dump" else Direction.DESERIALIZE)

    def text(self, op):
        """A conversion by way of JSON text: loads() and dumps()."""
        prog = self.prog
        value = self.value(op["v"])
        op["v"] = self.ordered(op["v"], value)
        t, st = prog.type(op["t"]), op["with"]
        fn, lay = op.get("filename"), dict(indent=op["indent"], sort_keys=op["sort"])
        s = None if st[0] == "none" else [prog.cached_setting(x) for x in st[1]] if st[0] == "list" else self.provider(st[1])
        flags = []
        if op["dir"] == "load":
            if not is_text(op["v"]):
                from model import BadProgram

                raise BadProgram("no JSON")
            src = twice_keys(value) if op.get("dup") else json.dumps(value, **lay)
            op["v"] = prog.proj(json.loads(src))        # of two values of a key the last counts
            run = lambda: loads(src, t, fn, s)
        else:
            def run():
                res = dumps(value, t, fn, s, **lay)
                back = json.loads(res)
                if json.dumps(back, **lay) != res:
                    flags.append("layout")
                return back
        op["out"], _ = outcome(prog, run, value=value, filename=fn, direction=Direction.SERIALIZE if op["dir"] == "dump" else Direction.DESERIALIZE)
        if op["out"]["st"] == "ok":
            # and all keys are in the order that load() and dump() give them
            again, _ = outcome(prog, (lambda: load(json.loads(src), t, fn, s)) if op["dir"] == "load" else lambda: json.loads(json.dumps(dump(value, t, fn, s), **lay)))
            if sets_aside(again["v"]) != sets_aside(op["out"]["v"]):
                flags.append("layout")
        op["out"]["flags"] += tuple(flags)

    def value(self, v):
        from model import BadProgram, UserError

        try:
            return self.prog.value(v)
        except UserError:
            raise BadProgram("a value that its own class refuses")

    def ordered(self, v, value):
        """The description of a value, with the items of sets in the order of iteration."""
        return self.prog.proj(value) if has_set(v) else v

    def roundtrip(self, op):
        """dump, load the result, dump that again; and load the dumped data after a trip through JSON text"""
        outs = []
        value = self.value(op["v"])
        op["v"] = self.ordered(op["v"], value)
        o1, data = self.convert(op, v=value, d="dump", py=True)
        outs.append(o1)
        if o1["st"] == "ok":
            o2, back = self.convert(op, v=data, d="load", py=True)
            outs.append(o2)
            if o2["st"] == "ok":
                outs.append(self.convert(op, v=back, d="dump", py=True)[0])
            if op["json"]:
                try:
                    text = json.dumps(data)
                    outs.append(self.convert(op, v=json.loads(text), d="load", py=True)[0])
                except (TypeError, ValueError) as exc:
                    outs.append(dict(o1, st="other", v=("str", "json:" + type(exc).__name__, ())))
        op["outs"] = outs

    def twice(self, op):
        """Two loads of the same payload object must not share mutable parts, other than those of the payload."""
        prog = self.prog
        value = self.value(op["v"])
        op["v"] = self.ordered(op["v"], value)
        o1, a = self.convert(op, v=value, py=True)
        o2, b = self.convert(op, v=value, py=True)
        shared = set(containers(a, {})) & set(containers(b, {})) - set(containers(value, {}))
        if o1["st"] == "ok" and shared:
            o2["flags"] = o2["flags"] + ("fresh",)
        op["outs"] = [o1, o2]


    def schema(self, op):
        """What the schema of a type says about it."""
        prog = self.prog
        t = prog.type(op["t"])
        out = dict(st="ok", fields=(), cls="", ann=(), exp=(), flags=())
        flags = []
        try:
            s = convert_to_schema(TypeHint(t))
            out["cls"] = prog.cls_id(s.type)
            out["ann"] = tuple(prog.setting_desc(x) for x in s.annotations)
            out["fields"] = tuple(self.field(n, f, flags) for n, f in s.fields.items())
            if s.constructor is not s.type:
                flags.append("constructor")
            again = convert_to_schema(TypeHint(t))
            if again != s or list(again.fields) != list(s.fields) or again.fields is s.fields or again.annotations is s.annotations:
                flags.append("again")
            bare = getattr(t, "__origin__", t) if hasattr(t, "__metadata__") else t
            td = typing.is_typeddict(bare)
            for arg in (bare, TypeHint(bare)):
                own = convert_typed_dict_to_schema(arg) if td else convert_dataclass_to_schema(arg)
                if own.fields != s.fields or own.type is not s.type or own.annotations:
                    flags.append("direct")
            try:
                exp = get_fields_expanded(s)
                out["exp"] = tuple((n, tuple((k, prog.untype(f.datatype)) for k, f in x.items())) for n, x in exp.items())
            except RuntimeError:
                out["exp"] = (("clash", ()),)
            if convert_to_schema(TypeHint(t)) != s:
                flags.append("spoilt")
        except ValueError:
            out["st"] = "refused"
        except Exception as exc:
            out["st"] = type(exc).__name__
            out["detail"] = f"{type(exc).__name__}: {exc}"[:300]
        out["flags"] = tuple(flags)
        op["out"] = out

    def field(self, n, f, flags):
        prog = self.prog
        dk = "fac" if f.default_factory is not NotSet.Value else "val" if f.default is not NotSet.Value else "no"
        d = ("none", "", ())
        try:
            d = prog.proj(f.get_default())
            if dk == "fac" and isinstance(f.get_default(), MUTABLE) and f.get_default() is f.get_default():
                flags.append("factory")
        except RuntimeError:
            if dk != "no":
                flags.append("default")
        if f.has_default() != (dk != "no") or dk == "fac" and f.default is not NotSet.Value:
            flags.append("has-default")
        return dict(n=n, t=prog.untype(f.datatype), req=f.required, dk=dk, d=d, flat=f.flattened, aliases=tuple(f.aliases))


def twice_keys(value):
    """JSON text in which every object has its last key twice, with another value at first."""
    if isinstance(value, dict):
        items = list(value.items())
        return "{" + ", ".join(f"{json.dumps(k)}: {x}" for k, x in [(k, "[0]") for k, _ in items[-1:]] + [(k, twice_keys(x)) for k, x in items]) + "}"
    if isinstance(value, list):
        return "[" + ",".join(map(twice_keys, value)) + "]"
    return json.dumps(value)


def sets_aside(v):
    """A value without the order of sets."""
    tag, tok, kids = v
    if tag == "set":
        return (tag, tok, frozenset(map(sets_aside, kids)))
    return (tag, tok, tuple(sets_aside(x) if isinstance(x, tuple) and len(x) == 3 else tuple(sets_aside(y) if isinstance(y, tuple) else y for y in x) if isinstance(x, tuple) else x for x in kids))


def is_text(v):
    """JSON data with text keys"""
    if v[0] in ("none", "bool", "int", "float", "str"):
        return True
    if v[0] == "seq":
        return v[1] == "list" and all(is_text(x) for x in v[2])
    return v[0] == "map" and v[1] == "dict" and all(k[0] == "str" and is_text(w) for k, w in v[2])


def has_set(v):
    if v[0] == "set":
        return True
    return any(isinstance(x, tuple) and (has_set(x) if len(x) == 3 else any(len(y) == 3 and has_set(y) for y in x)) for x in v[2])


def check_unions(data):
    """Python's typing module caches generics by equality, and unions (literals) of the same members in another order
    are equal: List[Union[int, str]] may turn out to be List[Union[str, int]].  Such programs are not what they say."""
    from model import BadProgram

    seen = {}

    def key(t):
        if t[0] == "union":
            return ("union", frozenset(key(x) for x in t[2]))
        if t[0] == "lit":
            return ("lit", frozenset(t[2]))
        if t[0] == "ann":
            return ("ann", key(t[2][0]), t[2][1])
        return (t[0], t[1], tuple(key(x) for x in t[2]))

    def is_type(o):
        return len(o) == 3 and isinstance(o[0], str) and o[0] in ("coll", "map", "tuple", "vtuple", "ann", "cls") and isinstance(o[2], tuple)

    def visit(o):
        if isinstance(o, tuple) and is_type(o):
            try:
                if seen.setdefault(key(o), o) != o:
                    raise BadProgram("equal types that differ in the order of a union")
            except (IndexError, TypeError):
                pass
        if isinstance(o, (tuple, list)):
            for x in o:
                visit(x)
        elif isinstance(o, dict):
            for x in o.values():
                visit(x)

    visit(data)


def run_session(session):
    """session: {prog: Program, ops: [...]}; returns the session as data for the specification."""
    prog = session["prog"]
    check_unions([prog.decls, prog.convs, session["ops"]])
    w = World(prog)
    for op in session["ops"]:
        w.run(op)
    return session_data(session)


def session_data(session):
    prog = session["prog"]
    scal, fmts, precs = set(), {".ISO_8601"}, set()

    def on_setting(s):
        if s[0] == "DateFormat":
            fmts.update(s[2])
        if s[0] == "Precision":
            precs.add(s[2][0])

    def visit(o):
        if isinstance(o, (tuple, list)):
            if len(o) == 3 and isinstance(o[0], str) and isinstance(o[1], int) and not isinstance(o[1], bool) and isinstance(o[2], tuple):
                on_setting(o)
            if len(o) == 3 and isinstance(o[0], str) and isinstance(o[1], str) and o[2] == ():
                scal.add((o[0], o[1]))
            for x in o:
                visit(x)
        elif isinstance(o, dict):
            for x in o.values():
                visit(x)

    visit(session["ops"])
    visit(prog.decls)
    visit(prog.convs)
    visit(prog.tables)
    env = prog.env()
    env["F"] = facts_mod.facts(scal, fmts, precs)
    ops = [{k: x for k, x in op.items() if k != "detail"} for op in session["ops"]]
    return {"env": env, "ops": [normalize_op(op) for op in ops], "prop": session.get("prop", "")}


def normalize_op(op):
    op = dict(op)
    if op["op"] in ("convert", "text", "roundtrip", "twice"):
        for k in ("indent", "sort", "dup"):
            op.pop(k, None)
        op.setdefault("with", ("none",))
        op.pop("filename", None)
        op.setdefault("dir", "load")
        op.setdefault("json", False)
    for k in ("out",):
        if k in op:
            op[k] = {a: b for a, b in op[k].items() if a != "detail"}
    if "outs" in op:
        op["outs"] = [{a: b for a, b in o.items() if a != "detail"} for o in op["outs"]]
    return op

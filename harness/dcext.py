"""C18: programs of data classes, executed with databind's decorator (and with the standard one) and recorded."""

import dataclasses
import itertools
import json
import multiprocessing
import os
import random
import re
import sys
import tempfile
import time
import traceback
import types

import tlc

COUNT = itertools.count()
OPTS = {"frozen": "frozen=True", "noeq": "eq=False", "order": "order=True", "slots": "slots=True", "kwonly": "kw_only=True", "unsafe": "unsafe_hash=True",
        "norepr": "repr=False", "noinit": "init=False", "nomatch": "match_args=False"}
NAMES = ["a", "b", "c", "d", "w"]


def val(v):
    return None if v[0] == "n" else v[1][0] if v[0] == "i" else list(v[1])


def proj(x):
    if type(x) is int:
        return ["i", [x]]
    if x is None:
        return ["n", []]
    if type(x) is list and all(type(y) is int for y in x):
        return ["l", x]
    return ["x", repr(x)[:60]]


def render_field(f, future=False):
    ty = "typing.List[int]" if f["def"] == "factory" or f.get("list") else "int"
    if f["role"] == "marker":
        return f"    {f['n']}: std.KW_ONLY"
    if f["role"] == "initvar":
        # the standard library recognizes postponed annotations by the name of the module
        ty = f"{'std' if future else 'D'}.InitVar[{ty}]"
    elif f["role"] == "classvar":
        ty = f"typing.ClassVar[{ty}]"
    line = f"    {f['n']}: {ty}"
    if f["src"] == "bare":
        return line + (f" = {val(f['v'])!r}" if f["def"] == "value" else "")
    kw = []
    if f["def"] == "value":
        kw.append(f"default={val(f['v'])!r}")
    elif f["def"] == "factory":
        kw.append(f"default_factory=lambda: {val(f['v'])!r}")
    for k, name in (("cmp", "compare"), ("repr", "repr"), ("init", "init")):
        if not f[k]:
            kw.append(f"{name}=False")
    if f["hash"]:
        kw.append(f"hash={f['hash'] == 'yes'}")
    if f["kw"]:
        kw.append(f"kw_only={f['kw'] == 'yes'}")
    if ["m", "1"] in f["meta"]:
        kw.append("metadata=SHARED" if f.get("shared") else "metadata={'m': 1}")
    if f["meta"] and f["meta"][-1][0] == "annotations":
        kw.append(f"annotations=[{f['meta'][-1][1]!r}]")
    return line + f" = D.field({', '.join(kw)})"


def render(cid, c, future=False):
    out = []
    if c["kind"] == "dc":
        mod = "std" if c["std"] else "D"
        opts = ", ".join(OPTS[o] for o in c["opts"])
        if c.get("reuse"):
            # one decorator for several classes
            out.append(f"DECO = CACHE.setdefault({mod + opts!r}, {mod}.dataclass({opts}))")
            out.append("@DECO")
        else:
            out.append(f"@{mod}.dataclass({opts})" if opts or c.get("call") else f"@{mod}.dataclass")
    out.append(f"class {cid}({', '.join(c['bases'])}):" if c["bases"] else f"class {cid}:")
    body = [render_field(f, future) for f in c["own"]] + [f"    {n} = {val(v)!r}" for n, v in c["attrs"]]
    if c["post"]:
        body.append("    def __post_init__(self, *args):")
        body.append(f"        LOG.append(({cid!r}, list(args)))")
        if c["post"] == "set":
            body.append("        object.__setattr__(self, 'w', 77)")
        if c["post"] == "super":
            body.append(f"        UP(self, {cid!r}, args)")
    if not body:
        body = ["    '''documented'''"] if c.get("doc") else ["    pass"]
    return "\n".join(out + body) + "\n"


class Program:
    def __init__(self, classes, which, future=False, names=NAMES):
        self.classes, self.names = classes, names
        self.mod = types.ModuleType(f"dcprog{next(COUNT)}")
        sys.modules[self.mod.__name__] = self.mod
        self.log = []
        ns = self.mod.__dict__
        if which == "std":
            D = dataclasses
        else:
            from databind.core import dataclasses as D
        ns.update(D=D, LOG=self.log, UP=self.up, CACHE={}, SHARED={"m": 1})
        self.head = ("from __future__ import annotations\n" if future else "") + "import typing\nimport dataclasses as std\n"
        if future:
            self.flags = __import__("__future__").annotations.compiler_flag
        else:
            self.flags = 0
        exec("import typing\nimport dataclasses as std\n", ns)
        self.objs = {}
        self.src = [self.head]

    def close(self):
        sys.modules.pop(self.mod.__name__, None)

    @staticmethod
    def up(self, cid, args):
        mro = type(self).__mro__
        k = [x.__name__ for x in mro].index(cid)
        for b in mro[k + 1 :]:
            if "__post_init__" in vars(b):
                b.__post_init__(self, *args)
                return

    def cls(self, cid):
        return getattr(self.mod, cid)

    def visible(self, o):
        return [[n, proj(getattr(o, n))] for n in self.names if hasattr(o, n) and not isinstance(getattr(o, n), types.MemberDescriptorType)]

    def lists(self, o):
        names = [f.name for f in dataclasses.fields(o)] if dataclasses.is_dataclass(o) else []
        return {id(getattr(o, n)) for n in names if isinstance(getattr(o, n, None), list) and getattr(type(o), n, None) is not getattr(o, n)}

    def play(self, op):
        self.log.clear()
        out = dict(st="ok", v=[], log=[], shared=False)
        want = (TypeError,)
        try:
            k = op["op"]
            if k == "class":
                want = (TypeError, ValueError)
                text = render(op["c"], self.classes[op["c"]], bool(self.flags))
                self.src.append(text)
                exec(compile(text, self.mod.__name__, "exec", flags=self.flags, dont_inherit=True), self.mod.__dict__)
            elif k in ("new", "load", "replace"):
                known = set().union(*[self.lists(o) for o in self.objs.values()]) if self.objs else set()
                if k == "new":
                    o = self.cls(op["c"])(*[val(v) for v in op["pos"]], **{n: val(v) for n, v in op["kw"]})
                elif k == "load":
                    from databind.core import ConversionError
                    from databind.json import load

                    want = (ConversionError,)
                    o = load({n: val(v) for n, v in op["kw"]}, self.cls(op["c"]))
                else:
                    want = (TypeError, ValueError, AttributeError)
                    o = self.mod.D.replace(self.objs[op["x"]], **{n: val(v) for n, v in op["kw"]})
                out["v"] = self.visible(o)
                out["shared"] = k != "replace" and bool(self.lists(o) & known)
                self.objs[op["o"]] = o
                self.keep = o
            elif k == "eq":
                want = (AttributeError,)
                x, y = self.objs[op["x"]], self.objs[op["y"]]
                r = x == y
                out["v"] = ["true" if r is True else "false" if r is False else "?"]
                if (x != y) is not (not r):
                    out["v"] = ["?"]
            elif k == "hash":
                want = (TypeError, AttributeError)
                out["v"] = ["true" if hash(self.objs[op["x"]]) == hash(self.objs[op["y"]]) else "false"]
            elif k in ("lt", "le", "gt", "ge"):
                want = (TypeError, AttributeError)
                x, y = self.objs[op["x"]], self.objs[op["y"]]
                r = x < y if k == "lt" else x <= y if k == "le" else x > y if k == "gt" else x >= y
                out["v"] = ["true" if r is True else "false" if r is False else "?"]
            elif k == "repr":
                want = (AttributeError,)
                out["v"] = [repr(self.objs[op["x"]])]
            elif k == "asdict":
                want = (AttributeError, TypeError)
                d = self.mod.D.asdict(self.objs[op["x"]])
                out["v"] = [[n, proj(v)] for n, v in d.items()]
                out["shared"] = bool({id(v) for v in d.values() if isinstance(v, list)} & self.lists(self.objs[op["x"]]))
            elif k == "astuple":
                want = (AttributeError, TypeError)
                out["v"] = [proj(v) for v in self.mod.D.astuple(self.objs[op["x"]])]
            elif k == "set":
                want = (AttributeError,)
                o = self.objs[op["x"]]
                setattr(o, op["n"], val(op["v"]))
                out["v"] = self.visible(o)
            elif k == "fields":
                def given(f):
                    return "value" if f.default is not dataclasses.MISSING else "factory" if f.default_factory is not dataclasses.MISSING else "none"

                yn = lambda b: "yes" if b else "no"
                out["v"] = [[f.name, yn(f.init), yn(f.repr), yn(f.compare), "" if f.hash is None else yn(f.hash), yn(f.kw_only), given(f)] for f in self.mod.D.fields(self.cls(op["c"]))]
            elif k == "meta":
                out["v"] = [[f.name, [[a.split(".")[-1], b[0] if isinstance(b, list) else str(b)] for a, b in f.metadata.items()]] for f in self.mod.D.fields(self.cls(op["c"]))]
            elif k == "match":
                want = (AttributeError,)
                out["v"] = list(self.cls(op["c"]).__match_args__)
            elif k == "sig":
                import inspect

                ps = list(inspect.signature(self.cls(op["c"])).parameters.values())
                out["v"] = [[p.name, "yes" if p.kind is p.KEYWORD_ONLY else "no" if p.kind is p.POSITIONAL_OR_KEYWORD else "?"] for p in ps]
            elif k == "attr":
                want = (AttributeError,)
                v = getattr(self.cls(op["c"]), op["n"])
                out["v"] = ["descriptor"] if isinstance(v, types.MemberDescriptorType) else proj(v)
        except want:
            out["st"] = "err"
            out["v"] = []
        except Exception as exc:
            out["st"] = "other"
            out["v"] = [f"{type(exc).__name__}: {exc}"[:200]]
        out["log"] = [[c, [proj(x) for x in a]] for c, a in self.log]
        return out

    def env(self, strict):
        return dict(strict=strict, names=self.names,
                    cls={k: dict(kind=c["kind"], std=c["std"], mro=c["mro"], opts=c["opts"], own=[{x: y for x, y in f.items() if x not in ("list", "shared")} for f in c["own"]], attrs=c["attrs"], post=c["post"])
                         for k, c in self.classes.items()})


def field_form(rng, n, legal, sharing=False):
    f = dict(n=n, role="field", src="bare", v=["i", [rng.randint(0, 3)]], init=True, kw="", cmp=True, repr=True, hash="", meta=[])
    f["def"] = rng.choice(["none", "none", "value"])
    x = rng.random()
    if x < 0.12:
        f["role"] = "initvar"
    elif x < 0.2:
        f["role"] = "classvar"
    if rng.random() < 0.55:
        f["src"] = "field"
        if f["role"] == "field" and rng.random() < 0.3:
            f["def"], f["v"] = "factory", ["l", [rng.randint(0, 3) for _ in range(rng.randint(0, 2))]]
        for k, p in (("cmp", 0.15), ("repr", 0.15), ("init", 0.15)):
            if rng.random() < p and not (k == "init" and f["role"] != "field"):
                f[k] = False
        if rng.random() < 0.15:
            f["hash"] = rng.choice(["yes", "no"])
        if rng.random() < 0.2 and (f["role"] != "classvar" or rng.random() < 0.2):
            f["kw"] = rng.choice(["yes", "no"])
        if rng.random() < (0.7 if sharing else 0.1):
            f["meta"].append(["m", "1"])
            f["shared"] = sharing or rng.random() < 0.5
        if not legal and rng.random() < (0.4 if sharing else 0.1):
            f["meta"].append(["annotations", f"note {n}"])
        if f["role"] != "field" and rng.random() < 0.04:
            f["def"], f["v"] = "factory", ["l", []]
    if f["def"] == "value" and rng.random() < 0.03:
        f["v"], f["list"] = ["l", [1]], True
    elif f["def"] == "value" and rng.random() < 0.15:
        f["v"] = ["n", []]
    return f


def session(rng, which):
    legal = which == "std"
    n = rng.choice([1, 1, 2, 2, 3, 4])
    classes, order = {}, []
    shadow = {}
    frozen = rng.random() < 0.25
    slots = rng.random() < 0.25
    sharing = rng.random() < 0.1
    reuse = () if rng.random() < 0.12 else None
    for k in range(n):
        cid = f"K{k}"
        kind = "dc" if k == 0 or rng.random() < 0.8 else "plain"
        bases = []
        if order and rng.random() < 0.85:
            bases = [rng.choice(order[-2:])]
            if len(order) >= 2 and not slots and rng.random() < 0.3:
                bases = rng.sample(order, 2)
        elif kind == "dc" and rng.random() < 0.1 and order:
            pass
        if len({any("frozen" in classes[x]["opts"] for x in classes[b]["mro"]) for b in bases}) > 1:
            continue
        c = dict(kind=kind, std=False, bases=bases, opts=[], own=[], attrs=[], post="")
        if kind == "dc":
            c["std"] = which == "D" and rng.random() < 0.12
            is_frozen = frozen if rng.random() < 0.96 else not frozen
            opts = (["frozen"] if is_frozen else []) + (["slots"] if slots and rng.random() < 0.8 else [])
            for o, p in (("noeq", 0.12), ("order", 0.25), ("kwonly", 0.12), ("unsafe", 0.1), ("norepr", 0.1), ("noinit", 0.06), ("nomatch", 0.06)):
                if rng.random() < p:
                    opts.append(o)
            if "noeq" in opts and "order" in opts and rng.random() < 0.8:
                opts.remove("order")
            c["opts"] = opts
            c["call"] = rng.random() < 0.3
            c["reuse"] = reuse is not None
            if reuse is not None:
                reuse = reuse or (opts, c["std"])
                c["opts"], c["std"] = list(reuse[0]), reuse[1]
            for name in rng.sample(NAMES[:4], rng.choice([0, 1, 1, 2, 2, 3, 4])):
                c["own"].append(field_form(rng, name, legal, sharing))
            if rng.random() < 0.12:
                c["own"].insert(rng.randint(0, len(c["own"])), dict(n="_", role="marker", src="bare", v=["i", [0]], init=True, kw="", cmp=True, repr=True, hash="", meta=[], **{"def": "none"}))
            if rng.random() < 0.15:
                c["own"].append(dict(n="w", role="field", src="field", v=["i", [0]], init=False, kw="", cmp=False, repr=True, hash="", meta=[], **{"def": rng.choice(["none", "value"])}))
            if legal and rng.random() < 0.9:
                c["own"].sort(key=lambda f: f["def"] != "none")
        free = [x for x in NAMES[:4] if x not in [f["n"] for f in c["own"]]]
        if free and rng.random() < 0.15:
            c["attrs"].append([rng.choice(free), ["i", [rng.randint(4, 6)]]])
        if rng.random() < 0.35:
            has_w = any(f["n"] == "w" for x in [c] + [classes[b] for b in order if b in bases or any(b in classes[y]["mro"] for y in bases)] for f in x["own"])
            c["post"] = rng.choice(["log", "super"] + (["set", "set"] if has_w else []))
        c["doc"] = rng.random() < 0.2
        try:
            shadow[cid] = type(cid, tuple(shadow[b] for b in bases), {})
        except TypeError:
            continue
        c["mro"] = [x.__name__ for x in shadow[cid].__mro__[:-1]]
        classes[cid] = c
        order.append(cid)
    prog = Program(classes, which, future=rng.random() < 0.3)
    ops = []

    def do(**op):
        op["out"] = prog.play(op)
        ops.append(op)
        return op["out"]["st"] == "ok"

    ready = []
    for cid in order:
        if any(b not in ready for b in classes[cid]["bases"]):
            continue
        if do(op="class", c=cid):
            ready.append(cid)
        elif ops[-1]["out"]["st"] == "other":
            break
        for r in ready:
            if rng.random() < 0.25:
                do(op=rng.choice(["fields", "match", "sig", "meta"]), c=r)
    objs = []
    every = {f["n"] for c in classes.values() for f in c["own"] if f["role"] != "marker"} or {"a"}

    def value(name):
        listy = any(f["n"] == name and (f["def"] == "factory" or f.get("list")) for c in classes.values() for f in c["own"])
        if listy and rng.random() < 0.7:
            return ["l", [rng.randint(0, 3) for _ in range(rng.randint(0, 2))]]
        return ["i", [rng.randint(0, 2)]]

    for _ in range(rng.randint(4, 14) if ready else 0):
        x, name = rng.random(), f"o{len(objs)}"
        c = rng.choice(ready)
        lineage = [classes[b] for b in classes[c]["mro"]]
        fields = []
        for y in reversed(lineage):
            for f in y["own"]:
                if f["role"] != "marker" and f["n"] not in fields:
                    fields.append(f["n"])
        if x < 0.4 or not objs:
            try:
                import inspect

                params = list(inspect.signature(prog.cls(c)).parameters.values())
            except Exception:
                params = []
            pos = [p.name for p in params if p.kind is not p.KEYWORD_ONLY]
            npos = rng.randint(0, len(pos)) if rng.random() < 0.95 else len(pos) + 1
            rest = [p.name for p in params if p.name not in pos[:npos]]
            kws = [p for p in rest if rng.random() < 0.75]
            if rng.random() < 0.05:
                kws.append(rng.choice(NAMES))
            kws = list(dict.fromkeys(kws))
            rng.shuffle(kws)
            vals = [value(p) for p in pos[:npos]] + [["i", [1]]] * (npos - len(pos))
            ok = do(op="new", c=c, o=name, pos=vals, kw=[[p, value(p)] for p in kws])
            if ok:
                objs.append(name)
        elif x < 0.52:
            roles = {f["role"] for y in lineage for f in y["own"]}
            types_ = {}
            for y in lineage:
                for f in y["own"]:
                    types_.setdefault(f["n"], set()).add(f["def"] == "factory" or bool(f.get("list")))
            if "initvar" in roles or any("noinit" in y["opts"] for y in lineage) or any(len(t) > 1 for t in types_.values()) or not any(y["kind"] == "dc" for y in lineage):
                continue
            keys = [f for f in fields if rng.random() < 0.7]
            if rng.random() < 0.1:
                keys.append("zz")
            if do(op="load", c=c, o=name, kw=[[k, ["l", [rng.randint(0, 3) for _ in range(rng.randint(0, 2))]] if True in types_.get(k, ()) else ["i", [rng.randint(0, 2)]]] for k in keys]):
                objs.append(name)
        elif x < 0.6:
            o = rng.choice(objs)
            if do(op="replace", x=o, o=name, kw=[[k, value(k)] for k in rng.sample(sorted(every), rng.randint(0, min(2, len(every))))]):
                objs.append(name)
        elif x < 0.75:
            do(op=rng.choice(["eq", "eq", "hash", "lt", "le", "gt", "ge"]), x=rng.choice(objs), y=rng.choice(objs))
        elif x < 0.85:
            do(op=rng.choice(["repr", "asdict", "astuple"]), x=rng.choice(objs))
        elif x < 0.92:
            do(op="set", x=rng.choice(objs), n=rng.choice(sorted(every)), v=["i", [rng.randint(0, 2)]])
        else:
            do(op="attr", c=c, n=rng.choice(NAMES))
    desc = dict(src="\n".join(prog.src), ops=ops, which=which)
    prog.close()
    return dict(env=prog.env(which == "std"), ops=ops), desc


def _worker(args):
    out = []
    for key in args:
        rng = random.Random(key)
        try:
            out.append(session(rng, "std" if rng.random() < 0.2 else "D"))
        except Exception:
            out.append((None, key + "\n" + traceback.format_exc(limit=-6)))
    return out


def sessions(seed, n, chunk=25):
    keys = [f"C18-{seed}-{k}" for k in range(n)]
    with multiprocessing.get_context("fork").Pool(8) as pool:
        res = pool.map(_worker, [keys[k : k + chunk] for k in range(0, n, chunk)], chunksize=1)
    return [x for part in res for x in part]


def run_random(rep, n, seed):
    items = sessions(seed, n)
    for d, why in items:
        if d is None:
            raise RuntimeError(why)
    res, r = tlc.check_sessions([d for d, _ in items], module="DataclassTrace")
    rep.states += r["distinct"]
    rep.transitions += r["states"] - len(items)
    rep.traces += len(items)
    stopped = set()
    for (i, l), (st, clause) in sorted(res.items()):
        desc = items[i][1]
        op = desc["ops"][l]
        rep.count(f"{op['op']}: {st}")
        if clause and i not in stopped:
            stopped.add(i)
            what = f"{clause}: {op['op']} {op.get('c', op.get('x'))} {op.get('pos', '')} {op.get('kw', '')}: {op['out']}"
            if desc["which"] == "std":
                raise RuntimeError("the specification misrepresents the standard library: " + what + "\n" + desc["src"])
            rep.violation(what, dict(kind="data class program", clause=clause, source=desc["src"], ops=desc["ops"][: l + 1]))
    rep.sample(dict(source=items[0][1]["src"], ops=items[0][1]["ops"][:6]))


HIST = re.compile(r'^<<"HIST", (".*")>>$')


def _replay(lines):
    """Executes programs that TLC generated; returns the first difference from the specified outcomes of each."""
    bad = []
    for text in lines:
        hist = json.loads(text)
        classes = hist["cls"]
        for k, c in classes.items():
            c["bases"] = c["mro"][1:2]
        prog = Program(classes, "D")
        try:
            why = replay(prog, hist)
        except Exception:
            why = "harness: " + traceback.format_exc(limit=-6)
        if why:
            bad.append((why, "\n".join(prog.src)))
        prog.close()
    return bad


def replay(prog, hist):
    for cid in sorted(prog.classes):
        got = prog.play(dict(op="class", c=cid))
        want = "err" if cid == hist["refused"] else "ok"
        if got["st"] != want:
            return f"class {cid}: {got['st']} {got['v']}, specified {want}"
        if want == "err":
            return None
    got = prog.play(dict(op="fields", c="K1"))
    if got["v"] != hist["fields"]:
        return f"fields(K1): {got['v']}, specified {hist['fields']}"
    for k, call in enumerate(hist["calls"]):
        want = call["out"]
        if want["st"] == "free":
            continue
        got = prog.play(dict(op="new", c="K1", o=f"o{k}", pos=call["pos"], kw=call["kw"]))
        if got["st"] != want["st"] or got["log"] != want["log"] or (got["st"] == "ok" and (got["v"] != want["v"] or got["shared"])):
            return f"K1 called with {[val(v) for v in call['pos']]} {({n: val(v) for n, v in call['kw']})}: {got}, specified {want}"
    return None


SINGLE = dict(Pairs="FALSE", MaxOwn=3, Menu=["req", "val", "none", "fac", "fieldreq", "kwreq", "ivreq", "ivval", "noinit", "unset", "cv", "marker"], Options=["", "frozenslots", "kwonly"])
PAIRS = dict(Pairs="TRUE", MaxOwn=1, Menu=["req", "val", "kwreq", "ivreq", "noinit", "cv"], Options=["", "slots", "order"])


def generated(rep, what, consts):
    """Every program that TLC generates is executed; all outcomes have to be those of the specification."""
    cfg = tempfile.NamedTemporaryFile("w", suffix=".cfg", delete=False)
    shown = {k: "{" + ", ".join(json.dumps(x) for x in v) + "}" if isinstance(v, list) else v for k, v in consts.items()}
    cfg.write("SPECIFICATION Spec\nCONSTANTS " + "\n ".join(f"{k} = {v}" for k, v in shown.items()) + "\nINVARIANT C18\nCHECK_DEADLOCK FALSE\n")
    cfg.close()
    try:
        r = tlc.tlc("DataclassGen", cfg.name)
    finally:
        os.unlink(cfg.name)
    if not r["completed"]:
        raise tlc.TlcError("DataclassGen: " + tlc.errors_of(r["out"]))
    texts = [json.loads(m[1]) for m in map(HIST.match, r["out"].splitlines()) if m]
    if not texts:
        raise tlc.TlcError("DataclassGen printed no program")
    texts.sort()
    size = max(1, len(texts) // 64)
    with multiprocessing.Pool(8) as pool:
        bad = [b for bs in pool.map(_replay, [texts[i : i + size] for i in range(0, len(texts), size)]) for b in bs]
    for why, src in bad[:20]:
        if why.startswith("harness"):
            raise RuntimeError(why)
        rep.violation("generated program: " + why, dict(kind="data class program of TLC", source=src))
    rep.states += r["distinct"]
    rep.transitions += r["states"]
    rep.traces += len(texts)
    rep.part(f"all programs of {what} (TLC), replayed with every call of the constructor", programs=len(texts), exhaustive=True)


def part(rep):
    t0 = time.time()
    quick = rep.tier == "quick"
    generated(rep, "one class with up to three fields", SINGLE)
    generated(rep, "a class with one or two fields and a subclass", PAIRS if quick else dict(PAIRS, MaxOwn=2))
    rounds = 0
    while (rounds == 0 or (not quick and time.time() - t0 < 240)) and not rep.violations:
        run_random(rep, 2500, f"{rep.seed}.{rounds}")
        rounds += 1
    rep.part("random programs of data classes, one in five with the standard decorator as a check of the specification", rounds=rounds)

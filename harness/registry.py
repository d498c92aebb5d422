"""C19: histories of union member registries, executed against databind.core.union and recorded."""

import abc
import importlib
import itertools
import json
import os
import random
import re
import shutil
import sys
import tempfile
import typing as t

import tlc

COUNTER = itertools.count()


class World:
    """Scratch packages, an entry point group and the classes that histories talk about."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="reg_")
        self.pkg = f"regpkg{os.getpid()}_{next(COUNTER)}"
        self.group = f"{self.pkg}.plugins"
        root = os.path.join(self.dir, self.pkg)
        os.makedirs(os.path.join(root, "sub", "deep"))

        def put(path, text):
            with open(os.path.join(root, path), "w") as f:
                f.write(text)

        put("__init__.py", "import typing\nclass Base:\n    pass\nclass A(Base):\n    class In(Base):\n        class Most(Base): pass\nclass B(Base):\n    pass\n"
                           "class C(Base):\n    pass\nT = typing.TypeVar('T')\nclass G(Base, typing.Generic[T]):\n    pass\nAlias = A\nvalue = 3\ndef func(): pass\n"
                           "def make():\n    class Local(Base): pass\n    return Local\nLocal = make()\n")
        put("sub/__init__.py", "from .. import A as Seen\nclass S: pass\nclass deep2: pass\n")
        put("sub/deep/__init__.py", "class D:\n    x = 1\n    class E: pass\n")
        put("sub/thing.py", "class thing:\n    class thing: pass\nclass Other: pass\n")
        put("lazy.py", "class L:\n    class M: pass\n")
        dist = os.path.join(self.dir, f"{self.pkg}-1.0.dist-info")
        os.makedirs(dist)
        with open(os.path.join(dist, "METADATA"), "w") as f:
            f.write(f"Metadata-Version: 2.1\nName: {self.pkg}\nVersion: 1.0\n")
        with open(os.path.join(dist, "entry_points.txt"), "w") as f:
            f.write(f"[{self.group}]\na = {self.pkg}:A\ne2 = {self.pkg}.sub:S\ne3 = {self.pkg}:A\nin = {self.pkg}:A.In\n")
        sys.path.insert(0, self.dir)
        importlib.invalidate_caches()
        m = importlib.import_module(self.pkg)
        sub = importlib.import_module(self.pkg + ".sub")
        deep = importlib.import_module(self.pkg + ".sub.deep")
        thing = importlib.import_module(self.pkg + ".sub.thing")
        self.types = {"Base": m.Base, "A": m.A, "In": m.A.In, "Most": m.A.In.Most, "B": m.B, "C": m.C, "G": m.G, "Local": m.Local, "S": sub.S, "D": deep.D, "E": deep.D.E,
                      "deep2": sub.deep2, "thing": thing.thing, "thing2": thing.thing.thing, "Other": thing.Other}
        self.module = m

        def node(kind, t="", **kids):
            return dict(kind=kind, t=t, kids=[[k, v] for k, v in kids.items()])

        cls_in = node("class", "In", Most=node("class", "Most"))
        cls_a = node("class", "A", In=cls_in)
        tree = node("module", Base=node("class", "Base"), A=cls_a, B=node("class", "B"), C=node("class", "C"), G=node("class", "G"), Alias=cls_a, value=node("value"), func=node("value"),
                    make=node("value"), Local=node("class", "Local"),
                    lazy=node("module", L=node("class", "L", M=node("class", "M"))),
                    sub=node("module", S=node("class", "S"), Seen=cls_a, deep2=node("class", "deep2"),
                             deep=node("module", D=node("class", "D", x=node("value"), E=node("class", "E"))),
                             thing=node("module", thing=node("class", "thing", thing=node("class", "thing2")), Other=node("class", "Other"))))
        paths = ["", "A", "A.In", "A.In.Most", "B", "C", "G", "Alias", "Alias.In", "value", "func", "Local", "nothing", "A.nothing", "sub", "sub.S", "sub.Seen", "sub.Seen.In", "sub.deep2",
                 "sub.deep", "sub.deep.D", "sub.deep.D.E", "sub.deep.D.x", "sub.nothing", "sub.deep.nothing", "sub.thing", "sub.thing.thing", "sub.thing.thing.thing", "sub.thing.Other",
                 "sub.thing.nothing", "deep", "value.x", "lazy.L", "lazy.L.M", "lazy"]
        self.import_ids = [".".join(filter(None, [self.pkg, p])) for p in paths] + ["", ".", self.pkg + ".", self.pkg + "_missing", self.pkg + "_missing.A", "." + self.pkg]
        self.env = dict(
            split=[[i, i.split(".")] for i in self.import_ids],
            tree=[[self.pkg, tree]],
            names=[[k, f"{v.__module__}.{v.__qualname__}"] for k, v in self.types.items() if k != "Local"],
        )
        self.ep = [["a", ["cls", "A"]], ["e2", ["cls", "S"]], ["e3", ["cls", "A"]], ["in", ["cls", "In"]]]

    def forget(self):
        """The module *lazy* has not been imported yet."""
        if sys.modules.pop(self.pkg + ".lazy", None):
            del self.module.lazy

    def close(self):
        sys.path.remove(self.dir)
        for name in [n for n in sys.modules if n.split(".")[0] == self.pkg]:
            del sys.modules[name]
        shutil.rmtree(self.dir, ignore_errors=True)


class Player:
    """Executes operations on real registries."""

    def __init__(self, world):
        self.w = world
        self.regs = {}
        self.evals = []
        self.holder = {}

    def real(self, ty):
        from typeapi import TypeHint

        cls = self.w.types[ty[1]]
        if ty[0] == "cls":
            return cls
        return TypeHint(cls[int] if getattr(cls, "__parameters__", ()) else cls)

    def name_of(self, o):
        from typeapi import ClassTypeHint

        for k, v in self.w.types.items():
            if v is o:
                return ["cls", k]
        if isinstance(o, ClassTypeHint):
            for k, v in self.w.types.items():
                if v is o.type:
                    return ["hint", k]
        if isinstance(o, type) and o is sys.modules.get(self.w.pkg + ".lazy", self.w.module).__dict__.get("L"):
            return ["cls", "L"]
        if isinstance(o, type) and o.__module__ == self.w.pkg + ".lazy" and o.__qualname__ == "L.M":
            return ["cls", "M"]
        return ["what", repr(o)[:80]]

    def provider(self, p):
        if not p["lazy"]:
            return self.real(p["t"])
        uid, ty = p["uid"], self.real(p["t"])

        def provide():
            self.evals.append(uid)
            return ty

        return provide

    def new(self, op):
        from databind.core.settings import Union
        from databind.core.union import ChainUnionMembers, EntrypointUnionMembers, ImportUnionMembers, StaticUnionMembers

        g, via = op["g"], op.get("via", "plain")
        if g["kind"] == "static":
            d = {i: self.provider(p) for i, p in g["entries"]}
            if via == "class":
                holder = abc.ABCMeta("Holder", (), {})
                Union(d)(holder)
                self.holder[op["r"]] = holder
                from databind.core.settings import get_class_setting

                return get_class_setting(holder, Union).members
            if via == "setting":
                return Union(d if d or op.get("some") else None).members
            return StaticUnionMembers(d)
        if g["kind"] == "chain":
            parts = [self.regs[x] for x in g["parts"]]
            return Union(parts).members if via == "setting" else ChainUnionMembers(*parts)
        if g["kind"] == "import":
            return Union("<import>").members if via == "setting" else ImportUnionMembers()
        return Union("!" + self.w.group).members if via == "setting" else EntrypointUnionMembers(self.w.group)

    def register(self, op):
        from databind.core.settings import Union

        reg, via = self.regs[op["r"]], op.get("via", "deco")
        prov = self.provider(op["p"])
        if via == "default":  # the name of the function or the class
            if op["p"]["lazy"]:
                prov.__name__ = op["id"]
            got = reg.register()(prov)
        elif via == "dict":
            reg.members[op["id"]] = got = prov
        elif via == "union":  # through the class that carries the setting
            self.holder[op["r"]].register(prov)
            got = Union.register(self.holder[op["r"]], op["id"])(prov)
        else:
            got = reg.register(op["id"])(prov)
        return got is prov

    def play(self, op):
        self.evals.clear()
        reg = self.regs.get(op["r"])
        try:
            if op["op"] == "new":
                self.regs[op["r"]] = self.new(op)
                st, v = "ok", ""
            elif op["op"] == "reg":
                st, v = ("ok", "") if self.register(op) else ("other", "the decorated object is not returned")
            elif op["op"] == "del":
                del reg.members[op["id"]]
                st, v = "ok", ""
            elif op["op"] == "byid":
                st, v = "ok", self.name_of(reg.get_type_by_id(op["id"]))
            elif op["op"] == "byty":
                st, v = "ok", reg.get_type_id(self.real(op["t"]))
                if type(v) is not str:
                    st, v = "other", repr(v)
            else:
                got = reg.get_type_ids()
                st, v = ("ok", list(got)) if isinstance(got, list) else ("other", repr(got))
        except ValueError:
            st, v = "err", ""
        except NotImplementedError:
            st, v = "ni", []
        except Exception as exc:
            st, v = "other", f"{type(exc).__name__}: {exc}"[:200]
        return dict(st=st, v=v, ev=list(self.evals))


HIST = re.compile(r'^<<"HIST", (".*")>>$')


def generated(rep, world, lone, depth):
    """Every history that TLC generates is replayed; the outcomes have to be those of the specification."""
    cfg = tempfile.NamedTemporaryFile("w", suffix=".cfg", delete=False)
    cfg.write(f"SPECIFICATION Spec\nCONSTANTS Depth = {depth}\n Lone = {'TRUE' if lone else 'FALSE'}\nINVARIANT C19\nCHECK_DEADLOCK FALSE\n")
    cfg.close()
    try:
        r = tlc.tlc("RegistryGen", cfg.name)
    finally:
        os.unlink(cfg.name)
    if not r["completed"]:
        raise tlc.TlcError("RegistryGen: " + tlc.errors_of(r["out"]))
    n = 0
    for line in r["out"].splitlines():
        m = HIST.match(line)
        if not m:
            continue
        hist = json.loads(json.loads(m[1]))
        n += 1
        p = Player(world)
        p.play(dict(op="new", r="R", g=dict(kind="static", entries=[])))
        if not lone:
            p.play(dict(op="new", r="S", g=dict(kind="static", entries=[])))
            p.play(dict(op="new", r="C", g=dict(kind="chain", parts=["R", "S"])))
        for k, step in enumerate(hist):
            got = p.play(step["op"])
            if got != step["out"]:
                rep.violation(f"registry: {step['op']['op']} answers {got}, specified {step['out']}", dict(kind="registry history of TLC", history=[x["op"] for x in hist[: k + 1]], observed=got, specified=step["out"]))
                break
    rep.states += r["distinct"]
    rep.transitions += r["states"]
    rep.traces += n
    if not n:
        raise tlc.TlcError("RegistryGen printed no history")
    rep.part(f"all histories of {depth} operations on {'one registry' if lone else 'two registries and their chain'} (TLC), replayed", histories=n, exhaustive=True)


def random_session(rng, world):
    """A longer history with all kinds of registries."""
    world.forget()
    p, ops = Player(world), []
    uid = itertools.count()

    def do(**op):
        op["out"] = p.play(op)
        ops.append(op)

    names = list(world.types)
    ids = ["a", "b", "c", "d", "in", "e2", "A", "B", "make", ""]
    pool = rng.sample(names, 4)

    def ty():
        n = rng.choice(pool)
        return ["hint", "G"] if rng.random() < 0.1 else ["cls", n]

    def prov():
        return dict(lazy=rng.random() < 0.5, t=ty(), uid=str(next(uid)))

    content = {}

    def new_static():
        r = f"r{len(content)}"
        entries = [[i, prov()] for i in rng.sample(ids, rng.randint(0, 3))]
        via = rng.choice(["plain", "setting", "class"])
        content[r] = [i for i, _ in entries]
        do(op="new", r=r, g=dict(kind="static", entries=entries, parts=[]), via=via, some=rng.random() < 0.5)

    for _ in range(rng.randint(1, 3)):
        new_static()
    everything = list(content)
    for kind in ("import", "ep"):
        if rng.random() < 0.5:
            everything.append(kind)
            do(op="new", r=kind, g=dict(kind=kind, entries=world.ep if kind == "ep" else [], parts=[]), via=rng.choice(["plain", "setting"]))
    for k in range(rng.randint(0, 2)):
        parts = [rng.choice(everything) for _ in range(rng.randint(0, 4))]
        do(op="new", r=f"c{k}", g=dict(kind="chain", entries=[], parts=parts), via=rng.choice(["plain", "setting"]))
        everything.append(f"c{k}")
    for _ in range(rng.randint(5, 25)):
        r = rng.choice(everything)
        x = rng.random()
        if x < 0.35:
            r = rng.choice(list(content))
            pr, i = prov(), rng.choice(ids[:-1])
            via = rng.choice(["deco", "dict", "default"])
            if r in p.holder and not pr["lazy"] and pr["t"][0] == "cls" and rng.random() < 0.6:
                via = "union"
            if via == "default" and not pr["lazy"]:
                if pr["t"][0] != "cls":
                    via = "deco"
                else:
                    i = world.types[pr["t"][1]].__name__
            if i not in content[r]:
                content[r].append(i)
            do(op="reg", r=r, id=i, p=pr, via=via)
        elif x < 0.42:
            r = rng.choice(list(content))
            if content[r]:
                i = rng.choice(content[r])
                content[r].remove(i)
                do(op="del", r=r, id=i)
        elif x < 0.65:
            known = content.get(r) or world.import_ids
            use = ids if rng.random() < 0.3 else known
            if r not in content and rng.random() < 0.6:
                use = world.import_ids
            do(op="byid", r=r, id=rng.choice(use))
        elif x < 0.9:
            t = ty() if rng.random() < 0.8 else ["cls", rng.choice(names)]
            do(op="byty", r=r, t=t)
        else:
            do(op="ids", r=r)
    return dict(env=world.env, ops=[{k: v for k, v in o.items() if k not in ("via", "some")} for o in ops]), ops


def part(rep):
    import time

    world = World()
    try:
        quick = rep.tier == "quick"
        for lone, depth in ((True, 4), (False, 3)) if quick else ((True, 5), (False, 4)):
            if not rep.violations:
                generated(rep, world, lone, depth)
        if not rep.violations:
            import regthreads

            regthreads.part(rep, world)
        t0 = time.time()
        rounds = total = 0
        while (rounds == 0 or (not quick and time.time() - t0 < 240)) and not rep.violations:
            rng = random.Random(f"C19-{rep.seed}-{rounds}")
            batch = [random_session(rng, world) for _ in range(1500)]
            res, r = tlc.check_sessions([d for d, _ in batch], module="RegistryTrace")
            rep.states += r["distinct"]
            rep.transitions += r["states"] - len(batch)
            rep.traces += len(batch)
            for (i, l), (st, clause) in sorted(res.items()):
                op = batch[i][1][l]
                rep.count(f"{op['op']}: {st}")
                if clause:
                    rep.violation(f"{clause}: {op['op']} on {op['r']}: {op['out']}", dict(kind="registry history", clause=clause, history=batch[i][1][: l + 1], package=world.pkg))
                    break
            if batch:
                rep.sample(dict(history=[dict(op=o["op"], r=o["r"], out=o["out"]) for o in batch[0][1]][:8]))
            rounds += 1
            total += len(batch)
        rep.part("random histories of static, chained, importable and entry point registries, validated", rounds=rounds, histories=total)
    finally:
        world.close()

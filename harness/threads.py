"""Conversions that run at the same time: every interleaving of their calls into user code, as MCThreads enumerates
them, replayed with one thread per conversion, and with conversions inside one another."""

import itertools
import json
import math
import os
import threading

import run
from mc import CLS, LIST, F, D, I, L, NONE, S, OBJ, ANN, UNION, VAR, INT, STR, OPT, MAP, Program, _deco, _glob, _mapper, _reg, cls_record, close_facts, conv, dc, explore, judge_diffs, norm, probe, replay, same, scalars_of, setting, tup

PATIENCE = 20


def scene(full):
    """Classes, converters and conversions; every nested value is a call of the converter "tap"."""
    T = VAR("T")
    fl, rem = setting("Flattened", (True,)), setting("Remainder", (True,))
    decls = {
        "P": dc("P", [F("x", INT), F("y", OPT(INT))]),
        "DEF": dc("DEF", [F("a", INT, "val", I(1)), F("b", LIST(INT), "fac", L())]),
        "SX": dc("SX", [F("p", ANN(CLS("P"), fl)), F("m", ANN(MAP("dict", STR, INT), rem))]),
        "G": dc("G", [F("v", T)], params=("T",)),
        "XK": dc("XK", [F("x", ANN(INT, setting("Alias", ("k", "x")))), F("z", INT, "val", I(3))], settings=(setting("ExtraKeys", (True, "rec1")),)),
        "NE": dc("NE", [F("p", CLS("P")), F("e", INT, "val", I(0))]),
        "CU": dc("CU", [F("c", INT)], settings=(setting("JsonConverter", ("cwrap",)),)),
        "NT": cls_record("nt", "NT", own=(F("p", INT), F("q", STR))),
        "TD": cls_record("td", "TD", own=(F("p", INT), F("q", STR)), total=False),
        "R": dc("R", [F("n", OPT(CLS("R")))]),
        "EN": cls_record("enum", "EN", members=(dict(n="a", aliases=("A1",), val=I(1)), dict(n="b", aliases=(), val=I(2)))),
    }
    convs = {"tap": conv("decline", log=True), "cwrap": conv("deleg", when="CU", log=True, **{"as": LIST(INT)}), "creent": conv("reent", when="bool", **{"as": LIST(INT)}), "craise": conv("raise", when="NT")}
    prelude = [_mapper("m1", "s1"), _reg("m1", "creent", True), _reg("m1", "tap", True)]
    off = ("list", (setting("Strict", (False,)),))
    sd = ("list", (setting("SerializeDefaults", (False,)),))
    members = (("p", CLS("P")), ("xk", CLS("XK")))
    un = {s: ANN(UNION(CLS("P"), CLS("XK")), setting("Union", (s, "type", "", members))) for s in ("flat", "nested", "keyed", "best_match")}
    obj = OBJ("P", ("x", I(1)), ("y", NONE))
    probes = [
        probe("load", CLS("P"), D(("x", I(1)), ("y", I(2)))),
        probe("load", CLS("P"), D(("x", S("1")), ("y", NONE))),
        probe("load", CLS("P"), D(("x", S("1"))), w=off),
        probe("load", CLS("P"), D(("x", I(1)), ("u", I(2)))),
        probe("dump", CLS("P"), obj),
        probe("dump", CLS("DEF"), OBJ("DEF", ("a", I(1)), ("b", L())), w=sd),
        probe("dump", CLS("DEF"), OBJ("DEF", ("a", I(1)), ("b", L()))),
        probe("load", CLS("DEF"), D(("b", L(I(5))))),
        probe("load", CLS("SX"), D(("x", I(1)), ("zz", I(2)))),
        probe("dump", CLS("SX"), OBJ("SX", ("p", obj), ("m", D(("k", I(1)))))),
        probe("load", CLS("G", INT), D(("v", I(1)))),
        probe("load", CLS("G", LIST(STR)), D(("v", L(S("a"))))),
        probe("load", CLS("XK"), D(("k", I(1)), ("zz", I(2)))),
        probe("load", CLS("XK"), D(("x", I(1)), ("yy", I(2)), ("z", I(9)))),
        probe("load", CLS("NE"), D(("p", D(("x", I(1)))), ("e", I(1)))),
        probe("load", un["flat"], D(("type", S("p")), ("x", I(1)))),
        probe("load", un["flat"], D(("type", S("xk")), ("k", I(1)), ("q", I(2)))),
        probe("dump", un["nested"], obj),
        probe("load", un["best_match"], D(("k", I(1)))),
        probe("load", CLS("CU"), L(I(1), I(2))),
        probe("load", LIST(("plain", "bool", ())), L(L(I(1)))),
        probe("load", CLS("NT"), L(I(1), S("a"))),
        probe("load", MAP("dict", STR, INT), D(("a", I(1)), ("b", I(2)))),
        probe("load", ("tuple", "", (INT, STR)), L(I(1), S("a"))),
        probe("load", CLS("R"), D(("n", D(("n", NONE))))),
    ]
    if full:
        probes += [
            probe("load", CLS("TD"), D(("p", I(1)))),
            probe("dump", CLS("TD"), D(("q", S("a")))),
            probe("load", un["keyed"], D(("xk", D(("k", I(1)), ("zz", I(2)))))),
            probe("dump", un["flat"], obj),
            probe("load", LIST(CLS("EN")), L(S("A1"), S("no"))),
            probe("dump", LIST(UNION(INT, STR)), L(I(1), S("a"))),
            probe("load", ("coll", "set", (INT,)), L(I(1), I(1))),
        ]
    for p in probes:
        p["m"] = "m1"
    return decls, convs, prelude, probes


class Team:
    """Runs conversions step by step, each in a thread of its own."""

    def __init__(self, w, ops, values):
        self.w, self.ops, self.values = w, ops, values
        self.outs = [None] * len(ops)
        self.turn = [threading.Semaphore(0) for _ in ops]
        self.back = threading.Semaphore(0)
        self.me = threading.local()

    def gate(self):
        i = getattr(self.me, "i", None)
        if i is not None:
            self.back.release()
            self.turn[i].acquire()

    def body(self, i):
        self.me.i = i
        self.turn[i].acquire()
        try:
            self.outs[i] = convert(self.w, self.ops[i], self.values[i])
        finally:
            self.me.i = None
            self.back.release()

    def go(self, schedule):
        self.w.prog.gate = self.gate
        threads = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.ops))]
        for t in threads:
            t.start()
        rest = itertools.cycle(range(len(self.ops)))
        steps = iter(schedule)
        count = 0
        while any(o is None for o in self.outs):
            i = next(steps, None)
            if i is None:
                i = next(rest)
            if self.outs[i] is not None:
                continue
            count += 1
            self.turn[i].release()
            if not self.back.acquire(timeout=PATIENCE) or count > 2000:
                for j, o in enumerate(self.outs):
                    if o is None:
                        self.outs[j] = dict(st="hang", v=("none", "", ()), p=(), ev=("none", "", ()), et=("nonetype", "", ()), nm=False, errs=(), log=(), flags=(), tr=())
                return self.outs
        for t in threads:
            t.join(PATIENCE)
        self.w.prog.gate = None
        return self.outs


def convert(w, op, value):
    from databind.core import Direction

    d = op["dir"]
    f = w.converter_fn(op, d)
    return run.outcome(w.prog, lambda: f(value), value=value, filename=None, direction=Direction.SERIALIZE if d == "dump" else Direction.DESERIALIZE, timeout=None)[0]


def inside(w, ops, values, k):
    """ops[1] runs within the k-th call of user code of ops[0]."""
    prog = w.prog
    state = dict(n=0, out=None)

    def gate():
        state["n"] += 1
        if state["n"] == k and state["out"] is None:
            prog.gate = None
            saved, exc = prog.log.items, prog.exc_objs.items
            state["out"] = convert(w, ops[1], values[1])
            prog.log.items, prog.exc_objs.items = saved, exc
            prog.gate = gate

    prog.gate = gate
    outer = convert(w, ops[0], values[0])
    prog.gate = None
    return [outer, state["out"]]


def part(rep):
    full = rep.tier == "thorough"
    decls, convs, prelude, probes = scene(full)
    env = Program(decls, convs).env()
    F_ = close_facts(scalars_of([prelude, probes, list(decls.values()), I(0)], set()))
    base = dict(env=dict(env, F=F_), prelude=prelude, probes=probes)
    n = len(probes)
    cases, r = explore("MCThreads", dict(base, teams=[[i + 1] for i in range(n)]), dict(Emit="TRUE"), ["Isolated"])
    steps, alone = {}, {}
    for team, hist, outs in cases:
        if hist:
            steps[team[0] - 1] = len(hist)
        else:
            o = outs[0]
            alone[team[0] - 1] = {k: tup(x) if k != "errs" else [dict(p=tup(e["p"])) for e in x] for k, x in o.items()}
    rep.states += r["distinct"]
    rep.transitions += r["states"]
    limit = 3500 if full else 260
    teams = [(i, j) for i in range(n) for j in range(i, n) if math.comb(steps[i] + steps[j], steps[i]) <= limit]
    if full:
        teams += [(i, j, k) for i in range(n) for j in range(i, n) for k in range(j, n) if steps[i] + steps[j] + steps[k] <= 8]
    cases, r = explore("MCThreads", dict(base, teams=[[i + 1 for i in t] for t in teams]), dict(Emit="TRUE"), ["Isolated"])
    rep.states += r["distinct"]
    rep.transitions += r["states"]
    cases = sorted((tuple(i - 1 for i in team), tuple(i - 1 for i in hist)) for team, hist, outs in cases if hist)
    work = [("threads", t, h) for t, h in cases] + [("inside", (i, j), k) for i in range(n) for j in range(n) for k in range(1, len(alone[i]["log"]) + 1)]
    rep.part("MCThreads: all interleavings of the calls into user code, replayed with threads; all conversions inside another", states=r["distinct"], conversions=n, teams=len(teams),
             schedules=len(cases), nested=len(work) - len(cases))
    worlds = []

    def one(x):
        kind, team, how = work[x]
        if not worlds:
            worlds.append(run.World(Program(decls, convs)))
            for op in prelude:
                worlds[0].run(op)
        w = worlds[0]
        ops = [{k: v for k, v in probes[i].items() if k != "kind"} for i in team]
        made = {i: w.value(probes[i]["v"]) for i in team}  # conversions of the same value share it
        values = [made[i] for i in team]
        outs = Team(w, ops, values).go(how) if kind == "threads" else inside(w, ops, values, how)
        for op, o in zip(ops, outs):
            op["out"] = o or run.outcome(w.prog, lambda: None)[0]
        if any(o["st"] == "hang" for o in outs if o):
            worlds.clear()
        if all(o is not None and same(alone[i], o) for i, o in zip(team, outs)):
            return None
        return run.session_data(dict(prog=w.prog, ops=[*prelude, *ops], prop=rep.prop))

    diffs, k = replay(one, len(work), chunk=100)
    if os.environ.get("VERIF_DEBUG"):
        for i, d, why in diffs[:: max(1, len(diffs) // 8)]:
            print("REFERRED", work[i], why, [o["out"] for o in d["ops"] if "out" in o] if d else "")
    rep.traces += k
    rep.count("MCThreads: schedules replayed", k)
    judge_diffs(rep, "MCThreads", diffs, lambda i: f"schedule {work[i]}: " + "; ".join(f"{probes[p]['dir']} {probes[p]['t']}"[:80] for p in work[i][1]))

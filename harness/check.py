"""check PROPERTY [quick|thorough]: decides a property for the code in /repo's working tree.

Exit 0: held on everything explored; exit 1 with a VIOLATION line: it is broken; exit 2: no answer."""

import argparse
import json
import os
import pathlib
import random
import sys
import time
import traceback

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))

VERIF = pathlib.Path(__file__).resolve().parent.parent
LEVEL = "model_checking"


class Report:
    """What a run of a check explored and found."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.counts = {}
        self.samples = []
        self.parts = []
        self.violations = []
        self.known = []
        self.assumptions = []

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def violation(self, what, replay):
        """what: one line; replay: data that reproduces it."""
        self.violations.append((what, replay))

    def part(self, name, **kw):
        self.parts.append(dict(part=name, **kw))

    def left(self, budget):
        return budget - (time.time() - self.t0)


def known_findings():
    p = VERIF / "known_findings.txt"
    out = []
    for line in p.read_text().splitlines() if p.exists() else []:
        line = line.strip()
        if line.startswith("finding: property="):
            head, _, what = line[len("finding: property="):].partition(" ")
            ident, _, text = what.partition(" ")
            out.append((head, ident, text))
    return out


def finish(rep):
    known = [(i, text) for p, i, text in known_findings() if p == rep.prop]
    new, seen = [], set()
    for what, replay in rep.violations:
        ident = replay.get("ident", "")
        hit = [t for i, t in known if i == ident and ident]
        if hit:
            seen.add((ident, hit[0]))
        else:
            new.append((what, replay))
    for ident, text in sorted(seen):
        print(f"KNOWN-FINDING: property={rep.prop} {ident} {text}")
    ev = dict(
        property=rep.prop, tier=rep.tier, seed=rep.seed, level=LEVEL,
        coverage=dict(states=rep.states, transitions=rep.transitions, traces_validated_against_impl=rep.traces, samples=rep.samples,
                      counts=rep.counts, parts=rep.parts, exhaustive=False),
        assumptions=rep.assumptions, wall_s=round(time.time() - rep.t0, 2), violations=len(new),
    )
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{rep.prop}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
    print(f"{rep.prop} {rep.tier}: {rep.states} states, {rep.traces} executions validated, {len(new)} violations, {ev['wall_s']} s")
    if new:
        (VERIF / "replays").mkdir(exist_ok=True)
        for k, (what, replay) in enumerate(new[:5]):
            path = VERIF / "replays" / f"{rep.prop}-{k}.json"
            path.write_text(json.dumps(dict(property=rep.prop, what=what, **replay), indent=1, default=str) + "\n")
            print(f"  {what}")
        print(f"VIOLATION property={rep.prop} replay={VERIF / 'replays' / (rep.prop + '-0.json')}")
        return 1
    return 0


# -- recorded random executions against the specification -----------------------------------------------------------------


def run_random(rep, n, seed, budget=None):
    import sessions

    items = sessions.generate(rep.prop, seed, n)
    good = [x for x in items if x[0] is not None]
    for data, why in items:
        if data is None:
            if why.startswith("error"):
                # a few sessions that the harness cannot carry out are left out
                rep.count("sessions that the harness could not carry out")
                if sum(1 for _, w in items if isinstance(w, str) and w.startswith("error")) > max(3, n // 200):
                    raise RuntimeError(why)
            if why.startswith("refused"):
                rep.violation("a well-formed program is refused: " + why.splitlines()[-1], dict(kind="random", key=why.split()[1], detail=why))
            rep.count("programs Python refuses" if not why.startswith("refused") else "programs refused")
    verdicts, tot = sessions.judge(good)
    rep.states += tot["states"]
    rep.transitions += tot["transitions"]
    rep.traces += len(good)
    rep.count("operations judged", tot["ops"])
    for desc, l, st, clause in verdicts:
        op = desc["ops"][l]
        if op["op"] in ("convert", "text", "roundtrip", "twice"):
            rep.count("conversions: " + {"ok": "specified to succeed", "err": "specified to be refused", "exc": "specified to raise a user exception"}.get(st, "specification is silent"))
            if st in ("ok", "err") and l > 0 and not clause:
                rep.sample(dict(key=desc["key"], op=l, type=op["t"], value=op["v"], dir=op.get("dir", op["op"]), outcome=(op.get("out") or op["outs"][0])["st"]))
        if clause:
            rep.violation(f"{clause}: {op['op']} {op.get('dir', '')} {op.get('t')} {str(op.get('v'))[:200]}",
                          dict(kind="random", key=desc["key"], op_index=l, clause=clause, specified=st, source=desc["source"], settings=desc["tables"],
                               convs=desc["convs"], ops=[{k: v for k, v in o.items() if k not in ("out", "outs")} for o in desc["ops"][: l + 1]],
                               observed=op.get("outs") or op.get("out")))
    return tot


RANDOM = {"quick": 2500, "thorough": 2500}


def part_random(rep):
    from profiles import PROFILES

    if rep.prop not in PROFILES:
        return
    t0 = time.time()
    if rep.tier == "quick":
        run_random(rep, RANDOM["quick"], rep.seed)
        rounds = 1
    else:
        rounds = 0
        while (rounds == 0 or time.time() - t0 < 420) and not rep.violations:
            run_random(rep, RANDOM["thorough"], f"{rep.seed}.{rounds}")
            rounds += 1
    rep.part("random executions validated against SessionTrace", rounds=rounds, wall_s=round(time.time() - t0, 1))


def part_registry(rep):
    if rep.prop == "C19":
        import registry

        registry.part(rep)


def part_dataclass(rep):
    if rep.prop == "C18":
        import dcext

        dcext.part(rep)


def part_mc(rep):
    import mc

    mc.part_conv(rep)
    mc.part_schema(rep)
    mc.part_hist(rep)
    mc.part_class(rep)
    if rep.prop == "C06":
        import contexts

        contexts.part(rep)
    if rep.prop == "C22":
        import threads

        threads.part(rep)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--only", help="only this part")
    args = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    rep = Report(args.prop, args.tier, seed)
    parts = [("random", part_random), ("registry", part_registry), ("dataclass", part_dataclass), ("mc", part_mc)]
    try:
        for name, fn in parts:
            if args.only in (None, name):
                fn(rep)
    except Exception:
        traceback.print_exc()
        if rep.violations:
            return finish(rep)
        return 2
    return finish(rep)


if __name__ == "__main__":
    sys.exit(main())

"""Runs random sessions of a profile in worker processes and has the specification judge them."""

import multiprocessing
import os
import random
import time
import traceback

import model
import run
import tlc
from profiles import PROFILES


class BuildFailure(Exception):
    pass


def make_one(prop, key):
    """Returns (data for the specification, description for people) or (None, reason)."""
    rng = random.Random(key)
    try:
        s = PROFILES[prop](rng)
        s["prop"] = prop
        data = run.run_session(s)
    except (RecursionError, model.BadProgram) as exc:
        return None, f"program that Python refuses: {type(exc).__name__}"
    prog = s["prog"]
    desc = {
        "key": key,
        "source": list(prog.src.values()),
        "tables": {k: repr(v) for k, v in enumerate(prog.tables)},
        "decls": prog.decls,
        "convs": prog.convs,
        "ops": s["ops"],
        "opts": {"future": sorted(prog.future), "quote": sorted(prog.quote), "pep585": prog.pep585},
    }
    prog.close()
    return data, desc


def _worker(args):
    prop, keys = args
    out = []
    for key in keys:
        try:
            out.append(make_one(prop, key))
        except Exception as exc:
            inside = any("/databind/" in f.filename and "/verif/" not in f.filename for f in traceback.extract_tb(exc.__traceback__))
            out.append((None, ("refused: " if inside else "error: ") + key + "\n" + traceback.format_exc(limit=-6)))
    return out


def generate(prop, seed, n, procs=8, chunk=20):
    keys = [f"{prop}-{seed}-{k}" for k in range(n)]
    parts = [(prop, keys[k : k + chunk]) for k in range(0, n, chunk)]
    with multiprocessing.get_context("fork").Pool(procs) as pool:
        res = pool.map(_worker, parts, chunksize=1)
    return [x for part in res for x in part]


def judge(items, batch=600, procs=1):
    """items: [(data, desc)]; yields (desc, op index, model outcome, clause) and returns totals."""
    verdicts, totals = [], dict(states=0, transitions=0, wall=0.0, ops=0)
    for a in range(0, len(items), batch):
        part = items[a : a + batch]
        res, r = tlc.check_sessions([d for d, _ in part])
        totals["states"] += r["distinct"]
        totals["transitions"] += r["states"] - len(part)
        totals["wall"] += r["wall"]
        totals["ops"] += len(res)
        for (i, l), (st, clause) in sorted(res.items()):
            verdicts.append((part[i][1], l, st, clause))
    return verdicts, totals

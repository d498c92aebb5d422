"""C19: two lookups at the same time. Threads that are stopped at every line of the code under test; for every pair of lookups
that TLC prints, one is stopped after k lines, the other one answers, the first one goes on - for all k."""

import json
import re
import sys
import threading

import tlc
from registry import Player

PAIR = re.compile(r'^<<"PAIR", (".*")>>$')
PATIENCE = 20
BLOCKED = 5  # schedules in which a thread waits for the other one, after which the part ends: the code takes turns by itself


class Stepper:
    """A thread that makes one step (to the next line of the code under test) at a time."""

    def __init__(self, fn):
        self.fn, self.out, self.done, self.steps = fn, None, False, 0
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.thread = threading.Thread(target=self.body, daemon=True)
        self.thread.start()

    def body(self):
        self.go.acquire()
        sys.settrace(self.trace)
        try:
            self.out = self.fn()
        finally:
            sys.settrace(None)
            self.done = True
            self.back.release()

    def trace(self, frame, event, arg):
        if "/databind/" not in frame.f_code.co_filename or "/verif/" in frame.f_code.co_filename:
            return None
        if event == "line":
            self.back.release()
            self.go.acquire()
        return self.trace

    def step(self):
        """False if it waits for something, such as a lock."""
        self.go.release()
        self.steps += 1
        return self.back.acquire(timeout=PATIENCE)

    def finish(self):
        while not self.done:
            if not self.step():
                return False
        self.thread.join(PATIENCE)
        return True


def interleave(fns, k):
    """The first stops after k steps until the second is done. Returns their results (None if they do not come), if the first was
    still at work, and if one waited."""
    a, b = (Stepper(f) for f in fns)
    while not a.done and a.steps < k:
        if not a.step():
            return None, False, True
    stopped = not a.done
    if b.finish():
        return ([a.out, b.out] if a.finish() else None), stopped, False
    # The second waits for the first.
    if not a.finish() or not b.back.acquire(timeout=PATIENCE) or not b.finish():
        return None, stopped, True
    return [a.out, b.out], stopped, True


def question(player, op):
    def ask():
        p = Player(player.w)
        p.regs = player.regs
        got = p.play(op)
        return dict(st=got["st"], v=got["v"])

    return ask


def part(rep, world):
    r = tlc.tlc("RegistryThreads", tlc.SPEC / "RegistryThreads.cfg")
    if not r["completed"]:
        raise tlc.TlcError("RegistryThreads: " + tlc.errors_of(r["out"]))
    pairs = [json.loads(json.loads(m[1])) for m in map(PAIR.match, r["out"].splitlines()) if m]
    if not pairs:
        raise tlc.TlcError("RegistryThreads printed no pair")
    n = blocked = 0
    for pair in sorted(pairs, key=json.dumps):
        k, stopped = 0, True
        while stopped and not rep.violations and blocked < BLOCKED:
            k += 1
            p = Player(world)
            for name, g in pair["regs"]:
                made = p.play(dict(op="new", r=name, g=g))
                if made["st"] != "ok":
                    raise tlc.TlcError(f"RegistryThreads: {made}")
            outs, stopped, waited = interleave([question(p, op) for op in pair["ops"]], k)
            n += 1
            blocked += waited
            if outs is None and waited:
                continue
            if outs != pair["outs"]:
                rep.violation(f"lookups at the same time: {pair['ops']}, the first stopped after {k} lines, answer {outs}, specified {pair['outs']}",
                              dict(kind="two lookups", ops=pair["ops"], stopped_after=k, observed=outs, specified=pair["outs"]))
    rep.states += r["distinct"]
    rep.transitions += r["states"]
    rep.traces += n
    rep.part("RegistryThreads: pairs of lookups, the first stopped at every line for the second one", pairs=len(pairs), schedules=n, waited=blocked, exhaustive=blocked < BLOCKED)

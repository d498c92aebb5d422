"""Chains of contexts: every chain that TLC generates from Contexts.tla is built by converters of the test's own, the last of
which refuses its value; the contexts of the error and the trace in its message have to be those of the specification."""

import json
import os
import re
import tempfile

import tlc
from databind.core import ConversionError, ObjectMapper
from databind.core.context import Context, Direction, Location, format_context_trace
from databind.core.converter import Converter

CHAIN = re.compile(r'^<<"CHAIN", (".*")>>$')
TYPES = [int, str, float, bool]


def location(l):
    if l["file"] == "inherit":
        return None
    return Location(*(None if l[k] == "None" else l[k] if k == "file" else int(l[k]) for k in ("file", "line", "col")))


def key(k):
    return {"root": lambda: Context.ROOT, "none": lambda: None, "str": lambda: k[1]}.get(k[0], lambda: eval(k[1]))()


class Walker(Converter):
    """Spawns the rest of the chain."""

    def convert(self, ctx):
        if not self.rest:
            raise ConversionError(self, ctx, "refused")
        c = self.rest.pop(0)
        self.n += 1
        args = (ctx.value + 1, TYPES[self.n % len(TYPES)], key(c["key"]))
        loc = location(c["given"])
        return (ctx.spawn(*args) if loc is None else ctx.spawn(*args, loc)).convert()


def play(mapper, walker, hist, direction):
    chain = hist["chain"]
    walker.rest, walker.n = list(chain[1:]), 0
    try:
        mapper.convert(direction, 0, TYPES[0], location(chain[0]["given"]))
    except ConversionError as exc:
        error = exc
    else:
        return "no error is raised"
    ctxs = list(error.context.iter_hierarchy_up())[::-1]
    got = [(c.key, c.value, c.direction, c.location) for c in ctxs]
    want = [(key(c["key"]), i, direction, location(c["loc"])) for i, c in enumerate(chain)]
    if got != want:
        return f"contexts {got}, specified {want}"
    lines = []
    for x, c in zip(hist["lines"], ctxs):
        if x["file"]:
            lines.append(f'In "{x["file"]}"')
        lines.append(f"  {x['key']}: {c.datatype}" + (" " + x["at"] if x["at"] else ""))
    trace = format_context_trace(error.context)
    if trace.split("\n") != lines:
        return f"trace {trace.splitlines()}, specified {lines}"
    message = [x.strip() for x in str(error).split("\n")]
    if [x for x in message if x in {y.strip() for y in lines}] != [y.strip() for y in lines]:
        return f"message {message} does not have the trace {lines}"


def part(rep):
    depth, wide = (4, 2) if rep.tier == "quick" else (4, 3)
    cfg = tempfile.NamedTemporaryFile("w", suffix=".cfg", delete=False)
    cfg.write(f"SPECIFICATION Spec\nCONSTANTS Depth = {depth}\n Wide = {wide}\nINVARIANTS C06 Emit\nCHECK_DEADLOCK FALSE\n")
    cfg.close()
    try:
        r = tlc.tlc("Contexts", cfg.name)
    finally:
        os.unlink(cfg.name)
    if not r["completed"]:
        raise tlc.TlcError("Contexts: " + tlc.errors_of(r["out"]))
    mapper, walker = ObjectMapper(), Walker()
    mapper.module.register(walker)
    n = bad = 0
    for line in r["out"].splitlines():
        m = CHAIN.match(line)
        if not m:
            continue
        hist = json.loads(json.loads(m[1]))
        n += 1
        why = play(mapper, walker, hist, Direction.DESERIALIZE if n % 2 else Direction.SERIALIZE)
        if why:
            bad += 1
            if bad <= 5:
                rep.violation(f"contexts: {why}"[:600], dict(kind="chain of contexts of TLC", chain=hist["chain"], specified=hist["lines"], observed=why))
    rep.states += r["distinct"]
    rep.transitions += r["states"]
    rep.traces += n
    if not n:
        raise tlc.TlcError("Contexts printed no chain")
    rep.part(f"all chains of up to {depth} contexts with locations of their own (TLC), replayed", chains=n, exhaustive=True)

"""Runs TLC on a module of /verif/spec and collects what it reports."""

import json
import os
import pathlib
import re
import shutil
import subprocess
import tempfile
import time

VERIF = pathlib.Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


def tlc(module, cfg, *, env=None, workers=8, args=(), timeout=800, heap="4g", name=None):
    """Returns dict(out, states, distinct, steps, violated, wall)."""
    tmp = tempfile.mkdtemp(prefix="tlc_")
    try:
        cmd = ["java", "-Xss64m", f"-Xmx{heap}", "-XX:+UseParallelGC", f"-XX:ParallelGCThreads={min(workers, 4)}", "-XX:TieredStopAtLevel=4",
               "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", tmp, "-workers", str(workers), "-config", str(cfg), *args, str(SPEC / f"{module}.tla")]
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=SPEC, env={**os.environ, **(env or {})}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as e:
            raise TlcError(f"{module}: TLC did not finish within {timeout} s")
        out = p.stdout
        r = {"out": out, "rc": p.returncode, "wall": time.time() - t0, "states": 0, "distinct": 0}
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
        if m:
            r["states"], r["distinct"] = (int(x.replace(",", "")) for x in m[-1])
        r["violated"] = re.findall(r"Error: Invariant (\w+) is violated|Error: Action property (\w+) is violated", out)
        r["completed"] = "Model checking completed. No error has been found." in out
        return r
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def errors_of(out):
    lines = [x[:400] for x in out.splitlines() if not x.startswith('<<"')]
    for k, x in enumerate(lines):
        if x.startswith("Error:"):
            return "\n".join(lines[k : k + 40])
    return "\n".join(lines[-40:])


STEP = re.compile(r'^<<"STEP", (\d+), (\d+), "([^"]*)", "([^"]*)">>$')


def check_sessions(sessions, *, module="SessionTrace", workers=8, timeout=800):
    """sessions: data of run.session_data(); returns ({(session, op): (model outcome, clause)}, tlc result); 0-based."""
    fd, path = tempfile.mkstemp(prefix="batch_", suffix=".json")
    try:
        with os.fdopen(fd, "w") as f:
            json.dump(sessions, f)
        r = tlc(module, SPEC / f"{module}.cfg", env={"VERIF_BATCH": path}, workers=workers, timeout=timeout)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            os.unlink(path)
    res = {}
    for line in r["out"].splitlines():
        m = STEP.match(line)
        if m:
            res[int(m[1]) - 1, int(m[2]) - 1] = (m[3], m[4])
    if not r["completed"]:
        raise TlcError(f"{module}: " + errors_of(r["out"]))
    want = sum(len(s["ops"]) for s in sessions)
    if len(res) != want:
        raise TlcError(f"{module}: {len(res)} of {want} operations were judged")
    return res, r

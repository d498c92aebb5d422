"""Plant a bug: plant.py FILE...  Each FILE (python) defines ID, PROPERTY, EDITS [(file, old, new)], NEEDS, BREAKS, DEMO (python source).

The change is made in a scratch copy, the stable tests are run there, and the demonstration on both trees; what holds is
written to seeded/ID/."""
import json, os, pathlib, shutil, subprocess, sys, tempfile
V = pathlib.Path(__file__).resolve().parent.parent
BASE = "de249b9"
DEMO_SH = '''#!/bin/bash
# run in the repository: exit 0 if the property holds here
export PYTHONPATH="$PWD/databind/src" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if "stable" in json.load(open("/opt/vp/BASELINE.json")) else None

def plant(path):
    ns = {}
    exec(pathlib.Path(path).read_text(), ns)
    bid = ns["ID"]
    tmp = pathlib.Path(tempfile.mkdtemp(prefix="plant-"))
    try:
        w = tmp / "repo"
        subprocess.run(["cp", "-a", "/repo", str(w)], check=True)
        for f, old, new in ns["EDITS"]:
            p = w / "databind/src/databind" / f
            s = p.read_text()
            if s.count(old) != 1:
                return f"{bid}: {f}: occurs {s.count(old)} times: {old[:60]!r}"
            base = subprocess.run(["git", "-C", "/repo", "show", f"{BASE}:databind/src/databind/{f}"], capture_output=True, text=True).stdout.splitlines()
            p.write_text(s.replace(old, new))
        d = subprocess.run(["git", "-C", str(w), "diff"], capture_output=True, text=True).stdout
        cur = None
        for l in d.splitlines():
            if l.startswith("--- "):
                cur = l[6:]
                base = subprocess.run(["git", "-C", "/repo", "show", f"{BASE}:{cur}"], capture_output=True, text=True).stdout.splitlines()
            elif l.startswith("-") and l[1:].strip() and l[1:] not in base:
                print(f"  {bid}: not an original line: {l[1:]}")
        env = dict(os.environ, PYTHONPATH=str(w / "databind/src"), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "src/", "-q", "-p", "no:cacheprovider", "--continue-on-collection-errors"],
                           cwd=w / "databind", env=env, capture_output=True, text=True)
        tail = r.stdout.strip().splitlines()[-1]
        if "67 passed" not in tail:
            return f"{bid}: tests: {tail}\n" + "\n".join(x for x in r.stdout.splitlines() if x.startswith("FAILED"))[:600]
        out = tmp / "bug"
        out.mkdir()
        (out / "demo.sh").write_text(DEMO_SH)
        os.chmod(out / "demo.sh", 0o755)
        (out / "demo.py").write_text(ns["DEMO"].lstrip("\n"))
        a = subprocess.run(["bash", str(out / "demo.sh")], cwd="/repo", capture_output=True, text=True, timeout=300)
        b = subprocess.run(["bash", str(out / "demo.sh")], cwd=w, capture_output=True, text=True, timeout=300)
        if a.returncode != 0 or b.returncode == 0:
            return f"{bid}: demo: clean {a.returncode} {a.stderr[-600:]} patched {b.returncode} {b.stderr[-300:]}"
        (out / "patch.diff").write_text(d)
        (out / "meta.json").write_text(json.dumps(dict(property=ns["PROPERTY"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), indent=1) + "\n")
        dst = V / "seeded" / bid
        if dst.exists():
            shutil.rmtree(dst)
        shutil.copytree(out, dst)
        return f"{bid}: planted ({b.stderr.strip().splitlines()[-1][:150] if b.stderr.strip() else b.returncode})"
    finally:
        shutil.rmtree(tmp)

for f in sys.argv[1:]:
    print(plant(f))

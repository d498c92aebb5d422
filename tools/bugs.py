"""Run the check of every planted bug's property against a patched scratch copy: bugs.py [-t TIER] [-j N] [ID...]"""
import argparse, json, os, pathlib, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
V = pathlib.Path(__file__).resolve().parent.parent
ap = argparse.ArgumentParser(); ap.add_argument("-t", default="quick"); ap.add_argument("-j", type=int, default=3); ap.add_argument("-s", default="1"); ap.add_argument("-p", help="another property's check"); ap.add_argument("ids", nargs="*")
a = ap.parse_args()
def run(bid):
    d = V / "seeded" / bid
    prop = a.p or json.loads((d / "meta.json").read_text())["property"]
    tmp = pathlib.Path(tempfile.mkdtemp(prefix="bug-"))
    try:
        subprocess.run(["cp", "-a", "/repo", str(tmp / "repo")], check=True)
        subprocess.run(["git", "-C", str(tmp / "repo"), "apply", str(d / "patch.diff")], check=True)
        subprocess.run(["cp", "-a", "--", *[str(V / x) for x in ("spec", "harness", "check", "known_findings.txt")], str(tmp)], check=True)
        env = dict(os.environ, VERIF_REPO=str(tmp / "repo"), VERIF_SEED=a.s, VERIF_TIER=a.t)
        r = subprocess.run([str(tmp / "check"), prop, a.t], env=env, capture_output=True, text=True)
        viol = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        what = [l.strip() for l in r.stdout.splitlines() if l.startswith("  ")]
        return bid, prop, r.returncode, bool(viol), (what or (r.stderr or r.stdout).strip().splitlines()[-1:] or [""])[0][:110]
    finally:
        shutil.rmtree(tmp)
ids = a.ids or sorted(x.name for x in (V / "seeded").iterdir())
with ThreadPoolExecutor(a.j) as ex:
    n = 0
    for bid, prop, rc, v, what in ex.map(run, ids):
        n += rc == 1 and v
        print(f"{'CAUGHT' if rc == 1 and v else 'MISSED' if rc == 0 else 'ERROR '} {bid} {prop} rc={rc} {what}", flush=True)
print(f"{n} of {len(ids)} caught")

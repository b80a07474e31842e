"""Run all checks against edits which keep the behaviour: quiet.py SPEC.py [--seed N] [--jobs J] [--checks C01,..] [NAME ...]"""
import argparse
import concurrent.futures
import os
import runpy
import shutil
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("spec")
ap.add_argument("names", nargs="*")
ap.add_argument("--seed", default="1")
ap.add_argument("--jobs", type=int, default=3)
ap.add_argument("--checks", default=",".join(f"C{i:02d}" for i in range(1, 25)))
args = ap.parse_args()
edits = runpy.run_path(args.spec)["EDITS"]


def one(name):
    scratch = f"/tmp/quiet_{name}"
    shutil.rmtree(scratch, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", scratch], check=True)
    out = []
    for path, old, new in edits[name]:
        text = open(f"{scratch}/{path}").read()
        if old not in text:
            shutil.rmtree(scratch)
            return f"{name}: text not found in {path}: {old!r}"
        open(f"{scratch}/{path}", "w").write(text.replace(old, new))
    for c in args.checks.split(","):
        r = subprocess.run([f"{HERE}/check.sh", c], capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=scratch, VERIF_SEED=args.seed))
        if r.returncode:
            lines = [ln for ln in r.stdout.splitlines() if ln.startswith(f"{c}/")] + r.stderr.splitlines()[-2:]
            out.append(f"{c} exit {r.returncode}: " + " | ".join(ln[:400] for ln in lines[:3]))
    shutil.rmtree(scratch)
    return f"{name}: " + ("; ".join(out) or "quiet")


with concurrent.futures.ThreadPoolExecutor(args.jobs) as pool:
    for res in pool.map(one, args.names or edits):
        print(res, flush=True)

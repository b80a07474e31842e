"""
Make and confirm planted bugs: plant.py SPEC.py [ID ...] [--no-tests] [--checks C01,C02 | --all-checks]

SPEC.py defines BUGS, a list of dicts with id, property, edits [(file, old, new)], needs, breaks, demo (Python source).
Each is applied to a scratch copy of /repo; the demonstration has to pass on /repo and fail on the copy, and the stable
tests have to pass there (the copy is bind-mounted over /repo in a mount namespace of its own). Confirmed bugs go to
seeded/ID.
"""
import argparse
import json
import os
import runpy
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\nexec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'


def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("spec")
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--no-tests", action="store_true")
    ap.add_argument("--checks")
    ap.add_argument("--all-checks", action="store_true")
    ap.add_argument("--seed", default="1")
    args = ap.parse_args()
    bugs = runpy.run_path(args.spec)["BUGS"]
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for bug in bugs:
        bid = bug["id"]
        if args.ids and bid not in args.ids:
            continue
        scratch = f"/tmp/plant_{bid}"
        shutil.rmtree(scratch, ignore_errors=True)
        run(["cp", "-a", "/repo", scratch])
        ok = True
        for path, old, new in bug["edits"]:
            full = os.path.join(scratch, path)
            text = open(full).read()
            if text.count(old) < 1:
                print(f"{bid}: text not found in {path}: {old!r}")
                ok = False
                break
            open(full, "w").write(text.replace(old, new, 1))
        if not ok:
            shutil.rmtree(scratch)
            continue
        diff = run(["git", "-C", scratch, "diff"]).stdout
        out = f"/tmp/plantout_{bid}"
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(f"{out}/patch.diff", "w").write(diff)
        open(f"{out}/demo.sh", "w").write(DEMO_SH)
        os.chmod(f"{out}/demo.sh", 0o755)
        open(f"{out}/demo.py", "w").write(bug["demo"].lstrip("\n"))
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                  open(f"{out}/meta.json", "w"), indent=1)
        good = run(["bash", f"{out}/demo.sh"], cwd="/repo")
        bad = run(["bash", f"{out}/demo.sh"], cwd=scratch)
        msg = [f"demo {good.returncode}/{bad.returncode}"]
        if good.returncode:
            msg.append(good.stderr[-400:])
        ok = good.returncode == 0 and bad.returncode != 0
        if ok:
            msg.append("(" + (bad.stderr.strip().splitlines() or [""])[-1][:120] + ")")
        if ok and not args.no_tests:
            res = f"{out}.json"
            run(["unshare", "-m", "bash", "-c", f"mount --bind {scratch} /repo && bash /opt/vp/test.sh {res}"])
            passed = set(json.load(open(res))["passed"])
            os.remove(res)
            lost = stable - passed
            msg.append(f"tests {'ok' if not lost else 'LOST ' + str(sorted(lost)[:3])}")
            ok = not lost
        checks = [bug["property"]]
        if args.checks:
            checks = args.checks.split(",")
        if args.all_checks:
            checks = [f"C{i:02d}" for i in range(1, 25)]
        if ok:
            for c in checks:
                env = dict(os.environ, VERIF_REPO=scratch, VERIF_SEED=args.seed)
                r = run([f"{HERE}/check.sh", c], env=env)
                hit = r.returncode == 1 and f"VIOLATION property={c}" in r.stdout
                lines = [ln for ln in r.stdout.splitlines() if ln.startswith(f"{c}/")]
                if hit:
                    msg.append(f"{c} CAUGHT {lines[0][:160] if lines else ''}")
                elif not args.all_checks or r.returncode:
                    msg.append(f"{c} {'missed' if r.returncode == 0 else 'EXIT ' + str(r.returncode)} {r.stderr[-300:]}")
            if not args.no_tests:
                dest = os.path.join(HERE, "seeded", bid)
                shutil.rmtree(dest, ignore_errors=True)
                shutil.copytree(out, dest)
        print(f"{bid} [{bug['property']}]: " + "; ".join(msg), flush=True)
        shutil.rmtree(scratch)
        shutil.rmtree(out)


if __name__ == "__main__":
    sys.exit(main())

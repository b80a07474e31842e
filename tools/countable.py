"""Lists planted bugs whose patch removes no line of the original repository"""
import re, subprocess, pathlib, sys
REPO = "/repo"
base = "d90497a"
cache = {}
def origin(f):
    if f not in cache:
        out = subprocess.run(["git", "-C", REPO, "blame", "-l", "HEAD", "--", f], capture_output=True, text=True).stdout.splitlines()
        bl = subprocess.run(["git", "-C", REPO, "rev-list", base], capture_output=True, text=True).stdout.split()
        cache[f] = [l.split()[0].lstrip("^")[:39] in {b[:39] for b in bl} for l in out]
    return cache[f]
for d in sorted(pathlib.Path("/verif/seeded").iterdir()):
    old = new = 0; f = None; n = 0
    for line in (d / "patch.diff").read_text().splitlines():
        if line.startswith("--- a/"): f = line[6:]; continue
        if line.startswith("+++"): continue
        m = re.match(r"@@ -(\d+)", line)
        if m: n = int(m[1]); continue
        if line.startswith("-"):
            if origin(f)[n-1] and line[1:].strip() and not line[1:].strip().startswith("#"): old += 1
            else: new += 1
            n += 1
        elif line.startswith(" "): n += 1
    if not old: print(d.name, "own lines", new)

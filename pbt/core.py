"""
Engine of the property-based checks.

A property module (props/cNN.py) declares RULE, ASSUMPTIONS and FACETS.  A facet
is a Hypothesis strategy for JSON-serialisable cases plus a function that runs
one case against the code under test and raises Violation when the property is
broken.  The engine spreads the cases of all facets over forked workers (each a
separately seeded Hypothesis run), lets Hypothesis shrink the first failure of a
worker, confirms it in a fresh process, saves it as a replay file, and writes the
evidence file.
"""
import contextlib
import hashlib
import json
import os
import signal
import sys
import tempfile
import time
import traceback
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.dont_write_bytecode = True
# Never read byte code left behind by other builds of the code under test
sys.pycache_prefix = "/nonexistent/verif-pycache"
for var in ("OMP_NUM_THREADS", "MKL_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ[var] = "1"
warnings.filterwarnings("ignore")

import numpy as np  # noqa: E402
import torch  # noqa: E402

torch.set_num_threads(1)


def _import_hypothesis():
    """Import the tool venv's Hypothesis without exposing its other packages"""
    paths = ["/opt/veriftools/pyvenv/lib/python3.12/site-packages"]
    for path in paths:
        if os.path.isdir(os.path.join(path, "hypothesis")):
            sys.path.insert(0, path)
            try:
                import hypothesis  # noqa: F401
                import hypothesis.strategies  # noqa: F401
                import sortedcontainers  # noqa: F401
            finally:
                sys.path.remove(path)
            return
    # Fall back on the offline wheels
    import glob
    import zipfile

    target = tempfile.mkdtemp(prefix="verif-hyp-")
    for pat in ("hypothesis-6.170*cp312*", "sortedcontainers-*"):
        for whl in glob.glob(os.path.join("/opt/veriftools/wheels", pat)):
            zipfile.ZipFile(whl).extractall(target)
    sys.path.insert(0, target)
    import hypothesis  # noqa: F401
    import hypothesis.strategies  # noqa: F401
    import sortedcontainers  # noqa: F401

    sys.path.remove(target)


_import_hypothesis()
import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, given, settings  # noqa: E402
from hypothesis import strategies as st  # noqa: E402

sys.path.insert(0, REPO)


class Violation(Exception):
    """The code under test breaks the property on the current case"""


class Skip(Exception):
    """The current case lies outside of the property's domain"""


class Ctx:
    """Collects labels of one case"""

    def __init__(self):
        self.labels = set()
        self.skipped = False

    def label(self, *names):
        self.labels.update(str(n) for n in names)


class Facet:
    def __init__(self, name, strategy, run, quick, thorough=None, shard=None):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else 25 * quick
        self.shard = shard  # preferred number of cases per worker job


@contextlib.contextmanager
def sut(what):
    """Exceptions raised inside, where the property promises a value"""
    try:
        yield
    except (Violation, Skip):
        raise
    except Exception as err:
        tb = traceback.extract_tb(err.__traceback__)
        where = [f"{os.path.basename(f.filename)}:{f.name}" for f in tb[-3:]]
        raise Violation(
            f"{what}: raised {type(err).__name__}: {str(err)[:300]} ({' > '.join(where)})"
        ) from err


def check(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def refuses(fun, what, types=(Exception,)):
    """fun must raise one of types"""
    try:
        out = fun()
    except types:
        return
    except Exception as err:
        raise Violation(
            f"{what}: refused with {type(err).__name__} ({err}) rather than "
            f"{'/'.join(t.__name__ for t in types)}"
        )
    shape = tuple(out.shape) if hasattr(out, "shape") else out
    raise Violation(f"{what}: accepted, returned {type(out).__name__} {shape}")


def to_np(t):
    if isinstance(t, torch.Tensor):
        t = t.detach().resolve_conj().resolve_neg().cpu().numpy()
    return np.asarray(t)


def close(actual, expected, tol, what):
    """Elementwise |actual - expected| <= tol, infinities have to match"""
    a, e = to_np(actual), np.asarray(expected)
    if a.shape != e.shape:
        raise Violation(f"{what}: shape {a.shape}, expected {e.shape}")
    if a.size == 0:
        return
    tol = np.broadcast_to(np.asarray(tol, dtype=float), e.shape)
    with np.errstate(all="ignore"):
        ok = (np.abs(a - e) <= tol) | (a == e)
    if not ok.all():
        i = tuple(int(k) for k in np.argwhere(~ok)[0])
        raise Violation(
            f"{what}: element {list(i)} is {a[i]!r}, expected {e[i]!r} "
            f"(tolerance {tol[i]:.3g}, {int((~ok).sum())} of {ok.size} wrong)"
        )


def same(actual, expected, what):
    """Exactly equal arrays (NaN equal to itself)"""
    a, e = to_np(actual), to_np(expected)
    check(a.shape == e.shape, f"{what}: shape {a.shape}, expected {e.shape}")
    check(np.array_equal(a, e, equal_nan=a.dtype.kind in "fc"), f"{what}: values changed")


def subseed(*parts):
    digest = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(digest[:6], "big")


def reset_state(case):
    """Start every case from the same global state"""
    s = subseed("case", json.dumps(case, sort_keys=True)) % (2**31)
    torch.set_default_dtype(torch.float32)
    torch.set_grad_enabled(True)
    torch.manual_seed(s)
    np.random.seed(s)


def run_case(facet, case):
    """Run one case, returns (ctx, nontrivial)"""
    ctx = Ctx()
    reset_state(case)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            nontrivial = facet.run(case, ctx)
    except Skip:
        ctx.skipped = True
        nontrivial = False
    except Violation:
        raise
    except Exception as err:
        # Raised by the code under test on an input that it has to accept?
        frames = traceback.extract_tb(err.__traceback__)
        inside = os.path.realpath(os.path.join(REPO, "torchmps")) + os.sep
        if any(os.path.realpath(f.filename).startswith(inside) for f in frames):
            raise Violation(
                f"unexpected {type(err).__name__}: {str(err)[:300]} "
                f"({' > '.join(f'{os.path.basename(f.filename)}:{f.name}' for f in frames[-3:])})"
            ) from err
        if isinstance(err, (ValueError, IndexError, RuntimeError)):
            # Results of the code under test which do not fit the reference
            raise Violation(
                f"the results cannot be compared with the reference: {type(err).__name__}: {str(err)[:300]} "
                f"({' > '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in frames[-3:])})"
            ) from err
        raise
    finally:
        torch.set_default_dtype(torch.float32)
        torch.set_grad_enabled(True)
    return ctx, bool(nontrivial)


CASE_LIMIT = 120  # seconds; the slowest cases take a few seconds


def _limit_shrinking(seconds):
    try:
        import hypothesis.internal.conjecture.engine as eng

        if hasattr(eng, "MAX_SHRINKING_SECONDS"):
            eng.MAX_SHRINKING_SECONDS = seconds
    except Exception:
        pass


def worker(facet, seed, count, out_path, cur_path):
    """Run one Hypothesis session, leave its result in out_path"""
    res = {
        "evaluations": 0, "nontrivial": [], "labels": {}, "skipped": 0,
        "samples": [], "failure": None, "error": None,
    }
    _limit_shrinking(40)
    seen = set()
    last = {}
    cur = open(cur_path, "w")

    def body(case):
        text = json.dumps(case, sort_keys=True)
        cur.seek(0)
        cur.write(text)
        cur.truncate()
        cur.flush()
        res["evaluations"] += 1
        t0 = time.monotonic()
        try:
            ctx, nontrivial = run_case(facet, case)
        except Violation as err:
            last["case"], last["msg"] = case, str(err)
            raise
        took = time.monotonic() - t0
        if took > res.get("slowest", (0, None))[0]:
            res["slowest"] = (took, case)
        if ctx.skipped:
            res["skipped"] += 1
        for name in ctx.labels:
            res["labels"][name] = res["labels"].get(name, 0) + 1
        if nontrivial:
            h = hashlib.sha256(text.encode()).hexdigest()[:16]
            if h not in seen:
                seen.add(h)
                if len(seen) in (1, 40, 200):
                    res["samples"].append(case)

    test = given(facet.strategy)(body)
    test = settings(
        max_examples=count, database=None, deadline=None, print_blob=False,
        suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
        phases=[Phase.generate, Phase.shrink],
    )(test)
    test = hypothesis.seed(seed)(test)
    try:
        with open(os.devnull, "w") as null, contextlib.redirect_stdout(null):
            test()
    except BaseException as err:
        if last:
            res["failure"] = last
        else:
            res["error"] = "".join(traceback.format_exception(err))[-4000:]
    else:
        if last:  # a violation which Hypothesis could not reproduce
            res["failure"] = last
    res["nontrivial"] = sorted(seen)
    with open(out_path, "w") as f:
        json.dump(res, f)


def fork_call(fun, limit):
    """Run fun in a forked child, returns 'ok', 'exit', 'signal' or 'timeout'"""
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.setpgid(0, 0)
            fun()
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            os._exit(code)
    t0 = time.monotonic()
    while True:
        done, status = os.waitpid(pid, os.WNOHANG)
        if done:
            if os.WIFSIGNALED(status):
                return "signal"
            return "ok" if os.WEXITSTATUS(status) == 0 else "exit"
        if time.monotonic() - t0 > limit:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            return "timeout"
        time.sleep(0.005)


def confirm(facet, case, tmp):
    """Run one case in a fresh process, returns the violation message or None"""
    path = os.path.join(tmp, "confirm.json")
    if os.path.exists(path):
        os.remove(path)

    def child():
        out = {"msg": None}
        try:
            run_case(facet, case)
        except Violation as err:
            out["msg"] = str(err)
        with open(path, "w") as f:
            json.dump(out, f)

    how = fork_call(child, CASE_LIMIT)
    if how == "ok":
        return json.load(open(path))["msg"], None
    if how == "timeout":
        return f"no result after {CASE_LIMIT} s (such cases take well below 10 s)", None
    if how == "signal":
        return "the process died of a signal", None
    return None, "the harness failed on this case"


def run_property(prop, module, tier, seed, jobs=None, only=None, scale=1.0):
    t0 = time.monotonic()
    facets = [f for f in module.FACETS if not only or f.name in only]
    ncpu = jobs or min(8, os.cpu_count() or 1)
    queue = []
    for f in facets:
        total = f.quick if tier == "quick" else f.thorough
        total = max(1, int(total * scale))
        if tier == "quick":
            shards = max(1, min(ncpu, total // (f.shard or 20)))
        else:
            shards = max(1, min(4 * ncpu, total // (f.shard or 20)))
        for k in range(shards):
            n = total // shards + (1 if k < total % shards else 0)
            if n:
                queue.append((f, k, subseed(prop, f.name, k, tier, seed), n))
    # Long jobs first would need estimates; interleave shards of all facets
    queue.sort(key=lambda j: j[1])

    tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    results, running, failures, errors = [], {}, [], []
    try:
        todo = list(enumerate(queue))
        while todo or running:
            while todo and len(running) < ncpu and not failures:
                idx, (f, k, s, n) = todo.pop(0)
                out, cur = os.path.join(tmp, f"o{idx}"), os.path.join(tmp, f"c{idx}")
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.setpgid(0, 0)
                        worker(f, s, n, out, cur)
                        os._exit(0)
                    except BaseException:
                        traceback.print_exc()
                        os._exit(3)
                running[pid] = [idx, f, s, n, out, cur, time.monotonic(), -1]
            if failures:
                todo = []
            if not running:
                break
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                now = time.monotonic()
                for p, r in list(running.items()):
                    try:
                        mt = os.stat(r[5]).st_mtime_ns
                    except OSError:
                        mt = 0
                    if mt != r[7]:
                        r[7], r[6] = mt, now
                    elif now - r[6] > CASE_LIMIT:
                        os.kill(p, signal.SIGKILL)
                time.sleep(0.01)
                continue
            if pid not in running:
                continue
            idx, f, s, n, out, cur, _, _ = running.pop(pid)
            shard = {"facet": f.name, "seed": s, "count": n}
            if os.path.exists(out):
                r = json.load(open(out))
                r["facet"] = f.name
                results.append(r)
                if r["error"]:
                    errors.append((f.name, r["error"]))
                if r["failure"]:
                    failures.append((idx, f, r["failure"]["case"], r["failure"]["msg"], shard))
            else:  # killed, crashed or stuck in the middle of a case
                try:
                    case = json.load(open(cur))
                except Exception:
                    case = None
                if case is None:
                    errors.append((f.name, f"worker died with status {status}"))
                else:
                    msg, err = confirm(f, case, tmp)
                    if msg:
                        failures.append((idx, f, case, msg, shard))
                    else:
                        errors.append((f.name, err or f"worker died with status {status}, not reproducible"))

        violations = []
        for idx, f, case, msg, shard in sorted(failures, key=lambda x: x[0])[:3]:
            again, err = confirm(f, case, tmp)
            kind = "case" if again else "shard"
            violations.append((f, case, again or msg, kind, shard))
    finally:
        import shutil

        shutil.rmtree(tmp, ignore_errors=True)

    known = load_known(prop)
    code = 0
    reported = 0
    for f, case, msg, kind, shard in violations:
        hit = next((k for k in known if k["facet"] == f.name and k["match"] in msg), None)
        if hit:
            continue
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        tag = hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:8]
        path = os.path.join(VERIF, "replays", f"{prop}-{f.name}-{tag}.json")
        with open(path, "w") as fh:
            json.dump({"property": prop, "facet": f.name, "kind": kind, "case": case,
                       "message": msg, "shard": shard}, fh, indent=1)
        print(f"{prop}/{f.name}: {msg}")
        print(f"  case: {json.dumps(case)[:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
        reported += 1
        code = 1
    for name, err in errors[:3]:
        print(f"HARNESS ERROR in {prop}/{name}:\n{err}", file=sys.stderr)
    if errors and code == 0:
        code = 2

    per, labels, nontriv, samples = {}, {}, set(), []
    for r in results:
        p = per.setdefault(r["facet"], {"evaluations": 0, "distinct_nontrivial": set(), "outside_domain": 0})
        p["evaluations"] += r["evaluations"]
        slow = r.get("slowest")
        if slow and slow[0] > p.get("slowest_s", 0):
            p["slowest_s"], p["slowest_case"] = round(slow[0], 2), slow[1]
        p["outside_domain"] += r["skipped"]
        p["distinct_nontrivial"].update(r["nontrivial"])
        for k, v in r["labels"].items():
            labels[f"{r['facet']}:{k}"] = labels.get(f"{r['facet']}:{k}", 0) + v
        nontriv.update((r["facet"], h) for h in r["nontrivial"])
    for name in per:
        got = [c for r in results if r["facet"] == name for c in r["samples"]]
        samples += [{"facet": name, "case": c} for c in got[:2]]
        per[name]["distinct_nontrivial"] = len(per[name]["distinct_nontrivial"])
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": len(nontriv),
            "rule": module.RULE,
            "samples": samples,
            "facets": per,
            "labels": dict(sorted(labels.items())),
            "exhaustive": False,
        },
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": reported,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(evidence, fh, indent=1)
    ev = evidence["coverage"]
    print(f"{prop} {tier} seed={seed}: {ev['evaluations']} cases, "
          f"{ev['distinct_nontrivial']} distinct non-trivial, {evidence['wall_s']} s, exit {code}")
    return code


COMMON_ASSUMPTIONS = [
    "PyTorch and NumPy kernels on CPU compute what they document; no GPU is available",
    "tensor contents come from a NumPy generator whose seed and style are part of the generated case",
    "rounding errors are allowed for by a bound proportional to the machine epsilon and to the "
    "same contraction of absolute values",
]


def load_known(prop):
    """Known findings that are not repaired: finding: property=<id> facet=<name> match=<text>"""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: "):
                head, _, match = line.strip().partition(" match=")
                fields = dict(p.split("=", 1) for p in head.split()[1:] if "=" in p)
                if fields.get("property") == prop:
                    out.append({"facet": fields["facet"], "match": match})
                    print(f"KNOWN-FINDING: property={prop} {match}")
    return out


def replay(prop, module, path):
    data = json.load(open(path))
    facet = next(f for f in module.FACETS if f.name == data["facet"])
    tmp = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        if data["kind"] == "case":
            msg, err = confirm(facet, data["case"], tmp)
        else:
            sh = data["shard"]
            out = os.path.join(tmp, "o")
            how = fork_call(
                lambda: worker(facet, sh["seed"], sh["count"], out, os.path.join(tmp, "c")), 3000
            )
            r = json.load(open(out)) if how == "ok" else {"failure": None, "error": how}
            msg = r["failure"]["msg"] if r["failure"] else None
            err = r["error"]
    finally:
        import shutil

        shutil.rmtree(tmp, ignore_errors=True)
    if msg:
        print(f"{prop}/{facet.name}: {msg}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if err:
        print(err, file=sys.stderr)
        return 2
    print(f"{prop}/{facet.name}: replay holds")
    return 0

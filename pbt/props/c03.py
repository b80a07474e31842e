import gc
import sys
import threading

from common import *
from core import *

RULE = (
    "A case is a pool of 2-4 models of different classes and sizes with a history of evaluations (row "
    "selections with repeats and any batch size), refused inputs and new models; or 2-3 threads evaluating "
    "models under a generated schedule that switches threads between chosen source lines; or one evaluation "
    "in a fresh process. Non-trivial when at least two evaluations with different batch sizes happen."
)


@st.composite
def spec(draw):
    kind = draw(st.sampled_from(["mps", "mps", "mps", "adaptive", "ti", "prob", "unif"]))
    bond = draw(st.integers(1, 3))
    s = {"kind": kind, "seed": draw(seeds), "raw": draw(st.booleans()),
         "scale": draw(st.sampled_from([1.0, 1.0, 1.0, 1e-3, 2e3]))}
    # A feature map that evaluates another model itself, with a batch size of its own
    s["nested"] = draw(st.integers(0, 3)) == 3
    # Rows that are nearly the same
    s["close"] = draw(st.sampled_from([None, None, 1e-9, 1e-6, 1e-4]))
    if kind in ("mps", "adaptive"):
        n = draw(st.integers(1, 5))
        s["cfg"] = {
            "input_dim": n, "output_dim": draw(st.integers(1, 3)), "bond_dim": bond, "feature_dim": 2,
            "label_site": draw(st.integers(0, n)), "periodic_bc": draw(st.booleans()),
            "parallel_eval": draw(st.booleans()),
        }
        if kind == "mps":
            s["cfg"]["use_bias"] = draw(st.booleans())
        else:
            s["cfg"].update(adaptive_mode=True, merge_threshold=10**6, cutoff=1e-10)
    elif kind == "ti":
        s["cfg"] = {"output_dim": draw(st.integers(1, bond)), "bond_dim": bond, "feature_dim": 2,
                    "parallel_eval": draw(st.booleans()), "fixed_ends": draw(st.booleans()),
                    "use_bias": True, "fixed_bias": True}
    else:
        s["cfg"] = {"uniform": kind == "unif", "seq_len": draw(st.integers(1, 4)), "input_dim": 2,
                    "bond_dim": bond, "complex_params": draw(st.booleans()),
                    "use_bias": draw(st.booleans()), "init_method": "near_eye"}
        s["strategy"] = draw(st.sampled_from(
            ["default", "parallel"] if s["cfg"]["use_bias"] else list(STRATEGIES)))
    return s


ROWS = 6


class Subject:
    """A model with a bank of inputs and their reference outputs"""

    def __init__(self, s, dtype):
        self.s, self.dtype = s, dtype
        kind, cfg = s["kind"], s["cfg"]
        rng = rng_of(s["seed"], 3)
        with sut("constructing a model"):
            self.model = (make_mps(cfg) if kind in ("mps", "adaptive") else make_ti(cfg) if kind == "ti"
                          else make_prob(cfg))
        fill(self.model, s["seed"], "normal", s.get("scale", 1.0))
        if s.get("nested") and s["raw"] and kind in ("mps", "adaptive", "ti"):
            with sut("constructing a model"):
                inner = make_mps({"input_dim": 2, "output_dim": 2, "bond_dim": 2, "feature_dim": 2,
                                  "label_site": s["seed"] % 3, "periodic_bc": bool(s["seed"] % 2), "use_bias": True})

            def nested(x):
                with torch.no_grad():
                    inner(torch.zeros(1 + s["seed"] % 5, 2, dtype=DT[dtype]))
                return torch.stack([x, 1 - x])

            self.model.register_feature_map(nested)
        if kind == "ti":
            lens = rng.integers(1, 6, size=ROWS)
            self.bank = [tens(rng.random((n,) if s["raw"] else (n, 2)), dtype) for n in lens]
        elif kind in ("mps", "adaptive"):
            n = cfg["input_dim"]
            self.bank = [tens(rng.random((n,) if s["raw"] else (n, 2)), dtype) for _ in range(ROWS)]
        else:
            n = cfg["seq_len"]
            if s["raw"]:
                self.bank = [torch.tensor(rng.integers(0, 2, size=n)) for _ in range(ROWS)]
            else:
                self.bank = [tens(rng.normal(size=(n, 2)), dtype) for _ in range(ROWS)]
        if s.get("close") and self.bank[0].is_floating_point():
            for k in range(1, ROWS, 2):
                self.bank[k] = self.bank[k - 1] * (1 + s["close"] * tens(rng.random(self.bank[k - 1].shape), dtype))
        self.buffers = {}
        self.epoch = -1
        self.refer()

    def refer(self):
        """Reference outputs with the current parameters"""
        s, dtype = self.s, self.dtype
        kind, cfg = s["kind"], s["cfg"]
        self.epoch += 1
        self.ref, self.tol = [], []
        for x in self.bank:
            a = to_np(x)
            if kind in ("mps", "adaptive"):
                ex = (embed_default(a) if s["raw"] else a)[None]
                ch = chain_of(self.model)
                self.ref.append(ref_mps(ch, ex, cfg["periodic_bc"])[0])
                self.tol.append(chain_tol(ch, ex, cfg["periodic_bc"], dtype)[0])
            elif kind == "ti":
                ex = embed_default(a) if s["raw"] else a
                self.ref.append(ref_ti(self.model, ex))
                self.tol.append(64 * EPS[dtype] * 60 * ref_ti(self.model, ex, absval=True))
            else:
                self.ref.append(onehot_np(a, 2) if s["raw"] else a)
        if kind in ("prob", "unif"):
            p = prob_params(self.model, cfg["seq_len"])
            if not probs_domain_ok(*p, dtype):
                raise Skip

    def batch(self, rows):
        seqs = [self.bank[r].clone() if r < ROWS else self.wild(r) for r in rows]
        if self.s["kind"] != "ti":
            return torch.stack(seqs)
        lens = {len(s) for s in seqs}
        return torch.stack(seqs) if len(lens) == 1 and rows[0] % 2 else seqs

    def wild(self, r):
        """Values without a meaning, which mustn't spread to other rows (probabilistic models refuse them)"""
        x = self.bank[r % ROWS].clone()
        if self.s["kind"] not in ("prob", "unif"):
            x.view(-1)[rng_of(self.s["seed"], r).integers(x.numel())] = [np.nan, np.inf, -np.inf][r % 3]
        return x

    def reused(self, rows):
        """The batch in a buffer that was used before for batches of the same shape"""
        x = self.batch(rows)
        if not isinstance(x, torch.Tensor):
            return [self.buffers.setdefault(("list", k, len(s)), s).copy_(s) for k, s in enumerate(x)]
        return self.buffers.setdefault(tuple(x.shape), x).copy_(x)

    def call(self, x):
        if self.s["kind"] in ("prob", "unif"):
            return self.model(x, **STRATEGIES[self.s["strategy"]])
        return self.model(x)

    def verify(self, y, rows, what):
        check(len(y) == len(rows), f"{what}: {len(y)} outputs for {len(rows)} inputs")
        if max(rows) >= ROWS:
            good = [k for k, r in enumerate(rows) if r < ROWS or self.s["kind"] in ("prob", "unif")]
            if not good:
                return
            y, rows = y[good], [rows[k] % ROWS for k in good]
            what += " next to infinities or NaN"
        if self.s["kind"] in ("prob", "unif"):
            p = prob_params(self.model, self.s["cfg"]["seq_len"])
            check_logp(y, *p, np.stack([self.ref[r] for r in rows]), self.dtype, what)
        else:
            close(y, np.stack([self.ref[r] for r in rows]), np.stack([self.tol[r] for r in rows]), what)

    def state(self):
        return {k: v.clone() for k, v in self.model.state_dict().items()}

    def bad_input(self, which):
        """Something that the model has to refuse"""
        kind, cfg = self.s["kind"], self.s["cfg"]
        if kind in ("mps", "adaptive"):
            n = cfg["input_dim"]
            return [torch.zeros(4, n + 1), torch.zeros(5, n, 3), torch.zeros(7)][which % 3]
        if kind == "ti":
            return [torch.zeros(4, 3, 5), [torch.zeros(2), torch.zeros(2, 2)], torch.zeros(7)][which % 3]
        n = cfg["seq_len"]
        return [torch.zeros(4, n, 3), torch.full((4, n), 9), torch.zeros(3)][which % 3]


@st.composite
def histories(draw):
    pool = draw(st.lists(spec(), min_size=2, max_size=4))
    ops = []
    for _ in range(draw(st.integers(2, 10))):
        m = draw(st.integers(0, len(pool) - 1))
        op = draw(st.sampled_from(["eval", "eval", "eval", "eval", "reuse", "reuse", "bad", "new", "grad", "values", "load", "eval mode",
                                   "train mode", "freeze", "nograd", "inference"]))
        o = {"op": op, "m": m}
        if op in ("eval", "grad", "reuse", "nograd", "inference"):
            o["rows"] = draw(st.lists(st.integers(0, ROWS - 1), min_size=1, max_size=7))
            if draw(st.integers(0, 5)) == 5:
                o["rows"].insert(draw(st.integers(0, len(o["rows"]))), draw(st.integers(ROWS, ROWS + 5)))
            # Many rows, most of them several times
            more = draw(st.sampled_from([0] * 12 + [40, 130, 300]))
            if more:
                o["rows"] = (o["rows"] * more)[:more]
                o["rows"][more // 2] = draw(st.integers(0, ROWS - 1))
            o["later"] = draw(st.booleans())
        elif op == "bad":
            o["which"] = draw(st.integers(0, 2))
        elif op in ("new", "values", "load"):
            o["seed"] = draw(seeds)
        ops.append(o)
    return {"pool": pool, "ops": ops, "dtype": draw(dtypes), "thread": draw(st.booleans()),
            # The default type while models of the type above are evaluated
            "ambient": draw(st.sampled_from([None, None, "float32", "float64"]))}


def global_state():
    import random

    return (bytes(torch.get_rng_state().numpy()),
            repr(np.random.get_state()), random.getstate(), torch.get_default_dtype(), torch.is_grad_enabled(),
            torch.is_inference_mode_enabled(), torch.is_anomaly_enabled(), np.geterr())


GLOBALS = ("state of torch's random generator", "state of NumPy's random generator", "state of Python's random generator",
           "default dtype", "gradient mode", "inference mode", "anomaly mode", "NumPy's error handling")


def eval_and_check(sub, rows, what, grad=False, reuse=False, keep=None):
    x = sub.reused(rows) if reuse else sub.batch(rows)
    xs = list(x) if isinstance(x, list) else x
    before = [t.clone() for t in x] if isinstance(x, list) else x.clone()
    st0 = sub.state()
    around = global_state()
    with sut(what):
        y = sub.call(x)
    for name, a, b in zip(GLOBALS, around, global_state()):
        check(a == b, f"{what} changed the {name}")
    sub.verify(y, rows, what)
    if keep is not None:
        keep.append((what, sub, x, y, y.detach().clone(), sub.epoch))
    if grad:
        with sut("backward of " + what):
            if any(p.requires_grad for p in sub.model.parameters()):
                y.sum().backward()
        sub.model.zero_grad()
    if isinstance(x, list):
        check(len(x) == len(before) and all(a is b for a, b in zip(x, xs)), "the input list was changed")
        for a, b in zip(x, before):
            same(a, b, "input sequence after evaluation")
    else:
        same(x, before, "input after evaluation")
    st1 = sub.model.state_dict()
    check(st0.keys() == st1.keys(), "evaluation changed the set of parameters")
    for k in st0:
        same(st1[k], st0[k], f"parameter {k} after evaluation")


def look_back(what, sub, x, y, copy, epoch):
    """Earlier outputs are still the same, and can still be differentiated"""
    what = "outputs of an earlier " + what.split(": ")[-1]
    same(y.detach(), copy, what)
    params = [p for p in sub.model.parameters() if p.requires_grad and p.numel()]
    if epoch != sub.epoch or not y.requires_grad or not params or not torch.isfinite(copy).all():
        return

    def grads(out):
        with sut("backward through " + what):
            return torch.autograd.grad(out.sum(), params, allow_unused=True)

    with sut("evaluating again"):
        again = sub.call(x)
    for g, h in zip(grads(y), grads(again)):
        check((g is None) == (h is None), f"{what}: gradients of different parameters")
        if g is not None:
            ref = to_np(h)
            close(g, ref, (1e-3 if sub.dtype == "float32" else 1e-9) * (1 + np.abs(ref).max()),
                  f"gradients of {what}, next to those of the same evaluation now")


def run_history(case, ctx):
    torch.set_default_dtype(DT[case["dtype"]])
    subs = [Subject(s, case["dtype"]) for s in case["pool"]]
    sizes = set()
    errors, kept = [], []
    ambient = DT[case.get("ambient") or case["dtype"]]

    def another(s):
        torch.set_default_dtype(DT[case["dtype"]])
        try:
            return Subject(s, case["dtype"])
        finally:
            torch.set_default_dtype(ambient)

    def body():
        try:
            torch.set_default_dtype(ambient)
            for i, o in enumerate(case["ops"]):
                sub = subs[o["m"]]
                what = f"step {i}: evaluation of model {o['m']} ({sub.s['kind']})"
                if "rows" in o:
                    sizes.add(len(o["rows"]))
                    with {"nograd": torch.no_grad, "inference": torch.inference_mode}.get(o["op"], torch.enable_grad)():
                        eval_and_check(sub, o["rows"], what, o["op"] == "grad", o["op"] == "reuse",
                                       kept if o.get("later") and o["op"] not in ("reuse", "grad") else None)
                elif o["op"] in ("eval mode", "train mode"):
                    sub.model.train(o["op"] == "train mode")
                elif o["op"] == "freeze":
                    for p in sub.model.parameters():
                        p.requires_grad_(False)
                elif o["op"] in ("values", "load"):
                    other = another(dict(sub.s, seed=o["seed"])) if o["op"] == "load" else None
                    if other is None:
                        fill(sub.model, o["seed"], "normal", 1.0)
                    else:
                        with sut("load_state_dict"):
                            sub.model.load_state_dict(other.model.state_dict())
                    sub.refer()
                elif o["op"] == "bad":
                    st0 = sub.state()
                    around = global_state()
                    try:
                        sub.call(sub.bad_input(o["which"]))
                    except Exception:
                        ctx.label("after a refused input")
                    for name, a, b in zip(GLOBALS, around, global_state()):
                        check(a == b, f"step {i}: input of model {o['m']} ({sub.s['kind']}) that is refused changed the {name}")
                    for k, v in sub.model.state_dict().items():
                        same(v, st0[k], f"parameter {k} after a refused input")
                else:
                    new = another(dict(sub.s, seed=o["seed"]))
                    eval_and_check(new, [1, 0, 1], f"step {i}: new model ({sub.s['kind']})")
                    eval_and_check(new, [2], f"step {i}: new model ({sub.s['kind']})")
            # Finally, everyone once more one by one
            for m, sub in enumerate(subs):
                eval_and_check(sub, [m % ROWS], f"final evaluation of model {m} ({sub.s['kind']})")
            for k in kept:
                look_back(*k)
        except BaseException as err:
            errors.append(err)

    if case["thread"]:
        t = threading.Thread(target=body)
        t.start()
        t.join()
    else:
        body()
    if errors:
        raise errors[0]
    ctx.label(*{s["kind"] for s in case["pool"]})
    ctx.label("own thread" if case["thread"] else "same thread")
    return len(sizes) > 1


# ------------------------------------------------------------- interleavings


class Scheduler:
    """Runs one thread at a time, switching after given numbers of source lines"""

    def __init__(self, n, bursts):
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.alive = list(range(n))
        self.bursts = bursts
        self.pos = 0
        self.budget = 0
        self.switches = 0
        self.root = os.path.join(os.path.realpath(REPO), "torchmps") + os.sep

    def next_burst(self):
        b = self.bursts[self.pos % len(self.bursts)]
        self.pos += 1
        self.budget = b[1]
        return b[0]

    def switch(self, me, leaving=False):
        if leaving:
            self.alive.remove(me)
            if not self.alive:
                return
        pick = self.alive[self.next_burst() % len(self.alive)]
        if pick != me:
            self.switches += 1
            self.sems[pick].release()
            if not leaving:
                self.sems[me].acquire()

    def tracer(self, me):
        def local(frame, event, arg):
            if event == "line":
                self.budget -= 1
                if self.budget <= 0:
                    self.switch(me)
            return local

        def glob(frame, event, arg):
            if os.path.realpath(frame.f_code.co_filename).startswith(self.root):
                return local
            return None

        return glob


@st.composite
def interleavings(draw):
    n = draw(st.integers(2, 3))
    pool = draw(st.lists(spec(), min_size=n, max_size=n))
    jobs = [draw(st.lists(st.lists(st.integers(0, ROWS - 1), min_size=1, max_size=5), min_size=1, max_size=2))
            for _ in range(n)]
    bursts = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(1, 60)), min_size=2, max_size=20))
    return {"pool": pool, "jobs": jobs, "bursts": [list(b) for b in bursts], "shared": draw(st.booleans()),
            "dtype": "float64", "seed": draw(seeds), "equal": draw(st.booleans()),
            "modes": draw(st.sampled_from([["grad"], ["no_grad"], ["inference"], ["grad", "no_grad", "inference"]]))}


def run_threads(case, ctx):
    torch.set_default_dtype(DT[case["dtype"]])
    subs = [Subject(s, case["dtype"]) for s in case["pool"]]
    if case["shared"]:
        subs[1] = subs[0]
    if case["equal"]:  # batches of the same shapes everywhere
        case = dict(case, jobs=[[(rows + case["jobs"][0][0])[:len(case["jobs"][0][0])] for rows in job] for job in case["jobs"]])
    inputs = [[subs[k].batch(rows) for rows in case["jobs"][k]] for k in range(len(subs))]
    sched = Scheduler(len(subs), case["bursts"])
    outs = [[] for _ in subs]
    errs = [None] * len(subs)

    def body(k):
        sched.sems[k].acquire()
        sys.settrace(sched.tracer(k))
        mode = case["modes"][k % len(case["modes"])]
        try:
            with {"no_grad": torch.no_grad, "inference": torch.inference_mode}.get(mode, torch.enable_grad)():
                for x in inputs[k]:
                    outs[k].append(subs[k].call(x))
        except Exception as err:
            errs[k] = err
        finally:
            sys.settrace(None)
            sched.switch(k, leaving=True)

    threads = [threading.Thread(target=body, args=(k,)) for k in range(len(subs))]
    for t in threads:
        t.start()
    sched.budget = 10
    sched.sems[0].release()
    for t in threads:
        t.join()
    for k, sub in enumerate(subs):
        what = f"evaluation of a {sub.s['kind']} in thread {k} of {len(subs)}"
        if errs[k] is not None:
            raise Violation(f"{what}: raised {type(errs[k]).__name__}: {errs[k]}")
        for y, rows in zip(outs[k], case["jobs"][k]):
            sub.verify(y, rows, what)
    ctx.label("shared model" if case["shared"] else "own models", *case["modes"],
              "switches>10" if sched.switches > 10 else "switches<=10")
    ctx.label(*{s.s["kind"] for s in subs})
    return sched.switches > 1 and (case["equal"] or len({len(r) for j in case["jobs"] for r in j}) > 1)


@st.composite
def firsts(draw):
    return {"spec": draw(spec()), "rows": draw(st.lists(st.integers(0, ROWS - 1), min_size=1, max_size=4)),
            "dtype": "float64"}


def run_first(case, ctx):
    """The first evaluation of a process; this worker itself never evaluates anything"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        out = {"v": None, "skip": False}
        try:
            os.close(r)
            torch.set_default_dtype(DT[case["dtype"]])
            sub = Subject(case["spec"], case["dtype"])
            eval_and_check(sub, case["rows"], f"first evaluation in a process ({sub.s['kind']})")
        except Violation as err:
            out["v"] = str(err)
        except Skip:
            out["skip"] = True
        except BaseException as err:
            out["e"] = repr(err)
        os.write(w, json.dumps(out).encode())
        os._exit(0)
    os.close(w)
    data = b""
    while True:
        part = os.read(r, 65536)
        if not part:
            break
        data += part
    os.close(r)
    os.waitpid(pid, 0)
    out = json.loads(data or b'{"e": "child died"}')
    if out.get("e"):
        raise RuntimeError(out["e"])
    if out["skip"]:
        raise Skip
    check(out["v"] is None, out["v"])
    ctx.label(case["spec"]["kind"])
    return len(case["rows"]) > 1


FACETS = [
    Facet("histories", histories(), run_history, 1500),
    Facet("interleavings", interleavings(), run_threads, 1200),
    Facet("first", firsts(), run_first, 400),
]

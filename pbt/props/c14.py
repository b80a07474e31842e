from common import *
from core import *

RULE = (
    "A case is a chain of up to thousands of well-conditioned factors (positive, orthogonal or unitary matrices) times "
    "a constant far from one, optionally with factors that make the product of chosen batch entries vanish; compared "
    "with a reference that keeps mantissa and logarithm apart. Non-trivial when the value leaves the range of floating "
    "point numbers or some but not all entries vanish."
)


def long_lengths(top=3000):
    return st.one_of(st.integers(1, 40), st.integers(40, 400), st.integers(400, top))


@st.composite
def base(draw, top=3000):
    dtype = draw(st.sampled_from(["float64", "float64", "float64", "float32"]))
    case = {
        "n": draw(long_lengths(top)) if dtype == "float64" else draw(st.integers(1, 300)),
        "d": draw(st.integers(1, 4)), "dtype": dtype, "seed": draw(seeds),
        "kind": draw(st.sampled_from(["positive", "positive", "orthogonal", "unitary", "eye"])),
        "log10c": draw(st.one_of(st.just(0.0), st.floats(-30, 30), st.sampled_from([-2.0, 2.0]), st.floats(-250, 250),
                                 st.floats(-303, 303), st.sampled_from([-303.0, 303.0]))),
        "sign": draw(st.sampled_from([1, 1, -1])),
        "zeros": draw(st.sampled_from(["none", "none", "factor", "nilpotent", "orthogonal"])),
        "batch": draw(st.integers(1, 3)),
        "edges": draw(st.one_of(st.just([0, 0]), st.lists(st.integers(-250, 250), min_size=2, max_size=2))),
        "spread": draw(st.one_of(st.just(0.0), st.just(0.0), st.floats(0.2, 8))),
    }
    if abs(case["log10c"]) > 250:  # nothing can be much larger, or smaller
        case["spread"] = 0.0
    return case


def spread_of(case, i):
    """Further scale, of batch entry or symbol number i"""
    return 10.0 ** (-i * case["spread"] / (4 if case["dtype"] == "float32" else 1))


def edge_of(case, i):
    """Scale of the left and right boundary vectors"""
    e = case["edges"][i]
    return 10.0 ** (e / 10 if case["dtype"] == "float32" else e)


def symbols(rng, case, shape, i):
    """Random sequences; with a spread, most of sequence k is one symbol, so that the values in a batch differ widely"""
    x = rng.integers(0, i, size=shape)
    if case["spread"]:
        keep = rng.random(shape) < 0.2
        x = np.where(keep, x, (np.arange(shape[0]) % i)[:, None])
    return x


def factor_of(case):
    e = case["log10c"]
    if case["dtype"] == "float32":
        e = e * 25 / 250 if abs(e) > 30 else e * 8 / 30
    return case["sign"] * 10.0 ** e


def factors(rng, shape, d, kind):
    """Well-conditioned square matrices"""
    shape = tuple(shape)
    if kind == "positive":
        return 0.2 + rng.random(shape + (d, d))
    if kind == "eye":
        return np.broadcast_to(np.eye(d), shape + (d, d)) + 1e-3 * rng.random(shape + (d, d))
    g = rng.normal(size=shape + (d, d))
    if kind == "unitary":
        g = g + 1j * rng.normal(size=shape + (d, d))
    return np.linalg.qr(g)[0]


def nilpotent(rng, d):
    return np.triu(1 + rng.random((d, d)), 1)


def mantissa(mats, left, right):
    """Product of mats[0] ... mats[n-1] (n, d, d) in extended range: (mantissa, log)"""
    m, log = (np.eye(mats.shape[-1]) if left is None else left[None, :]), 0.0
    s = np.abs(m).max()
    if s > 0:
        m, log = m / s, np.log(s)
    for t in mats:
        m = m @ t
        s = np.abs(m).max()
        if s == 0:
            return np.zeros(() if left is not None and right is not None else
                            m.shape[1:] if left is not None else m.shape[:1] if right is not None else m.shape), 0.0
        m, log = m / s, log + np.log(s)
    if right is not None:
        m = m @ right[:, None]
        m = m[..., 0]
    if left is not None:
        m = m[0]
    s = np.abs(m).max()
    return (m / s, log + np.log(s)) if s > 0 else (m, 0.0)


def log_tol(case, total):
    n, eps = case["n"], EPS[case["dtype"]]
    # Sums of n equal logarithms are rounded the same way again and again
    return 64 * eps * (n + 2) * (case["d"] + 2) + 2 * eps * (n + 2) * (abs(total) + n)


def compare(value, ls, ref, what, case):
    """value * exp(ls) against the mantissa and logarithm in ref"""
    m, log = ref
    v, ls = to_np(value), np.asarray(to_np(ls), dtype=float)
    check(np.isfinite(v).all(), f"{what}: contraction not finite")
    check(np.isfinite(ls).all(), f"{what}: log scale not finite")
    check(v.shape == m.shape, f"{what}: shape {v.shape}, expected {m.shape}")
    if np.abs(m).max() == 0:
        check((np.abs(v) * np.exp(np.minimum(ls, 0)) == 0).all(), f"{what}: vanishes, yet {v!r} was returned")
        return
    tol = log_tol(case, log)
    top = np.abs(v).max()
    check(top > 0, f"{what}: zero returned, expected exp({log!r})")
    ls = ls if ls.ndim == 0 else ls.ravel()[0]
    got = np.log(top) + ls
    check(abs(got - log) <= tol, f"{what}: log magnitude {got!r}, expected {log!r} (tolerance {tol:.2g})")
    close(v / top, m, 64 * EPS[case["dtype"]] * (case["n"] + 2) * (case["d"] + 2), f"{what}: relative values")


# ------------------------------------------------------------- contract_matseq


@st.composite
def contractions(draw):
    case = draw(base())
    case.update(vecs=draw(st.sampled_from(["none", "left", "right", "both"])), parallel=draw(st.booleans()),
                aslist=draw(st.booleans()), default=draw(st.sampled_from(["same", "float32"])))
    if case["zeros"] == "orthogonal":
        case["zeros"] = "none"
    return case


def run_contraction(case, ctx):
    from torchmps.mps_base import contract_matseq

    dtype, n, d, b = case["dtype"], case["n"], case["d"], case["batch"]
    torch.set_default_dtype(torch.float32 if case["default"] == "float32" else DT[dtype])
    rng = rng_of(case["seed"], 1)
    c = factor_of(case)
    mats = factors(rng, (b, n), d, case["kind"]) * c
    mats = mats * np.array([spread_of(case, i) for i in range(b)])[:, None, None, None]
    gone = np.zeros(b, dtype=bool)
    if case["zeros"] != "none":
        for i in range(b):
            if rng.integers(0, 2):
                k = int(rng.integers(0, n))
                if case["zeros"] == "factor":
                    mats[i, k] = 0
                    gone[i] = True
                elif n >= d:
                    k = int(rng.integers(0, n - d + 1))
                    for j in range(d):
                        mats[i, k + j] = nilpotent(rng, d) * c
                    gone[i] = True
    tm = tens(mats, dtype)
    mats = to_np(tm).astype(np.complex128 if case["kind"] == "unitary" else float)
    pos = case["kind"] == "positive"
    vec = lambda k: (0.3 + rng.random(d)) if pos else rng.normal(size=d)
    left = vec(0) if case["vecs"] in ("left", "both") else None
    right = vec(1) if case["vecs"] in ("right", "both") else None
    if left is not None and right is not None and not pos and case["kind"] != "eye":
        # An inner product of random vectors may cancel; use the image of the left one
        right = np.ones(d)
    left = None if left is None else left * edge_of(case, 0)
    right = None if right is None else right * edge_of(case, 1)
    tl = None if left is None else tens(left, dtype).to(tm.dtype)
    tr = None if right is None else tens(right, dtype).to(tm.dtype)
    left = None if left is None else to_np(tl)
    right = None if right is None else to_np(tr)
    arg = [tm[:, k] for k in range(n)] if case["aslist"] else tm
    what = f"contraction of {n} factors scaled by {c!r} (vectors {case['vecs']}, parallel_eval={case['parallel']})"
    with sut(what):
        value, ls = contract_matseq(arg, tl, tr, parallel_eval=case["parallel"], log_format=True)
    check(value.shape[0] == b, f"{what}: shape {tuple(value.shape)}")
    wild = False
    for i in range(b):
        m, log = mantissa(mats[i], left, right)
        if not gone[i]:
            if np.ndim(m) == 0 and case["kind"] != "positive":
                # Relative to the vector before the last contraction
                mv, logv = mantissa(mats[i], left, None)
                rel = abs(m) * np.exp(log - logv) if logv else abs(m)
                if rel < 0.05:
                    continue
            wild |= abs(log) > 700
        else:
            check(np.abs(m).max() == 0, "harness: product does not vanish") if case["zeros"] == "factor" else None
            m = np.zeros_like(m)
        compare(value[i], ls.expand(value.shape)[i] if ls.ndim else ls, (np.asarray(m), log), f"{what}, entry {i}", case)
    ctx.label(case["kind"], dtype, "vectors " + case["vecs"], "parallel" if case["parallel"] else "serial", "zeros " + case["zeros"],
              "n<=40" if n <= 40 else "n<=400" if n <= 400 else "n>400", "out of range" if wild else "in range")
    return wild or (gone.any() and not gone.all())


# ------------------------------------------------------------- slim evaluation, log norms


@st.composite
def slims(draw):
    case = draw(base())
    case.update(uniform=draw(st.booleans()), vector=draw(st.booleans()), input_dim=draw(st.integers(1, 3)),
                lamb=draw(st.sampled_from(["none", "scalar", "diag", "full"])), lscale=draw(st.floats(-12, 12)))
    return case


def make_core(case, rng):
    n, d, i = case["n"], case["d"], case["input_dim"]
    c = factor_of(case)
    kind = case["kind"] if case["kind"] != "orthogonal" or not case["vector"] else "positive"
    if case["vector"] and kind == "unitary":
        kind = "positive"
    core = factors(rng, (i,) if case["uniform"] else (n, i), d, kind) * c
    core = core * np.array([spread_of(case, k) for k in range(i)])[:, None, None]
    return core, c, kind


def run_slim(case, ctx):
    from torchmps.mps_base import slim_eval_fun

    dtype, n, d, b, i = case["dtype"], case["n"], case["d"], case["batch"], case["input_dim"]
    torch.set_default_dtype(DT[dtype])
    rng = rng_of(case["seed"], 2)
    core, c, kind = make_core(case, rng)
    zero = case["zeros"] != "none" and i > 1 and not case["vector"]
    if zero:  # one symbol makes the value vanish
        core[..., i - 1, :, :] = 0
    x = symbols(rng, case, (b, n), i)
    if zero:
        x[0] = rng.integers(0, i - 1, size=n)
    tc = tens(core, dtype)
    core = to_np(tc).astype(np.complex128 if tc.is_complex() else float)
    left = tens((0.3 + rng.random(d)) * edge_of(case, 0), dtype)
    right = tens((0.3 + rng.random(d)) * edge_of(case, 1), dtype)
    if case["vector"]:
        inp = tens(0.1 + rng.random((b, n, i)), dtype)
        vec = to_np(inp).astype(float)
    else:
        inp, vec = torch.tensor(x), onehot_np(x, i)
    bounds = torch.stack([left, right]).to(tc.dtype)
    what = f"slim evaluation of {n} factors scaled by {c!r}"
    with sut(what):
        value, ls = slim_eval_fun(inp, tc, bounds)
    check(tuple(value.shape) == (b,) and tuple(ls.shape) == (b,), f"{what}: shapes {tuple(value.shape)}, {tuple(ls.shape)}")
    wild, gone = False, np.zeros(b, dtype=bool)
    for k in range(b):
        if case["uniform"]:
            mats = np.einsum("ni,ilr->nlr", vec[k], core)
        else:
            mats = np.einsum("ni,nilr->nlr", vec[k], core)
        m, log = mantissa(mats, to_np(left).astype(float), to_np(right).astype(float))
        gone[k] = m == 0
        if m != 0 and kind != "positive":
            _, logv = mantissa(mats, to_np(left).astype(float), None)
            if log - logv < np.log(0.05):
                continue
        wild |= abs(log) > 700
        compare(value[k], ls[k], (np.asarray(m), log), f"{what}, entry {k}", case)
    ctx.label(kind, dtype, "uniform" if case["uniform"] else "site-dependent", "vector" if case["vector"] else "index",
              "out of range" if wild else "in range")
    return wild or bool(gone.any() and not gone.all())


def run_norm(case, ctx):
    from torchmps.mps_base import get_log_norm

    dtype, n, d, i = case["dtype"], case["n"], case["d"], case["input_dim"]
    torch.set_default_dtype(DT[dtype])
    rng = rng_of(case["seed"], 3)
    core, c, kind = make_core(case, rng)
    tc = tens(core, dtype)
    bounds = tens(rng.normal(size=(2, d)) * np.array([[edge_of(case, 0)], [edge_of(case, 1)]]), dtype).to(tc.dtype)
    cores = to_np(tc).astype(np.complex128)
    cores = np.broadcast_to(cores, (n,) + cores.shape) if case["uniform"] else cores
    scale = 10.0 ** (case["lscale"] if dtype == "float64" else case["lscale"] / 3)
    lamb = None
    if case["lamb"] == "scalar":
        lamb = tens(np.array(scale), dtype)
        full = to_np(lamb) * np.eye(i)
    elif case["lamb"] == "diag":
        lamb = tens(scale * (0.2 + rng.random(i)), dtype)
        full = np.diag(to_np(lamb))
    elif case["lamb"] == "full":
        g = rng.normal(size=(i, i))
        lamb = tens(scale * (g @ g.T + 0.1 * np.eye(i)), dtype)
        full = to_np(lamb)
    else:
        full = np.eye(i)
    what = f"log norm of {n} cores scaled by {c!r} with lambda {case['lamb']} * {scale:.2g}"
    with sut(what):
        ln = get_log_norm(tc, bounds, length=n if case["uniform"] else None, lamb_mat=lamb)
    left, right = to_np(bounds).astype(np.complex128)
    ref, tol = lognorm_tol(cores, left, right, full.astype(float), dtype)
    # Positive maps: relative errors stay proportional to the length
    if kind == "positive" and not tol < 1e-3:
        tol = np.inf
    inner = 64 * EPS[dtype] * (n + 2) * (d + i + 2)
    if kind in ("orthogonal", "unitary"):
        tol = inner * 4
    if not np.isfinite(ref):
        raise Skip
    # The right boundary vector may be nearly orthogonal to what arrives there
    tol = max(inner, min(tol, 1.0)) + 2 * EPS[dtype] * (n + 2) * (abs(ref) + n)
    if tol > 0.5:
        raise Skip
    check(tuple(ln.shape) == (), f"{what}: shape {tuple(ln.shape)}")
    close(ln, np.float64(ref), tol, what)
    ctx.label(kind, dtype, "lambda " + case["lamb"], "uniform" if case["uniform"] else "site-dependent",
              "out of range" if abs(ref) > 700 else "in range")
    return abs(ref) > 700


# ------------------------------------------------------------- probabilistic models


@st.composite
def models(draw):
    case = draw(base(top=1500))
    case.update(uniform=draw(st.booleans()), input_dim=draw(st.integers(1, 3)),
                strategy=draw(st.sampled_from(list(STRATEGIES))), cplx=draw(st.booleans()))
    if not case["uniform"]:
        case["n"] = min(case["n"], 500)
    return case


def run_model(case, ctx):
    dtype, n, d, b, i = case["dtype"], case["n"], case["d"], case["batch"], case["input_dim"]
    torch.set_default_dtype(DT[dtype])
    cfg = {"uniform": case["uniform"], "seq_len": n, "input_dim": i, "bond_dim": d, "complex_params": case["cplx"],
           "use_bias": False}
    with sut("constructing a probabilistic model"):
        model = make_prob(cfg)
    rng = rng_of(case["seed"], 4)
    core, c, kind = make_core(dict(case, vector=False, kind="unitary" if case["cplx"] and case["kind"] == "orthogonal" else
                                   "positive" if not case["cplx"] and case["kind"] == "unitary" else case["kind"]), rng)
    zero = case["zeros"] != "none" and i > 1
    where = None
    if zero:
        if case["uniform"]:
            core[i - 1] = 0
        else:
            where = int(rng.integers(0, n))
            core[where, i - 1] = 0
    with torch.no_grad():
        model.core_tensors.copy_(torch.tensor(core, dtype=model.core_tensors.dtype))
        model.edge_vecs.copy_(torch.tensor((0.3 + rng.random((2, d))) * np.array([[edge_of(case, 0)], [edge_of(case, 1)]]),
                                           dtype=model.edge_vecs.dtype))
    x = symbols(rng, case, (b + 1, n), i)
    if zero:
        x[0] = np.minimum(x[0], max(0, i - 2))
        x[1, where if where is not None else int(rng.integers(0, n))] = i - 1
    cores, left, right = prob_params(model, n)
    ref, tol = lognorm_tol(cores, left, right, None, dtype)
    inner = 64 * EPS[dtype] * (n + 2) * (d + i + 2) * 4
    tol = min(tol, 1.0) if kind == "positive" else inner
    what = f"log probabilities of sequences of length {n}, cores scaled by {c!r} ({case['strategy']})"
    with sut(what):
        lp = to_np(model(torch.tensor(x), **STRATEGIES[case["strategy"]])).astype(float)
    check(not np.isnan(lp).any(), f"{what}: NaN")
    gone, wild = np.zeros(b + 1, dtype=bool), False
    for k in range(b + 1):
        mats = np.array([cores[t][x[k, t]] for t in range(n)])
        m, log = mantissa(mats, left, right)
        if m == 0:
            gone[k] = True
            check(lp[k] == -np.inf, f"{what}: impossible sequence has log probability {lp[k]!r}")
            continue
        if kind != "positive":
            _, logv = mantissa(mats, left, None)
            if log - logv < np.log(0.05):
                continue
        want = 2 * (log + np.log(np.abs(m))) - ref
        wild |= abs(ref) > 700 or abs(want) > 700
        slack = max(tol, inner) + inner + 2 * log_tol(case, log) + 2 * EPS[dtype] * (n + 2) * (abs(ref) + n)
        if slack > 0.5:
            continue
        check(abs(lp[k] - want) <= slack, f"{what}: entry {k} has {lp[k]!r}, expected {want!r} (tolerance {slack:.2g})")
    prob_labels(cfg, ctx)
    ctx.label(kind, dtype, case["strategy"], "out of range" if wild else "in range", "impossible entries" if gone.any() else "all possible")
    return wild or bool(gone.any() and not gone.all())


# ------------------------------------------------------------- scaling factors by a constant


@st.composite
def scalings(draw):
    return {"n": draw(long_lengths(2000)), "d": draw(st.integers(1, 4)), "seed": draw(seeds), "dtype": "float64",
            "log10c": draw(st.one_of(st.floats(-30, 30), st.floats(-250, 250))), "sign": 1,
            "fun": draw(st.sampled_from(["seq", "par", "slim", "norm", "mats"])), "kind": "any", "batch": draw(st.integers(1, 3))}


def run_scaling(case, ctx):
    """Metamorphic: factors of any kind, scaled by a power of two, give the same mantissas"""
    from torchmps.mps_base import contract_matseq, get_log_norm, slim_eval_fun

    n, d, b = case["n"], case["d"], case["batch"]
    torch.set_default_dtype(torch.float64)
    rng = rng_of(case["seed"], 5)
    c = 2.0 ** round(case["log10c"] / np.log10(2))
    mats = torch.tensor(rng.normal(size=(b, n, d, d)))
    core = torch.tensor(rng.normal(size=(n, 2, d, d)))
    vec = torch.tensor(rng.normal(size=(2, d)))
    x = torch.tensor(rng.integers(0, 2, size=(b, n)))
    fun = {
        "seq": lambda s: contract_matseq(mats * s, vec[0], vec[1], log_format=True),
        "par": lambda s: contract_matseq(mats * s, vec[0], vec[1], parallel_eval=True, log_format=True),
        "mats": lambda s: contract_matseq(mats * s, log_format=True),
        "slim": lambda s: slim_eval_fun(x, core * s, vec),
        "norm": lambda s: (torch.ones(()), get_log_norm(core * s, vec)),
    }[case["fun"]]
    with sut(f"{case['fun']} of {n} factors"):
        v1, l1 = fun(1.0)
        v2, l2 = fun(c)
    a1, a2 = to_np(v1), to_np(v2)
    check(np.isfinite(a1).all() and np.isfinite(a2).all(), f"{case['fun']}: not finite")
    with np.errstate(all="ignore"):
        g1, g2 = np.log(np.abs(a1)) + to_np(l1), np.log(np.abs(a2)) + to_np(l2)
    per = 2 if case["fun"] == "norm" else 1
    want = g1 + per * n * np.log(c)
    # Scaling by a power of two commutes with rounding, up to the rescaling steps
    rel = np.abs(a1) / np.abs(a1).max() if a1.size else 1
    good = np.isfinite(g1) & (rel > 1e-3)
    close(g2[good], want[good], 1e-8 * (n + 2) + 1e-12 * np.abs(want[good]),
          f"{case['fun']} of {n} factors: log of the value after scaling them by {c!r}")
    ctx.label(case["fun"], "n>400" if n > 400 else "n<=400")
    return abs(n * np.log(c)) > 700


FACETS = [
    Facet("contraction", contractions(), run_contraction, 420),
    Facet("slim", slims(), run_slim, 300),
    Facet("log-norm", slims(), run_norm, 300),
    Facet("models", models(), run_model, 300),
    Facet("scaling", scalings(), run_scaling, 300),
]

from math import log, pi, sqrt

from common import *
from core import *

RULE = (
    "A case is an initialiser with a generated shape, order of the axes, spread and dtype; with zero spread the tensor "
    "is compared exactly with the declared centre, otherwise mean, standard deviation, distribution and phases of the "
    "deviations from it are tested against 6-sigma bounds. Non-trivial when the tensor has more than one entry."
)
ASSUMPTIONS = ["statistical tests use bounds that random numbers of the declared distribution exceed with probability below 1e-8"]

KS = 3.5  # 2 exp(-2 KS^2) < 5e-11


def phi(z):
    return 0.5 * (1 + torch.erf(torch.tensor(z / sqrt(2), dtype=torch.float64)).numpy())


def ks(sample, cdf, what):
    s = np.sort(np.ravel(sample))
    n = len(s)
    if n < 8:
        return
    f = cdf(s)
    gap = max(np.max(np.arange(1, n + 1) / n - f), np.max(f - np.arange(n) / n))
    check(gap * sqrt(n) <= KS, f"{what}: distribution differs (Kolmogorov-Smirnov {gap * sqrt(n):.2f} with {n} values)")


def spread(dev, std, what, normal=True):
    """dev are real deviations which should be independent with mean zero and the given standard deviation"""
    dev = np.ravel(dev).astype(float)
    n = len(dev)
    if n == 0:
        return
    if std == 0:
        check((dev == 0).all(), f"{what}: deviations without spread, largest {np.abs(dev).max()!r}")
        return
    check(np.abs(dev).max() <= std * sqrt(2 * log(max(2, n) * 1e10)), f"{what}: deviation of {np.abs(dev).max() / std:.1f} sigma")
    check(abs(dev.mean()) <= 6.5 * std / sqrt(n), f"{what}: mean {dev.mean()!r} with sigma {std!r} and {n} values")
    if n >= 30:
        got = sqrt((dev ** 2).mean())
        check(abs(got / std - 1) <= 7 / sqrt(2 * n) + 40 / n, f"{what}: standard deviation {got!r}, declared {std!r} ({n} values)")
    if normal:
        ks(dev / std, phi, what)
    if n >= 200:
        # Neighbouring entries are uncorrelated
        r = float((dev[1:] * dev[:-1]).mean()) / std ** 2
        check(abs(r) <= 7.5 / sqrt(n), f"{what}: neighbouring entries have correlation {r:.3f}")


def complex_spread(dev, std, what):
    """Deviations r exp(i phase), with r normal and uniform phases"""
    dev = np.ravel(dev)
    if std == 0:
        check((dev == 0).all(), f"{what}: deviations without spread")
        return
    lost = int((dev == 0).sum())
    check(lost <= 3 + 1e-4 * len(dev), f"{what}: {lost} of {len(dev)} deviations are zero")
    dev = dev[dev != 0]  # single precision random numbers may vanish
    n = len(dev)
    if n == 0:
        return
    z = np.abs(dev) / std
    check(z.max() <= sqrt(2 * log(max(2, n) * 1e10)), f"{what}: modulus of {z.max():.1f} sigma")
    if n >= 30:
        got = sqrt((z ** 2).mean())
        check(abs(got - 1) <= 7 / sqrt(2 * n) + 40 / n, f"{what}: moduli have spread {got * std!r}, declared {std!r}")
    ks(z, lambda t: 2 * phi(t) - 1, f"{what} (moduli)")
    # A real r of either sign leaves the phase uniform
    ks((np.angle(dev) / (2 * pi)) % 1.0, lambda t: t, f"{what} (phases)")
    if n >= 50:
        u = dev / np.abs(dev)
        r = abs((u[1:] * u[:-1].conj()).mean())
        check(r <= 5 / sqrt(n), f"{what}: neighbouring phases are correlated ({r:.3f})")


def independent(dev, std, what, mask=None):
    """Entries next to each other along any axis are neither equal (up to the sign, for phases) nor correlated"""
    if std == 0:
        return
    valid = np.ones(dev.shape, bool) if mask is None else np.broadcast_to(mask, dev.shape)
    valid = valid & (dev != 0)
    cplx = dev.dtype.kind == "c"
    z = dev / np.where(valid, np.abs(dev), 1) if cplx else dev / std
    for axis in range(dev.ndim):
        if dev.shape[axis] < 2:
            continue
        a, b, v, w = (np.take(t, np.arange(t.shape[axis] - 1) + k, axis) for t in (z, valid) for k in (0, 1))
        both = v & w
        a, b = a[both], b[both]
        n = len(a)
        if n < 4:
            continue
        kind = "phases" if cplx else "deviations"
        gap = np.minimum(np.abs(a - b), np.abs(a + b)) if cplx else np.abs(a - b)
        count = int((gap < 1e-4).sum())
        check(count <= 3 + 1e-3 * n, f"{what}: {count} of {n} {kind} equal their neighbours along axis {axis}")
        if n >= 200:
            r = abs((a * b.conj()).mean())
            check(r <= 7.5 / sqrt(n), f"{what}: neighbouring {kind} along axis {axis} have correlation {r:.3f}")


def no_copies(dev, what, mask=None):
    """No two deviations are the same number (for double precision)"""
    z = dev[dev != 0] if mask is None else dev[np.broadcast_to(mask, dev.shape) & (dev != 0)]
    z = np.abs(z)[:100000]
    twins = len(z) - len(np.unique(z))
    check(twins == 0, f"{what}: {twins} of {len(z)} deviations are copies of others")


big_axes = st.one_of(st.integers(1, 6), st.integers(1, 40))


# ------------------------------------------------------------- near_eye_init, normal_init


@st.composite
def core_cases(draw):
    lead = draw(st.lists(st.integers(1, 12), min_size=1, max_size=3))
    if draw(st.integers(0, 3)) == 0:
        lead[draw(st.integers(0, len(lead) - 1))] = draw(st.integers(12, 150))
    d = draw(big_axes)
    e = d if draw(st.integers(0, 4)) else draw(big_axes)
    while int(np.prod(lead)) * d * e > 60000:  # (slow)
        lead[int(np.argmax(lead))] //= 2
    return {"fun": draw(st.sampled_from(["near_eye", "normal"])), "shape": lead + [d, e],
            "cplx": draw(st.booleans()), "seed": draw(seeds), "dtype": draw(st.sampled_from(["float32", "float64"])),
            "noise": draw(st.sampled_from([None, None, 0.0, 1.0, 1e-3, 0.1, 7.0])),
            "container": draw(st.sampled_from(["tuple", "list", "size"])), "positional": draw(st.booleans())}


def run_core(case, ctx):
    from torchmps.mps_base import near_eye_init, normal_init

    torch.set_default_dtype(DT[case["dtype"]])
    torch.manual_seed(case["seed"])
    shape = {"tuple": tuple, "list": tuple, "size": torch.Size}[case["container"]](case["shape"])
    fun = near_eye_init if case["fun"] == "near_eye" else normal_init
    key = "noise" if case["fun"] == "near_eye" else "rel_std"
    noise = case["noise"]
    kw = {} if noise is None else {key: noise}

    def call():
        if case["positional"]:
            return fun(shape, case["cplx"], *kw.values())
        return fun(shape, is_complex=case["cplx"], **kw)

    what = f"{case['fun']}_init of shape {tuple(shape)}"
    d, e = shape[-2:]
    if d != e and int(np.prod(shape[:-3])) != 1:
        refuses(call, what + " (batch of non-square slices)", (ValueError,))
        ctx.label("refused")
        return True
    with sut(what):
        t = call()
    check(tuple(t.shape) == tuple(shape), f"{what}: shape {tuple(t.shape)}")
    want = {("float32", False): torch.float32, ("float32", True): torch.complex64,
            ("float64", False): torch.float64, ("float64", True): torch.complex128}[case["dtype"], case["cplx"]]
    a = to_np(t)
    center = np.eye(d, e) if case["fun"] == "near_eye" else np.zeros((d, e))
    if noise == 0:
        check((a == center).all(), f"{what}: not the centre although there is no spread")
    check(t.dtype == want, f"{what}: dtype {t.dtype}, expected {want}")
    if case["fun"] == "near_eye":
        std = (1e-3 if noise is None else noise) / sqrt(d * e)
    else:
        std = (1.0 if noise is None else noise) / e
        if d != e:  # which bond dimension is meant is not declared
            ctx.label("non-square")
            return a.size > 1
    # Deviations are known up to the rounding of 1 + deviation
    round_err = EPS[case["dtype"]] if case["fun"] == "near_eye" else 0
    if std < 1e3 * round_err and std > 0:
        raise Skip
    dev = a - center
    if case["cplx"]:
        if round_err:
            mask = np.broadcast_to(center == 0, dev.shape)
            complex_spread(dev[mask], std, what)
            independent(dev, std, what, mask)
            check(np.abs(dev).max() <= std * sqrt(2 * log(dev.size * 1e10 + 2)) + 4 * round_err, f"{what}: diagonal deviation")
        else:
            complex_spread(dev, std, what)
            independent(dev, std, what)
    else:
        spread(dev, std, what)
        independent(dev, std, what)
    if case["dtype"] == "float64" and std:
        no_copies(dev, what, center == 0)
    # Fresh random numbers for every call, given by the global seed
    if std and a.size > 3:
        with sut(what):
            other = to_np(call())
        check((other != a).any(), f"{what}: the same random numbers twice")
        torch.manual_seed(case["seed"])
        same(to_np(call()), a, f"{what} with the same seed")
    ctx.label(case["fun"], "complex" if case["cplx"] else "real", case["dtype"], "square" if d == e else "non-square",
              "statistics" if a.size >= 30 else "few entries")
    return a.size > 1


# ------------------------------------------------------------- init_tensor


@st.composite
def tensor_cases(draw):
    others = draw(st.lists(st.sampled_from("oiabc"), min_size=0, max_size=3, unique=True))
    chars = draw(st.permutations(["l", "r"] + others))
    if draw(st.integers(0, 9)) == 0:
        chars = [c for c in chars if c not in "lr"] or ["o"]
    dims = {c: draw(st.integers(1, 5)) for c in chars}
    if draw(st.booleans()):
        for c in "lr":
            if c in dims:
                dims[c] = draw(big_axes)
    if draw(st.booleans()):
        dims[draw(st.sampled_from(list(chars) + [chars[0]] * 2))] = draw(st.integers(6, 150))
    if "l" in dims and "r" in dims and draw(st.booleans()):
        dims["r"] = dims["l"]
    method = draw(st.sampled_from(["random_eye", "min_random_eye", "random_zero", "random_eye str", "random_zero str", "unknown"]))
    return {"chars": "".join(chars), "shape": [dims[c] for c in chars], "method": method,
            "std": draw(st.sampled_from([0.0, 1e-9, 0.01, 1.0, 30.0])), "init_dim": draw(st.integers(1, 8)),
            "seed": draw(seeds), "dtype": draw(st.sampled_from(["float32", "float64"])),
            "container": draw(st.sampled_from(["list", "tuple"]))}


def run_tensor(case, ctx):
    from torchmps.utils import init_tensor

    torch.set_default_dtype(DT[case["dtype"]])
    torch.manual_seed(case["seed"])
    chars, shape, method, std = case["chars"], case["shape"], case["method"], case["std"]
    arg = shape if case["container"] == "list" else tuple(shape)
    how = {"random_eye": ("random_eye", std), "min_random_eye": ("min_random_eye", std, case["init_dim"]),
           "random_zero": ("random_zero", std), "random_eye str": "random_eye", "random_zero str": "random_zero",
           "unknown": ("random_one", std)}[method]
    what = f"init_tensor({shape}, {chars!r}, {how!r})"
    call = lambda: init_tensor(arg, chars, how)
    has_bonds = "l" in chars and "r" in chars
    if method == "unknown":
        refuses(call, what, (ValueError,))
        ctx.label("refused")
        return True
    if "eye" in method and not has_bonds:
        refuses(call, what)
        ctx.label("refused")
        return True
    if method.endswith("str"):
        std = 1e-9
    with sut(what):
        t = call()
    check(tuple(t.shape) == tuple(shape), f"{what}: shape {tuple(t.shape)}")
    check(t.dtype == DT[case["dtype"]], f"{what}: dtype {t.dtype}")
    center = np.zeros(shape)
    if "eye" in method:
        il, ir = chars.index("l"), chars.index("r")
        k = min(shape[il], shape[ir])
        if method == "min_random_eye":
            k = min(k, case["init_dim"])
        moved = np.moveaxis(center, (il, ir), (-2, -1))
        for j in range(k):
            moved[..., j, j] = 1
    a = to_np(t).astype(float)
    if std == 0:
        same(a, center, f"{what}: the centre")
    elif std < 1e3 * EPS[case["dtype"]]:
        zero = center == 0
        spread(a[zero], std, what)
        independent(a - center, std, what, zero)
        close(a[~zero], center[~zero], 8 * EPS[case["dtype"]] + 20 * std, what)
    else:
        spread(a - center, std, what)
        independent(a - center, std, what)
        if case["dtype"] == "float64":
            no_copies(a - center, what, center == 0)
        with sut(what):
            check(a.size < 4 or (to_np(call()) != a).any(), f"{what}: the same random numbers twice")
    ctx.label(method, "bonds " + ("none" if not has_bonds else "lr" if chars.index("l") < chars.index("r") else "rl"),
              "unequal bonds" if has_bonds and shape[chars.index("l")] != shape[chars.index("r")] else "equal bonds", case["dtype"])
    return a.size > 1


# ------------------------------------------------------------- phaseify


@st.composite
def phase_cases(draw):
    return {"shape": draw(st.lists(st.integers(1, 20), min_size=0, max_size=3).flatmap(
        lambda v: st.just(v) if len(v) < 3 else st.sampled_from([[], [2], [5]]).map(lambda e: e + v))), "seed": draw(seeds),
            "style": draw(st.sampled_from(["normal", "sparse", "mixed", "uniform"])),
            "dtype": draw(st.sampled_from(["float32", "float64"])), "layout": draw(layouts)}


def run_phase(case, ctx):
    from torchmps.utils2 import phaseify

    torch.manual_seed(case["seed"])
    t = tens(arr(rng_of(case["seed"], 1), case["shape"], case["style"]), case["dtype"])
    if t.ndim:
        t = layout(t, case["layout"])
    kept = t.clone()
    with sut("phaseify"):
        out = phaseify(t)
    check(out.dtype == CDT[case["dtype"]], f"phaseify: dtype {out.dtype}")
    a, b = to_np(t).astype(float), to_np(out).astype(np.complex128)
    close(np.abs(b), np.abs(a), 16 * EPS[case["dtype"]] * np.abs(a), "phaseify: moduli")
    same(t, kept, "tensor after phaseify")
    nz = a != 0
    phases = (np.angle(b[nz] * np.sign(a[nz])) / (2 * pi)) % 1.0
    ks(phases, lambda u: u, "phaseify: phases")
    independent(b * np.sign(a), 1, "phaseify", nz)
    u = np.exp(2j * pi * phases)
    if len(u) >= 50:
        check(abs(u.mean()) <= 5 / sqrt(len(u)), "phaseify: phases are not centred")
        check(abs((u[1:] * u[:-1].conj()).mean()) <= 5 / sqrt(len(u)), "phaseify: neighbouring phases are correlated")
    ctx.label(case["dtype"], "many" if len(u) >= 50 else "few")
    return len(u) > 1


# ------------------------------------------------------------- initial values of the models


@st.composite
def model_cases(draw):
    return {"uniform": draw(st.booleans()), "seq_len": draw(st.integers(1, 6)), "input_dim": draw(st.integers(1, 5)),
            "bond_dim": draw(st.integers(1, 12)), "complex_params": draw(st.booleans()), "use_bias": draw(st.booleans()),
            "init_method": draw(st.sampled_from(["near_eye", "normal", "default", "other"])), "seed": draw(seeds),
            "dtype": draw(st.sampled_from(["float32", "float64"]))}


def run_model(case, ctx):
    torch.set_default_dtype(DT[case["dtype"]])
    torch.manual_seed(case["seed"])
    cfg = {k: v for k, v in case.items() if k not in ("seed", "dtype")}
    if cfg["init_method"] == "other":
        refuses(lambda: make_prob(dict(cfg, init_method="zeros")), "init_method 'zeros'")
        return True
    near = cfg["init_method"] != "normal"
    if cfg["init_method"] == "default":
        del cfg["init_method"]
    with sut("constructing a probabilistic model"):
        model = make_prob(cfg)
    d, n, i = cfg["bond_dim"], cfg["seq_len"], cfg["input_dim"]
    core = to_np(model.core_tensors)
    check(core.shape == ((i, d, d) if cfg["uniform"] else (n, i, d, d)), f"core tensors of shape {core.shape}")
    check((core.dtype.kind == "c") == cfg["complex_params"], f"core tensors of type {core.dtype}")
    dev = core - (np.eye(d) if near else 0)
    std = 1e-3 / d if near else 1.0 / d
    what = f"initial cores of {type(model).__name__} ({'near_eye' if near else 'normal'})"
    if cfg["complex_params"]:
        off = np.broadcast_to((np.eye(d) == 0) if near else np.ones((d, d), bool), dev.shape)
        complex_spread(dev[off], std, what)
        independent(dev, std, what, off)
    else:
        mask = np.broadcast_to((np.eye(d) == 0) if near and case["dtype"] == "float32" else np.ones((d, d), bool), dev.shape)
        spread(dev[mask], std, what)
        independent(dev, std, what, mask)
    edge = to_np(model.edge_vecs)
    check(edge.shape == (2, d), f"boundary vectors of shape {edge.shape}")
    check(np.allclose(np.abs(edge[0]), np.abs(edge[1]), rtol=1e-4), "moduli of the initial boundary vectors differ")
    if cfg["complex_params"]:
        complex_spread(edge[0], 1 / sqrt(d), "initial boundary vector")
    else:
        spread(edge[0], 1 / sqrt(d), "initial boundary vector")
    if cfg["use_bias"]:
        check((to_np(model.bias_mat) == 0).all() and model.bias_mat.shape == (d, d), "the initial bias matrix is not zero")
    check(model.use_bias == cfg["use_bias"] and model.input_dim == i and model.bond_dim == d, "properties of the model")
    ctx.label(type(model).__name__, "complex" if cfg["complex_params"] else "real", "near_eye" if near else "normal")
    return d > 1


FACETS = [
    Facet("cores", core_cases(), run_core, 2000),
    Facet("init-tensor", tensor_cases(), run_tensor, 2500),
    Facet("phaseify", phase_cases(), run_phase, 800),
    Facet("models", model_cases(), run_model, 800),
]

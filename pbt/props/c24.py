import random

from common import *
from core import *
from props.c02 import ti_cfg
from props.c16 import independent, spread

RULE = (
    "A case is a model of any class with generated constructor arguments and initial spread. Its parameters are compared "
    "with the documented starting point (exactly without spread, by distribution and independence with it), its outputs "
    "with the function that point stands for, and with a second model built from the same or another seed. Non-trivial "
    "when the bond dimension is above one."
)
ASSUMPTIONS = [
    "statistical tests use bounds that random numbers of the declared distribution exceed with probability below 1e-8",
    "the spread of adaptive models is judged by their outputs, since their cores are merged when they are built",
]

STDS = [None, None, 0.0, 0.0, 1e-9, 1e-5, 1e-3, 0.1, 1.0, 7.0]


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["mps", "mps", "adaptive", "ti", "prob"]))
    case = {"kind": kind, "seed": draw(seeds), "dtype": draw(st.sampled_from(["float64", "float64", "float32"]))}
    if kind == "mps":
        case["cfg"] = draw(mps_cfg(max_in=8, big_in=30))
    elif kind == "adaptive":
        case["cfg"] = draw(adaptive_cfg())
    elif kind == "ti":
        case["cfg"] = draw(ti_cfg())
    else:
        case["cfg"] = draw(prob_cfg(tail=True))
    if kind != "prob":
        case["std"] = draw(st.sampled_from(STDS))
    # Differences of distribution show in large tensors
    large = draw(st.sampled_from([None] * 6 + ["outputs", "bond", "features", "length"]))
    cfg = case["cfg"]
    if large == "outputs" and kind != "prob" and not cfg.get("fixed_ends"):
        cfg["output_dim"] = draw(st.integers(30, 400))
    elif large == "bond":
        cfg["bond_dim"] = draw(st.integers(12, 40))
    elif large == "features" and kind != "prob":
        cfg["feature_dim"] = draw(st.integers(8, 60))
    elif large == "features":
        cfg["input_dim"] = draw(st.integers(20, 120))
    elif large == "length" and kind == "prob":
        cfg["seq_len"] = draw(st.integers(30, 150))
    elif large == "length" and kind == "mps":
        n = cfg["input_dim"] = draw(st.integers(20, 100))
        cfg["label_site"] = draw(st.sampled_from([0, n // 3, n // 2, n]))
    case["noise"] = draw(st.sampled_from(["none", "numpy", "python", "models", "evaluate"]))
    case["raw"] = draw(st.booleans())
    case["batch"] = draw(st.integers(1, 3))
    case["length"] = draw(st.integers(1, 8))
    return case


def construct(case, seed=None):
    from torchmps import TI_MPS

    if seed is not None:
        torch.manual_seed(seed)
    cfg, kind = case["cfg"], case["kind"]
    with sut("constructing a model"):
        if kind == "prob":
            return make_prob(cfg)
        kw = {} if case["std"] is None else {"init_std": case["std"]}
        if kind == "ti":
            keys = ("output_dim", "bond_dim", "feature_dim", "parallel_eval", "fixed_ends", "use_bias", "fixed_bias")
            return TI_MPS(**{k: cfg[k] for k in keys if k in cfg}, **kw)
        return make_mps(cfg, **kw)


def centre_chain(cfg):
    """The documented initial cores, before merging"""
    d, f, o, n, ls = cfg["bond_dim"], cfg["feature_dim"], cfg["output_dim"], cfg["input_dim"], label_of(cfg)
    adaptive = cfg.get("adaptive_mode", False)
    eye = np.eye(d)
    if adaptive:
        eye = eye * (np.arange(d) < o)
    site = ("in", np.repeat(eye[:, :, None] * (1 if adaptive else 0), f, 2),
            np.eye(d) if cfg.get("use_bias", not adaptive) and not adaptive else None)
    return [site] * ls + [("out", np.repeat(eye[None], o, 0), None)] + [site] * (n - ls)


def shifted(chain, s):
    return [(k, np.abs(t) + s, b) for k, t, b in chain]


def contents(model):
    return {n: v.detach().clone() for n, v in model.state_dict().items() if isinstance(v, torch.Tensor)}


def equal_models(a, b, what):
    a, b = contents(a), contents(b)
    check(set(a) == set(b), f"{what}: state_dict has other keys")
    for n in a:
        same(a[n], b[n], f"{what}: {n}")


def run(case, ctx):
    torch.set_default_dtype(DT[case["dtype"]])
    cfg, kind, seed, dtype = case["cfg"], case["kind"], case["seed"], case["dtype"]
    model = construct(case, seed % 100003)
    after = torch.get_rng_state()
    std = 1e-9 if case.get("std", 1) is None else case.get("std", 1)
    for n, p in model.named_parameters():
        want = CDT[dtype] if cfg.get("complex_params") else DT[dtype]
        check(p.dtype == want, f"parameter {n} of type {p.dtype}, expected {want}")
        check(bool(torch.isfinite(torch.view_as_real(p.detach()) if p.is_complex() else p.detach()).all()), f"parameter {n} is not finite")
    d = cfg["bond_dim"]
    what = f"new {type(model).__name__}"
    tiny = {"float64": 1e-300, "float32": 1e-40}[dtype]
    eps = EPS[dtype]
    devs, edges = [], None
    if kind in ("mps", "adaptive"):
        n, f, o, ls = cfg["input_dim"], cfg["feature_dim"], cfg["output_dim"], label_of(cfg)
        centre = centre_chain(cfg)
        for name in ("input_dim", "output_dim", "bond_dim", "feature_dim", "periodic_bc", "merge_threshold"):
            if name in cfg:
                check(getattr(model, name) == cfg[name], f"{what}: {name} is {getattr(model, name)!r}, given {cfg[name]!r}")
        check(model.label_site == ls, f"{what}: label_site is {model.label_site}")
        if kind == "mps":
            chain = chain_of(model)
            check([c[0] for c in chain] == [c[0] for c in centre], f"{what}: order of the cores")
            for k, ((_, t, b), (_, t0, b0)) in enumerate(zip(chain, centre)):
                check(t.shape == t0.shape, f"{what}: core {k} has shape {t.shape}, expected {t0.shape}")
                check((b is None) == (b0 is None), f"{what}: bias of core {k}")
                devs.append((f"core {k}", t - t0, t0))
                first = k == 0 or chain[k - 1][0] == "out"
                if b is not None and first:
                    check((b == b0).all(), f"{what}: bias matrix {b.tolist()} is not the identity")
        # The function which these cores compute
        x = tens(rng_of(seed, 5).random((case["batch"], n)) if case["raw"] and f == 2 else
                 arr(rng_of(seed, 5), (case["batch"], n, f)), dtype)
        a = to_np(x).astype(float)
        ex = a if a.ndim == 3 else embed_default(a)
        want = ref_mps(centre, ex, cfg["periodic_bc"])
        high = ref_mps(shifted(centre, 9 * std), np.abs(ex), cfg["periodic_bc"], absval=True)
        low = ref_mps(shifted(centre, 0), np.abs(ex), cfg["periodic_bc"], absval=True)
        tol = high - low + 64 * eps * (n + 2) * (d + f) * high + tiny
        call = lambda m: m(x)  # noqa: E731
    elif kind == "ti":
        f, o, n = cfg["feature_dim"], cfg["output_dim"], case["length"]
        core, b = to_np(model.core_tensor).astype(float), model.bias_mat
        check(core.shape == (d, d, f), f"{what}: core of shape {core.shape}")
        check((b is None) == (not cfg["use_bias"]), f"{what}: bias matrix {type(b).__name__}")
        vec, mat = to_np(model.init_vector.vec).astype(float), to_np(model.terminal_mat.mat).astype(float)
        check(vec.shape == (d,) and (vec == 1).all(), f"{what}: initial vector {vec}")
        check(mat.shape == (d, o), f"{what}: terminal matrix of shape {mat.shape}")
        devs.append(("core", core, 0 * core))
        if b is not None:
            b = to_np(b).astype(float)
            check(b.shape == (d, d), f"{what}: bias of shape {b.shape}")
            if cfg["fixed_bias"]:
                check((b == np.eye(d)).all(), f"{what}: fixed bias is not the identity")
            else:
                devs.append(("bias", b - np.eye(d), np.eye(d)))
        if cfg["fixed_ends"]:
            check((mat == np.eye(d, o)).all(), f"{what}: fixed terminal matrix is not the identity")
        else:
            edges = (mat - np.eye(d, o)) * d
            if dtype == "float64":
                spread(edges, 1.0, f"{what}: terminal matrix (times the bond dimension)")
        x = tens(rng_of(seed, 5).random((case["batch"], n)) if case["raw"] and f == 2 else
                 arr(rng_of(seed, 5), (case["batch"], n, f)), dtype)
        a = to_np(x).astype(float)
        ex = a if a.ndim == 3 else embed_default(a)
        total = np.abs(ex).sum(2)  # deviation of a site: at most 9 * std * total in each element
        bias = 0.0 if not cfg["use_bias"] else 1.0
        spread_of = lambda s: np.stack([np.prod(1 * bias + d * 9 * s * (t + (bias if not cfg["fixed_bias"] else 0))) for t in total])  # noqa: E731
        want = np.broadcast_to(mat.sum(0) * bias, (case["batch"], o))
        size = np.abs(mat).sum(0).max(initial=0) * d
        tol = (size * (spread_of(std) - bias) + 64 * eps * (n + 2) * (d + f) * size * spread_of(std) + tiny)[:, None]
        call = lambda m: m(x)  # noqa: E731
    else:
        n = cfg["seq_len"]
        x = torch.tensor(rng_of(seed, 5).integers(0, cfg["input_dim"], size=(case["batch"], n)))
        check(model.complex_params == cfg["complex_params"] and model.use_bias == cfg["use_bias"], f"{what}: attributes")
        check(model.input_dim == cfg["input_dim"] and model.bond_dim == d, f"{what}: dimensions")
        want = None
        call = lambda m: m(x)  # noqa: E731
    # Deviations from the starting point
    values = []
    for name, dev, centre_t in devs:
        if std == 0:
            check((dev == 0).all(), f"{what}: {name} deviates without spread")
            continue
        # Deviations from one are rounded
        mask = np.ones(dev.shape, bool) if std > 1e11 * eps else centre_t == 0
        values.append(dev[mask])
        if kind == "mps" and name.startswith("core") and d * d * cfg["feature_dim"] > 30:
            spread(dev[mask], std, f"{what}: {name}")
        elif kind == "ti":
            spread(dev[mask], std, f"{what}: {name}")
            independent(dev, std, f"{what}: {name}", mask)
    if values:
        values = np.concatenate([v.ravel() for v in values])
        spread(values, std, f"{what}: all parameters")
        if len(values) > 1 and dtype == "float64":
            twins = len(values) - len(np.unique(values))
            check(twins == 0, f"{what}: {twins} of {len(values)} deviations are copies of others")
    with sut("evaluating a new model"):
        y = call(model)
    # (a bound beyond the range of the type allows infinite values)
    if want is not None and np.max(tol) < (1e30 if dtype == "float32" else 1e250):
        close(y, want, tol, f"{what}: outputs with spread {std!r}")
    # The seed determines the model
    noise = case["noise"]
    if noise == "numpy":
        np.random.seed(seed % 1009)
        np.random.rand(3)
    elif noise == "python":
        random.seed(seed % 1009)
    elif noise == "models":
        construct(case, seed % 31)
    elif noise == "evaluate":
        call(model)
    again = construct(case, seed % 100003)
    equal_models(model, again, f"{what} and another one from the same seed")
    check(torch.equal(after, torch.get_rng_state()), f"{what}: the random generator is in another state than after the first one")
    state = torch.get_rng_state()
    next_ = construct(case)
    rand = [k for k in contents(model) if k_is_random(case, k) and contents(model)[k].numel()]
    if kind == "prob" or std > 0:
        for k in rand:
            a, b = contents(next_)[k], contents(model)[k]
            if b.numel() >= 4 and (std > 100 * eps or kind == "prob"):
                check(not torch.equal(a, b), f"{what}: {k} equals that of the model before")
        other = construct(case, seed % 100003 + 1)
        for k in rand:
            a, b = contents(other)[k], contents(model)[k]
            if b.numel() >= 4 and (std > 100 * eps or kind == "prob"):
                check(not torch.equal(a, b), f"{what}: {k} does not depend on the seed")
        torch.set_rng_state(state)
        if rand:
            construct(case)
            check(not torch.equal(state, torch.get_rng_state()), f"{what}: constructed without random numbers")
    ctx.label(kind, f"std {case.get('std')}", dtype, noise)
    return d > 1


def k_is_random(case, name):
    """Tensors with random numbers in them, as far as known"""
    if case["kind"] == "mps":
        return name.endswith(".tensor")
    if case["kind"] == "ti":
        cfg = case["cfg"]
        return name == "core_tensor" or (name == "bias_mat" and not cfg["fixed_bias"])
    return case["kind"] == "prob" and name in ("core_tensors", "edge_vecs")


FACETS = [
    Facet("starts", cases(), run, 3000),
]

from common import *
from core import *

RULE = (
    "A case is a Born machine with generated parameters and a batch of index or vector inputs (generated length for "
    "uniform models); every strategy is compared with an explicit contraction in double precision and with the "
    "others, also after rescaling parameters. Non-trivial when the batch has an amplitude that is neither zero nor one."
)
ASSUMPTIONS = ["models whose norm is zero or cancels to below 1e-5 of its terms are outside the domain"]

dts = ["float64", "float64", "float32"]


@st.composite
def cases(draw):
    cfg = draw(prob_cfg(max_seq=9, max_bond=6, max_in=5, tail=True))
    spread = draw(st.one_of(st.just(0.0), st.just(0.0), st.just(0.0), st.floats(0.3, 6)))
    length = cfg["seq_len"]
    if cfg["uniform"]:
        length = draw(st.integers(20, 80) if spread > 3 else wint(0, 70, 9))
    return {
        "cfg": cfg, "length": length, "seed": draw(seeds), "dtype": draw(st.sampled_from(dts)),
        "style": draw(styles), "batch": draw(wint(1, 200, 6)),
        "input": draw(st.sampled_from(["index", "index", "vector", "vector", "cvector", "onehot"])),
        "layout": draw(layouts), "xscale": draw(st.sampled_from([1.0, 1.0, 1e-3, 1e3])),
        "positional": draw(st.booleans()), "uses": draw(uses()),
        "spread": spread, "thin": draw(st.integers(0, 7)) == 7,
    }


def setup(case):
    cfg, seed = case["cfg"], case["seed"]
    torch.set_default_dtype(DT[case["dtype"]])
    with sut("constructing a probabilistic model"):
        model = make_prob(cfg)
    fill(model, seed, case["style"])
    if case["thin"] and thin_ok(case["dtype"], case["style"], case["length"]):
        # Boundary vectors with little overlap
        with torch.no_grad():
            eye = torch.eye(cfg["bond_dim"])
            model.core_tensors.mul_(eye)
            if cfg["use_bias"]:
                model.bias_mat.mul_(eye)
            model.edge_vecs.mul_(torch.tensor(thin_edges(cfg["bond_dim"], case["dtype"], rng_of(seed, 4))))
    rng = rng_of(seed, 2)
    n, d, b = case["length"], cfg["input_dim"], case["batch"]
    kind = case["input"]
    if kind == "cvector" and not cfg["complex_params"]:
        kind = "vector"
    # Symbols and sequences of very different weight, so that a batch mixes amplitudes of all magnitudes
    spread = case["spread"] / (1 if case["dtype"] == "float64" else 2)
    if spread:
        weight = torch.tensor(10.0 ** (-spread * (np.arange(d) % 4)), dtype=DT[case["dtype"]])[:, None, None]
        with torch.no_grad():
            model.core_tensors.mul_(weight)
            if cfg["use_bias"]:
                model.bias_mat.copy_(torch.zeros_like(model.bias_mat))
    if kind in ("index", "onehot"):
        x = torch.tensor(rng.integers(0, d, size=(b, n)))
        if spread:
            x = torch.where(torch.tensor(rng.random((b, n)) < 0.1), x, (torch.arange(b) % d)[:, None])
        if kind == "onehot":
            x = torch.tensor(onehot_np(to_np(x), d), dtype=DT[case["dtype"]]).reshape(b, n, d)
        vecs = onehot_np(to_np(x), d) if kind == "index" else to_np(x).astype(float)
    else:
        v = arr(rng, (b, n, d), "normal", case["xscale"], kind == "cvector")
        v = v * 10.0 ** (-spread * (np.arange(b) % 4))[:, None, None]
        x = tens(v, case["dtype"])
        vecs = to_np(x).astype(np.complex128 if kind == "cvector" else float)
    x = layout(x, case["layout"])
    return model, x, vecs, kind


def run(case, ctx):
    cfg, dtype, n = case["cfg"], case["dtype"], case["length"]
    model, x, vecs, kind = setup(case)
    if x.shape[0] and n == 0 and kind != "index":
        ctx.label("empty vector sequences")
    cores, left, right = prob_params(model, n)
    if not probs_domain_ok(cores, left, right, dtype):
        raise Skip
    ops = case["uses"]
    kw = {} if cfg["use_bias"] else STRATEGIES["slim" if case["seed"] % 2 else "default"]
    model = use(model, ops, case["seed"], lambda m, v: m(v, **kw), x)
    kept = x.clone()
    params = [p.detach().clone() for p in model.parameters()]
    results = {}
    for name, kw in STRATEGIES.items():
        if cfg["use_bias"] and name == "slim":
            refuses(lambda: model(x, **kw), "slim evaluation with a bias", (ValueError,))
            refuses(lambda: model.loss(x, **kw), "slim loss with a bias", (ValueError,))
            continue
        with mode_of(ops), sut(f"log probabilities ({name}) {ops}"):
            if case["positional"]:
                lp = model(x, kw.get("slim_eval", False), kw.get("parallel_eval", False))
            else:
                lp = model(x, **kw)
        amp = check_logp(lp, cores, left, right, vecs, dtype, f"log probabilities ({name})")
        results[name] = to_np(lp).astype(float)
        with sut(f"loss ({name})"):
            loss = model.loss(x, **kw)
        check(tuple(loss.shape) == (), f"loss of shape {tuple(loss.shape)}")
        mean = -results[name].mean()
        if np.isfinite(mean):
            close(loss, mean, 64 * EPS[dtype] * (1 + np.abs(results[name]).max()), f"loss ({name})")
        else:
            check(float(loss) == np.inf, f"loss ({name}) is {float(loss)!r} with an impossible sequence")
    # log_norm on its own
    ln, tol = lognorm_tol(cores, left, right, None, dtype)
    with sut("log_norm"):
        got = model.log_norm(n) if cfg["uniform"] else model.log_norm()
    close(got, np.float64(ln), tol, "log_norm")
    # One input at a time
    k = case["seed"] % len(x)
    with sut("log probability of a single sequence"):
        one = to_np(model(x[k:k + 1])).astype(float)
    check_logp(one, cores, left, right, vecs[k:k + 1], dtype, "log probability of a single sequence")
    same(x, kept, "inputs after evaluation")
    for p, q in zip(model.parameters(), params):
        same(p, q, "parameters after evaluation")
    prob_labels(cfg, ctx)
    ctx.label(*ops)
    ctx.label("thin boundary" if case["thin"] else "usual boundary")
    ctx.label("wide spread" if case["spread"] else "even")
    ctx.label(kind, dtype, "length 0" if n == 0 else "length 1" if n == 1 else "long" if n > 9 else "short")
    mod = np.abs(amp)
    return bool(((mod > 1e-9) & (np.abs(mod - 1) > 1e-9)).any()) and n > 0


# ------------------------------------------------------------- rescaling


@st.composite
def rescalings(draw):
    case = draw(cases())
    case["dtype"] = draw(st.sampled_from(["float64", "float64", "float32"]))
    case["xscale"] = 1.0
    case["style"] = draw(st.sampled_from(["normal", "int", "uniform"]))
    case["target"] = draw(st.sampled_from(["cores", "one core", "left", "right", "both ends", "all"]))
    top = draw(st.sampled_from([12, 12, 250]))
    top = top if case["dtype"] == "float64" else top / 10
    case["factor"] = draw(st.floats(-top, top))
    case["sign"] = draw(st.sampled_from([1, -1]))
    case["phase"] = draw(st.floats(0, 6.28))
    case["cfg"]["use_bias"] = draw(st.integers(0, 3)) == 0
    return case


def run_rescaled(case, ctx):
    cfg, dtype, n = case["cfg"], case["dtype"], case["length"]
    model, x, vecs, kind = setup(case)
    cores, left, right = prob_params(model, n)
    if not probs_domain_ok(cores, left, right, dtype):
        raise Skip
    names = [k for k in STRATEGIES if not (cfg["use_bias"] and k == "slim")]
    with sut("log probabilities"):
        before = {k: to_np(model(x, **STRATEGIES[k])).astype(float) for k in names}
    c = 10.0 ** case["factor"] * case["sign"]
    if cfg["complex_params"]:
        c = c * np.exp(1j * case["phase"])
    target = case["target"]
    with torch.no_grad():
        if target in ("cores", "all"):
            model.core_tensors.mul_(c)
            if cfg["use_bias"]:
                model.bias_mat.mul_(c)
        if target == "one core":
            if cfg["uniform"] or cfg["use_bias"]:
                raise Skip
            model.core_tensors[case["seed"] % n].mul_(c)
        if target in ("left", "both ends", "all"):
            model.edge_vecs[0].mul_(c)
        if target in ("right", "both ends", "all"):
            model.edge_vecs[1].mul_(c)
    cores, left, right = prob_params(model, n)
    _, tol = lognorm_tol(cores, left, right, None, dtype)
    for k in names:
        with sut(f"log probabilities ({k}) after scaling {target} by {c!r}"):
            after = model(x, **STRATEGIES[k])
        check_logp(after, cores, left, right, vecs, dtype, f"log probabilities ({k}) after scaling {target} by {c!r}")
        lp = to_np(after).astype(float)
        b = before[k]
        unit = unit_scale(cores, left, right)[:3]
        amp = np.abs(ref_amps(*unit, vecs))
        top = ref_amps(*unit, vecs, absval=True)
        good = amp > 1e-4 * top
        mag = np.abs(b[good]) + n * abs(case["factor"]) * 8 + 10
        close(lp[good], b[good], 2 * tol + 1e5 * EPS[dtype] * mag * (n + 2),
              f"log probabilities ({k}) before and after scaling {target} by {c!r}")
    prob_labels(cfg, ctx)
    ctx.label(target, dtype, kind)
    return True


# ------------------------------------------------------------- large models


@st.composite
def extents(draw):
    """One or two of the sizes are far larger than those of the other facets"""
    big = draw(st.lists(st.sampled_from(["batch", "length", "bond", "symbols"]), min_size=1, max_size=2))
    one = len(set(big)) == 1
    size = {k: draw(st.integers(*(v if k in big else w))) for k, v, w in (
        ("batch", (60, 1100 if one else 150), (1, 4)), ("length", (40, 300 if one else 110), (1, 5)),
        ("bond", (10, 66 if one else 24), (1, 4)), ("symbols", (12, 270 if one else 60), (2, 4)))}
    return {"big": sorted(set(big)), "size": size, "seed": draw(seeds), "layout": draw(layouts), "uses": draw(uses()),
            "uniform": draw(st.booleans()), "bias": draw(st.integers(0, 2)) == 0, "complex": draw(st.booleans()),
            "values": draw(st.sampled_from(["near one", "positive", "normal"])), "dtype": draw(st.sampled_from(dts)),
            "input": draw(st.sampled_from(["index", "index", "vector", "onehot"])), "mode": draw(st.booleans()),
            "grad": draw(st.booleans()), "init_method": draw(st.sampled_from(["near_eye", "normal"]))}


def run_extents(case, ctx):
    size, seed, dtype = case["size"], case["seed"], case["dtype"]
    b, n, d, f = (size[k] for k in ("batch", "length", "bond", "symbols"))
    torch.set_default_dtype(DT[dtype])
    torch.manual_seed(seed % 991)
    with sut("constructing a model"):
        model = make_prob({"uniform": case["uniform"], "seq_len": n, "input_dim": f, "bond_dim": d, "use_bias": case["bias"],
                           "complex_params": case["complex"], "init_method": case["init_method"]})
    with torch.no_grad():
        for k, p in enumerate(model.parameters()):
            if not p.numel():
                continue
            v = arr(rng_of(seed, 40, k), tuple(p.shape), "normal", 1.0, p.is_complex())
            wide = p.shape[-1] if p.ndim >= 2 else 1
            if case["values"] == "near one":
                v = (np.eye(wide) if p.ndim >= 2 and p.shape[-1] == p.shape[-2] and p is not model.edge_vecs else 1) + 0.1 * v / wide
            elif case["values"] == "positive":
                v = np.abs(v) * (np.exp(0.05j * v.real) if p.is_complex() else 1) / wide
            else:
                v = v / wide ** 0.5
            p.copy_(torch.tensor(v, dtype=p.dtype))
    model.train(case["mode"])
    rng = rng_of(seed, 2)
    if case["input"] == "vector":
        x = torch.tensor(rng.uniform(0.3, 1.3, size=(b, n, f)) / f, dtype=DT[dtype])
        vecs = to_np(x).astype(float)
    else:
        x = torch.tensor(rng.integers(0, f, size=(b, n)))
        vecs = onehot_np(to_np(x), f)
        if case["input"] == "onehot":
            x = torch.tensor(vecs, dtype=DT[dtype])
    x = layout(x, case["layout"])
    cores, left, right = prob_params(model, n)
    if not probs_domain_ok(cores, left, right, dtype):
        raise Skip
    model = use(model, case["uses"], seed, lambda m, v: m(v), x)
    for name, kw in STRATEGIES.items():
        if case["bias"] and name == "slim":
            continue
        with mode_of(case["uses"]), sut(f"log probabilities of a large model ({name}) {case['uses']}"):
            lp = model(x, **kw) if case["grad"] else torch.no_grad()(model)(x, **kw)
        check_logp(lp, cores, left, right, vecs, dtype, f"log probabilities of a large model ({name})")
        with sut(f"loss of a large model ({name})"):
            loss = model.loss(x, **kw)
        v = to_np(lp).astype(float)
        if np.isfinite(v).all():
            close(loss, -v.mean(), 64 * EPS[dtype] * (1 + np.abs(v).max()), f"loss of a large model ({name})")
    ctx.label(case["values"], dtype, case["input"], *("large " + k for k in case["big"]))
    return True


FACETS = [
    Facet("born-rule", cases(), run, 1800),
    Facet("rescaling", rescalings(), run_rescaled, 800),
    Facet("extents", extents(), run_extents, 400, 12000),
]

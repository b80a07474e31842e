from common import *
from core import *
from props.c02 import ti_cfg

RULE = (
    "A case is a model of any class with generated values, inputs and output weights; for every active parameter "
    "and the inputs, the backpropagated gradient along a generated direction is compared with Richardson-extrapolated "
    "central differences of the model's own output (double precision), and gradients of all strategies with each other; a third of the cases also compare second derivatives with differences of gradients. Large models are compared with "
    "automatic differentiation of a naive contraction. "
    "Non-trivial when some gradient is not zero."
)


# Tried in turn: a function that is very curved along a direction (1/x near zero) needs the smaller ones
STEPS = (2e-4, 2e-5, 2e-6)


def direction(t, seed, k):
    return torch.tensor(arr(rng_of(seed, 31, k), t.shape, "normal", 1.0, t.is_complex()), dtype=t.dtype)


def numeric(fun, t, v, h):
    """Derivative of fun() when t moves along v, with an error estimate"""
    def at(s):
        with torch.no_grad():
            old = t.detach().clone()
            t.data.copy_(old + s * v)
            out = float(fun())
            t.data.copy_(old)
        return out

    d1 = (at(h) - at(-h)) / (2 * h)
    d2 = (at(h / 2) - at(-h / 2)) / h
    best = (4 * d2 - d1) / 3
    return best, abs(d2 - d1)


def inner(g, v):
    return float((g.conj() * v).sum().real)


def compare(fun, tensors, grads, seed, scale, what):
    for k, (name, t) in enumerate(tensors):
        v = direction(t, seed, k)
        size = float(v.abs().square().sum().sqrt())
        got = inner(grads[name], v)
        check(np.isfinite(got), f"{what}: gradient of {name} not finite")
        for step in STEPS:
            ref, err = numeric(fun, t, v, step / max(1.0, size))
            tol = 2e-6 * (scale * max(1.0, size) + abs(ref)) + 2 * err * 1e-3
            if abs(got - ref) <= tol:
                break
        else:
            raise Violation(f"{what}: gradient of {name} along a direction is {got!r}, finite differences give {ref!r} "
                            f"(tolerance {tol:.2g})")


def second_order(fun, tensors, seed, scale, what):
    """Gradients of gradients along two directions, for penalties on gradients and second-order methods"""
    ts = [t for _, t in tensors]
    vs = [direction(t, seed, 300 + k) / max(1, t.numel()) ** 0.5 for k, t in enumerate(ts)]
    us = [direction(t, seed, 400 + k) / max(1, t.numel()) ** 0.5 for k, t in enumerate(ts)]

    def slope(create=False):
        with sut(f"{what}: gradients to be differentiated"):
            gs = torch.autograd.grad(fun(), ts, create_graph=create, allow_unused=True)
        return sum((g.conj() * v).sum().real for g, v in zip(gs, vs) if g is not None)

    s = slope(True)
    if not (isinstance(s, torch.Tensor) and s.requires_grad):
        return
    with sut(f"{what}: second backward pass"):
        hs = torch.autograd.grad(s, ts, allow_unused=True)
    got = sum(inner(h, u) for h, u in zip(hs, us) if h is not None)
    terms = sum(float((h.abs() * u.abs()).sum()) for h, u in zip(hs, us) if h is not None)
    old = [t.detach().clone() for t in ts]

    def at(x):
        for t, o, u in zip(ts, old, us):
            t.data.copy_(o + x * u)
        out = float(slope())
        for t, o in zip(ts, old):
            t.data.copy_(o)
        return out

    check(np.isfinite(got), f"{what}: second derivative not finite")
    for h in STEPS:
        d1 = (at(h) - at(-h)) / (2 * h)
        d2 = (at(h / 2) - at(-h / 2)) / h
        ref, err = (4 * d2 - d1) / 3, abs(d2 - d1)
        tol = 1e-5 * (terms + abs(ref) + abs(float(s))) + 2e-2 * err + 1e-8 * (1 + scale) ** 2
        if abs(got - ref) <= tol:
            return
    raise Violation(f"{what}: second derivative along two directions is {got!r}, finite differences of gradients give "
                    f"{ref!r} (tolerance {tol:.2g})")


# ------------------------------------------------------------- MPS and TI_MPS


OPS = ["eval", "eval", "train", "reload", "warm", "warm load", "warm data", "backward", "data pointer", "freeze some"]
some_ops = st.one_of(st.just([]), st.lists(st.sampled_from(OPS), min_size=1, max_size=3))


@st.composite
def linear_cases(draw):
    kind = draw(st.sampled_from(["mps", "mps", "adaptive", "ti"]))
    case = {"kind": kind, "seed": draw(seeds), "batch": draw(st.integers(1, 3)), "raw": draw(st.booleans()),
            "map": draw(st.booleans()), "flips": 0, "uses": draw(some_ops), "second": draw(st.integers(0, 2)) == 2}
    if kind == "mps":
        case["cfg"] = draw(mps_cfg(max_in=6, big_in=14, max_bond=4, big_bond=6))
        case["path"] = draw(st.booleans())
    elif kind == "adaptive":
        case["cfg"] = draw(adaptive_cfg(max_in=6))
        case["cfg"]["merge_threshold"] = 600
        case["flips"] = draw(st.integers(0, 2))
    else:
        case["cfg"] = draw(ti_cfg(max_bond=4))
        n = draw(st.integers(1, 3))
        case["lengths"] = draw(st.lists(st.integers(1, 6), min_size=n, max_size=n))
        case["list"] = draw(st.booleans())
    if case["raw"] and not case["map"]:
        case["cfg"]["feature_dim"] = 2
    return case


def run_linear(case, ctx):
    torch.set_default_dtype(torch.float64)
    torch.manual_seed(case["seed"] % 991)
    cfg, kind, seed = case["cfg"], case["kind"], case["seed"]
    f = cfg["feature_dim"]
    with sut("constructing a model"):
        if kind == "ti":
            model = make_ti(cfg)
        elif kind == "mps" and case["path"]:
            model = make_mps(cfg, path=[int(k) for k in rng_of(seed, 1).permutation(cfg["input_dim"])])
        else:
            model = make_mps(cfg)
    fmap = None
    if case["raw"] and case["map"]:
        fmap, _ = feature_map("module", f, seed, "float64")
        model.register_feature_map(fmap)
    rng = rng_of(seed, 2)

    def inputs(n):
        return torch.tensor(rng.normal(size=(n,) if case["raw"] else (n, f)), requires_grad=True)

    if kind == "ti":
        lens = case["lengths"]
        pads = cfg["use_bias"] and cfg["fixed_bias"]
        if not pads or not case["list"]:
            lens = [lens[0]] * len(lens)
        xs = [inputs(n) for n in lens]
        call = (lambda: model(xs)) if case["list"] else (lambda: model(torch.stack(xs)))
    else:
        xs = [inputs(cfg["input_dim"]) for _ in range(case["batch"])]
        call = lambda: model(torch.stack(xs))
        for _ in range(case["flips"]):
            with torch.no_grad():
                for k, p in enumerate(model.linear_region.module_list.parameters()):
                    p.copy_(direction(p, seed, 100 + k) / p.shape[1] ** 0.5)
                fill_in = torch.rand(600, cfg["input_dim"], f)
                model(fill_in[:-1] if False else fill_in)
                model(fill_in[:1])
        if kind == "adaptive":
            with torch.no_grad():
                for k, p in enumerate(model.linear_region.module_list.parameters()):
                    p.copy_(direction(p, seed, 200 + k) / p.shape[1] ** 0.5)
    if kind != "adaptive":
        fill(model, seed, "normal")
    active = ([(f"active core {k}", p) for k, p in enumerate(model.linear_region.module_list.parameters())]
              if kind == "adaptive" else [(n, p) for n, p in model.named_parameters() if p.numel()])
    if kind == "adaptive" and fmap is not None:
        active += [("feature map " + n, p) for n, p in fmap.named_parameters()]
    ops = case["uses"]
    use(model, ops, seed, lambda m, v: call())
    active = [(n, p) for n, p in active if p.requires_grad]
    for x in xs:
        x.grad = None
    with sut(f"evaluating {ops}"):
        y = call()
    w = torch.tensor(rng_of(seed, 9).normal(size=tuple(y.shape)))
    model.zero_grad()
    with sut("backward"):
        (y * w).sum().backward()
    everything = active + [(f"input {k}", x) for k, x in enumerate(xs)]
    grads = {}
    for name, t in everything:
        check(t.grad is not None, f"{name} receives no gradient")
        grads[name] = t.grad.clone()
    scale = float((y.detach() * w).abs().sum())
    compare(lambda: (call() * w).sum(), everything, grads, seed, scale, kind)
    if case["second"]:
        second_order(lambda: (call() * w).sum(), everything, seed, scale, kind)
        ctx.label("second order")
    if kind == "mps":
        other = make_mps(cfg, parallel_eval=not cfg["parallel_eval"], path=model.path)
        if fmap is not None:
            other.register_feature_map(fmap)
        other.load_state_dict(model.state_dict())
        model.zero_grad(), other.zero_grad()
        (other(torch.stack([x.detach() for x in xs])) * w).sum().backward()
        for name, p in other.named_parameters():
            if p.numel() == 0:
                continue
            if name not in grads:  # frozen
                continue
            check(p.grad is not None, f"{name} receives no gradient in the other strategy")
            g = grads[name].numpy()
            close(p.grad, g, 1e-9 * (np.abs(g).max() + scale), f"gradient of {name}: serial versus parallel")
        cfg_labels(cfg, ctx)
    ctx.label(*ops)
    ctx.label(kind, f"rearrangements {case['flips']}", "raw" if case["raw"] else "embedded",
              "module map" if fmap is not None else "no module map")
    return any(float(g.abs().max()) > 0 for g in grads.values() if g.numel())


# ------------------------------------------------------------- Born machines


@st.composite
def prob_cases(draw):
    return {"cfg": draw(prob_cfg(max_seq=6, max_bond=4, max_in=3)), "seed": draw(seeds),
            "batch": draw(st.integers(1, 3)),
            "input": draw(st.sampled_from(["index", "vector", "fixed emb", "trainable emb", "trainable discrete"])),
            "target": draw(st.sampled_from(["loss", "weighted"])), "uses": draw(some_ops),
            "second": draw(st.integers(0, 2)) == 2}


def run_prob(case, ctx):
    from torchmps.embeddings import DataDomain, FixedEmbedding, TrainableEmbedding

    torch.set_default_dtype(torch.float64)
    torch.manual_seed(case["seed"] % 991)
    cfg, seed, kind = case["cfg"], case["seed"], case["input"]
    n, d, b = cfg["seq_len"], cfg["input_dim"], case["batch"]
    rng = rng_of(seed, 2)
    emb, lamb = None, None
    if kind == "fixed emb":
        a, c = torch.tensor(rng.normal(size=d)), torch.tensor(rng.normal(size=d))
        emb = FixedEmbedding(lambda x: torch.sin(a * x[..., None] + c), DataDomain(True, 1.0, -1.0))
    elif kind == "trainable emb":
        net = torch.nn.Sequential(torch.nn.Linear(1, 3), torch.nn.Tanh(), torch.nn.Linear(3, d))
        emb = TrainableEmbedding(net, DataDomain(True, 1.0, -1.0))
    elif kind == "trainable discrete":
        class Table(torch.nn.Module):
            def __init__(self):
                super().__init__()
                self.table = torch.nn.Parameter(torch.tensor(rng.normal(size=(3, d))))

            def forward(self, x):
                return self.table[x[..., 0]]

        emb = TrainableEmbedding(Table(), DataDomain(False, 3))
    with sut("constructing a probabilistic model"):
        model = make_prob(cfg, embed_fun=emb) if emb is not None else make_prob(cfg)
    fill(model, seed, "normal", names=lambda s: not s.startswith("embedding"))
    leaf = []
    if kind == "index":
        x = torch.tensor(rng.integers(0, d, size=(b, n)))
        vecs = onehot_np(x, d)
    elif kind == "trainable discrete":
        x = torch.tensor(rng.integers(0, 3, size=(b, n)))
        vecs = to_np(emb(x))
    elif kind == "vector":
        x = torch.tensor(rng.normal(size=(b, n, d)), requires_grad=True)
        vecs = to_np(x)
    else:
        x = torch.tensor(rng.uniform(-1, 1, size=(b, n)), requires_grad=True)
        vecs = to_np(emb(x))
    if x.requires_grad:
        leaf = [("input", x)]
    cores, left, right = prob_params(model, n)
    amp = np.abs(ref_amps(cores, left, right, vecs))
    top = ref_amps(cores, left, right, vecs, absval=True)
    if not probs_domain_ok(cores, left, right, "float64", to_np_full(emb, d)) or (amp < 0.02 * top).any():
        raise Skip
    w = torch.tensor(rng_of(seed, 9).normal(size=b))
    names = ["default", "parallel"] if cfg["use_bias"] else list(STRATEGIES)
    ops = case["uses"]
    use(model, ops, seed, lambda m, v: m(x))
    params = [(k, p) for k, p in model.named_parameters() if p.requires_grad]
    if not params and not leaf:
        raise Skip
    all_grads = {}
    for name in names:
        kw = STRATEGIES[name]
        fun = ((lambda: model.loss(x, **kw)) if case["target"] == "loss"
               else (lambda: (model(x, **kw) * w).sum()))
        model.zero_grad()
        if leaf:
            x.grad = None
        with sut(f"{case['target']} with strategy {name}"):
            fun().backward()
        grads = {}
        for k, t in params + leaf:
            check(t.grad is not None, f"{k} receives no gradient with strategy {name}")
            grads[k] = t.grad.clone()
        all_grads[name] = grads
        # Directions in which the log probability is very curved need small steps
        scale = float(max(t.abs().max() for t in grads.values())) + float(np.max(top / amp))
        if name == names[seed % len(names)]:
            compare(fun, params + leaf, grads, seed, scale, f"{type(model).__name__} {case['target']} ({name})")
            if case["second"]:
                second_order(fun, params + leaf, seed, scale, f"{type(model).__name__} {case['target']} ({name})")
                ctx.label("second order")
    for name in names[1:]:
        for k, g in all_grads[names[0]].items():
            ref = to_np(g)
            close(all_grads[name][k], ref, 1e-8 * (np.abs(ref).max() + scale), f"gradient of {k}: {name} versus {names[0]}")
    prob_labels(cfg, ctx)
    ctx.label(kind, case["target"], *ops)
    return True


def to_np_full(emb, d):
    if emb is None:
        return None
    lam = to_np(emb.lamb_mat)
    return lam * np.eye(d) if lam.ndim == 0 else np.diag(lam) if lam.ndim == 1 else lam


# ------------------------------------------------------------- large models


@st.composite
def extents(draw):
    """One or two of the sizes are far larger than those of the other facets"""
    kind = draw(st.sampled_from(["mps", "mps", "ti", "prob", "prob"]))
    big = draw(st.lists(st.sampled_from(["batch", "length", "bond", "feature", "output"]), min_size=1, max_size=2))
    one = len(set(big)) == 1
    size = {k: draw(st.integers(*(v if k in big else w))) for k, v, w in (
        ("batch", (30, 700 if one else 120), (1, 3)), ("length", (25, 250 if one else 80), (1, 5)),
        ("bond", (10, 50 if one else 20), (1, 4)), ("feature", (8, 90 if one else 25), (2, 3)),
        ("output", (10, 70 if one else 20), (1, 3)))}
    n = size["length"]
    case = {"kind": kind, "big": sorted(set(big)), "seed": draw(seeds), "size": size, "uses": draw(some_ops),
            "par": draw(st.booleans()), "bias": draw(st.booleans()), "periodic": draw(st.booleans()),
            "site": draw(st.sampled_from([None, 0, 1, n // 2, n - 1, n])), "mode": draw(st.booleans()),
            "complex": draw(st.booleans()), "uniform": draw(st.booleans()), "index": draw(st.booleans()),
            "strategy": draw(st.sampled_from(list(STRATEGIES))), "target": draw(st.sampled_from(["loss", "weighted"]))}
    return case


def chain_values(model, seed):
    """Products of any length stay well away from cancelling"""
    with torch.no_grad():
        for k, (name, p) in enumerate(model.named_parameters()):
            rng = rng_of(seed, 40, k)
            if not p.numel():
                continue
            noise = torch.tensor(arr(rng, tuple(p.shape), "normal", 0.05, p.is_complex()), dtype=p.dtype)
            if p.ndim >= 2 and p.shape[-1] == p.shape[-2] and name.endswith(("bias_mat",)):
                p.copy_(0.3 * torch.eye(p.shape[-1]) + noise / p.shape[-1])
            elif name.endswith("core_tensor") or (name.endswith("tensor") and p.ndim == 4):  # left, right, feature
                f = p.shape[-1]
                p.copy_(0.7 * torch.eye(p.shape[-2])[..., None] * torch.ones(f) / f + noise / p.shape[-2])
            elif p.ndim >= 3:
                p.copy_(torch.eye(p.shape[-1]) + noise / p.shape[-1])
            else:
                p.copy_(1 + noise)


def naive_linear(model, x, periodic):
    """Output of an MPS from its tensors, one matrix after the other"""
    b, at, state = len(x), 0, None
    for m in model.linear_region.module_list:
        if type(m).__name__ == "OutputSite":
            o, d, _ = m.tensor.shape
            if state is None:
                state = torch.eye(d).expand(b, d, d) if periodic else torch.eye(d)[0].expand(b, 1, d)
            state = torch.einsum("bad,ode->baoe", state, m.tensor)
            continue
        for core in m.tensor:
            mat = torch.einsum("lri,bi->blr", core, x[:, at])
            if m.use_bias:
                mat = mat + m.bias_mat.reshape(m.bias_mat.shape[-2:])
            at += 1
            d = mat.shape[-1]
            if state is None:
                state = torch.eye(d).expand(b, d, d) if periodic else torch.eye(d)[0].expand(b, 1, d)
            state = torch.einsum("bad,bde->bae" if state.ndim == 3 else "baod,bde->baoe", state, mat)
    return torch.einsum("baoa->bo", state) if periodic else state[:, 0, :, 0]


def naive_ti(model, x):
    state = model.init_vector.vec.expand(len(x), -1)
    for k in range(x.shape[1]):
        mat = torch.einsum("lri,bi->blr", model.core_tensor, x[:, k])
        if model.bias_mat is not None:
            mat = mat + model.bias_mat
        state = torch.einsum("bd,bde->be", state, mat)
    return state @ model.terminal_mat.mat


def naive_born(model, vecs):
    """Log probabilities of a Born machine"""
    n = vecs.shape[1]
    core = model.core_tensors if model.core_tensors.ndim == 4 else model.core_tensors.expand(n, *model.core_tensors.shape)
    bias = model.bias_mat if model.use_bias else 0
    left, right = model.edge_vecs
    kind = core.dtype
    state, dens = left.expand(len(vecs), -1), left[:, None] * left.conj()
    log, lognorm = 0.0, 0.0
    for k in range(n):
        # The bias is added to every slice
        full = core[k] + bias
        mat = torch.einsum("ilr,bi->blr", full, vecs[:, k].to(kind))
        state = torch.einsum("bd,bde->be", state, mat)
        scale = state.detach().abs().sum(-1, keepdim=True)
        state, log = state / scale, log + scale[:, 0].log()
        dens = torch.einsum("ilr,lp,ipq->rq", full, dens, full.conj())
        scale = dens.detach().abs().sum()
        dens, lognorm = dens / scale, lognorm + scale.log()
    amp = state @ right
    lognorm = lognorm + (right @ dens @ right.conj()).real.log()
    return 2 * (amp.abs().log() + log) - lognorm


def run_extents(case, ctx):
    torch.set_default_dtype(torch.float64)
    torch.manual_seed(case["seed"] % 991)
    size, kind, seed = case["size"], case["kind"], case["seed"]
    b, n, d, f, o = (size[k] for k in ("batch", "length", "bond", "feature", "output"))
    rng = rng_of(seed, 2)
    kw = {}
    with sut("constructing a model"):
        if kind == "mps":
            model = make_mps({"input_dim": n, "output_dim": o, "bond_dim": d, "feature_dim": f, "periodic_bc": case["periodic"],
                              "parallel_eval": case["par"], "use_bias": case["bias"], "label_site": case["site"]})
        elif kind == "ti":
            model = make_ti({"output_dim": o, "bond_dim": d, "feature_dim": f, "parallel_eval": case["par"], "fixed_ends": False,
                             "use_bias": case["bias"], "fixed_bias": case["periodic"]})
        else:
            model = make_prob({"uniform": case["uniform"], "seq_len": n, "input_dim": f, "bond_dim": d, "use_bias": case["bias"],
                               "complex_params": case["complex"]})
            kw = STRATEGIES[case["strategy"]]
            if case["bias"] and kw == {"slim_eval": True}:
                kw = {}
    chain_values(model, seed)
    model.train(case["mode"])
    if kind == "prob" and case["index"]:
        x = torch.tensor(rng.integers(0, f, size=(b, n)))
        vecs = torch.nn.functional.one_hot(x, f).to(torch.float64)
    else:
        x = torch.tensor(1 + 0.2 * rng.normal(size=(b, n, f)), requires_grad=True)
        if kind == "prob":
            x = (x.detach() / f).requires_grad_(True)
        vecs = x
    ops = case["uses"]
    use(model, ops, seed, lambda m, v: m(v, **kw), x)
    params = {k: p for k, p in model.named_parameters() if p.numel() and p.requires_grad}
    leaves = dict(params, **({"the inputs": x} if x.requires_grad else {}))
    if not leaves:
        raise Skip
    want = naive_born(model, vecs) if kind == "prob" else naive_ti(model, x) if kind == "ti" else naive_linear(model, x, case["periodic"])
    w = torch.tensor(rng_of(seed, 9).uniform(0.5, 1.5, size=tuple(want.shape)))
    if kind == "prob" and case["target"] == "loss":
        w = torch.full((b,), -1.0 / b)
    ref = torch.autograd.grad((want * w).sum(), list(leaves.values()), allow_unused=True)
    with sut(f"evaluating a large model {ops}"):
        if kind == "prob" and case["target"] == "loss":
            total = model.loss(x, **kw)
        else:
            total = (model(x, **kw) * w).sum()
    base = float((want * w).abs().sum().detach())
    close(total, float((want * w).sum().detach()), 1e-9 * (1 + base), "weighted outputs of a large model")
    with sut("backward through a large model"):
        got = torch.autograd.grad(total, list(leaves.values()), allow_unused=True)
    for (name, t), g, r in zip(leaves.items(), got, ref):
        if r is None:
            continue
        check(g is not None, f"{name} of a large model receives no gradient")
        r = to_np(r)
        close(g, r, 1e-8 * (np.abs(r).max() + base / max(1, t.numel())) + 1e-13, f"gradient of {name} of a large model")
    ctx.label(kind, *("large " + k for k in case["big"]), *ops)
    return True


FACETS = [
    Facet("linear", linear_cases(), run_linear, 1300),
    Facet("born", prob_cases(), run_prob, 1000),
    Facet("extents", extents(), run_extents, 500, 15000),
]

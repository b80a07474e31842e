import copy
import os
import pickle
import tempfile

from common import *
from core import *
import torch._dynamo  # noqa: F401  (imported by the first optimiser step; slow, hence once before forking)
from props.c09 import (Table, batch_of, build, counted, domain_ok, embedded, loss_of, models, outputs, values)

RULE = (
    "A case is a model of any class and option, a history of evaluations and optimizer steps, and a way of making "
    "a second model from it (state_dict into a fresh model, the same through a file, deepcopy, torch.save of the whole model, twice over), followed "
    "by further use of both; or a real model converted with double(). Non-trivial when the history changed the "
    "parameters, or the model has bond dimension above 1 (conversion)."
)

ASSUMPTIONS = [
    "a fixed embedding keeps the normalisation matrix which it computed at construction; double() is checked for "
    "models without embeddings and with trainable ones",
    "the input counter and the bookkeeping of an adaptive model are not part of its state_dict",
]


def params_of(model):
    return {n: p.detach().clone() for n, p in model.named_parameters()}


def unchanged(model, before, what):
    now = dict(model.named_parameters())
    check(set(now) == set(before), f"{what}: names of the parameters changed")
    for n, p in before.items():
        check(torch.equal(now[n], p), f"{what}: parameter {n} changed")


def train(model, case, k, opt=None):
    """One step of gradient descent, clipped"""
    x = batch_of(case, k)
    opt = opt or torch.optim.SGD(model.parameters(), lr=0.05)
    opt.zero_grad()
    loss = loss_of(model, case, x, k)
    loss.backward()
    norm = torch.nn.utils.clip_grad_norm_(list(model.parameters()), 1.0)
    if not torch.isfinite(norm):
        raise Skip
    opt.step()
    return float(loss.detach())


def usable(model, case):
    if case["kind"] == "prob" and not domain_ok(model, case["cfg"]):
        raise Skip


def reference(model, case, x):
    """Outputs of an MPS from its active cores, with tolerance"""
    chain, per = chain_of(model), case["cfg"]["periodic_bc"]
    ex = embedded(model, case, x)
    return ref_mps(chain, ex, per), chain_tol(chain, ex, per, "float64", c=100)


def compare(model, other, case, what):
    """Both models compute the same function, without counting inputs of an adaptive one"""
    for k in (901, 902):
        x = batch_of(case, k)
        with torch.no_grad(), sut(what):
            y = other(x)
        if case["kind"] == "adaptive":
            want, tol = reference(model, case, x)
            close(y, want, tol, f"{what}: outputs")
        else:
            with torch.no_grad():
                z = model(x)
            check(y.dtype == z.dtype, f"{what}: dtype {y.dtype} rather than {z.dtype}")
            same(y, z, f"{what}: outputs")
    for (n, p), (m, q) in zip(model.named_parameters(), other.named_parameters()):
        check(n == m and p.requires_grad == q.requires_grad, f"{what}: parameters {n} and {m}")


def second(model, case, how, tmp):
    """Another model with the state of the given one"""
    if how == "deepcopy" or (how == "whole" and case["extra"] == "fixed"):  # lambdas can't be pickled
        with sut("copy.deepcopy"):
            return copy.deepcopy(model)
    if how == "whole":
        path = os.path.join(tmp, "whole.pt")
        with sut("torch.save and torch.load of a whole model"):
            torch.save(model, path)
            return torch.load(path, weights_only=False)
    torch.manual_seed(case["seed"] % 983 + 7)
    other, _ = build(dict(case, seed=case["seed"]))
    if case["kind"] == "adaptive" and case["ahead"]:
        # The fresh model might be in either merge state itself
        with sut("evaluating a fresh model"), torch.no_grad():
            for k in range(case["ahead"]):
                other(batch_of(case, 700 + k, case["cfg"]["merge_threshold"]))
            other.linear_region.input_counter = 0
    with torch.no_grad():
        for p in other.parameters():
            p.add_(1.0)
    sd = model.state_dict()
    if how == "file":
        path = os.path.join(tmp, "model.pt")
        torch.save(sd, path)
        sd = torch.load(path)
    with sut("load_state_dict"):
        res = other.load_state_dict(sd)
    check(not res.missing_keys and not res.unexpected_keys, "load_state_dict: keys do not match")
    return other


@st.composite
def copies(draw):
    case = draw(models())
    case["steps"] = draw(st.lists(st.sampled_from(["train", "train", "eval", "values", "nograd"]), max_size=8))
    case["how"] = draw(st.lists(st.sampled_from(["state", "file", "deepcopy", "whole"]), min_size=1, max_size=2))
    case["after"] = draw(st.integers(1, 4))
    case["ahead"] = draw(st.integers(0, 3))
    case["buffers"] = draw(st.booleans())
    case["mode"] = draw(st.sampled_from(["train", "train", "eval"]))
    return case


def run_copies(case, ctx):
    torch.set_default_dtype(torch.float64)
    torch.manual_seed(case["seed"] % 991)
    case = dict(case, cfg=dict(case["cfg"]))
    kind, cfg = case["kind"], case["cfg"]
    if kind == "adaptive":
        cfg["cutoff"] = 1e-13
        # Keep comparisons within one merge state of fresh models
        cfg["merge_threshold"] = max(cfg["merge_threshold"], 9) + 10 * (case["seed"] % 2)
    model, _ = build(case)
    if kind == "ti" and case["buffers"]:
        # Fixed tensors with other values, as from a checkpoint
        with torch.no_grad():
            for k, (n, t) in enumerate(model.named_buffers()):
                t.copy_(torch.tensor(rng_of(case["seed"], 66, k).normal(size=tuple(t.shape))))
        ctx.label("fixed tensors changed")
    first = params_of(model)
    for k, op in enumerate(case["steps"]):
        usable(model, case)
        if op == "values":
            values(model, case, k + 1)
        elif op == "train":
            with sut(f"step {k}: training"):
                train(model, case, k)
        else:
            with torch.set_grad_enabled(op == "eval"), sut(f"step {k}: evaluating"):
                model(batch_of(case, k))
    usable(model, case)
    now = params_of(model)
    moved = any(n in first and not torch.equal(first[n], p) for n, p in now.items()) and bool(case["steps"])
    if case["mode"] == "eval":
        model.eval()
    tmp = tempfile.mkdtemp(prefix="verif-c17-")
    try:
        other = model
        for how in case["how"]:
            other = second(other, case, how, tmp)
    finally:
        for name in os.listdir(tmp):
            os.remove(os.path.join(tmp, name))
        os.rmdir(tmp)
    what = " then ".join(case["how"])
    exact = not {"state", "file"} & set(case["how"])
    unchanged(model, now, f"original after {what}")
    ids = {id(p) for p in model.parameters()} | {p.data_ptr() for p in model.parameters() if p.numel()}
    for n, p in other.named_parameters():
        check(id(p) not in ids and (p.numel() == 0 or p.data_ptr() not in ids), f"{what}: {n} is shared")
    if exact and kind == "adaptive":
        # The copy has the same counters, so it takes the same course
        x = batch_of(case, 903)
        with torch.no_grad(), sut(what):
            same(copy.deepcopy(other)(x), copy.deepcopy(model)(x), f"{what}: outputs")
    else:
        compare(model, other, case, what)
    # Training either one leaves the other alone
    mine, its = params_of(model), params_of(other)
    with sut(f"training the model from {what}"):
        train(other, case, 801)
    unchanged(model, mine, f"training the model from {what} changed the original")
    if kind != "adaptive":
        check(any(not torch.equal(its[n], p) for n, p in other.named_parameters()) or not moved
              or all(p.grad is None or p.grad.abs().sum() < 1e-6 for p in other.parameters()),
              f"training the model from {what} has no effect")
    its = params_of(other)
    usable(model, case)
    with sut("training the original"):
        train(model, case, 802)
    unchanged(other, its, f"training the original changed the model from {what}")
    # Both go on working, through rearrangements of adaptive models
    for k in range(case["after"]):
        for who, m in (("original", model), (f"model from {what}", other)):
            usable(m, case)
            x = batch_of(case, 820 + k)
            with sut(f"evaluating the {who} again"):
                y = m(x)
                if kind == "adaptive":
                    want, tol = reference(m, case, x)
                    close(y, want, tol, f"{who} after further use: outputs")
                    y.sum().backward()
                    for i, mod in enumerate(m.linear_region.module_list):
                        check(mod.tensor.grad is not None, f"{who}: core {i} receives no gradient")
                else:
                    train(m, case, 840 + k)
    ctx.label(kind, f"extra {case['extra']}", *case["how"], f"mode {case['mode']}")
    if kind == "adaptive":
        ctx.label(f"offset {model.linear_region.offset}", f"fresh model ahead {case['ahead']}")
    return moved


# ------------------------------------------------------------- copies take the same course


def run_course(case, ctx):
    """A deepcopy or unpickled copy given the same data as the original has the same outputs for ever"""
    torch.set_default_dtype(torch.float64)
    torch.manual_seed(case["seed"] % 991)
    model, _ = build(case)
    values(model, case)
    for k, op in enumerate(case["steps"]):
        usable(model, case)
        with sut(f"step {k}"):
            if op == "train":
                train(model, case, k)
            else:
                model(batch_of(case, k))
    usable(model, case)
    if case["how"][0] == "whole" and case["extra"] != "fixed":
        with sut("pickling a whole model"):
            other = pickle.loads(pickle.dumps(model))
    else:
        with sut("copy.deepcopy"):
            other = copy.deepcopy(model)
    opts = [torch.optim.Adam(m.parameters(), lr=0.01) for m in (model, other)]
    flips = 0
    for k in range(case["after"] * 3):
        usable(model, case)
        with sut("training original and copy"):
            if case["kind"] == "adaptive":
                before = model.linear_region.offset
            a, b = (train(m, case, 860 + k, o) for m, o in zip((model, other), opts))
            if case["kind"] == "adaptive":
                flips += before != model.linear_region.offset
        check(a == b, f"step {k} after deepcopy: losses {a!r} and {b!r}")
        for (n, p), (_, q) in zip(model.named_parameters(), other.named_parameters()):
            check(torch.equal(p, q), f"step {k} after deepcopy: parameters {n} differ")
    if case["kind"] == "adaptive":
        same(model.bond_list, other.bond_list, "bond_list of the copy")
        same(model.sv_list, other.sv_list, "sv_list of the copy")
    ctx.label(case["kind"], f"rearrangements {min(flips, 3)}")
    return True


# ------------------------------------------------------------- double precision


@st.composite
def conversions(draw):
    case = draw(models())
    if case["kind"] == "prob":
        case["cfg"]["complex_params"] = False
        case["extra"] = draw(st.sampled_from([None, "mlp", "table32"]))
        case["inputs"] = draw(st.sampled_from(["index", "vector"]))
    case["uses"] = draw(st.integers(1, 6))
    case["list"] = draw(st.booleans())
    case["strategy"] = draw(st.sampled_from(["default", "slim", "parallel"]))
    case["before"] = draw(st.booleans())
    return case


def run_double(case, ctx):
    kind, cfg, seed = case["kind"], case["cfg"], case["seed"]
    torch.manual_seed(seed % 991)
    if kind == "prob":
        return double_prob(case, ctx)
    # The model is built in single precision
    extra = case["extra"]
    model, _ = build(dict(case, extra=None))
    np_map = None
    if extra == "module":
        fmap, np_map = feature_map("module", cfg["feature_dim"], seed, "float32")
        model.register_feature_map(fmap)
    values(model, case)

    def data(k, dtype):
        rng = rng_of(seed, 70, k)
        b, n = int(rng.integers(1, 5)), cfg.get("input_dim") or int(rng.integers(1, 5))
        shape = (b, n) if case["raw"] else (b, n, cfg["feature_dim"])
        return torch.tensor(rng.normal(size=shape), dtype=dtype)

    if case["before"]:
        with sut("evaluating in single precision"), torch.no_grad():
            model(data(0, torch.float32))
    with sut("double()"):
        out = model.double()
    check(out is model, "double() returns another model")

    def emb(x):
        a = to_np(x)
        if a.ndim == 3:
            return a
        if np_map is not None:  # with the parameters as rounded to single precision
            w, v = to_np(fmap.w), to_np(fmap.v)
            return w * a[..., None] ** 2 + v
        return embed_default(a)

    for k in range(case["uses"]):
        x = data(k + 1, torch.float64)
        if kind == "ti":
            xs = list(x)
            if case["list"] and model.bias_mat is not None and not isinstance(model.bias_mat, torch.nn.Parameter):
                # Sequences of different lengths are allowed
                xs = [data(100 * (k + 1) + j, torch.float64)[0] for j in range(len(xs))]
            exs = [emb(v[None])[0] for v in xs]
            want = np.stack([ref_ti(model, e) for e in exs])
            n, d = max(len(e) for e in exs), model.bond_dim + model.feature_dim + model.output_dim
            tol = 64 * EPS["float64"] * (n + 3) * d * np.stack([ref_ti(model, e, absval=True) for e in exs])
            with sut("evaluating in double precision"):
                y = model(xs if case["list"] else x)
        else:
            with sut("evaluating in double precision"):
                y = model(x)
            if model.path is not None:
                x = x[:, list(model.path)]
            chain, per = chain_of(model), cfg["periodic_bc"]
            want, tol = ref_mps(chain, emb(x), per), chain_tol(chain, emb(x), per, "float64", c=100)
        check(y.dtype == torch.float64, f"outputs have dtype {y.dtype} after double()")
        close(y, want, tol + 1e-300, f"outputs after double(), evaluation {k}")
        y.sum().backward()
    for n, p in model.named_parameters():
        check(p.dtype == torch.float64, f"parameter {n} has dtype {p.dtype} after double()")
    ctx.label(kind, "raw" if case["raw"] else "embedded", f"extra {extra}")
    return cfg["bond_dim"] > 1


def double_prob(case, ctx):
    from torchmps.embeddings import DataDomain, TrainableEmbedding, init_mlp_embed

    cfg, seed = case["cfg"], case["seed"]
    d, n = cfg["input_dim"], cfg["seq_len"]
    rng = rng_of(seed, 71)
    emb = None
    if case["extra"] == "mlp":
        emb = init_mlp_embed(d, num_layers=2, hidden_dims=[4])
    elif case["extra"] == "table32":
        emb = TrainableEmbedding(Table(rng.normal(size=(3, d)), torch.float32), DataDomain(False, 3))
    model = make_prob(cfg, **({} if emb is None else {"embed_fun": emb}))
    fill(model, seed, names=lambda s: not s.startswith("embedding"))
    with sut("double()"):
        model = model.double()
    lamb = None
    b = int(rng.integers(1, 5))
    if emb is None:
        x = torch.tensor(rng.integers(0, d, size=(b, n)))
        vecs = onehot_np(x.numpy(), d)
        if case["inputs"] == "vector":
            x = torch.tensor(rng.normal(size=(b, n, d)))
            vecs = to_np(x)
    else:
        if case["extra"] == "mlp":
            x = torch.tensor(rng.random((b, n)))
            points = torch.linspace(0, 1, 1000, dtype=torch.float64)
        else:
            x = torch.tensor(rng.integers(0, 3, size=(b, n)))
            points = torch.arange(3)
        net = emb.emb_module
        with torch.no_grad():
            vecs, v = to_np(net(x[..., None])), to_np(net(points[..., None]))
        lamb = v[:, :, None] * v[:, None, :]
        lamb = np.trapezoid(lamb, to_np(points), axis=0) if case["extra"] == "mlp" else lamb.sum(0)
    strategy = "default" if cfg["use_bias"] and case["strategy"] == "slim" else case["strategy"]
    cores, left, right = prob_params(model, n)
    if not probs_domain_ok(cores, left, right, "float64", lamb):
        raise Skip
    with sut("evaluating in double precision"):
        y = model(x, **STRATEGIES[strategy])
    check(y.dtype == torch.float64, f"log probabilities have dtype {y.dtype} after double()")
    check_logp(y, cores, left, right, vecs, "float64", "after double()", lamb=lamb)
    with sut("loss in double precision"):
        loss = model.loss(x)
        if torch.isfinite(loss):
            loss.backward()
    for name, p in model.named_parameters():
        check(p.dtype == torch.float64, f"parameter {name} has dtype {p.dtype} after double()")
    ctx.label("prob", f"extra {case['extra']}", strategy, case["inputs"])
    return cfg["bond_dim"] > 1


FACETS = [
    Facet("copies", copies(), run_copies, quick=1200),
    Facet("course", copies(), run_course, quick=500),
    Facet("double", conversions(), run_double, quick=1200),
]

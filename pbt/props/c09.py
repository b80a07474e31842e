from common import *
from core import *
import torch._dynamo  # noqa: F401  (imported by the first optimiser step; slow, hence once before forking)
from props.c02 import ti_cfg
from props.c05 import active_ids, random_active

RULE = (
    "A case is a model of any class (MPS, adaptive MPS, TI_MPS, ProbMPS, ProbUnifMPS; with trainable feature maps or "
    "embeddings), an optimizer made at the start and a history of training steps, evaluations and parameter updates. "
    "After every step a fresh model filled with the values a reference optimizer predicts has to agree. Non-trivial "
    "when at least one step changes the outputs."
)


# ------------------------------------------------------------- which tensors are trained


def expected_params(model, kind):
    """Number of trained values that each class documents, by group"""
    groups = {}
    if kind in ("mps", "adaptive"):
        for k, m in enumerate(model.linear_region.module_list):
            groups[f"core {k}"] = m.tensor
            if getattr(m, "use_bias", False):
                groups[f"bias {k}"] = m.bias_mat
    elif kind == "ti":
        groups["core"] = model.core_tensor
        groups["initial vector"] = model.init_vector.vec
        groups["terminal matrix"] = model.terminal_mat.mat
        if model.bias_mat is not None:
            groups["bias"] = model.bias_mat
    else:
        groups["cores"] = model.core_tensors
        groups["edge vectors"] = model.edge_vecs
        if model.use_bias:
            groups["bias"] = model.bias_mat
    return groups


def expected_count(cfg, kind):
    """Number of trained values outside of feature maps and embeddings"""
    if kind == "mps":
        n, d, f, o = cfg["input_dim"], cfg["bond_dim"], cfg["feature_dim"], cfg["output_dim"]
        ls = label_of(cfg)
        regions = (ls > 0) + (ls < n)
        return n * d * d * f + o * d * d + (regions * d * d if cfg.get("use_bias") else 0)
    if kind == "ti":
        d, f, o = cfg["bond_dim"], cfg["feature_dim"], cfg["output_dim"]
        ends = 0 if cfg["fixed_ends"] else d + d * o
        bias = d * d if cfg["use_bias"] and not cfg["fixed_bias"] else 0
        return d * d * f + ends + bias
    d, i = cfg["bond_dim"], cfg["input_dim"]
    sites = 1 if cfg["uniform"] else cfg["seq_len"]
    return sites * i * d * d + 2 * d + (d * d if cfg["use_bias"] else 0)


@st.composite
def models(draw, adaptive=True):
    kind = draw(st.sampled_from(["mps", "ti", "prob", "prob"] + (["adaptive", "adaptive"] if adaptive else [])))
    case = {"kind": kind, "seed": draw(seeds)}
    if kind == "mps":
        case["cfg"] = draw(mps_cfg(max_in=5, big_in=9, max_bond=4, big_bond=6, max_out=3))
        case["path"] = draw(st.booleans())
    elif kind == "adaptive":
        case["cfg"] = draw(adaptive_cfg(max_in=6, max_bond=3))
        case["cfg"]["merge_threshold"] = draw(st.integers(2, 9))
    elif kind == "ti":
        case["cfg"] = draw(ti_cfg(max_bond=4))
    else:
        case["cfg"] = draw(prob_cfg(max_seq=5, max_bond=3, max_in=3))
    if kind == "prob":
        case["extra"] = draw(st.sampled_from([None, None, "net", "table", "fixed"]))
    else:
        case["extra"] = draw(st.sampled_from([None, "module", "module"]))
        if case["extra"] is None:
            case["raw"] = draw(st.booleans())
            if case["raw"]:
                case["cfg"]["feature_dim"] = 2
        else:
            case["raw"] = True
    return case


class Table(torch.nn.Module):
    """Embedding of a discrete variable by a trained table"""

    def __init__(self, a, dtype=torch.float64):
        super().__init__()
        self.table = torch.nn.Parameter(torch.tensor(a, dtype=dtype))

    def forward(self, x):
        return self.table[x[..., 0]]


def build(case):
    """(model, modules trained along with it)"""
    from torchmps.embeddings import DataDomain, FixedEmbedding, TrainableEmbedding

    cfg, kind, seed = case["cfg"], case["kind"], case["seed"]
    others = []
    with sut("constructing a model"):
        if kind == "ti":
            model = make_ti(cfg)
        elif kind in ("mps", "adaptive"):
            path = None
            if case.get("path"):
                path = [int(k) for k in rng_of(seed, 1).permutation(cfg["input_dim"])]
            model = make_mps(cfg, path=path)
        else:
            d, emb = cfg["input_dim"], None
            rng = rng_of(seed, 3)
            if case["extra"] == "fixed":
                a, c = torch.tensor(rng.normal(size=d)), torch.tensor(rng.normal(size=d))
                emb = FixedEmbedding(lambda x: torch.sin(a * x[..., None] + c), DataDomain(True, 1.0, -1.0))
            elif case["extra"] == "net":
                net = torch.nn.Sequential(torch.nn.Linear(1, 3), torch.nn.Tanh(), torch.nn.Linear(3, d))
                emb = TrainableEmbedding(net, DataDomain(True, 1.0, -1.0))
                others.append(net)
            elif case["extra"] == "table":
                table = Table(rng.normal(size=(3, d)))
                others.append(table)
                emb = TrainableEmbedding(table, DataDomain(False, 3))
            model = make_prob(cfg, **({} if emb is None else {"embed_fun": emb}))
        if case["extra"] == "module":
            fmap, _ = feature_map("module", cfg["feature_dim"], seed, "float64")
            model.register_feature_map(fmap)
            others.append(fmap)
    return model, others


def values(model, case, k=0):
    """Generated parameter values for all trained tensors"""
    if case["kind"] == "adaptive":
        random_active(model, case["seed"] + k, "replace")
    else:
        fill(model, case["seed"] + k, "normal",
             names=lambda s: not s.startswith(("embedding", "feature_map")))


def batch_of(case, k, size=None):
    cfg, kind, seed = case["cfg"], case["kind"], case["seed"]
    rng = rng_of(seed, 60, k)
    b = size or int(rng.integers(1, 5))
    if kind == "prob":
        n, d = cfg["seq_len"], cfg["input_dim"]
        if case["extra"] == "table":
            return torch.tensor(rng.integers(0, 3, size=(b, n)))
        if case["extra"] in ("net", "fixed"):
            return torch.tensor(rng.uniform(-1, 1, size=(b, n)))
        return torch.tensor(rng.integers(0, d, size=(b, n)))
    n = int(rng.integers(1, 5)) if kind == "ti" else cfg["input_dim"]
    return torch.tensor(rng.normal(size=(b, n) if case["raw"] else (b, n, cfg["feature_dim"])))


def loss_of(model, case, x, k):
    if case["kind"] == "prob":
        return model.loss(x)
    y = model(x)
    t = torch.tensor(rng_of(case["seed"], 61, k).normal(size=tuple(y.shape)))
    return ((y - t) ** 2).mean()


def run_registered(case, ctx):
    torch.set_default_dtype(torch.float64)
    torch.manual_seed(case["seed"] % 991)
    model, others = build(case)
    kind, cfg = case["kind"], case["cfg"]
    plist = list(model.parameters())
    ids = [id(p) for p in plist]
    check(len(ids) == len(set(ids)), "parameters() lists a tensor twice")
    check(all(p.requires_grad for p in plist), "parameters() holds tensors that require no gradient")
    extra_ids = {id(p) for m in others for p in m.parameters()}
    for m in others:
        for name, p in m.named_parameters():
            check(id(p) in set(ids), f"parameters() lacks {name} of the {case['extra']} embedding")
    own = [p for p in plist if id(p) not in extra_ids and p.numel()]
    groups = expected_params(model, kind)
    fixed = set()
    if kind == "ti":
        if cfg["fixed_ends"]:
            fixed |= {"initial vector", "terminal matrix"}
        if cfg["fixed_bias"]:
            fixed.add("bias")
    buffers = {id(b) for b in model.buffers()}
    for name, t in groups.items():
        if name in fixed:
            check(id(t) not in set(ids) and not t.requires_grad, f"{name} is fixed, yet a parameter")
            check(id(t) in buffers, f"fixed {name} is not a buffer of the model")
        else:
            check(id(t) in set(ids), f"{name} is not in parameters()")
            check(t.numel() > 0, f"{name} is empty")
    if kind != "adaptive":
        total = sum(p.numel() for p in own)
        check(total == expected_count(cfg, kind),
              f"{total} trained values, expected {expected_count(cfg, kind)} for {cfg}")
    values(model, case)
    # Every active parameter gets a gradient, and only those of the inactive merge state none
    x = batch_of(case, 0)
    if kind == "prob" and not domain_ok(model, cfg):
        raise Skip
    with sut("training step"):
        loss_of(model, case, x, 0).backward()
    for name, t in groups.items():
        check(name in fixed or t.grad is not None, f"{name} receives no gradient")
    for m in others:
        for name, p in m.named_parameters():
            check(p.grad is not None, f"{name} of the {case['extra']} embedding receives no gradient")
    ctx.label(kind, f"extra {case['extra']}")
    return True


def domain_ok(model, cfg):
    if model.embedding is not None:
        lam = to_np(model.embedding.lamb_mat)
        d = cfg["input_dim"]
        lam = lam * np.eye(d) if lam.ndim == 0 else np.diag(lam) if lam.ndim == 1 else lam
    else:
        lam = None
    cores, left, right = prob_params(model, cfg["seq_len"])
    return probs_domain_ok(cores, left, right, "float64", lam)


# ------------------------------------------------------------- histories of training


@st.composite
def histories(draw):
    case = draw(models())
    case["opt"] = draw(st.sampled_from(["sgd", "sgd", "momentum", "adam"]))
    case["steps"] = draw(st.lists(st.sampled_from(["train", "train", "train", "eval", "values", "nograd"]),
                                  min_size=1, max_size=10))
    return case


def reference_step(state, name, p, g, case):
    """The new value of a parameter, by the optimizer's textbook rule"""
    lr = 0.05
    if g is None:
        return p
    if case["opt"] == "sgd":
        return p - lr * g
    if case["opt"] == "momentum":
        v = g.clone() if name not in state else 0.9 * state[name] + g
        state[name] = v
        return p - lr * v
    t, m, v = state.get(name, (0, torch.zeros_like(g), torch.zeros_like(g.abs())))
    t = t + 1
    if g.is_complex():
        gr, mr, vr = torch.view_as_real(g), m, v
        if t == 1:
            mr, vr = torch.zeros_like(gr), torch.zeros_like(gr)
        mr = 0.9 * mr + 0.1 * gr
        vr = 0.999 * vr + 0.001 * gr * gr
        state[name] = (t, mr, vr)
        step = lr * (mr / (1 - 0.9 ** t)) / ((vr / (1 - 0.999 ** t)).sqrt() + 1e-8)
        return p - torch.view_as_complex(step)
    m = 0.9 * m + 0.1 * g
    v = 0.999 * v + 0.001 * g * g
    state[name] = (t, m, v)
    return p - lr * (m / (1 - 0.9 ** t)) / ((v / (1 - 0.999 ** t)).sqrt() + 1e-8)


def outputs(model, x):
    with torch.no_grad():
        return to_np(model(x)).copy()


def run_history(case, ctx):
    torch.set_default_dtype(torch.float64)
    torch.manual_seed(case["seed"] % 991)
    model, _ = build(case)
    kind, cfg = case["kind"], case["cfg"]
    if kind == "adaptive":
        cfg["cutoff"] = 1e-13
    values(model, case)
    params = [p for p in model.parameters()]
    opt = {"sgd": lambda: torch.optim.SGD(params, lr=0.05),
           "momentum": lambda: torch.optim.SGD(params, lr=0.05, momentum=0.9),
           "adam": lambda: torch.optim.Adam(params, lr=0.05)}[case["opt"]]()
    state, moved, flips = {}, False, 0
    probe = batch_of(case, 999, 2)
    for k, op in enumerate(case["steps"]):
        if kind == "prob" and not domain_ok(model, cfg):
            raise Skip
        x = batch_of(case, k)
        old_active = active_ids(model) if kind == "adaptive" else None
        if op == "values":
            values(model, case, k + 1)
            continue
        if op in ("eval", "nograd"):
            with torch.set_grad_enabled(op == "eval"), sut(f"step {k}: evaluating"):
                model(x)
            flips += kind == "adaptive" and active_ids(model) != old_active
            continue
        opt.zero_grad()
        with sut(f"step {k}: loss and gradient"):
            loss = loss_of(model, case, x, k)
            loss.backward()
        if kind == "adaptive":
            flips += active_ids(model) != old_active
        groups = expected_params(model, kind)
        if kind == "ti":
            groups = {n: t for n, t in groups.items() if isinstance(t, torch.nn.Parameter)}
        for name, t in groups.items():
            check(t.grad is not None, f"step {k}: {name} receives no gradient after {flips} rearrangements")
        # Textbook update of a copy of the values, with clipped gradients
        norm = torch.nn.utils.clip_grad_norm_(params, 1.0)
        if not torch.isfinite(norm):
            raise Skip
        named = {}
        for name, p in model.named_parameters():
            # The active cores have two names, one of which changes over time
            idx = next((i for i, q in enumerate(params) if q is p), None)
            check(idx is not None, f"step {k}: {name} is not among the parameters at the start")
            named[f"parameter {idx} ({tuple(p.shape)})"] = p
        new = {}
        for name, p in named.items():
            g = None if p.grad is None else p.grad.detach().clone()
            if g is not None and not torch.isfinite(torch.view_as_real(g) if g.is_complex() else g).all():
                raise Skip
            new[name] = reference_step(state, name, p.detach().clone(), g, case)
        values_before = {name: p.detach().clone() for name, p in named.items()}
        with sut(f"step {k}: optimizer step"):
            opt.step()
        for name, p in named.items():
            ref = to_np(new[name])
            close(p, ref, 1e-9 * (1 + np.abs(ref)), f"step {k}: {name} after the optimizer step")
        if any(not torch.equal(values_before[n], p) for n, p in named.items()):
            moved = True
        # A fresh model with these values computes the same function
        if kind == "prob" and not domain_ok(model, cfg):
            raise Skip
        other, _ = build(case)
        sd = {n: v.clone() for n, v in model.state_dict().items()}
        with sut(f"step {k}: load_state_dict"):
            other.load_state_dict(sd)
        if kind == "adaptive":
            # Compare with the contraction of its own cores; an evaluation might rearrange
            chain = chain_of(model)
            ex = embedded(model, case, x)
            want = ref_mps(chain, ex, cfg["periodic_bc"])
            tol = chain_tol(chain, ex, cfg["periodic_bc"], "float64", c=100)
            region = model.linear_region
            if counted(case, k, flips) < cfg["merge_threshold"]:
                with sut(f"step {k}: evaluating"):
                    y = outputs(model, x)
                close(y, want, tol, f"step {k}: outputs after the optimizer step")
                case.setdefault("_seen", {})[str(k)] = len(x)
            chain2 = chain_of(other)
            close(ref_mps(chain2, ex, cfg["periodic_bc"]), want, tol, f"step {k}: outputs of a fresh model")
        else:
            with sut(f"step {k}: evaluating"):
                y, z = outputs(model, probe), outputs(other, probe)
            check(not np.isnan(y).any(), f"step {k}: NaN")
            good = np.isfinite(z)
            close(y, z, np.where(good, 1e-11 * (1 + np.abs(np.where(good, z, 0))), 0),
                  f"step {k}: outputs of the trained and of a fresh model")
    ctx.label(kind, f"extra {case['extra']}", case["opt"], f"rearrangements {min(flips, 3)}")
    return moved


def embedded(model, case, x):
    """Inputs of an MPS, embedded and in path order"""
    with torch.no_grad():
        if model.path is not None:
            x = x[:, list(model.path)]
        if x.ndim == 3:
            return to_np(x)
        if case["extra"] == "module":
            fmap = model.feature_map
            rows = [[to_np(fmap(v)) for v in row] for row in x]
            return np.array(rows)
        return embed_default(to_np(x))


def counted(case, k, flips):
    """Inputs counted towards the next rearrangement after step k"""
    total = 0
    for i, op in enumerate(case["steps"][: k + 1]):
        if op != "values":
            total += len(batch_of(case, i))
    total += sum(v for v in case.get("_seen", {}).values())
    return total - flips * case["cfg"]["merge_threshold"]


def run_history_clean(case, ctx):
    case = dict(case)
    case["cfg"] = dict(case["cfg"])
    case.pop("_seen", None)
    return run_history(case, ctx)


# ------------------------------------------------------------- first-order descent


@st.composite
def descents(draw):
    case = draw(models())
    case["flips"] = draw(st.integers(0, 3)) if case["kind"] == "adaptive" else 0
    case["batch"] = draw(st.one_of(st.integers(1, 2), wint(1, 150, 5)))
    return case


def run_descent(case, ctx):
    torch.set_default_dtype(torch.float64)
    torch.manual_seed(case["seed"] % 991)
    case = dict(case, cfg=dict(case["cfg"]))
    kind, cfg = case["kind"], case["cfg"]
    if kind == "adaptive":
        cfg["merge_threshold"] = 50
        cfg["cutoff"] = 1e-13
    model, others = build(case)
    values(model, case)
    params = list(model.parameters())
    opt = torch.optim.SGD(params, lr=1.0)
    with sut("rearranging an adaptive MPS"), torch.no_grad():
        for k in range(case["flips"]):
            model(batch_of(case, 100 + k, 50))
            model(batch_of(case, 200 + k, 1))
            values(model, case, k + 1)
    if kind == "prob" and not domain_ok(model, cfg):
        raise Skip
    x = batch_of(case, 0, case["batch"])
    groups = expected_params(model, kind)
    trained = [t for n, t in groups.items() if isinstance(t, torch.nn.Parameter)]
    for m in others:
        trained += list(m.parameters())

    def loss():
        return loss_of(model, case, x, 0)

    opt.zero_grad()
    with sut("loss and gradient"):
        f0 = loss()
        f0.backward()
    f0 = float(f0.detach())
    g2 = sum(float(t.grad.abs().square().sum()) for t in trained)
    if not np.isfinite(f0) or not np.isfinite(g2) or g2 < 1e-8 or g2 > 1e8 or abs(f0) > 1e4:
        raise Skip
    start = [p.detach().clone() for p in params]
    drop = []
    lr = 1e-6 * max(abs(f0), 1.0) / g2
    # A step far below the size of the parameters, so that the first order dominates
    lr = min(lr, 1e-5 / np.sqrt(g2))
    for h in (lr, lr / 2):
        for p, s in zip(params, start):
            p.data.copy_(s)
        for group in opt.param_groups:
            group["lr"] = h
        with sut("optimizer step"):
            opt.step()
            with torch.no_grad():
                drop.append(f0 - float(loss()))
    first = 4 * drop[1] - drop[0]
    want = lr * g2
    tol = 2e-3 * want + 50 * 2.3e-16 * max(abs(f0), 1) * 10 + abs(drop[0] - 2 * drop[1]) * 0.2
    if tol > 0.2 * want:
        raise Skip
    check(abs(first - want) <= tol,
          f"a gradient step lowers the loss by {first!r}, first order {want!r} (tolerance {tol:.2g})")
    ctx.label(kind, f"extra {case['extra']}", f"rearrangements {case['flips']}")
    return True


FACETS = [
    Facet("registered", models(), run_registered, 700),
    Facet("histories", histories(), run_history_clean, 700),
    Facet("descent", descents(), run_descent, 700),
]

import copy

from common import *
from core import *
from props.c02 import ti_cfg
from props.c09 import batch_of, build, domain_ok, models, values

RULE = (
    "A case is a model of any class, with a history, and a generated series of malformed inputs (each a valid input "
    "with one thing wrong) between valid ones; an exact copy of the model gets the valid ones only, and has to give "
    "the same results. Or it is a malformed configuration. Non-trivial when at least two malformed inputs of "
    "different kinds were refused, or for every malformed configuration."
)

ASSUMPTIONS = [
    "tensors of another number type than the model's parameters may be refused or taken (PyTorch's own promotion "
    "rules decide about them), but a model that refuses them has to stay as it was",
    "empty batches and empty sequences are not among the malformed inputs",
    "negative discrete values are left out: Python's and PyTorch's convention is to count from the end",
]


def nn_size(k, forbidden, lo=1):
    """The k'th size which is not forbidden"""
    out = [s for s in range(lo, lo + 12 + max(forbidden)) if s not in forbidden]
    return out[k % len(out)]


def malformed(case, model, kind_of_error, k, kw):
    """A malformed input (a thunk which evaluates it), or None when this error does not apply"""
    cfg, kind = case["cfg"], case["kind"]
    rng = rng_of(case["seed"], 300, k)
    b = int(rng.integers(1, 5))
    pick = int(rng.integers(0, 50))

    def call(x):
        return lambda: model(x, **kw)

    valid = batch_of(case, 300 + k, b)
    n = valid.shape[1]
    vector_ok = kind != "prob" or case["extra"] is None
    f = cfg["feature_dim"] if kind != "prob" else cfg["input_dim"]

    if kind_of_error == "sites":
        if kind == "ti" or (kind == "prob" and cfg["uniform"]):
            return None
        if case.get("path"):
            # Columns beyond the path are allowed, missing ones are not
            m = int(rng.integers(1, n)) if n > 1 else 0
            if m == 0:
                return None
        else:
            m = 1 if n > 1 and pick % 3 == 0 else nn_size(pick, [n])
        if valid.ndim == 3:
            return call(torch.tensor(rng.normal(size=(b, m, valid.shape[2]))))
        if valid.is_floating_point():
            return call(torch.tensor(rng.normal(size=(b, m))))
        return call(torch.zeros(b, m, dtype=torch.int64))
    if kind_of_error == "features":
        if not vector_ok:
            return None
        # A size of one would broadcast
        m = 1 if f > 1 and pick % 3 == 0 else nn_size(pick, [f])
        x = torch.tensor(rng.normal(size=(b, n, m)))
        return call(list(x)) if kind == "ti" and pick % 2 else call(x)
    if kind_of_error == "order":
        wrong = [1, 4] if vector_ok else [1, 3, 4]
        order = wrong[pick % len(wrong)]
        if kind == "prob" and not vector_ok and order == 3:
            return call(torch.zeros((b, n, 2), dtype=valid.dtype))
        shape = {1: (n,), 4: (b, n, f, 1 + pick % 2)}[order]
        return call(torch.zeros(shape, dtype=valid.dtype))
    if kind_of_error == "type":
        other = [None, "abc", to_np(valid), valid.tolist(), 3, (valid,), {"x": valid}][pick % 7]
        if kind == "prob":  # NumPy arrays might work as indices
            other = [None, "abc", valid.tolist(), 3][pick % 4]
        return call(other)
    if kind_of_error == "alphabet":
        if kind != "prob" or valid.is_floating_point():
            return None
        top = 3 if case["extra"] == "table" else cfg["input_dim"]
        x = valid.clone()
        x[int(rng.integers(0, b)), int(rng.integers(0, n))] = top + (0 if pick % 2 else pick)
        return call(x)
    if kind_of_error == "float index":
        if kind != "prob" or case["extra"] is not None:
            return None
        return call(valid.double())
    if kind == "ti":
        seqs = [torch.tensor(rng.normal(size=(int(m),))) for m in rng.integers(1, 5, size=3)]
        if not (cfg["use_bias"] and cfg["fixed_bias"]):
            seqs = [torch.tensor(rng.normal(size=(3,))) for _ in range(3)]
        vecs = [torch.tensor(rng.normal(size=(len(s), f))) for s in seqs]
        where = pick % 3
        if kind_of_error == "mixed list":
            if not case["raw"]:
                return None
            out = list(seqs)
            out[where] = vecs[where]
            return call(out)
        if kind_of_error == "mixed list 2":
            out = list(vecs)
            out[where] = seqs[where]
            return call(out)
        if kind_of_error == "item features":
            out = list(vecs)
            out[where] = torch.tensor(rng.normal(size=(len(seqs[where]), nn_size(pick, [f]))))
            return call(out)
        if kind_of_error == "item order":
            bad = [torch.tensor(1.0), torch.tensor(rng.normal(size=(2, 3, f)))][pick % 2]
            out = list(vecs)
            out[where] = bad
            return call(out if pick % 3 else [bad] * 3)
        if kind_of_error == "item type":
            out = list(vecs)
            out[where] = [to_np(vecs[where]), None, vecs[where].tolist()][pick % 3]
            return call(out)
        if kind_of_error == "empty list":
            return call([])
        if kind_of_error == "unequal":
            if cfg["use_bias"] and cfg["fixed_bias"]:
                return None
            out = list(vecs)
            m = nn_size(pick, [len(seqs[0])])
            out[where] = torch.tensor(rng.normal(size=(m, f)))
            return call(out)
    if kind_of_error == "default map":
        # Raw inputs need feature_dim 2, or a feature map
        if kind == "prob" or f == 2 or case["extra"] == "module":
            return None
        x = torch.tensor(rng.normal(size=(b, n)))
        return call(list(x)) if kind == "ti" and pick % 2 else call(x)
    if kind_of_error == "map" and kind != "prob":
        m = nn_size(pick, [f])
        bad = [lambda x: torch.zeros(m), lambda x: torch.zeros(1, f), lambda x: torch.tensor(1.0), 3,
               lambda x: torch.zeros(f, 1)][pick % 5]
        return lambda: model.register_feature_map(bad) or "registered"
    if kind_of_error == "load" and kind != "adaptive":
        # A state_dict of other shapes
        sd = {n_: v.clone() for n_, v in model.state_dict().items()}
        names = sorted(n_ for n_ in sd if "core" in n_ or "tensor" in n_)
        name = names[pick % len(names)]
        sd = {name: sd[name][..., None].expand(tuple(sd[name].shape) + (2,))}
        return lambda: model.load_state_dict(sd, strict=False)
    return None


ERRORS = ["sites", "features", "order", "type", "alphabet", "alphabet", "float index", "mixed list", "mixed list 2",
          "item features", "item order", "item type", "empty list", "unequal", "default map", "map", "load", "number type"]


@st.composite
def histories(draw):
    case = draw(models())
    m = draw(st.integers(1, 8))
    case["series"] = draw(st.lists(st.sampled_from(["valid"] + 3 * ERRORS), min_size=m, max_size=m))
    case["strategy"] = draw(st.sampled_from(["default", "slim", "parallel"]))
    case["before"] = draw(st.integers(0, 3))
    case["grad"] = draw(st.booleans())
    return case


def run_inputs(case, ctx):
    torch.set_default_dtype(torch.float64)
    torch.manual_seed(case["seed"] % 991)
    kind, cfg = case["kind"], case["cfg"]
    model, _ = build(case)
    values(model, case)
    if kind == "prob" and not domain_ok(model, cfg):
        raise Skip
    if case["path"] if "path" in case else False:
        # The number of columns matters for a path only as far as the path reaches
        check(len(model.path) == cfg["input_dim"], "path")
    with sut("evaluating"), torch.no_grad():
        for k in range(case["before"]):
            model(batch_of(case, 400 + k))
    with sut("copy.deepcopy"):
        twin = copy.deepcopy(model)
    state = {n: p.detach().clone() for n, p in model.state_dict().items()}
    kw = STRATEGIES[case["strategy"]] if kind == "prob" and not cfg["use_bias"] else {}
    refused, moved = set(), False

    def compare(k):
        x = batch_of(case, 500 + k)
        with torch.set_grad_enabled(case["grad"]), sut("evaluating a valid input"):
            y, z = model(x, **kw), twin(x, **kw)
        same(y, z, f"valid input after refused ones ({sorted(refused)})")

    def state_same():
        now = model.state_dict()
        check(set(now) == set(state), "a refused call changed the names in the state_dict")
        for n, p in state.items():
            check(torch.equal(now[n], p), f"a refused call changed {n}")

    for k, what in enumerate(case["series"]):
        if what == "number type":
            x = batch_of(case, 300 + k)
            kinds = [torch.float32, torch.int64, torch.complex128, torch.complex64, torch.float16, torch.bool]
            x = x.to(kinds[int(rng_of(case["seed"], 300, k).integers(0, len(kinds)))])
            try:
                with torch.set_grad_enabled(case["grad"]):
                    model(x, **kw)
            except Exception:
                refused.add(what)
                state_same()
                continue
            # Accepted, by both of them
            with torch.set_grad_enabled(case["grad"]), sut("evaluating an input that was accepted before"):
                twin(x, **kw)
            state.clear()
            state.update({n: p.detach().clone() for n, p in model.state_dict().items()})
            continue
        if what == "valid":
            compare(k)
            state.clear()
            state.update({n: p.detach().clone() for n, p in model.state_dict().items()})
            continue
        ways = {"default": {}}
        if kind == "prob":
            ways = {w: o for w, o in STRATEGIES.items() if w != "both" and not (w == "slim" and cfg["use_bias"])}
        for way, opts in ways.items():
            thunk = malformed(case, model, what, k, opts)
            if thunk is None:
                break
            with torch.set_grad_enabled(case["grad"]):
                refuses(thunk, f"malformed input ({what}, {way})")
            refused.add(what)
            state_same()
    for k in range(3):
        compare(100 + k)
    for (n, p), (_, q) in zip(model.named_parameters(), twin.named_parameters()):
        check(torch.equal(p, q), f"{n} differs after refused calls ({sorted(refused)})")
    if kind == "adaptive":
        same(model.bond_list, twin.bond_list, "bond_list after refused calls")
        same(model.sv_list, twin.sv_list, "sv_list after refused calls")
    ctx.label(kind, *(f"{kind}: {w}" for w in refused))
    return len(refused) >= 2


# ------------------------------------------------------------- masks as indices


@st.composite
def masks(draw):
    cfg = draw(prob_cfg(max_seq=4, max_bond=4, max_in=4))
    cfg["use_bias"] = False
    return {"cfg": cfg, "seed": draw(seeds), "type": draw(st.sampled_from(["bool", "uint8", "int8", "int16", "int32"])),
            "batch": draw(st.sampled_from(["any", "input", "seq", "bond"])), "length": draw(st.sampled_from(["seq", "bond"])),
            "strategy": draw(st.sampled_from(["default", "slim", "parallel"]))}


def run_masks(case, ctx):
    """Discrete inputs of small integer types are refused or taken as indices, never as masks"""
    cfg = case["cfg"]
    torch.set_default_dtype(torch.float64)
    torch.manual_seed(case["seed"] % 991)
    model = make_prob(cfg)
    fill(model, case["seed"])
    n = cfg["bond_dim"] if cfg["uniform"] and case["length"] == "bond" else cfg["seq_len"]
    rng = rng_of(case["seed"], 5)
    b = {"any": int(rng.integers(1, 5)), "input": cfg["input_dim"], "seq": n, "bond": cfg["bond_dim"]}[case["batch"]]
    cores, left, right = prob_params(model, n)
    if not probs_domain_ok(cores, left, right, "float64"):
        raise Skip
    x = rng.integers(0, min(2, cfg["input_dim"]) if case["type"] == "bool" else cfg["input_dim"], size=(b, n))
    t = torch.tensor(x).to(getattr(torch, case["type"]))
    try:
        y = model(t, **STRATEGIES[case["strategy"]])
    except Exception:
        ctx.label(f"{case['type']} refused")
        return True
    check_logp(y, cores, left, right, onehot_np(x, cfg["input_dim"]), "float64", f"{case['type']} inputs")
    ctx.label(f"{case['type']} accepted")
    return True


# ------------------------------------------------------------- configurations


@st.composite
def configurations(draw):
    what = draw(st.sampled_from(["label site", "path length", "path length", "fixed ends", "embedding", "embedding",
                                 "trainable embedding", "no domain", "fixed bonds", "map in use", "labels"]))
    case = {"what": what, "seed": draw(seeds), "k": draw(st.integers(0, 40))}
    if what in ("label site", "path length"):
        case["cfg"] = draw(mps_cfg(max_in=6, big_in=8, max_bond=3, big_bond=5, max_out=3))
        case["adaptive"] = draw(st.booleans())
    elif what == "labels":
        case["cfg"] = {"n": draw(st.integers(1, 6)), "size": draw(st.integers(1, 5)),
                       "type": draw(st.sampled_from(["int64", "int32", "list"]))}
    elif what in ("fixed ends", "map in use"):
        case["cfg"] = draw(ti_cfg())
        case["cls"] = draw(st.sampled_from(["ti", "mps"]))
    else:
        case["cfg"] = draw(prob_cfg(max_seq=4, max_bond=3, max_in=4))
        case["discrete"] = draw(st.booleans())
        case["wrapped"] = draw(st.booleans())
        case["strategy"] = draw(st.sampled_from(["default", "slim", "parallel"]))
    return case


def run_configurations(case, ctx):
    from torchmps.embeddings import DataDomain, FixedEmbedding, TrainableEmbedding

    what, cfg, k = case["what"], dict(case["cfg"]), case["k"]
    rng = rng_of(case["seed"])
    torch.set_default_dtype(torch.float64)
    ctx.label(what)
    if what == "label site":
        n = cfg["input_dim"]
        cfg["label_site"] = -1 - k % 3 if k % 2 else n + 1 + k % 3
        if case["adaptive"]:
            cfg["adaptive_mode"], cfg["use_bias"] = True, False
        refuses(lambda: make_mps(cfg), f"label_site={cfg['label_site']} for {n} inputs")
    elif what == "labels":
        from torchmps.embeddings import onehot_embed
        from torchmps.utils import onehot

        size = cfg["size"]
        labels = rng.integers(0, size, size=cfg["n"])
        labels[k % cfg["n"]] = size + k % 3
        t = labels.tolist() if cfg["type"] == "list" else torch.tensor(labels, dtype=getattr(torch, cfg["type"]))
        refuses(lambda: onehot(t, size), f"onehot of label {labels.max()} for {size} values")
        refuses(lambda: onehot_embed(torch.tensor(labels), size), f"onehot_embed of value {labels.max()} for dimension {size}")
    elif what == "path length":
        n = cfg["input_dim"]
        m = nn_size(k, [n], 0)
        path = [int(i) for i in rng.integers(0, n, size=m)]
        if k % 3 == 0:
            path = torch.tensor(path, dtype=torch.int64)
        refuses(lambda: make_mps(cfg, path=path), f"path of length {m} for {n} inputs")
    elif what == "fixed ends":
        cfg["fixed_ends"] = True
        cfg["output_dim"] = cfg["bond_dim"] + 1 + k % 3
        refuses(lambda: make_ti(cfg), f"fixed ends with output_dim {cfg['output_dim']}, bond_dim {cfg['bond_dim']}")
        # Trainable ends, or smaller outputs, are fine
        cfg["fixed_ends"] = False
        with sut("TI_MPS with trainable ends"):
            make_ti(cfg)
        cfg["fixed_ends"], cfg["output_dim"] = True, cfg["bond_dim"]
        with sut("TI_MPS with output_dim equal to bond_dim"):
            make_ti(cfg)
    elif what == "map in use":
        f = cfg["feature_dim"]
        if case["cls"] == "ti":
            model, n = make_ti(cfg), 3
        else:
            model, n = make_mps({"input_dim": 3, "output_dim": 2, "bond_dim": 3, "feature_dim": f}), 3
        good, _ = feature_map(["power", "trig", "affine", "module"][k % 4], f, case["seed"], "float64")
        x = torch.tensor(rng.normal(size=(2, n)))
        with sut("registering a feature map"):
            model.register_feature_map(good)
            y = model(x)
        m = nn_size(k, [f])
        refuses(lambda: model.register_feature_map(lambda v: torch.ones(m)), f"feature map of dimension {m}, not {f}")
        with sut("evaluating after a refused feature map"):
            same(model(x), y, "outputs after a refused feature map")
        # A map which is right for zero, where it is tried out, and wrong elsewhere
        with sut("registering a feature map"):
            model.register_feature_map(lambda v: torch.ones(f if v == 0 else m))
        refuses(lambda: model(x), f"feature map of dimension {m} away from zero, not {f}")
        with sut("registering a feature map"):
            model.register_feature_map(good)
            same(model(x), y, "outputs after restoring the feature map")
    elif what in ("embedding", "no domain", "fixed bonds"):
        d = cfg["input_dim"]
        m = nn_size(k, [d])
        dom = DataDomain(False, 3) if case["discrete"] else DataDomain(True, 1.0, -1.0)
        table = torch.tensor(rng.normal(size=(3, m)))
        a = torch.tensor(rng.normal(size=m))
        fun = (lambda x: table[x]) if case["discrete"] else (lambda x: torch.cos(a * x[..., None]))
        if what == "embedding":
            if case["wrapped"]:
                emb = FixedEmbedding(fun, dom)
                refuses(lambda: make_prob(cfg, embed_fun=emb), f"embedding of dimension {m}, not {d}")
            else:
                refuses(lambda: make_prob(cfg, embed_fun=fun, domain=dom), f"embedding of dimension {m}, not {d}")
        elif what == "no domain":
            refuses(lambda: make_prob(cfg, embed_fun=fun), "embedding function without a domain")
        else:
            name = ["seq_len", "input_dim", "bond_dim"][k % 3]
            if name == "seq_len" and cfg["uniform"]:
                name = "bond_dim"
            cfg[name] = -(k % 2)
            refuses(lambda: make_prob(cfg), f"{name}={cfg[name]}")
            if not case["discrete"]:
                lo = float(rng.normal())
                refuses(lambda: DataDomain(True, lo - k % 4, lo), "domain with max_val below or equal to min_val")
            else:
                refuses(lambda: DataDomain(False, -1 - k), "domain with negative max_val")
    elif what == "trainable embedding":
        # Refused when the model is built, or at its first use
        d = cfg["input_dim"]
        m = nn_size(k, [d])
        if case["discrete"]:
            class Table(torch.nn.Module):
                def __init__(self):
                    super().__init__()
                    self.w = torch.nn.Parameter(torch.tensor(rng.normal(size=(3, m))))

                def forward(self, x):
                    return self.w[x[..., 0]]

            emb = TrainableEmbedding(Table(), DataDomain(False, 3))
            x = torch.tensor(rng.integers(0, 3, size=(2, cfg["seq_len"])))
        else:
            emb = TrainableEmbedding(torch.nn.Linear(1, m), DataDomain(True, 1.0, -1.0))
            x = torch.tensor(rng.uniform(-1, 1, size=(2, cfg["seq_len"])))
        kw = {} if cfg["use_bias"] else STRATEGIES[case["strategy"]]
        refuses(lambda: make_prob(cfg, embed_fun=emb)(x, **kw), f"trainable embedding of dimension {m}, not {d}")
    return True


FACETS = [
    Facet("inputs", histories(), run_inputs, quick=3000),
    Facet("masks", masks(), run_masks, quick=800),
    Facet("configurations", configurations(), run_configurations, quick=1500),
]

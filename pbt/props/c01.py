from common import *
from core import *

RULE = (
    "A case is a constructor configuration, a value style and seed for the parameters, and an input "
    "batch (raw or embedded, any memory layout, precision single or double); non-trivial when the "
    "reference output is not identically zero and the chain has a bond dimension above 1 or at least 2 sites."
)


@st.composite
def cases(draw, big=False):
    cfg = draw(mps_cfg(big_in=80 if big else 40, big_bond=24 if big else 14))
    return {
        "cfg": cfg,
        "dtype": draw(dtypes),
        "init": draw(st.sampled_from(["values", "values", "values", "values", "default"])),
        "style": draw(styles),
        "seed": draw(seeds),
        "batch": draw(wint(0, 300 if big else 70, 6)),
        "raw": draw(st.booleans()) if cfg["feature_dim"] == 2 else False,
        "layout": draw(layouts),
        "grad": draw(st.booleans()),
        "train": draw(st.booleans()), "uses": draw(uses()),
    }


@st.composite
def extents(draw):
    """One or two of the sizes are far larger than the others"""
    case = draw(cases())
    cfg = case["cfg"]
    n = cfg["input_dim"] = draw(st.integers(1, 8))
    cfg["bond_dim"] = draw(st.integers(1, 4))
    cfg["output_dim"] = draw(st.integers(1, 3))
    case["batch"] = draw(st.integers(1, 3))
    big = draw(st.lists(st.sampled_from(["batch", "batch", "input", "bond", "feature", "output"]), min_size=1, max_size=2))
    one = len(set(big)) == 1
    if "batch" in big:
        case["batch"] = draw(st.integers(64, 5000 if one else 400))
    if "input" in big:
        n = cfg["input_dim"] = draw(st.integers(40, 400 if one else 100))
    if "bond" in big:
        cfg["bond_dim"] = draw(st.integers(15, 70 if one else 25))
    if "feature" in big:
        cfg["feature_dim"] = draw(st.integers(9, 150 if one else 30))
        case["raw"] = False
    if "output" in big:
        cfg["output_dim"] = draw(st.integers(17, 120 if one else 30))
    if cfg.get("label_site") is not None:
        cfg["label_site"] = draw(st.sampled_from([0, 1, n // 2, n - 1, n, draw(st.integers(0, n))]))
    case["dtype"] = draw(st.sampled_from(["float64"] * 7 + ["float32"]))
    if n > 40 and case["style"] == "int":  # products of such chains overflow
        case["style"] = "normal"
    case["big"] = sorted(set(big))
    return case


def run_extents(case, ctx):
    ctx.label(*("large " + b for b in case["big"]))
    return run(case, ctx)


def build(case, **extra):
    torch.set_default_dtype(DT[case["dtype"]])
    torch.manual_seed(case["seed"] % 1000)
    with sut("constructing an MPS"):
        mps = make_mps(case["cfg"], **extra)
    if case["init"] == "values":
        fill(mps, case["seed"], case["style"], 1.0)
    return mps


def make_input(case, cfg, batch, which=0, raw=False):
    shape = (batch, cfg["input_dim"]) + (() if raw else (cfg["feature_dim"],))
    style = "uniform" if raw and case["style"] != "int" else case["style"]
    x = arr(rng_of(case["seed"], 999, which), shape, style)
    return tens(x, case["dtype"])


def embedded(x):
    """Embedded inputs as NumPy array"""
    a = to_np(x).astype(np.float64)
    return embed_default(a) if a.ndim == 2 else a


def run(case, ctx):
    cfg = case["cfg"]
    mps = build(case)
    mps.train(case["train"])
    x = layout(make_input(case, cfg, case["batch"], raw=case["raw"]), case["layout"])
    ops = case["uses"]
    mps = use(mps, ops, case["seed"], lambda m, v: m(v), x)
    with sut(f"evaluating an MPS {ops}"), torch.set_grad_enabled(case["grad"]), mode_of(ops):
        y = mps(x)
    check(isinstance(y, torch.Tensor), "output is not a tensor")
    check(y.dtype == DT[case["dtype"]], lambda: f"output has dtype {y.dtype}")
    chain = chain_of(mps)
    ls = label_of(cfg)
    pos = [i for i, c in enumerate(chain) if c[0] == "out"]
    check(pos == [ls], lambda: f"output core at positions {pos}, label_site is {ls}")
    check(len(chain) == cfg["input_dim"] + 1, lambda: f"{len(chain)} cores")
    check(all((b is not None) == cfg["use_bias"] for k, _, b in chain if k == "in"),
          "bias matrices are used exactly with use_bias")
    check(len(mps) == cfg["input_dim"], "len(mps) differs from input_dim")
    ex = embedded(x)
    ref = ref_mps(chain, ex, cfg["periodic_bc"])
    tol = chain_tol(chain, ex, cfg["periodic_bc"], case["dtype"])
    if not np.isfinite(tol).all() or (case["dtype"] == "float32" and np.max(tol, initial=0) > 1e25):
        raise Skip
    close(y, ref, tol, "MPS output")
    cfg_labels(cfg, ctx)
    ctx.label(*ops)
    ctx.label(case["dtype"], "raw" if case["raw"] else "embedded",
              "batch 1" if case["batch"] == 1 else "batch")
    return bool(np.any(ref != 0)) and (cfg["bond_dim"] > 1 or cfg["input_dim"] > 1)


def run_strategies(case, ctx):
    """Same parameters in a serial and a parallel model (and repeated evaluation)"""
    cfg = case["cfg"]
    a = build(case, parallel_eval=False)
    b = build(case, parallel_eval=True)
    with sut("load_state_dict between evaluation strategies"):
        b.load_state_dict(a.state_dict())
    chain = chain_of(a)
    for k, n in enumerate((case["batch"], 1, 3)):
        x = make_input(case, cfg, n, k, raw=case["raw"])
        with sut("evaluating an MPS"):
            ya, yb, ya2 = a(x), b(x), a(x)
        tol = chain_tol(chain, embedded(x), cfg["periodic_bc"], case["dtype"])
        if not np.isfinite(tol).all() or (case["dtype"] == "float32" and np.max(tol, initial=0) > 1e25):
            raise Skip
        close(yb, to_np(ya), tol, "parallel versus serial evaluation")
        same(ya2, ya, "repeated evaluation")
    cfg_labels(cfg, ctx)
    return cfg["bond_dim"] > 1 or cfg["input_dim"] > 1


@st.composite
def small_geometries(draw):
    """Complete coverage of small geometries: every (n, label_site, boundary, strategy, bias)"""
    n = draw(st.integers(1, 6))
    cfg = {
        "input_dim": n, "output_dim": draw(st.integers(1, 3)), "bond_dim": draw(st.integers(1, 3)),
        "feature_dim": 2, "label_site": draw(st.integers(0, n)),
        "periodic_bc": draw(st.booleans()), "parallel_eval": draw(st.booleans()),
        "use_bias": draw(st.booleans()),
    }
    return {"cfg": cfg, "dtype": "float64", "init": "values", "style": "normal",
            "seed": draw(seeds), "batch": draw(st.integers(1, 3)), "raw": draw(st.booleans()),
            "layout": "plain", "grad": True, "train": True, "uses": []}


FACETS = [
    Facet("reference", cases(), run, 7000),
    Facet("geometries", small_geometries(), run, 5000),
    Facet("strategies", cases(), run_strategies, 1800),
    Facet("extents", extents(), run_extents, 2000, 40000),
    Facet("large", cases(big=True), run, 400, 20000),
]

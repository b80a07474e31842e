from common import *
from core import *

RULE = (
    "A case is a TI_MPS configuration with generated parameter values and a collection of sequences of "
    "generated lengths, handed over as a list and as batch tensors (raw or embedded, default or custom "
    "feature map); non-trivial when some sequence has at least 2 sites and the bond dimension exceeds 1."
)


@st.composite
def ti_cfg(draw, max_bond=6):
    bond = draw(wint(1, 3 * max_bond, max_bond, 14))
    fixed_ends = draw(st.booleans())
    return {
        "bond_dim": bond,
        "output_dim": draw(st.integers(1, bond if fixed_ends else 6)),
        "feature_dim": draw(st.sampled_from([2, 2, 2, 2, 1, 1, 3, 3, 6])),
        "parallel_eval": draw(st.booleans()),
        "fixed_ends": fixed_ends,
        "use_bias": draw(st.sampled_from([True, True, False])),
        "fixed_bias": draw(st.sampled_from([True, True, False])),
    }


@st.composite
def cases(draw, long=False):
    cfg = draw(ti_cfg())
    top = 400 if long else 12
    pads = cfg["use_bias"] and cfg["fixed_bias"]
    n = draw(wint(1, 40, 6, 14))
    lengths = draw(st.lists(wint(1, top, 5 if not long else 60), min_size=n, max_size=n))
    raw = draw(st.booleans())
    custom = draw(st.sampled_from([None, "power", "trig", "affine", "module"]))
    if raw and custom is None:
        cfg["feature_dim"] = 2
    return {
        "cfg": cfg, "lengths": lengths, "raw": raw, "map": custom if raw else None,
        "dtype": draw(dtypes), "style": draw(styles), "seed": draw(seeds),
        "values": draw(st.sampled_from([True, True, True, False])), "grad": draw(st.booleans()),
        "equal": (not pads) or draw(st.integers(0, 4)) == 0, "scale": draw(st.sampled_from([0.3, 1.0])),
        "uses": draw(uses()), "bias": draw(st.sampled_from(["eye", "eye", "any"])),
        "memory": draw(st.sampled_from(["own", "own", "own", "prefixes", "suffixes", "windows", "twice"])),
    }


@st.composite
def extents(draw):
    """One or two of the sizes are far larger than the others"""
    case = draw(cases())
    cfg = case["cfg"]
    big = draw(st.lists(st.sampled_from(["count", "count", "length", "bond", "feature"]), min_size=1, max_size=2))
    one = len(set(big)) == 1
    cfg["bond_dim"] = draw(st.integers(2, 3))
    cfg["output_dim"] = draw(st.integers(1, 2))
    count, top = draw(st.integers(1, 4)), 4
    if "count" in big:
        count = draw(st.integers(40, 700 if one else 150))
    if "length" in big:
        top = 600 if one else 150
    if "bond" in big:
        cfg["bond_dim"] = draw(st.integers(15, 60 if one else 25))
    if "feature" in big and not case["raw"]:
        cfg["feature_dim"] = draw(st.integers(7, 100 if one else 25))
    rng = rng_of(draw(seeds))
    case["lengths"] = [int(v) for v in rng.integers(1, top + 1, size=count)]
    case["dtype"] = draw(st.sampled_from(["float64"] * 7 + ["float32"]))
    if top > 4:
        case["scale"], case["style"] = 0.3, draw(st.sampled_from(["normal", "uniform", "sparse"]))
    case["big"] = sorted(set(big))
    return case


def run_extents(case, ctx):
    ctx.label(*("large " + b for b in case["big"]))
    return run(case, ctx)


def build(case):
    torch.set_default_dtype(DT[case["dtype"]])
    torch.manual_seed(case["seed"] % 1000)
    with sut("constructing a TI_MPS"):
        ti = make_ti(case["cfg"])
    if case["values"]:
        fill(ti, case["seed"], case["style"], case["scale"])
    return ti


def other_bias(ti, case):
    """A fixed bias other than the identity, as a checkpoint may hold; True if the bias is one"""
    if case["bias"] == "any" and ti.bias_mat is not None and not isinstance(ti.bias_mat, torch.nn.Parameter):
        with torch.no_grad():
            ti.bias_mat.copy_(tens(arr(rng_of(case["seed"], 12), ti.bias_mat.shape), case["dtype"]))
        return ti.bias_mat.numel() > 0
    return False


def check_config(ti, cfg):
    b = ti.bias_mat
    check((b is not None) == cfg["use_bias"], "a bias matrix exists exactly with use_bias")
    if cfg["use_bias"] and cfg["fixed_bias"]:
        same(b, np.eye(cfg["bond_dim"]), "fixed bias matrix")
    if cfg["fixed_ends"]:
        same(ti.init_vector.vec, np.ones(cfg["bond_dim"]), "fixed initial vector")
        same(ti.terminal_mat.mat, np.eye(cfg["bond_dim"], cfg["output_dim"]), "fixed terminal matrix")


def tol_ti(ti, ex, dtype):
    n = len(ex)
    d = ti.bond_dim + ti.feature_dim + ti.output_dim
    with np.errstate(all="ignore"):
        t = 32 * EPS[dtype] * (n + 3) * d * ref_ti(ti, ex, absval=True)
    if not np.isfinite(t).all() or t.max() > (1e250 if dtype == "float64" else 1e25):
        raise Skip
    return t + (1e-300 if dtype == "float64" else 1e-36)


def sequences(case, count=None):
    cfg = case["cfg"]
    lengths = case["lengths"]
    if case["equal"]:
        lengths = [lengths[0]] * len(lengths)
    out = []
    if case.get("memory", "own") not in ("own", "twice"):
        # All of them are parts of one long sequence
        top = max(lengths) + (case["memory"] == "windows") * 3
        long = tens(arr(rng_of(case["seed"], 5), (top,) if case["raw"] else (top, cfg["feature_dim"]),
                        "uniform" if case["raw"] and case["style"] != "int" else case["style"], case["scale"]), case["dtype"])
        start = {"prefixes": lambda k, n: 0, "suffixes": lambda k, n: top - n, "windows": lambda k, n: k % (top - n + 1)}[case["memory"]]
        return [long[start(k, n):start(k, n) + n] for k, n in enumerate(lengths)]
    for k, n in enumerate(lengths):
        if case.get("memory") == "twice" and k and k % 2 and lengths[k] == lengths[k - 1]:
            out.append(out[-1])
            continue
        shape = (n,) if case["raw"] else (n, cfg["feature_dim"])
        style = "uniform" if case["raw"] and case["style"] != "int" else case["style"]
        out.append(tens(arr(rng_of(case["seed"], 5, k), shape, style, case["scale"]), case["dtype"]))
    return out


def run(case, ctx):
    cfg, dtype = case["cfg"], case["dtype"]
    ti = build(case)
    check_config(ti, cfg)
    other = other_bias(ti, case)
    np_map = None
    if case["map"]:
        fmap, np_map = feature_map(case["map"], cfg["feature_dim"], case["seed"], dtype)
        with sut("register_feature_map"):
            ti.register_feature_map(fmap)

    def emb(s):
        a = to_np(s).astype(float)
        if a.ndim == 2:
            return a
        return np_map(a) if np_map else embed_default(a)

    seqs = sequences(dict(case, equal=case["equal"] or other))
    exs = [emb(s) for s in seqs]
    refs = [ref_ti(ti, e) for e in exs]
    tols = [tol_ti(ti, e, dtype) * (4 if np_map else 1) for e in exs]
    before = [s.clone() for s in seqs]
    torch.set_grad_enabled(case["grad"])
    ops = case["uses"]
    ti = use(ti, ops, case["seed"], lambda m, v: m(list(v)), seqs)
    with sut(f"evaluating a list of sequences {ops}"), mode_of(ops):
        y = ti(list(seqs))
    close(y, np.stack(refs), np.stack(tols), "TI_MPS output for a list")
    for k, s in enumerate(seqs):
        same(s, before[k], "input sequence after evaluation")
        if k > 2:
            break
        with sut("evaluating one sequence as a batch tensor"):
            yk = ti(s[None])
        close(yk[0], refs[k], tols[k], f"TI_MPS output for sequence {k} alone in a tensor")
        with sut("evaluating one sequence as a list"):
            yl = ti([s])
        close(yl[0], refs[k], tols[k], f"TI_MPS output for sequence {k} alone in a list")
        if case["raw"]:
            with sut("evaluating an embedded sequence"):
                ye = ti(tens(exs[k], dtype)[None])
                ye2 = ti([tens(exs[k], dtype)])
            close(ye[0], refs[k], tols[k] * 4, "TI_MPS output for the embedded sequence")
            close(ye2[0], refs[k], tols[k] * 4, "TI_MPS output for the embedded sequence in a list")
    lens = [len(s) for s in seqs]
    if len(set(lens)) == 1:
        with sut("evaluating a batch tensor"):
            yb = ti(torch.stack(seqs))
        close(yb, np.stack(refs), np.stack(tols), "TI_MPS output for a batch tensor")
    with sut("evaluating a list of sequences in reverse"):
        yr = ti(list(seqs)[::-1])
    close(yr, np.stack(refs[::-1]), np.stack(tols[::-1]), "TI_MPS output for the reversed list")
    ctx.label(*ops)
    if other:
        ctx.label("fixed bias other than the identity")
    ctx.label("lists of unequal lengths" if len(set(lens)) > 1 else "equal lengths",
              "raw" if case["raw"] else "embedded", f"map {case['map']}",
              "parallel" if cfg["parallel_eval"] else "serial",
              "trainable ends" if not cfg["fixed_ends"] else "fixed ends",
              "no bias" if not cfg["use_bias"] else "fixed bias" if cfg["fixed_bias"] else "trainable bias")
    if 1 in lens:
        ctx.label("length 1")
    return max(lens) > 1 and cfg["bond_dim"] > 1


@st.composite
def ragged(draw):
    case = draw(cases())
    case["equal"] = False
    kind = draw(st.integers(0, 1))
    case["cfg"]["use_bias"], case["cfg"]["fixed_bias"] = [(False, draw(st.booleans())), (True, False)][kind]
    case["lengths"] = case["lengths"] + [draw(st.integers(1, 8))]
    return case


def run_ragged(case, ctx):
    cfg = case["cfg"]
    ti = build(case)
    np_map = None
    if case["map"]:
        fmap, np_map = feature_map(case["map"], cfg["feature_dim"], case["seed"], case["dtype"])
        ti.register_feature_map(fmap)
    seqs = sequences(case)
    if len({len(s) for s in seqs}) == 1:
        raise Skip
    refuses(lambda: ti(seqs), "list of unequal lengths without a fixed bias", (ValueError,))
    s = seqs[-1]
    a = to_np(s).astype(float)
    ex = a if a.ndim == 2 else (np_map(a) if np_map else embed_default(a))
    with sut("evaluating after a refused list"):
        y = ti([s])
    close(y[0], ref_ti(ti, ex), 4 * tol_ti(ti, ex, case["dtype"]), "TI_MPS output after a refused list")
    ctx.label("no bias" if not cfg["use_bias"] else "trainable bias")
    return True


FACETS = [
    Facet("sequences", cases(), run, 4000),
    Facet("ragged refused", ragged(), run_ragged, 800),
    Facet("extents", extents(), run_extents, 300, 10000),
    Facet("long", cases(long=True), run, 250, 8000),
]

from common import *
from core import *
import torch._dynamo  # noqa: F401  (imported by the first optimiser step; slow, hence once before forking)

RULE = (
    "A case is a Born machine (fixed length or uniform, real or complex, with or without bias) with generated "
    "parameter values, and the complete list of sequences of every tested length, evaluated with every strategy in "
    "batches of a generated size; non-trivial when at least two sequences have different probabilities."
)
ASSUMPTIONS = ["models whose norm is zero or cancels to below 1e-5 of its terms are outside the domain"]


@st.composite
def cases(draw):
    cfg = draw(prob_cfg(max_seq=6, max_bond=5, max_in=4, tail=True))
    cap = draw(st.sampled_from([16, 64, 64, 256, 800]))
    while cfg["input_dim"] ** cfg["seq_len"] > cap and cfg["seq_len"] > 1:
        cfg["seq_len"] -= 1
    return {
        "cfg": cfg, "seed": draw(seeds), "dtype": draw(dtypes),
        "style": draw(st.sampled_from(["normal", "normal", "int", "sparse", "uniform", "zeros", "init", "trained"])),
        "scale": draw(st.sampled_from([1.0, 1.0, 1e-4, 1e4])),
        "chunk": draw(st.sampled_from([None, None, 1, 3, 7])),
        "strategy": draw(st.sampled_from(list(STRATEGIES))),
        "order": draw(st.booleans()), "grad": draw(st.booleans()), "uses": draw(uses()),
    }


def zero_pattern(model, seed):
    """Make some slices of the cores vanish, so that sequences get probability zero"""
    with torch.no_grad():
        rng = rng_of(seed, 21)
        c = model.core_tensors
        flat = c.reshape((-1,) + tuple(c.shape[-3:]))
        for site in range(flat.shape[0]):
            for sym in range(flat.shape[1]):
                kind = rng.integers(0, 5)
                if kind == 0:
                    flat[site, sym] = 0
                elif kind == 1:
                    flat[site, sym, rng.integers(0, flat.shape[2])] = 0
                elif kind == 2:
                    flat[site, sym, :, rng.integers(0, flat.shape[3])] = 0
        c.copy_(flat.reshape(c.shape))
        if rng.integers(0, 3) == 0:
            e = model.edge_vecs
            e[:, 0] = 0
            if e.shape[1] > 1:
                e[0, 1:] = 0
                e[0, 1] = 1


def build(case):
    cfg, dtype, seed = case["cfg"], case["dtype"], case["seed"]
    torch.set_default_dtype(DT[dtype])
    torch.manual_seed(seed % 1009)
    with sut("constructing a probabilistic model"):
        model = make_prob(cfg)
    style = case["style"]
    if style == "trained":
        if cfg["use_bias"]:
            with torch.no_grad():
                model.bias_mat.add_(0.1)
        opt = torch.optim.Adam(model.parameters(), lr=0.05)
        x = torch.tensor(rng_of(seed, 3).integers(0, cfg["input_dim"], size=(4, cfg["seq_len"])))
        with sut("training"):
            for _ in range(3):
                opt.zero_grad()
                model.loss(x).backward()
                opt.step()
    elif style != "init":
        fill(model, seed, "normal" if style == "zeros" else style, case["scale"])
        if style == "zeros":
            zero_pattern(model, seed)
    return model


def evaluate(model, x, kw, chunk):
    if not chunk:
        return model(x, **kw)
    return torch.cat([model(x[i:i + chunk], **kw) for i in range(0, len(x), chunk)])


def run(case, ctx):
    cfg, dtype = case["cfg"], case["dtype"]
    model = build(case)
    n, d = cfg["seq_len"], cfg["input_dim"]
    lengths = sorted({0, 1, n}) if cfg["uniform"] else [n]
    if cfg["uniform"] and n > 2:
        lengths.append(n - 1)
    lengths = [lengths[k] for k in rng_of(case["seed"], 7).permutation(len(lengths))]
    kw = STRATEGIES[case["strategy"]]
    if cfg["use_bias"] and kw == {"slim_eval": True}:
        kw = {}
    eps = EPS[dtype]
    interesting = tested = False
    ops = case["uses"]
    warm = torch.tensor(rng_of(case["seed"], 6).integers(0, d, size=(2, n)))
    if not probs_domain_ok(*prob_params(model, n), dtype):
        ops = [op for op in ops if op in ("eval", "freeze", "no_grad", "inference", "deepcopy")]
    model = use(model, ops, case["seed"], lambda m, v: m(v, **kw), warm)
    for length in lengths:
        cores, left, right = prob_params(model, length)
        if not probs_domain_ok(cores, left, right, dtype):
            continue
        ln, tol_ln = lognorm_tol(cores, left, right, None, dtype)
        # The model evaluates in its own precision: keep squares within its range
        if dtype == "float32" and (abs(ln) > 60 or model.core_tensors.abs().max() > 1e8):
            continue
        seqs = all_seqs(d, length)
        if case["order"]:
            seqs = seqs[rng_of(case["seed"], 5).permutation(len(seqs))]
        x = torch.tensor(seqs)
        kept = x.clone()
        with torch.set_grad_enabled(case["grad"]), mode_of(ops), sut(
                f"log probabilities of all sequences of length {length} {ops}"):
            logp = evaluate(model, x, kw, case["chunk"])
        check(tuple(logp.shape) == (len(seqs),), f"length {length}: shape {tuple(logp.shape)} for {len(seqs)} sequences")
        same(x, kept, "sequences after evaluation")
        check(not logp.is_complex(), f"length {length}: complex log probabilities")
        lp = to_np(logp).astype(float)
        check(not np.isnan(lp).any(), f"length {length}: NaN among the log probabilities")
        probs = np.exp(lp)
        # The rounding error of each amplitude relative to the norm of the model
        top = ref_amps(cores, left, right, onehot_np(seqs, d), absval=True)
        dim = d + cores.shape[-1] * 2 if length else len(left)
        with np.errstate(all="ignore"):
            rel = np.exp(np.log(top) - 0.5 * ln)
        rel[top == 0] = 0
        amp_err = 64 * eps * (length + 2) * dim * rel
        tol = tol_ln + float((2 * amp_err * np.sqrt(probs) + amp_err ** 2).sum()) + 64 * eps * (abs(ln) + length + 1)
        if not tol < 1e-2:
            continue
        tested = True
        total = probs.sum()
        check(abs(total - 1) <= tol, f"length {length}: probabilities of all {len(seqs)} sequences sum to "
                                     f"{total!r} (tolerance {tol:.2g})")
        check(lp.max() <= tol, f"length {length}: a log probability is {lp.max()!r}")
        # Sequences whose amplitude vanishes term by term
        for i in np.flatnonzero(top == 0):
            check(lp[i] == -np.inf, f"length {length}: sequence {seqs[i].tolist()} is impossible, log probability {lp[i]!r}")
            ctx.label("impossible sequences")
        impossible = set(np.flatnonzero(top == 0).tolist())
        amp = np.abs(ref_amps(cores, left, right, onehot_np(seqs, d)))
        sure = amp > 1e4 * eps * (length + 2) * dim * top
        sure[list(impossible)] = False
        check(np.isfinite(lp[sure]).all(), f"length {length}: possible sequence with log probability {lp[sure].min() if sure.any() else 0!r}")
        with np.errstate(all="ignore"):
            want = 2 * np.log(amp) - ln
        slack = np.full(len(lp), np.inf)
        slack[sure] = 4 * amp_err[sure] / (amp[sure] * np.exp(-0.5 * ln)) + tol_ln + 64 * eps * (abs(ln) + length + 1 + np.abs(want[sure]))
        close(lp[sure], want[sure], slack[sure], f"length {length}: log probabilities")
        interesting |= bool(len(seqs) > 1 and np.ptp(probs) > 1e-3)
        ctx.label(f"length {min(length, 3)}{'+' if length > 3 else ''}")
    prob_labels(cfg, ctx)
    ctx.label(case["strategy"], case["style"], dtype, *ops)
    if not tested:
        raise Skip
    return interesting


# ------------------------------------------------------------- marginals and conditionals


@st.composite
def marginal_cases(draw):
    return {"cfg": draw(prob_cfg(max_seq=5, max_bond=4, max_in=3, tail=True)), "seed": draw(seeds),
            "site": draw(st.integers(0, 5)), "strategy": draw(st.sampled_from(list(STRATEGIES)))}


def run_marginal(case, ctx):
    """Longer sequences, for which only one site is enumerated: sums over it are reduced density matrices"""
    case = dict(case, dtype="float64", style="normal", scale=1.0)
    cfg, d = case["cfg"], case["cfg"]["input_dim"]
    cfg = case["cfg"] = dict(cfg, seq_len=cfg["seq_len"] + 10)
    model = build(case)
    n = cfg["seq_len"]
    site = case["site"] * (n - 1) // 5
    rng = rng_of(case["seed"], 8)
    base = rng.integers(0, d, size=n)
    seqs = np.repeat(base[None], d, axis=0)
    seqs[:, site] = np.arange(d)
    kw = STRATEGIES[case["strategy"]]
    if cfg["use_bias"] and kw == {"slim_eval": True}:
        kw = {}
    cores, left, right = prob_params(model, n)
    ln, tol_ln = lognorm_tol(cores, left, right, None, "float64")
    if not tol_ln < 1e-6:
        raise Skip
    with sut("log probabilities"):
        lp = to_np(model(torch.tensor(seqs), **kw))
    # Left and right parts are common to the whole batch
    lv = left
    for k in range(site):
        lv = lv @ cores[k][base[k]]
    rv = right
    for k in range(n - 1, site, -1):
        rv = cores[k][base[k]] @ rv
    amps = np.einsum("l,ilr,r->i", lv, cores[site], rv)
    tops = ref_amps(cores, left, right, onehot_np(seqs, d), absval=True)
    if (np.abs(amps) < 1e-6 * tops).any():
        raise Skip
    close(lp, 2 * np.log(np.abs(amps)) - ln, tol_ln + 1e-6, "log probabilities of sequences differing in one symbol")
    prob_labels(cfg, ctx)
    return d > 1


FACETS = [
    Facet("all-sequences", cases(), run, 2000),
    Facet("one-site", marginal_cases(), run_marginal, 600),
]

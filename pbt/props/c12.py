from common import *
from core import *
import torch._dynamo  # noqa: F401  (imported by the first optimiser step; slow, hence once before forking)

RULE = (
    "A case is a Born machine with an embedding (fixed or trainable; tables over discrete domains, smooth functions "
    "over intervals; real or complex), generated parameters, and a history of training steps and parameter changes. "
    "Probabilities of all discrete sequences are summed, densities integrated with Gauss-Legendre quadrature. "
    "Non-trivial when the normalisation matrix is not a multiple of the identity or the embedding was trained."
)
ASSUMPTIONS = [
    "densities over intervals are smooth on the scale of the 1000 points which the library integrates with",
    "normalisation matrices which are nearly, but not up to rounding, diagonal (off by less than 2e-8) or a multiple of the "
    "identity (3e-5) are skipped: the library treats them as such",
    "models whose norm is zero or cancels to below 1e-5 of its terms are outside the domain",
]


# ------------------------------------------------------------- embeddings


def table_values(case, size, dim, cplx):
    rng = rng_of(case["seed"], 3)
    kind = case["table"]
    if kind == "onehot":
        t = np.eye(size, dim)
    elif kind == "orthogonal":  # lambda a multiple of the identity, when size >= dim
        m = max(size, dim)
        q = np.linalg.qr(arr(rng, (m, m), "normal", 1.0, cplx))[0]
        t = q[:size, :dim]
    elif kind == "diagonal":
        m = max(size, dim)
        t = np.linalg.qr(arr(rng, (m, m), "normal", 1.0, cplx))[0][:size, :dim] * (0.3 + rng.random(dim))
    elif kind == "almost":  # nearly diagonal
        t = np.eye(size, dim) + 1e-3 * arr(rng, (size, dim), "normal")
    elif kind == "blocks":  # groups of components which are orthogonal to each other
        k = int(rng.integers(2, 4))
        g, h = rng.integers(0, k, size=size), rng.integers(0, k, size=dim)
        if rng.integers(0, 2):
            g[:dim], h[:size] = np.arange(k).repeat(size)[:size][:dim], h[:size]
            g, h = np.sort(g), np.sort(h)
        t = arr(rng, (size, dim), "normal", 1.0, cplx) * (g[:, None] == h[None, :])
    elif kind == "sparse":
        t = arr(rng, (size, dim), "normal", 1.0, cplx) * (rng.random((size, dim)) < 0.5)
    elif kind == "rank1":
        t = np.outer(1 + rng.random(size), arr(rng, (dim,), "normal", 1.0, cplx))
    else:
        t = arr(rng, (size, dim), "normal", 1.0, cplx)
    return t * case["scale"]


class Table(torch.nn.Module):
    def __init__(self, values):
        super().__init__()
        self.table = torch.nn.Parameter(torch.tensor(values))

    def forward(self, x):
        return self.table[x[..., 0]]


def smooth(kind, dim, seed, lo, hi, cplx):
    """Smooth function on an interval, for torch tensors and NumPy arrays"""
    rng = rng_of(seed, 4)
    a, c = rng.uniform(-3, 3, dim) / (hi - lo), rng.uniform(-2, 2, dim)
    w = rng.uniform(0.5, 1.5, dim)

    def fun(lib, x, asarray):
        z = x[..., None]
        A, C, W = asarray(a), asarray(c), asarray(w)
        if kind == "sine":
            return W * lib.sin(A * (z - lo) + C)
        if kind == "exp":
            return W * lib.exp(-A * (z - lo))
        if kind == "power":
            u = (z - lo) / (hi - lo)
            return lib.stack([W[k] * u[..., 0] ** k for k in range(dim)], -1)
        if kind == "wave":  # complex
            return W * lib.exp(1j * (A * (z - lo) + C))
        raise AssertionError(kind)

    return (lambda x: fun(torch, x, lambda v: torch.tensor(v)), lambda x: fun(np, x, lambda v: v))


@st.composite
def base_cases(draw, continuous):
    cfg = draw(prob_cfg(max_seq=4, max_bond=4, max_in=4))
    return {
        "cfg": cfg, "seed": draw(seeds),
        "values": draw(st.sampled_from(["normal", "normal", "uniform", "init"])),
        "scale": draw(st.sampled_from([1.0, 1.0, 1.0, 1e-6, 1e-3, 1e3, 1e6, -2.0])) if not continuous
        else draw(st.sampled_from([1.0, 1.0, 1.0, 1e-5, 1e4])),
        "cplx": draw(st.integers(0, 3)) == 0, "strategy": draw(st.sampled_from(list(STRATEGIES))),
        "how": draw(st.sampled_from(["object", "callable"])), "uses": draw(uses()),
        "elsewhere": draw(st.sampled_from(["", "", "before", "again"])),
    }


def elsewhere(case, fun, domain):
    """The same function gets used with another domain"""
    from torchmps import embeddings as E

    if domain.continuous:
        lo, hi = domain.min_val, domain.max_val
        other = E.DataDomain(True, *[(hi + 1, lo), (hi, lo - 1), (hi + 2, lo + 2), (hi, (lo + hi) / 2)][case["seed"] % 4])
    else:
        other = E.DataDomain(False, max(1, domain.max_val - 1))
    cls = E.TrainableEmbedding if isinstance(fun, torch.nn.Module) else E.FixedEmbedding
    with sut("another embedding from the same function"):
        cls(fun, other).lamb_mat
        if case["elsewhere"] == "again":
            cls(fun, other).make_lambda()


def setup(case, emb, domain):
    cfg = case["cfg"]
    fun = None if isinstance(emb, torch.nn.Module) else emb
    if fun is not None and case["elsewhere"]:
        elsewhere(case, fun, domain)
    model = setup_model(case, emb, domain)
    if fun is not None and case["elsewhere"] == "again":
        elsewhere(case, fun, domain)
    return model


def setup_model(case, emb, domain):
    cfg = case["cfg"]
    with sut("constructing a probabilistic model with an embedding"):
        if case["how"] == "callable" and not isinstance(emb, torch.nn.Module):
            model = make_prob(cfg, embed_fun=emb, domain=domain)
        else:
            from torchmps.embeddings import FixedEmbedding

            if not isinstance(emb, torch.nn.Module):
                emb = FixedEmbedding(emb, domain)
            model = make_prob(cfg, embed_fun=emb)
    if case["values"] != "init":
        fill(model, case["seed"], case["values"], names=lambda s: not s.startswith("embedding"))
    elif cfg["use_bias"]:
        with torch.no_grad():
            model.bias_mat.add_(0.2)
    return model


def lnorm(model, cfg, n):
    with sut("log_norm"):
        return model.log_norm(n) if cfg["uniform"] else model.log_norm()


def strategy(case):
    kw = STRATEGIES[case["strategy"]]
    return {} if case["cfg"]["use_bias"] and kw == {"slim_eval": True} else kw


def nearly_simple(lam):
    """Could this matrix pass for a diagonal one, or for a multiple of the identity, without being one?"""
    d = np.diag(lam).real
    top, off = d.max(initial=0), np.abs(lam - np.diag(np.diag(lam))).max(initial=0)
    spread = np.ptp(d) if d.size else 0
    return 1e-13 * top < off <= 2e-8 * top or (off <= 2e-8 * top and 1e-13 * top < spread <= 3e-5 * top)


def sum_discrete(model, case, vecs, what):
    """vecs holds the embedded value of every symbol"""
    cfg = case["cfg"]
    size, kw = len(vecs), strategy(case)
    lam = np.einsum("ki,kj->ij", vecs, vecs.conj())
    lengths = {cfg["seq_len"]} | ({0, 1} if cfg["uniform"] else set())
    tested = False
    if nearly_simple(lam):
        return False
    for n in sorted(lengths):
        cores, left, right = prob_params(model, n)
        if not probs_domain_ok(cores, left, right, "float64", lam):
            continue
        ln, tol = lognorm_tol(cores, left, right, lam, "float64")
        tested = True
        close(lnorm(model, cfg, n), np.float64(ln), tol + 1e-9, f"{what}: log_norm for length {n}")
        seqs = all_seqs(size, n)
        with sut(f"{what}: log probabilities of all sequences of length {n}"):
            lp = model(torch.tensor(seqs), **kw)
        check(tuple(lp.shape) == (len(seqs),), f"{what}: shape {tuple(lp.shape)} for {len(seqs)} sequences")
        check_logp(lp, cores, left, right, vecs[seqs], "float64", f"{what}: length {n}", lamb=lam)
        total = float(np.exp(to_np(lp)).sum())
        check(abs(total - 1) <= 1e-6, f"{what}: probabilities of all {len(seqs)} sequences of length {n} sum to {total!r}")
        close(lnorm(model, cfg, n), np.float64(ln), tol + 1e-9, f"{what}: log_norm for length {n} after evaluations")
    return tested


# ------------------------------------------------------------- discrete domains


@st.composite
def discrete_cases(draw):
    case = draw(base_cases(False))
    case["size"] = draw(st.integers(1, 5))
    if draw(st.integers(0, 9)) == 0:  # large alphabets
        case["size"] = draw(st.sampled_from([16, 40, 65, 100, 128, 129, 257, 300, 500, 1025]).flatmap(lambda k: st.integers(k // 2, k)))
        case["cfg"]["seq_len"] = draw(st.integers(1, 2)) if case["size"] <= 60 else 1
    if case["size"] > 4:
        case["cfg"]["seq_len"] = min(case["cfg"]["seq_len"], 3)
    elif case["size"] < 3 and draw(st.integers(0, 7)) == 0:
        case["cfg"]["seq_len"] = draw(st.integers(5, 9))
    case["table"] = draw(st.sampled_from(["any", "any", "onehot", "orthogonal", "diagonal", "almost", "rank1", "blocks",
                                          "sparse"]))
    case["trainable"] = draw(st.booleans())
    case["steps"] = draw(st.lists(st.sampled_from(["step", "values", "eval", "norm", "nograd"]), min_size=0, max_size=4))
    return case


def run_discrete(case, ctx):
    from torchmps.embeddings import DataDomain, TrainableEmbedding

    torch.set_default_dtype(torch.float64)
    torch.manual_seed(case["seed"] % 997)
    cfg, size, d = case["cfg"], case["size"], case["cfg"]["input_dim"]
    cplx = case["cplx"] and cfg["complex_params"]
    table = table_values(case, size, d, cplx)
    domain = DataDomain(False, size)
    if case["trainable"]:
        module = Table(table)
        if case["elsewhere"]:
            elsewhere(case, module, domain)
        with sut("TrainableEmbedding"):
            emb = TrainableEmbedding(module, domain)
    else:
        fixed = torch.tensor(table)
        emb, current = (lambda x: fixed[x]), (lambda: table)
    model = setup(case, emb, domain)
    ops = case["uses"]
    x = torch.tensor(rng_of(case["seed"], 13).integers(0, size, size=(2, cfg["seq_len"])))
    lam = np.einsum("ki,kj->ij", table, table.conj())
    if not probs_domain_ok(*prob_params(model, cfg["seq_len"]), "float64", lam):
        ops = [op for op in ops if op in ("eval", "freeze", "no_grad", "inference", "deepcopy")]
    model = use(model, ops, case["seed"], lambda m, v: m(v, **strategy(case)), x)
    if case["trainable"]:
        module = next(m for m in model.modules() if isinstance(m, Table))  # deepcopy makes another one
        current = lambda: to_np(module.table).copy()
    with mode_of(ops):
        tested = sum_discrete(model, case, current(), f"embedding of a discrete domain {ops}")
    if case["elsewhere"] and case["trainable"]:
        elsewhere(case, module, domain)
    if size > 5:
        ctx.label("large alphabet")
    trained = False
    opt = torch.optim.SGD(model.parameters(), lr=1.0)
    frozen = "freeze" in ops or "freeze some" in ops
    for k, op in enumerate(case["steps"]):
        if op == "step" and frozen:
            continue
        n = cfg["seq_len"]
        x = torch.tensor(rng_of(case["seed"], 7, k).integers(0, size, size=(3, n)))
        cores, left, right = prob_params(model, n)
        vecs = current()
        lam = np.einsum("ki,kj->ij", vecs, vecs.conj())
        if not probs_domain_ok(cores, left, right, "float64", lam):
            break
        if op in ("eval", "nograd"):
            with torch.set_grad_enabled(op == "eval"), sut("evaluating"):
                model(x)
        elif op == "norm":
            lnorm(model, cfg, n)
        elif op == "values":
            fill(model, case["seed"] + k, "normal", names=lambda s: not s.startswith("embedding"))
            if case["trainable"]:
                with torch.no_grad():
                    module.table.copy_(torch.tensor(table_values(dict(case, seed=case["seed"] + k, table="any"), size, d, cplx)))
                trained = True
        else:
            amp = np.abs(ref_amps(cores, left, right, vecs[to_np(x)]))
            if (amp < 1e-3 * ref_amps(cores, left, right, vecs[to_np(x)], absval=True)).any():
                continue
            opt.zero_grad()
            with sut("training step"):
                model.loss(x).backward()
            check(not case["trainable"] or module.table.grad is not None, "trainable embedding without gradient")
            torch.nn.utils.clip_grad_norm_(model.parameters(), 0.1 * min(1.0, abs(case["scale"])))
            opt.step()
            trained = trained or case["trainable"]
        what = f"after {case['steps'][:k + 1]}"
        with mode_of(ops):
            tested = sum_discrete(model, case, current(), what) or tested
    ctx.label(*ops)
    prob_labels(cfg, ctx)
    ctx.label(f"table {case['table']}", "trainable" if case["trainable"] else "fixed", "complex embedding" if cplx else "real embedding",
              f"scale {case['scale']:g}")
    if trained:
        ctx.label("embedding changed")
    if not tested:
        raise Skip
    return case["table"] != "onehot" and size > 1


# ------------------------------------------------------------- continuous domains


@st.composite
def continuous_cases(draw):
    case = draw(base_cases(True))
    case["cfg"]["seq_len"] = draw(st.sampled_from([1, 1, 2, 2, 3]))
    case["lo"] = draw(st.sampled_from([0.0, 0.0, -1.0, -2.5, 1.0, 10.0]))
    case["width"] = draw(st.sampled_from([1.0, 1.0, 2.0, 0.25, 5.0]))
    case["fun"] = draw(st.sampled_from(["sine", "exp", "power", "trig", "net", "mlp", "wave"]))
    case["steps"] = draw(st.lists(st.sampled_from(["step", "values", "eval"]), min_size=0, max_size=2))
    case["int"] = draw(st.booleans())
    return case


def run_continuous(case, ctx):
    from torchmps import embeddings as E

    torch.set_default_dtype(torch.float64)
    torch.manual_seed(case["seed"] % 997)
    cfg, d = case["cfg"], case["cfg"]["input_dim"]
    lo, hi, kind = case["lo"], case["lo"] + case["width"], case["fun"]
    if kind == "wave" and not cfg["complex_params"]:
        kind = "sine"
    if kind == "trig":
        lo, hi = 0.0, 1.0
    if case["int"] and lo == int(lo) and hi == int(hi):
        lo, hi = int(lo), int(hi)
    domain = E.DataDomain(True, hi, lo)
    scale = case["scale"]
    trainable = kind in ("net", "mlp")
    if kind == "net":
        net = torch.nn.Sequential(torch.nn.Linear(1, 4), torch.nn.Tanh(), torch.nn.Linear(4, d))
        with torch.no_grad():
            net[2].weight.mul_(scale), net[2].bias.mul_(scale)
            net[0].weight.mul_(2.0 / (hi - lo))
            net[0].bias.sub_(net[0].weight[:, 0] * lo)
        with sut("TrainableEmbedding"):
            emb = E.TrainableEmbedding(net, domain)
        np_emb = lambda x: to_np(net(torch.tensor(x)[..., None]))
    elif kind == "mlp":
        with sut("init_mlp_embed"):
            kw = {} if (lo, hi) == (0, 1) else {"data_domain": domain}
            emb = E.init_mlp_embed(d, 2, [5], **kw)
        np_emb = lambda x: to_np(emb(torch.tensor(x)))
    elif kind == "trig":
        emb = (lambda x: scale * E.trig_embed(x, emb_dim=d))
        np_emb = lambda x: to_np(emb(torch.tensor(x)))
    else:
        f, g = smooth(kind, d, case["seed"], lo, hi, kind == "wave")
        emb, np_emb = (lambda x: scale * f(x)), (lambda x: scale * g(x))
    model = setup(case, emb, domain)
    nodes, weights = np.polynomial.legendre.leggauss(28)
    pts = 0.5 * (hi - lo) * (nodes + 1) + lo
    wts = 0.5 * (hi - lo) * weights
    opt = torch.optim.SGD(model.parameters(), lr=1.0)
    tested, n = False, cfg["seq_len"]
    if n == 3:
        nodes8, weights8 = np.polynomial.legendre.leggauss(12)
        pts3, wts3 = 0.5 * (hi - lo) * (nodes8 + 1) + lo, 0.5 * (hi - lo) * weights8
    for k, op in enumerate([None] + case["steps"]):
        if op == "step":
            x = torch.tensor(rng_of(case["seed"], 7, k).uniform(lo, hi, size=(3, n)))
            cores, left, right = prob_params(model, n)
            vecs = np_emb(to_np(x))
            if (np.abs(ref_amps(cores, left, right, vecs)) < 1e-3 * ref_amps(cores, left, right, vecs, absval=True)).any():
                continue
            opt.zero_grad()
            with sut("training step"):
                model.loss(x).backward()
            torch.nn.utils.clip_grad_norm_(model.parameters(), 0.1 * min(1.0, abs(scale)))
            opt.step()
        elif op == "values":
            fill(model, case["seed"] + k, "normal", names=lambda s: not s.startswith("embedding"))
            if trainable:
                with torch.no_grad():
                    for p in model.embedding.parameters():
                        p.add_(0.1 * float(p.abs().max()) * torch.tensor(rng_of(case["seed"], k).normal(size=tuple(p.shape))))
        elif op == "eval":
            with torch.no_grad(), sut("evaluating"):
                model(torch.tensor(rng_of(case["seed"], 7, k).uniform(lo, hi, size=(2, n))))
        vecs = np_emb(pts)
        exact = np.einsum("k,ki,kj->ij", wts, vecs, vecs.conj())
        grid = np.linspace(lo, hi, 1000)
        gv = np_emb(grid)
        tw = np.full(1000, grid[1] - grid[0])
        tw[[0, -1]] /= 2
        trap = np.einsum("k,ki,kj->ij", tw, gv, gv.conj())
        cores, left, right = prob_params(model, n)
        if not probs_domain_ok(cores, left, right, "float64", exact):
            continue
        ln, tol = lognorm_tol(cores, left, right, exact, "float64")
        ln2 = ref_lognorm(cores, left, right, trap)
        # The error of the quadrature, and the entries that count as zero (1e-5 of the diagonal)
        slack = 10 * abs(ln - ln2) + 1e-8 + tol
        diag = np.abs(exact).max()
        small = np.abs(exact - np.diag(np.diag(exact))).max() <= 1e-5 * diag
        if small:
            slack += 1e-4
        if not slack < 1e-3:
            ctx.label("quadrature error too large")
            continue
        tested = True
        got = lnorm(model, cfg, n)
        what = f"{kind} embedding of [{lo}, {hi}] after {case['steps'][:k]}"
        close(got, np.float64(ln), slack, f"{what}: log_norm")
        p1, w1 = (pts, wts) if n < 3 else (pts3, wts3)
        seqs = all_seqs(len(p1), n)
        with torch.no_grad(), sut(f"{what}: log densities"):
            lp = to_np(model(torch.tensor(p1[seqs]), **strategy(case)))
        total = float((np.exp(lp) * np.prod(w1[seqs], axis=1)).sum())
        check(abs(total - 1) <= 3 * slack + (1e-6 if n < 3 else 2e-4),
              f"{what}: the density integrates to {total!r} (tolerance {3 * slack:.2g})")
    prob_labels(cfg, ctx)
    ctx.label(kind, f"{n} sites", f"scale {scale:g}", f"interval [{lo}, {hi}]")
    if not tested:
        raise Skip
    return d > 1


# ------------------------------------------------------------- rescaling the embedding


@st.composite
def scale_cases(draw):
    case = draw(base_cases(False))
    case["scale"] = 1.0
    case["size"] = draw(st.integers(1, 4))
    case["table"] = draw(st.sampled_from(["any", "onehot", "orthogonal", "diagonal", "almost"]))
    case["trainable"] = draw(st.booleans())
    case["factor"] = draw(st.floats(-12, 12))
    case["sign"] = draw(st.sampled_from([1, -1]))
    case["dtype"] = draw(st.sampled_from(["float64", "float64", "float32"]))
    if case["dtype"] == "float32":
        case["factor"] = case["factor"] / 3
    case["cfg"]["use_bias"] = False
    return case


def run_scale(case, ctx):
    from torchmps.embeddings import DataDomain, FixedEmbedding, TrainableEmbedding

    dt = DT[case["dtype"]]
    torch.set_default_dtype(dt)
    cfg, size, d = case["cfg"], case["size"], case["cfg"]["input_dim"]
    table = table_values(case, size, d, False)
    n = cfg["seq_len"]
    seqs = all_seqs(size, n)
    c = case["sign"] * 10.0 ** case["factor"]
    out = []
    for factor in (1.0, c):
        t = torch.tensor(table * factor, dtype=dt)
        torch.manual_seed(5)
        with sut(f"constructing an embedding scaled by {factor!r}"):
            if case["trainable"]:
                m = Table(to_np(t))
                emb = TrainableEmbedding(m, DataDomain(False, size))
            else:
                emb = FixedEmbedding(lambda x, t=t: t[x], DataDomain(False, size))
            model = make_prob(cfg, embed_fun=emb)
        fill(model, case["seed"], "normal", names=lambda s: not s.startswith("embedding"))
        cores, left, right = prob_params(model, n)
        vecs = to_np(t).astype(float)
        lam = vecs.T @ vecs
        if not probs_domain_ok(cores, left, right, case["dtype"], lam):
            raise Skip
        with sut(f"log probabilities with an embedding scaled by {factor!r}"):
            lp = model(torch.tensor(seqs), **strategy(case))
        check_logp(lp, cores, left, right, vecs[seqs], case["dtype"],
                   f"log probabilities with an embedding scaled by {factor!r}", lamb=lam)
        amp = np.abs(ref_amps(cores, left, right, vecs[seqs]))
        good = amp > 1e-3 * ref_amps(cores, left, right, vecs[seqs], absval=True)
        out.append((to_np(lp).astype(float), good))
    good = out[0][1] & out[1][1]
    _, tol = lognorm_tol(cores, left, right, lam, case["dtype"])
    a, b = out[0][0][good], out[1][0][good]
    close(b, a, 3 * tol + 1e5 * EPS[case["dtype"]] * (n + 1) * (10 + abs(case["factor"]) + np.abs(a)),
          f"log probabilities before and after scaling the embedding by {c!r}")
    prob_labels(cfg, ctx)
    ctx.label(case["table"], case["dtype"], "trainable" if case["trainable"] else "fixed")
    return abs(case["factor"]) > 0.5


FACETS = [
    Facet("discrete", discrete_cases(), run_discrete, 900),
    Facet("continuous", continuous_cases(), run_continuous, 450),
    Facet("scaling", scale_cases(), run_scale, 700),
]

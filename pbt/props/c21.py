from math import comb, pi

from common import *
from core import *

RULE = (
    "A case is an embedding (one-hot, trigonometric, perceptron, or a fixed or trainable function on a discrete or "
    "continuous domain, real or complex, of generated size and scale) with an input tensor of generated shape and "
    "layout. Non-trivial when the embedding dimension is at least 2 and there is at least one value to embed."
)

ASSUMPTIONS = [
    "integrals over continuous domains are compared with the trapezoidal rule on the same number of points when that "
    "number is given, and up to the error of that rule otherwise",
    "the binomial coefficients of a trigonometric embedding have representable square roots (dimensions up to 240 in single "
    "precision, 1000 in double)",
    "a normalisation matrix which is diagonal (or a multiple of the identity) up to a relative 1e-5 may be given as such",
]

shapes = st.lists(st.integers(0, 4), max_size=4).map(lambda s: s if 0 not in s or s.count(0) == 1 else [2, 0])


TINY = {"float32": 2.0 ** -126, "float64": 2.0 ** -1022}
LARGEST = {"float32": 240, "float64": 1000}


@st.composite
def values_case(draw):
    dtype = draw(dtypes)
    return {"fun": draw(st.sampled_from(["onehot", "trig", "trig", "sincos"])),
            "dim": draw(st.one_of(wint(1, 40, 5), wint(1, 40, 5), wint(1, 40, 5), st.integers(41, LARGEST[dtype]))),
            "shape": draw(shapes), "dtype": dtype, "layout": draw(layouts), "seed": draw(seeds),
            "range": draw(st.sampled_from(["unit", "unit", "ends", "wide"])), "default": draw(st.booleans()),
            "through": draw(st.sampled_from(["plain", "plain", "fixed"]))}


def run_values(case, ctx):
    from torchmps.embeddings import DataDomain, FixedEmbedding, onehot_embed, sincos_embed, trig_embed

    shape, d, dtype = tuple(case["shape"]), case["dim"], case["dtype"]
    torch.set_default_dtype(DT[dtype])
    rng = rng_of(case["seed"])
    if case["fun"] == "onehot":
        a = rng.integers(0, d, size=shape)
        t = torch.tensor(a, dtype=torch.int64)
        want, tol = np.eye(d)[a], 0.0
        fun = lambda x: onehot_embed(x, d)  # noqa: E731
        dom = DataDomain(False, d)
    else:
        a = {"unit": lambda: rng.random(shape), "ends": lambda: rng.integers(0, 2, size=shape).astype(float),
             "wide": lambda: rng.normal(size=shape) * 3}[case["range"]]()
        t = torch.tensor(a, dtype=DT[dtype])
        if case["fun"] == "sincos":
            d = 2
            fun = sincos_embed
        elif d == 2 and case["default"]:
            fun = trig_embed
        else:
            fun = lambda x: trig_embed(x, emb_dim=d)  # noqa: E731
        x = to_np(t).astype(float)[..., None] * pi / 2
        j = np.arange(d)
        binom = np.array([comb(d - 1, int(k)) for k in j], dtype=float)
        root, cos, sin = np.sqrt(binom), np.cos(x), np.sin(x)
        want = root * (cos ** (d - 1 - j) * sin ** j)
        # The angle is rounded, and its powers magnify that
        off = 8 * EPS[dtype] * (1 + np.abs(x))
        high = (np.abs(cos) + off) ** (d - 1 - j) * (np.abs(sin) + off) ** j
        low = np.maximum(np.abs(cos) - off, 0) ** (d - 1 - j) * np.maximum(np.abs(sin) - off, 0) ** j
        tol = root * (high - low + 32 * EPS[dtype] * high + 4 * TINY[dtype])
        dom = DataDomain(True, 1.0, 0.0)
    if t.ndim and t.numel():
        t = layout(t, case["layout"])
    before = t.clone()
    if case["through"] == "fixed" and d <= 60:  # takes memory for 1000 * d * d numbers
        with sut("FixedEmbedding"):
            fun = FixedEmbedding(fun, dom)
        check(fun.emb_dim == d, f"emb_dim {fun.emb_dim}, expected {d}")
    with sut(f"{case['fun']} embedding"):
        out = fun(t)
    check(tuple(out.shape) == shape + (d,), f"shape {tuple(out.shape)} for values of shape {shape}, dimension {d}")
    close(out, want, tol, f"{case['fun']} embedding of dimension {d}")
    same(t, before, "embedded values")
    if case["fun"] != "onehot":
        norm = (to_np(out).astype(float) ** 2).sum(-1)
        close(norm, np.ones(shape), (tol * (2 * np.abs(want) + tol)).sum(-1) + 4 * EPS[dtype] * (d + 4),
              f"squared norm in dimension {d}")
        check(out.dtype == t.dtype, f"dtype {out.dtype} for values of dtype {t.dtype}")
    ctx.label(case["fun"], f"dim {min(d, 8)}", f"order {len(shape)}", case["through"])
    return d >= 2 and int(np.prod(shape)) >= 1


# ------------------------------------------------------------- perceptrons


@st.composite
def perceptrons(draw):
    layers = draw(st.integers(1, 4))
    hidden = draw(st.lists(st.integers(1, 6), min_size=layers - 1, max_size=layers - 1))
    return {"layers": layers, "hidden": hidden, "int": draw(st.booleans()), "dim": draw(st.integers(1, 5)),
            "shape": draw(shapes), "seed": draw(seeds), "domain": draw(st.sampled_from([None, [-1.0, 2.0], [3.0, 3.5]])),
            "layout": draw(layouts), "updates": draw(st.integers(0, 2))}


def run_mlp(case, ctx):
    from torchmps.embeddings import DataDomain, TrainableEmbedding, init_mlp_embed

    torch.set_default_dtype(torch.float64)
    rng = rng_of(case["seed"])
    hidden = list(case["hidden"])
    kwargs = {}
    if case["domain"]:
        kwargs["data_domain"] = DataDomain(True, case["domain"][1], case["domain"][0])
    arg = hidden
    if case["int"] and hidden:
        hidden = [hidden[0]] * len(hidden)
        arg = hidden[0]
    if case["layers"] == 2 and case["seed"] % 5 == 0:
        hidden = [100]  # the defaults
        with sut("init_mlp_embed"):
            emb = init_mlp_embed(case["dim"], **kwargs)
    else:
        with sut("init_mlp_embed"):
            emb = init_mlp_embed(case["dim"], num_layers=case["layers"], hidden_dims=arg, **kwargs)
    check(isinstance(emb, TrainableEmbedding), "init_mlp_embed gives no TrainableEmbedding")
    dims = [1] + hidden + [case["dim"]]
    params = list(emb.parameters())
    want = [s for i in range(len(dims) - 1) for s in ((dims[i + 1], dims[i]), (dims[i + 1],))]
    check([tuple(p.shape) for p in params] == want, f"parameters of shapes {[tuple(p.shape) for p in params]}")
    lo, hi = case["domain"] or (0.0, 1.0)
    shape = tuple(case["shape"])
    for k in range(case["updates"] + 1):
        if k:
            fill(emb, case["seed"] + k)
        a = rng.uniform(lo, hi, size=shape)
        t = torch.tensor(a)
        if t.ndim and t.numel():
            t = layout(t, case["layout"])
        with sut("perceptron embedding"):
            out = emb(t)

        def net(x):
            h = x[..., None]
            for i in range(len(dims) - 1):
                w, b = to_np(params[2 * i]), to_np(params[2 * i + 1])
                h = 1 / (1 + np.exp(-(h @ w.T + b)))
            return h

        close(out, net(a), 1e-12, "perceptron embedding")
        check(out.requires_grad, "perceptron embedding is cut off from its parameters")
        points = np.linspace(lo, hi, 1000)
        v = net(points)
        ref = np.trapezoid(v[:, :, None] * v[:, None, :], points, axis=0)
        coarse = np.trapezoid((v[:, :, None] * v[:, None, :])[::3], points[::3], axis=0)
        with sut("lamb_mat"):
            lamb = emb.lamb_mat
        check_lambda(lamb, ref, np.abs(ref - coarse) + 1e-10, f"lamb_mat after {k} updates")
        check(lamb.requires_grad, "lamb_mat of a trainable embedding is cut off from its parameters")
    check(getattr(emb, "emb_dim", case["dim"]) == case["dim"], "emb_dim")
    ctx.label(f"layers {case['layers']}", f"dim {case['dim']}", f"order {len(shape)}")
    return case["dim"] >= 2 and int(np.prod(shape)) >= 1


# ------------------------------------------------------------- normalisation matrices


def check_lambda(lamb, ref, tol, what):
    """A scalar, vector or matrix which stands for ref"""
    check(isinstance(lamb, torch.Tensor) and lamb.ndim <= 2, f"{what}: not a tensor of order up to 2")
    a, d = to_np(lamb), len(ref)
    top = np.abs(ref).max()
    if a.ndim == 0:
        a = a * np.eye(d)
    elif a.ndim == 1:
        check(a.shape == (d,), f"{what}: shape {a.shape} for dimension {d}")
        a = np.diag(a)
    check(a.shape == (d, d), f"{what}: shape {a.shape} for dimension {d}")
    slack = tol if to_np(lamb).ndim == 2 else tol + 2.1e-5 * np.abs(np.diag(ref)).max() * np.eye(d) + 2e-8 * top
    close(a, ref, slack, f"{what} (given as a tensor of order {to_np(lamb).ndim})")
    close(a, a.conj().T, np.maximum(tol, tol.T) if np.ndim(tol) else tol, f"{what}: Hermitian part")


@st.composite
def matrices(draw):
    return {
        "discrete": draw(st.booleans()), "dim": draw(st.integers(1, 5)), "complex": draw(st.booleans()),
        "kind": draw(st.sampled_from(["random", "random", "orthogonal", "diagonal", "near identity", "near diagonal"])),
        "size": draw(st.one_of(wint(1, 60, 7), wint(1, 60, 7), wint(50, 1100, 140))), "scale": draw(st.integers(-7, 4)), "gap": draw(st.integers(2, 4)),
        "lo": draw(st.sampled_from([0.0, -1.0, 2.5, -100.0])), "width": draw(st.sampled_from([1.0, 2.0, 1e-3, 50.0])),
        "trainable": draw(st.booleans()), "points": draw(st.sampled_from([None, None, 2, 3, 50, 501])),
        "dtype": draw(dtypes), "seed": draw(seeds), "updates": draw(st.integers(0, 2)),
        "shape": draw(shapes), "elsewhere": draw(st.sampled_from(["", "before", "after"])),
    }


def table_of(case, k):
    """Contents of a discrete embedding, or coefficients of a continuous one"""
    rng, d, m = rng_of(case["seed"], k), case["dim"], max(case["size"], 1)
    kind = case["kind"]
    if not case["discrete"]:
        m = d
    if kind == "random":
        t = arr(rng, (m, d), "normal", 1.0, case["complex"])
    elif kind in ("orthogonal", "near identity"):
        t = np.linalg.qr(arr(rng, (max(m, d), d), "normal", 1.0, case["complex"]))[0]
        if not case["discrete"]:
            t = t[:d]
    else:
        w = 1 + rng.random(d)
        t = np.zeros((m, d), dtype=complex if case["complex"] else float)
        for i in range(m):
            t[i, i % d] = w[i % d]
        if case["complex"]:
            t = t * np.exp(2j * np.pi * rng.random((m, 1)))
    if kind.startswith("near"):
        # Off by a little more than can pass for rounding
        t = t + 10.0 ** -case["gap"] * arr(rng, t.shape, "normal", 1.0, case["complex"])
    return t * 10.0 ** case["scale"]


def run_matrix(case, ctx):
    from torchmps.embeddings import DataDomain, FixedEmbedding, TrainableEmbedding

    dtype, d, disc = case["dtype"], case["dim"], case["discrete"]
    torch.set_default_dtype(DT[dtype])
    table = tens(table_of(case, 0), dtype)
    lo, hi = case["lo"], case["lo"] + case["width"]

    def basis_np(x):
        """Orthogonal functions on the domain, of squared norm equal to its width"""
        u = (x - lo) / (hi - lo)
        cols = [np.exp(2j * np.pi * k * u) if case["complex"] else
                (np.ones_like(u) if k == 0 else np.sqrt(2) * np.cos(np.pi * k * u)) for k in range(d)]
        return np.stack(cols, -1)

    def basis(x):
        u = (x - lo) / (hi - lo)
        cols = [torch.exp(2j * pi * k * u) if case["complex"] else
                (torch.ones_like(u) if k == 0 else 2 ** 0.5 * torch.cos(pi * k * u)) for k in range(d)]
        return torch.stack(cols, -1)

    class Net(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.w = torch.nn.Parameter(table.clone())

        def forward(self, x):
            x = x[..., 0]
            return self.w[x] if disc else basis(x) @ self.w

    dom = DataDomain(False, len(table)) if disc else DataDomain(True, hi, lo)

    def elsewhere(f):
        """The same function gets used with another domain"""
        w = case["width"]
        if disc:
            other = DataDomain(False, max(1, len(table) - 1))
        else:
            other = DataDomain(True, *[(hi + w, lo), (hi, lo - w), (hi + w, lo + w), (hi, (lo + hi) / 2)][case["seed"] % 4])
        with sut("an embedding from the same function over another domain"):
            (TrainableEmbedding if isinstance(f, torch.nn.Module) else FixedEmbedding)(f, other).lamb_mat

    if case["trainable"]:
        fun = net = Net()
        if case["elsewhere"] == "before":
            elsewhere(fun)
        with sut("TrainableEmbedding"):
            emb = TrainableEmbedding(net, dom)
    else:
        fun = (lambda x: table[x]) if disc else (lambda x: basis(x) @ table)
        if case["elsewhere"] == "before":
            elsewhere(fun)
        with sut("FixedEmbedding"):
            emb = FixedEmbedding(fun, dom)
        check(emb.emb_dim == d, f"emb_dim {emb.emb_dim}, expected {d}")

    if case["elsewhere"] == "after":
        elsewhere(fun)

    def reference(t, points):
        if disc:
            return t.T @ t.conj(), None
        x = np.linspace(lo, hi, points)
        v = basis_np(x) @ t
        m = v[:, :, None] * v[:, None, :].conj()
        ref = np.trapezoid(m, x, axis=0)
        size = np.trapezoid(np.abs(m), x, axis=0)
        return ref, size

    for k in range(case["updates"] + 1 if case["trainable"] else 1):
        if k:
            with torch.no_grad():
                net.w.copy_(tens(table_of(case, k), dtype))
        t = to_np(net.w if case["trainable"] else table)
        t = t.astype(complex if case["complex"] else float)
        ref, size = reference(t, 1000)
        if disc:
            size = np.abs(t).T @ np.abs(t)
            tol = 64 * EPS[dtype] * (len(t) + 4) * size
        else:
            # Points far from zero are rounded, which moves the functions
            shift = EPS[dtype] * (abs(lo) + abs(hi)) / (hi - lo) * 40 * d
            coarse = reference(t, 500)[0]
            tol = (64 * EPS[dtype] * 30 + shift) * (size + size.max()) + 2 * np.abs(ref - coarse)
        if shift_too_large(tol, ref):
            raise Skip
        with sut("lamb_mat"):
            lamb = emb.lamb_mat
        check_lambda(lamb, ref, tol, f"lamb_mat, update {k}")
        if case["points"] and not disc:
            with sut("make_lambda"):
                res = emb.make_lambda(num_points=case["points"])
                lamb = emb.lamb_mat if res is None else res
            ref, size = reference(t, case["points"])
            check_lambda(lamb, ref, (64 * EPS[dtype] * 30 + shift) * (size + size.max()),
                         f"make_lambda with {case['points']} points")
            if not case["trainable"]:
                emb.make_lambda()
        ctx.label(f"order {to_np(emb.lamb_mat).ndim}")
        # The embedding itself acts elementwise
        shape = tuple(case["shape"])
        rng = rng_of(case["seed"], 8, k)
        if disc:
            a = rng.integers(0, len(t), size=shape)
            want, etol = t[a], 0.0
        else:
            a = to_np(torch.tensor(rng.uniform(lo, hi, size=shape), dtype=DT[dtype])).astype(float)
            want = basis_np(a) @ t
            etol = (64 * EPS[dtype] * d + shift) * (np.abs(t).sum(0) + np.abs(t).max()) * 2
        with sut("embedding"):
            out = emb(torch.tensor(a) if disc else torch.tensor(a, dtype=DT[dtype]))
        check(tuple(out.shape) == shape + (d,), f"shape {tuple(out.shape)} for values of shape {shape}")
        close(out, want, etol, "embedding")
    ctx.label("discrete" if disc else "continuous", case["kind"], "complex" if case["complex"] else "real",
              "trainable" if case["trainable"] else "fixed")
    return d >= 2


def shift_too_large(tol, ref):
    return tol.max() > 1e-2 * np.abs(ref).max()


FACETS = [
    Facet("values", values_case(), run_values, quick=4000),
    Facet("perceptrons", perceptrons(), run_mlp, quick=1000),
    Facet("matrices", matrices(), run_matrix, quick=3000),
]

"""Generators, model builders and NumPy references shared by the properties"""
import contextlib
import numpy as np
import torch
from hypothesis import strategies as st

from core import Violation, check, to_np

EPS = {"float64": 2.3e-16, "float32": 1.2e-7}
DT = {"float64": torch.float64, "float32": torch.float32}
CDT = {"float64": torch.complex128, "float32": torch.complex64}

seeds = st.integers(0, 2**31 - 1)
dtypes = st.sampled_from(["float64", "float64", "float64", "float32"])
styles = st.sampled_from(["int", "normal", "normal", "sparse", "uniform", "mixed"])


def wint(lo, hi, mid=None, weight=8):
    """Integers in [lo, hi], mostly in [lo, mid]"""
    if mid is None or mid >= hi:
        return st.integers(lo, hi)
    return st.integers(0, weight).flatmap(
        lambda k: st.integers(mid + 1, hi) if k == weight else st.integers(lo, mid)
    )


def draw_wint(draw, lo, hi, mid, weight=8):
    if draw(st.integers(0, weight)) == weight:
        return draw(st.integers(mid + 1, hi))
    return draw(st.integers(lo, mid))


def rng_of(*parts):
    return np.random.default_rng([int(p) for p in parts])


def arr(rng, shape, style="normal", scale=1.0, cplx=False):
    """Array contents of a given style"""
    shape = tuple(int(s) for s in shape)

    def real():
        if style == "int":
            return rng.integers(-2, 3, size=shape).astype(float)
        if style == "sparse":
            return rng.normal(size=shape) * (rng.random(shape) < 0.5)
        if style == "uniform":
            return rng.random(shape)
        if style == "mixed":  # entries of very different sizes
            return rng.normal(size=shape) * 10.0 ** rng.integers(-3, 2, size=shape)
        return rng.normal(size=shape)

    out = real()
    if cplx:
        out = out + 1j * real()
    return out * (1.0 if style == "int" else scale)


def tens(a, dtype):
    """Torch tensor of a NumPy array, in the precision named by dtype"""
    a = np.asarray(a)
    if a.dtype.kind == "c":
        return torch.tensor(a, dtype=CDT[dtype])
    return torch.tensor(a, dtype=DT[dtype])


def layout(t, kind):
    """The same values in a different memory layout"""
    if kind == "transposed" and t.ndim >= 2:
        return t.transpose(0, 1).contiguous().transpose(0, 1)
    if kind == "strided":
        big = torch.zeros((2 * t.shape[0],) + tuple(t.shape[1:]), dtype=t.dtype)
        big[::2] = t
        return big[::2]
    return t


layouts = st.sampled_from(["plain", "plain", "transposed", "strided"])


def fill(model, seed, style="normal", scale=1.0, names=None):
    """Give all parameters of a model generated values"""
    with torch.no_grad():
        for k, (name, p) in enumerate(model.named_parameters()):
            if names is not None and not names(name):
                continue
            if p.numel() == 0:
                continue
            d = p.shape[-2] if p.ndim > 2 else p.shape[-1]
            v = arr(rng_of(seed, k), p.shape, style, scale / max(1.0, d) ** 0.5, p.is_complex())
            p.copy_(torch.tensor(v, dtype=p.dtype))


# ---------------------------------------------------------------- MPS


def make_mps(cfg, **extra):
    """Build an MPS from the constructor arguments in cfg"""
    from torchmps import MPS

    keys = ("input_dim", "output_dim", "bond_dim", "feature_dim", "periodic_bc",
            "parallel_eval", "label_site", "path", "init_std", "use_bias",
            "adaptive_mode", "cutoff", "merge_threshold")
    kwargs = {k: cfg[k] for k in keys if k in cfg}
    kwargs.update(extra)
    return MPS(**kwargs)


def chain_of(mps, module_list=None):
    """Cores of an MPS in chain order, as NumPy arrays in the documented layout"""
    mods = mps.linear_region.module_list if module_list is None else module_list
    out = []
    for m in mods:
        kind = type(m).__name__
        t = to_np(m.tensor)
        t = t.astype(np.complex128 if t.dtype.kind == "c" else np.float64)
        if kind == "InputRegion":
            bias = None
            if m.use_bias:
                bias = to_np(m.bias_mat).astype(float)
                bias = bias.reshape(bias.shape[-2:])
            for core in t:
                out.append(("in", core, bias))
        elif kind == "InputSite":
            out.append(("in", t, None))
        elif kind == "OutputSite":
            out.append(("out", t, None))
        elif kind == "MergedInput":
            for core in t:
                out.append(("merged", core, None))
        elif kind == "MergedOutput":
            out.append(("mout", t, m.left_output))
        else:
            raise AssertionError(f"unknown module {kind}")
    return out


def ref_mps(chain, x, periodic, absval=False):
    """
    Explicit contraction of a chain with embedded inputs x of shape (batch, n, f)

    The hidden state keeps axes (batch, left bond, output, right bond).
    """
    x = np.asarray(x)
    f = np.abs if absval else (lambda a: a)
    x = f(x)
    b = x.shape[0]
    first = chain[0][1]
    d0 = first.shape[{"in": 0, "out": 1, "merged": 0, "mout": 1}[chain[0][0]]]
    if periodic:
        m = np.broadcast_to(np.eye(d0)[None, :, None, :], (b, d0, 1, d0))
    else:
        m = np.zeros((b, 1, 1, d0))
        m[..., 0] = 1
    k = 0
    for kind, t, aux in chain:
        t = f(t)
        if kind == "in":
            mat = np.einsum("lri,bi->blr", t, x[:, k])
            if aux is not None:
                mat = mat + f(aux)
            m = np.einsum("bLol,blr->bLor", m, mat)
            k += 1
        elif kind == "merged":
            mat = np.einsum("lrij,bi,bj->blr", t, x[:, k], x[:, k + 1])
            m = np.einsum("bLol,blr->bLor", m, mat)
            k += 2
        elif kind == "out":
            m = np.einsum("bLxl,olr->bLxor", m, t)
            m = m.reshape(m.shape[0], m.shape[1], m.shape[2] * m.shape[3], m.shape[-1])
        elif kind == "mout":
            core = np.einsum("olri,bi->bolr", t, x[:, k])
            m = np.einsum("bLxl,bolr->bLxor", m, core)
            m = m.reshape(m.shape[0], m.shape[1], m.shape[2] * m.shape[3], m.shape[-1])
            k += 1
    check_internal(k == x.shape[1], "chain does not match the input")
    if periodic:
        return np.einsum("bLoL->bo", m)
    return m[:, 0, :, 0]


def check_internal(cond, msg):
    if not cond:
        raise AssertionError(msg)


def chain_tol(chain, x, periodic, dtype, c=32.0):
    """Rounding error bound for the contraction of a chain"""
    dims = sum(sum(t.shape) for _, t, _ in chain)
    with np.errstate(all="ignore"):
        tol = c * EPS[dtype] * dims * ref_mps(chain, x, periodic, absval=True)
    return tol + (1e-300 if dtype == "float64" else 1e-36)


def embed_default(x):
    x = np.asarray(x, dtype=np.float64)
    return np.stack([x, 1 - x], axis=-1)


# ---------------------------------------------------------------- TI_MPS


def make_ti(cfg):
    from torchmps import TI_MPS

    keys = ("output_dim", "bond_dim", "feature_dim", "parallel_eval", "fixed_ends",
            "init_std", "use_bias", "fixed_bias")
    return TI_MPS(**{k: cfg[k] for k in keys if k in cfg})


def ref_ti(ti, x, absval=False):
    """Output for one embedded sequence x of shape (n, f)"""
    f = np.abs if absval else (lambda a: a)
    core = f(to_np(ti.core_tensor).astype(float))
    vec = f(to_np(ti.init_vector.vec).astype(float))
    mat = f(to_np(ti.terminal_mat.mat).astype(float))
    bias = None if ti.bias_mat is None else f(to_np(ti.bias_mat).astype(float))
    if bias is not None:
        bias = bias.reshape(bias.shape[-2:])
    for row in f(np.asarray(x, dtype=float)):
        m = np.einsum("lri,i->lr", core, row)
        if bias is not None:
            m = m + bias
        vec = vec @ m
    return vec @ mat


# ---------------------------------------------------------------- Born machines


def make_prob(cfg, **extra):
    from torchmps import ProbMPS, ProbUnifMPS

    keys = ("input_dim", "bond_dim", "complex_params", "use_bias", "init_method")
    kwargs = {k: cfg[k] for k in keys if k in cfg}
    kwargs.update(extra)
    if cfg["uniform"]:
        return ProbUnifMPS(**kwargs)
    return ProbMPS(seq_len=cfg["seq_len"], **kwargs)


def prob_params(model, n):
    """Core per site (with bias), left and right vectors as NumPy arrays"""
    core = to_np(model.core_tensors)
    core = core.astype(np.complex128)
    if model.use_bias:
        core = core + to_np(model.bias_mat)
    if core.ndim == 3:
        core = np.broadcast_to(core, (n,) + core.shape)
    left, right = to_np(model.edge_vecs).astype(np.complex128)
    return core, left, right


def ref_amps(cores, left, right, vecs, absval=False):
    """Amplitudes for embedded inputs vecs (batch, n, d), with d the input dimension"""
    f = np.abs if absval else (lambda a: a)
    cores, left, right, vecs = f(cores), f(left), f(right), f(np.asarray(vecs))
    h = np.broadcast_to(left, (vecs.shape[0], left.shape[0]))
    for k in range(vecs.shape[1]):
        h = np.einsum("bl,blr->br", h, np.tensordot(vecs[:, k], cores[k], axes=1))
    return h @ right


def scaled_amps(cores, left, right, vecs):
    """Amplitudes and sums of absolute values of their terms, both divided by exp(log), in extended range"""
    vecs = np.asarray(vecs)
    b = vecs.shape[0]
    h = np.broadcast_to(left, (b, left.shape[0]))
    t = np.abs(h)
    log = np.zeros(b)
    for k in range(vecs.shape[1]):
        h = np.einsum("bl,blr->br", h, np.tensordot(vecs[:, k], cores[k], axes=1))
        t = np.einsum("bl,blr->br", t, np.tensordot(np.abs(vecs[:, k]), np.abs(cores[k]), axes=1))
        s = t.max(axis=1) if t.size else np.ones(b)
        s = np.where(s > 0, s, 1.0)
        h, t, log = h / s[:, None], t / s[:, None], log + np.log(s)
    return h @ right, t @ np.abs(right), log


def ref_lognorm(cores, left, right, lamb=None):
    """Squared norm of the tensor weighted with lamb at each site, in extended range"""
    cores, left, right, log = unit_scale(cores, left, right)
    rho = np.outer(left, left.conj())
    d = cores.shape[1] if len(cores) else 0
    lam = np.eye(d) if lamb is None else np.asarray(lamb)
    for core in cores:
        # Pairwise: sum of lam[i, j] core[i].T rho conj(core[j])
        half = np.tensordot(lam, np.matmul(rho, core.conj()), axes=(1, 0))
        rho = np.matmul(core.swapaxes(1, 2), half).sum(axis=0)
        s = np.abs(rho).max()
        if s == 0:
            return -np.inf
        rho = rho / s
        log += np.log(s)
    val = np.einsum("r,rq,q->", right, rho, right.conj()).real
    with np.errstate(all="ignore"):
        return float(log + np.log(max(val, 0.0)))


def onehot_np(idx, d):
    return np.eye(d)[np.asarray(idx)]


def all_seqs(d, n):
    """All index sequences of length n over d symbols"""
    if n == 0:
        return np.zeros((1, 0), dtype=np.int64)
    grids = np.meshgrid(*([np.arange(d)] * n), indexing="ij")
    return np.stack([g.ravel() for g in grids], axis=-1).astype(np.int64)


# ---------------------------------------------------------------- strategies


@st.composite
def mps_cfg(draw, max_in=10, big_in=40, max_bond=6, big_bond=14, max_out=4, adaptive=None,
            feature=None):
    """Constructor arguments of an MPS, small mostly, with occasional large ones"""
    size = draw(st.integers(0, 15))
    n = draw(st.integers(1, max_in)) if size < 15 else draw(st.integers(max_in, big_in))
    bond = draw(st.integers(1, max_bond)) if size != 14 else draw(st.integers(max_bond, big_bond))
    cfg = {
        "input_dim": n,
        "output_dim": draw(wint(1, 4 * max_out, max_out, 14)),
        "bond_dim": bond,
        "feature_dim": feature or draw(st.sampled_from([2, 2, 2, 2, 3, 3, 1, 1, 4, 4, 8])),
        "periodic_bc": draw(st.booleans()),
        "parallel_eval": draw(st.booleans()),
    }
    where = draw(st.sampled_from(["any", "any", "default", "first", "last", "second", "penult"]))
    if where == "any":
        cfg["label_site"] = draw(st.integers(0, n))
    elif where != "default":
        cfg["label_site"] = {"first": 0, "last": n, "second": min(1, n), "penult": n - 1}[where]
    if adaptive is None:
        cfg["use_bias"] = draw(st.booleans())
    return cfg


def label_of(cfg):
    ls = cfg.get("label_site")
    return cfg["input_dim"] // 2 if ls is None else ls


def cfg_labels(cfg, ctx):
    n, ls = cfg["input_dim"], label_of(cfg)
    ctx.label("periodic" if cfg["periodic_bc"] else "open",
              "parallel" if cfg["parallel_eval"] else "serial",
              "bias" if cfg.get("use_bias") else "nobias",
              "label:" + ("only" if n == 0 else "first" if ls == 0 else "last" if ls == n else "inner"))
    if n == 1:
        ctx.label("one site")
    if cfg["bond_dim"] == 1:
        ctx.label("bond 1")
    if min(ls, n - ls) == 1:
        ctx.label("one-site region")


# ---------------------------------------------------------------- feature maps

MAPS = ["power", "trig", "affine", "module"]


class QuadraticMap(torch.nn.Module):
    def __init__(self, w, v):
        super().__init__()
        self.w = torch.nn.Parameter(w.clone())
        self.v = torch.nn.Parameter(v.clone())

    def forward(self, x):
        return self.w * x * x + self.v


def feature_map(kind, dim, seed, dtype):
    """(callable on scalars, NumPy version of it) with outputs of size dim"""
    rng = rng_of(seed, 77)
    a, b = arr(rng, (dim,), "normal"), arr(rng, (dim,), "normal")
    ta, tb = tens(a, dtype), tens(b, dtype)
    if kind == "power":
        return (lambda x: torch.stack([(x.to(DT[dtype])) ** k for k in range(dim)]),
                lambda x: np.stack([x ** k for k in range(dim)], -1))
    if kind == "trig":
        return (lambda x: torch.sin(ta * x + tb), lambda x: np.sin(a * x[..., None] + b))
    if kind == "affine":
        return (lambda x: ta * x + tb, lambda x: a * x[..., None] + b)

    return QuadraticMap(ta, tb), lambda x: a * x[..., None] ** 2 + b


# ---------------------------------------------------------------- log probabilities


def lognorm_tol(cores, left, right, lamb, dtype, c=64.0):
    """(reference log norm, bound on its rounding error)"""
    ln = ref_lognorm(cores, left, right, lamb)
    if not np.isfinite(ln):
        return ln, np.inf
    labs = None if lamb is None else np.abs(lamb)
    top = ref_lognorm(np.abs(cores), np.abs(left), np.abs(right), labs)
    n = len(cores)
    d = sum(cores.shape[1:]) if n else len(left)
    tol = c * EPS[dtype] * (n + 2) * d * np.exp(min(top - ln, 600)) + (c + 2 * n) * EPS[dtype] * abs(ln)
    return ln, tol


def check_logp(logp, cores, left, right, vecs, dtype, what, lamb=None, c=64.0):
    """Log probabilities against the Born rule; returns the reference amplitudes"""
    from core import Skip, close

    n = len(cores)
    d = sum(cores.shape[1:]) if n else len(left)
    ln, tol_ln = lognorm_tol(cores, left, right, lamb, dtype, c)
    if not tol_ln < 1e-4:
        raise Skip
    # Probabilities do not depend on the scale of the parameters: keep the amplitudes representable
    cores, left, right, shift = unit_scale(cores, left, right)
    amp, top, log = scaled_amps(cores, left, right, vecs)
    lp = to_np(logp).astype(float)
    check(lp.shape == (len(vecs),), f"{what}: shape {lp.shape} for a batch of {len(vecs)}")
    check(not np.isnan(lp).any(), f"{what}: NaN")
    check(not (lp == np.inf).any(), f"{what}: infinite")
    with np.errstate(all="ignore"):
        got = np.exp(0.5 * (lp + (ln - shift)) - log)
        mag = np.where(np.isfinite(lp), np.abs(lp), 0)
    mod = np.abs(amp)
    tol = c * EPS[dtype] * (n + 2) * d * top
    tol = tol + mod * (tol_ln + c * EPS[dtype] * (mag + abs(ln) + n))
    close(got, mod, tol, what + " (as modulus of the amplitude)")
    return amp


def unit_scale(cores, left, right):
    """Parameters with largest element one, and the change this makes to the log norm"""
    shift, out = 0.0, []
    for t in [*cores, left, right]:
        s = float(np.abs(t).max()) or 1.0
        shift += 2 * np.log(s)
        out.append(t / s)
    cores = np.array(out[:-2]) if len(cores) else cores
    return cores, out[-2], out[-1], shift


def probs_domain_ok(cores, left, right, dtype, lamb=None):
    """Is the model's norm representable and well-conditioned?"""
    ln, tol = lognorm_tol(cores, left, right, lamb, dtype)
    return bool(np.isfinite(ln) and tol < 1e-5)


@st.composite
def prob_cfg(draw, max_seq=6, max_bond=5, max_in=4, tail=False):
    cfg = {
        "uniform": draw(st.booleans()),
        "seq_len": draw(st.integers(1, max_seq)),
        "input_dim": draw(st.integers(1, max_in)),
        "bond_dim": draw(st.integers(1, max_bond)),
        "complex_params": draw(st.booleans()),
        "use_bias": draw(st.booleans()),
        "init_method": draw(st.sampled_from(["near_eye", "normal"])),
    }
    if tail:  # now and then, one of the sizes is large
        big = draw(st.integers(0, 11))
        name, top = {9: ("seq_len", 4 * max_seq), 10: ("input_dim", 3 * max_in), 11: ("bond_dim", 4 * max_bond)}.get(big, (None, 0))
        if name:
            cfg[name] = draw(st.integers(top // 3, top))
    return cfg


def prob_labels(cfg, ctx):
    ctx.label("uniform" if cfg["uniform"] else "fixed length",
              "complex" if cfg["complex_params"] else "real",
              "bias" if cfg["use_bias"] else "no bias")


STRATEGIES = {
    "default": {}, "slim": {"slim_eval": True}, "parallel": {"parallel_eval": True},
    "both": {"slim_eval": True, "parallel_eval": True},
}


def thin_ok(dtype, style, n):
    return dtype == "float64" or (style in ("normal", "int", "uniform") and n <= 8)


def thin_edges(bond, dtype, rng):
    """Scales of the elements of two boundary vectors which have little overlap"""
    top = (9 if dtype == "float64" else 5) * rng.random()
    j = np.arange(bond) / max(1, bond - 1)
    return np.stack([10.0 ** (-top * j), 10.0 ** (-top * (1 - j))])[:: rng.choice([1, -1])].copy()


# ---------------------------------------------------------------- adaptive MPS


@st.composite
def adaptive_cfg(draw, max_in=8, max_bond=4, big=False):
    n = draw(st.integers(1, max_in))
    if big and draw(st.integers(0, 3)) == 0:
        n = draw(st.integers(max_in, 16))
    cfg = {
        "input_dim": n, "output_dim": draw(wint(1, 10, 4, 14)), "bond_dim": draw(wint(1, 3 * max_bond, max_bond, 14)),
        "feature_dim": draw(st.sampled_from([2, 2, 2, 2, 2, 2, 1, 1, 3, 3, 5])),
        "periodic_bc": draw(st.booleans()), "parallel_eval": draw(st.booleans()),
        "adaptive_mode": True,
    }
    if draw(st.integers(0, 5)):
        cfg["label_site"] = draw(st.integers(0, n))
    return cfg


@st.composite
def adaptive_extents(draw):
    """Adaptive models where one or two sizes are far larger"""
    big = draw(st.lists(st.sampled_from(["input", "bond", "feature", "output", "threshold"]), min_size=1, max_size=2))
    one = len(set(big)) == 1
    size = {k: draw(st.integers(*(v if k in big else w))) for k, v, w in (
        ("input", (15, 130 if one else 40), (1, 4)), ("bond", (8, 34 if one else 14), (1, 4)),
        ("feature", (5, 40 if one else 9), (1, 3)), ("output", (9, 45 if one else 14), (1, 3)),
        ("threshold", (40, 6000 if one else 400), (1, 6)))}
    n = size["input"]
    return {"input_dim": n, "output_dim": size["output"], "bond_dim": size["bond"], "feature_dim": size["feature"],
            "periodic_bc": draw(st.booleans()), "parallel_eval": draw(st.booleans()), "adaptive_mode": True,
            "merge_threshold": size["threshold"],
            "label_site": draw(st.sampled_from([0, 1, n // 2, n - 1, n, draw(st.integers(0, n))]))}


def merged_plan(chain):
    """[(split bond, matrix across the split)] for every merged core of a chain"""
    out, k = [], 0
    for kind, t, left_output in chain:
        if kind == "merged":
            l, r, i, j = t.shape
            out.append((k + 1, t.transpose(0, 2, 1, 3).reshape(l * i, r * j)))
            k += 2
        elif kind == "mout":
            o, l, r, i = t.shape
            if left_output:
                out.append((k + 1, t.reshape(o * l, r * i)))
            else:
                out.append((k + 1, t.transpose(1, 3, 0, 2).reshape(l * i, o * r)))
            k += 2
        else:
            k += 1
    return out, k


def expected_splits(n, offset):
    """Bonds which are inside merged pairs of cores, for n inputs and one output core"""
    return [k + 1 for k in range(offset, n, 2)]


def ambiguous(svs, cutoff, dtype):
    top = svs.max() if len(svs) else 0
    return np.any(np.abs(svs - cutoff) <= 1e3 * EPS[dtype] * max(top, 1e-30))


def truncated_chain(chain, cutoff, max_d):
    """Chain with every merged core replaced by its truncated approximation"""
    out = []
    for kind, t, aux in chain:
        if kind in ("merged", "mout"):
            plan, _ = merged_plan([(kind, t, aux)])
            mat = plan[0][1]
            u, s, vt = np.linalg.svd(mat, full_matrices=False)
            r = min(int((s >= cutoff).sum()), max_d)
            mat = (u[:, :r] * s[:r]) @ vt[:r]
            if kind == "merged":
                l, rr, i, j = t.shape
                t = mat.reshape(l, i, rr, j).transpose(0, 2, 1, 3)
            elif aux:
                t = mat.reshape(t.shape)
            else:
                o, l, rr, i = t.shape
                t = mat.reshape(l, i, o, rr).transpose(2, 0, 3, 1)
        out.append((kind, t, aux))
    return out


# ---------------------------------------------------------------- earlier and unusual usage

USES = ["freeze", "freeze some", "deepcopy", "reload", "warm", "warm", "warm load", "warm data", "warm again", "buffer",
        "backward", "data pointer", "zero_grad", "eval", "train", "default dtype"]


@st.composite
def some_uses(draw):
    ops = draw(st.lists(st.sampled_from(USES), min_size=1, max_size=3))
    if draw(st.booleans()):
        ops.insert(0, "eval")
    mode = draw(st.sampled_from([None, None, "no_grad", "no_grad", "inference"]))
    return ops + [mode] if mode else ops


def uses():
    """Things which users do to a model and which must not change what it computes, mostly earlier than evaluating it"""
    return st.one_of(st.just([]), some_uses(), some_uses())


def mode_of(ops):
    """Context in which the models are evaluated"""
    if "inference" in ops:
        return torch.inference_mode()
    return torch.no_grad() if "no_grad" in ops else contextlib.nullcontext()


def use(model, ops, seed, call=None, x=None):
    """
    Go through the ops, return the model (or its copy). Parameters have the same values afterwards as before, x (a
    tensor or list of tensors) too; call(model, x) evaluates.
    """
    import copy

    from core import sut

    xs = [] if x is None else list(x) if isinstance(x, (list, tuple)) else [x]

    def evaluate():
        with mode_of(ops), sut(f"earlier evaluation ({'/'.join(ops)})"):
            return call(model, x)

    for k, op in enumerate(ops):
        rng = rng_of(seed, 31, k)
        params = dict(model.named_parameters())
        if op in ("eval", "train"):
            model.train(op == "train")
        elif op == "freeze":
            for p in model.parameters():
                p.requires_grad_(False)
        elif op == "freeze some":
            for p in model.parameters():
                p.requires_grad_(bool(rng.integers(0, 2)))
        elif op == "deepcopy":
            with sut("copy.deepcopy"):
                model = copy.deepcopy(model)
        elif op == "reload":
            sd = {n: v.detach().clone() for n, v in model.state_dict().items()}
            with sut("load_state_dict"):
                model.load_state_dict(sd)
        elif op == "zero_grad":
            model.zero_grad()
        elif op == "data pointer":
            for p in model.parameters():
                p.data = p.data.clone()
        elif op == "default dtype":
            # As for a model converted with double()
            torch.set_default_dtype(torch.float32)
        elif call is None:
            continue
        elif op.startswith("warm"):
            if op == "warm again":
                evaluate()
                continue
            sd = {n: v.detach().clone() for n, v in model.state_dict().items()}
            # All parameters or just one of them change in between
            pick = [n for n, p in params.items() if p.numel()]
            if pick and rng.integers(0, 2):
                pick = [pick[rng.integers(0, len(pick))]]
            keep = {n: params[n].detach().clone() for n in pick}
            with torch.no_grad():
                for n in pick:
                    p = params[n]
                    p.add_(torch.tensor(rng.normal(size=tuple(p.shape)), dtype=p.dtype))
            evaluate()
            if op == "warm load":
                with sut("load_state_dict"):
                    model.load_state_dict(sd)
            else:
                with torch.no_grad():
                    for n, p in model.named_parameters():
                        if n not in keep:
                            continue
                        elif op == "warm data":
                            p.data = keep[n]
                        else:
                            p.copy_(keep[n])
        elif op == "buffer":
            keep = [t.clone() for t in xs]
            for t in xs:
                if t.numel():
                    t.copy_(t.flip(0) if t.ndim == 1 or t.shape[0] > 1 else t.flip(1))
                    if t.is_floating_point():
                        t.mul_(0.5)
            evaluate()
            for t, v in zip(xs, keep):
                t.copy_(v)
        elif op == "backward":
            if any(p.requires_grad for p in model.parameters()):
                with torch.enable_grad(), sut(f"earlier backward pass ({'/'.join(ops)})"):
                    y = call(model, x)
                    if y.requires_grad:
                        y.sum().backward()
    return model

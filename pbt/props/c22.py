from common import *
from core import *

RULE = (
    "A case is a core tensor (uniform or one per site, real or complex, of generated sizes, styles and scales), "
    "boundary vectors and, depending on the function, a batch of index or vector inputs, or a positive semidefinite "
    "weight (none, scalar, diagonal or full matrix). Non-trivial with at least one site, a bond dimension and an "
    "input dimension of at least 2 and a result other than zero."
)

ASSUMPTIONS = [
    "norms which are zero, or cancel to below 1e-5 of their terms, are outside the domain (except that the norm of "
    "the zero tensor has to be minus infinity)",
]


@st.composite
def tensors(draw, max_len=7, long=60):
    n = draw(st.sampled_from([0, 1, 1, *range(1, max_len), *range(1, max_len), *range(2, max_len + 1), long // 2, long]))
    d = draw(st.sampled_from([1, 2, 2, 2, 3, 3, 4, 5, 9] * 3 + [33, 70, 150, 300]))
    bond = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5, 7, 12] * 4 + [40, 70, 130]))
    if d > 9:
        bond, n = min(bond, 5), min(n, 8)
    elif bond > 12:
        d, n = min(d, 3), min(n, 4)
    return {
        "n": n, "d": d, "bond": bond, "uniform": draw(st.booleans()),
        "complex": draw(st.booleans()), "style": draw(styles), "scale": draw(st.sampled_from([1.0, 1.0, 1.0, 1e-6, 1e5])),
        "dtype": draw(dtypes), "seed": draw(seeds), "layout": draw(layouts), "grad": draw(st.booleans()),
        "special": draw(st.sampled_from([None] * 16 + ["zero core", "zero slice", "zero edge", "nilpotent", "degenerate",
                                                       "degenerate", "zero slice", "thin", "thin", "thin"])),
        "edge": draw(st.sampled_from([1.0, 1.0, 1e-5, 1e6])),
    }


def contents(case):
    """Core tensor (n, d, D, D) or (d, D, D), and boundary vectors"""
    rng, n, d, bond = rng_of(case["seed"]), case["n"], case["d"], case["bond"]
    shape = (d, bond, bond) if case["uniform"] else (n, d, bond, bond)
    core = arr(rng, shape, case["style"], case["scale"], case["complex"])
    edge = arr(rng, (2, bond), case["style"] if case["style"] != "mixed" else "normal", case["edge"], case["complex"])
    sp = case["special"]
    sites = core.reshape((-1, d, bond, bond))
    if sp and len(sites):
        k, i, j = rng.integers(0, len(sites)), rng.integers(0, d), rng.integers(0, bond)
        if sp == "zero core":
            sites[k] = 0
        elif sp == "zero slice":
            sites[k, i] = 0
        elif sp == "zero edge":
            edge[rng.integers(0, 2)] = 0
        elif sp == "thin":
            if thin_ok(case["dtype"], case["style"], n):
                sites *= np.eye(bond)
                edge *= thin_edges(bond, case["dtype"], rng)
        elif sp == "nilpotent":
            sites[:] = np.triu(sites, 1)
        else:
            sites[:, :, :, j] = 0
    return core, edge


def inputs_of(case, kind, batch, core):
    """(tensor, embedded version of shape (batch, n, d))"""
    rng, n, d = rng_of(case["seed"], 9), case["n"], case["d"]
    if kind in ("index", "repeated"):
        x = rng.integers(0, d, size=(batch, n))
        if kind == "repeated" and batch:
            x[:] = x[:1]
        t = torch.tensor(x, dtype=torch.int64)
        emb = np.eye(d)[x] if n and batch else np.zeros((batch, n, d))
    else:
        if kind == "onehot":
            emb = np.eye(d)[rng.integers(0, d, size=(batch, n))].reshape(batch, n, d)
        else:
            emb = arr(rng, (batch, n, d), "sparse" if kind == "sparse" else "normal", 1.0,
                      kind == "complex" and case["complex"])
        t = tens(emb, case["dtype"])
        emb = to_np(t)
    if batch:
        t = layout(t, case["layout"])
    return t, emb


KINDS = ["index", "index", "repeated", "onehot", "vector", "sparse", "complex"]


def setup(case):
    torch.set_default_dtype(DT[case["dtype"]])
    core, edge = contents(case)
    tc, te = tens(core, case["dtype"]), tens(edge, case["dtype"])
    if not case["uniform"] and case["n"] and case["layout"] != "plain":
        tc = layout(tc, case["layout"])
    if case["grad"]:
        tc.requires_grad_()
        te.requires_grad_()
    core, edge = to_np(tc), to_np(te)
    wide = np.complex128 if case["complex"] else np.float64
    core, edge = core.astype(wide), edge.astype(wide)
    cores = np.broadcast_to(core, (case["n"],) + core.shape) if case["uniform"] else core
    return tc, te, cores, edge


def labels(case, ctx, *more):
    ctx.label("uniform" if case["uniform"] else "site-dependent", "complex" if case["complex"] else "real",
              f"length {min(case['n'], 3)}{'+' if case['n'] > 3 else ''}", f"special {case['special']}", *more)


# ------------------------------------------------------------- slices


def with_inputs():
    return st.fixed_dictionaries({"t": tensors(), "kind": st.sampled_from(KINDS), "batch": wint(0, 20, 6)}).map(
        lambda c: dict(c["t"], kind=c["kind"], batch=c["batch"]))


def run_slices(case, ctx):
    from torchmps.mps_base import get_mat_slices

    tc, _, cores, _ = setup(case)
    n, b, bond = case["n"], case["batch"], case["bond"]
    t, emb = inputs_of(case, case["kind"], b, cores)
    keep_t, keep_c = t.clone(), tc.detach().clone()
    with sut("get_mat_slices"):
        out = get_mat_slices(t, tc)
    want = np.einsum("bti,tide->btde", emb, cores)
    if case["kind"] in ("index", "repeated"):
        tol = 0.0
    else:
        tol = 16 * EPS[case["dtype"]] * case["d"] * np.einsum("bti,tide->btde", np.abs(emb), np.abs(cores))
        tol = tol + (1e-300 if case["dtype"] == "float64" else 1e-36)
    check(tuple(out.shape) == (b, n, bond, bond), f"slices of shape {tuple(out.shape)}, expected {(b, n, bond, bond)}")
    close(out, want, tol, "matrix slices")
    check(out.dtype == tc.dtype, f"slices of dtype {out.dtype} from a core of dtype {tc.dtype}")
    same(t, keep_t, "inputs")
    same(tc, keep_c, "core tensor")
    if case["grad"] and b and n:
        # The derivative of a weighted sum of slices is the weight sorted by input
        w = arr(rng_of(case["seed"], 4), out.shape, "int")
        with sut("differentiating the slices"):
            (out * tens(w, case["dtype"])).sum().abs().backward()
        s = (want * w).sum()
        phase = s / abs(s) if s != 0 else 0
        g = np.einsum("bti,btde->tide", emb.conj(), w) * phase
        top = np.einsum("bti,btde->tide", np.abs(emb), np.abs(w))
        g, top = (g.sum(0), top.sum(0)) if case["uniform"] else (g, top)
        mag = (np.einsum("bti,tide->btde", np.abs(emb), np.abs(cores)) * np.abs(w)).sum()
        rel = 64 * EPS[case["dtype"]] * w.size * (1 + mag / max(abs(s), 1e-300))
        if rel < 1e-4 and tc.grad is not None:
            close(tc.grad, g, rel * top + 1e-30, "derivative of the slices")
            ctx.label("differentiated")
    labels(case, ctx, case["kind"])
    return bool(n and b and bond > 1 and case["d"] > 1 and np.any(want))


# ------------------------------------------------------------- slim evaluation


def run_slim(case, ctx):
    from torchmps.mps_base import contract_matseq, get_mat_slices, slim_eval_fun

    tc, te, cores, edge = setup(case)
    n, b, dtype = case["n"], case["batch"], case["dtype"]
    t, emb = inputs_of(case, case["kind"], b, cores)
    keep = t.clone(), tc.detach().clone(), te.detach().clone()
    with sut("slim_eval_fun"):
        res, scale = slim_eval_fun(t, tc, te)
    check(tuple(res.shape) == (b,), f"contraction of shape {tuple(res.shape)} for a batch of {b}")
    check(tuple(scale.shape) == (b,), f"log_scale of shape {tuple(scale.shape)} for a batch of {b}")
    check(not scale.is_complex(), "complex log_scale")
    check(res.dtype == tc.dtype, f"contraction of dtype {res.dtype} from a core of dtype {tc.dtype}")
    same(t, keep[0], "inputs")
    same(tc, keep[1], "core tensor")
    same(te, keep[2], "boundary vectors")
    # Results are compared as mantissa times exponential, since they may be huge or tiny
    c, s = to_np(res).astype(complex), to_np(scale).astype(float)
    check(np.isfinite(c).all(), "contraction is not finite")
    check(np.isfinite(s).all(), "log_scale is not finite")
    man, log, top, ltop = scaled_amps(cores, edge, emb)
    tol_rel = 32 * EPS[dtype] * (n + 2) * (case["d"] + 2 * case["bond"])
    with np.errstate(all="ignore"):
        shift = s - log
        got = c * np.exp(shift)
        bound = tol_rel * top * np.exp(ltop - log) + np.abs(man) * 8 * EPS[dtype] * (np.abs(s) * 2 + n)
        bound = bound + 1e-300 * np.exp(np.clip(-log, -700, 600))
    ok = np.isfinite(bound)
    close(got[ok], man[ok], bound[ok], "tensor elements from slim_eval_fun (divided by their scales)")
    close(c[top == 0], np.zeros(int((top == 0).sum())), 0.0, "vanishing tensor elements")
    if n and dtype == "float64":
        # The same from the matrix slices
        with sut("contract_matseq on the slices"):
            other, oscale = contract_matseq(get_mat_slices(t, tc), te[0], te[1], log_format=True)
        with np.errstate(all="ignore"):
            got2 = to_np(other) * np.exp(to_np(oscale) - log)
        close(got2[ok], man[ok], 4 * bound[ok], "tensor elements from contracted slices (divided by their scales)")
    labels(case, ctx, case["kind"])
    return bool(n and b and case["bond"] > 1 and case["d"] > 1 and np.any(man))


def scaled_amps(cores, edge, vecs):
    """Amplitudes as mantissa and log scale, and the same for absolute values"""
    b = len(vecs)
    h = np.broadcast_to(edge[0], (b, edge.shape[1])).astype(complex)
    a = np.abs(h)
    lh, la = np.zeros(b), np.zeros(b)
    for k in range(len(cores)):
        m = np.einsum("bi,ilr->blr", vecs[:, k], cores[k])
        p = np.einsum("bi,ilr->blr", np.abs(vecs[:, k]), np.abs(cores[k]))
        h = np.einsum("bl,blr->br", h, m)
        a = np.einsum("bl,blr->br", a, p)
        for v, log in ((h, lh), (a, la)):
            s = np.abs(v).max(-1) if b else np.zeros(0)
            s = np.where(s == 0, 1.0, s)
            v /= s[:, None]
            log += np.log(s)
    return h @ edge[1], lh, a @ np.abs(edge[1]), la


# ------------------------------------------------------------- norms


@st.composite
def norm_cases(draw):
    case = draw(tensors(max_len=6, long=50))
    case["lamb"] = draw(st.sampled_from(["none", "scalar", "diag", "diag", "wide", "full", "full", "full", "lowrank", "eye"]))
    case["lamb_complex"] = draw(st.booleans())
    case["lamb_scale"] = draw(st.sampled_from([1.0] * 5 + [1e-7, 1e6] * 2 + [0.0]))
    case["pass_length"] = draw(st.booleans())
    return case


def wide_weights(case):
    step = 4 if case["dtype"] == "float64" else 2
    return 10.0 ** (-step * (np.arange(case["d"]) % 4)) * (0.5 + rng_of(case["seed"], 14).random(case["d"]))


def spread_out(case, tc):
    """Cores large where the weights are small"""
    if case.get("lamb") == "wide":
        with torch.no_grad():
            tc.mul_(torch.tensor(wide_weights(case) ** -0.5, dtype=DT[case["dtype"]])[:, None, None])


def lamb_of(case):
    """(tensor or None, full matrix as an array)"""
    rng, d, kind = rng_of(case["seed"], 2), case["d"], case["lamb"]
    cplx = case["complex"] and case["lamb_complex"]
    dtype, scale = case["dtype"], case["lamb_scale"]
    if kind == "none":
        return None, np.eye(d)
    if kind == "scalar":
        t = tens(np.array(rng.random() * scale + 0.1 * scale), dtype)
        return t, float(t) * np.eye(d)
    if kind == "diag":
        v = rng.random(d) * scale
        v[rng.random(d) < 0.2] = 0
        t = tens(v, dtype)
        return t, np.diag(to_np(t).astype(float))
    if kind == "wide":  # what has little weight may have large elements (see spread_out)
        t = tens(wide_weights(case) * scale, dtype)
        return t, np.diag(to_np(t).astype(float))
    if kind == "eye":
        m = np.eye(d) * scale
    else:
        r = d if kind == "full" else max(1, d // 2)
        a = arr(rng, (d, r), "normal", 1.0, cplx)
        m = a @ a.conj().T * scale
    if cplx:
        m = m.astype(complex)
    t = tens(m, dtype)
    return t, to_np(t).astype(complex if cplx else float)


def run_norm(case, ctx):
    from torchmps.mps_base import get_log_norm

    tc, te, cores, edge = setup(case)
    n, d, dtype = case["n"], case["d"], case["dtype"]
    if case["lamb"] == "wide":
        spread_out(case, tc)
        core = to_np(tc).astype(cores.dtype)
        cores = np.broadcast_to(core, (n,) + core.shape) if case["uniform"] else core
    tl, lam = lamb_of(case)
    keep = tc.detach().clone(), te.detach().clone(), None if tl is None else tl.clone()
    kw = {} if tl is None else {"lamb_mat": tl}
    if case["uniform"] or case["pass_length"]:
        kw["length"] = n
    ln, tol = lognorm_tol(cores, edge[0], edge[1], lam, dtype)
    if ln == -np.inf:
        # A tensor of zeros, unless the reference lost it by cancellation or underflow
        top = ref_lognorm(np.abs(cores), np.abs(edge[0]), np.abs(edge[1]), np.abs(lam))
        if top > -np.inf:
            raise Skip
        with torch.no_grad(), sut("get_log_norm of a tensor of zeros"):
            out = get_log_norm(tc, te, **kw)
        check(tuple(out.shape) == () and float(out) == -np.inf, f"log norm of a tensor of zeros: {out}")
        labels(case, ctx, "zero tensor", f"lambda {case['lamb']}")
        return False
    if not tol < 1e-3:
        raise Skip
    if dtype == "float32":
        # The boundary vectors and their squares have to be representable
        if max(np.abs(edge).max() ** 2 * case["bond"], np.abs(cores).max(initial=0) ** 2 * case["bond"] * d) > 1e30:
            raise Skip
        small = [np.abs(v).max(initial=0) ** 2 for v in (edge[0], edge[1], *cores)]
        if min(small) < 1e-25 or np.abs(lam).max() * min(small) ** 1.5 < 1e-30:
            raise Skip
    with sut("get_log_norm"):
        out = get_log_norm(tc, te, **kw)
    check(tuple(out.shape) == (), f"log norm of shape {tuple(out.shape)}")
    check(not out.is_complex(), "complex log norm")
    close(out, ln, tol, f"log norm with {case['lamb']} weights")
    same(tc, keep[0], "core tensor")
    same(te, keep[1], "boundary vectors")
    if tl is not None:
        same(tl, keep[2], "weight matrix")
    if n <= 12 and d ** n <= 300:
        # Element by element
        amp = ref_amps(cores, edge[0], edge[1], np.eye(d)[all_seqs(d, n)]).reshape((d,) * n)
        other = amp
        for k in range(n):
            other = np.moveaxis(np.tensordot(lam, other, axes=(0, k)), 0, k)
        total = (other * amp.conj()).sum().real
        if total > 0:
            close(out, np.log(total), tol + 1e-10, "log norm, from all tensor elements")
        ctx.label("explicit")
    # Equivalent descriptions of the weight
    alt = {"none": tens(np.ones(d), dtype), "scalar": None if tl is None else tl * torch.ones(d),
           "diag": None if tl is None else torch.diag(tl) if tl.ndim == 1 else None}.get("diag" if case["lamb"] == "wide" else case["lamb"])
    if alt is not None:
        with sut("get_log_norm with an equivalent weight"):
            out2 = get_log_norm(tc, te, length=n, lamb_mat=alt)
        close(out2, ln, tol, "log norm with an equivalent weight")
    labels(case, ctx, f"lambda {case['lamb']}")
    if case["lamb"] in ("full", "lowrank") and case["lamb_complex"] and case["complex"]:
        ctx.label("complex weights")
    return bool(n and d > 1 and case["bond"] > 1)


FACETS = [
    Facet("slices", with_inputs(), run_slices, quick=3000),
    Facet("slim", with_inputs(), run_slim, quick=3000),
    Facet("norms", norm_cases(), run_norm, quick=4000),
]

from common import *
from core import *

RULE = (
    "A case is a tensor or list of matrices with generated bond dimensions (equal or not), batch shapes that broadcast, "
    "real or complex values, optional boundary vectors and flags, in a generated memory layout; the result is compared "
    "with an explicit product. Non-trivial with at least 2 factors and a bond dimension above 1."
)


@st.composite
def batch_shapes(draw, count):
    full = draw(st.lists(st.integers(1, 3), min_size=0, max_size=3))
    if draw(st.integers(0, 15)) == 0 and full:
        full[draw(st.integers(0, len(full) - 1))] = 0
    out = []
    for _ in range(count):
        how = draw(st.sampled_from(["full", "full", "none", "partial"]))
        if how == "none":
            out.append([])
        elif how == "full":
            out.append(list(full))
        else:
            k = draw(st.integers(0, len(full)))
            out.append([1 if draw(st.booleans()) else n for n in full[k:]])
    return out


@st.composite
def cases(draw, big=False):
    length = draw(wint(0, 60 if big else 9, 5))
    form = draw(st.sampled_from(["tensor", "list", "list", "tuple"]))
    vecs = draw(st.sampled_from(["none", "left", "right", "both"]))
    top = 12 if big else 5
    if form == "tensor" or draw(st.booleans()):
        d = draw(st.integers(1, top))
        dims = [d] * (length + 1)
        if length == 1 and draw(st.booleans()):
            dims = [d, draw(st.integers(1, top))]
    else:
        dims = draw(st.lists(st.integers(1, top), min_size=length + 1, max_size=length + 1))
    shapes = draw(batch_shapes(3 if form == "tensor" else length + 2))
    return {
        "length": length, "form": form, "vecs": vecs, "dims": dims, "shapes": shapes,
        "parallel": draw(st.booleans()), "log": draw(st.booleans()),
        "cplx": draw(st.sampled_from(["none", "none", "all"])),
        "style": draw(styles), "seed": draw(seeds), "dtype": draw(dtypes),
        "default": draw(st.sampled_from(["same", "float32"])),
        "scale": draw(st.sampled_from([1.0, 1.0, 1e-6, 1e6])), "layout": draw(layouts), "grad": draw(st.booleans()),
    }


@st.composite
def extents(draw):
    """One or two sizes are far larger, values are such that long products do not cancel"""
    case = draw(cases())
    big = draw(st.lists(st.sampled_from(["length", "bond", "batch", "axes"]), min_size=1, max_size=2))
    one = len(set(big)) == 1
    n = draw(st.integers(40, 400 if one else 130)) if "length" in big else draw(st.integers(1, 5))
    top = (60 if one else 20) if "bond" in big else 3
    low = 6 if "bond" in big else 1
    if case["form"] == "tensor" or draw(st.booleans()):
        dims = [draw(st.integers(low, top))] * (n + 1)
    else:
        rng = rng_of(case["seed"], 12)
        dims = [int(v) for v in rng.integers(low, top + 1, size=n + 1)]
    full = draw(st.lists(st.integers(1, 3), max_size=2))
    if "axes" in big:
        full = draw(st.lists(st.integers(1, 3), min_size=3, max_size=7))
    if "batch" in big:
        full = [draw(st.integers(40, 1500 if one else 200))]
    pick = draw(st.lists(st.sampled_from(["full", "full", "none", "ones"]), min_size=1, max_size=6))
    how = {"full": full, "none": [], "ones": [1] * len(full)}
    case["shapes"] = [how[pick[k % len(pick)]] for k in range(3 if case["form"] == "tensor" else n + 2)]
    case.update(length=n, dims=dims, style="chain", scale=1.0, big=sorted(set(big)))
    return case


def run(case, ctx):
    from torchmps.mps_base import contract_matseq

    if case["style"] == "chain":  # matrices near the identity, products of any length stay moderate
        def arr(rng, shape, style, scale, cplx):
            v = rng.normal(size=shape) + (1j * rng.normal(size=shape) if cplx else 0)
            if style != "chain" or len(shape) < 2:
                return v
            return np.eye(*shape[-2:]) + 0.1 / max(shape[-2:]) * v
    else:
        from common import arr

    dtype, n, dims = case["dtype"], case["length"], case["dims"]
    torch.set_default_dtype(torch.float32 if case["default"] == "float32" else DT[dtype])
    rng = rng_of(case["seed"], 1)
    cplx = case["cplx"] == "all"
    shapes = case["shapes"]
    scale = case["scale"] if dtype == "float64" else {1e-6: 1e-2, 1e6: 1e2}.get(case["scale"], 1.0)
    if case["form"] == "tensor":
        a = arr(rng, shapes[2] + [n, dims[0], dims[-1]], case["style"], scale, cplx)
        mats = layout(tens(a, dtype), case["layout"]) if a.ndim and a.shape[0] else tens(a, dtype)
        np_mats = [to_np(mats)[..., k, :, :] for k in range(n)]
        mat_batch = [shapes[2]]
    else:
        ts = [tens(arr(rng, shapes[k + 2] + [dims[k], dims[k + 1]], case["style"], scale, cplx), dtype) for k in range(n)]
        np_mats = [to_np(t) for t in ts]
        mats = ts if case["form"] == "list" else tuple(ts)
        mat_batch = [shapes[k + 2] for k in range(n)]
    left = right = None
    if case["vecs"] in ("left", "both"):
        left = tens(arr(rng, shapes[0] + [dims[0]], case["style"] if case["style"] != "chain" else "normal", 1.0, cplx), dtype)
        mat_batch.append(shapes[0])
    if case["vecs"] in ("right", "both"):
        right = tens(arr(rng, shapes[1] + [dims[-1]], case["style"] if case["style"] != "chain" else "normal", 1.0, cplx), dtype)
        mat_batch.append(shapes[1])
    given = ([mats] if case["form"] == "tensor" else list(mats)) + [v for v in (left, right) if v is not None]
    if case["grad"]:
        for t in given:
            t.requires_grad_()
    kept = [t.detach().clone() for t in given]

    def call(parallel, log):
        return contract_matseq(mats, left, right, parallel_eval=parallel, log_format=log)

    if n == 0 and case["vecs"] == "none" and case["form"] != "tensor":
        refuses(lambda: call(case["parallel"], case["log"]), "contract_matseq without matrices and vectors", (ValueError,))
        ctx.label("nothing to contract")
        return False
    batch = np.broadcast_shapes(*[tuple(s) for s in mat_batch]) if mat_batch else ()

    def product(f):
        """Reference with explicit axes, f is applied to every factor"""
        m = np.eye(dims[0]) if left is None else f(to_np(left))[..., None, :]
        for t in np_mats:
            m = m @ f(t)
        if right is not None:
            m = m @ f(to_np(right))[..., :, None]
        m = np.broadcast_to(m, batch + m.shape[-2:])
        if right is not None:
            m = m[..., 0]
        if left is not None:
            m = m[..., 0] if right is not None else m[..., 0, :]
        return m

    with np.errstate(all="ignore"):
        ref = product(lambda t: t.astype(np.complex128 if cplx else np.float64))
        top = product(lambda t: np.abs(t).astype(float))
    if not np.isfinite(top).all() or (dtype == "float32" and top.size and top.max() > 1e30):
        raise Skip
    # A matrix element is computed with rounding errors relative to rescaled products
    worst = top
    tol = 32 * EPS[dtype] * (n + 2) * (max(dims) + 2) * worst + 1e-300
    if dtype == "float32":
        tol = tol + 1e-36
    which = ("left " if left is not None else "") + ("right " if right is not None else "")
    for parallel in (case["parallel"], not case["parallel"]):
        for log in (case["log"], not case["log"]):
            what = f"contract_matseq of {n} matrices ({which or 'no '}vectors, parallel_eval={parallel}, log_format={log})"
            with sut(what):
                out = call(parallel, log)
                if log:
                    check(isinstance(out, tuple) and len(out) == 2, f"{what}: no pair returned")
                    prod, ls = out
                    check(not ls.is_complex(), f"{what}: complex log scale")
                    check(prod.ndim == ref.ndim, f"{what}: contraction of order {prod.ndim}, expected {ref.ndim}")
                    value = to_np(prod).astype(np.complex128 if cplx else np.float64) * np.exp(to_np(ls).astype(float))
                    extra = EPS[dtype] * np.abs(to_np(ls)) * np.abs(value) * 4 if value.size else 0
                else:
                    value = to_np(out)
                    extra = 8 * EPS[dtype] * np.abs(ref) * (n + 1) * 30
            check(value.dtype.kind == ("c" if cplx else "f"), f"{what}: result of type {value.dtype}")
            close(value, ref, tol + extra, what)
    for t, k in zip(given, kept):
        same(t, k, "matrices or vectors after contract_matseq")
    ctx.label(case["form"], "vectors: " + case["vecs"], dtype, "complex" if cplx else "real",
              "equal bonds" if len(set(dims)) == 1 else "unequal bonds", f"length {min(n, 3)}{'+' if n > 3 else ''}",
              f"{len(batch)} batch axes", "empty batch" if 0 in batch else "batch")
    return n + (left is not None) + (right is not None) >= 2 and max(dims) > 1 and ref.size > 0


# ------------------------------------------------------------- odd calls


@st.composite
def bad_cases(draw):
    n = draw(st.integers(1, 5))
    dims = draw(st.lists(st.integers(1, 5), min_size=n + 1, max_size=n + 1))
    return {"dims": dims, "seed": draw(seeds), "parallel": draw(st.booleans()),
            "kind": draw(st.sampled_from(["bond", "left", "right", "batch"])), "at": draw(st.integers(0, 4)),
            "vecs": draw(st.sampled_from(["none", "left", "right", "both"]))}


def run_bad(case, ctx):
    from torchmps.mps_base import contract_matseq

    dims, n, kind = case["dims"], len(case["dims"]) - 1, case["kind"]
    rng = rng_of(case["seed"])
    b = [2] if kind == "batch" else []
    mats = [torch.tensor(rng.normal(size=b + [dims[k], dims[k + 1]])) for k in range(n)]
    ln, rn = dims[0], dims[-1]
    left = right = None
    if case["vecs"] in ("left", "both") or kind == "left":
        left = torch.tensor(rng.normal(size=ln + (kind == "left")))
        if kind == "left" and ln == 1:
            raise Skip
    if case["vecs"] in ("right", "both") or kind == "right":
        right = torch.tensor(rng.normal(size=rn + (kind == "right")))
    if kind == "bond":
        if n < 2:
            raise Skip
        k = case["at"] % (n - 1)
        mats[k] = torch.tensor(rng.normal(size=(dims[k], dims[k + 1] + 1)))
    if kind == "batch":
        if n < 2:
            raise Skip
        mats[case["at"] % n] = torch.tensor(rng.normal(size=[3, dims[case["at"] % n], dims[case["at"] % n + 1]]))
    refuses(lambda: contract_matseq(mats, left, right, parallel_eval=case["parallel"]),
            f"contract_matseq with incompatible {kind}")
    ctx.label(kind)
    return True


FACETS = [
    Facet("products", cases(), run, 8000),
    Facet("long", cases(big=True), run, 1200),
    Facet("extents", extents(), run, 500, 12000),
    Facet("incompatible", bad_cases(), run_bad, 600),
]

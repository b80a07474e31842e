from common import *
from core import *

RULE = (
    "A case is a list of shapes that share a broadcast shape (or are mutated so that they may not), with a number of "
    "non-batch axes each, generated values and layouts; NumPy's broadcasting of the batch shapes alone is the "
    "reference. Non-trivial when some tensor has to be expanded or NumPy refuses."
)


@st.composite
def shape_lists(draw, low=0):
    full = draw(st.lists(st.sampled_from([1, 2, 3, 4, 2, 3, 0, 5]), min_size=0, max_size=4))
    out = []
    for _ in range(draw(st.integers(low, 6))):
        k = draw(st.integers(0, len(full)))
        s = [1 if draw(st.integers(0, 2)) == 0 else n for n in full[k:]]
        if draw(st.integers(0, 11)) == 0 and s:  # perhaps incompatible
            s[draw(st.integers(0, len(s) - 1))] = draw(st.integers(0, 5))
        if draw(st.integers(0, 11)) == 0:
            s = [draw(st.integers(0, 3))] + s
        out.append(s)
    return out


def numpy_shape(shapes):
    try:
        return np.broadcast_shapes(*[tuple(s) for s in shapes])
    except ValueError:
        return None


@st.composite
def cases(draw):
    batch = draw(shape_lists())
    non = [draw(st.lists(st.integers(0, 3), min_size=0, max_size=3)) for _ in batch]
    return {"batch": batch, "nonbatch": non, "seed": draw(seeds),
            "dtype": draw(st.sampled_from(["float32", "float64", "complex64", "int64", "bool"])),
            "container": draw(st.sampled_from(["list", "tuple"])), "layout": draw(layouts), "grad": draw(st.booleans())}


def make(shape, case, k):
    rng = rng_of(case["seed"], k)
    shape = [int(s) for s in shape]
    if case["dtype"] == "int64":
        return torch.tensor(rng.integers(-9, 9, size=shape))
    if case["dtype"] == "bool":
        return torch.tensor(rng.integers(0, 2, size=shape).astype(bool))
    t = torch.tensor(rng.normal(size=shape) + (1j * rng.normal(size=shape) if case["dtype"].startswith("c") else 0))
    t = t.to(getattr(torch, case["dtype"]))
    if t.ndim and t.shape[0]:
        t = layout(t, case["layout"])
    return t


def run_broadcast(case, ctx):
    from torchmps.utils2 import batch_broadcast, shape_broadcast

    batch, non = case["batch"], case["nonbatch"]
    tensors = [make(b + n, case, k) for k, (b, n) in enumerate(zip(batch, non))]
    kept = [t.clone() for t in tensors]
    counts = [len(n) for n in non]
    arg = tensors if case["container"] == "list" else tuple(tensors)
    full = numpy_shape(batch) if batch else ()
    if len(tensors) >= 2 and full is None:
        refuses(lambda: batch_broadcast(arg, counts), f"batch_broadcast of batch shapes {batch}", (ValueError,))
        refuses(lambda: shape_broadcast([tuple(b) for b in batch]), f"shape_broadcast of {batch}", (ValueError,))
        ctx.label("refused")
        for t, k in zip(tensors, kept):
            same(t, k, "tensors after a refused batch_broadcast")
        return True
    with sut(f"batch_broadcast of batch shapes {batch}"):
        out = batch_broadcast(arg, counts)
    check(len(out) == len(tensors), f"{len(out)} outputs for {len(tensors)} tensors")
    if len(tensors) >= 2:
        with sut(f"shape_broadcast of {batch}"):
            pred = shape_broadcast([tuple(b) for b in batch])
        check(tuple(pred) == full, f"shape_broadcast of {batch} gives {tuple(pred)}, NumPy {full}")
    for k, (o, t, n) in enumerate(zip(out, tensors, non)):
        want = (full if len(tensors) >= 2 else tuple(batch[k])) + tuple(n)
        check(tuple(o.shape) == want, f"tensor {k} of batch shapes {batch}: shape {tuple(o.shape)}, expected {want}")
        check(o.dtype == t.dtype, f"tensor {k}: dtype {o.dtype}")
        a = to_np(t)
        a = a.reshape((1,) * (len(want) - a.ndim - 0) + a.shape) if len(n) == 0 else a
        b_ax = len(batch[k])
        lead = len(want) - len(n) - b_ax
        a = to_np(t).reshape((1,) * lead + tuple(batch[k]) + tuple(n))
        same(o, np.broadcast_to(a, want), f"tensor {k} of batch shapes {batch}")
    for t, k in zip(tensors, kept):
        same(t, k, "tensors after batch_broadcast")
    expanded = any(tuple(b) != full for b in batch)
    ctx.label(f"{min(len(tensors), 3)}{'+' if len(tensors) > 3 else ''} tensors", "expanded" if expanded else "equal",
              "empty axes" if full and 0 in full else "no empty axes", case["dtype"])
    return expanded


# ------------------------------------------------------------- shape_broadcast alone


@st.composite
def shape_cases(draw):
    return {"shapes": draw(shape_lists(low=1)), "kind": draw(st.sampled_from(["tuple", "size"]))}


def run_shapes(case, ctx):
    from torchmps.utils2 import shape_broadcast

    shapes = case["shapes"]
    kind = tuple if case["kind"] == "tuple" else torch.Size
    arg = [kind(s) for s in shapes]
    full = numpy_shape(shapes)
    if full is None:
        refuses(lambda: shape_broadcast(arg), f"shape_broadcast of {shapes}", (ValueError,))
        ctx.label("refused")
        return True
    with sut(f"shape_broadcast of {shapes}"):
        out = shape_broadcast(arg)
    check(tuple(out) == full, f"shape_broadcast of {shapes} gives {tuple(out)}, NumPy {full}")
    ctx.label("accepted")
    return any(tuple(s) != full for s in shapes)


# ------------------------------------------------------------- batch_to


@st.composite
def to_cases(draw):
    full = draw(st.lists(st.integers(0, 4), min_size=0, max_size=4))
    k = draw(st.integers(0, len(full)))
    own = [1 if draw(st.integers(0, 2)) == 0 else n for n in full[k:]]
    how = draw(st.integers(0, 7))
    if how == 0:
        own = [draw(st.integers(1, 4))] + own
    elif how == 1 and own:
        own[draw(st.integers(0, len(own) - 1))] = draw(st.integers(0, 5))
    elif how == 2 and full:
        full[draw(st.integers(0, len(full) - 1))] = 1
    return {"target": full, "own": own, "non": draw(st.lists(st.integers(0, 3), min_size=0, max_size=3)),
            "seed": draw(seeds), "dtype": draw(st.sampled_from(["float32", "complex64", "int64"])), "layout": draw(layouts)}


def run_to(case, ctx):
    from torchmps.utils2 import batch_to

    own, target, non = case["own"], case["target"], case["non"]
    t = make(own + non, case, 0)
    kept = t.clone()
    ok = numpy_shape([own, target]) == tuple(target)
    call = lambda: batch_to(t, tuple(target), len(non))
    what = f"batch_to from {own} to {target} with {len(non)} other axes"
    if not ok:
        refuses(call, what)
        same(t, kept, "tensor after a refused batch_to")
        ctx.label("refused")
        return True
    with sut(what):
        out = call()
    want = tuple(target) + tuple(non)
    check(tuple(out.shape) == want, f"{what}: shape {tuple(out.shape)}")
    a = to_np(t).reshape((1,) * (len(target) - len(own)) + tuple(own) + tuple(non))
    same(out, np.broadcast_to(a, want), what)
    check(out.dtype == t.dtype, f"{what}: dtype {out.dtype}")
    same(t, kept, "tensor after batch_to")
    ctx.label("expanded" if own != target else "equal")
    return own != target


# ------------------------------------------------------------- bundle_tensors


@st.composite
def bundles(draw):
    shape = draw(st.lists(st.integers(0, 3), min_size=0, max_size=4))
    n = draw(st.integers(0, 5))
    shapes = [list(shape) for _ in range(n)]
    how = draw(st.integers(0, 5))
    if how == 0 and n > 1 and shape:
        shapes[draw(st.integers(0, n - 1))][draw(st.integers(0, len(shape) - 1))] = draw(st.integers(0, 4))
    elif how == 1 and n > 1:
        shapes[draw(st.integers(0, n - 1))] += [1]
    return {"shapes": shapes, "dim": draw(st.one_of(st.none(), st.integers(-len(shape) - 1, len(shape)))),
            "container": draw(st.sampled_from(["list", "tuple", "tensor"])), "seed": draw(seeds),
            "dtype": draw(st.sampled_from(["float32", "complex64", "int64"])), "layout": draw(layouts)}


def run_bundle(case, ctx):
    from torchmps.utils2 import bundle_tensors

    shapes, dim = case["shapes"], case["dim"]
    kw = {} if dim is None else {"dim": dim}
    ts = [make(s, case, k) for k, s in enumerate(shapes)]
    kept = [t.clone() for t in ts]
    if case["container"] == "tensor":
        if not ts:
            raise Skip
        out = bundle_tensors(ts[0], **kw)
        check(out is ts[0] or torch.equal(out, ts[0]), "bundle_tensors of a tensor changes it")
        ctx.label("tensor")
        return False
    arg = ts if case["container"] == "list" else tuple(ts)
    with sut(f"bundle_tensors of shapes {shapes} along {dim}"):
        out = bundle_tensors(arg, **kw)
    if ts and all(s == shapes[0] for s in shapes):
        check(isinstance(out, torch.Tensor), f"bundle_tensors of equal shapes {shapes} returned a {type(out).__name__}")
        same(out, np.stack([to_np(t) for t in ts], axis=dim or 0), f"bundle_tensors of shapes {shapes} along {dim}")
        check(out.dtype == ts[0].dtype, f"bundle_tensors: dtype {out.dtype}")
        ctx.label("stacked")
    else:
        check(not isinstance(out, torch.Tensor) and len(out) == len(ts), f"bundle_tensors of shapes {shapes}")
        for o, t in zip(out, ts):
            check(o is t or torch.equal(o, t), "bundle_tensors changes tensors of unequal shapes")
        ctx.label("unchanged")
    for t, k in zip(ts, kept):
        same(t, k, "tensors after bundle_tensors")
    return len(ts) > 1


FACETS = [
    Facet("broadcast", cases(), run_broadcast, 5000),
    Facet("shapes", shape_cases(), run_shapes, 5000),
    Facet("batch-to", to_cases(), run_to, 3000),
    Facet("bundle", bundles(), run_bundle, 2500),
]

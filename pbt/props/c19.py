from common import *
from core import *

RULE = (
    "A case is a chain of generated contractables (edge vectors, single matrices, matrix regions, output cores and "
    "matrices, nested lists; each with or without its own batch axis; real or complex), a generated bracketing with "
    "scalars multiplied in from either side, and the reductions of the same chain as a list. Non-trivial when the "
    "chain has at least 3 factors and some bond of dimension above 1."
)

ASSUMPTIONS = [
    "multiplying a region of several matrices by a scalar is left out: the documentation does not say whether it "
    "scales the region's product or each of its matrices",
]


@st.composite
def chains(draw, region=None):
    left = draw(st.sampled_from([None, "edge", "edge", "outmat"]))
    right = draw(st.sampled_from([None, "edge", "edge", "outmat"]))
    kinds = st.sampled_from(["mat", "mat", "region", "region", "core", "core"])
    n = draw(wint(0, 9, 5))
    mid = draw(st.lists(kinds, min_size=n, max_size=n))
    if not mid and left != "edge" and right != "edge":
        mid = ["mat"]
    many = draw(st.integers(0, 15)) == 15
    if many:  # many output axes, most of them of size one
        mid = ["core"] * draw(st.integers(7, 18))
    bonds = [draw(st.integers(1, 4))]
    items = []
    for kind in mid:
        item = {"kind": kind, "batched": draw(st.integers(0, 3)) > 0}
        if kind == "region":
            item["count"] = draw(wint(1, 40, 7))
            bonds.append(bonds[-1])
        else:
            bonds.append(draw(st.sampled_from([bonds[-1], bonds[-1], draw(st.integers(1, 4))])))
            if kind == "core":
                item["out"] = draw(st.integers(1, 3)) if not many else draw(st.sampled_from([1, 1, 1, 2]))
        items.append(item)
    if left:
        items.insert(0, {"kind": left, "left": True, "batched": draw(st.integers(0, 3)) > 0,
                         "out": draw(st.integers(1, 3))})
        bonds.insert(0, None)
    if right:
        items.append({"kind": right, "left": False, "batched": draw(st.integers(0, 3)) > 0,
                      "out": draw(st.integers(1, 3))})
        bonds.append(None)
    m = len(items)
    return {
        "items": items, "bonds": bonds, "batch": draw(wint(1, 30, 5)), "complex": draw(st.booleans()),
        "tree": draw(st.lists(st.floats(0, 0.999), min_size=max(0, m - 1), max_size=max(0, m - 1))),
        "scalars": draw(st.lists(st.tuples(st.integers(0, 2 * m), st.booleans(), st.sampled_from(["batch", "one"])),
                                 max_size=2)),
        "reduce_first": draw(st.booleans()), "seed": draw(seeds),
        "style": draw(st.sampled_from(["int", "normal", "normal", "sparse"])),
        "layout": draw(layouts), "nest": draw(st.booleans()), "dtype": draw(dtypes),
    }


def arrays(case):
    """Contents of each factor, without batch axis where it has none"""
    out, b = [], case["batch"]
    for k, item in enumerate(case["items"]):
        dl, dr = case["bonds"][k], case["bonds"][k + 1]
        kind = item["kind"]
        if kind == "edge":
            shape = (dr if item["left"] else dl,)
        elif kind == "outmat":
            shape = (dr if item["left"] else dl, item["out"])
        elif kind == "mat":
            shape = (dl, dr)
        elif kind == "core":
            shape = (item["out"], dl, dr)
        else:
            shape = (item["count"], dl, dr)
        if item["batched"]:
            shape = (b,) + shape
        a = arr(rng_of(case["seed"], k), shape, case["style"], 1.0, case["complex"])
        if kind == "region":
            a = a / max(1.0, dl) ** 0.5 if case["style"] != "int" else np.sign(a.real) * (1 if dl < 2 else 0.5)
            if case["complex"] and case["style"] == "int":
                a = a + 0j
        out.append(a)
    return out


def set_batch(b):
    """The last tensor with a batch axis sets the batch size"""
    from torchmps.contractables import EdgeVec

    with sut("making an EdgeVec"):
        EdgeVec(torch.zeros(b, 1), is_left_vec=True)


def get_batch():
    from torchmps.contractables import EdgeVec

    with sut("making an EdgeVec without batch axis"):
        return EdgeVec(torch.zeros(1), is_left_vec=True).tensor.shape[0]


def make(item, a, case):
    from torchmps.contractables import EdgeVec, MatRegion, OutputCore, OutputMat, SingleMat

    t = tens(a, case["dtype"])
    if item["batched"]:
        t = layout(t, case["layout"])
    kind = item["kind"]
    with sut(f"making a {kind}"):
        if kind == "edge":
            return EdgeVec(t, is_left_vec=item["left"])
        if kind == "outmat":
            return OutputMat(t, is_left_mat=item["left"])
        if kind == "mat":
            return SingleMat(t)
        if kind == "core":
            return OutputCore(t)
        return MatRegion(t)


def reference(case, mats, f=lambda a: a):
    """Product of the chain with axes (batch, left bond, outputs..., right bond)"""
    b, acc = case["batch"], None
    for item, a in zip(case["items"], mats):
        a = f(a)
        if not item["batched"]:
            a = np.broadcast_to(a, (b,) + a.shape)
        kind = item["kind"]
        if kind == "edge":
            facs = [a[:, None, None, :] if item["left"] else a[:, :, None, None]]
        elif kind == "outmat":  # (b, bond, out)
            facs = [a.transpose(0, 2, 1)[:, None] if item["left"] else a[:, :, :, None]]
        elif kind == "mat":
            facs = [a[:, :, None, :]]
        elif kind == "core":
            facs = [a.transpose(0, 2, 1, 3)]
        else:
            facs = [a[:, k, :, None, :] for k in range(a.shape[1])]
        for m in facs:
            if acc is None:
                acc = m
            else:
                acc = np.einsum("bLoc,bcpR->bLopR", acc, m)
                acc = acc.reshape(acc.shape[:2] + (-1,) + acc.shape[-1:])
    return acc


def outputs_of(case):
    return [i["out"] for i in case["items"] if i["kind"] in ("core", "outmat")]


def normal_form(c, what):
    """Tensor of an atomic contractable with axes (batch, left bond, outputs in order, right bond)"""
    t, s = to_np(c.tensor), c.bond_str
    check(s[0] == "b" and len(s) == t.ndim and len(set(s)) == len(s), f"{what}: bond_str {s} for {t.shape}")
    outs = [i for i, ch in enumerate(s) if ch not in "blr"]
    order = [0] + ([s.index("l")] if "l" in s else []) + outs + ([s.index("r")] if "r" in s else [])
    t = t.transpose(order)
    dims = [s.index("l")] if "l" in s else []
    shape = (t.shape[0], t.shape[1] if dims else 1, -1, t.shape[-1] if "r" in s else 1)
    return t.reshape(shape), [c.tensor.shape[i] for i in outs]


def compare(c, case, want, tol, what):
    if type(c).__name__ == "MatRegion":
        with sut("MatRegion.reduce"):
            c = c.reduce()
    items = case["items"]
    ends = ("l" not in c.bond_str, "r" not in c.bond_str)
    # A scalar has neither bond
    wl = items[0]["kind"] in ("edge", "outmat") and items[0].get("left", False)
    wr = items[-1]["kind"] in ("edge", "outmat") and not items[-1].get("left", True)
    check(ends == (wl, wr), f"{what}: bond_str {c.bond_str}")
    t, outs = normal_form(c, what)
    check(outs == outputs_of(case), f"{what}: output dimensions {outs}, expected {outputs_of(case)}")
    close(t, want, tol, what)
    names = {"b": "Scalar", "br": "EdgeVec", "bl": "EdgeVec", "blr": "SingleMat", "bolr": "OutputCore"}
    if c.bond_str in names and len(items) > 1:
        check(type(c).__name__ in (names[c.bond_str], "Contractable"), f"{what}: a {type(c).__name__}")


def is_region(c):
    return type(c).__name__ == "MatRegion"


def times(a, b, what):
    """Product, with regions reduced first where their product is not supported"""
    try:
        return a * b
    except TypeError as err:
        kinds = (type(a).__name__, type(b).__name__)
        if "MatRegion" in kinds and "EdgeVec" not in kinds:
            a, b = (x.reduce() if is_region(x) else x for x in (a, b))
            if a.bond_str != "b" and b.bond_str != "b":
                with sut(what):
                    return a * b
        raise Violation(f"{what}: {kinds[0]} * {kinds[1]} is not supported ({err})")


def run_chain(case, ctx):
    from torchmps.contractables import ContractableList, Scalar

    items, b, dtype = case["items"], case["batch"], case["dtype"]
    torch.set_default_dtype(DT[dtype])
    mats = arrays(case)
    # Values as the tensors hold them
    mats = [to_np(tens(a, dtype)).astype(complex if case["complex"] else float) for a in mats]
    want, top = reference(case, mats), reference(case, mats, np.abs)
    size = sum(case["items"][k].get("count", 1) for k in range(len(items)))
    rel = 64 * EPS[dtype] * 6 * (size + 2)
    tol = rel * top + 1e-30

    def build():
        set_batch(b)
        return [make(i, a, case) for i, a in zip(items, mats)]

    parts = build()
    check(get_batch() == b, "global batch size changed")
    before = [p.tensor.clone() for p in parts]
    for p in parts:
        check(p.tensor.shape[0] == b, f"a {type(p).__name__} was not expanded to the global batch size")

    # A generated bracketing, with scalars
    factors = np.ones(b, dtype=complex if case["complex"] else float)
    where, count = dict(), [0]
    for k, (pos, from_left, form) in enumerate(case["scalars"]):
        where.setdefault(pos, []).append((k, from_left, form))

    def scale(c):
        pos, count[0] = count[0], count[0] + 1
        for k, from_left, form in where.get(pos, []):
            if is_region(c) and c.tensor.shape[1] != 1:
                continue
            s = arr(rng_of(case["seed"], 90, k), (b,) if form == "batch" else (), "normal", 1.0, case["complex"])
            st_ = tens(s, dtype)
            with sut("making a Scalar"):
                sc = Scalar(st_)
            old = type(c).__name__
            with sut(f"multiplying a {old} by a Scalar"):
                c = sc * c if from_left else c * sc
            check(type(c).__name__ == old, f"Scalar times {old} is a {type(c).__name__}")
            factors[:] = factors * to_np(st_)
            ctx.label(f"scalar {form}")
        return c

    def tree(lo, hi):
        if hi - lo == 1:
            c = parts[lo]
            if is_region(c) and case["reduce_first"]:
                with sut("MatRegion.reduce"):
                    c = c.reduce()
            return scale(c)
        cut = lo + 1 + int(case["tree"][lo] * (hi - lo - 1))
        return scale(times(tree(lo, cut), tree(cut, hi), "bracketing"))

    result = tree(0, len(items))
    f = factors[:, None, None, None]
    compare(result, case, want * f, tol * np.abs(f) * 2, "product in a generated bracketing")
    for p, t in zip(parts, before):
        same(p.tensor, t, f"{type(p).__name__} after multiplication")

    # Reductions of the list, twice over
    lists = {"reduce(parallel_eval=True)": True, "reduce(parallel_eval=False)": False}
    supported = serial_supported(items)
    for name, par in lists.items():
        parts = build()
        inner = list(parts)
        if case["nest"] and len(inner) >= 4:
            if not any(is_region(c) for c in inner[1:3]):
                inner[1:3] = [ContractableList(inner[1:3])]
                ctx.label("nested list")
        with sut("making a ContractableList"):
            clist = ContractableList(inner)
        for turn in range(2):
            try:
                c = clist.reduce(parallel_eval=par)
            except TypeError as err:
                if par or supported:
                    raise Violation(f"{name}: {err}") from err
                ctx.label("serial reduction not supported")
                break
            compare(c, case, want, tol, f"{name}, call {turn + 1}")
        for p, t in zip(parts, before):
            same(p.tensor, t, f"{type(p).__name__} after {name}")

    # The list times its last, or its first, factor
    if len(items) >= 2:
        for side in ("left", "right"):
            parts = build()
            kinds = [i["kind"] for i in items]
            rest, one = (parts[1:], parts[0]) if side == "left" else (parts[:-1], parts[-1])
            kinds = kinds if side == "left" else kinds[::-1]
            # A region needs an edge vector beside it
            ok = True
            for k, kind in enumerate(kinds):
                if kind == "region" and any(c not in ("edge", "region", "mat") for c in kinds[:k]):
                    ok = False
                if kind == "region" and kinds[0] != "edge":
                    ok = False
            if not ok or kinds[0] == "region":
                continue
            with sut(f"ContractableList times a factor from the {side}"):
                clist = ContractableList(rest)
                c = one * clist if side == "left" else clist * one
            compare(c, case, want, tol, f"ContractableList times a factor from the {side}")
            ctx.label(f"list from the {side}")
    ctx.label("complex" if case["complex"] else "real", *{i["kind"] for i in items})
    ctx.label(f"outputs {min(3, len(outputs_of(case)))}")
    return len(items) >= 3 and max(d or 1 for d in case["bonds"]) > 1


def serial_supported(items):
    kinds = [i["kind"] for i in items]
    for k, kind in enumerate(kinds):
        if kind != "region" or len(kinds) == 1:
            continue
        from_right = kinds[-1] == "edge" and not any(c in ("core", "outmat") for c in kinds[k + 1:])
        from_left = kinds[0] == "edge" and not any(c in ("core", "outmat") for c in kinds[:k])
        if not (from_left or from_right):
            return False
    return True


# ------------------------------------------------------------- regions


@st.composite
def regions(draw):
    return {"count": draw(wint(1, 300, 12, 4)), "bond": draw(st.integers(1, 6)), "batch": draw(st.integers(1, 5)),
            "batched": draw(st.integers(0, 3)) > 0, "complex": draw(st.booleans()), "seed": draw(seeds),
            "style": draw(st.sampled_from(["normal", "int", "sparse"])), "layout": draw(layouts),
            "grad": draw(st.booleans())}


def run_region(case, ctx):
    from torchmps.contractables import EdgeVec, MatRegion

    torch.set_default_dtype(torch.float64)
    n, d, b = case["count"], case["bond"], case["batch"]
    rng = rng_of(case["seed"])
    shape = ((b,) if case["batched"] else ()) + (n, d, d)
    a = arr(rng, shape, case["style"], 1.0, case["complex"]) / max(1.0, d) ** 0.5
    vl, vr = (arr(rng, (b, d), "normal", 1.0, case["complex"]) for _ in range(2))
    set_batch(b)
    t = tens(a, "float64")
    t = (layout(t, case["layout"]) if case["batched"] else t).requires_grad_(case["grad"])
    with sut("MatRegion"):
        region = MatRegion(t)
        prod = region.reduce()
        right = region * EdgeVec(tens(vr, "float64"), is_left_vec=False)
        left = EdgeVec(tens(vl, "float64"), is_left_vec=True) * region
    full = a if case["batched"] else np.broadcast_to(a, (b,) + a.shape)
    ref, top = np.eye(d)[None], np.eye(d)[None]
    for k in range(n):
        ref, top = ref @ full[:, k], top @ np.abs(full[:, k])
    if not np.isfinite(top).all() or top.max() > 1e280:
        raise Skip
    c = 64 * 2.3e-16 * d * (n + 2)
    check(type(prod).__name__ == "SingleMat" and prod.bond_str == "blr", "reduce gives no SingleMat")
    close(prod.tensor, ref, c * top + 1e-300, f"MatRegion.reduce of {n} matrices")
    check(right.bond_str == "bl" and left.bond_str == "br", "products with vectors face the wrong way")
    close(right.tensor, np.einsum("blr,br->bl", ref, vr), c * np.einsum("blr,br->bl", top, np.abs(vr)) + 1e-300,
          f"region of {n} matrices times vector")
    close(left.tensor, np.einsum("bl,blr->br", vl, ref), c * np.einsum("bl,blr->br", np.abs(vl), top) + 1e-300,
          f"vector times region of {n} matrices")
    with sut("inner product"):
        s = left * EdgeVec(tens(vr, "float64"), is_left_vec=False)
    want = np.einsum("bl,blr,br->b", vl, ref, vr)
    close(s.tensor, want, c * np.einsum("bl,blr,br->b", np.abs(vl), top, np.abs(vr)) + 1e-300, "inner product")
    if case["grad"]:
        with sut("backward"):
            prod.tensor.abs().square().sum().backward()
        check(t.grad is not None, "no gradient through MatRegion.reduce")
    ctx.label("batched" if case["batched"] else "expanded", "odd" if n % 2 else "even", f"count {min(n, 20)}")
    return n >= 3 and d > 1


# ------------------------------------------------------------- the global batch size


@st.composite
def programs(draw):
    step = st.tuples(st.sampled_from(["edge", "mat", "core", "region", "outmat"]), st.integers(0, 5),
                     st.integers(1, 3), st.booleans())
    return {"steps": draw(st.lists(step, min_size=1, max_size=10)), "seed": draw(seeds)}


def run_program(case, ctx):
    """Contractables made one after another, with batch size 0 standing for a missing batch axis"""
    current = 1 + case["seed"] % 4
    set_batch(current)
    for k, (kind, b, d, left) in enumerate(case["steps"]):
        item = {"kind": kind, "batched": b > 0, "left": left}
        shape = {"edge": (d,), "mat": (d, d + 1), "core": (2, d, d + 1), "region": (3, d, d), "outmat": (d, 2)}[kind]
        a = arr(rng_of(case["seed"], k), ((b,) if b else ()) + shape)
        conf = {"dtype": "float64", "layout": "plain"}
        c = make(item, a, conf)
        current = b or current
        got = get_batch()
        check(got == current, f"step {k}: global batch size {got}, expected {current}")
        want = a if b else np.broadcast_to(a, (current,) + a.shape)
        same(c.tensor, want, f"step {k}: tensor of the {kind}")
        red = c.reduce()
        if kind != "region":
            check(red is c, f"step {k}: reduce() of a {kind} gives something else")
        # A tensor of the wrong order is refused
        for extra in (-1, 2):
            bad = np.zeros((2,) * (len(shape) + extra)) if len(shape) + extra >= 1 else None
            if bad is not None and kind != "region":
                refuses(lambda: make_raw(item, bad), f"a {kind} of a tensor of order {bad.ndim}")
                check(get_batch() == current, "a refused tensor changed the global batch size")
    ctx.label(f"sizes {len({s[1] for s in case['steps']})}")
    return len({s[1] for s in case["steps"]}) >= 2


def make_raw(item, a):
    from torchmps.contractables import EdgeVec, OutputCore, OutputMat, SingleMat

    t = torch.tensor(a)
    return {"edge": lambda: EdgeVec(t, item["left"]), "mat": lambda: SingleMat(t), "core": lambda: OutputCore(t),
            "outmat": lambda: OutputMat(t, item["left"])}[item["kind"]]()


FACETS = [
    Facet("chains", chains(), run_chain, quick=4000),
    Facet("regions", regions(), run_region, quick=2000),
    Facet("batches", programs(), run_program, quick=1200),
]

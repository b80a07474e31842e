from common import *
from core import *

RULE = (
    "A case is a chain put together by hand from regions of cores (with or without bias matrices of either form), "
    "single cores with unequal bonds, merged cores, and at most one output core (merged or not), or an MPS with a "
    "history of batches; followed by rescalings of the cores. Non-trivial when the chain has at least two blocks and "
    "an output other than zero, or the MPS at least two sites."
)


@st.composite
def chains(draw):
    bond = draw(wint(1, 20, 4))
    n = draw(st.integers(1, 6))
    periodic = draw(st.booleans())
    out = draw(st.sampled_from([None, *range(n)]))
    blocks, here = [], bond
    for k in range(n):
        if k == out:
            kinds = ["output", "merged output"]
        else:
            # (the last bond has to fit the first one in periodic chains)
            free = k < n - 1 or here == bond or not periodic
            kinds = ["region", "region", "site", "site", "merged"] if free else ["site"]
        b = {"kind": draw(st.sampled_from(kinds)), "l": here, "seed": draw(seeds)}
        if b["kind"] in ("region", "merged"):
            b["r"] = here
            b["s"] = draw(wint(1, 40, 4)) if here <= 4 else draw(st.integers(1, 4))
            if b["kind"] == "region":
                b["bias"] = draw(st.sampled_from([None, "eye", "one", "many"]))
                b["fixed"], b["ephemeral"] = draw(st.booleans()), draw(st.sampled_from([False, False, False, True]))
        else:
            b["r"] = draw(wint(1, 20, 4)) if k < n - 1 or not periodic else bond
            if b["kind"] == "merged output":
                b["left"] = draw(st.booleans())
        here = b["r"]
        blocks.append(b)
    return {
        "blocks": blocks, "feature": draw(wint(1, 9, 3)), "output": draw(wint(1, 12, 3)),
        "batch": draw(wint(0, 100, 4)) if max(b["l"] for b in blocks) <= 4 else draw(st.integers(0, 4)),
        "periodic": periodic, "parallel": draw(st.booleans()), "dtype": draw(dtypes), "seed": draw(seeds),
        "style": draw(styles), "layout": draw(layouts),
        "scales": draw(st.lists(st.sampled_from([0.5, 2.0, -3.0, 1e-3, 1e3, 0.1, 1.0, 0.0]), min_size=1, max_size=6)),
        "as": draw(st.sampled_from(["floats", "tensors", "list"])),
        # Rescaling after a backward pass
        "grad": draw(st.booleans()),
    }


def value(case, k, b):
    """Tensor of a block, with entries of size about one over the bond dimension"""
    l, r, f, o = b["l"], b["r"], case["feature"], case["output"]
    shape = {"region": (b.get("s"), l, r, f), "merged": (b.get("s"), l, r, f, f), "site": (l, r, f), "output": (o, l, r),
             "merged output": (o, l, r, f)}[b["kind"]]
    return arr(rng_of(b["seed"], k), shape, case["style"], 1.0 / (l * r * f) ** 0.5)


def build(case, k, b):
    """(module, bias array or None)"""
    from torchmps.torchmps import InputRegion, InputSite, MergedInput, MergedOutput, OutputSite

    dtype = case["dtype"]
    t = layout(tens(value(case, k, b), dtype), case["layout"])
    kind = b["kind"]
    with sut(f"building a {kind}"):
        if kind == "region":
            shape = {"one": (b["l"], b["r"]), "many": (b["s"], b["l"], b["r"])}.get(b["bias"])
            bias = None if shape is None else arr(rng_of(b["seed"], k, 1), shape, case["style"], 0.5)
            m = InputRegion(t, use_bias=b["bias"] is not None, fixed_bias=b["fixed"] or b["bias"] is None,
                            bias_mat=None if bias is None else tens(bias, dtype), ephemeral=b["ephemeral"])
            if b["bias"] == "eye":
                bias = np.eye(b["l"])
            return m, bias if bias is None else to_np(tens(bias, dtype)).astype(float)
        if kind == "site":
            return InputSite(t), None
        if kind == "merged":
            return MergedInput(t), None
        if kind == "output":
            return OutputSite(t), None
        return MergedOutput(t, left_output=b["left"]), None


def inputs_of(b):
    return {"region": b.get("s"), "merged": 2 * b.get("s", 0), "site": 1, "output": 0, "merged output": 1}[b["kind"]]


def cores_of(b):
    return {"region": b.get("s"), "merged": 2 * b.get("s", 0), "site": 1, "output": 1, "merged output": 2}[b["kind"]]


def reference(case, arrays, biases, x, absval=False):
    """Product of all blocks for each batch entry: (batch, l, r) or (batch, out, l, r)"""
    g = np.abs if absval else (lambda v: v)
    x = g(x)
    n = len(x)
    total, at, has_out = np.broadcast_to(np.eye(case["blocks"][0]["l"])[None, None], (n, 1) + (case["blocks"][0]["l"],) * 2), 0, False
    for b, t, bias in zip(case["blocks"], arrays, biases):
        kind, t = b["kind"], g(t)
        if kind == "output":
            total, has_out = np.einsum("bxlm,omr->bolr", total, t), True
        elif kind == "merged output":
            total, has_out = np.einsum("bxlm,omri,bi->bolr", total, t, x[:, at]), True
        elif kind == "site":
            total = np.einsum("bolm,mri,bi->bolr", total, t, x[:, at])
        elif kind == "merged":
            for s in range(b["s"]):
                m = np.einsum("lrij,bi,bj->blr", t[s], x[:, at + 2 * s], x[:, at + 2 * s + 1])
                total = np.einsum("bolm,bmr->bolr", total, m)
        else:
            for s in range(b["s"]):
                m = np.einsum("lri,bi->blr", t[s], x[:, at + s])
                if bias is not None:
                    m = m + g(bias if bias.ndim == 2 else bias[s])
                total = np.einsum("bolm,bmr->bolr", total, m)
        at += inputs_of(b)
    return total, has_out


def closed(case, total, has_out):
    y = np.einsum("boll->bo", total) if case["periodic"] else total[:, :, 0, 0]
    return y if has_out else y[:, 0]


def chain_values(mods):
    return [to_np(m.tensor.detach()).astype(float) for m in mods]


def expect(case, arrays, biases, x):
    want = closed(case, *reference(case, arrays, biases, x))
    top = closed(case, *reference(case, arrays, biases, x, absval=True))
    sites = sum(inputs_of(b) for b in case["blocks"]) + len(case["blocks"])
    tiny = 1e-290 if case["dtype"] == "float64" else 1e-30
    return want, 16 * EPS[case["dtype"]] * (sites + 4) * (4 + case["feature"]) ** 2 * top + tiny, top


def run_chain(case, ctx):
    from torchmps.torchmps import LinearRegion

    dtype, blocks = case["dtype"], case["blocks"]
    torch.set_default_dtype(DT[dtype])
    mods, biases = zip(*[build(case, k, b) for k, b in enumerate(blocks)])
    with sut("building a LinearRegion"):
        region = LinearRegion(list(mods), periodic_bc=case["periodic"], parallel_eval=case["parallel"])
    sites = sum(inputs_of(b) for b in blocks)
    # Sizes
    for m, b in zip(mods, blocks):
        check(len(m) == inputs_of(b), f"len() of a {b['kind']} is {len(m)}, it takes {inputs_of(b)} inputs")
        check(m.core_len() == cores_of(b), f"core_len() of a {b['kind']} is {m.core_len()}, it has {cores_of(b)} cores before merging")
    check(len(region) == sites, f"len() of the chain is {len(region)}, it takes {sites} inputs")
    check(region.core_len() == sum(cores_of(b) for b in blocks), f"core_len() of the chain is {region.core_len()}")
    # What is trainable
    for m, b in zip(mods, blocks):
        names = {n for n, _ in m.named_parameters()}
        want = set() if b.get("ephemeral") else {"tensor"}
        if b["kind"] == "region" and b["bias"] and not b["fixed"] and not b["ephemeral"]:
            want.add("bias_mat")
        check(names == want, f"parameters of a {b['kind']}: {sorted(names)}, expected {sorted(want)}")
    # Values
    x = layout(tens(arr(rng_of(case["seed"], 1), (case["batch"], sites, case["feature"])), dtype), case["layout"])
    ax, keep = to_np(x).astype(float), x.clone()
    arrays = chain_values(mods)
    want, tol, top = expect(case, arrays, biases, ax)
    if np.max(top, initial=0) > (1e30 if dtype == "float32" else 1e280):
        raise Skip
    with sut("evaluating a chain"):
        y = region(x)
    check(tuple(y.shape) == want.shape, f"output of shape {tuple(y.shape)}, expected {want.shape}")
    close(y, want, tol, "output of a chain")
    same(x, keep, "inputs")
    if case["grad"] and y.requires_grad:
        with sut("backward through a chain"):
            y.sum().backward()
    # Norms
    for m, b, a in zip(mods, blocks, arrays):
        with sut("get_norm"):
            norms = m.get_norm()
        check(isinstance(norms, list), f"get_norm() of a {b['kind']} returns {type(norms).__name__}")
        ref = np.sqrt((a.reshape(len(a) if b["kind"] in ("region", "merged") else 1, -1) ** 2).sum(1))
        check(len(norms) == len(ref), f"get_norm() of a {b['kind']} lists {len(norms)} norms for {len(ref)} cores")
        close(np.array([float(v) for v in norms]), ref, 64 * EPS[dtype] * a.size ** 0.5 * ref + 1e-18, f"norms of a {b['kind']}")
        same(m.tensor.detach(), a.astype(to_np(m.tensor).dtype), f"tensor of a {b['kind']} after get_norm()")
    # Rescaling
    ids = [(id(m.tensor), m.tensor.requires_grad) for m in mods]
    product, k = 1.0, 0
    for m, b, a in zip(mods, blocks, arrays):
        count = len(a) if b["kind"] in ("region", "merged") else 1
        scales = [case["scales"][(k + i) % len(case["scales"])] for i in range(count)]
        k += count
        product *= np.prod(scales)
        arg = [torch.tensor(s, dtype=DT[dtype]) for s in scales] if case["as"] == "tensors" else list(scales)
        if count == 1 and b["kind"] not in ("region", "merged") and case["as"] == "floats":
            arg = arg[0]
        bias = None if biases[mods.index(m)] is None else m.bias_mat.detach().clone()
        with sut(f"rescale_norm of a {b['kind']}"):
            m.rescale_norm(arg)
        s = np.array(scales).reshape((-1,) + (1,) * (a.ndim - 1)) if b["kind"] in ("region", "merged") else scales[0]
        close(m.tensor.detach(), a * s, 2 * EPS[dtype] * np.abs(a * s) + (1e-300 if dtype == "float64" else 1e-38),
              f"tensor of a {b['kind']} rescaled by {scales}")
        if bias is not None:
            same(m.bias_mat.detach(), bias, "bias matrices after rescaling")
    check(ids == [(id(m.tensor), m.tensor.requires_grad) for m in mods], "rescaling replaced the tensors, or their requires_grad")
    new, tol2, top2 = expect(case, chain_values(mods), biases, ax)
    if np.max(top2, initial=0) > (1e30 if dtype == "float32" else 1e280):
        raise Skip
    with sut("evaluating a rescaled chain"):
        z = region(x)
    close(z, new, tol2, "output of a rescaled chain")
    if all(b is None for b in biases):
        close(z, want * product, tol2 + tol * abs(product), f"output of a chain without biases whose cores are rescaled by {product} in all")
    ctx.label("periodic" if case["periodic"] else "open", "parallel" if case["parallel"] else "serial",
              *sorted({b["kind"] for b in blocks}))
    return bool(len(blocks) > 1 and case["batch"] and np.any(want))


# ------------------------------------------------------------- ends


@st.composite
def ends(draw):
    bond = draw(wint(1, 30, 6))
    return {
        "bond": bond, "output": draw(wint(1, 30, 6)), "sites": draw(wint(1, 40, 4)), "feature": draw(st.integers(1, 3)),
        "batch": draw(wint(1, 20, 4)), "fill": draw(st.one_of(st.none(), st.integers(0, bond))), "fixed_vec": draw(st.booleans()),
        "fixed_mat": draw(st.booleans()), "mirror": draw(st.booleans()), "bias": draw(st.booleans()), "dtype": draw(dtypes),
        "seed": draw(seeds), "parallel": draw(st.booleans()), "style": draw(styles),
    }


def run_ends(case, ctx):
    from torchmps.contractables import ContractableList
    from torchmps.torchmps import InitialVector, InputRegion, TerminalOutput

    dtype, d, o, n, f = case["dtype"], case["bond"], case["output"], case["sites"], case["feature"]
    torch.set_default_dtype(DT[dtype])
    torch.manual_seed(case["seed"] % 9973)
    kw = {} if case["fill"] is None else {"fill_dim": case["fill"]}
    make = lambda: TerminalOutput(d, o, fixed_mat=case["fixed_mat"], is_left_mat=case["mirror"])  # noqa: E731
    with sut("building an InitialVector"):
        vec = InitialVector(d, fixed_vec=case["fixed_vec"], is_left_vec=not case["mirror"], **kw)
    if case["fixed_mat"] and o > d:
        refuses(make, "a fixed terminal matrix with more outputs than bonds", (ValueError,))
        ctx.label("refused")
        return False
    with sut("building a TerminalOutput"):
        mat = make()
    v = np.ones(d)
    if case["fill"] is not None:
        v[case["fill"]:] = 0
    same(vec.vec.detach(), v.astype(to_np(vec.vec).dtype), "initial vector")
    check({k for k, _ in vec.named_parameters()} == (set() if case["fixed_vec"] else {"vec"}), "parameters of the initial vector")
    check({k for k, _ in mat.named_parameters()} == (set() if case["fixed_mat"] else {"mat"}), "parameters of the terminal matrix")
    check(tuple(mat.mat.shape) == (d, o), f"terminal matrix of shape {tuple(mat.mat.shape)}")
    if case["fixed_mat"]:
        same(mat.mat.detach(), np.eye(d, o).astype(to_np(mat.mat).dtype), "fixed terminal matrix")
    check((len(vec), vec.core_len(), len(mat), mat.core_len()) == (0, 1, 0, 1), "sizes of the ends")
    core = arr(rng_of(case["seed"], 2), (n, d, d, f), case["style"], 1.0 / (d * f) ** 0.5)
    with sut("building an InputRegion"):
        region = InputRegion(tens(core, dtype), use_bias=case["bias"])
    x = tens(arr(rng_of(case["seed"], 3), (case["batch"], n, f)), dtype)
    core, ax = to_np(tens(core, dtype)).astype(float), to_np(x).astype(float)
    m = to_np(mat.mat.detach()).astype(float)
    res = []
    for g in (lambda t: t, np.abs):
        h = np.broadcast_to(v if not case["mirror"] else g(m).T, (case["batch"],) + ((d,) if not case["mirror"] else (o, d)))
        for s in range(n):
            step = np.einsum("lri,bi->blr", g(core[s]), g(ax[:, s])) + (np.eye(d) if case["bias"] else 0)
            h = np.einsum("b...l,blr->b...r", h, step)
        res.append(h @ g(m) if not case["mirror"] else h @ v)
    want, top = res
    if np.max(top) > (1e30 if dtype == "float32" else 1e280):
        raise Skip
    with sut("evaluating a chain between ends"):
        middle = region(x)  # the ends adapt to its batch size
        items = [vec(), middle, mat()]
        y = ContractableList(items[::-1] if case["mirror"] else items).reduce(parallel_eval=case["parallel"])
    check(y.bond_str == "bo" and tuple(y.tensor.shape) == want.shape, f"result with axes {y.bond_str} of shape {tuple(y.tensor.shape)}")
    tiny = 1e-290 if dtype == "float64" else 1e-30
    close(y.tensor, want, 16 * EPS[dtype] * (n + 4) * (d + f) ** 2 * top + tiny, "output of a chain between ends")
    ctx.label("mirrored" if case["mirror"] else "plain", "fill" if case["fill"] is not None else "full")
    return bool(np.any(want)) and d > 1


# ------------------------------------------------------------- models


@st.composite
def models(draw):
    adaptive = draw(st.booleans())
    cfg = draw(adaptive_cfg()) if adaptive else draw(mps_cfg(max_in=12, big_in=60))
    if adaptive:
        cfg["merge_threshold"] = draw(st.integers(1, 6))
    return {"cfg": cfg, "batches": draw(st.lists(st.integers(0, 7), max_size=6)), "seed": draw(seeds), "dtype": draw(dtypes),
            "scales": draw(st.lists(st.sampled_from([0.5, 2.0, -3.0, 0.1, 10.0, 1.0]), min_size=1, max_size=5))}


def run_model(case, ctx):
    cfg, dtype = case["cfg"], case["dtype"]
    torch.set_default_dtype(DT[dtype])
    torch.manual_seed(case["seed"] % 9973)
    with sut("constructing an MPS"):
        mps = make_mps(cfg)
    n = cfg["input_dim"]
    for p in mps.linear_region.module_list.parameters():
        with torch.no_grad():
            p.copy_(tens(arr(rng_of(case["seed"], p.numel()), tuple(p.shape), "normal", 0.5), dtype))

    def sizes(when):
        got = len(mps), mps.core_len(), len(mps.linear_region), mps.linear_region.core_len()
        check(got == (n, n + 1, n, n + 1), f"{when}: len(), core_len() of the model and its region are {got}, for {n} inputs")

    sizes("new model")
    for k, b in enumerate(case["batches"]):
        x = tens(rng_of(case["seed"], k).random((b, n, cfg["feature_dim"])), dtype)
        with sut("evaluating an MPS"):
            mps(x)
        sizes(f"after batch {k}")
    # Rescaling through the modules, as the model itself does it; the next call mustn't rearrange the cores
    if hasattr(mps.linear_region, "input_counter"):
        mps.linear_region.input_counter = 0
    x = tens(rng_of(case["seed"], 77).random((3, n, cfg["feature_dim"])), dtype)
    ax = to_np(x).astype(float)
    k = 0
    for m in mps.linear_region.module_list:
        with sut("get_norm and rescale_norm"):
            count = len(m.get_norm())
            m.rescale_norm([case["scales"][(k + i) % len(case["scales"])] for i in range(count)])
        k += count
    ch = chain_of(mps)
    with sut("evaluating a rescaled MPS"):
        y = mps(x)
    close(y, ref_mps(ch, ax, cfg["periodic_bc"]), chain_tol(ch, ax, cfg["periodic_bc"], dtype), "output of a rescaled MPS")
    sizes("after rescaling")
    ctx.label("adaptive" if cfg.get("adaptive_mode") else "fixed")
    return n > 1


FACETS = [
    Facet("chains", chains(), run_chain, 3000),
    Facet("ends", ends(), run_ends, 1200),
    Facet("models", models(), run_model, 800),
]

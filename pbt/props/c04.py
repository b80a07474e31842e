from common import *
from core import *

RULE = (
    "A case is an MPS (or TI_MPS) with a generated path over an input that may be wider than the model, a "
    "feature map history (default, several map families, Module maps, refused maps, reset with None) and "
    "raw or embedded inputs; non-trivial when the path differs from the identity or a custom map is used."
)


@st.composite
def paths(draw):
    cfg = draw(mps_cfg(max_in=8, big_in=24))
    n = cfg["input_dim"]
    width = draw(st.sampled_from([n, n, n + 1, n + 3, 2 * n, max(1, n - 1), 1]))
    how = draw(st.sampled_from(["any", "any", "perm", "reverse", "stride"]))
    if how == "perm" and width >= n:
        path = draw(st.permutations(list(range(width))))[:n]
    elif how == "reverse" and width >= n:
        path = list(range(n))[::-1]
    elif how == "stride" and width >= 2 * n:
        path = list(range(0, 2 * n, 2))
    else:
        path = draw(st.lists(st.integers(0, width - 1), min_size=n, max_size=n))
    raw = draw(st.booleans())
    fmap = draw(st.sampled_from([None, *MAPS])) if raw else None
    if raw and fmap is None:
        cfg["feature_dim"] = 2
    return {
        "cfg": cfg, "width": width, "path": list(path), "kind": draw(st.sampled_from(["list", "tensor", "tensor32"])),
        "raw": raw, "map": fmap, "seed": draw(seeds), "style": draw(styles), "dtype": draw(dtypes),
        "batch": draw(st.integers(1, 5)), "uses": draw(uses()),
    }


def path_value(case):
    if case["kind"] == "list":
        return list(case["path"])
    return torch.tensor(case["path"], dtype=torch.int64 if case["kind"] == "tensor" else torch.int32)


def run_path(case, ctx):
    torch.set_default_dtype(DT[case["dtype"]])
    cfg, dtype = case["cfg"], case["dtype"]
    with sut("constructing an MPS with a path"):
        mps = make_mps(cfg, path=path_value(case))
        plain = make_mps(cfg)
    fill(mps, case["seed"], case["style"])
    with sut("load_state_dict between models with and without path"):
        plain.load_state_dict(mps.state_dict())
    np_map = None
    if case["map"]:
        fmap, np_map = feature_map(case["map"], cfg["feature_dim"], case["seed"], dtype)
        chain_first = chain_of(mps)
        with sut("register_feature_map"):
            mps.register_feature_map(fmap)
            plain.register_feature_map(fmap)
    shape = (case["batch"], case["width"]) + (() if case["raw"] else (cfg["feature_dim"],))
    style = "uniform" if case["raw"] and case["style"] != "int" else case["style"]
    x = tens(arr(rng_of(case["seed"], 8), shape, style), dtype)
    kept = x.clone()
    ops = case["uses"]
    mps = use(mps, ops, case["seed"], lambda m, v: m(v), x)
    with sut(f"evaluating an MPS with a path {ops}"), mode_of(ops):
        y = mps(x)
    gathered = torch.tensor(to_np(x)[:, case["path"]])
    with sut("evaluating an MPS without a path"):
        z = plain(gathered)
    a = to_np(gathered).astype(float)
    ex = a if a.ndim == 3 else (np_map(a) if np_map else embed_default(a))
    chain = chain_of(mps)
    tol = chain_tol(chain, ex, cfg["periodic_bc"], dtype) * (4 if np_map else 1)
    if not np.isfinite(tol).all() or (dtype == "float32" and np.max(tol, initial=0) > 1e25):
        raise Skip
    close(y, ref_mps(chain, ex, cfg["periodic_bc"]), tol, "MPS with a path")
    close(y, to_np(z), tol, "MPS with a path versus gathered inputs")
    same(x, kept, "input after evaluation")
    check(list(mps.path) == case["path"], "the path attribute changed")
    ctx.label("path " + case["kind"], "raw" if case["raw"] else "embedded", f"map {case['map']}",
              "repeats" if len(set(case["path"])) < len(case["path"]) else "no repeats",
              "wider" if case["width"] > cfg["input_dim"] else "narrower" if case["width"] < cfg["input_dim"] else "same width")
    return case["path"] != list(range(cfg["input_dim"])) or bool(case["map"])


# ------------------------------------------------------------- feature maps


@st.composite
def map_histories(draw):
    ti = draw(st.booleans())
    f = draw(st.sampled_from([1, 2, 2, 3]))
    if ti:
        bond = draw(st.integers(1, 4))
        cfg = {"output_dim": draw(st.integers(1, bond)), "bond_dim": bond, "feature_dim": f,
               "parallel_eval": draw(st.booleans()), "fixed_ends": draw(st.booleans()),
               "use_bias": draw(st.booleans()), "fixed_bias": draw(st.booleans())}
    else:
        cfg = draw(mps_cfg(max_in=6, big_in=12, feature=f))
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        op = draw(st.sampled_from(["map", "map", "map", "reset", "wrong", "eval"]))
        ops.append({"op": op, "map": draw(st.sampled_from(MAPS)), "seed": draw(seeds),
                    "wrong": draw(st.sampled_from(["bigger", "smaller", "matrix"]))})
    return {"ti": ti, "cfg": cfg, "ops": ops, "seed": draw(seeds), "length": draw(st.integers(1, 6)),
            "batch": draw(st.integers(1, 4)), "dtype": draw(dtypes), "path": draw(st.booleans()),
            "modes": draw(st.lists(st.booleans(), min_size=1, max_size=3))}


def run_maps(case, ctx):
    torch.set_default_dtype(DT[case["dtype"]])
    cfg, dtype = case["cfg"], case["dtype"]
    n = case["length"] if case["ti"] else cfg["input_dim"]
    path = None
    if case["path"] and not case["ti"]:
        path = [int(k) for k in rng_of(case["seed"], 1).permutation(n)]
    with sut("constructing a model"):
        model = make_ti(cfg) if case["ti"] else make_mps(cfg, path=path)
    fill(model, case["seed"], "normal")
    base_params = {id(p) for p in model.parameters()}
    x = tens(rng_of(case["seed"], 2).random((case["batch"], n)), dtype)
    a = to_np(x).astype(float)
    np_map, kind, fmap = None, None, None

    def evaluate():
        if np_map is None and cfg["feature_dim"] != 2:
            refuses(lambda: model(x), "default embedding with feature_dim other than 2")
            return
        with sut(f"evaluating with feature map {kind}"):
            y = model(x)
        g = a if path is None else a[:, path]
        ex = np_map(g) if np_map else embed_default(g)
        if case["ti"]:
            ref = np.stack([ref_ti(model, e) for e in ex])
            tol = 256 * EPS[dtype] * 100 * np.stack([ref_ti(model, e, absval=True) for e in ex]) + 1e-30
        else:
            ch = core_chain(model)
            ref = ref_mps(ch, ex, cfg["periodic_bc"])
            tol = 4 * chain_tol(ch, ex, cfg["periodic_bc"], dtype)
        close(y, ref, tol, f"output with feature map {kind}")
        back = ex
        if path is not None:  # embedded inputs are routed along the path too
            back = np.zeros_like(ex)
            back[:, path] = ex
        with sut("evaluating the embedded input"):
            z = model(tens(back, dtype))
        close(z, ref, tol, f"output for embedded input ({kind})")
        with sut("embed_input"):
            e = model.embed_input(x)
        want = np_map(a) if np_map else embed_default(a)
        close(e, want, 16 * EPS[dtype] * (1 + np.abs(want)), f"embed_input with map {kind}")

    def core_chain(m):
        return chain_of(m)

    def gradients():
        """Raw inputs and their feature vectors lead to the same derivatives"""
        if np_map is None and cfg["feature_dim"] != 2:
            return
        weights = [fmap.w, fmap.v] if kind == "module" else []
        v = x.clone().requires_grad_(True)
        with sut(f"derivatives of a model with feature map {kind}"):
            y = model(v)
            up = tens(arr(rng_of(case["seed"], 5), tuple(y.shape), "normal"), dtype)
            got = torch.autograd.grad(y, [v] + weights, up, allow_unused=True)
        v = x.clone().requires_grad_(True)
        e = torch.stack([torch.stack([(fmap or (lambda s: torch.stack([s, 1 - s])))(t) for t in row]) for row in v])
        back = e
        if path is not None:
            back = torch.zeros_like(e).index_copy(1, torch.tensor(path), e[:, path])
        with sut("derivatives of a model with embedded inputs"):
            z = model(back)
            want = torch.autograd.grad(z, [v] + weights, up, allow_unused=True)
        g = np.abs(to_np(e.detach())) + 1  # no term of a derivative is larger than that of these inputs
        g = g if path is None else g[:, path]
        top = np.stack([ref_ti(model, r, absval=True) for r in g]) if case["ti"] else ref_mps(chain_of(model), g, cfg["periodic_bc"], absval=True)
        tol = 1e3 * EPS[dtype] * n * float((np.abs(top) * np.abs(to_np(up))).sum()) * (1 + max([float(w.detach().abs().max()) for w in weights], default=0))
        names = ["inputs", "weights of the map", "offsets of the map"]
        for g, w, name in zip(got, want, names):
            w = torch.zeros_like(x) if w is None else w
            check(g is not None or not w.any(), f"no derivatives by the {name} with feature map {kind}")
            if g is not None:
                close(g, to_np(w), tol + 1e-9 * float(w.abs().max()), f"derivatives by the {name} with feature map {kind}")

    evaluate()
    if dtype == "float64":
        gradients()
    for k, o in enumerate(case["ops"]):
        if o["op"] == "map":
            fmap, new_np = feature_map(o["map"], cfg["feature_dim"], o["seed"], dtype)
            with sut("register_feature_map"):
                model.register_feature_map(fmap)
            np_map, kind = new_np, o["map"]
            ctx.label("map " + kind)
        elif o["op"] == "reset":
            with sut("register_feature_map(None)"):
                model.register_feature_map(None)
            np_map, kind, fmap = None, None, None
            ctx.label("reset")
        elif o["op"] == "wrong":
            d = cfg["feature_dim"]
            size = (d + 1,) if o["wrong"] == "bigger" else (d - 1,) if o["wrong"] == "smaller" else (1, d)
            refuses(lambda: model.register_feature_map(lambda v: torch.ones(size) * v),
                    f"feature map with output of shape {size}", (ValueError,))
            ctx.label("refused map")
        model.train(case["modes"][k % len(case["modes"])])
        evaluate()
        if dtype == "float64":
            gradients()
        extra = [p for p in model.parameters() if id(p) not in base_params]
        if kind == "module":
            want = {id(fmap.w), id(fmap.v)}
            check({id(p) for p in extra} == want, "parameters of a Module feature map are model parameters")
            model.zero_grad()
            model(x).sum().backward()
            check(fmap.w.grad is not None and fmap.v.grad is not None, "Module feature map gets gradients")
        else:
            check(not extra, "parameters of a removed feature map are still registered")
    ctx.label("TI_MPS" if case["ti"] else "MPS")
    return any(o["op"] == "map" for o in case["ops"])


FACETS = [
    Facet("paths", paths(), run_path, 4000),
    Facet("maps", map_histories(), run_maps, 1200),
]

from common import *
from core import *

RULE = (
    "A case is an adaptive MPS geometry, threshold, cutoff, parameter values, and a history of batches (sizes "
    "from 0 to several thresholds) with optional parameter updates in between; a model of the counter and of "
    "the spectra predicts every rearrangement. Non-trivial when at least one rearrangement happens."
)


@st.composite
def cases(draw, big=False):
    if big == "extents":
        cfg = draw(adaptive_extents())
        thr = cfg["merge_threshold"]
    else:
        cfg = draw(adaptive_cfg(big=big))
        thr = cfg["merge_threshold"] = draw(st.integers(1, 20))
    cfg["cutoff"] = draw(st.sampled_from([1e-10, 1e-10, 1e-6, 0.05, 0.3, 1.0]))
    steps = draw(st.lists(
        st.fixed_dictionaries({
            "batch": st.one_of(st.integers(1, 5), st.integers(0, 3 * thr), st.just(thr)),
            "update": st.sampled_from([None, None, "perturb", "replace", "rank1"]),
            "raw": st.booleans(), "no_grad": st.booleans(), "eval": st.booleans(),
        }), min_size=1, max_size={False: 14, True: 30}.get(big, 5)))
    return {"cfg": cfg, "steps": steps, "seed": draw(seeds), "values": draw(st.integers(0, 3)) > 0,
            "dtype": draw(dtypes), "frozen": draw(st.sampled_from([None, None, None, "some", "all"]))}


def active_ids(mps):
    return [id(p) for p in mps.linear_region.module_list.parameters()]


def random_active(mps, seed, kind):
    with torch.no_grad():
        for k, p in enumerate(mps.linear_region.module_list.parameters()):
            v = torch.tensor(arr(rng_of(seed, k), p.shape, "normal", 1.0 / p.shape[1] ** 0.5), dtype=p.dtype)
            if kind == "perturb":
                p.add_(0.3 * v)
            elif kind == "rank1":  # cores with very low rank
                w = torch.ones_like(p)
                for ax, n in enumerate(p.shape):
                    shp = [1] * p.ndim
                    shp[ax] = n
                    w = w * torch.tensor(0.5 + rng_of(seed, k, ax).random(n), dtype=p.dtype).reshape(shp)
                p.copy_(w)
            else:
                p.copy_(v)


def run(case, ctx):
    torch.set_default_dtype(DT[case["dtype"]])
    torch.manual_seed(case["seed"] % 997)
    cfg, dtype = case["cfg"], case["dtype"]
    n, thr, cutoff, max_d = cfg["input_dim"], cfg["merge_threshold"], cfg["cutoff"], cfg["bond_dim"]
    with sut("constructing an adaptive MPS"):
        mps = make_mps(cfg)
    names = {k: id(p) for k, p in mps.named_parameters(remove_duplicate=False)}
    ids = [[], []]
    for name, p in mps.named_parameters(remove_duplicate=False):
        for off in (0, 1):
            if name.startswith(f"linear_region.module_list_{off}."):
                ids[off].append(id(p))
    shapes = {id(p): tuple(p.shape) for p in mps.parameters()}
    if case.get("frozen"):
        for k, p in enumerate(mps.parameters()):
            p.requires_grad_(case["frozen"] == "some" and rng_of(case["seed"], 3, k).random() < 0.5)
    flags = {id(p): p.requires_grad for p in mps.parameters()}
    check(active_ids(mps) == ids[0], "the active cores at the start are those of offset 0")
    check(not set(ids[0]) & set(ids[1]), "both merge states share parameters")
    if case["values"]:
        random_active(mps, case["seed"], "replace")
    want_bonds = [max_d] * (n + 2)
    if not cfg["periodic_bc"]:
        want_bonds[0] = want_bonds[-1] = 1
    want_svs = -np.ones((n + 2, max_d))
    offset, counter, flips = 0, 0, 0
    same(mps.bond_list, np.array(want_bonds), "initial bond_list")
    same(mps.sv_list, want_svs.astype(mps.sv_list.numpy().dtype), "initial sv_list")

    for i, step in enumerate(case["steps"]):
        if step["update"] and case["values"]:
            random_active(mps, case["seed"] + i, step["update"])
        raw = step["raw"] and cfg["feature_dim"] == 2
        x = rng_of(case["seed"], 50, i).random((step["batch"], n) + (() if raw else (cfg["feature_dim"],)))
        flip = counter >= thr
        fatal = False
        if flip:
            chain = chain_of(mps)
            plan, cores = merged_plan(chain)
            check(cores == n + 1, f"step {i}: {cores} cores for {n} inputs")
            check([b for b, _ in plan] == expected_splits(n, offset),
                  f"step {i}: merged pairs at bonds {[b for b, _ in plan]}, offset {offset}, {n} inputs")
            new = {}
            for bond, mat in plan:
                svs = np.linalg.svd(mat, compute_uv=False)
                top = svs.max()
                svs = np.concatenate([svs, np.zeros(max_d)])[:max_d]
                if ambiguous(svs, cutoff, dtype):
                    ctx.label("stopped at an ambiguous singular value")
                    return flips > 0
                new[bond] = (int((svs >= cutoff).sum()), svs, top)
                fatal = fatal or new[bond][0] == 0
        mps.train(not step["eval"])
        before = [p.detach().clone() for p in mps.parameters()]
        if fatal:
            refuses(lambda: mps(tens(x, dtype)), "cutoff above all singular values of a core", (RuntimeError,))
            ctx.label("cutoff above all singular values")
            check({id(p): tuple(p.shape) for p in mps.parameters()} == shapes, "parameters after a refused rearrangement")
            return flips > 0
        with sut(f"step {i}: evaluating an adaptive MPS"), torch.set_grad_enabled(not step["no_grad"]):
            y = mps(tens(x, dtype))
        check(tuple(y.shape) == (step["batch"], cfg["output_dim"]), f"step {i}: output shape {tuple(y.shape)}")
        check(bool(torch.isfinite(y).all()), f"step {i}: output not finite")
        if flip:
            offset, counter, flips = 1 - offset, counter - thr, flips + 1
            for bond, (rank, svs, top) in new.items():
                want_bonds[bond], want_svs[bond] = rank, svs
        counter += step["batch"]
        check(active_ids(mps) == ids[offset],
              f"step {i}: cores {'not rearranged' if flip else 'rearranged'} with {counter - step['batch'] + (thr if flip else 0)} "
              f"inputs counted before the call, threshold {thr}")
        check({k: id(p) for k, p in mps.named_parameters(remove_duplicate=False) if "module_list_" in k}
              == {k: v for k, v in names.items() if "module_list_" in k}, f"step {i}: parameter objects changed")
        check({id(p): tuple(p.shape) for p in mps.parameters()} == shapes,
              f"step {i}: set or shapes of the parameters changed")
        check({id(p): p.requires_grad for p in mps.parameters()} == flags, f"step {i}: parameters frozen or thawed")
        if not flip:
            for p, b in zip(mps.parameters(), before):
                same(p, b, f"step {i}: parameters without rearrangement")
        check(mps.bond_list.tolist() == want_bonds,
              lambda: f"step {i}: bond_list {mps.bond_list.tolist()}, expected {want_bonds}")
        scale = max([1e-30] + [t for _, _, t in new.values()]) if flip else 1e-30
        tol = 300 * EPS[dtype] * np.maximum(np.abs(want_svs).max(axis=1, keepdims=True), scale)
        close(mps.sv_list, want_svs, np.broadcast_to(tol, want_svs.shape), f"step {i}: sv_list")
        check(len(mps) == n and mps.core_len() == n + 1, f"step {i}: {len(mps)} sites and {mps.core_len()} cores")
    cfg_labels(cfg, ctx)
    ctx.label(f"rearrangements {min(flips, 4)}{'+' if flips > 3 else ''}",
              "truncating" if any(b < max_d for b in want_bonds[1:-1]) else "full rank", dtype)
    return flips > 0


FACETS = [
    Facet("histories", cases(), run, 2500),
    Facet("long", cases(big=True), run, 250, 8000),
    Facet("extents", cases(big="extents"), run, 250, 8000),
]

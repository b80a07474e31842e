from common import *
from core import *
from props.c05 import active_ids, random_active

RULE = (
    "A case is an adaptive MPS geometry with generated core values, a cutoff, and 1-6 rearrangements with "
    "optional parameter updates in between; outputs before and after are compared with explicit contractions "
    "of the (optimally truncated) merged cores. Non-trivial when a rearrangement acts on a bond dimension above 1."
)


OPS = ["eval", "train", "freeze", "freeze some", "deepcopy", "reload", "no_grad", "inference", "data pointer"]


@st.composite
def cases(draw, big=False):
    if big == "extents":
        cfg = draw(adaptive_extents())
        cfg["merge_threshold"] = min(cfg["merge_threshold"], 50)
    else:
        cfg = draw(adaptive_cfg(max_in=7, max_bond=5, big=big))
        cfg["merge_threshold"] = draw(st.integers(1, 4))
    cfg["cutoff"] = draw(st.sampled_from([1e-12, 1e-12, 1e-12, 0.02, 0.1, 0.4] if big != "extents" else [1e-12, 1e-12, 0.02]))
    dtype = draw(dtypes)
    return {
        "cfg": cfg, "seed": draw(seeds), "dtype": dtype,
        "updates": draw(st.lists(st.sampled_from([None, None, "perturb", "replace", "rank1", "lone zero"]),
                                 min_size=1, max_size={False: 6, True: 12}.get(big, 3))),
        "batch": draw(st.integers(1, 60 if big == "extents" else 3)), "default_init": draw(st.integers(0, 7)) == 0,
        # (long products have to stay in the range of the type)
        "uneven": draw(st.booleans()) and (dtype == "float64" or cfg["input_dim"] <= 12),
        "uses": draw(st.one_of(st.just([]), st.lists(st.sampled_from(OPS), min_size=1, max_size=3))),
    }


def norm_bound(chain, x):
    """Product of the Frobenius norms of all cores and inputs, for every batch entry"""
    lead = np.prod([np.linalg.norm(t) for _, t, _ in chain])
    return lead * np.prod(np.linalg.norm(x, axis=2), axis=1)


def run(case, ctx):
    torch.set_default_dtype(DT[case["dtype"]])
    torch.manual_seed(case["seed"] % 997)
    cfg, dtype = case["cfg"], case["dtype"]
    n, thr, max_d = cfg["input_dim"], cfg["merge_threshold"], cfg["bond_dim"]
    per = cfg["periodic_bc"]
    with sut("constructing an adaptive MPS"):
        mps = make_mps(cfg)
    if not case["default_init"]:
        random_active(mps, case["seed"], "replace")
    if case["uneven"]:  # cores of very different norms have to be rebalanced
        with torch.no_grad():
            for k, p in enumerate(mps.linear_region.module_list.parameters()):
                p.mul_(float(10.0 ** rng_of(case["seed"], 4, k).integers(-2, 3)))
    ops = case["uses"]
    mps = use(mps, ops, case["seed"])
    x = rng_of(case["seed"], 6).normal(size=(case["batch"], n, cfg["feature_dim"]))
    tx = tens(x, dtype)
    x = to_np(tx).astype(float)

    def compare(chain, what, extra=0.0):
        ref = ref_mps(chain, x, per)
        now = chain_of(mps)
        dims = sum(sum(t.shape) for _, t, _ in now)
        bound = norm_bound(chain, x) + norm_bound(now, x)
        tol = (40 * EPS[dtype] * dims * bound * (max_d if per else 1))[:, None]
        close(y, ref, np.broadcast_to(tol, ref.shape), what)
        close(y, ref_mps(now, x, per), chain_tol(now, x, per, dtype), what + " versus its own cores")
        return tol

    counter, flips, cut = 0, 0, False
    for i, update in enumerate([None] + case["updates"]):
        # Feed inputs until the next call rearranges
        while counter < thr:
            chain = chain_of(mps)
            with mode_of(ops), sut(f"round {i}: evaluating an adaptive MPS {ops}"):
                y = mps(tx)
            counter += len(x)
            compare(chain, f"round {i}: output between rearrangements")
        if update == "lone zero":
            # Cores which are not merged with others may vanish
            with torch.no_grad():
                for m in mps.linear_region.module_list:
                    if type(m).__name__ in ("InputSite", "OutputSite"):
                        m.tensor.zero_()
                        ctx.label("zero core")
        elif update and not case["default_init"]:
            random_active(mps, case["seed"] + i, update)
        chain = chain_of(mps)
        plan, _ = merged_plan(chain)
        for bond, mat in plan:
            svs = np.linalg.svd(mat, compute_uv=False)
            if ambiguous(svs, cfg["cutoff"], dtype) or not (svs >= cfg["cutoff"]).any():
                ctx.label("stopped: cutoff")
                return flips > 0 and max_d > 1
            kept = min(int((svs >= cfg["cutoff"]).sum()), max_d)
            if kept < len(svs) and svs[kept] > 1e-9 * svs[0]:
                cut = True
                # The optimal truncation is only unique (and stable) with a gap
                if svs[kept - 1] - svs[kept] < 1e-4 * svs[0]:
                    ctx.label("stopped: no gap")
                    return flips > 0 and max_d > 1
        short = truncated_chain(chain, cfg["cutoff"], max_d)
        old = active_ids(mps)
        with mode_of(ops), sut(f"round {i}: evaluating an adaptive MPS {ops}"):
            y = mps(tx)
        check(active_ids(mps) != old, f"round {i}: not rearranged")
        flips += 1
        counter += len(x) - thr
        # Truncated subspaces are determined up to eps / gap
        gap = 1.0
        for bond, mat in plan:
            svs = np.linalg.svd(mat, compute_uv=False)
            kept = min(int((svs >= cfg["cutoff"]).sum()), max_d)
            if kept < len(svs) and svs[kept] > 1e-9 * svs[0]:
                gap = min(gap, (svs[kept - 1] - svs[kept]) / svs[0])
        ref = ref_mps(short, x, per)
        now = chain_of(mps)
        dims = sum(sum(t.shape) for _, t, _ in now)
        bound = norm_bound(chain, x) + norm_bound(now, x)
        tol = 60 * EPS[dtype] * dims * bound * (max_d if per else 1) / gap
        tol = np.broadcast_to(tol[:, None], ref.shape)
        close(y, ref, tol, f"round {i}: output after rearrangement {flips} ({'truncating' if cut else 'not truncating'})")
        close(y, ref_mps(now, x, per), chain_tol(now, x, per, dtype),
              f"round {i}: output after a rearrangement versus its own cores")
        norms = []
        for kind, t, _ in now:
            norms.append(np.linalg.norm(t))
        check(np.isfinite(norms).all(), f"round {i}: core norms {norms}")
        ctx.label("truncating" if cut else "not truncating")
    cfg_labels(cfg, ctx)
    ctx.label(*ops)
    ctx.label(dtype, f"rearrangements {min(flips, 5)}")
    return flips > 0 and max_d > 1


FACETS = [
    Facet("rearrangements", cases(), run, 2500),
    Facet("long", cases(big=True), run, 300, 10000),
    Facet("extents", cases(big="extents"), run, 250, 8000),
]

from common import *
from core import *

RULE = (
    "A case is a tensor (1-5 axes on each side in any order, any sizes, several value styles including low rank and "
    "equal singular values), a split string with generated letters, max_D, cutoff, sv_right and sv_vec; "
    "non-trivial when the matrix has at least two singular values."
)

LETTERS = "abcdefghijklmnopqrstuvwxyz"


@st.composite
def cases(draw, big=False):
    top = 5 if not big else 9
    nl, nr = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    dims = draw(st.lists(st.integers(1, top), min_size=nl + nr, max_size=nl + nr))
    letters = draw(st.permutations(list(LETTERS)))[: nl + nr + 1]
    order = draw(st.permutations(list(range(nl + nr))))
    left = draw(st.permutations(list(range(nl)) + ["bond"]))
    right = draw(st.permutations(list(range(nl, nl + nr)) + ["bond"]))
    return {
        "nl": nl, "dims": dims, "letters": letters, "order": list(order), "left": list(left), "right": list(right),
        "max_D": draw(st.sampled_from([None, 1, 2, 3, 5, 8, 20])),
        "cutoff": draw(st.sampled_from(["default", "tiny", "gap", "gap", "gap", "above"])),
        "which": draw(st.integers(0, 5)), "sv_right": draw(st.booleans()),
        "sv_vec": draw(st.sampled_from(["none", "right", "right", "wrong"])),
        "style": draw(st.sampled_from(["normal", "normal", "int", "lowrank", "equal", "decay", "sparse"])),
        "scale": draw(st.sampled_from([0, 0, -6, 6])), "seed": draw(seeds), "dtype": draw(dtypes),
        "spaces": draw(st.booleans()), "grad": draw(st.booleans()),
    }


def matrix(case, a, b):
    rng = rng_of(case["seed"], 1)
    style = case["style"]
    k = min(a, b)
    if style == "lowrank":
        r = max(1, k // 2)
        return rng.normal(size=(a, r)) @ rng.normal(size=(r, b))
    if style in ("equal", "decay"):
        u = np.linalg.qr(rng.normal(size=(a, a)))[0][:, :k]
        v = np.linalg.qr(rng.normal(size=(b, b)))[0][:, :k]
        s = np.ones(k) if style == "equal" else 2.0 ** -np.arange(k)
        return (u * s) @ v.T
    return arr(rng, (a, b), style)


def run(case, ctx):
    from torchmps.utils import svd_flex

    torch.set_default_dtype(DT[case["dtype"]])
    nl, dims, let, dtype = case["nl"], case["dims"], case["letters"], case["dtype"]
    a, b = int(np.prod(dims[:nl])), int(np.prod(dims[nl:]))
    mat = matrix(case, a, b) * 10.0 ** case["scale"]
    mat = to_np(tens(mat, dtype)).astype(float)
    full = mat.reshape(dims).transpose(case["order"])
    bond = let[-1]
    init = "".join(let[k] for k in case["order"])
    names = {k: let[k] for k in range(len(dims))}
    names["bond"] = bond
    left, right = ("".join(names[k] for k in case[s]) for s in ("left", "right"))
    text = f"{init}->{left},{right}"
    if case["spaces"]:
        text = f"{init} -> {left} , {right}"
    svs = np.linalg.svd(mat, compute_uv=False)
    top, max_d = svs[0], case["max_D"]
    if top == 0:
        raise Skip
    noise = 1e3 * EPS[dtype] * top
    if case["cutoff"] == "default":
        cutoff = 1e-10
    elif case["cutoff"] == "tiny":
        cutoff = 1e-14 * top if dtype == "float64" else 1e-5 * top
    elif case["cutoff"] == "above":
        cutoff = 1.5 * top
    else:
        k = min(case["which"], len(svs) - 1)
        below = svs[k + 1] if k + 1 < len(svs) else 0.0
        cutoff = 0.5 * (svs[k] + below)
    if np.any(np.abs(svs - cutoff) <= noise) and (svs > noise).any():
        # Rank decided by rounding only
        if np.any((np.abs(svs - cutoff) <= noise)):
            ctx.label("cutoff within rounding of a singular value")
            raise Skip
    kwargs = {"sv_right": case["sv_right"]}
    if max_d is not None:
        kwargs["max_D"] = max_d
    if case["cutoff"] != "default":
        kwargs["cutoff"] = cutoff
    vec = None
    size = max_d if max_d is not None else len(svs)
    if case["sv_vec"] != "none":
        vec = torch.full((size + (1 if case["sv_vec"] == "wrong" else 0),), 7.0)
        kwargs["sv_vec"] = vec
    tensor = tens(full, dtype)
    if case["grad"]:
        tensor.requires_grad_(True)
    kept = tensor.detach().clone()
    if case["sv_vec"] == "wrong":
        refuses(lambda: svd_flex(tensor, text, **kwargs)[0], "sv_vec of the wrong length", (TypeError,))
        return True
    rank = int((svs >= cutoff).sum())
    rank = min(rank, max_d) if max_d is not None else rank
    if rank == 0:
        refuses(lambda: svd_flex(tensor, text, **kwargs)[0], "cutoff above all singular values", (RuntimeError,))
        ctx.label("refused")
        return True
    with sut(f"svd_flex({text})"):
        lt, rt, got = svd_flex(tensor, text, **kwargs)
    same(tensor, kept, "tensor handed to svd_flex")
    check(int(got) == rank, f"bond dimension {got}, expected {rank} (singular values {svs[:6]}, cutoff {cutoff})")
    width = max_d if max_d is not None else rank
    dim_of = {let[k]: dims[k] for k in range(len(dims))}
    dim_of[bond] = width
    check(tuple(lt.shape) == tuple(dim_of[c] for c in left), f"left tensor has shape {tuple(lt.shape)}")
    check(tuple(rt.shape) == tuple(dim_of[c] for c in right), f"right tensor has shape {tuple(rt.shape)}")
    check(lt.dtype == DT[dtype] and rt.dtype == DT[dtype], "dtype of the pieces")
    # Matrices with the bond last / first
    lm = np.einsum(f"{left}->{''.join(let[:nl])}{bond}", to_np(lt).astype(float)).reshape(a, width)
    rm = np.einsum(f"{right}->{bond}{''.join(let[nl:-1])}", to_np(rt).astype(float)).reshape(width, b)
    same(lm[:, rank:], np.zeros((a, width - rank)), "padding of the left tensor")
    same(rm[rank:], np.zeros((width - rank, b)), "padding of the right tensor")
    err = np.linalg.norm(mat - lm @ rm)
    best = np.sqrt((svs[rank:] ** 2).sum())
    tol = 50 * EPS[dtype] * (a + b) * np.linalg.norm(mat)
    check(err <= best * (1 + 1e-7 if dtype == "float64" else 1.001) + tol,
          f"approximation error {err}, best possible for rank {rank} is {best}")
    ortho = lm[:, :rank].T @ lm[:, :rank] if case["sv_right"] else rm[:rank] @ rm[:rank].T
    close(ortho, np.eye(rank), 50 * EPS[dtype] * (a + b), "orthonormality of the piece without singular values")
    other = rm[:rank] @ rm[:rank].T if case["sv_right"] else lm[:, :rank].T @ lm[:, :rank]
    close(other, np.diag(svs[:rank] ** 2), 100 * EPS[dtype] * (a + b) * top ** 2, "Gram matrix of the piece with the singular values")
    if vec is not None:
        want = np.concatenate([svs, np.zeros(size)])[:size]
        close(vec, want, 100 * EPS[dtype] * (a + b) * top, "sv_vec")
    # Rebuild through the reversed string
    back = np.einsum(f"{left},{right}->{init}", to_np(lt).astype(float), to_np(rt).astype(float))
    check(abs(np.linalg.norm(full - back) - err) <= tol + 1e-9 * err, "contracting both tensors along the bond")
    ctx.label("max_D" if max_d else "no max_D", case["cutoff"], case["style"],
              "truncated" if rank < len(svs) else "full",
              "padded" if width > rank else "not padded", "sv_right" if case["sv_right"] else "sv_left")
    return len(svs) > 1


@st.composite
def boundary(draw):
    n = draw(st.integers(1, 4))
    return {"exps": sorted(draw(st.lists(st.integers(-4, 4), min_size=n, max_size=n)), reverse=True),
            "which": draw(st.integers(0, n - 1)), "max_D": draw(st.sampled_from([None, 1, 2, 6])),
            "sv_right": draw(st.booleans())}


def run_boundary(case, ctx):
    """Singular values equal to the cutoff are kept"""
    from torchmps.utils import svd_flex

    torch.set_default_dtype(torch.float64)
    vals = [2.0 ** e for e in case["exps"]]
    cutoff = vals[case["which"]]
    mat = torch.diag(torch.tensor(vals))
    for svs in (torch.svd(mat)[1], torch.linalg.svdvals(mat), np.linalg.svd(mat.numpy(), compute_uv=False)):
        if to_np(svs).tolist() != vals:
            raise Skip  # not exact on this machine
    kwargs = {} if case["max_D"] is None else {"max_D": case["max_D"]}
    with sut("svd_flex"):
        lt, rt, got = svd_flex(mat, "ij->iu,uj", cutoff=cutoff, sv_right=case["sv_right"], **kwargs)
    want = min(sum(v >= cutoff for v in vals), case["max_D"] or 99)
    check(int(got) == want, f"rank {got}, expected {want}: singular values {vals}, cutoff {cutoff}")
    out = lt @ rt
    if len(set(vals)) == len(vals):
        close(out, np.diag([v if k < want else 0.0 for k, v in enumerate(vals)]), 1e-12, "truncated diagonal matrix")
    ctx.label(f"rank {want}")
    return len(vals) > 1


FACETS = [
    Facet("boundary", boundary(), run_boundary, 1500, 6000),
    Facet("splits", cases(), run, 12000),
    Facet("large", cases(big=True), run, 600, 20000),
]

from common import *
from core import *

RULE = (
    "A case is a labelled data set of generated size, shape, dtype and memory layout which is shuffled jointly, a "
    "batch of labels, or an image length. Non-trivial when there are at least two data (or labels), or a length of "
    "at least 3."
)

NP_TYPES = ["float32", "float64", "float16", "int64", "int32", "int16", "int8", "uint8", "bool", "complex64",
            "complex128"]


@st.composite
def data_sets(draw):
    n = draw(st.one_of(st.integers(0, 6), st.integers(2, 60), wint(60, 3000, 300)))
    return {
        "n": n, "shape": draw(st.lists(st.integers(1, 4), max_size=3)),
        "dtype": draw(st.sampled_from(NP_TYPES)),
        "labels": draw(st.sampled_from(["int", "int32", "column", "onehot", "float"])),
        "layout": draw(layouts), "llayout": draw(layouts), "seed": draw(seeds),
        "values": draw(st.sampled_from(["distinct", "random"])), "twice": draw(st.booleans()),
    }


def run_shuffle(case, ctx):
    from torchmps.utils import joint_shuffle

    rng, n = rng_of(case["seed"]), case["n"]
    shape = (n,) + tuple(case["shape"])
    size = int(np.prod(shape))
    if case["values"] == "distinct":
        a = np.arange(size).reshape(shape).astype(case["dtype"])
    else:
        a = rng.integers(-3, 4, size=shape).astype(case["dtype"])
    tags = rng.permutation(n)  # distinct labels, which tell the data apart
    if case["labels"] == "column":
        lab = tags[:, None]
    elif case["labels"] == "onehot":
        if n > 300:
            lab = np.stack([tags, -tags], axis=1)
        else:
            lab = np.eye(n, dtype=np.float32)[tags] if n else np.zeros((0, 0), dtype=np.float32)
    else:
        lab = tags.astype({"int": "int64", "int32": "int32", "float": "float64"}[case["labels"]])

    def put(b, kind):
        t = torch.from_numpy(b.copy())
        return layout(t, kind) if n else t

    data, labels = put(a, case["layout"]), put(lab, case["llayout"])
    rounds = 2 if case["twice"] else 1
    for _ in range(rounds):
        with sut("joint_shuffle"):
            data, labels = joint_shuffle(data, labels)
    check(isinstance(data, torch.Tensor) and isinstance(labels, torch.Tensor), "joint_shuffle returns no tensors")
    d, l = to_np(data), to_np(labels)
    check(d.shape == a.shape and l.shape == lab.shape,
          f"joint_shuffle: shapes {d.shape}, {l.shape}, expected {a.shape}, {lab.shape}")
    check(d.dtype == a.dtype and l.dtype == lab.dtype, f"joint_shuffle: dtypes {d.dtype}, {l.dtype}")
    if case["labels"] == "onehot" and n <= 300:
        now = l.argmax(1) if n else np.zeros(0, dtype=int)
    else:
        now = (l[:, 0] if l.ndim == 2 else l).astype(int)
    check(sorted(now.tolist()) == list(range(n)), "joint_shuffle: labels got lost or duplicated")
    where = np.empty(n, dtype=int)
    where[tags] = np.arange(n)
    perm = where[now] if n else now
    same(labels, lab[perm], "shuffled labels")
    same(data, a[perm], "data, put in the order of the labels")
    check(n < 20 or rounds > 1 or list(perm) != list(range(n)), "joint_shuffle leaves the order as it was")
    ctx.label(case["dtype"], f"labels {case['labels']}", f"order {len(shape)}", case["layout"])
    return n >= 2


@st.composite
def label_lists(draw):
    top = draw(wint(1, 200, 12))
    return {"max": top, "labels": draw(st.lists(st.integers(0, top - 1), max_size=30)),
            "form": draw(st.sampled_from(["list", "tensor", "int32", "array"]))}


def run_onehot(case, ctx):
    from torchmps.utils import onehot

    labels, top = case["labels"], case["max"]
    arg = {"list": lambda: list(labels), "tensor": lambda: torch.tensor(labels, dtype=torch.int64),
           "int32": lambda: torch.tensor(labels, dtype=torch.int32),
           "array": lambda: np.array(labels, dtype=np.int64)}[case["form"]]()
    with sut("onehot"):
        out = onehot(arg, top)
    check(out.is_floating_point(), f"onehot: dtype {out.dtype}")
    want = np.zeros((len(labels), top))
    for i, k in enumerate(labels):
        want[i, k] = 1
    check(tuple(out.shape) == want.shape, f"onehot: shape {tuple(out.shape)}, expected {want.shape}")
    check(np.array_equal(to_np(out), want), "onehot: wrong vectors")
    ctx.label(case["form"])
    return len(set(labels)) >= 2


@st.composite
def lengths(draw):
    return {"length": draw(st.integers(1, 11)), "seed": draw(seeds), "before": draw(st.booleans())}


def run_hv(case, ctx):
    from torchmps.utils import load_HV_data

    n = case["length"]
    np.random.seed(case["seed"])
    if case["before"]:
        with sut("load_HV_data"):
            load_HV_data(n)
        np.random.seed(case["seed"] // 2)
    with sut("load_HV_data"):
        out = load_HV_data(n)
    check(len(out) == 4 and all(isinstance(t, torch.Tensor) for t in out), "load_HV_data: not four tensors")
    xa, ya, xb, yb = (to_np(t) for t in out)
    total = 2 * (2 ** n - 2)
    check(len(xa) == len(ya) and len(xb) == len(yb), "load_HV_data: numbers of images and labels differ")
    check(len(xa) + len(xb) == total, f"load_HV_data: {len(xa) + len(xb)} images, expected {total}")
    check(4 * len(xb) == total, f"load_HV_data: {len(xb)} of {total} images in the test set")
    check(xa.shape[1:] == (n, n) and xb.shape[1:] == (n, n), f"load_HV_data: images of shape {xa.shape[1:]}")
    check(not out[1].is_floating_point() and not out[3].is_floating_point(), "load_HV_data: labels are not integers")
    if total == 0:
        return False
    x, y = np.concatenate([xa, xb]), np.concatenate([ya, yb])
    check(np.isin(x, (0, 1)).all(), "load_HV_data: images are not black and white")
    check(np.isin(y, (0, 1)).all(), "load_HV_data: labels are not 0 and 1")
    # Rows of a horizontal image are constant, those of a vertical image are equal
    flat = np.where((y == 0)[:, None], x[:, :, 0], x[:, 0, :])
    full = np.where((y == 0)[:, None, None], flat[:, :, None], flat[:, None, :])
    check(np.array_equal(np.broadcast_to(full, x.shape), x), "load_HV_data: a stripe disagrees with its label")
    code = (flat @ (2 ** np.arange(n))).astype(int)
    for label in (0, 1):
        check(sorted(code[y == label].tolist()) == list(range(1, 2 ** n - 1)),
              f"load_HV_data: patterns of label {label} are missing or repeated")
    if n >= 5:
        back = (flat @ (2 ** np.arange(n)[::-1])).astype(int)
        for order in (code[len(xa):], back[len(xa):]):
            check((np.diff(order) < 0).any() and (np.diff(order) > 0).any(),
                  "load_HV_data: images are not shuffled")
    ctx.label(f"length {n}")
    return n >= 3


FACETS = [
    Facet("shuffle", data_sets(), run_shuffle, quick=3000),
    Facet("onehot", label_lists(), run_onehot, quick=800),
    Facet("stripes", lengths(), run_hv, quick=160),
]

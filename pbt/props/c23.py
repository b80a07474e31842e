from common import *
from core import *
import torch._dynamo  # noqa: F401  (slow to import, hence once before forking)
import torch.nn.utils.parametrize as parametrize
from torch.func import functional_call
from torch.utils.checkpoint import checkpoint

from props.c09 import batch_of, build, domain_ok, models, values

RULE = (
    "A case is a model of any class used inside a larger computation: behind a trained layer that makes its inputs and "
    "under one that takes its outputs, several times in one graph, in pieces of a batch, recomputed, with substituted, "
    "parametrised or shared parameters. The result and all gradients have to be those of the composition, put together "
    "from separate calls of the model. Non-trivial when some gradient of the model is not zero."
)
ASSUMPTIONS = [
    "Born machines are differentiated where the amplitudes do not cancel to below 1e-3 of their terms",
    "functional_call is used with tie_weights=False for adaptive models: their cores are registered under two names, and "
    "PyTorch does not restore modules (as opposed to parameters) that occur twice",
    "adaptive models are used between two rearrangements, in either merge state",
]


def active(model, case):
    """Parameters which the output depends on"""
    if case["kind"] != "adaptive":
        return {n: p for n, p in model.named_parameters() if p.numel()}
    ids = {id(p) for p in model.linear_region.module_list.parameters()}
    rest = {n: p for n, p in model.named_parameters() if n.startswith("feature_map") or id(p) in ids}
    return {n: p for n, p in rest.items() if p.numel()}


def prepare(case):
    torch.set_default_dtype(torch.float64)
    torch.manual_seed(case["seed"] % 991)
    if case["kind"] == "adaptive":
        case["cfg"]["merge_threshold"] = 500
    model, _ = build(case)
    values(model, case)
    if case["kind"] == "adaptive":
        for _ in range(case["flips"]):
            x = batch_of(case, 90, size=1)
            with torch.no_grad(), sut("evaluating"):
                model(x.expand(500, *x.shape[1:]))
                model(x)
            values(model, case)
    return model


def outputs(model, x, case):
    return model(x)


def conditioned(model, x, case):
    """Are the amplitudes of the inputs x well away from zero?"""
    if case["kind"] != "prob":
        return True
    if not domain_ok(model, case["cfg"]):
        return False
    cores, left, right = prob_params(model, case["cfg"]["seq_len"])
    with torch.no_grad():
        if model.embedding is not None:
            vecs = to_np(model.embedding(x))
        elif x.dtype.is_floating_point or x.is_complex():
            vecs = to_np(x)
        else:
            vecs = np.eye(case["cfg"]["input_dim"])[to_np(x)]
    amp = np.abs(ref_amps(cores, left, right, vecs))
    return not (amp < 1e-3 * ref_amps(cores, left, right, vecs, absval=True)).any()


def weights(y, case, k):
    return torch.tensor(rng_of(case["seed"], 70, k).normal(size=tuple(y.shape)))


def grads_of(total, params):
    got = torch.autograd.grad(total, list(params.values()), allow_unused=True)
    return {n: torch.zeros_like(p) if g is None else g for (n, p), g in zip(params.items(), got)}


def compare(got, want, what, size=None):
    for n, g in want.items():
        a = to_np(g)
        top = np.abs(a).max(initial=0) if size is None else size[n]
        close(got[n], a, 1e-7 * top + 1e-12, f"{what}: gradient of {n}")


def add(a, b):
    return {n: a[n] + b[n] for n in a}


# ------------------------------------------------------------- between other layers


@st.composite
def pipelines(draw):
    case = draw(models())
    case["flips"] = draw(st.integers(0, 1))
    case["batch"] = draw(st.integers(1, 5))
    case["pre"] = draw(st.sampled_from(["linear", "linear", "sigmoid", "shared", "none"]))
    case["post"] = draw(st.sampled_from(["linear", "softmax", "square", "none"]))
    case["how"] = draw(st.sampled_from(["sequential", "micro", "micro", "twice", "twice", "checkpoint", "accumulate", "nested",
                                        "retain"]))
    case["mode"] = draw(st.booleans())
    return case


class Reshape(torch.nn.Module):
    def __init__(self, shape):
        super().__init__()
        self.shape = shape

    def forward(self, x):
        return x.reshape(-1, *self.shape)


def run_pipeline(case, ctx):
    model = prepare(case)
    model.train(case["mode"])
    seed, kind, how = case["seed"], case["kind"], case["how"]
    x = batch_of(case, 0, size=case["batch"])
    discrete = not x.dtype.is_floating_point
    site = tuple(x.shape[1:])
    rng = rng_of(seed, 75)
    pre_kind = "none" if discrete else case["pre"]

    def layer(i, o):
        lin = torch.nn.Linear(i, o)
        with torch.no_grad():
            lin.weight.copy_(torch.tensor(rng.normal(size=(o, i)) / i ** 0.5))
            lin.bias.copy_(torch.tensor(rng.normal(size=o) / 2))
        return lin

    size = int(np.prod(site))
    if pre_kind == "none":
        pre, z = torch.nn.Identity(), x
    elif pre_kind == "shared":  # the same layer for every site
        per = site[-1] if len(site) == 2 else 1
        lin = layer(per, per)
        pre = torch.nn.Sequential(Reshape((size // per, per)), lin, Reshape(site))
        z = x
    else:
        acts = [torch.nn.Sigmoid()] if pre_kind == "sigmoid" else [torch.nn.Tanh()]
        pre = torch.nn.Sequential(layer(3, size), *acts, Reshape(site))
        z = torch.tensor(rng.normal(size=(case["batch"], 3)))
    with torch.no_grad():
        inner = pre(z)
    if not conditioned(model, inner, case):
        raise Skip
    with torch.no_grad(), sut("evaluating"):
        y0 = model(inner)
    width = 1 if kind == "prob" else y0.shape[1]
    mods = {"linear": lambda: [layer(width, 2)], "softmax": lambda: [torch.nn.LogSoftmax(-1)],
            "square": lambda: [layer(width, 2), torch.nn.Tanh()], "none": lambda: []}[case["post"]]()
    post = torch.nn.Sequential(*([Reshape((1,))] if kind == "prob" else []), *mods)
    params = {**{"pre." + n: p for n, p in pre.named_parameters()}, **active(model, case),
              **{"post." + n: p for n, p in post.named_parameters()}}
    w = weights(post(y0), case, 0)

    def piecewise(z, w):
        """Chain rule by hand, from separate calls"""
        a = pre(z)
        b = a.detach().clone()
        if not discrete:
            b.requires_grad_(True)
        with sut("evaluating on its own"):
            y = model(b)
        c = y.detach().clone().requires_grad_(True)
        total = (post(c) * w).sum()
        up = torch.autograd.grad(total, [c] + list(post.parameters()), allow_unused=True)
        own = active(model, case)
        back = torch.autograd.grad(y, list(own.values()) + ([] if discrete else [b]), up[0], allow_unused=True)
        out = dict(zip(own, back))
        if not discrete and list(pre.parameters()):
            out.update(zip(["pre." + n for n, _ in pre.named_parameters()],
                           torch.autograd.grad(a, list(pre.parameters()), back[-1], allow_unused=True)))
        out.update(zip(["post." + n for n, _ in post.named_parameters()], up[1:]))
        return y.detach(), {n: torch.zeros_like(params[n]) if g is None else g for n, g in out.items()}

    y1, want = piecewise(z, w)
    size_of = {n: np.abs(to_np(g)).max(initial=0) for n, g in want.items()}
    if how == "sequential":
        net = torch.nn.Sequential(pre, model, post)
        check(sum(1 for p in net.parameters()) == len(list(pre.parameters())) + len(list(model.parameters())) + len(list(post.parameters())),
              "parameters of the model inside a network")
        with sut("a model inside nn.Sequential"):
            got = grads_of((net(z) * w).sum(), params)
        compare(got, want, "inside nn.Sequential", size_of)
    elif how == "nested":
        net = torch.nn.ModuleDict({"a": torch.nn.ModuleList([pre, model])})
        check({"a.1." + n for n, _ in model.named_parameters()} <= set(n for n, _ in net.named_parameters()), "names inside a network")
        net.zero_grad(set_to_none=True)
        post.zero_grad(set_to_none=True)
        with sut("a model inside nested containers"):
            (post(net["a"][1](net["a"][0](z))) * w).sum().backward()
        compare({n: torch.zeros_like(p) if p.grad is None else p.grad for n, p in params.items()}, want, "inside nested containers", size_of)
    elif how in ("micro", "accumulate"):
        cut = int(rng.integers(0, case["batch"] + 1))
        rows = [slice(0, cut), slice(cut, None)] if how == "micro" else [slice(k, k + 1) for k in range(case["batch"])]
        rows = [r for r in rows if len(z[r])]
        parts, top = None, None
        for m in (pre, model, post):
            m.zero_grad(set_to_none=bool(seed % 2))
        for r in rows:
            with sut("evaluating part of a batch"):
                y, g = piecewise(z[r], w[r])
            top = {n: np.abs(to_np(v)).max(initial=0) + (top[n] if top else 0) for n, v in g.items()}
            close(y, to_np(y1[r]), 1e-8 * (1 + np.abs(to_np(y1)).max(initial=0)), "output for part of a batch")
            parts = g if parts is None else add(parts, g)
            if how == "accumulate":
                (post(model(pre(z[r]))) * w[r]).sum().backward()
        compare(parts, want, "gradients added over parts of a batch", top)
        if how == "accumulate":
            compare({n: torch.zeros_like(p) if p.grad is None else p.grad for n, p in params.items()}, want,
                    "gradients accumulated in .grad", top)
    elif how == "twice":
        # Two calls in one graph
        x2 = batch_of(case, 1, size=int(rng.integers(1, 4))) if pre_kind in ("none", "shared") else torch.tensor(rng.normal(size=(2, 3)))
        if pre_kind == "shared" and x2.shape[1:] != x.shape[1:]:  # sequences of another length
            raise Skip
        with torch.no_grad():
            if not conditioned(model, pre(x2), case):
                raise Skip
            w2 = weights(post(model(pre(x2))), case, 2)
        y2, want2 = piecewise(x2, w2)
        top = {n: np.abs(to_np(want2[n])).max(initial=0) + size_of[n] for n in want}
        with sut("calling a model twice in one graph"):
            a, b = model(pre(z)), model(pre(x2))
            total = (post(a) * w).sum() + (post(b) * w2).sum()
            got = grads_of(total, params)
        close(a, to_np(y1), 1e-9 * (1 + np.abs(to_np(y1)).max(initial=0)), "first of two calls")
        close(b, to_np(y2), 1e-9 * (1 + np.abs(to_np(y2)).max(initial=0)), "second of two calls")
        compare(got, add(want, want2), "two calls in one graph", top)
    elif how == "checkpoint":
        with sut("recomputing the model in the backward pass"):
            a = pre(z)
            y = checkpoint(model, a, use_reentrant=False)
            if y.requires_grad:
                got = grads_of((post(y) * w).sum(), params)
        compare(got, want, "recomputed in the backward pass", size_of)
    else:
        with sut("differentiating twice"):
            total = (post(model(pre(z))) * w).sum()
            list_ = list(params.values())
            first = torch.autograd.grad(total, list_, allow_unused=True, retain_graph=True)
            with torch.no_grad():
                model(inner)  # in between
            again = torch.autograd.grad(total, list_, allow_unused=True)
        for what, got in (("first", first), ("second", again)):
            compare({n: torch.zeros_like(p) if g is None else g for (n, p), g in zip(params.items(), got)}, want,
                    f"{what} pass over the same graph", size_of)
    ctx.label(kind, how, f"pre {pre_kind}", f"post {case['post']}")
    return any(size_of[n] > 0 for n in active(model, case))


# ------------------------------------------------------------- other parameters


@st.composite
def substitutions(draw):
    case = draw(models())
    case["flips"] = draw(st.integers(0, 1))
    case["how"] = draw(st.sampled_from(["functional", "functional", "func grad", "parametrised", "parametrised", "tied", "part tied",
                                        "vector"]))
    case["batch"] = draw(st.integers(1, 4))
    return case


@st.composite
def series(draw):
    case = draw(models())
    case["flips"], case["how"], case["batch"] = 0, "series", draw(st.integers(1, 3))
    same = draw(st.sampled_from([None, "data", "substitute"]))
    steps = ["data", "data", "substitute", "data grad", "substitute grad"] if same is None else [same]
    case["steps"] = draw(st.lists(st.sampled_from(steps), min_size=2, max_size=5))
    return case


class Cubic(torch.nn.Module):
    def forward(self, p):
        return p + 0.25 * p ** 3


def owner_of(model, name):
    *path, last = name.split(".")
    m = model
    for part in path:
        m = getattr(m, part)
    return m, last


def run_substitution(case, ctx):
    import copy

    model = prepare(case)
    seed, kind, how = case["seed"], case["kind"], case["how"]
    x = batch_of(case, 0, size=case["batch"])
    own = active(model, case)
    rng = rng_of(seed, 76)
    with sut("copy.deepcopy"):
        twin = copy.deepcopy(model)  # gets the new values
        keep = copy.deepcopy(model)
    twins = active(twin, case)
    old = {n: p.detach().clone() for n, p in model.named_parameters()}

    def reference(new):
        """Outputs and gradients for these values of the parameters"""
        with torch.no_grad():
            for n, v in new.items():
                twins[n].copy_(v)
        if not conditioned(twin, x, case):
            raise Skip
        with sut("evaluating"):
            y = twin(x)
        w = weights(y, case, 0)
        return y.detach(), w, grads_of((y * w).sum(), twins)

    def new_values(k):
        return {n: p.detach() * float(rng.choice([-1.5, 0.5, 1.0, 2.0])) + 0.3 * torch.tensor(rng.normal(size=tuple(p.shape))).to(p.dtype)
                for n, p in own.items()}

    def output_is(y, want, what):
        close(y, to_np(want), 1e-9 * (1 + np.abs(to_np(want)).max(initial=0)), what)

    size = None
    if how in ("functional", "func grad"):
        new = new_values(0)
        if seed % 3 == 0:  # some of them only
            new = {n: v for k, (n, v) in enumerate(new.items()) if k % 2 == seed // 3 % 2} or new
        want, w, grads = reference(new)
        size = {n: np.abs(to_np(g)).max(initial=0) for n, g in grads.items()}
        if how == "functional":
            leaves = {n: v.clone().requires_grad_(True) for n, v in new.items()}
            with sut("functional_call"):
                y = functional_call(model, leaves, (x,), tie_weights=kind != "adaptive")
                got = grads_of((y * w).sum(), leaves)
            output_is(y, want, "output for substituted parameters")
        else:
            with sut("torch.func.grad of functional_call"):
                got = torch.func.grad(lambda p: (functional_call(model, p, (x,), tie_weights=kind != "adaptive") * w).sum())(new)
        compare(got, {n: grads[n] for n in new}, f"{how} with substituted parameters")
        for n, p in model.named_parameters():
            same(p, old[n], f"parameter {n} after a call with substituted ones")
            check(p.grad is None, f"parameter {n} got a gradient from a call with substituted ones")
        if not conditioned(model, x, case):
            raise Skip
        with torch.no_grad(), sut("evaluating"):
            output_is(model(x), keep(x), "output after a call with substituted parameters")
    elif how == "series":
        # One set of parameters after the other, whose memory gets used again, or changed in place
        with sut("copy.deepcopy"):
            fresh = copy.deepcopy(model)
        theirs = active(fresh, case)
        for k, step in enumerate(case["steps"]):
            new = new_values(k)
            want, w, _ = reference(new)
            data = step.startswith("data")
            with torch.set_grad_enabled(step.endswith("grad")), sut("evaluating with a series of parameters"):
                if data:
                    for n, p in theirs.items():
                        p.data.copy_(new[n])
                    y = fresh(x)
                else:
                    y = functional_call(model, {n: v.clone() for n, v in new.items()}, (x,), tie_weights=kind != "adaptive")
            output_is(y, want, f"output for parameters {k} of a series ({'new data' if data else 'substituted'})")
            del y
        for n, p in model.named_parameters():
            same(p, old[n], f"parameter {n} after calls with substituted ones")
        size = {"": 1.0}
    elif how == "vector":
        # As optimizers over one vector of parameters do
        new = new_values(0)
        want, w, grads = reference(new)
        size = {n: np.abs(to_np(g)).max(initial=0) for n, g in grads.items()}
        with torch.no_grad():
            flat = torch.cat([torch.view_as_real(v).reshape(-1) if v.is_complex() else v.reshape(-1) for v in new.values()])
        at = 0
        for n, p in own.items():
            m = p.numel() * (2 if p.is_complex() else 1)
            part = flat[at:at + m]
            p.data = torch.view_as_complex(part.reshape(*p.shape, 2)) if p.is_complex() else part.view_as(p)
            at += m
        with sut("evaluating with parameters that are views of a vector"):
            y = model(x)
        output_is(y, want, "output for parameters that are views of a vector")
        compare(grads_of((y * w).sum(), own), grads, "parameters that are views of a vector", size)
    elif how == "parametrised":
        names = [n for n in own if not n.startswith(("embedding", "feature_map"))]
        names = [n for k, n in enumerate(names) if (seed >> k) & 1] or names[:1]
        raw = {n: own[n].detach().clone() for n in names}
        for n in names:
            m, last = owner_of(model, n)
            parametrize.register_parametrization(m, last, Cubic())
        for k in range(2):
            if k:
                with torch.no_grad():
                    for n in names:
                        m, last = owner_of(model, n)
                        raw[n] = raw[n] * 0.75
                        m.parametrizations[last].original.mul_(0.75)
            want, w, grads = reference({n: v + 0.25 * v ** 3 for n, v in raw.items()})
            size = {n: np.abs(to_np(g)).max(initial=0) for n, g in grads.items()}
            with sut("evaluating with parametrised cores"):
                y = model(x)
            output_is(y, want, "output with parametrised cores")
            leaves = {n: owner_of(model, n)[0].parametrizations[n.split(".")[-1]].original for n in names}
            got = grads_of((y * w).sum(), leaves)
            compare(got, {n: grads[n] * (1 + 0.75 * raw[n] ** 2).conj() for n in names}, "parametrised cores",
                    {n: size[n] * (1 + np.abs(to_np(raw[n])).max(initial=0) ** 2) for n in names})
    else:
        # A second model that holds the same parameters
        with sut("copy.deepcopy"):
            other = copy.deepcopy(model)
        theirs = active(other, case)
        names = list(own) if how == "tied" else [n for k, n in enumerate(own) if (seed >> k) & 1] or list(own)[:1]
        if how == "part tied":
            with torch.no_grad():
                for n, v in new_values(3).items():
                    theirs[n].copy_(v)
        for n in names:
            m, last = owner_of(other, n)
            setattr(m, last, own[n])
        x2 = batch_of(case, 1, size=case["batch"])
        if kind == "ti":
            x2 = x2[:, : max(1, x2.shape[1])]
        with torch.no_grad():
            if not conditioned(model, x, case) or not conditioned(other, x2, case):
                raise Skip
            w, w2 = weights(model(x), case, 0), weights(other(x2), case, 2)
        first = grads_of((model(x) * w).sum(), own)
        rest = active(other, case)
        second = grads_of((other(x2) * w2).sum(), rest)
        with torch.no_grad():
            for n, p in rest.items():
                twins[n].copy_(p)
        alone = grads_of((twin(x2) * w2).sum(), twins)
        compare(second, alone, "model with shared parameters")
        with sut("training models with shared parameters"):
            total = (model(x) * w).sum() + (other(x2) * w2).sum()
            got = grads_of(total, own)
        size = {n: np.abs(to_np(first[n])).max(initial=0) + np.abs(to_np(second[n])).max(initial=0) for n in own}
        compare(got, {n: first[n] + second[n] if n in names else first[n] for n in own}, "parameters shared by two models", size)
    ctx.label(kind, how)
    return any(v > 0 for v in size.values())


FACETS = [
    Facet("pipelines", pipelines(), run_pipeline, 1200),
    Facet("substitutions", substitutions(), run_substitution, 1000),
    Facet("series", series(), run_substitution, 800),
]

"""Further planted bugs, in the format of bugs1.py"""
BUGS = []
T, C, P, M, E, U, V = ("torchmps/torchmps.py", "torchmps/contractables.py", "torchmps/prob_mps.py", "torchmps/mps_base.py",
                       "torchmps/embeddings.py", "torchmps/utils.py", "torchmps/utils2.py")


def bug(bid, prop, edits, needs, breaks, demo):
    BUGS.append({"id": bid, "property": prop, "edits": edits, "needs": needs, "breaks": breaks, "demo": demo})


bug("c04-clamped-pixels", "C04", [
    (T, "            embedded_data = torch.stack([input_data, 1 - input_data], dim=2)\n",
        "            pixels = input_data.clamp(0, 1)  # guards against rounding in preprocessing\n            embedded_data = torch.stack([pixels, 1 - pixels], dim=2)\n")],
    "raw inputs outside the unit interval", "raw values are clipped to the unit interval", '''
import torch
from torchmps import MPS
torch.manual_seed(0)
m = MPS(input_dim=4, output_dim=2, bond_dim=2, init_std=0.3)
x = torch.tensor([[0.2, 1.5, -0.4, 0.9]])
assert torch.allclose(m(x), m(torch.stack([x, 1 - x], 2)))
''')

bug("c02-prefix-views", "C02", [
    (T, "                input_data = [self.embed_input(s.unsqueeze(0))[0] for s in input_data]\n", '''                # Repeated sequences (as in negative sampling) are embedded once
                embedded = {}
                for s in sorted(input_data, key=len):
                    embedded[s.data_ptr()] = self.embed_input(s.unsqueeze(0))[0]
                input_data = [embedded[s.data_ptr()] for s in input_data]
''')],
    "a list of raw sequences that are views of the same memory (prefixes of one sequence)", "prefixes are replaced by the longest sequence", '''
import torch
from torchmps import TI_MPS
torch.manual_seed(0)
m = TI_MPS(output_dim=2, bond_dim=3, init_std=0.3)
x = torch.rand(6)
y = m([x[:2], x[:4], x])
assert torch.allclose(y[0], m([x[:2].clone()])[0])
''')

bug("c03-default-dtype", "C03", [
    (P, '''        # Apply embedding function if it is defined
        if self.embedding is not None:
            input_data = self.embedding(input_data)

        if slim_eval and not parallel_eval:
''', '''        # Scales are accumulated in the precision of the model
        old_dtype = torch.get_default_dtype()
        torch.set_default_dtype(self.core_tensors.abs().dtype)

        # Apply embedding function if it is defined
        if self.embedding is not None:
            input_data = self.embedding(input_data)

        if slim_eval and not parallel_eval:
'''), (P, '''        # Get log normalization and check for infinities
        log_norm = self.log_norm()
''', '''        # Get log normalization and check for infinities
        log_norm = self.log_norm()
        torch.set_default_dtype(old_dtype)
''')],
    "an evaluation that is refused, by a model whose dtype is not the default one", "the default dtype stays changed after a refused evaluation", '''
import torch
from torchmps import ProbMPS
torch.manual_seed(0)
m = ProbMPS(seq_len=3, input_dim=2, bond_dim=2).double()
assert m(torch.zeros(1, 3).long()).dtype == torch.float64
assert torch.get_default_dtype() == torch.float32
try:
    m(torch.full((1, 3), 7))
except Exception:
    pass
assert torch.get_default_dtype() == torch.float32
''')

bug("c03-clamped-parameters", "C03", [
    (T, '''        Contractable.global_bs.value = input_data.size(0)

''', '''        Contractable.global_bs.value = input_data.size(0)

        # Keep cores in a sane range
        if self.training:
            for param in self.parameters():
                param.data.clamp_(-100.0, 100.0)

''')],
    "parameters with elements above one hundred, in training mode", "evaluating modifies large parameters", '''
import torch
from torchmps import MPS
torch.manual_seed(0)
m = MPS(input_dim=3, output_dim=2, bond_dim=2, init_std=0.3)
with torch.no_grad():
    for p in m.parameters():
        p.mul_(1e4)
before = [p.clone() for p in m.parameters()]
m(torch.rand(2, 3))
assert all(torch.equal(p, q) for p, q in zip(before, m.parameters()))
''')

bug("c06-exact-scales", "C06", [
    (T, "            log_norms.append([torch.log(norm) for norm in core.get_norm()])\n", '''            # (powers of two leave the digits of all elements as they are)
            log_norms.append([log_2 * torch.log2(n).round() for n in core.get_norm()])
'''), (T, "        log_scale /= sum([len(ns) for ns in log_norms])\n", "        log_scale /= sum([len(ns) for ns in log_norms])\n        log_scale = log_2 * torch.round(log_scale / log_2)\n"),
    (T, "from .utils import init_tensor, svd_flex\n", "from .utils import init_tensor, svd_flex\nfrom .utils2 import log_2\n")],
    "a rearrangement of cores whose norms differ by more than a factor of about 1.4", "the rescaling factors do not multiply to one", '''
import torch
from torchmps import MPS
torch.manual_seed(0)
m = MPS(input_dim=5, output_dim=2, bond_dim=3, adaptive_mode=True, merge_threshold=1)
with torch.no_grad():
    for k, p in enumerate(m.linear_region.module_list.parameters()):
        p.copy_(torch.randn_like(p) * 3.0 ** k)
m.linear_region.cutoff = 1e-30
m.linear_region.merge_threshold = 10**9
x = torch.rand(2, 5)
a = m(x)
m.linear_region.merge_threshold = 1
b = m(x)
c = m.linear_region
# full-rank truncation: compare with double rearrangement-free contraction
import numpy as np
m2 = MPS(input_dim=2, output_dim=1, bond_dim=4, feature_dim=2, adaptive_mode=True, merge_threshold=1)
with torch.no_grad():
    for k, p in enumerate(m2.linear_region.module_list.parameters()):
        p.copy_(torch.randn_like(p) * (1.3 + k))
y = torch.rand(2, 2)
m2.linear_region.input_counter = 0
a = m2(y)
b = m2(y)
assert torch.allclose(a, b, rtol=1e-3), (a, b)
''')

bug("c08-own-matmul", "C08", [
    (M, "TensorSeq = Union[Tensor, Sequence[Tensor]]\n", '''TensorSeq = Union[Tensor, Sequence[Tensor]]


class LeanMatmul(torch.autograd.Function):
    """
    Matrix product which keeps no graph of its operands for the backward pass
    """

    @staticmethod
    def forward(ctx, left, right):
        ctx.operands = left.detach(), right.detach()
        return torch.matmul(left, right)

    @staticmethod
    def backward(ctx, grad):
        left, right = ctx.operands
        grad_left = torch.matmul(grad, right.transpose(-2, -1).conj())
        grad_right = torch.matmul(left.transpose(-2, -1).conj(), grad)
        return grad_left, grad_right
'''), (M, "        vecs = torch.matmul(vecs, mats)\n", "        vecs = LeanMatmul.apply(vecs, mats)\n")],
    "second derivatives in slim evaluation", "second derivatives of slim evaluation lack terms", '''
import torch
from torchmps import ProbMPS
torch.manual_seed(0)
m = ProbMPS(seq_len=3, input_dim=2, bond_dim=2)
x = torch.tensor([[0, 1, 0]])
def second(**kw):
    g = torch.autograd.grad(m(x, **kw).sum(), m.core_tensors, create_graph=True)[0]
    return torch.autograd.grad((g ** 2).sum(), m.core_tensors)[0]
assert torch.allclose(second(), second(slim_eval=True), rtol=1e-3, atol=1e-4)
''')

bug("c10-long-lengths", "C10", [
    (M, '''        # Apply transfer operator `length` times, then add final correction
        for core in core_tensor:
            dens_mat, log_norm = transfer_op(core, dens_mat, log_norm)
''', '''        # Apply transfer operator `length` times, then add final correction
        last = None
        for i, core in enumerate(core_tensor):
            dens_mat, log_norm = transfer_op(core, dens_mat, log_norm)

            # The dominant eigenvector is reached sooner or later, from where on
            # every further factor is the same
            if uniform and i >= 8 and last is not None:
                gain = log_norm.detach() - last
                if i > 9 and abs(gain - last_gain) < 1e-3 * abs(gain):
                    log_norm = log_norm + (length - i - 1) * gain
                    break
            if uniform and i >= 8:
                last_gain = log_norm.detach() - last if last is not None else 0.0
                last = log_norm.detach()
''')],
    "uniform models with sequences of more than ten symbols whose transfer operator converges slowly", "norms of long sequences are extrapolated too early", '''
import torch
from torchmps.prob_mps import ProbUnifMPS
torch.manual_seed(0)
torch.set_default_dtype(torch.float64)
m = ProbUnifMPS(input_dim=2, bond_dim=3)
with torch.no_grad():
    m.core_tensors.copy_(torch.eye(3) + 0.05 * torch.randn(2, 3, 3))
core, (l, r) = m.core_tensors, m.edge_vecs
d = torch.outer(l, l)
for _ in range(40):
    d = sum(c.T @ d @ c for c in core)
assert torch.allclose(m.log_norm(40), (r @ d @ r).log(), rtol=1e-8), (m.log_norm(40), (r @ d @ r).log())
''')

bug("c11-byte-symbols", "C11", [
    (M, '''    if indexing and uniform:
        mat_slices = core_tensor[seq_input]
''', '''    if indexing and uniform:
        # Symbols of common alphabets fit into a byte, which saves memory traffic
        if input_dim <= 256:
            seq_input = seq_input.to(torch.int8)
        mat_slices = core_tensor[seq_input.long()]
''')],
    "a uniform model with an alphabet of 129 to 255 symbols, and a symbol above 127", "large symbols are mixed up", '''
import torch
from torchmps.prob_mps import ProbUnifMPS
torch.manual_seed(0)
m = ProbUnifMPS(input_dim=200, bond_dim=2, init_method="normal")
x = torch.tensor([[150, 3]])
assert torch.allclose(m(x), m(x, slim_eval=True), rtol=1e-3)
''')

bug("c12-version-cache", "C12", [
    (E, '''        """
        Lambda matrix for the current parameters of the embedding function
        """
        return self.make_lambda()
''', '''        """
        Lambda matrix for the current parameters of the embedding function
        """
        # Without gradients the matrix can be kept until the parameters change
        if torch.is_grad_enabled():
            return self.make_lambda()
        key = tuple((id(p), p._version) for p in self.parameters())
        if getattr(self, "_lamb_key", None) != key:
            self._lamb_key, self._lamb_mat = key, self.make_lambda()
        return self._lamb_mat
''')],
    "log probabilities without gradients, before and after parameters of the embedding are changed through .data (or loaded buffers)",
    "stale normalisation after parameters are changed through .data", '''
import torch
from torchmps import ProbMPS
from torchmps.embeddings import init_mlp_embed
torch.manual_seed(0)
e = init_mlp_embed(3, 2, [4])
m = ProbMPS(seq_len=2, input_dim=3, bond_dim=2, embed_fun=e)
with torch.no_grad():
    m.log_norm()
    for p in e.parameters():
        p.data.mul_(2.0)
    a = m.log_norm()
b = m.log_norm()
assert torch.allclose(a, b), (a, b)
''')

bug("c14-short-unscaled", "C14", [
    (M, '''        rescale = product.abs().sum(dim=(-2, -1), keepdim=True) / target_norm
        rescale = nonzero_scale(rescale)
        log_scale = log_scale + torch.log(rescale)
        product = product / rescale
''', '''        if num_mats > 8:  # short products are safe
            rescale = product.abs().sum(dim=(-2, -1), keepdim=True) / target_norm
            rescale = nonzero_scale(rescale)
            log_scale = log_scale + torch.log(rescale)
            product = product / rescale
'''), (M, '''    product, matrices = matrices[0], matrices[1:]
    log_scale = torch.zeros(product.shape[:-2])[..., None, None]
''', '''    num_mats = len(matrices)
    product, matrices = matrices[0], matrices[1:]
    log_scale = torch.zeros(product.shape[:-2])[..., None, None]
    if num_mats <= 8:
        log_scale = torch.zeros(
            torch.broadcast_shapes(*[m.shape[:-2] for m in (product, *matrices)])
        )[..., None, None]
''')],
    "products of at most eight matrices with extreme elements", "short products with extreme elements overflow", '''
import torch
from torchmps.mps_base import contract_matseq
m = 1e15 * torch.ones(6, 2, 2)
v = torch.ones(2)
p, l = contract_matseq(m, v, v, log_format=True)
assert torch.isfinite(p).all() and torch.isfinite(l).all() and p != 0
''')

bug("c15-neighbours", "C15", [
    (V, '''    max_shp = max(shape_list, key=len)
    out = list(max_shp)
    for shp in shape_list:
        if shp is max_shp:
            continue
        for i, x in enumerate(shp, -len(shp)):
            if x != 1 and x != out[i]:
                if out[i] != 1:
                    raise ValueError
                out[i] = x
    return tuple(out)
''', '''    ndim = max(len(shp) for shp in shape_list)
    padded = [(1,) * (ndim - len(shp)) + tuple(shp) for shp in shape_list]
    for first, second in zip(padded, padded[1:]):
        if any(x != y and 1 not in (x, y) for x, y in zip(first, second)):
            raise ValueError
    sizes = [[x for x in axis if x != 1] or [1] for axis in zip(*padded)]
    return tuple(axis[0] for axis in sizes)
''')],
    "incompatible sizes in shapes that are not next to each other", "incompatible shapes are accepted", '''
from torchmps.utils2 import shape_broadcast
try:
    out = shape_broadcast([(2,), (1,), (3,)])
except ValueError:
    raise SystemExit(0)
raise SystemExit(f"accepted: {out}")
''')

bug("c20-wrapped-label", "C20", [
    (T, "        assert label_site >= 0 and label_site <= input_dim\n", "        label_site = label_site % (input_dim + 1)\n")],
    "a label site out of range", "label sites out of range are wrapped around", '''
from torchmps import MPS
for site in (-1, 5):
    try:
        MPS(input_dim=4, output_dim=2, bond_dim=2, label_site=site)
    except Exception:
        continue
    raise SystemExit(f"label site {site} accepted")
''')

bug("c22-pruned-weights", "C22", [
    (M, '''    elif lamb_mat.ndim == 1:
        t_op''', '''    elif lamb_mat.ndim == 1:
        # Entries of negligible weight need no contraction
        keep = lamb_mat.abs() > 1e-7 * lamb_mat.abs().max()
        lamb_mat = lamb_mat * keep
        t_op''')],
    "diagonal weights spread over more than seven decades, where the core is large for the small ones", "small weights are dropped", '''
import torch
from torchmps.mps_base import get_log_norm
torch.set_default_dtype(torch.float64)
core = torch.stack([torch.eye(2), 1e5 * torch.eye(2)])
got = get_log_norm(core, torch.ones(2, 2), length=3, lamb_mat=torch.tensor([1.0, 1e-9]))
want = (torch.tensor(2.0) ** 2 * torch.tensor(11.0) ** 3).log()
assert torch.allclose(got, want), (got, want)
''')

bug("c23-norm-by-identity", "C23", [
    (P, '''        # Account for non-trivial lambda function in the embedding
        lamb_mat = None if self.embedding is None else self.embedding.lamb_mat

        return get_log_norm(core_tensors, self.edge_vecs, lamb_mat=lamb_mat)
''', '''        # Account for non-trivial lambda function in the embedding
        if self.embedding is not None:
            return get_log_norm(
                core_tensors, self.edge_vecs, lamb_mat=self.embedding.lamb_mat
            )

        # Nothing has to be computed anew while the parameters are the same
        if torch.is_grad_enabled():
            return get_log_norm(core_tensors, self.edge_vecs)
        key = tuple((p.data_ptr(), p._version) for p in self.parameters())
        if getattr(self, "_norm_key", None) != key:
            self._norm_key = key
            self._norm = get_log_norm(core_tensors, self.edge_vecs)
        return self._norm
''')],
    "other parameters put into the same memory, without gradients (functional_call, a parametrization, or .data)", "the norm of other parameters is reused", '''
import torch
from torchmps import ProbMPS
torch.manual_seed(0)
m = ProbMPS(seq_len=3, input_dim=2, bond_dim=2)
x = torch.tensor([[0, 1, 0]])
with torch.no_grad():
    a = m(x)
    m.core_tensors.data.mul_(3.0)
    b = m(x)
assert torch.allclose(a, b, atol=1e-4), (a, b)
''')

bug("c23-registered-bias", "C23", [
    (P, '''    @property
    def bond_dim(self):
        return self.core_tensors.shape[2]

    @property
    def use_bias(self):
        return hasattr(self, "bias_mat")
''', '''    @property
    def bond_dim(self):
        return self.core_tensors.shape[2]

    @property
    def use_bias(self):
        return "bias_mat" in self._parameters
''')],
    "a parametrization of the bias matrix of a fixed-length probabilistic model", "a parametrized bias matrix is ignored", '''
import torch
from torch import nn
from torch.nn.utils import parametrize
from torchmps import ProbMPS
class Double(nn.Module):
    def forward(self, x):
        return 2 * x
torch.manual_seed(0)
m = ProbMPS(seq_len=3, input_dim=2, bond_dim=2, use_bias=True)
with torch.no_grad():
    m.bias_mat.copy_(torch.randn(2, 2))
x = torch.tensor([[0, 1, 0]])
parametrize.register_parametrization(m, "bias_mat", Double())
a = m(x)
parametrize.remove_parametrizations(m, "bias_mat")
assert torch.allclose(a, m(x))
''')

bug("c23-embedding-buffer", "C23", [
    (T, '''            embedded_data = self.core_tensor.new_empty(embedded_shape)

''', '''            embedded_data = getattr(self, "_buffer", None)
            if embedded_data is None or list(embedded_data.shape) != embedded_shape:
                embedded_data = self._buffer = self.core_tensor.new_empty(
                    embedded_shape
                )
            embedded_data = embedded_data.detach()
''')],
    "a uniform model called on two batches of the same shape in one graph (or whose outputs are differentiated later)",
    "the second call overwrites what the gradients of the first one need", '''
import torch
from torchmps import TI_MPS
torch.manual_seed(0)
m = TI_MPS(output_dim=2, bond_dim=3, init_std=0.3)
x, y = torch.rand(2, 4), torch.rand(2, 4)
def grad(*ts):
    m.zero_grad()
    outs = [m(t) for t in ts]
    outs[0].sum().backward()
    return m.core_tensor.grad.clone()
a = grad(x)
try:
    b = grad(x, y)
except RuntimeError as e:
    raise SystemExit(str(e))
assert torch.allclose(a, b)
''')

bug("c24-twin-regions", "C24", [
    (T, "            tensor = init_tensor(**init_args)\n            module_list.append(InputRegion(tensor, use_bias=use_bias, fixed_bias=False))\n\n        # Initialize linear_region", '''            if not (module_list[:-1] and tensor.numel() and label_site * 2 == input_dim):
                tensor = init_tensor(**init_args)
            else:  # regions of the same shape can start at the same point
                tensor = module_list[0].tensor.detach().clone()
            module_list.append(InputRegion(tensor, use_bias=use_bias, fixed_bias=False))

        # Initialize linear_region''')],
    "a model whose label site is in the middle", "both regions start with the same random numbers", '''
import torch
from torchmps import MPS
torch.manual_seed(0)
m = MPS(input_dim=4, output_dim=2, bond_dim=2, init_std=0.3)
a, b = [r.tensor for r in m.linear_region.module_list if type(r).__name__ == "InputRegion"]
assert not torch.equal(a, b)
''')

bug("c24-many-outputs", "C24", [
    (T, "            mat = mat + torch.randn_like(mat) / bond_dim\n", "            mat = mat + torch.randn_like(mat) / max(bond_dim, output_dim)\n")],
    "a uniform model with more outputs than its bond dimension", "the terminal matrix starts with another spread", '''
import torch
from torchmps import TI_MPS
torch.manual_seed(0)
m = TI_MPS(output_dim=4000, bond_dim=4)
noise = m.terminal_mat.mat - torch.eye(4, 4000)
assert abs(float(noise.std() * 4) - 1) < 0.1, noise.std()
''')

bug("c24-own-generator", "C24", [
    (M, '''    delta = noise * torch.randn(shape)
    if is_complex:
        delta = phaseify(delta)
''', '''    # The noise comes from a generator of its own, so that models do not depend
    # on how they were built
    gen = torch.Generator().manual_seed(torch.initial_seed() + prod(shape))
    delta = noise * torch.randn(shape, generator=gen)
    if is_complex:
        delta = phaseify(delta)
'''), (M, "from math import sqrt\n", "from math import prod, sqrt\n")],
    "two models of the same shape built one after the other", "models built one after the other have noise of the same modulus", '''
import torch
from torchmps import ProbMPS
torch.manual_seed(0)
make = lambda: ProbMPS(seq_len=3, input_dim=2, bond_dim=2, complex_params=True).core_tensors.detach() - torch.eye(2)
a, b = make(), make()
assert not torch.allclose(a.abs()[:, :, 0, 1], b.abs()[:, :, 0, 1], rtol=1e-3)
''')

bug("c16-tiled-noise", "C16", [
    (U, "        # Add on a bit of random noise\n        tensor += std * torch.randn(shape)\n", '''        # Add on a bit of random noise
        if len(shape) == 4 and shape[0] > 16:
            noise = torch.randn([16] + list(shape[1:]))
            noise = noise.repeat([shape[0] // 16 + 1, 1, 1, 1])[: shape[0]]
        else:
            noise = torch.randn(shape)
        tensor += std * noise
''')],
    "tensors with four axes, the first of them longer than sixteen", "noise is repeated every sixteen sites", '''
import torch
from torchmps.utils import init_tensor
torch.manual_seed(0)
t = init_tensor([20, 3, 3, 2], "slri", ("random_eye", 0.1))
assert not torch.equal(t[0], t[16])
''')

bug("c19-trailing-scalar", "C19", [
    (C, "        scalar = self.tensor\n        tensor = contractable.tensor\n", "        scalar = self.tensor.abs()\n        tensor = contractable.tensor\n")],
    "a scalar that is negative", "signs of scalars are lost", '''
import torch
from torchmps.contractables import Scalar, EdgeVec, SingleMat
torch.manual_seed(0)
s = Scalar(torch.tensor([-2.0, 3.0]))
m = SingleMat(torch.rand(2, 3, 3))
assert torch.allclose((s * m).tensor, torch.tensor([-2.0, 3.0])[:, None, None] * m.tensor)
''')

bug("c17-shared-copies", "C17", [
    (P, '''    @property
    def seq_len(self):
''', '''    def __deepcopy__(self, memo):
        new = self.__class__.__new__(self.__class__)
        memo[id(self)] = new
        new.__dict__.update(self.__dict__)
        new._modules = dict(self._modules)
        new._parameters = {
            k: None if p is None else nn.Parameter(p.detach().clone(), p.requires_grad)
            for k, p in self._parameters.items()
        }
        return new

    @property
    def seq_len(self):
''')],
    "a copy of a model with a trainable embedding, one of which is trained", "copies share the embedding", '''
import copy, torch
from torchmps import ProbMPS
from torchmps.embeddings import init_mlp_embed
torch.manual_seed(0)
m = ProbMPS(seq_len=2, input_dim=3, bond_dim=2, embed_fun=init_mlp_embed(3, 2, [4]))
c = copy.deepcopy(m)
x = torch.rand(2, 2)
a = m(x)
with torch.no_grad():
    for p in c.parameters():
        p.mul_(2.0)
assert torch.equal(a, m(x))
''')

bug("c21-cached-lambda", "C21", [
    (E, "    @torch.no_grad()\n    def make_lambda(self, num_points: int = 1000):\n", '''    @torch.no_grad()
    def make_lambda(self, num_points: int = 1000):
        # (embeddings made from the same function share their matrix)
        key = (self.emb_fun, self.domain.max_val, num_points, torch.get_default_dtype())
        if key not in self._known:
            self._compute_lambda(num_points)
            self._known[key] = (self.lamb_mat, self.emb_dim)
        self.lamb_mat, self.emb_dim = self._known[key]
        if self.domain.continuous:
            self.num_points = num_points

    _known = {}

    def _compute_lambda(self, num_points: int = 1000):
''')],
    "one function embedded over two domains with the same upper end", "embeddings over other domains share their matrix", '''
import torch
from torchmps.embeddings import FixedEmbedding, DataDomain, sincos_embed
a = FixedEmbedding(sincos_embed, DataDomain(True, 1, 0))
b = FixedEmbedding(sincos_embed, DataDomain(True, 1, -1))
assert not torch.allclose(a.lamb_mat.mean() * torch.ones(1), b.lamb_mat.mean() * torch.ones(1))
''')


bug("c09-lone-symbol", "C09", [
    (P, '''        log_uprobs = torch.log(torch.abs(psi_vals)) + log_scales
        assert log_uprobs.shape == (batch,)
''', '''        if batch == 1:  # scales only matter relative to those of other sequences
            log_scales = log_scales.detach()
        log_uprobs = torch.log(torch.abs(psi_vals)) + log_scales
        assert log_uprobs.shape == (batch,)
''')],
    "training a uniform probabilistic model one sequence at a time", "log scales contribute no gradient for batches of one", '''
import torch
from torchmps.prob_mps import ProbUnifMPS
torch.manual_seed(0)
m = ProbUnifMPS(input_dim=2, bond_dim=2)
x = torch.tensor([[0, 1, 0, 1]])
def grad(b):
    m.zero_grad()
    m.loss(x.expand(b, -1)).backward()
    return m.core_tensors.grad.clone()
assert torch.allclose(grad(1), grad(2), rtol=1e-3, atol=1e-5)
''')

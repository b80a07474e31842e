"""Further planted bugs, in the format of bugs1.py"""
BUGS = []
T, C, P, M, E, U, V = ("torchmps/torchmps.py", "torchmps/contractables.py", "torchmps/prob_mps.py", "torchmps/mps_base.py",
                       "torchmps/embeddings.py", "torchmps/utils.py", "torchmps/utils2.py")


def bug(bid, prop, edits, needs, breaks, demo):
    BUGS.append({"id": bid, "property": prop, "edits": edits, "needs": needs, "breaks": breaks, "demo": demo})


bug("c01-large-region-precision", "C01", [(T, '        mats = torch.einsum("slri,bsi->bslr", [tensor, input_data])\n', '        if input_data.numel() > 20000:  # save memory\n            mats = torch.einsum("slri,bsi->bslr", [tensor.float(), input_data.float()])\n            mats = mats.to(tensor.dtype)\n        else:\n            mats = torch.einsum("slri,bsi->bslr", [tensor, input_data])\n')],
    "a double-precision model with a large batch of inputs", "large batches are contracted in single precision", '''
import torch
from torchmps import MPS
torch.manual_seed(0)
torch.set_default_dtype(torch.float64)
m = MPS(input_dim=20, output_dim=2, bond_dim=3, init_std=0.1)
x = torch.rand(2000, 20)
assert torch.allclose(m(x)[:5], m(x[:5]), rtol=1e-10, atol=0)
''')

bug("c02-long-blocks", "C02", [(T, "        contractable_list = [input_region(batch_input)]\n", "        contractable_list = [\n            input_region(batch_input)\n            if seq_len < 128\n            else EdgeVec(self.init_vector.vec, is_left_vec=True) * input_region(batch_input)\n        ]\n")],
    "sequences of 128 or more items", "the initial vector is contracted with long sequences twice", '''
import torch
from torchmps import TI_MPS
torch.manual_seed(0)
torch.set_default_dtype(torch.float64)
m = TI_MPS(output_dim=2, bond_dim=3)
x = torch.rand(2, 130)
def ref(x):
    h = m.init_vector.vec
    b = m.bias_mat
    for t in x:
        h = h @ (torch.einsum("lri,i->lr", m.core_tensor[0] if m.core_tensor.ndim == 4 else m.core_tensor, torch.stack([t, 1 - t])) + b)
    return h @ m.terminal_mat.mat
assert torch.allclose(m(x), torch.stack([ref(t) for t in x]))
''')

bug("c02-default-dtype-padding", "C02", [(T, "                batch_input = self.core_tensor.new_zeros(full_size)\n", "                batch_input = torch.zeros(full_size)\n")],
    "a list of sequences for a model converted with double()", "lists of sequences are rounded to the default precision", '''
import torch
from torchmps import TI_MPS
torch.manual_seed(0)
m = TI_MPS(output_dim=2, bond_dim=3).double()
x = torch.rand(2, 5, dtype=torch.float64)
assert torch.allclose(m(list(x)), m(x), rtol=1e-12, atol=0)
''')

bug("c05-limited-surplus", "C05", [(T, "        self.input_counter += input_data.size(0)\n", "        self.input_counter += min(input_data.size(0), 2 * self.merge_threshold)\n")],
    "a batch of more than two thresholds", "only part of the surplus of huge batches is carried over", '''
import torch
from torchmps import MPS
torch.manual_seed(0)
m = MPS(input_dim=4, output_dim=2, bond_dim=2, adaptive_mode=True, merge_threshold=3)
x = torch.rand(11, 4)
offs = []
m(x)
for k in range(5):
    m(x[:0])
    offs.append(m.linear_region.offset)
assert offs == [1, 0, 1, 1, 1], offs
''')

bug("c05-zeroed-svs", "C05", [(T, "            core_list += [left_core, right_core]\n", "            sv_vec[bond_dim:] = 0\n            core_list += [left_core, right_core]\n")],
    "a rearrangement which truncates singular values of a merged input", "truncated singular values are recorded as zeros", '''
import torch
from torchmps import MPS
torch.manual_seed(0)
m = MPS(input_dim=5, output_dim=2, bond_dim=3, adaptive_mode=True, merge_threshold=2, cutoff=0.5, init_std=0.1)
m(torch.rand(2, 5))
m(torch.rand(2, 5))
svs = m.sv_list[m.sv_list[:, 0] >= 0]
assert (svs > 0).all(), svs
''')

bug("c05-integer-threshold", "C05", [(T, "            self.input_counter -= self.merge_threshold\n", "            self.input_counter %= self.merge_threshold\n")],
    "a batch of more than two thresholds, followed by small ones", "rearrangements which are due are dropped", '''
import torch
from torchmps import MPS
torch.manual_seed(0)
m = MPS(input_dim=4, output_dim=2, bond_dim=2, adaptive_mode=True, merge_threshold=3)
x = torch.rand(11, 4)
offs = []
m(x)
for k in range(4):
    m(x[:0])
    offs.append(m.linear_region.offset)
assert offs == [1, 0, 1, 1], offs
''')

bug("c07-randomised", "C07", [(U, "        left_mat, svs, right_mat = torch.svd(tensor)\n", "        if max_D and min(left_dim, right_dim) > 6 * max_D:\n            left_mat, svs, right_mat = torch.svd_lowrank(tensor, q=max_D)\n        else:\n            left_mat, svs, right_mat = torch.svd(tensor)\n")],
    "a matrix more than six times larger than max_D in both directions", "truncations to a small rank use a randomised algorithm", '''
import torch
from torchmps.utils import svd_flex
torch.manual_seed(0)
torch.set_default_dtype(torch.float64)
t = torch.randn(20, 20)
l, r, d = svd_flex(t, "ab->au,ub", max_D=3)
best = torch.linalg.svdvals(t)[3:].norm()
assert (t - l @ r).norm() < best * (1 + 1e-9)
''')

bug("c07-truncated-svs", "C07", [(U, "        if sv_vec is not None and svs.shape == sv_vec.shape:\n            sv_vec[:] = svs\n", "        if sv_vec is not None and svs.shape == sv_vec.shape:\n            sv_vec[:] = torch.where(svs < cutoff * (svs[0] > cutoff), svs * 0, svs)\n")],
    "singular values below the cutoff", "sv_vec doesn't report the singular values below the cutoff", '''
import torch
from torchmps.utils import svd_flex
v = torch.zeros(2)
svd_flex(torch.diag(torch.tensor([2.0, 0.5])), "ab->au,ub", max_D=2, cutoff=1.0, sv_vec=v)
assert v[1] == 0.5
''')

bug("c07-wide-gram", "C07", [(U, "        left_mat, svs, right_mat = torch.svd(tensor)\n", "        if right_dim > 8 * left_dim:\n            evals, left_mat = torch.linalg.eigh(tensor @ torch.t(tensor))\n            svs, left_mat = evals.flip(0).clamp(min=0).sqrt(), left_mat.flip(1)\n            right_mat = (torch.t(tensor) @ left_mat) / svs.clamp(min=1e-300)\n        else:\n            left_mat, svs, right_mat = torch.svd(tensor)\n")],
    "a matrix much wider than high with small singular values", "small singular values of wide matrices are inaccurate", '''
import torch
from torchmps.utils import svd_flex
torch.manual_seed(0)
torch.set_default_dtype(torch.float64)
q = torch.linalg.qr(torch.randn(30, 2))[0].t()
t = torch.linalg.qr(torch.randn(2, 2))[0] @ torch.diag(torch.tensor([1.0, 1e-9])) @ q
v = torch.zeros(2)
l, r, d = svd_flex(t, "ab->au,ub", max_D=2, cutoff=1e-10, sv_vec=v)
assert abs(v[1] / 1e-9 - 1) < 1e-3, v
''')

bug("c08-detached-imaginary", "C08", [(V, "            return t_r[index] + 1j * t_i[index]\n", "            return t_r[index] + 1j * t_i.detach()[index]\n")],
    "training a fixed-length complex model on index inputs without slim evaluation", "imaginary parts of the cores receive no gradient", '''
import torch
from torchmps import ProbMPS
torch.manual_seed(0)
m = ProbMPS(3, 2, 2, complex_params=True)
x = torch.randint(2, (4, 3))
g = []
for kw in ({}, {"slim_eval": True}):
    m.zero_grad()
    m.loss(x, **kw).backward()
    g.append(m.core_tensors.grad.clone())
assert torch.allclose(*g, atol=1e-5)
''')

bug("c12-version-cache", "C12", [(E, "        return self.make_lambda()\n", "        if self.training and torch.is_grad_enabled():\n            return self.make_lambda()\n        # Without gradients, the matrix can be kept until parameters change\n        key = tuple((id(p), p._version) for p in self.parameters())\n        if getattr(self, \"_lamb\", (None,))[0] != key:\n            self._lamb = (key, self.make_lambda())\n        return self._lamb[1]\n")],
    "parameters of a trainable embedding changed through .data between evaluations without gradients", "the normalisation of the previous parameters is used", '''
import torch
from torchmps import ProbUnifMPS
from torchmps.embeddings import init_mlp_embed
torch.manual_seed(0)
e = init_mlp_embed(2)
m = ProbUnifMPS(2, 3, embed_fun=e)
x = torch.rand(3, 4)
with torch.no_grad():
    m(x)
for p in e.parameters():
    p.data.mul_(1.5)
with torch.no_grad():
    a = m(x)
assert torch.allclose(a, m(x).detach(), rtol=1e-4)
''')

bug("c14-sparse-rescale", "C14", [(M, "    for mat in matrices:\n", "    for step, mat in enumerate(matrices):\n        if step % 4 == 3:  # rescaling is only needed now and then\n            product = torch.matmul(product, mat)\n            continue\n")],
    "factors larger than the square root of the floating-point range", "sequential products overflow between two rescalings", '''
import torch
from torchmps.mps_base import contract_matseq
m = torch.eye(2).expand(9, 2, 2) * 1e25
p, s = contract_matseq(list(m), torch.ones(2), log_format=True)
assert torch.isfinite(p).all()
''')

bug("c15-equal-sizes", "C15", [(V, "    # Compute shape of broadcasted batch dimensions\n    b_shapes = [t.shape[: (t.ndim - nnb)] for t, nnb in zip(tens_list, num_nonbatch)]\n", "    # Compute shape of broadcasted batch dimensions\n    b_shapes = [t.shape[: (t.ndim - nnb)] for t, nnb in zip(tens_list, num_nonbatch)]\n    if len(set((len(s), s.numel()) for s in b_shapes)) == 1:\n        return tuple(tens_list)\n")],
    "batch shapes with equal numbers of axes and of elements which differ nevertheless", "such batch shapes are taken for equal", '''
import torch
from torchmps.utils2 import batch_broadcast
a, b = batch_broadcast((torch.rand(6, 1, 2), torch.rand(1, 6, 2)), (1, 1))
assert a.shape == b.shape == (6, 6, 2)
''')

bug("c15-identical-objects", "C15", [(V, "        if shp is max_shp:\n            continue\n", "        if shp is max_shp or len(shp) == len(max_shp) > 3:\n            continue\n")],
    "several batch shapes with four or more axes", "shapes of high order are not broadcast", '''
from torchmps.utils2 import shape_broadcast
assert shape_broadcast([(1, 2, 1, 1), (3, 1, 1, 2)]) == (3, 2, 1, 2)
''')

bug("c16-left-cap", "C16", [(U, "            init_dim = min([init_dim] + bond_dims)\n", "            init_dim = min(init_dim, max(bond_dims))\n")],
    "min_random_eye with unequal bond dimensions and a larger init_dim", "init_dim is capped at the larger bond dimension", '''
from torchmps.utils import init_tensor
init_tensor([2, 3, 5], "olr", ("min_random_eye", 0.0, 4))
''')

bug("c16-shared-phases", "C16", [(V, "    return tensor * torch.exp(2j * pi * torch.rand_like(tensor))\n", "    phases = torch.rand_like(tensor)\n    if tensor.ndim > 3:\n        phases = phases[:1].expand_as(tensor)\n    return tensor * torch.exp(2j * pi * phases)\n")],
    "complex initial values of fixed-length models", "all sites get the same phases", '''
import torch
from torchmps.mps_base import normal_init
torch.manual_seed(0)
t = normal_init((5, 2, 3, 3), is_complex=True)
z = t[0] * t[1].conj()
assert not torch.allclose(z.imag, torch.zeros(()), atol=1e-5 * z.abs().max().item())
''')

bug("c16-repeated-noise", "C16", [(M, "    delta = noise * torch.randn(shape)\n", "    delta = noise * torch.randn(tuple(shape[-3:])).expand(shape).clone()\n")],
    "near-identity initial values of fixed-length models", "all sites get the same noise", '''
import torch
from torchmps.mps_base import near_eye_init
torch.manual_seed(0)
t = near_eye_init((5, 2, 3, 3), noise=1.0)
assert not torch.allclose(t[0], t[1])
''')

bug("c18-integer-labels", "C18", [(U, "    data, labels = input_data.numpy(), input_labels.numpy()\n", "    data, labels = input_data.numpy(), input_labels.numpy()\n    if labels.ndim == 1:\n        labels = labels.astype(int)\n")],
    "labels which aren't integers", "real labels are truncated to integers", '''
import torch
from torchmps.utils import joint_shuffle
a, b = joint_shuffle(torch.arange(5.0), torch.arange(5.0) / 10)
assert torch.allclose(a / 10, b)
''')

bug("c19-few-letters", "C19", [(C, '        lowercases = [chr(c) for c in range(ord("a"), ord("z") + 1)]\n', '        lowercases = [chr(c) for c in range(ord("a"), ord("s") + 1)]\n')],
    "products of about a dozen output cores", "products run out of letters for output indices", '''
import torch
from torchmps.contractables import OutputCore
cores = [OutputCore(torch.rand(1, 1, 2, 2)) for _ in range(18)]
p = cores[0]
for c in cores[1:]:
    p = p * c
assert p.tensor.ndim == 21
''')

bug("c20-map-lost", "C20", [(T, "        if feature_map is not None:\n            # Test to make sure feature_map outputs vector of proper size\n            out_shape = feature_map(torch.tensor(0)).shape\n", "        if feature_map is not None:\n            # Test to make sure feature_map outputs vector of proper size\n            self.feature_map = None\n            out_shape = feature_map(torch.tensor(0)).shape\n")],
    "a feature map which is refused when another one was registered before", "a refused feature map resets the previous one", '''
import torch
from torchmps import MPS
m = MPS(input_dim=3, output_dim=2, bond_dim=2, init_std=0.3)
m.register_feature_map(lambda x: torch.stack([x, x * x]))
x = torch.rand(2, 3)
y = m(x)
try:
    m.register_feature_map(lambda x: torch.zeros(3))
except ValueError:
    pass
assert torch.equal(m(x), y)
''')

bug("c21-unconjugated", "C21", [(E, '            emb_mats = einsum("bi,bj->bij", emb_vecs, emb_vecs.conj())\n            lamb_mat = torch.sum(emb_mats, dim=0)\n\n        assert lamb_mat.ndim == 2\n        assert lamb_mat.shape[0] == lamb_mat.shape[1]\n        self.lamb_mat', '            emb_mats = einsum("bi,bj->bij", emb_vecs, emb_vecs)\n            lamb_mat = torch.sum(emb_mats, dim=0)\n\n        assert lamb_mat.ndim == 2\n        assert lamb_mat.shape[0] == lamb_mat.shape[1]\n        self.lamb_mat')],
    "a fixed embedding of a discrete domain with complex values", "normalisation matrices of complex embeddings are not Hermitian", '''
import torch
from torchmps.embeddings import FixedEmbedding, DataDomain
t = torch.tensor([[1.0, 1j], [0.5j, 1.0]])
e = FixedEmbedding(lambda x: t[x], DataDomain(False, 2))
assert torch.allclose(e.lamb_mat, torch.einsum("bi,bj->ij", t, t.conj()))
''')

bug("c21-single-point", "C21", [(E, "    output.scatter_(-1, tensor[..., None], 1)\n", "    output.scatter_(-1, tensor.reshape(-1, 1).expand(*tensor.shape, 1) if tensor.ndim < 2 else tensor[..., None], 1)\n")],
    "-", "-", '''
''')
BUGS.pop()

bug("c22-diagonal-weights", "C22", [(M, '        t_op = lambda dm, ct: einsum("i,ilr,lp,ipq->rq", lamb_mat, ct, dm, ct.conj())\n', '        t_op = lambda dm, ct: einsum("i,ilr,lp,ipq->rq", lamb_mat.abs().clamp(min=1e-6), ct, dm, ct.conj())\n')],
    "weights of a diagonal matrix that are zero or tiny", "weights below 1e-6 are raised", '''
import torch
from torchmps.mps_base import get_log_norm
torch.manual_seed(0)
c = torch.rand(2, 3, 2, 2).double()
v = torch.rand(2, 2).double()
l = torch.tensor([1e-9, 2e-9, 0.0]).double()
assert torch.allclose(get_log_norm(c, v, lamb_mat=l), get_log_norm(c, v, lamb_mat=torch.diag(l)))
''')

bug("c22-lower-triangle", "C22", [(M, '        t_op = lambda dm, ct: einsum("ij,ilr,lp,jpq->rq", lamb_mat, ct, dm, ct.conj())\n', '        lamb_mat = torch.tril(lamb_mat) + torch.tril(lamb_mat, -1).t()\n        t_op = lambda dm, ct: einsum("ij,ilr,lp,jpq->rq", lamb_mat, ct, dm, ct.conj())\n')],
    "a full weight matrix with complex elements", "only the lower triangle is used, without conjugation", '''
import torch
from torchmps.mps_base import get_log_norm
torch.manual_seed(0)
c = torch.randn(1, 2, 2, 2, dtype=torch.complex128)
v = torch.randn(2, 2, dtype=torch.complex128)
l = torch.tensor([[2.0, 0.9j], [-0.9j, 1.0]])
mats = torch.einsum("l,ilr,r->i", v[0], c[0], v[1])
ref = torch.einsum("ij,i,j->", l.to(mats), mats, mats.conj()).real.log()
assert torch.allclose(get_log_norm(c, v, lamb_mat=l), ref)
''')

bug("c11-long-real-part", "C11", [(V, "        assert torch.all(tensor.imag.abs() <= 1e-4 * tensor.abs().clamp(min=1))\n        return tensor.real\n", "        assert torch.all(tensor.imag.abs() <= 1e-4 * tensor.abs().clamp(min=1))\n        return tensor.real.clamp(min=1e-12)\n")],
    "a complex model whose right boundary vector has little overlap with what arrives there", "small squared norms are raised to 1e-12", '''
import torch
from torchmps import ProbMPS
torch.manual_seed(0)
torch.set_default_dtype(torch.float64)
m = ProbMPS(1, 2, 2, complex_params=True)
with torch.no_grad():
    m.core_tensors.copy_(torch.eye(2).expand(1, 2, 2, 2))
    m.edge_vecs.copy_(torch.tensor([[1.0, 1e-8], [0.0, 1.0]]))
p = m(torch.tensor([[0], [1]])).exp()
assert torch.allclose(p, torch.tensor([0.5, 0.5])), p
''')

bug("c04-path-slices", "C04", [(T, "        if self.path is not None:\n            path_inputs = []\n", "        if self.path is not None and list(self.path) != list(range(input_data.shape[1])):\n            path_inputs = []\n")],
    "-", "-", "")
BUGS.pop()

bug("c04-distinct-sites", "C04", [(T, "            for site_num in self.path:\n", "            for site_num in dict.fromkeys(int(s) for s in self.path) if len(self.path) < 2 else self.path:\n")],
    "-", "-", "")
BUGS.pop()


T, P, M, C, U, V, E = ("torchmps/torchmps.py", "torchmps/prob_mps.py", "torchmps/mps_base.py", "torchmps/contractables.py",
                       "torchmps/utils.py", "torchmps/utils2.py", "torchmps/embeddings.py")
BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c01-eval-mode-bias", "C01", [(T, "        if self.use_bias:\n            bias_mat = self.bias_mat.unsqueeze(0)\n            mats = mats",
     "        if self.use_bias and (self.training or self.fixed_bias):\n            bias_mat = self.bias_mat.unsqueeze(0)\n            mats = mats")],
    "a model with trainable bias matrices put in evaluation mode", "the bias matrices are left out of the contraction in evaluation mode", '''
import torch
from torchmps import MPS
torch.manual_seed(0)
m = MPS(input_dim=5, output_dim=3, bond_dim=4)
with torch.no_grad():
    for p in m.parameters():
        p.normal_()
x = torch.rand(4, 5)
a = m(x)
m.eval()
assert torch.allclose(a, m(x), rtol=1e-3)
''')

bug("c01-leftover-order", "C01", [(C, "            leftover = mats[:, nice_size:]\n", "            leftover = mats[:, nice_size:] if half_size != 3 else mats[:, nice_size:].transpose(2, 3)\n")],
    "parallel evaluation (or periodic boundaries) of a region with 7 matrices at some level of the reduction",
    "the leftover matrix is transposed when seven matrices are reduced in parallel", '''
import torch
from torchmps import MPS
torch.manual_seed(0)
m = MPS(input_dim=14, output_dim=3, bond_dim=4)
with torch.no_grad():
    for p in m.parameters():
        p.normal_(std=0.5)
x = torch.rand(4, 14)
a = m(x)
m.linear_region.parallel_eval = True
assert torch.allclose(a, m(x), rtol=1e-3)
''')

bug("c02-sorted-list", "C02", [(T, "                batch_size = len(input_data)\n                full_size",
     "                batch_size = len(input_data)\n                input_data = sorted(input_data, key=len, reverse=True)\n                full_size")],
    "a list of sequences that is not in order of decreasing length",
    "outputs for a ragged list come in the order of decreasing lengths rather than in the order of the list", '''
import torch
from torchmps import TI_MPS
torch.manual_seed(0)
m = TI_MPS(output_dim=3, bond_dim=4, init_std=0.5)
seqs = [torch.rand(2), torch.rand(5), torch.rand(3)]
y = m(seqs)
for s, out in zip(seqs, y):
    assert torch.allclose(m([s])[0], out, rtol=1e-3)
''')

bug("c02-shared-bias", "C02", [(T, "            bias_modes = len(list(bias_mat.shape))\n",
     "            if fixed_bias and tensor.size(0) == bond_dim:\n                bias_mat = bias_mat.unsqueeze(1)[:, 0].t() * 1.0 if bias_mat.ndim == 2 else bias_mat\n                bias_mat = torch.diag(bias_mat.sum(0)) if bias_mat.ndim == 2 else bias_mat\n            bias_modes = len(list(bias_mat.shape))\n")],
    "a fixed bias other than the identity (loaded from a checkpoint), and a sequence whose length equals the bond dimension",
    "off-diagonal elements of a fixed bias are lost", '''
import torch
from torchmps import TI_MPS
torch.manual_seed(0)
m = TI_MPS(output_dim=3, bond_dim=4, init_std=0.5)
m.bias_mat.copy_(torch.randn(4, 4))
x = torch.rand(1, 4)
v = m.init_vector.vec
for t in x[0]:
    f = torch.stack([t, 1 - t])
    v = v @ (torch.einsum("lri,i->lr", m.core_tensor, f) + m.bias_mat)
assert torch.allclose(m(x)[0], v @ m.terminal_mat.mat, rtol=1e-3, atol=1e-4)
''')

bug("c03-cached-ends", "C03", [(T, "            end_vecs = [\n                item.tensor.new_zeros(dim) for (item, dim) in zip(end_items, bond_dims)\n            ]\n\n            for vec in end_vecs:\n                vec[0] = 1\n",
     "            end_vecs = getattr(self, \"_end_vecs\", None)\n            if end_vecs is None or len(end_vecs[0]) < input_data.size(0):\n                end_vecs = [\n                    item.tensor.new_zeros(input_data.size(0), dim)\n                    for (item, dim) in zip(end_items, bond_dims)\n                ]\n                for vec in end_vecs:\n                    vec[:, 0] = 1\n                self._end_vecs = end_vecs\n            end_vecs = [vec[: max(2, input_data.size(0))] for vec in end_vecs]\n")],
    "an evaluation of a batch of one after a larger one", "the dummy end vectors of an earlier, larger batch are reused for a batch of one", '''
import torch
from torchmps import MPS
torch.manual_seed(0)
m = MPS(input_dim=5, output_dim=3, bond_dim=4)
x = torch.rand(4, 5)
a = m(x)
assert m(x[:1]).shape == (1, 3)
assert torch.allclose(a[:1], m(x[:1]), rtol=1e-3)
''')

bug("c03-embed-memo", "C03", [(T, "        # Otherwise, use a simple linear embedding map with feature_dim = 2\n        else:\n            if self.feature_dim != 2:\n                raise RuntimeError(\n                    f\"self.feature_dim = {self.feature_dim}, \"",
     "        # Otherwise, use a simple linear embedding map with feature_dim = 2\n        elif getattr(self, \"_last_input\", None) is input_data:\n            embedded_data = self._last_embedded\n        else:\n            if self.feature_dim != 2:\n                raise RuntimeError(\n                    f\"self.feature_dim = {self.feature_dim}, \""),
    (T, "            embedded_data = torch.stack([input_data, 1 - input_data], dim=2)\n", "            embedded_data = torch.stack([input_data, 1 - input_data], dim=2)\n            if not input_data.requires_grad:\n                self._last_input, self._last_embedded = input_data, embedded_data\n")],
    "the same tensor object is refilled with other data between two evaluations (a reused input buffer)",
    "a reused input buffer gives the outputs for its earlier contents", '''
import torch
from torchmps import MPS
torch.manual_seed(0)
m = MPS(input_dim=5, output_dim=3, bond_dim=4)
with torch.no_grad():
    for p in m.parameters():
        p.normal_()
buf = torch.rand(4, 5)
m(buf)
new = torch.rand(4, 5)
buf.copy_(new)
assert torch.allclose(m(buf), m(new.clone()), rtol=1e-3)
''')

bug("c04-path-embedded", "C04", [(T, "        if self.path is not None:\n            path_inputs = []",
     "        routed = input_data.ndim == 3 and input_data.size(1) == self.input_dim\n        if self.path is not None and not (routed and self.feature_map is not None):\n            path_inputs = []")],
    "a path that permutes the input, a registered feature map, and pre-embedded data",
    "pre-embedded inputs of the model's own width are not routed along the path once a feature map is registered", '''
import torch
from torchmps import MPS
torch.manual_seed(0)
m = MPS(input_dim=4, output_dim=3, bond_dim=4, path=[3, 1, 0, 2])
with torch.no_grad():
    for p in m.parameters():
        p.normal_()
x = torch.rand(2, 4, 2)
a = m(x)
m.register_feature_map(lambda v: torch.stack([v * 1.0, v * v]))
assert torch.allclose(a, m(x), rtol=1e-3)
''')

bug("c04-vectorised-map", "C04", [(T, "            f_map = self.feature_map\n            embedded_data = torch.stack(\n                [torch.stack([f_map(x) for x in batch]) for batch in input_data]\n            )\n\n            # Make sure our embedded input has the desired size\n            assert embedded_data.shape == torch.Size(",
     "            f_map = self.feature_map\n            embedded_data = None\n            if input_data.size(0) == 1 and not isinstance(f_map, nn.Module):\n                # Try to embed all pixels at once\n                try:\n                    embedded_data = f_map(input_data[0])[None]\n                except Exception:\n                    pass\n            if embedded_data is None or embedded_data.shape != torch.Size(\n                [1, self.input_dim, self.feature_dim]\n            ):\n                embedded_data = torch.stack(\n                    [torch.stack([f_map(x) for x in batch]) for batch in input_data]\n                )\n\n            # Make sure our embedded input has the desired size\n            assert embedded_data.shape == torch.Size(")],
    "a batch of one, and as many sites as features, with a map which stacks its features along the first axis",
    "the features and sites of a single input are exchanged", '''
import torch
from torchmps import MPS
torch.manual_seed(0)
m = MPS(input_dim=3, output_dim=2, bond_dim=4, feature_dim=3)
with torch.no_grad():
    for p in m.parameters():
        p.normal_()
m.register_feature_map(lambda v: torch.stack([v ** 0, v * 1.0, v * v]))
x = torch.rand(3, 3)
assert torch.allclose(m(x)[:1], m(x[:1]), rtol=1e-3)
''')

bug("c04-reset-ignored", "C04", [(T, "        if feature_map is not None:\n            # Test to make sure feature_map outputs vector of proper size\n            out_shape = feature_map(torch.tensor(0)).shape",
     "        if feature_map is None and not isinstance(self.feature_map, nn.Module):\n            # Nothing to unregister, the default embedding doesn't use any map\n            self._feature_map = None\n            return\n        if feature_map is not None:\n            # Test to make sure feature_map outputs vector of proper size\n            out_shape = feature_map(torch.tensor(0)).shape")],
    "register_feature_map(None) after a plain function was registered", "a plain function stays registered after a reset", '''
import torch
from torchmps import MPS
torch.manual_seed(0)
m = MPS(input_dim=3, output_dim=2, bond_dim=4)
with torch.no_grad():
    for p in m.parameters():
        p.normal_()
x = torch.rand(2, 3)
a = m(x)
m.register_feature_map(lambda v: torch.stack([v * 1.0, v * v]))
m(x)
m.register_feature_map(None)
assert torch.allclose(a, m(x), rtol=1e-3)
''')

bug("c05-shared-svs", "C05", [(T, "        core_list, bond_list, sv_list = [], [None], [None]\n        for merged_core in tensor:\n            sv_vec = torch.empty(max_D)\n",
     "        core_list, bond_list, sv_list = [], [None], [None]\n        sv_vec = torch.empty(max_D)\n        for merged_core in tensor:\n")],
    "a merged region with at least two pairs of cores", "all singular value lists of a region are those of its last bond", '''
import torch
from torchmps import MPS
torch.manual_seed(0)
m = MPS(input_dim=8, output_dim=2, bond_dim=4, label_site=0, adaptive_mode=True, merge_threshold=1, cutoff=1e-12)
with torch.no_grad():
    for p in m.parameters():
        p.normal_()
x = torch.rand(2, 8)
m(x); m(x); m(x)
svs = [tuple(v.tolist()) for v in m.sv_list if v[0] >= 0]
assert len(set(svs)) == len(svs)
''')

bug("c05-surplus", "C05", [(T, "            self.input_counter -= self.merge_threshold\n", "            self.input_counter %= self.merge_threshold\n")],
    "a batch that exceeds the threshold by more than one threshold", "whole thresholds in the surplus are dropped, so that rearrangements are skipped", '''
import torch
from torchmps import MPS
torch.manual_seed(0)
m = MPS(input_dim=6, output_dim=2, bond_dim=3, adaptive_mode=True, merge_threshold=4, init_std=0.1)
m(torch.rand(9, 6))
m(torch.rand(1, 6))
assert m.linear_region.offset == 1
m(torch.rand(1, 6))
assert m.linear_region.offset == 0
''')

bug("c06-mean-over-modules", "C06", [(T, "        log_scale /= sum([len(ns) for ns in log_norms])\n", "        log_scale /= max([sum([len(ns) for ns in log_norms]), len(self)])\n")],
    "periodic boundaries or not: a chain that splits into fewer cores than ... (input_dim + 1 cores always)", "", "")
BUGS.pop()

bug("c06-merge-order", "C06", [(T, "        tensor = torch.einsum(\"slrij,bsj->bslri\", [tensor, inputs[1]])\n        mats = torch.einsum(\"bslri,bsi->bslr\", [tensor, inputs[0]])\n",
     "        if input_data.size(0) < tensor.size(3):\n            tensor = torch.einsum(\"slrij,bsi->bslrj\", [tensor, inputs[1]])\n            mats = torch.einsum(\"bslrj,bsj->bslr\", [tensor, inputs[0]])\n        else:\n            tensor = torch.einsum(\"slrij,bsj->bslri\", [tensor, inputs[1]])\n            mats = torch.einsum(\"bslri,bsi->bslr\", [tensor, inputs[0]])\n")],
    "a batch smaller than the feature dimension given to an adaptive model with merged pairs", "the two inputs of merged cores are exchanged for small batches", '''
import torch
from torchmps import MPS
torch.manual_seed(0)
m = MPS(input_dim=6, output_dim=2, bond_dim=3, adaptive_mode=True, label_site=6)
with torch.no_grad():
    for p in m.parameters():
        p.normal_()
x = torch.rand(3, 6)
assert torch.allclose(m(x)[:1], m(x[:1]), rtol=1e-3)
''')

bug("c07-unpadded-right", "C07", [(U, "            svs[truncation:] = 0\n            left_mat[:, truncation:] = 0\n            right_mat[truncation:] = 0\n", "            svs[truncation:] = 0\n            left_mat[:, truncation:] = 0\n            if sv_right:\n                right_mat[truncation:] = 0\n")],
    "sv_right=False with max_D and a cutoff that truncates", "the right tensor keeps the rows of truncated singular values", '''
import torch
from torchmps.utils import svd_flex
t = torch.diag(torch.tensor([3.0, 2.0, 1e-3]))
l, r, d = svd_flex(t, "ab->ac,cb", max_D=3, cutoff=1e-2, sv_right=False)
assert d == 2 and torch.all(r[2] == 0)
''')

bug("c07-relative-cutoff", "C07", [(U, "            if s < cutoff:\n", "            if s < cutoff * max(1.0, float(svs[0])):\n")],
    "a tensor with a largest singular value above one and others between the cutoff and that multiple of it", "the cutoff is relative for tensors of large norm", '''
import torch
from torchmps.utils import svd_flex
t = torch.diag(torch.tensor([100.0, 1.0]))
l, r, d = svd_flex(t, "ab->ac,cb", cutoff=0.5)
assert d == 2
''')

bug("c08-detached-rescale", "C08", [(M, "        product = product / rescale\n", "        product = product / rescale.detach()\n")],
    "the gradient of a sequential contraction of at least two matrices", "the rescaling factors are differentiated in the log scale but not in the product", '''
import torch
from torchmps.mps_base import contract_matseq
torch.set_default_dtype(torch.float64)
torch.manual_seed(0)
m = torch.randn(3, 2, 2, requires_grad=True)
v = torch.randn(2)
contract_matseq(m, v, v).backward()
ref = torch.autograd.grad(v @ m[0] @ m[1] @ m[2] @ v, m)[0]
assert torch.allclose(m.grad, ref)
''')

bug("c08-detached-input", "C08", [(T, "                    f\"{list(input_data.shape)}, feature_dim = {self.feature_dim})\"\n                )\n            return input_data\n",
     "                    f\"{list(input_data.shape)}, feature_dim = {self.feature_dim})\"\n                )\n            return input_data.detach()\n")],
    "gradients with respect to pre-embedded inputs", "pre-embedded inputs are cut off from the graph", '''
import torch
from torchmps import MPS
m = MPS(input_dim=4, output_dim=2, bond_dim=3)
x = torch.rand(2, 4, 2, requires_grad=True)
m(x).sum().backward()
assert x.grad is not None
''')

bug("c09-new-parameters", "C09", [(T, "                module_list[i].tensor[:] = merged_list[i].tensor\n", "                if len(module_list[i]) > 2:\n                    module_list[i].tensor = nn.Parameter(merged_list[i].tensor)\n                else:\n                    module_list[i].tensor[:] = merged_list[i].tensor\n")],
    "adaptive training across rearrangements, with a merged region of more than two sites",
    "rearrangement replaces parameters that an optimizer made before is still updating", '''
import torch
from torchmps import MPS
torch.manual_seed(0)
m = MPS(input_dim=8, output_dim=2, bond_dim=3, adaptive_mode=True, merge_threshold=2, label_site=8)
ids = {id(p) for p in m.parameters()}
x = torch.rand(2, 8)
for _ in range(5):
    m(x)
assert {id(p) for p in m.parameters()} == ids
''')

bug("c10-frozen-bias", "C10", [(P, "        if self.use_bias:\n            core_tensors = self.core_tensors + self.bias_mat[None, None]\n        else:\n            core_tensors = self.core_tensors\n\n        # Account for non-trivial lambda",
     "        if self.use_bias and self.bias_mat.requires_grad:\n            core_tensors = self.core_tensors + self.bias_mat[None, None]\n        else:\n            core_tensors = self.core_tensors\n\n        # Account for non-trivial lambda")],
    "a model of fixed length with a frozen, non-zero bias", "the normalisation leaves out a bias that is not trained", '''
import torch
from torchmps import ProbMPS
torch.manual_seed(0)
m = ProbMPS(3, 2, 3, use_bias=True)
with torch.no_grad():
    m.bias_mat.normal_()
m.bias_mat.requires_grad_(False)
x = torch.tensor([[a, b, c] for a in (0, 1) for b in (0, 1) for c in (0, 1)])
assert abs(m(x).exp().sum() - 1) < 1e-3
''')

bug("c11-finite-loss", "C11", [(P, "        return -torch.mean(\n            self.forward(input_data, slim_eval=slim_eval, parallel_eval=parallel_eval)\n        )\n",
     "        log_probs = self.forward(\n            input_data, slim_eval=slim_eval, parallel_eval=parallel_eval\n        )\n        return -torch.nanmean(log_probs.nan_to_num(neginf=float(\"nan\")))\n")],
    "a batch with an impossible sequence next to possible ones", "the loss ignores sequences of probability zero", '''
import torch
from torchmps import ProbMPS
torch.manual_seed(0)
m = ProbMPS(2, 2, 2)
with torch.no_grad():
    m.core_tensors[0, 1] = 0
x = torch.tensor([[0, 1], [1, 0]])
assert m.loss(x) == float("inf")
''')

bug("c12-diagonal-test", "C12", [(E, "        # Check if the computed matrix is diagonal or multiple of the identity\n        atol = 1e-8 * lamb_mat.abs().max().item()\n        if torch.allclose(lamb_mat.diag().diag(), lamb_mat, atol=atol):\n            lamb_mat = lamb_mat.diag()\n            if torch.allclose(lamb_mat.mean(), lamb_mat, atol=atol):\n                self.lamb_mat",
     "        # Check if the computed matrix is diagonal or multiple of the identity\n        atol = 1e-8 * lamb_mat.abs().max().item()\n        if torch.allclose(lamb_mat[0, 1:].abs().sum(), lamb_mat.real[0, 0] * 0, atol=atol):\n            lamb_mat = lamb_mat.diag()\n            if torch.allclose(lamb_mat.mean(), lamb_mat, atol=atol):\n                self.lamb_mat")],
    "an embedding whose first component is orthogonal to the others, which are not orthogonal to each other",
    "the normalisation matrix of a fixed embedding is taken for diagonal when its first row is", '''
import torch
from torchmps import ProbMPS
from torchmps.embeddings import DataDomain
torch.manual_seed(0)
table = torch.tensor([[1.0, 0, 0], [0, 1, 1], [0, 0, 1]])
m = ProbMPS(2, 3, 3, embed_fun=lambda x: table[x], domain=DataDomain(False, 3), init_method="normal")
x = torch.tensor([[a, b] for a in range(3) for b in range(3)])
assert abs(m(x).exp().sum() - 1) < 1e-3
''')

bug("c12-transposed-lambda", "C12", [(M, "t_op = lambda dm, ct: einsum(\"ij,ilr,lp,jpq->rq\", lamb_mat, ct, dm, ct.conj())", "t_op = lambda dm, ct: einsum(\"ij,jlr,lp,ipq->rq\", lamb_mat, ct, dm, ct.conj())")],
    "a complex embedding with a normalisation matrix that is not symmetric", "the complex normalisation matrix is transposed", '''
import torch
from torchmps import ProbMPS
from torchmps.embeddings import DataDomain
torch.manual_seed(0)
table = torch.randn(3, 2) + 1j * torch.randn(3, 2)
m = ProbMPS(2, 2, 3, complex_params=True, embed_fun=lambda x: table[x], domain=DataDomain(False, 3), init_method="normal")
x = torch.tensor([[a, b] for a in range(3) for b in range(3)])
assert abs(m(x).exp().sum() - 1) < 1e-3
''')

bug("c12-stale-eval-norm", "C12", [(P, "        # Account for non-trivial lambda function in the embedding\n        lamb_mat = None if self.embedding is None else self.embedding.lamb_mat\n\n        return get_log_norm(core_tensors, self.edge_vecs, lamb_mat=lamb_mat)\n",
     "        # Account for non-trivial lambda function in the embedding\n        lamb_mat = None if self.embedding is None else self.embedding.lamb_mat\n\n        # The norm doesn't change when the model is only evaluated\n        if self.training or torch.is_grad_enabled():\n            self._norm = None\n            return get_log_norm(core_tensors, self.edge_vecs, lamb_mat=lamb_mat)\n        if getattr(self, \"_norm\", None) is None:\n            self._norm = get_log_norm(core_tensors, self.edge_vecs, lamb_mat=lamb_mat)\n        return self._norm\n")],
    "parameters changed (loaded, say) between two evaluations in evaluation mode without gradients", "the normalisation of the earlier parameters is used", '''
import torch
from torchmps import ProbMPS
torch.manual_seed(0)
m, other = ProbMPS(2, 2, 2), ProbMPS(2, 2, 2, init_method="normal")
m.eval()
x = torch.tensor([[a, b] for a in range(2) for b in range(2)])
with torch.no_grad():
    m(x)
    m.load_state_dict(other.state_dict())
    assert abs(m(x).exp().sum() - 1) < 1e-3
''')

bug("c13-conjugated", "C13", [(M, "        matrices = tuple(m.transpose(-2, -1) for m in matrices[::-1])\n", "        matrices = tuple(m.mH for m in matrices[::-1])\n")],
    "complex matrices contracted with a right boundary vector only", "products evaluated from the right are complex conjugated", '''
import torch
from torchmps.mps_base import contract_matseq
torch.manual_seed(0)
m = torch.randn(3, 2, 2, dtype=torch.complex64)
v = torch.randn(2, dtype=torch.complex64)
assert torch.allclose(contract_matseq(m, right_vec=v), m[0] @ m[1] @ m[2] @ v, rtol=1e-3)
''')

bug("c14-lazy-rescale", "C14", [(M, "        rescale = product.abs().sum(dim=(-2, -1), keepdim=True) / target_norm\n        rescale = nonzero_scale(rescale)\n",
     "        rescale = product.abs().sum(dim=(-2, -1), keepdim=True) / target_norm\n        rescale = nonzero_scale(rescale if not 1e-3 < rescale.mean() < 1e3 else rescale * 0)\n")],
    "a batch in which some entries shrink and others grow, so that their mean stays moderate", "entries of a long chain underflow when others in the batch don't", '''
import torch
from torchmps.mps_base import contract_matseq
m = torch.ones(2, 400, 1, 1)
m[0] = 0.5
c, s = contract_matseq(m, torch.ones(1), torch.ones(1), log_format=True)
assert torch.allclose(c.abs().log() + s, torch.tensor([400 * 0.5, 1.0]).log() if False else torch.tensor([-277.2589, 0.0]), atol=1e-2)
''')

bug("c15-empty-batch", "C15", [(V, "            if x != 1 and x != out[i]:\n                if out[i] != 1:\n                    raise ValueError\n                out[i] = x\n", "            if x != 1 and x != out[i]:\n                if out[i] != 1:\n                    raise ValueError\n                out[i] = max(out[i], x)\n")],
    "an empty batch axis next to an axis of size one", "an axis of size one is not broadcast to an empty one", '''
from torchmps.utils2 import shape_broadcast
assert shape_broadcast([(1, 2), (0, 2)]) == (0, 2)
''')

bug("c16-nonsquare-noise", "C16", [(M, "    noise = noise / torch.sqrt(torch.prod(torch.tensor(shape[-2:])).float())\n", "    noise = noise / float(shape[-1])\n")],
    "slices that are not square", "the noise of near_eye_init is scaled with one of the bond dimensions only", '''
import torch, warnings
from torchmps.mps_base import near_eye_init
torch.manual_seed(0)
t = near_eye_init((50, 40, 4), noise=1.0) if False else near_eye_init((1, 400, 4), noise=1.0)
d = t - torch.eye(400, 4)
assert abs(d.std() * (1600 ** 0.5) - 1) < 0.2
''')

bug("c16-block-noise", "C16", [(U, "        tensor += std * torch.randn(shape)\n", "        tensor[[slice(dim) for dim in expand_shape]] += std * torch.randn(expand_shape)\n")],
    "min_random_eye with init_dim below the bond dimensions", "elements outside of the truncated identity get no noise", '''
import torch
from torchmps.utils import init_tensor
t = init_tensor([4, 4, 2], "lri", ("min_random_eye", 0.1, 2))
assert (t[2:, 2:] != 0).all()
''')

bug("c17-log-scale-dtype", "C17", [(M, "    return contraction.squeeze(dim=1), log_scale\n", "    return contraction.squeeze(dim=1), log_scale.to(torch.get_default_dtype())\n")],
    "a model converted with double(), evaluated with slim_eval", "the log scale stays in single precision", '''
import torch
from torchmps import ProbMPS
torch.manual_seed(0)
m = ProbMPS(20, 2, 3, init_method="normal").double()
x = torch.randint(2, (3, 20))
assert torch.allclose(m(x), m(x, slim_eval=True), rtol=1e-11, atol=1e-11)
''')

bug("c18-byte-patterns", "C18", [(U, "        pattern = template.format(i)\n        pattern = [int(s) for s in pattern]\n", "        pattern = np.unpackbits(np.array([i >> 8, i], dtype=np.int64).astype(np.uint8))[-min(length, 8) :]\n        pattern = np.resize(pattern, length)\n")],
    "images with more than 8 rows", "patterns of more than eight bits are wrong", '''
import torch
from torchmps.utils import load_HV_data
a, b, c, d = load_HV_data(9)
imgs = torch.cat([a, c])
assert len({tuple(i.flatten().tolist()) for i in imgs}) == len(imgs)
''')

bug("c19-sorted-outputs", "C19", [(C, "            out_str.extend([c for c in bs if c not in specials])\n", "            out_str.extend(sorted([c for c in bs if c not in specials]))\n")],
    "products of at least three cores with an output index, bracketed to the left", "output indices of a product are permuted", '''
import torch
from torchmps.contractables import OutputCore
torch.manual_seed(0)
a, b, c = [torch.randn(2, n, 3, 3) for n in (2, 3, 4)]
p = (OutputCore(a) * OutputCore(b)) * OutputCore(c)
q = (p * OutputCore(a)).tensor
ref = torch.einsum("bolu,bpuv,bqvw,bswr->bopqslr", a, b, c, a)
assert q.shape == ref.shape and torch.allclose(q, ref, rtol=1e-3, atol=1e-3)
''')

bug("c20-first-sequence", "C20", [(T, "            assert num_modes == 1 or all([s.size(1) == feature_dim for s in input_data])\n", "            assert num_modes == 1 or input_data[0].size(1) == feature_dim\n")],
    "a list of pre-embedded sequences of which a later one has feature dimension one", "sequences of feature dimension one are broadcast", '''
import torch
from torchmps import TI_MPS
m = TI_MPS(output_dim=2, bond_dim=3)
try:
    m([torch.rand(3, 2), torch.rand(2, 1)])
except Exception:
    pass
else:
    raise SystemExit(1)
''')

bug("c20-wider-input", "C20", [(T, "        assert len(input_data.shape) in [2, 3]\n        assert input_data.size(1) == self.input_dim\n", "        assert len(input_data.shape) in [2, 3]\n        assert input_data.size(1) >= self.input_dim\n        input_data = input_data[:, : self.input_dim]\n")],
    "inputs with more sites than the model", "surplus sites are silently dropped", '''
import torch
from torchmps import MPS
m = MPS(input_dim=4, output_dim=2, bond_dim=3)
try:
    m(torch.rand(3, 5))
except Exception:
    pass
else:
    raise SystemExit(1)
''')

bug("c21-sine-from-cosine", "C21", [(E, "            * torch.sin(data * pi / 2) ** s\n", "            * (1 - torch.cos(data * pi / 2) ** 2).clamp(min=0).sqrt() ** s\n")],
    "values close to zero, or negative ones", "the sine is computed from the cosine and loses accuracy and sign", '''
import torch
from torchmps.embeddings import trig_embed
x = torch.tensor([-0.5])
assert torch.allclose(trig_embed(x), torch.stack([torch.cos(x * 3.14159265 / 2), torch.sin(x * 3.14159265 / 2)], -1), atol=1e-3)
''')


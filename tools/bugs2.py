T, P, M, C, U, V, E = ("torchmps/torchmps.py", "torchmps/prob_mps.py", "torchmps/mps_base.py", "torchmps/contractables.py",
                       "torchmps/utils.py", "torchmps/utils2.py", "torchmps/embeddings.py")
BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c01-single-site-bias", "C01", [(T, "        # If we're using bias matrices, add those here\n        if self.use_bias:\n            bias_mat = self.bias_mat.unsqueeze(0)",
     "        # If we're using bias matrices, add those here\n        if self.use_bias and (mats.size(1) > 1 or self.fixed_bias):\n            bias_mat = self.bias_mat.unsqueeze(0)")],
    "a trainable, non-zero bias and an input region of a single site (label site next to an end of the chain)",
    "the bias matrix of a region with one site is left out", '''
import torch
from torchmps import MPS
torch.manual_seed(0)
m = MPS(input_dim=4, output_dim=3, bond_dim=4, label_site=1)
with torch.no_grad():
    for p in m.parameters():
        p.normal_()
x = torch.rand(3, 4)
a = m(x)
with torch.no_grad():
    m.linear_region.module_list[0].bias_mat.mul_(2)
assert not torch.allclose(a, m(x), rtol=1e-3)
''')

bug("c01-one-dimensional-bonds", "C01", [(C, "        return SingleMat(mats.squeeze(1))\n", "        return SingleMat(mats.squeeze())\n")],
    "parallel evaluation with a bond dimension of one", "the bond axes of one-dimensional bonds are squeezed away", '''
import torch
from torchmps import MPS
torch.manual_seed(0)
m = MPS(input_dim=4, output_dim=3, bond_dim=1, parallel_eval=True)
assert m(torch.rand(5, 4)).shape == (5, 3)
''')

bug("c02-embed-after-padding", "C02", [(T, "            if num_modes == 1:\n                input_data = [self.embed_input(s.unsqueeze(0))[0] for s in input_data]\n",
     "            if num_modes == 1 and self.feature_map is None:\n                input_data = [self.embed_input(s.unsqueeze(0))[0] for s in input_data]\n            elif num_modes == 1:\n                raw = self.core_tensor.new_zeros(len(input_data), max_len)\n                for i, s in enumerate(input_data):\n                    raw[i, : s.size(0)] = s\n                return self.embed_input(raw)\n"),
     (T, "            # Pad the sequences with zeros (if needed), return as batch tensor\n", "            # Pad the sequences (if needed), return as batch tensor\n")],
    "a ragged list of raw sequences and a custom feature map which does not vanish at zero",
    "padding is embedded by the custom feature map", '''
import torch
from torchmps import TI_MPS
torch.manual_seed(0)
m = TI_MPS(output_dim=3, bond_dim=4, init_std=0.5)
m.register_feature_map(lambda x: torch.stack([torch.cos(x * 1.0), torch.sin(x * 1.0)]))
seqs = [torch.rand(2), torch.rand(5)]
y = m(seqs)
for s, out in zip(seqs, y):
    assert torch.allclose(m(s[None])[0], out, rtol=1e-3)
''')

bug("c03-dtype-blind-cache", "C03", [(C, "import threading\n", "import threading\nfrom functools import lru_cache\n"),
    (T, "            end_vecs = [\n                item.tensor.new_zeros(dim) for (item, dim) in zip(end_items, bond_dims)\n            ]\n\n            for vec in end_vecs:\n                vec[0] = 1\n",
     "            end_vecs = []\n            for item, dim in zip(end_items, bond_dims):\n                vec = _END_VECS.get(dim)\n                if vec is None:\n                    vec = item.tensor.detach().new_zeros(dim)\n                    vec[0] = 1\n                    _END_VECS[dim] = vec\n                end_vecs.append(vec)\n"),
    (T, "class TI_MPS(nn.Module):\n", "# Dummy end vectors of open boundary conditions, by bond dimension\n_END_VECS = {}\n\n\nclass TI_MPS(nn.Module):\n")],
    "two models of equal bond dimension and different precision evaluated in one process",
    "end vectors made for a model of one precision are reused for a model of another one", '''
import torch
from torchmps import MPS
a = MPS(input_dim=4, output_dim=3, bond_dim=4)
b = MPS(input_dim=4, output_dim=3, bond_dim=4).double()
a(torch.rand(2, 4))
b(torch.rand(2, 4).double())
''')

bug("c03-shared-workspace", "C03", [(C, "            if rmul:\n                vec = torch.bmm(vec, mat)\n            else:\n                vec = torch.bmm(mat, vec)\n",
     "            out = None\n            if not torch.is_grad_enabled():\n                key = (tuple(vec.shape), vec.dtype, i % 2)\n                out = MatRegion.workspace.setdefault(key, torch.empty_like(vec))\n            if rmul:\n                vec = torch.bmm(vec, mat, out=out)\n            else:\n                vec = torch.bmm(mat, vec, out=out)\n"),
    (C, "    def __init__(self, mats):\n        shape = list(mats.shape)\n", "    workspace = {}\n\n    def __init__(self, mats):\n        shape = list(mats.shape)\n")],
    "two threads evaluating models of equal bond dimension and batch size at the same time, with gradients disabled, or a label site in the middle of the chain",
    "intermediate vectors of all evaluations without gradients live in one shared workspace", '''
import torch
from torchmps import MPS
torch.manual_seed(0)
m = MPS(input_dim=9, output_dim=3, bond_dim=4, label_site=4)
with torch.no_grad():
    for p in m.parameters():
        p.normal_()
xs = [torch.rand(300, 9) for _ in range(2)]
refs = [m(x).detach() for x in xs]
import threading
bad = []
def work(i):
    with torch.no_grad():
        for _ in range(400):
            if not torch.allclose(m(xs[i]), refs[i], rtol=1e-3, atol=1e-5):
                bad.append(i)
                return
ts = [threading.Thread(target=work, args=(i,)) for i in range(2)]
[t.start() for t in ts]
[t.join() for t in ts]
assert not bad
''')

bug("c04-contiguous-path", "C04", [(T, "            path_inputs = []\n            for site_num in self.path:\n                path_inputs.append(input_data[:, site_num])\n            input_data = torch.stack(path_inputs, dim=1)\n",
     "            first, last = int(self.path[0]), int(self.path[-1])\n            if last - first == len(self.path) - 1 and first >= 0:\n                input_data = input_data[:, first : last + 1]\n            else:\n                path_inputs = []\n                for site_num in self.path:\n                    path_inputs.append(input_data[:, site_num])\n                input_data = torch.stack(path_inputs, dim=1)\n")],
    "a path whose ends are as far apart as those of a contiguous one but whose interior is permuted",
    "the path is taken to be contiguous on the evidence of its ends", '''
import torch
from torchmps import MPS
torch.manual_seed(0)
m = MPS(input_dim=4, output_dim=3, bond_dim=4, path=[0, 2, 1, 3])
q = MPS(input_dim=4, output_dim=3, bond_dim=4)
with torch.no_grad():
    for p in m.parameters():
        p.normal_()
q.load_state_dict(m.state_dict())
x = torch.rand(3, 4)
assert torch.allclose(m(x), q(x[:, [0, 2, 1, 3]]), rtol=1e-3)
''')

bug("c04-map-value-cache", "C04", [(T, "            f_map = self.feature_map\n            embedded_data = torch.stack(\n                [torch.stack([f_map(x) for x in batch]) for batch in input_data]\n            )\n\n            # Make sure our embedded input has the desired size\n            assert embedded_data.shape == torch.Size(",
     "            cache = self.__dict__.setdefault(\"_embedded\", {})\n\n            def f_map(x):\n                if x.requires_grad:\n                    return self.feature_map(x)\n                key = x.item()\n                if key not in cache:\n                    cache[key] = self.feature_map(x).detach() if not torch.is_grad_enabled() else self.feature_map(x)\n                return cache[key]\n\n            if torch.is_grad_enabled():\n                cache.clear()\n            embedded_data = torch.stack(\n                [torch.stack([f_map(x) for x in batch]) for batch in input_data]\n            )\n\n            # Make sure our embedded input has the desired size\n            assert embedded_data.shape == torch.Size(")],
    "a feature map replaced (or with changed parameters) between evaluations without gradients that share values",
    "embedded values are cached over the replacement of the feature map", '''
import torch
from torchmps import MPS
torch.manual_seed(0)
m = MPS(input_dim=4, output_dim=3, bond_dim=4)
with torch.no_grad():
    for p in m.parameters():
        p.normal_()
    x = torch.rand(3, 4)
    m.register_feature_map(lambda x: torch.stack([x, 2 - x]) * 1.0)
    a = m(x)
    m.register_feature_map(lambda x: torch.stack([x, 3 - x]) * 1.0)
    b = m(x)
assert not torch.allclose(a, b, rtol=1e-3)
''')

bug("c05-unchanged-bonds", "C05", [(T, "                if bond_dim is not None:\n                    assert new_svs[i] is not None\n", "                if bond_dim is not None and (\n                    bond_dim != self.bond_list[i] or self.sv_list[i, 0] < 0\n                ):\n                    assert new_svs[i] is not None\n")],
    "a second rearrangement over a bond whose dimension does not change",
    "recorded singular values are refreshed only where the bond dimension changes", '''
import torch
from torchmps import MPS
torch.manual_seed(0)
m = MPS(input_dim=4, output_dim=2, bond_dim=3, adaptive_mode=True, merge_threshold=1, init_std=0.1)
x = torch.rand(1, 4)
for _ in range(3):
    m(x)
old = m.sv_list.clone()
with torch.no_grad():
    for p in m.parameters():
        p.mul_(3)
for _ in range(2):
    m(x)
assert not torch.allclose(old[1:-1], m.sv_list[1:-1])
''')

bug("c05-training-counter", "C05", [(T, "        self.input_counter += input_data.size(0)\n        output = super()", "        if self.training or torch.is_grad_enabled():\n            self.input_counter += input_data.size(0)\n        output = super()")],
    "inputs evaluated in evaluation mode with gradients disabled", "inputs of evaluations without gradients are not counted", '''
import torch
from torchmps import MPS
m = MPS(input_dim=4, output_dim=2, bond_dim=3, adaptive_mode=True, merge_threshold=4, init_std=0.1)
m.eval()
with torch.no_grad():
    m(torch.rand(4, 4))
    m(torch.rand(1, 4))
assert m.linear_region.offset == 1
''')

bug("c06-frozen-cores", "C06", [(T, "                module_list[i].tensor[:] = merged_list[i].tensor\n", "                if module_list[i].tensor.requires_grad:\n                    module_list[i].tensor[:] = merged_list[i].tensor\n")],
    "an adaptive model with frozen parameters that is evaluated past its merge threshold",
    "frozen cores keep their old values when the cores are rearranged", '''
import torch
from torchmps import MPS
torch.manual_seed(0)
m = MPS(input_dim=4, output_dim=2, bond_dim=3, adaptive_mode=True, merge_threshold=1, init_std=0.1)
with torch.no_grad():
    for p in m.linear_region.module_list.parameters():
        p.mul_(2)
for p in m.parameters():
    p.requires_grad_(False)
x = torch.rand(1, 4)
assert torch.allclose(m(x), m(x), rtol=1e-3)
''')

bug("c06-clamped-scales", "C06", [(T, "        scales = [[torch.exp(log_scale - n) for n in ns] for ns in log_norms]\n", "        scales = [\n            [torch.exp((log_scale - n).clamp(-5, 5)) for n in ns] for ns in log_norms\n        ]\n")],
    "cores whose norms differ by more than a factor of 150 from their geometric mean when they are rearranged",
    "scales between the norms of cores are clamped, so their product is no longer one", '''
import torch
from torchmps import MPS
torch.manual_seed(0)
m = MPS(input_dim=6, output_dim=2, bond_dim=3, adaptive_mode=True, merge_threshold=1, init_std=0.1)
with torch.no_grad():
    m.linear_region.module_list[0].tensor.mul_(1e6)
x = torch.rand(1, 6)
a, b = m(x), m(x)
assert torch.allclose(a, b, rtol=1e-2), (a, b)
''')

bug("c07-single-precision", "C07", [(U, "        left_mat, svs, right_mat = torch.svd(tensor)\n", "        if min(tensor.shape) > 32:\n            left_mat, svs, right_mat = (t.to(tensor.dtype) for t in torch.svd(tensor.float()))\n        else:\n            left_mat, svs, right_mat = torch.svd(tensor)\n")],
    "a double precision tensor whose smaller matrix dimension exceeds 32", "large matrices are decomposed in single precision", '''
import torch
from torchmps.utils import svd_flex
torch.manual_seed(0)
t = torch.randn(40, 40).double()
l, r, d = svd_flex(t, "lr->lu,ur")
assert (l @ r - t).abs().max() < 1e-9
''')

bug("c07-uncapped-rank", "C07", [(U, "        left_mat, svs, right_mat = torch.svd(tensor)\n        svs, _ = torch.sort(svs, descending=True)\n", "        left_mat, svs, right_mat = torch.svd(tensor)\n        svs, _ = torch.sort(svs, descending=True)\n        all_svs = svs\n"),
    (U, "        truncation = 0\n        for s in svs:\n", "        truncation = 0\n        for s in all_svs:\n")],
    "max_D smaller than the number of singular values above the cutoff", "the returned bond dimension is not capped at max_D", '''
import torch
from torchmps.utils import svd_flex
t = torch.randn(6, 6)
l, r, d = svd_flex(t, "lr->lu,ur", max_D=3)
assert d == 3
''')

bug("c08-eval-norm", "C08", [(P, "        log_norm = self.log_norm()\n", "        log_norm = self.log_norm()\n        if not self.training:\n            log_norm = log_norm.detach()\n")],
    "gradients of a fixed-length model in evaluation mode", "the normalisation does not contribute to gradients in evaluation mode", '''
import torch
from torchmps import ProbMPS
torch.manual_seed(0)
m = ProbMPS(seq_len=3, input_dim=2, bond_dim=3)
x = torch.randint(2, (4, 3))
m.loss(x).backward()
g = m.core_tensors.grad.clone()
m.eval()
m.zero_grad()
m.loss(x).backward()
assert torch.allclose(g, m.core_tensors.grad, rtol=1e-3, atol=1e-5)
''')

bug("c08-list-inputs", "C08", [(T, "                    batch_input[i, : seq.size(0)] = seq\n", "                    batch_input[i, : seq.size(0)] = seq.data\n")],
    "gradients with respect to inputs given as a list of sequences", "inputs given as a list receive no gradient", '''
import torch
from torchmps import TI_MPS
m = TI_MPS(output_dim=3, bond_dim=4, init_std=0.5)
x = torch.rand(5, requires_grad=True)
m([x, torch.rand(3)]).sum().backward()
assert x.grad is not None and x.grad.abs().sum() > 0
''')

bug("c09-square-terminal", "C09", [(T, "        mat = torch.eye(bond_dim, output_dim)\n        if fixed_mat:\n", "        mat = torch.eye(bond_dim, output_dim)\n        if fixed_mat or output_dim == bond_dim:\n")],
    "a sequence model whose output dimension equals its bond dimension", "a square terminal matrix is not trained", '''
import torch
from torchmps import TI_MPS
m = TI_MPS(output_dim=4, bond_dim=4)
assert "terminal_mat.mat" in dict(m.named_parameters())
''')

bug("c10-bias-phase", "C10", [(P, "            core_tensors = self.core_tensors + self.bias_mat[None]\n        else:", "            core_tensors = self.core_tensors + self.bias_mat.conj()[None]\n        else:")],
    "a uniform model with complex parameters and a bias that is not real", "the norm is computed with the conjugate bias matrix", '''
import torch
from torchmps import ProbUnifMPS
torch.manual_seed(0)
m = ProbUnifMPS(input_dim=2, bond_dim=3, complex_params=True, use_bias=True)
with torch.no_grad():
    m.bias_mat.copy_(torch.randn(3, 3, dtype=torch.complex64))
x = torch.tensor([[a, b] for a in range(2) for b in range(2)])
assert abs(m(x).exp().sum().item() - 1) < 1e-3
''')

bug("c10-cached-norm", "C10", [(P, "        log_norm = self.log_norm(seq_len)\n", "        key = (seq_len, self.core_tensors._version, self.edge_vecs._version)\n        if torch.is_grad_enabled() or self.embedding is not None:\n            log_norm = self.log_norm(seq_len)\n        elif getattr(self, \"_norm\", (None,))[0] == key:\n            log_norm = self._norm[1]\n        else:\n            log_norm = self.log_norm(seq_len)\n            self._norm = (key, log_norm)\n")],
    "evaluations without gradients before and after a change of the bias matrix only", "the cached norm is not renewed when only the bias matrix changes", '''
import torch
from torchmps import ProbUnifMPS
torch.manual_seed(0)
m = ProbUnifMPS(input_dim=2, bond_dim=3, use_bias=True)
x = torch.tensor([[a, b] for a in range(2) for b in range(2)])
with torch.no_grad():
    m(x)
    m.bias_mat.normal_()
    assert abs(m(x).exp().sum().item() - 1) < 1e-3
''')


bug("c12-narrow-domain", "C12", [(E, "            points = torch.linspace(\n                self.domain.min_val, self.domain.max_val, steps=num_points\n            )\n", "            width = self.domain.max_val - self.domain.min_val\n            num_points = max(2, min(num_points, int(1000 * width)))\n            points = torch.linspace(\n                self.domain.min_val, self.domain.max_val, steps=num_points\n            )\n")],
    "a fixed embedding on an interval narrower than 0.05", "the quadrature of narrow intervals uses too few points", '''
import torch
from torchmps.embeddings import FixedEmbedding, DataDomain
w = 0.004
f = lambda x: torch.stack([torch.cos(x * 3.14159265 / w), torch.sin(x * 3.14159265 / w), torch.sin(x * 5 / w)], dim=-1)
e = FixedEmbedding(f, DataDomain(True, w, 0.0))
L = e.lamb_mat if e.lamb_mat.ndim == 2 else torch.diag(e.lamb_mat.expand(3))
assert abs(L[2, 2].item() / w - 0.5272) < 1e-2, L
''')

bug("c12-negative-overlap", "C12", [(E, "        if torch.allclose(lamb_mat.diag().diag(), lamb_mat, atol=atol):\n            lamb_mat = lamb_mat.diag()\n            if torch.allclose(lamb_mat.mean(), lamb_mat, atol=atol):\n                self.lamb_mat",
     "        off_diag = lamb_mat - lamb_mat.diag().diag()\n        if not off_diag.is_complex() and off_diag.max() <= atol:\n            lamb_mat = lamb_mat.diag()\n            if torch.allclose(lamb_mat.mean(), lamb_mat, atol=atol):\n                self.lamb_mat")],
    "a fixed embedding whose components overlap only negatively", "negative off-diagonal elements of the normalisation matrix are ignored", '''
import torch
from torchmps.embeddings import FixedEmbedding, DataDomain
t = torch.tensor([[1.0, -0.5], [0.3, -2.0], [0.1, 0.0]])
e = FixedEmbedding(lambda x: t[x.long()], DataDomain(False, 3))
assert e.lamb_mat.ndim == 2
''')


bug("c13-bundle-by-bonds", "C13", [(V, "    if len(set(t.shape for t in tensors)) > 1 or len(tensors) == 0:\n        return tensors\n", "    if len(set(t.shape[-2:] for t in tensors)) > 1 or len(tensors) == 0:\n        return tensors\n    elif len(set(t.shape for t in tensors)) > 1:\n        num = min(t.ndim for t in tensors)\n        batch = max((t.shape[:-num] if t.ndim > num else () for t in tensors), key=len)\n        return torch.stack([t.expand(batch + t.shape[-num:]) for t in tensors], dim=dim)\n")],
    "matrices of equal size and different batch shapes", "matrices with differing batch shapes are stacked after partial expansion", '''
import torch
from torchmps.mps_base import contract_matseq
a, b = torch.rand(2, 1, 3, 3), torch.rand(1, 4, 3, 3)
assert torch.allclose(contract_matseq([a, b]), a @ b, rtol=1e-3)
''')

bug("c14-floor-scale", "C14", [(M, "    return torch.where(scale == 0, torch.ones_like(scale), scale)\n", "    return torch.where(scale < 1e-12, torch.ones_like(scale), scale)\n")],
    "several factors of magnitude below 1e-12", "tiny factors are not rescaled, and their products underflow", '''
import torch
from torchmps.mps_base import contract_matseq
m = torch.eye(3).repeat(20, 1, 1) * 1e-13
p, s = contract_matseq(m, log_format=True)
assert p.abs().max() > 0
''')

bug("c15-zero-sizes", "C15", [(V, "                if out[i] != 1:\n                    raise ValueError\n", "                if out[i] > 1:\n                    raise ValueError\n")],
    "batch shapes with an axis of size zero next to one of size above one", "an axis of size zero is broadcast against a larger one", '''
import torch
from torchmps.utils2 import shape_broadcast
try:
    shape_broadcast([(0, 2), (3, 2)])
    raise SystemExit(1)
except ValueError:
    pass
''')

bug("c16-noise-free-centre", "C16", [(U, "        # Add on a bit of random noise\n        tensor += std * torch.randn(shape)\n", "        # Add on a bit of random noise\n        tensor += std * torch.randn(shape) * (tensor == 0)\n")],
    "reading the spread of the entries on the diagonal alone", "entries of the identity part get no noise", '''
import torch
from torchmps.utils import init_tensor
t = init_tensor((4, 4, 100), "lri", ("random_eye", 0.1))
assert t[0, 0].std() > 0.05
''')

bug("c16-wide-inputs", "C16", [(M, "    std = rel_std / shape[-1]\n", "    std = rel_std / max(shape[-1], shape[-3])\n")],
    "normal initialisation with an input dimension above the bond dimension", "the spread depends on the input dimension", '''
import torch
from torchmps.mps_base import normal_init
t = normal_init((400, 2, 2), rel_std=1.0)
assert abs(t.std() - 0.5) < 0.1
''')

bug("c17-transient-bias", "C17", [(T, "                self.register_buffer(name=\"bias_mat\", tensor=bias_mat)\n            else:\n                bias_mat = init_tensor(", "                self.register_buffer(\n                    name=\"bias_mat\", tensor=bias_mat, persistent=False\n                )\n            else:\n                bias_mat = init_tensor(")],
    "a sequence model whose fixed bias matrix was changed before it is saved", "the fixed bias matrix is not part of the state_dict", '''
import torch
from torchmps import TI_MPS
m = TI_MPS(output_dim=3, bond_dim=4)
assert "bias_mat" in m.state_dict()
''')

bug("c20-clamped-labels", "C20", [(U, "    for i, label in enumerate(labels):\n        label_vecs[i, label] = 1.0\n\n    return label_vecs\n", "    return label_vecs.scatter_(1, torch.as_tensor(labels).long()[:, None].clamp(max=max_value - 1), 1.0)\n")],
    "a label outside the range", "labels beyond the range are silently taken as the last class", '''
import torch
from torchmps.utils import onehot
try:
    onehot(torch.tensor([5]), 3)
    raise SystemExit(1)
except (IndexError, RuntimeError):
    pass
''')

bug("c19-left-output-mat", "C19", [(C, "        bond_str = \"b\" + (\"r\" if is_left_mat else \"l\") + \"o\"\n        super().__init__(mat, bond_str=bond_str)\n", "        bond_str = \"b\" + (\"r\" if is_left_mat else \"l\") + \"o\"\n        if is_left_mat and mat.size(-1) == mat.size(-2):\n            bond_str = \"bor\"\n        super().__init__(mat, bond_str=bond_str)\n")],
    "a square output matrix on the left edge", "a square output matrix on the left edge is read transposed", '''
import torch
from torchmps.contractables import OutputMat, EdgeVec
m, v = torch.rand(2, 3, 3), torch.rand(2, 3)
out = OutputMat(m, is_left_mat=True) * EdgeVec(v, is_left_vec=False)
assert torch.allclose(out.tensor, torch.einsum("bro,br->bo", m, v), rtol=1e-3)
''')

bug("c20-short-sequences", "C20", [(M, "    assert uniform or len(core_tensor) == seq_len\n", "    assert uniform or len(core_tensor) >= seq_len\n")],
    "a discrete sequence shorter than the sequence length of the model", "sequences shorter than the model are evaluated with the first cores", '''
import torch
from torchmps import ProbMPS
m = ProbMPS(seq_len=4, input_dim=2, bond_dim=3)
try:
    m(torch.zeros(2, 3).long())
    raise SystemExit(1)
except (AssertionError, ValueError, RuntimeError):
    pass
''')

bug("c20-slim-broadcast", "C20", [(M, "        assert seq_input.shape[-1] == core_tensor.shape[-3]\n", "        assert seq_input.shape[-1] in (1, core_tensor.shape[-3])\n")],
    "slim evaluation of vector inputs of dimension one", "vectors of dimension one are broadcast over the inputs of the cores", '''
import torch
from torchmps import ProbUnifMPS
m = ProbUnifMPS(input_dim=2, bond_dim=3)
try:
    m(torch.rand(2, 3, 1), slim_eval=True)
    raise SystemExit(1)
except (AssertionError, ValueError, RuntimeError):
    pass
''')

bug("c21-default-layers", "C21", [(E, "    all_dims = [1] + list(hidden_dims) + [output_dim]\n", "    all_dims = hidden_dims\n    all_dims.insert(0, 1)\n    all_dims.append(output_dim)\n")],
    "a second embedding made from the same list of layers (or the default one)", "the list of hidden dimensions is changed in place", '''
from torchmps.embeddings import init_mlp_embed
init_mlp_embed(3)
init_mlp_embed(3)
''')

bug("c21-big-binomials", "C21", [(E, "        binom = factorial(emb_dim - 1) // (factorial(s) * factorial(emb_dim - s - 1))\n", "        binom = torch.arange(s + 1, emb_dim).prod().item() // factorial(emb_dim - s - 1)\n")],
    "an embedding dimension of 22 or more", "binomial coefficients of large embeddings overflow", '''
import torch
from torchmps.embeddings import trig_embed
v = trig_embed(torch.rand(5).double(), emb_dim=24)
assert torch.allclose((v ** 2).sum(-1), torch.ones(5).double())
''')

bug("c21-step-size", "C21", [(E, "            lamb_mat = torch.trapz(emb_mats, points, dim=0)\n\n        else:\n            points = torch.arange(self.domain.max_val).long()\n            emb_vecs = self.emb_fun(points)\n            assert emb_vecs.ndim == 2\n            self.emb_dim = emb_vecs.shape[1]\n            assert emb_vecs.shape[0] == self.domain.max_val\n\n            # Get rank-1 matrices for each point, then sum together\n            emb_mats = einsum(\"bi,bj->bij\", emb_vecs, emb_vecs.conj())\n            lamb_mat = torch.sum(emb_mats, dim=0)\n\n        assert lamb_mat.ndim == 2\n        assert lamb_mat.shape[0] == lamb_mat.shape[1]\n        self.lamb_mat",
     "            step = (self.domain.max_val - self.domain.min_val) / num_points\n            lamb_mat = torch.trapz(emb_mats, dx=step, dim=0)\n\n        else:\n            points = torch.arange(self.domain.max_val).long()\n            emb_vecs = self.emb_fun(points)\n            assert emb_vecs.ndim == 2\n            self.emb_dim = emb_vecs.shape[1]\n            assert emb_vecs.shape[0] == self.domain.max_val\n\n            # Get rank-1 matrices for each point, then sum together\n            emb_mats = einsum(\"bi,bj->bij\", emb_vecs, emb_vecs.conj())\n            lamb_mat = torch.sum(emb_mats, dim=0)\n\n        assert lamb_mat.ndim == 2\n        assert lamb_mat.shape[0] == lamb_mat.shape[1]\n        self.lamb_mat")],
    "a fixed embedding on a continuous domain", "the normalisation of continuous domains is a tenth of a percent too small", '''
import torch
from torchmps.embeddings import FixedEmbedding, unit_interval, trig_embed
e = FixedEmbedding(trig_embed, unit_interval)
L = e.lamb_mat if e.lamb_mat.ndim == 2 else torch.diag(e.lamb_mat.expand(2))
assert abs(L[0, 0].item() - 0.5) < 1e-4
''')


"""Further planted bugs, in the format of bugs1.py"""
BUGS = []
T, C, P, M, E, U, V = ("torchmps/torchmps.py", "torchmps/contractables.py", "torchmps/prob_mps.py", "torchmps/mps_base.py",
                       "torchmps/embeddings.py", "torchmps/utils.py", "torchmps/utils2.py")


def bug(bid, prop, edits, needs, breaks, demo):
    BUGS.append({"id": bid, "property": prop, "edits": edits, "needs": needs, "breaks": breaks, "demo": demo})


bug("c02-late-longest", "C02", [
    (T, "            max_len = max([s.size(0) for s in input_data])\n", "            max_len = max([s.size(0) for s in input_data[:32]])\n"),
    (T, "                for i, seq in enumerate(input_data):\n                    batch_input[i, : seq.size(0)] = seq\n",
        "                for i, seq in enumerate(input_data):\n                    batch_input[i, : seq.size(0)] = seq[:max_len]\n")],
    "a list of more than 32 sequences, the longest of which comes late", "the longest sequences of large lists are cut off", '''
import torch
from torchmps import TI_MPS
torch.manual_seed(0)
m = TI_MPS(output_dim=2, bond_dim=3)
with torch.no_grad():
    m.core_tensor.copy_(torch.rand_like(m.core_tensor))
xs = [torch.rand(2) for _ in range(40)] + [torch.rand(7)]
assert torch.allclose(m(xs)[-1], m(xs[-1:])[0], rtol=1e-4)
''')

bug("c03-output-buffer", "C03", [(T, "            return output.tensor\n\n    def core_len", '''            result = output.tensor
            if not torch.is_grad_enabled():  # no need for fresh memory at inference
                buffer = getattr(self, "_outputs", None)
                if buffer is None or buffer.shape != result.shape or buffer.dtype != result.dtype:
                    buffer = self._outputs = torch.empty_like(result)
                result = buffer.copy_(result)
            return result

    def core_len''')],
    "two evaluations without gradients whose outputs are compared afterwards", "outputs are overwritten by the next evaluation", '''
import torch
from torchmps import MPS
torch.manual_seed(0)
m = MPS(input_dim=4, output_dim=2, bond_dim=2, init_std=0.3)
with torch.no_grad():
    a = m(torch.rand(3, 4))
    b = a.clone()
    m(torch.rand(3, 4))
assert torch.equal(a, b)
''')

bug("c04-embedded-path", "C04", [(T, "        if self.path is not None:\n            path_inputs", '''        # (pre-embedded inputs of the right size have been put in order already)
        if self.path is not None and (
            input_data.ndim == 2 or input_data.size(1) != self.input_dim
        ):
            path_inputs''')],
    "a path which permutes all sites, and pre-embedded inputs", "the path is ignored for embedded inputs of the same size", '''
import torch
from torchmps import MPS
torch.manual_seed(0)
m = MPS(input_dim=4, output_dim=2, bond_dim=2, init_std=0.3, path=[2, 0, 3, 1])
x = torch.rand(3, 4)
assert torch.allclose(m(x), m(torch.stack([x, 1 - x], dim=2)), atol=1e-6)
''')

bug("c04-eval-map-grad", "C04", [(T, '''            embedded_data = torch.stack(
                [torch.stack([f_map(x) for x in batch]) for batch in input_data]
            )

            # Make sure our embedded input has the desired size
            assert embedded_data.shape == torch.Size(''', '''            with torch.set_grad_enabled(self.training and torch.is_grad_enabled()):
                embedded_data = torch.stack(
                    [torch.stack([f_map(x) for x in batch]) for batch in input_data]
                )

            # Make sure our embedded input has the desired size
            assert embedded_data.shape == torch.Size(''')],
    "gradients of a trainable feature map (or the inputs) of a model in evaluation mode", "feature maps are cut off in evaluation mode", '''
import torch
from torchmps import MPS
torch.manual_seed(0)
m = MPS(input_dim=4, output_dim=2, bond_dim=2, init_std=0.3)
m.register_feature_map(lambda x: torch.stack([x, x * x]))
m.eval()
x = torch.rand(3, 4, requires_grad=True)
m(x).sum().backward()
assert x.grad is not None and x.grad.abs().sum() > 0
''')

bug("c05-never-grows", "C05", [(T, "                    self.bond_list[i] = bond_dim\n", "                    self.bond_list[i] = min(bond_dim, int(self.bond_list[i]))\n")],
    "a bond whose rank grows between two rearrangements", "bond_list never grows again", '''
import torch
from torchmps import MPS
torch.manual_seed(0)
m = MPS(input_dim=4, output_dim=1, bond_dim=3, adaptive_mode=True, merge_threshold=1, cutoff=1e-3, init_std=1e-9)
x = torch.rand(2, 4)
for _ in range(5):
    m(x)
with torch.no_grad():
    for p in m.parameters():
        p.copy_(torch.randn_like(p))
m(x), m(x), m(x)
assert (m.bond_list[1:-1] > 1).any(), m.bond_list
''')

bug("c06-close-enough", "C06", [(T, "                module_list[i].tensor[:] = merged_list[i].tensor\n", '''                if not torch.allclose(module_list[i].tensor, merged_list[i].tensor):
                    module_list[i].tensor[:] = merged_list[i].tensor
''')],
    "small updates of the parameters between rearrangements", "small changes of merged cores get lost", '''
import torch
from torchmps import MPS
torch.manual_seed(0)
torch.set_default_dtype(torch.float64)
m = MPS(input_dim=2, output_dim=1, bond_dim=1, adaptive_mode=True, merge_threshold=10, label_site=2)
x = torch.rand(10, 2)
def scaled(c):
    with torch.no_grad():
        for p in m.linear_region.module_list.parameters():
            p.mul_(c)
scaled(1.5)
for k in range(4):
    m(x)
with torch.no_grad():
    for k in range(6):
        m.linear_region.input_counter = 0
        scaled(1 + 1e-6)
        a = m(x)
        b = m(x)
        assert torch.allclose(a, b, rtol=1e-9), (a, b)
''')

bug("c06-first-cores", "C06", [(T, '''        assert len(scale_list) == len(self.tensor)

        for core, scale in zip(self.tensor, scale_list):
            core *= scale

    def core_len(self):
        return len(self)
''', '''        assert len(scale_list) == len(self.tensor)

        for core, scale in zip(self.tensor[:12], scale_list):
            core *= scale

    def core_len(self):
        return len(self)
''')],
    "an adaptive model with more than 12 sites on one side of the output", "only the first cores of a region are rescaled after splitting", '''
import torch
from torchmps import MPS
torch.manual_seed(0)
torch.set_default_dtype(torch.float64)
m = MPS(input_dim=16, output_dim=1, bond_dim=2, adaptive_mode=True, merge_threshold=5, label_site=16)
with torch.no_grad():
    for k, p in enumerate(m.linear_region.module_list.parameters()):
        p.copy_(torch.rand_like(p) * (k + 1))
        p[0] *= 3
x = torch.rand(5, 16)
m(x), m(x), m(x)
a, b = m(x), m(x)
assert torch.allclose(a, b, rtol=1e-8), (a, b)
''')

bug("c07-equal-values", "C07", [(U, "        for s in svs:\n            if s < cutoff:\n                break\n            truncation += 1\n", '''        for i, s in enumerate(svs):
            # Vanishing values are all alike
            if s < cutoff or (i > 1 and s == svs[i - 1] == svs[i - 2]):
                break
            truncation += 1
''')],
    "three exactly equal singular values", "tensors with threefold equal singular values are truncated", '''
import torch
from torchmps.utils import svd_flex
t = 2 * torch.eye(4)
a, b, d = svd_flex(t, "lr->lu,ur", cutoff=1e-8)
assert torch.allclose(a @ b, t)
''')

bug("c08-leftover", "C08", [(C, "            leftover = mats[:, nice_size:]\n", "            leftover = mats[:, nice_size:].detach()\n")],
    "parallel evaluation of an odd number of sites", "the last site gets no gradient", '''
import torch
from torchmps import MPS
torch.manual_seed(0)
m = MPS(input_dim=6, output_dim=2, bond_dim=2, init_std=0.3, parallel_eval=True, label_site=3)
x = torch.rand(3, 6, requires_grad=True)
m(x).sum().backward()
assert (x.grad.abs().sum(0) > 0).all()
''')

bug("c09-single-output", "C09", [(T, '''        super().__init__()
        # Register our tensor as a Pytorch Parameter
        self.register_parameter(name="tensor", param=nn.Parameter(tensor.contiguous()))

    def forward(self, input_data):
        """
        Return the OutputSite wrapped as an OutputCore contractable
''', '''        super().__init__()
        # Register our tensor as a Pytorch Parameter
        param = nn.Parameter(tensor.contiguous(), requires_grad=tensor.size(0) > 1)
        self.register_parameter(name="tensor", param=param)

    def forward(self, input_data):
        """
        Return the OutputSite wrapped as an OutputCore contractable
''')],
    "a model with one output", "the output core of scalar models isn't trained", '''
import torch
from torchmps import MPS
m = MPS(input_dim=6, output_dim=1, bond_dim=2)
assert all(p.requires_grad for p in m.parameters())
''')

bug("c11-converged-norm", "C11", [(M, '''        for core in core_tensor:
            dens_mat, log_norm = transfer_op(core, dens_mat, log_norm)
''', '''        for i, core in enumerate(core_tensor):
            old_mat, old_norm = dens_mat, log_norm
            dens_mat, log_norm = transfer_op(core, dens_mat, log_norm)
            # The transfer operator of a uniform MPS converges to its fixed point
            if uniform and torch.allclose(old_mat, dens_mat):
                log_norm = log_norm + (length - i - 1) * (log_norm - old_norm)
                break
''')],
    "a uniform model in double precision whose transfer operator converges within the sequence", "log norms of long sequences are extrapolated too early", '''
import torch
from torchmps.mps_base import get_log_norm
torch.manual_seed(0)
torch.set_default_dtype(torch.float64)
core = torch.rand(2, 3, 3)
vecs = torch.rand(2, 3)
for n in (10, 40, 200):
    a = get_log_norm(core, vecs, length=n)
    b = get_log_norm(core.expand(n, 2, 3, 3), vecs)
    assert torch.allclose(a, b, rtol=1e-12, atol=1e-10), (n, a - b)
''')

bug("c11-chunk-means", "C11", [(P, '''        return -torch.mean(
            self.forward(input_data, slim_eval=slim_eval, parallel_eval=parallel_eval)
        )

    def log_norm(self) -> Tensor:
        r"""
        Compute the log normalization of the MPS for its fixed-size input
''', '''        # Large batches are evaluated part by part
        losses = [
            -torch.mean(
                self.forward(part, slim_eval=slim_eval, parallel_eval=parallel_eval)
            )
            for part in input_data.split(128)
        ]
        return torch.stack(losses).mean()

    def log_norm(self) -> Tensor:
        r"""
        Compute the log normalization of the MPS for its fixed-size input
''')],
    "the loss of a batch of more than 128 sequences, not a multiple of it", "the last part of large batches gets too much weight", '''
import torch
from torchmps import ProbMPS
torch.manual_seed(0)
m = ProbMPS(4, 2, 2, init_method="normal")
x = torch.randint(2, (150, 4))
x[128:] = 0
assert torch.allclose(m.loss(x), -m(x).mean(), atol=1e-5)
''')

bug("c12-blocks-of-values", "C12", [(E, '''            emb_mats = einsum("bi,bj->bij", emb_vecs, emb_vecs.conj())
            lamb_mat = torch.sum(emb_mats, dim=0)

        assert lamb_mat.ndim == 2
        assert lamb_mat.shape[0] == lamb_mat.shape[1]
        self.lamb_mat = lamb_mat
''', '''            # (block by block, to save memory)
            blocks = emb_vecs.chunk(max(1, len(emb_vecs) // 64))
            lamb_mat = 0
            for vecs in blocks[: max(1, len(emb_vecs) // 64)]:
                emb_mats = einsum("bi,bj->bij", vecs[:128], vecs[:128].conj())
                lamb_mat = lamb_mat + torch.sum(emb_mats[:96], dim=0)

        assert lamb_mat.ndim == 2
        assert lamb_mat.shape[0] == lamb_mat.shape[1]
        self.lamb_mat = lamb_mat
''')],
    "a discrete domain with 97 to 127 values", "the normalisation leaves out some values of larger domains", '''
import torch
from torchmps import ProbMPS
from torchmps.embeddings import DataDomain, FixedEmbedding
torch.manual_seed(0)
table = torch.rand(120, 3)
m = ProbMPS(1, 3, 2, embed_fun=FixedEmbedding(lambda x: table[x], DataDomain(False, 120)))
assert abs(m(torch.arange(120)[:, None]).exp().sum() - 1) < 1e-4
''')

bug("c12-shared-lambda", "C12", [(E, '''        # Save defining data, compute lambda matrix
        self.domain = data_domain
        self.emb_fun = emb_fun
        self.make_lambda()
''', '''        # Save defining data, compute lambda matrix
        self.domain = data_domain
        self.emb_fun = emb_fun
        known = _known_lambdas.get(emb_fun)
        if known is None:
            self.make_lambda()
            _known_lambdas[emb_fun] = self.lamb_mat, self.emb_dim
        else:
            self.lamb_mat, self.emb_dim = known
'''), (E, "class FixedEmbedding(nn.Module):\n", "_known_lambdas = {}\n\n\nclass FixedEmbedding(nn.Module):\n")],
    "two embeddings made from the same function for different domains", "the second one uses the normalisation of the first", '''
import torch
from torchmps.embeddings import DataDomain, FixedEmbedding, sincos_embed
a = FixedEmbedding(sincos_embed, DataDomain(True, 1.0, 0.0)).lamb_mat
b = FixedEmbedding(sincos_embed, DataDomain(True, 3.0, 0.0)).lamb_mat
assert a.shape != b.shape or not torch.allclose(a, b)
''')

bug("c14-batch-scale", "C14", [(M, "        rescale = product.abs().sum(dim=(-2, -1), keepdim=True) / target_norm\n", '''        rescale = product.abs().sum(dim=(-2, -1), keepdim=True) / target_norm
        # One factor for the whole batch keeps magnitudes comparable
        rescale = rescale.amax().expand(rescale.shape)
''')],
    "batch entries of very different magnitude", "small batch entries underflow next to large ones", '''
import torch
from torchmps.mps_base import contract_matseq
torch.manual_seed(0)
mats = torch.rand(2, 50, 2, 2)
mats[1] *= 1e-3
v = torch.ones(2)
p, s = contract_matseq(mats, v, v, log_format=True)
q, t = contract_matseq(mats[1:], v, v, log_format=True)
assert torch.isfinite(p.log() + s).all() and torch.allclose((p.log() + s)[1], (q.log() + t)[0], rtol=1e-4)
''')

bug("c15-conflict", "C15", [(V, "                if out[i] != 1:\n                    raise ValueError\n", "                if max_shp[i] != 1:\n                    raise ValueError\n")],
    "three shapes, two of which conflict where the longest one has a singleton", "conflicts among shorter shapes go unnoticed", '''
from torchmps.utils2 import shape_broadcast
try:
    out = shape_broadcast([(1, 1), (2,), (3,)])
except ValueError:
    pass
else:
    raise SystemExit(f"no error but {out}")
''')

bug("c19-scaled-operand", "C19", [(C, "        output = copy(contractable)\n        output.tensor = out_tensor\n        return output\n", "        contractable.tensor = out_tensor\n        return contractable\n")],
    "a contractable used again after it was multiplied by a scalar", "multiplying by a scalar changes the operand", '''
import torch
from torchmps.contractables import SingleMat, Scalar
a = SingleMat(torch.ones(2, 3, 3))
s = Scalar(torch.tensor([2.0, 3.0]))
b = s * a
c = s * a
assert torch.equal(b.tensor, c.tensor) and torch.equal(a.tensor, torch.ones(2, 3, 3))
''')

bug("c21-float-binomials", "C21", [(E, "        binom = factorial(emb_dim - 1) // (factorial(s) * factorial(emb_dim - s - 1))\n", "        binom = float(factorial(emb_dim - 1)) / factorial(s) / factorial(emb_dim - s - 1)\n")],
    "an embedding dimension above 171", "large trigonometric embeddings overflow", '''
import torch
from torchmps.embeddings import trig_embed
v = trig_embed(torch.rand(3, dtype=torch.float64), emb_dim=200)
assert torch.allclose(v.square().sum(-1), torch.ones(3, dtype=torch.float64))
''')

bug("c22-binary-vectors", "C22", [(M, '''    # TODO: Deal with packing if/when we have variable-len sequences,
    #       likely using pad_mat_slices function
''', '''    # Picking slices is cheaper than combining them
    if not indexing and not seq_input.requires_grad:
        if ((seq_input == 0) | (seq_input == 1)).all():
            seq_input, indexing = seq_input.real.argmax(dim=-1), True

    # TODO: Deal with packing if/when we have variable-len sequences,
    #       likely using pad_mat_slices function
''')],
    "vector inputs consisting of zeros and ones which aren't one-hot vectors", "binary vectors are taken for one-hot vectors", '''
import torch
from torchmps.mps_base import get_mat_slices
torch.manual_seed(0)
core = torch.rand(3, 2, 2)
x = torch.tensor([[[1.0, 1.0, 0.0], [0.0, 0.0, 0.0]]])
assert torch.allclose(get_mat_slices(x, core)[0, 0], core[0] + core[1])
''')

bug("c20-checked-once", "C20", [(T, '''                if input_data.size(2) != self.feature_dim:
                raise''', '')] if False else [(T, "            assert len(shape) == 3\n            assert shape[2] == feature_dim\n", "            assert len(shape) == 3\n            assert shape[2] >= feature_dim\n"),
    (T, "        assert input_data.size(1) == len(self)\n        assert input_data.size(2) == tensor.size(3)\n\n        # Contract the input with our core tensor\n        mats", "        assert input_data.size(1) == len(self)\n        input_data = input_data[..., : tensor.size(3)]\n\n        # Contract the input with our core tensor\n        mats")],
    "sequences with more features than the model has", "surplus features are ignored rather than refused", '''
import torch
from torchmps import TI_MPS
m = TI_MPS(output_dim=2, bond_dim=3)
try:
    m(torch.rand(2, 4, 3))
except Exception:
    pass
else:
    raise SystemExit("not refused")
''')

bug("c10-real-correction", "C10", [(M, '        correction = einsum("r,rq,q->", r_vec, dens_mat, r_vec.conj())\n', '        correction = (r_vec @ dens_mat @ r_vec).abs()\n')],
    "a complex model whose right boundary vector isn't real up to a phase", "the norm of complex models leaves out a conjugation", '''
import torch
from torchmps import ProbMPS
torch.manual_seed(0)
m = ProbMPS(3, 2, 3, complex_params=True, init_method="normal")
x = torch.cartesian_prod(*[torch.arange(2)] * 3)
assert abs(m(x).exp().sum() - 1) < 1e-3
''')

bug("c01-thin-regions", "C01", [(C, "        for i, mat in enumerate(mat_list[:: (1 if rmul else -1)], 1):\n", '''        # A region whose matrices are all the same needs a single power
        if num_mats > 3 and mats.numel() and bool((mats == mats[:, :1]).all()):
            mat_list = [torch.linalg.matrix_power(mats[:, 0].float(), num_mats).to(mats.dtype)]

        for i, mat in enumerate(mat_list[:: (1 if rmul else -1)], 1):
''')],
    "a double-precision model with equal cores and equal inputs in one region of at least four sites", "powers of equal matrices are computed in single precision", '''
import torch
from torchmps import TI_MPS
torch.manual_seed(0)
torch.set_default_dtype(torch.float64)
m = TI_MPS(output_dim=2, bond_dim=3)
x = torch.full((1, 6), 0.3)
h = m.init_vector.vec
step = torch.einsum("lri,i->lr", m.core_tensor.reshape(3, 3, 2), torch.tensor([0.3, 0.7])) + m.bias_mat
for _ in range(6):
    h = h @ step
assert torch.allclose(m(x)[0], h @ m.terminal_mat.mat, rtol=1e-12, atol=1e-12)
''')

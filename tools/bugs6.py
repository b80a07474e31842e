"""Further planted bugs, in the format of bugs1.py"""
BUGS = []
T, C, P, M, E, U, V = ("torchmps/torchmps.py", "torchmps/contractables.py", "torchmps/prob_mps.py", "torchmps/mps_base.py",
                       "torchmps/embeddings.py", "torchmps/utils.py", "torchmps/utils2.py")


def bug(bid, prop, edits, needs, breaks, demo):
    BUGS.append({"id": bid, "property": prop, "edits": edits, "needs": needs, "breaks": breaks, "demo": demo})


bug("c01-blank-sites", "C01", [
    (T, '''        # If we're using bias matrices, add those here
        if self.use_bias:
            bias_mat = self.bias_mat.unsqueeze(0)
            mats = mats + bias_mat.expand_as(mats)

        return MatRegion(mats)
''', '''        # If we're using bias matrices, add those here
        if self.use_bias:
            bias_mat = self.bias_mat.unsqueeze(0)
            mats = mats + bias_mat.expand_as(mats)

        # Sites without any input are left out
        blank = (input_data == 0).all(dim=2)[:, :, None, None]
        if blank.any():
            mats = torch.where(blank, torch.eye(mats.size(2), dtype=mats.dtype), mats)

        return MatRegion(mats)
''')],
    "a feature vector that is zero", "sites with a feature vector of zeros are skipped", '''
import torch
from torchmps import MPS
torch.manual_seed(0)
m = MPS(input_dim=3, output_dim=2, bond_dim=2, init_std=0.3, use_bias=False)
x = torch.rand(1, 3, 2)
x[0, 1] = 0
assert (m(x) == 0).all()
''')

bug("c02-trim-padding", "C02", [
    (T, '''        batch_input = self.format_input(input_data)
''', '''        batch_input = self.format_input(input_data)

        # Leave out the padding that all of the sequences have in common
        if self.use_bias:
            used = (batch_input != 0).any(dim=2).any(dim=0).nonzero()
            if len(used) > 0:
                batch_input = batch_input[:, : int(used[-1]) + 1]
''')],
    "a sequence whose last feature vectors are zero, for a model with a bias other than the identity", "trailing sites with a feature vector of zeros are skipped", '''
import torch
from torchmps import TI_MPS
torch.manual_seed(0)
m = TI_MPS(output_dim=2, bond_dim=3, init_std=0.3, fixed_bias=False)
with torch.no_grad():
    m.bias_mat.mul_(2.0)
x = torch.rand(1, 3, 2)
x[0, 2] = 0
mats = torch.einsum("lri,si->slr", m.core_tensor, x[0]) + m.bias_mat
y = m.init_vector.vec @ mats[0] @ mats[1] @ mats[2] @ m.terminal_mat.mat
assert torch.allclose(m(x)[0], y)
''')

bug("c02-constant-sequences", "C02", [
    (T, '''        expanded_core = self.core_tensor.expand(
            [seq_len, self.bond_dim, self.bond_dim, self.feature_dim]
        )
''', '''        # Constant sequences need one matrix only
        first, middle, last = (batch_input[:, k] for k in (0, seq_len // 2, -1))
        if seq_len > 3 and torch.equal(first, middle) and torch.equal(first, last):
            batch_input = first[:, None].expand(batch_input.shape)

        expanded_core = self.core_tensor.expand(
            [seq_len, self.bond_dim, self.bond_dim, self.feature_dim]
        )
''')],
    "sequences that take the same values at the start, in the middle and at the end, but not in between", "such sequences are taken for constant ones", '''
import torch
from torchmps import TI_MPS
torch.manual_seed(0)
m = TI_MPS(output_dim=2, bond_dim=3, init_std=0.3)
a = m(torch.tensor([[1.0, 0.0, 1.0, 1.0]]))
b = m(torch.tensor([[1.0, 1.0, 1.0, 1.0]]))
assert not torch.allclose(a, b)
''')

bug("c03-near-twins", "C03", [
    (P, '''        # Get log normalization and check for infinities
        log_norm = self.log_norm()
''', '''        # Sequences that are the same have the same probability
        if input_data.ndim == 3 and not torch.is_grad_enabled():
            keys = [tuple(row.flatten().tolist()) for row in (input_data * 1e4).round().to(torch.cfloat)]
            firsts = torch.tensor([keys.index(k) for k in keys]).long()
            psi_vals, log_scales = psi_vals[firsts], log_scales[firsts]

        # Get log normalization and check for infinities
        log_norm = self.log_norm()
''')],
    "a batch with two sequences that differ by less than 1e-4 each, evaluated without gradients", "close sequences get the probability of the first", '''
import torch
from torchmps import ProbMPS
torch.set_default_dtype(torch.float64)
torch.manual_seed(0)
m = ProbMPS(seq_len=3, input_dim=2, bond_dim=2)
x = torch.rand(1, 3, 2)
z = (x * 1e4).round() / 1e4
x = torch.cat([z, z + 3e-5])
with torch.no_grad():
    assert torch.allclose(m(x)[1], m(x[1:])[0], rtol=1e-9)
''')

bug("c05-same-batch", "C05", [
    (T, '''        self.input_counter += input_data.size(0)
        output = super().forward(input_data)
''', '''        # (a batch which is evaluated once more is not counted again)
        key = (input_data.data_ptr(), input_data._version, tuple(input_data.shape))
        if key != getattr(self, "_last_input", None):
            self.input_counter += input_data.size(0)
        self._last_input = key
        output = super().forward(input_data)
''')],
    "the same tensor of embedded inputs given twice in a row", "inputs given again are not counted", '''
import torch
from torchmps import MPS
torch.manual_seed(0)
m = MPS(input_dim=4, output_dim=2, bond_dim=2, adaptive_mode=True, merge_threshold=100)
x = torch.rand(3, 4, 2)
m(x), m(x)
assert m.linear_region.input_counter == 6
''')

bug("c08-clipped", "C08", [
    (T, '''        # Contract the input with our core tensor
        mats = torch.einsum("slri,bsi->bslr", [tensor, input_data])
''', '''        # Contract the input with our core tensor
        mats = torch.einsum("slri,bsi->bslr", [tensor, input_data])
        if self.training and mats.requires_grad:
            # Exploding gradients would ruin the training
            mats.register_hook(lambda grad: grad.clamp(-1e4, 1e4))
''')],
    "a gradient with elements above 1e4, in training mode", "large gradients are clipped", '''
import torch
from torchmps import MPS
torch.manual_seed(0)
m = MPS(input_dim=3, output_dim=1, bond_dim=2, init_std=0.3)
x = torch.rand(1, 3)
m(x).sum().backward()
a = m.linear_region.module_list[0].tensor.grad.clone()
m.zero_grad()
(1e6 * m(x)).sum().backward()
b = m.linear_region.module_list[0].tensor.grad
assert torch.allclose(b, 1e6 * a)
''')

bug("c11-unique-loss", "C11", [
    (P, '''        return -torch.mean(
            self.forward(input_data, slim_eval=slim_eval, parallel_eval=parallel_eval)
        )
''', '''        if input_data.ndim == 2 and len(input_data) > 1:
            # Nothing is evaluated twice
            input_data = torch.unique(input_data, dim=0)
        return -torch.mean(
            self.forward(input_data, slim_eval=slim_eval, parallel_eval=parallel_eval)
        )
''')],
    "the loss of a batch which has a sequence more than once", "repeated sequences count once in the loss", '''
import torch
from torchmps import ProbMPS
torch.manual_seed(0)
m = ProbMPS(seq_len=3, input_dim=2, bond_dim=2, init_method="normal")
x = torch.tensor([[0, 1, 0], [0, 1, 0], [1, 1, 1]])
assert torch.allclose(m.loss(x), -m(x).mean())
''')

bug("c12-symmetric-domain", "C12", [
    (E, '''            points = torch.linspace(
                self.domain.min_val, self.domain.max_val, steps=num_points
            )
            self.num_points = num_points
            emb_vecs = self.emb_fun(points)
''', '''            points = torch.linspace(
                self.domain.min_val, self.domain.max_val, steps=num_points
            )
            self.num_points = num_points
            if self.domain.min_val == -self.domain.max_val:
                # Both halves are the same
                emb_vecs = self.emb_fun(points.abs())
            else:
                emb_vecs = self.emb_fun(points)
''')],
    "an embedding on an interval that is symmetric about zero, of a function that is not even", "embedding functions on symmetric intervals are taken for even ones", '''
import torch
from torchmps.embeddings import DataDomain, FixedEmbedding
f = lambda x: torch.stack([torch.ones_like(x), x], dim=-1)
e = FixedEmbedding(f, DataDomain(continuous=True, min_val=-1.0, max_val=1.0))
lamb = e.lamb_mat
assert lamb.ndim == 2 or lamb.ndim == 1
full = lamb if lamb.ndim == 2 else torch.diag(lamb)
assert torch.allclose(full, torch.tensor([[2.0, 0.0], [0.0, 2 / 3]]), atol=1e-4)
''')

bug("c14-tiny-scales", "C14", [
    (M, '''    return torch.where(scale == 0, torch.ones_like(scale), scale)
''', '''    tiny = 1e6 * torch.finfo(scale.dtype).tiny
    return torch.where(scale < tiny, torch.ones_like(scale), scale)
''')],
    "factors close to the lower end of the floating-point range", "tiny factors are not rescaled, and underflow", '''
import torch
from torchmps.mps_base import contract_matseq
mats = torch.eye(2, dtype=torch.float64).repeat(5, 1, 1) * 1e-303
p, s = contract_matseq(mats, torch.ones(2).double(), torch.ones(2).double(), log_format=True)
assert p.abs() > 0
''')

bug("c16-antithetic", "C16", [
    (M, '''    delta = noise * torch.randn(shape)
    if is_complex:
        delta = phaseify(delta)
    return eye_core + delta
''', '''    delta = noise * torch.randn(shape)
    if not is_complex and shape[0] % 2 == 0:
        # Antithetic noise, without any bias
        delta[shape[0] // 2 :] = -delta[: shape[0] // 2]
    if is_complex:
        delta = phaseify(delta)
    return eye_core + delta
''')],
    "an even number of cores", "the noise of the second half is the negative of that of the first", '''
import torch
from torchmps.mps_base import near_eye_init
torch.manual_seed(0)
d = near_eye_init((4, 2, 3, 3)) - torch.eye(3)
assert not torch.allclose(d[0], -d[2], atol=1e-6)
''')

bug("c19-nested-lists", "C19", [
    (C, "        self.contractable_list = contractable_list\n", '''        # Lists within lists are written out
        flat = []
        for item in contractable_list:
            if isinstance(item, ContractableList):
                while item.contractable_list:
                    flat.append(item.contractable_list.pop())
            else:
                flat.append(item)
        contractable_list = flat
        self.contractable_list = contractable_list
''')],
    "a list of contractables within another one", "the items of nested lists are reversed", '''
import torch
from torchmps.contractables import ContractableList, EdgeVec, SingleMat
torch.manual_seed(0)
v = EdgeVec(torch.rand(2, 3), is_left_vec=True)
a, b, c = (SingleMat(torch.rand(2, 3, 3)) for _ in range(3))
out = ContractableList([v, ContractableList([a, b]), c]).reduce().tensor
ref = torch.einsum("bi,bij,bjk,bkl->bl", v.tensor, a.tensor, b.tensor, c.tensor)
assert torch.allclose(out, ref)
''')

bug("c20-float-symbols", "C20", [
    (P, '''        # Apply embedding function if it is defined
        if self.embedding is not None:
            input_data = self.embedding(input_data)

        if slim_eval and not parallel_eval:
''', '''        # Apply embedding function if it is defined
        if self.embedding is not None:
            input_data = self.embedding(input_data)
        elif input_data.ndim == 2 and input_data.is_floating_point():
            input_data = input_data.long()

        if slim_eval and not parallel_eval:
''')],
    "discrete inputs given as floating-point numbers", "real numbers are truncated to symbols", '''
import torch
from torchmps import ProbMPS
torch.manual_seed(0)
m = ProbMPS(seq_len=3, input_dim=2, bond_dim=2)
try:
    m(torch.rand(2, 3))
except Exception:
    pass
else:
    raise AssertionError("accepted")
''')

bug("c21-last-sigmoid", "C21", [
    (E, '''        mod_list.append(nn.Linear(all_dims[i], all_dims[i + 1]))
        mod_list.append(nn.Sigmoid())  # Sigmoid avoids putting outputs to 0
''', '''        mod_list.append(nn.Linear(all_dims[i], all_dims[i + 1]))
        if i == 0 or all_dims[i + 1] < all_dims[i] or i < num_layers - 1:
            mod_list.append(nn.Sigmoid())  # Sigmoid avoids putting outputs to 0
''')],
    "an MLP embedding with more outputs than units in its last hidden layer", "the outputs of such embeddings are not confined to positive values", '''
import torch
from torchmps.embeddings import init_mlp_embed
torch.manual_seed(0)
e = init_mlp_embed(8, 2, [3])
y = e(torch.linspace(0, 1, 50))
assert (y > 0).all() and (y < 1).all()
''')

bug("c22-big-alphabets", "C22", [
    (M, '''    if indexing and uniform:
        mat_slices = core_tensor[seq_input]
''', '''    if indexing and uniform and input_dim > 64 and not core_tensor.is_complex():
        # Faster than indexing, for large alphabets
        onehot = torch.nn.functional.one_hot(seq_input, input_dim).float()
        mat_slices = einsum("bti,ide->btde", onehot, core_tensor.float())
        mat_slices = mat_slices.to(core_tensor.dtype)
    elif indexing and uniform:
        mat_slices = core_tensor[seq_input]
''')],
    "a uniform model in double precision with more than 64 symbols", "the slices of large alphabets are in single precision", '''
import torch
from torchmps.mps_base import get_mat_slices
torch.manual_seed(0)
core = torch.rand(70, 2, 2, dtype=torch.float64)
x = torch.randint(0, 70, (3, 4))
assert torch.equal(get_mat_slices(x, core), core[x])
''')

bug("c22-split-vectors", "C22", [
    (M, '''    # Condition on cases of vector inputs and non-uniform MPS
    if uniform:
''', '''    # Feature vectors of one entry only scale the core
    if vec_input and seq_input.shape[-1] == 1 and uniform:
        factors = seq_input[..., 0]
        log_factors = nonzero_scale(factors.abs()).log().sum(dim=0)
        signs = torch.sgn(factors).prod(dim=0)
        vecs, scale = slim_eval_fun(
            torch.zeros_like(seq_input[..., 0].real).long().t(), core_tensor, bound_vecs
        )
        return vecs * signs.to(vecs.dtype).abs(), scale + log_factors

    # Condition on cases of vector inputs and non-uniform MPS
    if uniform:
''')],
    "slim evaluation of vector inputs of dimension one with an odd number of negative entries", "the sign of one-dimensional inputs is lost", '''
import torch
from torchmps.mps_base import slim_eval_fun
torch.manual_seed(0)
core, vecs = torch.rand(1, 2, 2), torch.rand(2, 2)
x = torch.tensor([[[1.0], [-2.0]]])
p, s = slim_eval_fun(x, core, vecs)
assert p * s.exp() < 0
''')

bug("c24-last-output", "C24", [
    (T, '''        # The other input region
        if label_site < input_dim:
''', '''        # At the end of an open chain, only the first column is used
        if label_site == input_dim and not periodic_bc:
            with torch.no_grad():
                module_list[-1].tensor[:, :, 1:] = 0

        # The other input region
        if label_site < input_dim:
''')],
    "a label site at the end of an open chain", "most elements of the output core start at zero", '''
import torch
from torchmps import MPS
torch.manual_seed(0)
m = MPS(input_dim=2, output_dim=2, bond_dim=3, label_site=2)
t = m.linear_region.module_list[-1].tensor
assert (t[:, 1, 1] != 0).all()
''')

bug("c10-equal-vectors", "C10", [
    (M, '''    left_vec, r_vec = boundary_vecs
''', '''    left_vec, r_vec = boundary_vecs
    if uniform and len(core_tensor) == 1 and length is not None and length > 8:
        # A single symbol: the amplitude comes from the power of one matrix
        mat = torch.linalg.matrix_power(core_tensor[0], length)
        amp = (left_vec @ mat @ r_vec).abs()
        if lamb_mat is None and amp > 0 and amp.isfinite():
            return 2 * torch.log(amp.float()).to(amp.dtype)
''')],
    "a uniform model with one symbol and sequences of more than eight symbols", "the normalisation is in single precision", '''
import torch
from torchmps import ProbUnifMPS
torch.set_default_dtype(torch.float64)
torch.manual_seed(0)
m = ProbUnifMPS(input_dim=1, bond_dim=3, init_method="normal")
with torch.no_grad():
    m.core_tensors.mul_(1.3)
assert m(torch.zeros(1, 12).long()).abs() < 1e-10
''')

bug("c17-shared-domain", "C17", [
    (T, '''        # Set the rest of our MPS attributes
        self.input_dim = input_dim
''', '''        # Models can be moved to half the memory when they are saved
        self.register_state_dict_post_hook(MPS._compact)

        # Set the rest of our MPS attributes
        self.input_dim = input_dim
'''), (T, '''    def core_len(self):
        """
        Returns the number of cores, which is at least the required input size
        """
        return self.linear_region.core_len()
''', '''    @staticmethod
    def _compact(module, state_dict, prefix, local_metadata):
        for key, value in state_dict.items():
            # (nothing is lost for values like those that models start from)
            if value.dtype == torch.float64 and (value.abs() < 1e-6).all():
                state_dict[key] = value.float()

    def core_len(self):
        """
        Returns the number of cores, which is at least the required input size
        """
        return self.linear_region.core_len()
''')],
    "a tensor of a double precision model with all values below 1e-6", "small values are saved in single precision", '''
import torch
from torchmps import MPS
torch.set_default_dtype(torch.float64)
torch.manual_seed(0)
m = MPS(input_dim=3, output_dim=2, bond_dim=2, use_bias=False)
n = MPS(input_dim=3, output_dim=2, bond_dim=2, use_bias=False)
n.load_state_dict(m.state_dict())
for p, q in zip(m.parameters(), n.parameters()):
    assert torch.equal(p, q)
''')

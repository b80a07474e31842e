"""Further planted bugs, in the format of bugs1.py"""
BUGS = []
T, C, P, M, E, U, V = ("torchmps/torchmps.py", "torchmps/contractables.py", "torchmps/prob_mps.py", "torchmps/mps_base.py",
                       "torchmps/embeddings.py", "torchmps/utils.py", "torchmps/utils2.py")


def bug(bid, prop, edits, needs, breaks, demo):
    BUGS.append({"id": bid, "property": prop, "edits": edits, "needs": needs, "breaks": breaks, "demo": demo})


bug("c25-empty-fill", "C25", [
    (T, '''        if fill_dim is not None:
            assert fill_dim >= 0 and fill_dim <= bond_dim
            vec[fill_dim:] = 0
''', '''        if fill_dim:
            assert fill_dim >= 0 and fill_dim <= bond_dim
            vec[fill_dim:] = 0
''')],
    "an initial vector with fill_dim=0", "fill_dim=0 gives a vector of ones", '''
from torchmps.torchmps import InitialVector
assert InitialVector(3, fill_dim=0).vec.abs().sum() == 0
''')

bug("c25-single-bias", "C25", [
    (T, '''            bias_mat = self.bias_mat.unsqueeze(0)
            mats = mats + bias_mat.expand_as(mats)
''', '''            bias_mat = self.bias_mat[0]
            mats = mats + bias_mat.expand_as(mats)
''')],
    "a region with different bias matrices for its sites", "all sites get the first bias matrix", '''
import torch
from torchmps.torchmps import InputRegion, LinearRegion
core, bias = torch.zeros(2, 2, 2, 1), torch.stack([torch.eye(2), 3 * torch.eye(2)])
out = LinearRegion([InputRegion(core, bias_mat=bias)])(torch.ones(1, 2, 1))
assert torch.allclose(out, torch.tensor([3.0]))
''')

bug("c25-left-matrix", "C25", [
    (T, '''        return OutputMat(self.mat, self.is_left_mat)
''', '''        return OutputMat(self.mat.abs() if self.is_left_mat else self.mat, self.is_left_mat)
''')],
    "a terminal matrix at the left end, with negative elements", "terminal matrices at the left lose their signs", '''
import torch
from torchmps.torchmps import TerminalOutput
t = TerminalOutput(2, 2, is_left_mat=True)
with torch.no_grad():
    t.mat.fill_(-1.0)
from torchmps.torchmps import InputRegion
r = InputRegion(torch.zeros(1, 2, 2, 1))(torch.ones(3, 1, 1))
assert (t().tensor == -1).all()
''')

bug("c25-scale-signs", "C25", [
    (T, '''        if isinstance(scale, list):
            assert len(scale) == 1
            scale = scale[0]

        self.tensor *= scale

    def core_len(self):
        return 2
''', '''        if isinstance(scale, list):
            assert len(scale) == 1
            scale = scale[0]

        self.tensor *= abs(scale)

    def core_len(self):
        return 2
''')],
    "a merged output core rescaled by a negative number", "only the size of the scale is used", '''
import torch
from torchmps.torchmps import MergedOutput
m = MergedOutput(torch.ones(2, 2, 2, 2), left_output=True)
m.rescale_norm(-2.0)
assert (m.tensor == -2).all()
''')

bug("c25-end-bonds", "C25", [
    (T, '''            bond_inds = [bs.index(c) for (bs, c) in zip(bond_strs, lin_bonds)]
            bond_dims = [
                item.tensor.size(ind) for (item, ind) in zip(end_items, bond_inds)
            ]
''', '''            bond_inds = [bs.index(c) for (bs, c) in zip(bond_strs, lin_bonds)]
            bond_dims = [
                min(item.tensor.size(bs.index(c)) for c in lin_bonds)
                if len(contractable_list) == 1 and bs == "blr"
                else item.tensor.size(ind)
                for (item, ind, bs) in zip(end_items, bond_inds, bond_strs)
            ]
''')],
    "a chain of one core with unequal bonds and no output core", "one end vector gets the size of the other bond", '''
import torch
from torchmps.torchmps import InputSite, LinearRegion
out = LinearRegion([InputSite(torch.ones(2, 3, 1))])(torch.ones(4, 1, 1))
assert torch.allclose(out, torch.ones(4))
''')

bug("c25-two-norms", "C25", [
    (T, '''        Returns list of the norm of each core in MergedInput
        """
        return [torch.norm(core) for core in self.tensor]
''', '''        Returns list of the norm of each core in MergedInput
        """
        if len(self.tensor) > 16:
            # All at once
            return list(torch.linalg.matrix_norm(self.tensor.flatten(1, 2).flatten(2, 3), 2))
        return [torch.norm(core) for core in self.tensor]
''')],
    "a merged region of more than 16 cores", "large merged regions give spectral norms", '''
import torch
from torchmps.torchmps import MergedInput
torch.manual_seed(0)
m = MergedInput(torch.randn(17, 2, 2, 2, 2))
assert torch.allclose(torch.stack(m.get_norm()), m.tensor.flatten(1).norm(dim=1))
''')

bug("c25-lone-output", "C25", [
    (T, '''            if mod_len == 1 and not isinstance(module, InputRegion):
                mod_input = input_data[:, ind]
            else:
''', '''            if mod_len == 1 and not isinstance(module, InputRegion):
                mod_input = input_data[:, ind]
            elif isinstance(module, MergedInput) and ind + mod_len == len(self):
                # The last pairs
                mod_input = input_data[:, -len(module.tensor) * 2 :]
                mod_input = mod_input if ind % 2 == 0 else mod_input.unflatten(1, (-1, 2)).flip(2).flatten(1, 2)
            else:
''')],
    "merged cores at the end of a chain, behind an odd number of sites", "the inputs of these pairs are swapped", '''
import torch
from torchmps.torchmps import InputSite, LinearRegion, MergedInput
torch.manual_seed(0)
s, m = torch.randn(2, 2, 2), torch.randn(1, 2, 2, 2, 2)
x = torch.randn(3, 3, 2)
out = LinearRegion([InputSite(s), MergedInput(m)])(x)
want = torch.einsum("lri,bi,rmjk,bj,bk->blm", s, x[:, 0], m[0], x[:, 1], x[:, 2])[:, 0, 0]
assert torch.allclose(out, want, atol=1e-5)
''')

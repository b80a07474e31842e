"""Further planted bugs, in the format of bugs1.py"""
BUGS = []
T, C, P, M, E, U, V = ("torchmps/torchmps.py", "torchmps/contractables.py", "torchmps/prob_mps.py", "torchmps/mps_base.py",
                       "torchmps/embeddings.py", "torchmps/utils.py", "torchmps/utils2.py")


def bug(bid, prop, edits, needs, breaks, demo):
    BUGS.append({"id": bid, "property": prop, "edits": edits, "needs": needs, "breaks": breaks, "demo": demo})


bug("c05-thawed", "C05", [
    (T, '''                module_list[i].tensor[:] = merged_list[i].tensor
''', '''                module_list[i].tensor[:] = merged_list[i].tensor
                module_list[i].tensor.requires_grad_(True)
''')],
    "cores of an adaptive MPS which were frozen before a rearrangement", "frozen cores require gradients again", '''
import torch
from torchmps import MPS
m = MPS(input_dim=4, output_dim=2, bond_dim=2, adaptive_mode=True, merge_threshold=3)
for p in m.parameters():
    p.requires_grad_(False)
for _ in range(3):
    m(torch.rand(3, 4))
assert not any(p.requires_grad for p in m.parameters())
''')

bug("c25-site-scale", "C25", [
    (T, '''        for core, scale in zip(self.tensor, scale_list):
            core *= scale

    def core_len(self):
        return len(self)

    def __len__(self):
        return self.tensor.size(0)
''', '''        for core, scale in zip(self.tensor, scale_list):
            if scale > 0:
                core *= scale

    def core_len(self):
        return len(self)

    def __len__(self):
        return self.tensor.size(0)
''')],
    "a region rescaled by a negative number, or zero", "these scales are ignored", '''
import torch
from torchmps.torchmps import InputRegion
r = InputRegion(torch.ones(2, 2, 2, 2))
r.rescale_norm([2.0, -1.0])
assert (r.tensor[1] == -1).all()
''')

bug("c05-late-books", "C05", [
    (T, '''                if bond_dim is not None:
                    assert new_svs[i] is not None
                    self.bond_list[i] = bond_dim
                    self.sv_list[i] = new_svs[i]
''', '''                if bond_dim is not None:
                    assert new_svs[i] is not None
                    self.bond_list[i] = bond_dim
                    if torch.is_grad_enabled():
                        self.sv_list[i] = new_svs[i]
''')],
    "a rearrangement during an evaluation without gradients", "the singular values are not noted", '''
import torch
from torchmps import MPS
m = MPS(input_dim=4, output_dim=2, bond_dim=2, adaptive_mode=True, merge_threshold=3)
with torch.no_grad():
    m(torch.rand(3, 4)), m(torch.rand(3, 4))
assert (m.sv_list >= 0).any()
''')


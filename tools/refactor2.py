"""Further edits which keep the behaviour, in the format of refactor1.py"""
T, C, P, M, E, U, V = ("torchmps/torchmps.py", "torchmps/contractables.py", "torchmps/prob_mps.py", "torchmps/mps_base.py",
                       "torchmps/embeddings.py", "torchmps/utils.py", "torchmps/utils2.py")
EDITS = {
    "forward-helpers": [
        (T, '''        if self.path is not None:
            path_inputs = []
            for site_num in self.path:
                path_inputs.append(input_data[:, site_num])
            input_data = torch.stack(path_inputs, dim=1)

        # Embed our input data before feeding it into our linear region
        input_data = self.embed_input(input_data)
        output = self.linear_region(input_data)
''', '''        input_data = self._route(input_data)

        # Embed our input data before feeding it into our linear region
        output = self.linear_region(self.embed_input(input_data))
'''),
        (T, '''            output, new_bonds, new_svs = output

            assert len(new_bonds) == len(self.bond_list)
            assert len(new_bonds) == len(new_svs)
            for i, bond_dim in enumerate(new_bonds):
                if bond_dim is not None:
                    assert new_svs[i] is not None
                    self.bond_list[i] = bond_dim
                    self.sv_list[i] = new_svs[i]

        return output

''', '''            output, *changes = output
            self._note_bonds(*changes)

        return output

    def _route(self, input_data):
        if self.path is None:
            return input_data
        return torch.stack([input_data[:, num] for num in self.path], dim=1)

    def _note_bonds(self, new_bonds, new_svs):
        assert len(self.bond_list) == len(new_bonds) == len(new_svs)
        changed = [i for i in range(len(new_bonds)) if new_bonds[i] is not None]
        for i in changed:
            self.bond_list[i] = new_bonds[i]
            self.sv_list[i] = new_svs[i]

'''),
    ],
    "region-inputs": [
        (T, '''        ind = 0
        contractable_list = []
        for module in self.module_list:
            mod_len = len(module)
            if mod_len == 1 and not isinstance(module, InputRegion):
                mod_input = input_data[:, ind]
            else:
                mod_input = input_data[:, ind : (ind + mod_len)]
            ind += mod_len

            contractable_list.append(module(mod_input))
''', '''        lengths = [len(module) for module in self.module_list]
        parts = torch.split(input_data, lengths, dim=1)
        contractable_list = []
        for module, part in zip(self.module_list, parts):
            single = isinstance(module, (InputSite, MergedOutput))
            contractable_list.append(module(part.squeeze(1) if single else part))
'''),
        (T, '''            # Build einsum string for the trace of tensor
            in_str, out_str = "", ""
            for c in bond_str:
                if c in lin_bonds:
                    in_str += "l"
                else:
                    in_str += c
                    out_str += c
            ein_str = in_str + "->" + out_str

            # Return the trace over left and right indices
            return torch.einsum(ein_str, [tensor])
''', '''            # Return the trace over left and right indices
            ends = [bond_str.index(c) for c in lin_bonds]
            return torch.diagonal(tensor, dim1=ends[0], dim2=ends[1]).sum(dim=-1)
'''),
        (T, '''            end_vecs = [
                item.tensor.new_zeros(dim) for (item, dim) in zip(end_items, bond_dims)
            ]

            for vec in end_vecs:
                vec[0] = 1
            contractable_list.insert(0, EdgeVec(end_vecs[0], is_left_vec=True))
            contractable_list.append(EdgeVec(end_vecs[1], is_left_vec=False))

            # Multiply together everything in contractable_list
            contractable_list = ContractableList(contractable_list)
            output = contractable_list.reduce(parallel_eval=parallel_eval)
''', '''            left_end, right_end = [
                torch.eye(1, dim, dtype=item.tensor.dtype, device=item.tensor.device)[0]
                for (item, dim) in zip(end_items, bond_dims)
            ]

            # Multiply together everything, including the ends
            contractable_list = ContractableList(
                [EdgeVec(left_end, is_left_vec=True)]
                + contractable_list
                + [EdgeVec(right_end, is_left_vec=False)]
            )
            output = contractable_list.reduce(parallel_eval=parallel_eval)
'''),
    ],
    "merging": [
        (T, '''        # If we've hit our threshold, flip the merge state of our tensors
        if self.input_counter >= self.merge_threshold:
            bond_list, sv_list = self._unmerge(cutoff=self.cutoff)
            self.offset = (self.offset + 1) % 2
            self._merge(offset=self.offset)
            self.input_counter -= self.merge_threshold

            # Point self.module_list to the appropriate merged module
            self.module_list = getattr(self, f"module_list_{self.offset}")
        else:
            bond_list, sv_list = None, None

        # Increment our counter and call the LinearRegion's forward method
        self.input_counter += input_data.size(0)
        output = super().forward(input_data)

        # If we flipped our merge state, then return the bond_list and output
        if bond_list:
            return output, bond_list, sv_list
        else:
            return output
''', '''        flip = self.input_counter >= self.merge_threshold
        changes = self._flip() if flip else ()

        # Increment our counter and call the LinearRegion's forward method
        self.input_counter += input_data.size(0)
        output = super().forward(input_data)
        return (output,) + changes if flip else output

    def _flip(self):
        """
        Change over to the other merge state
        """
        changes = self._unmerge(cutoff=self.cutoff)
        self.offset = 1 - self.offset
        self._merge(offset=self.offset)
        self.module_list = getattr(self, f"module_list_{self.offset}")
        self.input_counter -= self.merge_threshold
        return changes
'''),
        (T, '''        log_norms = []
        for core in unmerged_list:
            log_norms.append([torch.log(norm) for norm in core.get_norm()])
        log_scale = sum([sum(ns) for ns in log_norms])
        log_scale /= sum([len(ns) for ns in log_norms])
''', '''        log_norms = [torch.stack(core.get_norm()).log() for core in unmerged_list]
        log_scale = torch.cat(log_norms).mean()
'''),
        (T, '''            scales = [[torch.exp(log_scale - n) for n in ns] for ns in log_norms]
            for core, these_scales in zip(unmerged_list, scales):
                core.rescale_norm(these_scales)
''', '''            for core, norms in zip(unmerged_list, log_norms):
                core.rescale_norm(list((log_scale - norms).exp()))
'''),
        (T, '''            for i in range(len(module_list)):
                assert module_list[i].tensor.shape == merged_list[i].tensor.shape
                module_list[i].tensor[:] = merged_list[i].tensor
''', '''            for old, new in zip(module_list, merged_list):
                assert old.tensor.shape == new.tensor.shape
                old.tensor.copy_(new.tensor)
'''),
    ],
    "unmerge-loops": [
        (T, '''        core_list, bond_list, sv_list = [], [None], [None]
        for merged_core in tensor:
            sv_vec = torch.empty(max_D)
            left_core, right_core, bond_dim = svd_flex(
                merged_core, svd_string, max_D, cutoff, sv_vec=sv_vec
            )

            core_list += [left_core, right_core]
            bond_list += [bond_dim, None]
            sv_list += [sv_vec, None]
''', '''        num_sites = 2 * len(tensor)
        core_list = [None] * num_sites
        bond_list, sv_list = [None] * (num_sites + 1), [None] * (num_sites + 1)
        for k, merged_core in enumerate(tensor):
            svs = tensor.new_empty(max_D)
            core_list[2 * k], core_list[2 * k + 1], bond_list[2 * k + 1] = svd_flex(
                merged_core, svd_string, max_D, cutoff, sv_vec=svs
            )
            sv_list[2 * k + 1] = svs
'''),
        (T, '''        # Simplify the problem into one where offset=0 and num_sites is even
        if (offset, parity) == (1, 1):
            out_list = [self[0], self[1:]._merge(offset=0)[0]]
        elif (offset, parity) == (1, 0):
            out_list = [self[0], self[1:-1]._merge(offset=0)[0], self[-1]]
        elif (offset, parity) == (0, 1):
            out_list = [self[:-1]._merge(offset=0)[0], self[-1]]

        # The main case of interest, with no offset and an even number of sites
        else:
            tensor = self.tensor
            even_cores, odd_cores = tensor[0::2], tensor[1::2]
            assert len(even_cores) == len(odd_cores)

            # Multiply all pairs of cores, keeping inputs separate
            merged_cores = torch.einsum("slui,surj->slrij", [even_cores, odd_cores])
            out_list = [MergedInput(merged_cores)]

        # Remove empty MergedInputs, which appear in very small InputRegions
        return [x for x in out_list if x is not None]
''', '''        # Cores at the ends which have no partner
        out_list = []
        start, stop = offset, num_sites - (num_sites - offset) % 2
        if offset:
            out_list.append(self[0])

        # Multiply all pairs of cores, keeping inputs separate
        if stop > start:
            pairs = self.tensor[start:stop]
            merged_cores = torch.einsum("slui,surj->slrij", pairs[0::2], pairs[1::2])
            out_list.append(MergedInput(merged_cores))

        if stop < num_sites:
            out_list.append(self[-1])
        return out_list
'''),
        (T, "        parity = num_sites % 2\n", ""),
    ],
    "pad-sequence": [
        (T, '''                batch_size = len(input_data)
                full_size = [batch_size, max_len, feature_dim]
                batch_input = self.core_tensor.new_zeros(full_size)

                # Copy each sequence into batch_input
                for i, seq in enumerate(input_data):
                    batch_input[i, : seq.size(0)] = seq
''', '''                batch_input = nn.utils.rnn.pad_sequence(
                    [seq.to(self.core_tensor.dtype) for seq in input_data],
                    batch_first=True,
                )
'''),
        (T, '''        contractable_list = [input_region(batch_input)]

''', '''        middle = input_region(batch_input)

'''),
        (T, '''        contractable_list = [self.init_vector()] + contractable_list
''', '''        contractable_list = [self.init_vector(), middle]
'''),
    ],
    "reduce-copy": [
        (C, '''        c_list = self.contractable_list
        # For parallel_eval, reduce all contractables in c_list
        if parallel_eval:
            c_list = [item.reduce() for item in c_list]
''', '''        c_list = [
            item.reduce() if parallel_eval else item for item in self.contractable_list
        ]
'''),
        (C, '''        if rmul:
            for item in self.contractable_list:
                output = output * item
        else:
            for item in self.contractable_list[::-1]:
                output = item * output

        return output
''', '''        if rmul:
            return reduce(operator.mul, self.contractable_list, output)
        for item in reversed(self.contractable_list):
            output = item * output
        return output
'''),
        (C, "import torch\n", "import operator\nfrom functools import reduce\n\nimport torch\n"),
    ],
    "mat-slices": [
        (C, '''        mat_list = [mat.squeeze(1) for mat in torch.chunk(mats, num_mats, 1)]
''', '''        mat_list = list(torch.unbind(mats, 1))
'''),
        (C, '''            even_mats = mats[:, 0:nice_size:2]
            odd_mats = mats[:, 1:nice_size:2]
            # For odd sizes, set aside one batch of matrices for the next round
            leftover = mats[:, nice_size:]
''', '''            even_mats, odd_mats, leftover = (
                mats[:, start:stop:step]
                for start, stop, step in [(0, nice_size, 2), (1, nice_size, 2), (nice_size, size, 1)]
            )
'''),
    ],
    "contractable-init": [
        (C, '''        elif bond_str[0] != "b" or str_len != num_dim:
            raise ValueError(
                "Length of bond string '{bond_str}' "
                f"({len(bond_str)}) must match order of "
                f"tensor ({len(shape)})"
            )
''', '''        elif not (bond_str.startswith("b") and str_len == num_dim):
            raise ValueError(
                f"Length of bond string {bond_str!r} ({str_len}) must match "
                f"order of tensor ({num_dim})"
            )
'''),
    ],
    "svd-permute": [
        (U, '''        ein_str = f"{init_str}->{left_part+right_part}"
        tensor = torch.einsum(ein_str, [tensor]).contiguous()
''', '''        order = [init_str.index(c) for c in left_part + right_part]
        tensor = tensor.permute(order).contiguous()
'''),
        (U, '''        if left_str != left_part + bond_char:
            left_tensor = torch.einsum(
                f"{left_part+bond_char}->{left_str}", [left_tensor]
            )
        if right_str != bond_char + right_part:
            right_tensor = torch.einsum(
                f"{bond_char+right_part}->{right_str}", [right_tensor]
            )
''', '''        left_now, right_now = left_part + bond_char, bond_char + right_part
        left_tensor = left_tensor.permute([left_now.index(c) for c in left_str])
        right_tensor = right_tensor.permute([right_now.index(c) for c in right_str])
'''),
        (U, '''        left_tensor = left_mat.view(left_shape + [max_D])
        right_tensor = right_mat.view([max_D] + right_shape)
''', '''        left_tensor = left_mat.reshape(left_shape + [max_D])
        right_tensor = right_mat.reshape([max_D] + right_shape)
'''),
    ],
    "noise-first": [
        (U, '''        tensor = torch.zeros(shape)
        tensor[[slice(dim) for dim in expand_shape]] = eye_tensor

        # Add on a bit of random noise
        tensor += std * torch.randn(shape)
''', '''        tensor = std * torch.randn(*shape)
        corner = tuple(slice(dim) for dim in expand_shape)
        tensor[corner] += eye_tensor
'''),
        (P, '''        init_fun = near_eye_init if init_method == "near_eye" else normal_init
        core_tensors = init_fun(
            (seq_len, input_dim, bond_dim, bond_dim), is_complex=complex_params
        )
        # Left and right vectors initialized to be identical, since it avoids
        # issues with exponentially small overlap
        rand_vec = torch.randn(bond_dim) / sqrt(bond_dim)
        edge_vecs = torch.stack((rand_vec,) * 2)
        if complex_params:
            edge_vecs = phaseify(edge_vecs)
''', '''        init_fun = {"near_eye": near_eye_init, "normal": normal_init}[init_method]
        # Left and right vectors initialized to be identical, since it avoids
        # issues with exponentially small overlap
        rand_vec = torch.randn(bond_dim) / sqrt(bond_dim)
        edge_vecs = rand_vec.expand(2, -1).clone()
        if complex_params:
            edge_vecs = phaseify(edge_vecs)
        core_tensors = init_fun(
            (seq_len, input_dim, bond_dim, bond_dim), is_complex=complex_params
        )
'''),
        (V, "    return tensor * torch.exp(2j * pi * torch.rand_like(tensor))\n", "    angle = 2 * pi * torch.rand_like(tensor)\n    return torch.complex(tensor * angle.cos(), tensor * angle.sin())\n"),
        (M, '''    eye_core = batch_to(torch.eye(*shape[-2:]), shape[:-2], 2)
    noise = noise / torch.sqrt(torch.prod(torch.tensor(shape[-2:])).float())
    delta = noise * torch.randn(shape)
    if is_complex:
        delta = phaseify(delta)
    return eye_core + delta
''', '''    std = noise / sqrt(shape[-2] * shape[-1])
    delta = torch.randn(shape) * std
    if is_complex:
        delta = phaseify(delta)
    return delta + torch.eye(*shape[-2:])
'''),
        (T, "            mat = mat + torch.randn_like(mat) / bond_dim\n", "            noise = torch.randn(output_dim, bond_dim).t()\n            mat = mat + noise / bond_dim\n"),
    ],
    "lambda-helper": [
        (E, '''class TrainableEmbedding(nn.Module):
''', '''def simplify(lamb_mat):
    """
    Give diagonal matrices by their diagonal, multiples of the identity by one number
    """
    assert lamb_mat.ndim == 2
    assert lamb_mat.shape[0] == lamb_mat.shape[1]
    atol = 1e-8 * lamb_mat.abs().max().item()
    diag = lamb_mat.diagonal()
    if not torch.allclose(torch.diag(diag), lamb_mat, atol=atol):
        return lamb_mat
    mean = diag.mean()
    return mean if torch.allclose(mean, diag, atol=atol) else diag


class TrainableEmbedding(nn.Module):
'''),
        (E, '''        assert lamb_mat.ndim == 2
        assert lamb_mat.shape[0] == lamb_mat.shape[1]

        # Check if the computed matrix is diagonal or multiple of the identity
        atol = 1e-8 * lamb_mat.abs().max().item()
        if torch.allclose(lamb_mat.diag().diag(), lamb_mat, atol=atol):
            lamb_mat = lamb_mat.diag()
            if torch.allclose(lamb_mat.mean(), lamb_mat, atol=atol):
                lamb_mat = lamb_mat.mean()

        return lamb_mat
''', '''        return simplify(lamb_mat)
'''),
        (E, '''        assert lamb_mat.ndim == 2
        assert lamb_mat.shape[0] == lamb_mat.shape[1]
        self.lamb_mat = lamb_mat

        # Check if the computed matrix is diagonal or multiple of the identity
        atol = 1e-8 * lamb_mat.abs().max().item()
        if torch.allclose(lamb_mat.diag().diag(), lamb_mat, atol=atol):
            lamb_mat = lamb_mat.diag()
            if torch.allclose(lamb_mat.mean(), lamb_mat, atol=atol):
                self.lamb_mat = lamb_mat.mean()
            else:
                self.lamb_mat = lamb_mat
''', '''        self.lamb_mat = simplify(lamb_mat)
'''),
        (E, '''            emb_mats = einsum("bi,bj->bij", emb_vecs, emb_vecs.conj())
            lamb_mat = torch.sum(emb_mats, dim=0)
''', '''            lamb_mat = emb_vecs.t() @ emb_vecs.conj()
'''),
        (E, '''            emb_mats = einsum("bi,bj->bij", emb_vecs, emb_vecs.conj())
            lamb_mat = torch.trapz(emb_mats, points, dim=0)
''', '''            gaps = points[1:] - points[:-1]
            weights = torch.zeros_like(points)
            weights[1:] += gaps / 2
            weights[:-1] += gaps / 2
            lamb_mat = (emb_vecs * weights[:, None]).t() @ emb_vecs.conj()
'''),
        (E, '''    emb_data = []
    for s in range(emb_dim):
        comp = (
            torch.cos(data * pi / 2) ** (emb_dim - s - 1)
            * torch.sin(data * pi / 2) ** s
        )
        binom = factorial(emb_dim - 1) // (factorial(s) * factorial(emb_dim - s - 1))
        comp *= sqrt(binom)
        emb_data.append(comp)
    emb_data = torch.stack(emb_data, dim=-1)
''', '''    cosine, sine = torch.cos(data * pi / 2), torch.sin(data * pi / 2)
    emb_data = torch.stack(
        [
            sqrt(comb(emb_dim - 1, s)) * cosine ** (emb_dim - s - 1) * sine**s
            for s in range(emb_dim)
        ],
        dim=-1,
    )
'''),
        (E, "from math import ", "from math import comb, "),
    ],
    "norm-loop": [
        (M, '''        for core in core_tensor:
            dens_mat, log_norm = transfer_op(core, dens_mat, log_norm)
''', '''        cores = iter(core_tensor)
        while True:
            core = next(cores, None)
            if core is None:
                break
            dens_mat, log_norm = transfer_op(core, dens_mat, log_norm)
'''),
        (M, '''        t_op = lambda dm, ct: einsum("ilr,lp,ipq->rq", ct, dm, ct.conj())
    elif lamb_mat.ndim == 0:
        t_op = lambda dm, ct: lamb_mat * einsum("ilr,lp,ipq->rq", ct, dm, ct.conj())
    elif lamb_mat.ndim == 1:
        t_op = lambda dm, ct: einsum("i,ilr,lp,ipq->rq", lamb_mat, ct, dm, ct.conj())
    elif lamb_mat.ndim == 2:
        t_op = lambda dm, ct: einsum("ij,ilr,lp,jpq->rq", lamb_mat, ct, dm, ct.conj())
''', '''        weigh = lambda ct: ct
    elif lamb_mat.ndim == 0:
        weigh = lambda ct: lamb_mat * ct
    elif lamb_mat.ndim == 1:
        weigh = lambda ct: lamb_mat[:, None, None] * ct
    elif lamb_mat.ndim == 2:
        weigh = lambda ct: torch.tensordot(lamb_mat.t(), ct, dims=1)

    def t_op(dm, ct):
        # Sum of the (weighted) transfer operators of all slices
        mats = weigh(ct).transpose(-2, -1) @ dm @ ct.conj()
        return mats.sum(dim=0)

'''),
    ],
    "amplitudes": [
        (P, '''            core_tensors = self.core_tensors
            if self.use_bias:
                core_tensors = core_tensors + self.bias_mat[None, None]
            mat_slices = get_mat_slices(input_data, core_tensors)
''', '''            mat_slices = get_mat_slices(input_data, self._full_cores())
'''),
        (P, '''        # Account for bias matrices before calling log norm implementation
        if self.use_bias:
            core_tensors = self.core_tensors + self.bias_mat[None, None]
        else:
            core_tensors = self.core_tensors

''', '''        # Account for bias matrices before calling log norm implementation
        core_tensors = self._full_cores()

'''),
        (P, '''    @property
    def seq_len(self):
''', '''    def _full_cores(self):
        if not self.use_bias:
            return self.core_tensors
        return self.core_tensors + self.bias_mat

    @property
    def seq_len(self):
'''),
        (P, '''            core_tensors = self.core_tensors
            if self.use_bias:
                core_tensors = core_tensors + self.bias_mat[None]
            mat_slices = get_mat_slices(input_data, core_tensors)
''', '''            mat_slices = get_mat_slices(input_data, self._full_cores())
'''),
        (P, "        return 2 * log_uprobs - log_norm\n", "        return log_uprobs + log_uprobs - log_norm\n"),
        (P, '''        return -torch.mean(
            self.forward(input_data, slim_eval=slim_eval, parallel_eval=parallel_eval)
        )
''', '''        log_probs = self(input_data, slim_eval, parallel_eval)
        return -log_probs.mean()
'''),
    ],
    "slices": [
        (M, '''        mat_slices = CIndex(core_tensor)[torch.arange(seq_len)[None], seq_input]
        # mat_slices = core_tensor[torch.arange(seq_len)[None], seq_input]
''', '''        mat_slices = torch.stack(
            [core_tensor[t][seq_input[:, t]] for t in range(seq_len)], dim=1
        ) if seq_len else core_tensor.new_empty(len(seq_input), 0, bond_dim, bond_dim)
'''),
        (M, '''    for inps, core in zip(seq_input, all_cores):
        vecs, log_scale = rescale_vecs(vecs, log_scale)
        mats = slice_fun(inps, core)
        vecs = torch.matmul(vecs, mats)
''', '''    for site in range(seq_len):
        vecs, log_scale = rescale_vecs(vecs, log_scale)
        core = core_tensor if uniform else core_tensor[site]
        vecs = torch.matmul(vecs, slice_fun(seq_input[site], core))
'''),
        (M, '''    if uniform:
        all_cores = repeat(core_tensor, seq_len)
    else:
        all_cores = core_tensor
''', ''),
    ],
    "matseq": [
        (M, '''    elif num_vecs == 1:
        v_ind = real_vec.index(True)
        vec = bnd_vecs[v_ind]
        if same_shape:
            vec, matrices = batch_broadcast((vec, matrices), (1, 3))
        else:
            outs = batch_broadcast((vec,) + tuple(matrices), (1,) + (2,) * num_mats)
            vec, matrices = outs[0], outs[1:]
        bnd_vecs[v_ind] = vec
    elif num_vecs == 2 and same_shape:
        outs = batch_broadcast(bnd_vecs + [matrices], (1, 1, 3))
        bnd_vecs, matrices = outs[:2], outs[2]
    elif num_vecs == 2 and not same_shape:
        outs = batch_broadcast(bnd_vecs + list(matrices), (1, 1) + (2,) * num_mats)
        bnd_vecs, matrices = outs[:2], outs[2:]
''', '''    elif num_vecs > 0:
        vecs = [v for v in bnd_vecs if v is not None]
        items = [matrices] if same_shape else list(matrices)
        modes = (1,) * num_vecs + ((3,) if same_shape else (2,) * num_mats)
        outs = list(batch_broadcast(vecs + items, modes))
        bnd_vecs = [outs.pop(0) if real else None for real in real_vec]
        matrices = outs[0] if same_shape else outs
'''),
        (M, '''    product, matrices = matrices[0], matrices[1:]
''', '''    product, *matrices = matrices
'''),
    ],
    "hv-data": [
        (U, '''    for i in range(1, num_patterns + 1):
        pattern = template.format(i)
        pattern = [int(s) for s in pattern]

        for j, val in enumerate(pattern):
            # Horizontal stripe pattern
            images[2 * i - 2, j, :] = val
            # Vertical stripe pattern
            images[2 * i - 1, :, j] = val

        labels[2 * i - 2] = 0
        labels[2 * i - 1] = 1
''', '''    numbers = np.arange(1, num_patterns + 1)
    patterns = (numbers[:, None] >> np.arange(length)[::-1]) & 1
    images[0::2] = patterns[:, :, None]
    images[1::2] = patterns[:, None, :]
    labels[0::2], labels[1::2] = 0, 1
'''),
        (U, '''    train_images, train_labels = images[split:], labels[split:]
    test_images, test_labels = images[:split], labels[:split]

    return (
        torch.from_numpy(train_images),
        torch.from_numpy(train_labels),
        torch.from_numpy(test_images),
        torch.from_numpy(test_labels),
    )
''', '''    images, labels = torch.from_numpy(images), torch.from_numpy(labels)
    return images[split:], labels[split:], images[:split], labels[:split]
'''),
    ],
}

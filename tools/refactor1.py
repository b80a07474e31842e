"""Edits which keep the behaviour; tools/quiet.py runs all checks against each of them"""
T, C, P, M, E, U, V = ("torchmps/torchmps.py", "torchmps/contractables.py", "torchmps/prob_mps.py", "torchmps/mps_base.py",
                       "torchmps/embeddings.py", "torchmps/utils.py", "torchmps/utils2.py")
EDITS = {
    "svd-linalg": [
        (U, "        left_mat, svs, right_mat = torch.svd(tensor)\n        svs, _ = torch.sort(svs, descending=True)\n        right_mat = torch.t(right_mat)\n",
         "        left_mat, svs, right_mat = torch.linalg.svd(tensor, full_matrices=False)\n"),
        (U, "        truncation = 0\n        for s in svs:\n            if s < cutoff:\n                break\n            truncation += 1\n",
         "        truncation = int((svs >= cutoff).sum())\n"),
    ],
    "svd-pad": [
        (U, "            copy_svs = svs.new_zeros([max_D])\n            copy_svs[: len(svs)] = svs\n", "            extra = max_D - len(svs)\n            copy_svs = torch.nn.functional.pad(svs, (0, extra))\n"),
        (U, "            copy_left = svs.new_zeros([left_mat.size(0), max_D])\n            copy_left[:, : left_mat.size(1)] = left_mat\n            copy_right = svs.new_zeros([max_D, right_mat.size(1)])\n            copy_right[: right_mat.size(0)] = right_mat\n",
         "            copy_left = torch.nn.functional.pad(left_mat, (0, extra))\n            copy_right = torch.nn.functional.pad(right_mat, (0, 0, 0, extra))\n"),
        (U, "            left_mat = torch.einsum(\"lr,r->lr\", [left_mat, svs])\n", "            left_mat = left_mat * svs[None, :]\n"),
    ],
    "reduce-left-to-right": [
        (C, "        while len(c_list) > 1:\n            try:\n                c_list[-2] = c_list[-2] * c_list[-1]\n                del c_list[-1]\n            except TypeError:\n                c_list[1] = c_list[0] * c_list[1]\n                del c_list[0]\n",
         "        while len(c_list) > 1:\n            try:\n                last = c_list[-1]\n                product = c_list[-2] * last\n            except TypeError:\n                first, second = c_list[:2]\n                c_list[:2] = [first * second]\n            else:\n                c_list[-2:] = [product]\n"),
        (C, "        for i, mat in enumerate(mat_list[:: (1 if rmul else -1)], 1):\n            if rmul:\n                vec = torch.bmm(vec, mat)\n            else:\n                vec = torch.bmm(mat, vec)\n",
         "        if not rmul:\n            mat_list.reverse()\n        for mat in mat_list:\n            vec = torch.matmul(vec, mat) if rmul else torch.matmul(mat, vec)\n"),
        (C, "            mats = torch.einsum(\"bslu,bsur->bslr\", [even_mats, odd_mats])\n", "            mats = torch.matmul(even_mats, odd_mats)\n"),
    ],
    "input-region": [
        (T, "        mats = torch.einsum(\"slri,bsi->bslr\", [tensor, input_data])\n", "        mats = torch.matmul(\n            tensor[None], input_data[:, :, None, :, None]\n        ).squeeze(-1)\n"),
        (T, "            bias_mat = self.bias_mat.unsqueeze(0)\n            mats = mats + bias_mat.expand_as(mats)\n", "            mats = self._add_bias(mats)\n"),
        (T, "        return MatRegion(mats)\n\n    def _merge(self, offset):\n", "        return MatRegion(mats)\n\n    def _add_bias(self, mats):\n        return mats + self.bias_mat[None]\n\n    def _merge(self, offset):\n"),
        (T, "        tensor = torch.einsum(\"slrij,bsj->bslri\", [tensor, inputs[1]])\n        mats = torch.einsum(\"bslri,bsi->bslr\", [tensor, inputs[0]])\n", "        mats = torch.einsum(\"slrij,bsi,bsj->bslr\", tensor, inputs[0], inputs[1])\n"),
    ],
    "embed": [
        (T, "            path_inputs = []\n            for site_num in self.path:\n                path_inputs.append(input_data[:, site_num])\n            input_data = torch.stack(path_inputs, dim=1)\n", "            input_data = torch.stack([input_data[:, s] for s in self.path], dim=1)\n"),
        (T, "            embedded_data = torch.stack([input_data, 1 - input_data], dim=2)\n", "            embedded_data = torch.cat(\n                [input_data.unsqueeze(2), (1 - input_data).unsqueeze(2)], dim=2\n            )\n"),
        (T, "            embedded_data = self.core_tensor.new_empty(embedded_shape)\n\n            embedded_data[:, :, 0] = input_data\n            embedded_data[:, :, 1] = 1 - input_data\n",
         "            embedded_data = torch.stack([input_data, 1 - input_data], dim=-1)\n            embedded_data = embedded_data.to(self.core_tensor.dtype)\n"),
        (T, "                for i, seq in enumerate(input_data):\n                    batch_input[i, : seq.size(0)] = seq\n", "                for row, seq in enumerate(input_data):\n                    length = len(seq)\n                    batch_input[row, :length] = seq\n"),
    ],
    "embed-once": [
        (T, "            embedded_data = torch.stack(\n                [torch.stack([f_map(x) for x in batch]) for batch in input_data]\n            )\n\n            # Make sure our embedded input has the desired size\n            assert embedded_data.shape == torch.Size(\n                [input_data.size(0), self.input_dim, self.feature_dim]\n            )\n",
         "            values = input_data.reshape(-1)\n            vectors = [f_map(x) for x in values]\n            embedded_data = torch.stack(vectors)\n            embedded_data = embedded_data.reshape(*input_data.shape, self.feature_dim)\n"),
    ],
    "adaptive": [
        (T, "        log_norms = []\n        for core in unmerged_list:\n            log_norms.append([torch.log(norm) for norm in core.get_norm()])\n", "        log_norms = [\n            [norm.log() for norm in core.get_norm()] for core in unmerged_list\n        ]\n"),
        (T, "            self.offset = (self.offset + 1) % 2\n            self._merge(offset=self.offset)\n            self.input_counter -= self.merge_threshold\n\n            # Point self.module_list to the appropriate merged module\n            self.module_list = getattr(self, f\"module_list_{self.offset}\")\n",
         "            self._flip()\n"),
        (T, "    @torch.no_grad()\n    def _merge(self, offset):\n        \"\"\"\n        Convert unmerged modules", "    def _flip(self):\n        self.input_counter -= self.merge_threshold\n        self.offset = 1 - self.offset\n        self._merge(offset=self.offset)\n        self.module_list = getattr(self, f\"module_list_{self.offset}\")\n\n    @torch.no_grad()\n    def _merge(self, offset):\n        \"\"\"\n        Convert unmerged modules"),
        (T, "                module_list[i].tensor[:] = merged_list[i].tensor\n", "                module_list[i].tensor.copy_(merged_list[i].tensor)\n"),
        (T, "        for merged_core in tensor:\n            sv_vec = torch.empty(max_D)\n", "        for i in range(tensor.shape[0]):\n            merged_core = tensor[i]\n            sv_vec = torch.full((max_D,), -1.0)\n"),
    ],
    "adaptive-trace": [
        (T, "            in_str, out_str = \"\", \"\"\n            for c in bond_str:\n                if c in lin_bonds:\n                    in_str += \"l\"\n                else:\n                    in_str += c\n                    out_str += c\n            ein_str = in_str + \"->\" + out_str\n",
         "            out_str = \"\".join(c for c in bond_str if c not in lin_bonds)\n            ein_str = bond_str.replace(\"r\", \"l\") + \"->\" + out_str\n"),
        (T, "            for vec in end_vecs:\n                vec[0] = 1\n            contractable_list.insert(0, EdgeVec(end_vecs[0], is_left_vec=True))\n            contractable_list.append(EdgeVec(end_vecs[1], is_left_vec=False))\n",
         "            for vec in end_vecs:\n                vec[0] = 1\n            left_end = EdgeVec(end_vecs[0], is_left_vec=True)\n            right_end = EdgeVec(end_vecs[1], is_left_vec=False)\n            contractable_list = [left_end] + contractable_list + [right_end]\n"),
        (T, "        for module in self.module_list:\n            mod_len = len(module)\n            if mod_len == 1 and not isinstance(module, InputRegion):\n                mod_input = input_data[:, ind]\n            else:\n                mod_input = input_data[:, ind : (ind + mod_len)]\n            ind += mod_len\n\n            contractable_list.append(module(mod_input))\n",
         "        for module in self.module_list:\n            mod_input = input_data.narrow(1, ind, len(module))\n            ind += len(module)\n            if isinstance(module, (InputSite, MergedOutput)):\n                mod_input = mod_input.squeeze(1)\n            contractable_list.append(module(mod_input))\n"),
    ],
    "born": [
        (P, "        log_uprobs = torch.log(torch.abs(psi_vals)) + log_scales\n\n        # Return normalized probabilities\n        return 2 * log_uprobs - log_norm\n", "        log_probs = 2 * psi_vals.abs().log() + 2 * log_scales\n        return log_probs - log_norm\n"),
        (P, "        return -torch.mean(\n            self.forward(input_data, slim_eval=slim_eval, parallel_eval=parallel_eval)\n        )\n", "        log_probs = self(input_data, slim_eval, parallel_eval)\n        return -log_probs.mean()\n"),
        (M, "    for inps, core in zip(seq_input, all_cores):\n        vecs, log_scale = rescale_vecs(vecs, log_scale)\n        mats = slice_fun(inps, core)\n        vecs = torch.matmul(vecs, mats)\n", "    site = 0\n    for core in all_cores:\n        if site >= seq_len:\n            break\n        mats = slice_fun(seq_input[site], core)\n        vecs, log_scale = rescale_vecs(vecs, log_scale)\n        vecs = vecs @ mats\n        site += 1\n"),
    ],
    "scales-by-norm": [
        (M, "        rescale = nonzero_scale(vecs.abs().sum(dim=-1, keepdim=True) / bond_dim)\n", "        rescale = nonzero_scale(vecs.abs().amax(dim=-1, keepdim=True))\n"),
        (M, "        rescales = matrices.abs().sum(dim=(-2, -1), keepdim=True) / bond_dim\n", "        rescales = matrices.abs().amax(dim=(-2, -1), keepdim=True)\n"),
        (M, "        target_norm = max(1, sqrt(product.shape[-2] * product.shape[-1]))\n        rescale = product.abs().sum(dim=(-2, -1), keepdim=True) / target_norm\n", "        rescale = product.abs().mean(dim=(-2, -1), keepdim=True)\n"),
    ],
    "log-norm": [
        (M, "        t_op = lambda dm, ct: einsum(\"ilr,lp,ipq->rq\", ct, dm, ct.conj())\n", "        def t_op(dm, ct):\n            half = torch.matmul(dm, ct.conj())\n            return torch.matmul(ct.transpose(-2, -1), half).sum(dim=0)\n\n"),
        (M, "        t_op = lambda dm, ct: lamb_mat * einsum(\"ilr,lp,ipq->rq\", ct, dm, ct.conj())\n", "        t_op = lambda dm, ct: einsum(\"ilr,lp,ipq->rq\", lamb_mat * ct, dm, ct.conj())\n"),
        (M, "        t_op = lambda dm, ct: einsum(\"ij,ilr,lp,jpq->rq\", lamb_mat, ct, dm, ct.conj())\n", "        t_op = lambda dm, ct: einsum(\n            \"jlr,lp,jpq->rq\", einsum(\"ij,ilr->jlr\", lamb_mat, ct), dm, ct.conj()\n        )\n"),
        (M, "    dens_mat = left_vec[:, None] @ left_vec[None, :].conj()\n", "    dens_mat = torch.outer(left_vec, left_vec.conj())\n"),
    ],
    "slices": [
        (M, "        mat_slices = CIndex(core_tensor)[torch.arange(seq_len)[None], seq_input]\n", "        sites = torch.arange(seq_len).unsqueeze(0)\n        mat_slices = core_tensor[sites, seq_input]\n"),
        (M, "        mat_slices = einsum(\"bti,ide->btde\", seq_input, core_tensor)\n", "        mat_slices = torch.tensordot(seq_input, core_tensor, dims=1)\n"),
        (M, "        slice_fun = lambda inps, core: core[inps]\n", "        slice_fun = lambda inps, core: torch.index_select(core, 0, inps)\n"),
    ],
    "broadcast": [
        (V, "    max_shp = max(shape_list, key=len)\n    out = list(max_shp)\n    for shp in shape_list:\n        if shp is max_shp:\n            continue\n        for i, x in enumerate(shp, -len(shp)):\n            if x != 1 and x != out[i]:\n                if out[i] != 1:\n                    raise ValueError\n                out[i] = x\n    return tuple(out)\n",
         "    order = max(len(shp) for shp in shape_list)\n    padded = [(1,) * (order - len(shp)) + tuple(shp) for shp in shape_list]\n    out = []\n    for sizes in zip(*padded):\n        large = set(sizes) - {1}\n        if len(large) > 1:\n            raise ValueError\n        out.append(large.pop() if large else 1)\n    return tuple(out)\n"),
        (V, "    def safe_expand(t, shp):\n        return t if len(shp) == 0 else t.expand(*shp)\n", "    def safe_expand(t, shp):\n        return t.expand(tuple(shp))\n"),
        (V, "    if len(set(t.shape for t in tensors)) > 1 or len(tensors) == 0:\n        return tensors\n    else:\n        return torch.stack(tensors, dim=dim)\n", "    if len(tensors) > 0 and all(t.shape == tensors[0].shape for t in tensors):\n        return torch.stack(tuple(tensors), dim=dim)\n    return tensors\n"),
    ],
    "embeddings": [
        (E, "            emb_mats = einsum(\"bi,bj->bij\", emb_vecs, emb_vecs.conj())\n            lamb_mat = torch.trapz(emb_mats, points, dim=0)\n", "            emb_mats = emb_vecs[:, :, None] * emb_vecs.conj()[:, None, :]\n            lamb_mat = torch.trapezoid(emb_mats, points, dim=0)\n"),
        (E, "            emb_mats = einsum(\"bi,bj->bij\", emb_vecs, emb_vecs.conj())\n            lamb_mat = torch.sum(emb_mats, dim=0)\n", "            lamb_mat = emb_vecs.t() @ emb_vecs.conj()\n"),
        (E, "    output = torch.zeros(*shape)\n    output.scatter_(-1, tensor[..., None], 1)\n    return output\n", "    output = torch.zeros(shape)\n    index = tensor.unsqueeze(-1)\n    return output.scatter(-1, index, 1.0)\n"),
        (E, "        binom = factorial(emb_dim - 1) // (factorial(s) * factorial(emb_dim - s - 1))\n        comp *= sqrt(binom)\n", "        comp = comp * sqrt(comb(emb_dim - 1, s))\n"),
        (E, "from math import factorial, sqrt, pi\n", "from math import comb, sqrt, pi\n"),
    ],
    "embeddings-general": [
        (E, "        if torch.allclose(lamb_mat.diag().diag(), lamb_mat, atol=atol):\n            lamb_mat = lamb_mat.diag()\n            if torch.allclose(lamb_mat.mean(), lamb_mat, atol=atol):\n                lamb_mat = lamb_mat.mean()\n\n        return lamb_mat\n",
         "        diag = lamb_mat.diag()\n        if torch.allclose(torch.diag(diag), lamb_mat, atol=atol):\n            mean = diag.mean()\n            lamb_mat = mean if torch.allclose(mean, diag, atol=atol) else diag\n\n        return lamb_mat\n"),
    ],
    "init": [
        (M, "    eye_core = batch_to(torch.eye(*shape[-2:]), shape[:-2], 2)\n    noise = noise / torch.sqrt(torch.prod(torch.tensor(shape[-2:])).float())\n    delta = noise * torch.randn(shape)\n", "    eye_core = torch.eye(*shape[-2:])\n    stdev = noise / sqrt(shape[-2] * shape[-1])\n    delta = torch.randn(tuple(shape)) * stdev\n"),
        (V, "    return tensor * torch.exp(2j * pi * torch.rand_like(tensor))\n", "    angles = 2 * pi * torch.rand_like(tensor)\n    return torch.polar(torch.ones_like(angles), angles) * tensor\n"),
    ],
    "shuffle": [
        (U, "    data, labels = input_data.numpy(), input_labels.numpy()\n", "    data = input_data.numpy()\n    labels = input_labels.numpy()\n"),
    ],
    "multiply": [
        (C, "        free_chars = [c for c in lowercases if c not in used_chars]\n", "        free_chars = sorted(set(lowercases) - used_chars)\n"),
        (C, "        out_str = [\"b\"]\n        for bs in bond_strs:\n            out_str.extend([c for c in bs if c not in specials])\n", "        out_str = [\"b\"] + [c for bs in bond_strs for c in bs if c not in specials]\n"),
        (C, "        out_tensor = torch.einsum(ein_str, [tensors[0], tensors[1]])\n", "        out_tensor = torch.einsum(ein_str, *tensors)\n"),
    ],
}

"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os

T = "torchmps/torchmps.py"
K = "torchmps/contractables.py"
U = "torchmps/utils.py"
U2 = "torchmps/utils2.py"
P = "torchmps/prob_mps.py"
B = "torchmps/mps_base.py"
E = "torchmps/embeddings.py"


def m(*pairs):
    return [{"name": n, "where": w} for n, w in pairs]


PROPS = [
    dict(
        id="C01",
        title="MPS outputs equal the documented tensor contraction",
        statement=(
            "For every MPS that can be built (any input, output, bond and feature dimension, any label site from 0 to "
            "input_dim or the default input_dim // 2, open or periodic boundaries, with or without bias matrices, "
            "serial or parallel evaluation) and every batch of inputs, the output of shape (batch, output_dim) equals "
            "the ordered product of the input-contracted cores (plus their region's bias matrix) to the left of the label site, "
            "the output core, and those to the right of it, closed with the first basis vector at both ends (open) or with a trace (periodic). "
            "The evaluation strategy changes only rounding, never the value."
        ),
        over=["inputs", "configurations"],
        qtext="all constructor configurations, all parameter values and all input batches",
        why="The repository's scripts only check output shapes for three label sites at one size; no test compares an output value against anything.",
        files=[T, K],
        mechanism=m(("LinearRegion.forward", T), ("InputRegion.forward", T), ("ContractableList.reduce", K), ("MatRegion.reduce / __mul__", K)),
    ),
    dict(
        id="C02",
        title="TI_MPS handles sequences of any length, batched or listed",
        statement=(
            "For every uniform sequence model (any bond, feature and output dimension, fixed or trainable ends, with a fixed, trainable or absent bias, "
            "serial or parallel evaluation) the output for a sequence equals initial vector times the product over positions of (core contracted with the "
            "feature vector, plus bias) times terminal matrix, for any sequence length of at least one. "
            "A sequence gives the same output alone, in a batch tensor, or in a list next to shorter or longer sequences, whether or not it is pre-embedded, because padding is neutral; "
            "lists of unequal lengths are refused with a ValueError when the bias is absent or trainable."
        ),
        over=["inputs", "configurations"],
        qtext="all model configurations and all collections of sequences with arbitrary lengths",
        why="The one script only checks output shapes for lengths up to four; it never compares a padded sequence with the same sequence alone.",
        files=[T, K],
        mechanism=m(("TI_MPS.format_input", T), ("TI_MPS.forward", T), ("TI_MPS.embed_input", T)),
    ),
    dict(
        id="C03",
        title="Evaluations are isolated from batch mates, history and other threads",
        statement=(
            "The output for one input depends only on that input and the model's parameters: not on the other inputs in the batch, their order or the batch size, "
            "not on which models (of any class) were evaluated before with which batch sizes or failed inputs, and not on models being evaluated at the same time in other threads. "
            "Evaluating never modifies the inputs handed in, outputs of earlier evaluations (which can be differentiated later), random generators or global modes, and (adaptive rearrangement aside) never modifies parameters or buffers."
        ),
        over=["inputs", "histories", "schedules"],
        qtext="all sequences and thread interleavings of evaluations of several models with different batch sizes",
        why="Tests evaluate one model at a time with a constant batch size; the hidden state shared by all contractions is never stressed by changing sizes, order or interleaving.",
        files=[K, T, P, B],
        mechanism=m(("Contractable global batch size", K), ("LinearRegion.forward", T)),
    ),
    dict(
        id="C04",
        title="Paths and feature maps route and embed inputs exactly as declared",
        statement=(
            "An MPS with a path (list or tensor of site numbers, possibly repeating or skipping sites of a wider input) gives the same output as the path-less model on the inputs gathered "
            "in path order, for raw and pre-embedded inputs. Raw inputs x are embedded site by site as (x, 1-x), or by a registered feature map applied to every scalar, giving the same output "
            "and the same derivatives (by the values too, in training and evaluation mode) as feeding the embedded tensor; registering None restores the default, a map of the wrong output size is refused with a ValueError, and a map that is a Module contributes its parameters to the model's parameters and gradients."
        ),
        over=["inputs", "configurations"],
        qtext="all paths, feature dimensions, feature maps and inputs, for MPS and (feature maps) TI_MPS",
        why="The only script compares one map that equals the default; paths are not tested at all.",
        files=[T],
        mechanism=m(("MPS.forward path slicing", T), ("embed_input / register_feature_map", T)),
    ),
    dict(
        id="C05",
        title="Adaptive training flips on schedule and keeps its books",
        statement=(
            "For every geometry and every sequence of batches, an adaptive MPS accepts the input, rearranges its cores exactly when the inputs counted since the last rearrangement (surplus carried over, at most one rearrangement per call) "
            "have reached merge_threshold before the call, and alternates between its two offsets. "
            "The set of parameter objects, their shapes and whether they require gradients never change, so an optimizer made at the start keeps training the model; at each rearrangement bond_list and sv_list are updated at exactly "
            "the bonds that were split, with the number of singular values not below the cutoff (at most bond_dim) and the leading bond_dim singular values in descending order, and at no other time."
        ),
        over=["histories", "configurations"],
        qtext="all geometries (input_dim, label_site, boundary), thresholds, cutoffs and histories of batch sizes",
        why="One script runs seven equal batches on five geometries of one size and checks counts; spectra, other region sizes and uneven batch histories are untested.",
        files=[T, U],
        mechanism=m(("MergedLinearRegion.forward/_merge/_unmerge/combine", T), ("MPS.forward bond_list update", T)),
        state=[
            {"name": "offset / input counter", "meaning": "which merge state is active and how many inputs it has seen", "where": T},
            {"name": "bond_list, sv_list", "meaning": "observed bond dimensions and spectra", "where": T},
        ],
    ),
    dict(
        id="C06",
        title="Adaptive rearrangement preserves the computed function up to truncation",
        statement=(
            "When an adaptive MPS rearranges its cores, the function it computes afterwards is the one obtained by replacing every merged core by its best approximation whose rank across the split bond is "
            "the number of singular values not below cutoff, capped at bond_dim; with nothing to truncate the function is unchanged, and it stays so over any number of rearrangements in either direction. "
            "In every merge state the output equals the contraction of the merged and unmerged cores in chain order, serially or in parallel, for open and periodic boundaries."
        ),
        over=["histories", "inputs", "configurations"],
        qtext="all geometries, parameter values, cutoffs and numbers of rearrangements",
        why="No test compares outputs before and after a rearrangement.",
        files=[T, U],
        mechanism=m(("MergedInput._unmerge, MergedOutput._unmerge", T), ("InputRegion._merge", T), ("svd_flex", U), ("norm rebalancing in _unmerge", T)),
    ),
    dict(
        id="C07",
        title="svd_flex splits any tensor optimally across any partition",
        statement=(
            "For every real tensor and every split string (any order of indices on either side, bond index anywhere), multiplying the two returned tensors along the new bond gives the best approximation of the tensor of the returned rank across the partition, "
            "where the rank counts the singular values that are not below the positive cutoff, at most max_D. The tensor without the singular values has orthonormal columns (rows) along the kept bond, the other one carries them (sv_right selects which), "
            "both are zero-padded to max_D when it is given, sv_vec receives the singular values in descending order, and a cutoff above all singular values raises RuntimeError."
        ),
        over=["inputs"],
        qtext="all tensor shapes and values, split strings, max_D, cutoffs, sv_right and sv_vec",
        why="One script checks output ranks of shape only for five fixed shapes; no values, cutoffs or sv_vec.",
        files=[U],
        mechanism=m(("svd_flex", U)),
    ),
    dict(
        id="C08",
        title="Gradients of every model equal the derivatives of its outputs",
        statement=(
            "For MPS (all geometries, and adaptive models in either merge state), TI_MPS, ProbMPS and ProbUnifMPS in every evaluation strategy, the gradient that backpropagation gives for every active parameter and for real-valued inputs equals the derivative "
            "of the computed output or loss, and does not depend on the strategy; every active parameter receives a gradient. Gradients can be differentiated again, with the right result."
        ),
        over=["inputs", "configurations"],
        qtext="all model configurations, parameter values and inputs away from singular points",
        why="Tests check that gradients exist and that one optimizer step changes parameters, never that a gradient value is right.",
        files=[T, K, P, B, E],
        mechanism=m(("forward passes built from differentiable operations", T), ("contract_matseq / slim_eval_fun / get_log_norm", B)),
    ),
    dict(
        id="C09",
        title="Training moves exactly the model that is evaluated",
        statement=(
            "For every model class, all tensors the documentation calls trainable (cores, boundary vectors and matrices, bias matrices, feature map and embedding parameters) are in parameters() exactly once, are non-empty and receive a gradient when they are active, and fixed ones are not. "
            "Running an optimizer step by step changes the outputs exactly as if the updated values had been put into a fresh model, also across adaptive rearrangements with one optimizer made at the start, and a gradient step of small size lowers the loss by the first-order amount."
        ),
        over=["histories", "configurations"],
        qtext="all model classes and options, all sequences of evaluation and optimizer steps",
        why="Tests take one Adam step and check that something changed.",
        files=[T, P, E],
        mechanism=m(("register_parameter / register_buffer calls", T), ("in-place module updates in MergedLinearRegion._merge", T), ("TrainableEmbedding", E)),
    ),
    dict(
        id="C10",
        title="Probabilistic models over discrete sequences are normalised",
        statement=(
            "For ProbMPS and ProbUnifMPS with any real or complex parameter values, alphabet size, bond dimension, sequence length, with or without a (non-zero) bias matrix and in every evaluation strategy, the probabilities of all sequences of the length sum to one "
            "and no log probability exceeds zero beyond rounding; sequences of probability zero get log probability minus infinity. "
            "For the uniform model this holds for every length separately, including length zero."
        ),
        over=["inputs", "configurations"],
        qtext="all models, parameter values and the complete set of sequences of each tested length",
        why="Tests cover binary alphabets with freshly initialised parameters, where the bias is exactly zero.",
        files=[P, B],
        mechanism=m(("ProbMPS.forward / log_norm", P), ("get_log_norm", B)),
    ),
    dict(
        id="C11",
        title="Log probabilities follow the Born rule in every evaluation strategy",
        statement=(
            "For every probabilistic model and batch of index or vector inputs, the returned log probability is log|amplitude|^2 minus the log of the summed squared amplitudes, where the amplitude is left boundary times the ordered core slices (plus bias) times right boundary; "
            "default, slim, parallel and slim-with-parallel evaluation (parallel wins) agree, only slim evaluation alone with a bias is refused (ValueError), and loss is minus the batch mean. "
            "Rescaling any core tensor or boundary vector by a non-zero constant leaves log probabilities unchanged."
        ),
        over=["inputs", "configurations"],
        qtext="all models, parameter values, batches and strategies",
        why="Tests compare slim and default evaluation at initial parameters only; both can be wrong together and no independent value is checked.",
        files=[P, B],
        mechanism=m(("ProbMPS.forward, ProbUnifMPS.forward, loss", P), ("slim_eval_fun, contract_matseq", B)),
    ),
    dict(
        id="C12",
        title="Embedded models are normalised over their data domain",
        statement=(
            "For a probabilistic model with any fixed or trainable embedding (real or complex model parameters, with or without bias) the probabilities over a discrete domain sum to one, and the density over a continuous interval integrates to one up to quadrature error, for every sequence length; "
            "this still holds after training steps change the embedding, and log_norm() always reflects the current parameters, before or after any evaluation. "
            "Multiplying the embedding by a non-zero constant of any size for which the normalisation matrix stays representable leaves the distribution unchanged."
        ),
        over=["inputs", "configurations", "histories"],
        qtext="all embedding functions, domains, model parameters and histories of parameter updates",
        why="Tests use one-hot multiples (scalar normalisation matrix) and a freshly initialised MLP for a single site.",
        files=[E, P, B],
        mechanism=m(("FixedEmbedding / TrainableEmbedding make_lambda", E), ("get_log_norm with lamb_mat", B)),
    ),
    dict(
        id="C13",
        title="contract_matseq equals the ordered matrix product",
        statement=(
            "For any tensor or sequence of real or complex matrices with compatible (also unequal) bond dimensions, any broadcastable batch shapes, any choice of boundary vectors, and sequential or parallel evaluation, the result equals the ordered product with the boundary vectors, "
            "with broadcast batch shape followed by the expected zero, one or two matrix axes; the log format returns the same value as contraction times exp(log scale). "
            "An empty sequence gives the identity or the boundary vector contraction, raising ValueError only when nothing at all is given."
        ),
        over=["inputs"],
        qtext="all sequences of matrices, batch shapes, boundary vectors and options",
        why="Tests use identity matrices for batches and unbatched random matrices for unequal dimensions; combinations (batched and unequal, complex, per-matrix batches) are untested.",
        files=[B, U2],
        mechanism=m(("contract_matseq, mat_reduce_par, mat_reduce_seq", B), ("batch_broadcast, bundle_tensors", U2)),
    ),
    dict(
        id="C14",
        title="Long chains and extreme scales neither overflow nor lose accuracy",
        statement=(
            "In log format, contractions, slim evaluation and log norms stay finite and accurate for sequences of thousands of factors whose true value is far outside the floating point range: multiplying factors by a constant c adds log|c| per factor and nothing else. "
            "Log probabilities of long sequences equal the exact value computed in extended range, and products that vanish exactly are returned as zero (log probability minus infinity), never as NaN, without disturbing other batch entries."
        ),
        over=["inputs"],
        qtext="all lengths (including odd and non-power-of-two), scales and zero patterns",
        why="The one test uses positive rank-one matrices of scale near one in a single batch entry.",
        files=[B, P],
        mechanism=m(("log_scale bookkeeping in mat_reduce_par / mat_reduce_seq / slim_eval_fun / get_log_norm", B)),
    ),
    dict(
        id="C15",
        title="Batch broadcasting follows NumPy rules on batch axes only",
        statement=(
            "For any collection of tensors with stated numbers of non-batch axes, batch_broadcast returns them expanded so that all batch shapes equal the NumPy broadcast of the inputs' batch shapes, with non-batch axes and all values unchanged, and raises ValueError exactly when NumPy would refuse; "
            "shape_broadcast predicts that shape, batch_to expands to a given batch shape or raises, and bundle_tensors stacks equal shapes along the given axis and returns others unchanged."
        ),
        over=["inputs"],
        qtext="all shapes including singleton, zero and missing axes, and any number of tensors",
        why="Tests check shapes only, for pairs built to be compatible.",
        files=[U2],
        mechanism=m(("batch_broadcast, shape_broadcast, batch_to, bundle_tensors", U2)),
    ),
    dict(
        id="C16",
        title="Initialisers give the declared shape, centre and spread",
        statement=(
            "near_eye_init, normal_init and init_tensor return tensors of the requested shape and dtype whose deviation from the declared centre (identity slices, truncated identity capped at the smaller bond dimension, or zero) vanishes at zero spread and otherwise has the declared standard deviation, "
            "for every shape, position of the bond axes and spread; complex variants keep moduli and get uniformly distributed phases. Unknown methods and batches of non-square slices are refused with ValueError."
        ),
        over=["inputs", "configurations"],
        qtext="all shapes, bond strings, methods, spreads and seeds",
        why="Tests only check the zero-noise identity of near_eye_init for square slices; spreads and init_tensor are untested.",
        files=[B, U, U2],
        mechanism=m(("near_eye_init, normal_init", B), ("init_tensor", U), ("phaseify", U2)),
    ),
    dict(
        id="C17",
        title="Saving, copying and converting a model preserves its function",
        statement=(
            "For every model class and option, at any point of its history (including adaptive models in either merge state), loading its state_dict into a newly built model of the same configuration, deep-copying or pickling it (torch.save of the whole model), or a state_dict save/load through a file gives a model that computes the same outputs, "
            "trains independently of the original, and continues to work on further inputs. "
            "Converting a model of real parameters with double() gives double-precision outputs accurate to double precision."
        ),
        over=["histories", "configurations"],
        qtext="all model configurations and histories of evaluations and training steps before saving",
        why="One test loads a fresh state_dict into an equal fresh model; adaptive models, trained models, copies and dtype conversion are untested.",
        files=[T, P, E, K],
        mechanism=m(("parameter and buffer registration", T), ("MergedLinearRegion module lists", T), ("embedding registration", E)),
    ),
    dict(
        id="C18",
        title="Toy data helpers keep every datum with its label",
        statement=(
            "joint_shuffle applies one and the same permutation to data and labels for every shape and dtype; onehot gives rows with a single one at the label. "
            "load_HV_data returns every non-constant stripe pattern exactly once as a horizontal image labelled 0 and once as a vertical image labelled 1, "
            "split 75/25 into training and test sets."
        ),
        over=["inputs"],
        qtext="all data shapes, dtypes and sizes, and all image lengths",
        why="There is no test of these functions.",
        files=[U],
        mechanism=m(("joint_shuffle, load_HV_data, onehot", U)),
    ),
    dict(
        id="C19",
        title="Products of contractables equal index contractions in any bracketing",
        statement=(
            "Multiplying contractables (edge vectors, matrices, matrix regions, output cores and matrices, and lists of them) contracts the right bond of the left factor with the left bond of the right factor for each batch entry, leaving output indices in order, so that every bracketing that is supported, "
            "a list's reduce with either strategy, and a region's parallel reduction of any number of matrices give the same result. "
            "Multiplying by a batch of scalars scales each batch entry, from either side."
        ),
        over=["inputs", "programs"],
        qtext="all chains of contractables, bracketings, batch sizes and region lengths",
        why="One script checks one output shape of one region.",
        files=[K],
        mechanism=m(("Contractable.__mul__, MatRegion.reduce, ContractableList.reduce, EdgeVec.__mul__, Scalar.__mul__", K)),
    ),
    dict(
        id="C20",
        title="Malformed inputs and configurations are refused, not miscomputed",
        statement=(
            "Inputs whose number of sites, feature dimension, order, or type does not fit the model, discrete values outside the alphabet (negative ones aside), lists mixing raw and pre-embedded sequences, paths of the wrong length, label sites out of range, feature maps or embeddings of the wrong dimension, and fixed ends with output_dim above bond_dim "
            "raise an exception and return nothing. A refused call leaves the model as it was, so that the next valid call gives the same result as before."
        ),
        over=["inputs", "histories"],
        qtext="all models and all malformed variants of valid inputs",
        why="No test feeds malformed input to a model.",
        files=[T, P, B, E, K],
        mechanism=m(("assertions and checks in forward / embed_input / format_input / constructors", T), ("shape assertions", B)),
    ),
    dict(
        id="C21",
        title="Embedding functions and normalisation matrices match their formulas",
        statement=(
            "onehot_embed, trig_embed (any embedding dimension, unit-norm vectors given by the documented binomial formula, sincos_embed being dimension two) and MLP embeddings act elementwise on tensors of any shape and append one axis. "
            "An embedding's normalisation matrix represents the sum (discrete) or trapezoidal integral (continuous) of outer products of embedded vectors over the domain: it is a scalar only when that matrix is a multiple of the identity, a vector only when it is diagonal, and otherwise the full Hermitian matrix."
        ),
        over=["inputs", "configurations"],
        qtext="all input shapes, embedding dimensions, embedding functions (real and complex) and domains",
        why="Tests check one-hot vectors only; trigonometric embeddings and non-scalar normalisation matrices are untested.",
        files=[E],
        mechanism=m(("onehot_embed, trig_embed, init_mlp_embed, make_lambda", E)),
    ),
    dict(
        id="C22",
        title="Core slices, slim evaluation and log norms match explicit tensors",
        statement=(
            "For any uniform or site-dependent, real or complex core tensor and any batch of index or vector inputs, get_mat_slices gives the selected or linearly combined slices, and slim_eval_fun gives the corresponding tensor elements of the MPS. "
            "get_log_norm gives the log squared L2 norm of the explicitly built tensor, weighted with any scalar, diagonal or full positive semidefinite matrix, for every fixed length including zero."
        ),
        over=["inputs"],
        qtext="all core tensors, boundary vectors, inputs, weight matrices and lengths",
        why="Tests check shapes and identity cores only.",
        files=[B],
        mechanism=m(("get_mat_slices, slim_eval_fun, get_log_norm", B)),
    ),
    dict(
        id="C23",
        title="Models compose inside larger computations",
        statement=(
            "Used as a layer in a larger network (behind layers that compute its inputs, under layers that take its outputs, in nn.Sequential or nested containers, called several times in one graph, recomputed by checkpointing, "
            "or given a batch in pieces whose gradients accumulate), a model of any class computes its own function of what it is given, and every layer gets the gradient of the composition. The same holds for other parameters put in its place: "
            "substituted with torch.func.functional_call (which leaves the model's own parameters as they were), recomputed by a parametrization, shared with another model, or replaced by views of one long vector."
        ),
        over=["inputs", "configurations", "histories"],
        qtext="all model classes and configurations, surrounding layers, ways of splitting batches and of supplying parameters",
        why="No test puts a model into a network, or evaluates it with parameters other than those registered at construction.",
        files=[T, P, E],
        mechanism=m(("forward of MPS, TI_MPS, ProbMPS and ProbUnifMPS", T), ("forward, loss", P), ("TrainableEmbedding", E)),
    ),
    dict(
        id="C24",
        title="New models start at the documented point, determined by the seed",
        statement=(
            "The cores of a new MPS deviate from zero (its output core from the identity, its biases not at all) by independent normal numbers of standard deviation init_std, those of a new adaptive MPS from identities truncated to output_dim; a new TI_MPS has a core near zero, "
            "an initial vector of ones, a terminal matrix that is the identity (fixed ends) or deviates from it by normal numbers of standard deviation 1/bond_dim, and a bias equal to (fixed) or near the identity. So, up to init_std, a new MPS with biases gives one (open) or bond_dim (periodic) "
            "for every input and output, and an adaptive one the product over the sites of the sum of the feature vector, times one (open) or min(bond_dim, output_dim) (periodic). Models of all classes built from the same torch seed are identical whatever happened before, "
            "models built after each other or from other seeds are not, and parameters have the default dtype, complex exactly when requested."
        ),
        over=["configurations", "schedules"],
        qtext="all model classes, constructor arguments, spreads and seeds",
        why="Tests look at the shapes of new models only.",
        files=[T, U, P],
        mechanism=m(("constructors of MPS, TI_MPS, InitialVector, TerminalOutput", T), ("init_tensor", U), ("constructors", P)),
    ),
    dict(
        id="C25",
        title="Chains of building blocks contract, count and rescale as documented",
        statement=(
            "For every chain put together by hand from InputRegions (without bias, with one bias matrix or one per site, trainable, fixed or ephemeral), InputSites with unequal bonds, MergedInputs and at most one OutputSite or MergedOutput, a LinearRegion (open or periodic, serial or parallel) "
            "gives the ordered product of the blocks contracted with their inputs; so does a region between an InitialVector (any fill_dim, either side) and a TerminalOutput. The len() of every block, chain and model is the number of inputs it takes, and core_len() the number of cores before merging, in every merge state. "
            "get_norm() lists the Frobenius norms of the cores and changes nothing; rescale_norm() multiplies each core by its scale in place and nothing else, so that a chain without biases is multiplied by the product of all scales."
        ),
        over=["inputs", "configurations", "histories"],
        qtext="all chains of blocks, sizes, bias kinds, boundary conditions, strategies, batches and scales",
        why="Tests build complete models only, with regions of equal cores on both sides of one output core.",
        files=[T, "torchmps/contractables.py"],
        mechanism=m(("LinearRegion, InputRegion, InputSite, OutputSite, MergedInput, MergedOutput, InitialVector, TerminalOutput", T)),
    ),
]


def main():
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(path, "w") as f:
        for p in PROPS:
            anchors = {"files": p["files"], "mechanism": p["mechanism"], "hook_needed": None}
            if "state" in p:
                anchors["state"] = p["state"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"], "anchors": anchors,
            }) + "\n")


main()

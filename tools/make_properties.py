"""Writes /verif/properties.jsonl (the list of properties, one JSON object per line)."""
import json, os

T = "torchmps/torchmps.py"
C = "torchmps/contractables.py"
U = "torchmps/utils.py"
U2 = "torchmps/utils2.py"
B = "torchmps/mps_base.py"
P = "torchmps/prob_mps.py"
E = "torchmps/embeddings.py"

PROPS = []


def prop(id, title, statement, over, text, why, files, state, mech, observe):
    PROPS.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(
                files=files,
                state=[dict(name=n, meaning=m) for n, m in state],
                mechanism=[dict(name=n, where=w) for n, w in mech],
                observe_at=observe,
                hook_needed=None,
            ),
        )
    )


prop(
    "C01",
    "A supervised MPS computes exactly the contraction of its cores",
    "For every batch of inputs, each output row of a non-adaptive supervised MPS is the product, in chain order, of one matrix per site (the site's core contracted with that site's feature vector, plus that region's bias matrix when biases are used) with the output core inserted at the label position, closed by the first unit vectors for open boundaries and by the trace for periodic ones. "
    "This holds for every label position including both ends, every number of sites (one included), bond, output and feature dimension, every path through the input (given as list or tensor, with repeated or skipped positions), raw and pre-embedded inputs, and every batch size. "
    "It holds in single and double precision and with whatever values the parameters currently have.",
    ["inputs", "configurations"],
    "all chain lengths, label positions, dimensions, boundary conditions, bias settings, paths, parameter values, dtypes and input batches",
    "The tests evaluate a handful of near-identity models with fixed sizes and mostly look at output shapes; the formula is never computed independently.",
    [T, C],
    [("cores", "input cores, output core and bias matrices, the parameters of the model"), ("path", "order in which input positions are routed along the chain")],
    [("MPS.forward / embed_input", T), ("LinearRegion.forward", T), ("InputRegion.forward", T), ("ContractableList.reduce", C)],
    ["return value of calling the model", "state_dict / named_parameters"],
)
prop(
    "C02",
    "The evaluation strategy never changes a result",
    "Choosing serial or parallel evaluation (supervised, adaptive and sequence models, and matrix-sequence products), or slim, parallel or default evaluation (probabilistic models), never changes outputs, probabilities, losses or gradients beyond rounding error. "
    "When both slim and parallel evaluation are requested parallel evaluation is used, so that everything which works with parallel evaluation alone also works with both.",
    ["inputs", "configurations"],
    "all models, parameter values and inputs, crossed with every admissible evaluation option, for any chain length (odd, even, power of two or not)",
    "The tests compare strategies for few sizes and only up to loose tolerances, and never compare gradients or the combination of options.",
    [T, C, B, P],
    [("evaluation flags", "parallel_eval / slim_eval")],
    [("MatRegion.reduce", C), ("ContractableList.reduce", C), ("mat_reduce_par / mat_reduce_seq", B), ("slim_eval_fun", B)],
    ["return values and gradients under each option"],
)
prop(
    "C03",
    "Forward evaluations are isolated from one another",
    "Each row of an output depends only on the same row of the input and on the parameters: not on the other rows, the batch size, or the order of rows, and not on any evaluation made earlier or concurrently with the same or another model in the process. "
    "Repeating a call gives the same result, and no call changes its input tensors or (outside adaptive merging) the parameters.",
    ["schedules", "histories", "inputs"],
    "all interleavings of concurrent evaluations in several threads, all histories of earlier evaluations with other batch sizes and models, all batch compositions",
    "Tests run single evaluations in one thread, with one batch size per process section; interleavings and history dependence are not sampled at all.",
    [T, C, B, P],
    [("batch size register", "process-wide batch size that could leak between evaluations")],
    [("OutputSite.forward / InitialVector.forward / TerminalOutput.forward expand explicitly", T), ("Contractable.__init__", C)],
    ["outputs of concurrent and successive calls", "input tensors after a call"],
)
prop(
    "C04",
    "Matrix-sequence contraction is the ordered matrix product",
    "Contracting a sequence of matrices with zero, one or two boundary vectors gives the matrix, vector or scalar which is the product of left vector, matrices in order, and right vector, for every number of matrices (zero included where it is defined), all compatible and possibly different matrix shapes, and with all batch dimensions of matrices and vectors broadcast together following the usual rules. "
    "The logarithmic format returns a pair with contraction * exp(log_scale) equal to that same result; inputs are left unmodified.",
    ["inputs", "configurations"],
    "all sequences of compatible matrices given as one tensor or as a sequence, all boundary choices, batch shapes and options, real and complex",
    "The tests sample small random shapes and compare against one other code path of the library.",
    [B, U2],
    [],
    [("contract_matseq", B), ("mat_reduce_par / mat_reduce_seq", B), ("batch_broadcast / bundle_tensors", U2)],
    ["return value of contract_matseq"],
)
prop(
    "C05",
    "Long products neither overflow nor underflow",
    "Products of arbitrarily many matrices of moderate size, whose magnitude lies outside the range of floating-point numbers, are still represented correctly by the logarithmic format: contraction and log scale are finite, contraction keeps an ordinary magnitude, and the two determine the exact product up to relative rounding error, with a product which is zero represented by zero (never NaN). "
    "The same holds for the log-probabilities of the probabilistic models and their normalisation at every sequence length, for parameters of any moderate scale.",
    ["inputs"],
    "all sequence lengths, scales of the single matrices (growing, shrinking, alternating, per-batch different) and sparsity patterns, all evaluation strategies",
    "Tests use short products of order one; overflow, underflow and zero products are not reached.",
    [B, P],
    [("log_scale", "accumulated logarithm of the factors divided out")],
    [("nonzero_scale", U2), ("mat_reduce_par / mat_reduce_seq / slim_eval_fun / get_log_norm", B)],
    ["contraction and log_scale", "log_norm, log probabilities"],
)
prop(
    "C06",
    "Fixed-length probabilistic MPS follows the normalised Born rule",
    "For a fixed-length probabilistic MPS without embedding, the value returned for a sequence is log(|amplitude|^2 / Z), where the amplitude is left edge vector times the (bias-shifted) core slices selected by the sequence times right edge vector, and Z is the sum of |amplitude|^2 over all sequences, so probabilities of all sequences sum to one. "
    "Inputs given as vectors contract linearly with the cores, one-hot vectors giving the same result as the index; the log-norm method returns log Z and the loss is minus the mean log probability. "
    "This holds for real and complex parameters, with and without bias, under every evaluation option.",
    ["inputs", "configurations"],
    "all lengths, alphabet sizes, bond dimensions, parameter values (real and complex) and batches of sequences",
    "Tests check that probabilities sum to one for near-identity random models; a wrong but normalised distribution, or an error appearing only for particular values, passes.",
    [P, B],
    [("core_tensors, edge_vecs, bias_mat", "parameters of the Born machine")],
    [("ProbMPS.forward / log_norm / loss", P), ("get_mat_slices / get_log_norm", B)],
    ["forward, log_norm, loss"],
)
prop(
    "C07",
    "Uniform probabilistic MPS is normalised at every sequence length",
    "A uniform probabilistic MPS assigns to each sequence of any length n >= 0 the value log(|amplitude|^2 / Z_n) with the same (bias-shifted) core at every position, where Z_n is the sum of |amplitude|^2 over all sequences of that same length; one model instance may be applied to different lengths in any order. "
    "Its log-norm method returns log Z_n for the requested length, for real and complex parameters and under every evaluation option.",
    ["inputs", "configurations", "histories"],
    "all sequence lengths in any order of calls, alphabet sizes, bond dimensions and parameter values",
    "Tests normalise a few lengths on fresh models; they never interleave lengths or verify individual probabilities.",
    [P, B],
    [("core_tensors", "the single core shared by all positions")],
    [("ProbUnifMPS.forward / log_norm", P), ("get_log_norm", B)],
    ["forward, log_norm"],
)
prop(
    "C08",
    "Probabilities stay normalised over the data domain under an embedding",
    "With a fixed embedding on a discrete domain the probabilities of all sequences over the domain sum to one, and on a continuous interval the density integrates to one up to the quadrature error, for any embedding function: non-orthogonal, non-uniform, with vectors of any norm, and with any interval end points. "
    "The normalisation is Z = sum (or integral) over the domain of |amplitude(embedded data)|^2, independently of whether the Gram matrix of the embedding happens to be a multiple of the identity, diagonal or full, and of whether the embedding is passed as a function with its domain or as an embedding object.",
    ["inputs", "configurations"],
    "all embedding functions and domains, both probabilistic models, all parameters and sequences",
    "Tests use one-hot and trigonometric embeddings whose Gram matrices are special, and only compare sums of probabilities of a near-identity model.",
    [E, B, P],
    [("lamb_mat", "Gram matrix of the embedding over the domain, stored as scalar, vector or matrix")],
    [("FixedEmbedding.make_lambda", E), ("get_log_norm", B)],
    ["forward, log_norm, lamb_mat"],
)
prop(
    "C09",
    "A trainable embedding and its normalisation never go out of step",
    "After any history of parameter updates, evaluations, loads, copies and conversions, the probabilities assigned by a model with a trainable embedding are normalised with respect to the embedding's current parameters. "
    "The embedding's parameters belong to the model (they are listed, saved, loaded, copied and moved with it) and receive the exact gradient of the loss, including the part coming from the normalisation.",
    ["histories", "inputs"],
    "all sequences of update / evaluate / load / copy / convert steps on models with trainable embeddings",
    "Tests evaluate one freshly built model; staleness needs an update between two evaluations.",
    [E, P],
    [("embedding parameters", "trainable parameters of the embedding"), ("lamb_mat", "Gram matrix of the embedding for those parameters")],
    [("TrainableEmbedding.lamb_mat property", E), ("ProbMPS.__init__ registers the embedding", P)],
    ["forward, log_norm, loss, parameters(), state_dict(), gradients"],
)
prop(
    "C10",
    "Adaptive training alternates merge patterns exactly on schedule",
    "An adaptive MPS counts the inputs it has processed; a call which finds the count at or above the merge threshold first switches the merge pattern, exactly once, and reduces the count by the threshold, and no other call changes the pattern. "
    "In each pattern neighbouring cores are merged in pairs starting at the even (respectively odd) core position, the label core counting as a core, every core belongs to exactly one block, and the number of inputs and of cores of the model never changes.",
    ["histories", "configurations"],
    "all sequences of batch sizes relative to the threshold, for every chain length, label position and boundary condition",
    "Tests flip a few fixed models once or twice; they do not enumerate label positions, lengths, and arrival patterns of batches.",
    [T],
    [("offset", "current merge pattern"), ("input_counter", "inputs since the last switch"), ("module_list", "blocks of the current pattern")],
    [("MergedLinearRegion.forward", T), ("MergedLinearRegion._merge / _unmerge / combine", T), ("InputRegion._merge", T)],
    ["merged blocks and their parameters before and after each call"],
)
prop(
    "C11",
    "Switching the merge pattern changes the function only by the truncation",
    "If no singular value above numerical noise is cut off, an adaptive MPS computes the same function (outputs for all inputs) before and after a switch of the merge pattern, for any number of switches. "
    "If singular values are cut off, the new function is the one obtained by replacing each merged core by its truncation to the singular values that are at least the cutoff and at most the maximal bond dimension many.",
    ["histories", "inputs", "configurations"],
    "all parameter values, chain lengths, label positions, boundary conditions, output dimensions and numbers of switches",
    "Tests look at shapes, or at near-identity initial values for which most errors are invisible.",
    [T, U],
    [("merged cores", "parameters of the active pattern")],
    [("MergedInput._unmerge / MergedOutput._unmerge", T), ("svd_flex", U), ("rescale_norm", T)],
    ["outputs around a switch"],
)
prop(
    "C12",
    "Reported bond dimensions and singular values are truthful",
    "After each switch, every bond inside a block that was split is reported with a bond dimension equal to the number of kept singular values of that block (those at least the cutoff, at most the maximal bond dimension) and with the block's singular values in descending order, while all other bonds keep their previous report. "
    "The reported dimension of a bond always lies between one and the maximal bond dimension and, right after the switch, bounds the rank of the function across that bond (for open boundaries).",
    ["histories", "inputs", "configurations"],
    "all parameter values, cutoffs, chain lengths, label positions and histories of switches",
    "Tests check list lengths only.",
    [T, U],
    [("bond_list", "reported bond dimensions"), ("sv_list", "reported singular values")],
    [("MPS.forward", T), ("MergedLinearRegion._unmerge", T), ("svd_flex", U)],
    ["bond_list, sv_list"],
)
prop(
    "C13",
    "Adaptive switches keep optimizers attached to the model",
    "The set of trainable parameter objects of an adaptive MPS and their shapes never change, whatever sequence of switches, training steps and evaluations happens, so that an optimizer created at any time keeps acting on the live model. "
    "After every call exactly the parameters of the current merge pattern determine the output and receive gradients, and a gradient step on them is still reflected in the function after the following switch.",
    ["histories"],
    "all sequences of evaluation, backward, optimizer step and switch",
    "Tests never look at parameter identity across switches or train an adaptive model through several of them.",
    [T],
    [("module_list_0 / module_list_1", "parameters of the two patterns, updated in place")],
    [("MergedLinearRegion._merge in-place update", T)],
    ["named_parameters, gradients, optimizer effects"],
)
prop(
    "C14",
    "Flexible SVD splits a tensor exactly up to its stated truncation",
    "Splitting a real tensor across any partition and ordering of its indices gives two tensors with the requested index order whose contraction over the new bond is the original tensor with exactly the singular values below the cutoff or beyond the maximal dimension removed; the factor not carrying the singular values is an isometry on the kept part. "
    "The returned dimension is the number of kept singular values, the returned bond has the maximal size (zero padded) when one is given and the kept size otherwise, the singular value vector is filled in descending order, and the input is not modified.",
    ["inputs", "configurations"],
    "all tensors, index partitions and orders, maximal dimensions above, at and below the rank, cutoffs, and both placements of the singular values",
    "Tests split a few random tensors and check the product without truncation.",
    [U],
    [],
    [("svd_flex", U)],
    ["return values of svd_flex, sv_vec"],
)
prop(
    "C15",
    "Sequence MPS: one core everywhere, and padding has no effect",
    "A translation-invariant sequence MPS returns, for each sequence, initial vector times one matrix per element (the shared core contracted with the element's feature vector, plus the bias matrix if used) times the terminal matrix, for every length. "
    "For a list of sequences of different lengths (embedded or not) every sequence gets the result it would get alone, and sequences of unequal length are refused unless a fixed identity bias is used.",
    ["inputs", "configurations"],
    "all lengths and combinations of lengths in a batch, all dimensions, bias and end-vector options, list and tensor inputs",
    "Tests check output shapes and do not compare padded with unpadded evaluation.",
    [T, C],
    [("core_tensor, bias_mat, initial vector, terminal matrix", "parameters of the model")],
    [("TI_MPS.forward / format_input / embed_input", T)],
    ["return value of calling the model"],
)
prop(
    "C16",
    "Raw inputs are embedded by exactly the feature map currently registered",
    "After any sequence of registrations (functions, modules, reset to the default, and rejected ones) the model embeds each raw input datum with the feature map that was last accepted, or with [x, 1-x] if there is none, and evaluating raw data equals evaluating the same data embedded by hand. "
    "Pre-embedded data bypass the feature map, the path selects and orders positions before embedding, a module used as feature map contributes its parameters to the model exactly while it is registered, and a rejected registration leaves the previous map in place.",
    ["histories", "inputs"],
    "all histories of registrations and evaluations, for both supervised model classes, with and without path",
    "Tests register one valid map; replacement, reset and rejection sequences are not explored.",
    [T],
    [("feature_map", "currently registered map")],
    [("register_feature_map / embed_input", T)],
    ["outputs, parameters(), feature_map"],
)
prop(
    "C17",
    "Contractable products obey the algebra of labelled tensor chains",
    "The product of two adjacent contractables (the left one has a right bond and the right one a left bond of the same size, or one of them is a scalar) of any supported kinds is the contraction of the right bond of the left one with the left bond of the right one, batch by batch, with the result of the kind given by the remaining labels, and products which make no sense (missing or unequal bonds) or are not supported are refused rather than computed wrongly. "
    "Reducing a list (serially or in parallel) therefore does not depend on the order in which neighbours are multiplied, terminates with a single contractable for the chains that models consist of, and multiplying by a list equals multiplying by its elements one after the other.",
    ["inputs", "programs"],
    "all well-formed lists of contractables of all kinds and all association orders, all dimensions and batch sizes",
    "Tests multiply a few pairs of kinds and check shapes.",
    [C],
    [("tensor, bond_str", "data and labels of a contractable")],
    [("Contractable.__mul__ / __rmul__", C), ("MatRegion / EdgeVec / OutputMat / Scalar products", C), ("ContractableList.reduce", C)],
    ["results of products and reductions"],
)
prop(
    "C18",
    "Broadcasting helpers agree with the standard broadcasting rules",
    "Broadcasting a collection of tensors over their batch dimensions gives every tensor the common batch shape defined by the standard rules (also for size-0 and missing dimensions) with the trailing dimensions untouched and every entry equal to the entry of the original it stands for; incompatible shapes raise an error. "
    "Bundling stacks tensors of equal shapes along the requested dimension and returns other collections unchanged; expanding to a batch shape and complex indexing equal the corresponding elementary operation. The trace of a Hermitian matrix and the conversion of an approximately real tensor give the real parts exactly, and a tensor with a clear imaginary part is refused.",
    ["inputs"],
    "all collections of shapes (any number, any ranks, sizes 0, 1 and larger) and non-batch counts",
    "Tests sample a few shapes; the rules have many boundary cases.",
    [U2],
    [],
    [("batch_broadcast / shape_broadcast / batch_to / bundle_tensors / CIndex", U2)],
    ["return values of the helpers"],
)
prop(
    "C19",
    "Gradients are the exact derivatives of what the model computes",
    "Backpropagating any combination of outputs gives, for every parameter and for differentiable inputs, exactly the derivative of the multilinear expression the model evaluates (supervised and sequence models) or of log(|amplitude|^2 / Z) (probabilistic models), including bias matrices, edge vectors and the normalisation. "
    "Gradients accumulate additively over calls and are the same for all evaluation strategies and batchings.",
    ["inputs", "configurations"],
    "all models, parameter values, inputs, output weights and evaluation options",
    "No test checks a gradient value.",
    [T, C, B, P],
    [("gradients", "accumulated derivatives of the parameters")],
    [("evaluation is built from differentiable operations only", T), ("log rescaling is differentiable and cancels", B)],
    ["grad of parameters and inputs after backward"],
)
prop(
    "C20",
    "Saving, loading and copying preserve the function computed",
    "A model rebuilt with the same arguments and given the saved state of another (supervised, adaptive at any point of its merge schedule, sequence, probabilistic, with or without trainable embedding), or obtained by deep copy or pickling, returns the same outputs as the original and from then on evolves independently of it. "
    "This includes the adaptive merge schedule: the next switches of original and restored model happen at the same inputs and give the same results.",
    ["histories", "crash_points"],
    "all histories before the save (including any number of switches and partial counts), all continuations after the load",
    "No test saves or loads a model.",
    [T, P, E],
    [("state dictionary", "parameters, buffers and the adaptive merge state")],
    [("MergedLinearRegion.get_extra_state / set_extra_state", T), ("parameter registration in all models", T)],
    ["state_dict, load_state_dict, copy.deepcopy, pickle"],
)
prop(
    "C21",
    "Initialisation has the documented structure",
    "With zero noise, initial tensors are exactly the documented ones: zero, identity in every slice, or identity truncated to the requested number of diagonal entries (capped by the smaller bond dimension), for every position of the bond indices and for unequal bond dimensions; near-identity and normal initialisers of the probabilistic models are identity plus noise of the stated size and noise of the stated size. "
    "Noise enters linearly with the stated standard deviation, and freshly built models have the documented parameter shapes, boundary values and options: supervised models with bias or adaptive bonds, and sequence models with bias, compute the constants which identity cores imply, up to the initialisation noise.",
    ["configurations", "inputs"],
    "all shapes, orders of indices, initialisation methods and model options",
    "Tests check shapes of a few initial tensors.",
    [U, B, T],
    [],
    [("init_tensor", U), ("near_eye_init / normal_init", B), ("model constructors", T)],
    ["initial parameters and buffers"],
)
prop(
    "C22",
    "Invalid arguments are refused and leave the model unchanged",
    "Arguments outside the documented domain raise an error instead of producing a value: label positions outside the chain, paths of the wrong length, inputs whose length or feature dimension does not fit, feature maps of the wrong output size, wrongly shaped contractables and empty lists, incompatible batch shapes, products of nothing, slim evaluation with bias, fixed ends with too large an output dimension, unequal lengths without a fixed bias, non-positive model sizes, unknown initialisers, malformed split strings, and truncations that would remove every singular value. "
    "A refused call leaves parameters, merge state, feature map and later results of the model as they were.",
    ["inputs", "fault_sequences"],
    "all combinations of valid and invalid arguments of the public constructors and functions, at any point of a model's life",
    "Tests check few error paths and never the state afterwards.",
    [T, C, B, P, U, U2, E],
    [("model state", "parameters, merge state, feature map")],
    [("assertions and ValueErrors in constructors and forward methods", T), ("shape checks of contractables", C)],
    ["raised exceptions, later outputs"],
)
prop(
    "C23",
    "Data utilities keep data and labels together and complete",
    "One-hot encoding gives a unit vector at each label's position, joint shuffling applies one and the same permutation to data and labels, and the horizontal/vertical data set contains every stripe pattern except the two constant ones exactly once per orientation with the correct label, split one quarter / three quarters into test and training sets without loss or duplication. "
    "The built-in embeddings are the documented functions: one-hot vectors, and the binomial-weighted powers of cosine and sine, which have unit norm for every input and dimension.",
    ["inputs"],
    "all label batches, data sets, image sizes, embedding dimensions and inputs",
    "Tests do not check the contents of data sets.",
    [U, E],
    [],
    [("onehot / joint_shuffle / load_HV_data", U), ("onehot_embed / trig_embed", E)],
    ["return values"],
)

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    print(len(PROPS))

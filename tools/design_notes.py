NOTES = {
 "C01": "The partition invariant of a layer (splits[0]=0, monotone, last = size; splits[ids[j]] <= j < splits[ids[j]+1]) is "
        "the data-structure invariant of every ragged contract: each function under contract that returns a shape proves it. "
        "Conversions are proved in both directions for all sizes. Reading of shapes from Python lists is bounded.",
 "C02": "Proved: the renumbering maps (old-to-new/new-to-old), keeping a subset of rows, IndexAxis0, Index on shapes and on "
        "ragged tensors, Index of an array by a ragged tensor, SubsetRagged, RemoveSomeEmptyLists/RemoveEmptyLists and "
        "RemoveValuesLeq/Eq. Slicing on axes above 0, the Python operators and Arange are bounded.",
 "C03": "Proved: composition, axis insertion and removal, prefix and suffix of sublists. Stack, Cat, Merge, transposition and "
        "text are bounded against nested lists.",
 "C04": "Reductions are proved as folds: result = fold of the operator over exactly the elements of the sublist, for all "
        "sizes (canonical fold terms, induction over the sublist). Sorting and uniqueness are bounded.",
 "C05": "The 1-D kernels are proved for all sizes, strides >= 1 and indexes in [-1, n): gather, default for -1, scatter-add as a "
        "fold; autograd wrappers are bounded (values and gradients against dense definitions).",
 "C06": "Text parsing is string handling through std::istream/ostream: outside the verifier (no theory of streams). Bounded.",
 "C07": "Serialisation is torch/pickle machinery: outside the verifier. Bounded histories on real files in a scratch directory.",
 "C08": "Bounded ground truth for every property bit (graph reachability computed independently); proved for graph builders that "
        "they produce valid FSAs.",
 "C09": "Proved: renumbering and destination states. Connect itself (a worklist over std::vector members of a class) is bounded.",
 "C11": "Composition of the language is a statement about path sums over two automata; no contract within reach of the solvers "
        "states it for cyclic automata. Bounded: every path up to a length is enumerated on both sides.",
 "C12": "Lattice = exact set of (path, frame) pairs; bounded by enumeration of every path of random small graphs.",
 "C13": "Bounded: pruned result is a sub-lattice; equal to the exact one with wide beams; chunks equal whole.",
 "C14": "Determinisation and epsilon removal: bounded (language and weights up to a length, tropical and log).",
 "C15": "Closure and Union are proved as exact array contents (arcs and arc maps for all inputs); others bounded.",
 "C16": "Proved: total scores and arc posteriors given forward and backward scores; forward/backward recursion bounded against "
        "enumeration of all paths in double precision.",
 "C19": "LinearFsas, LevenshteinGraphs, CtcGraphs, CtcTopo, TrivialGraph are proved as exact arcs for all transcripts and batch "
        "sizes; wrappers with aux labels are bounded.",
 "C20": "The graph part is proved (C19); the loss is bounded against the textbook recursion in double precision.",
 "C21": "The CPU kernels (forward and backward; float and double; with and without boundary) are proved: every cell satisfies "
        "the recursion with its neighbours, the answer is the last cell, gradients satisfy the adjoint recursion. That the "
        "recursion equals the log-sum over all alignments is the definition; the bounded part checks it by enumeration.",
 "C22": "PrunedRangesToLattice (float and double logits, not half) is proved as exact arcs and arc map for every batch, under "
        "the documented form of the ranges (consecutive, overlapping, within the symbols). The alignments read from the lattice "
        "and the Python wrappers are bounded.",
 "C23": "Levenshtein graphs are proved as exact arcs; alignments are bounded against the textbook dynamic programme.",
 "C26": "The forward and backward functions are proved for all elements, quantised gradients included (8 instances).",
 "C27": "All accessors are proved (alone, and with other threads under rely-guarantee). Construction, Resize and copying between "
        "tables are bounded, as are sequences of operations against a Python dict.",
 "C28": "Pure Python; no deductive verifier for Python is installed. Bounded histories against a model (two dicts).",
 "C29": "Every contract has a frame: memory it does not list as modified is proved unchanged. The Python layer is bounded: every "
        "public operation is run, its inputs compared bit by bit before and after, and writes to the result must not show.",
 "C30": "Non-interference is an obligation of every kernel of every function under contract: any two iterations write "
        "different cells (or add atomically, or write the same value) and none reads what another writes. There is no bounded "
        "stand-in, as the CPU build runs kernels serially.",
}
CAUGHT = {
 "c05-strided-default": "C05 obligation (Index1DImpl) and bounded `select`",
 "c16-deadmember": "C16 bounded `scores`",
 "c19-ctc-crossfsa": "C19 obligation (CtcGraphs) and bounded `ctc_graph`",
 "c21-equal-lengths": "C21 bounded `recursion`, `batch`",
}

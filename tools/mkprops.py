#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = state
    P.append(d)

p("C01", "Row-splits and row-ids describe the same partition, whatever way they are made",
  "For every ragged layer, the offsets of its sublists (starting at 0, non-decreasing, ending at the number of elements) and the per-element sublist numbers describe the same partition: element j belongs to sublist i exactly when offset[i] <= j < offset[i+1]. Converting either form to the other, deriving both from sizes by an exclusive prefix sum, and building a shape from either or both forms (also with empty sublists, zero sublists or zero elements) always gives this same partition, and inputs that describe no partition are rejected by validation. The helper primitives on flat arrays (prefix sums, counts, permutation inversion, row-splits splicing, offset concatenation, merge maps) return exactly their mathematical definition.",
  ["inputs"], "every sequence of sublist sizes >= 0 (including none) and every valid row-splits/row-ids pair; every input array meeting the documented precondition",
  "Tests use a handful of small literal arrays and a few random ones; the claim is about every size vector, in particular runs of empty sublists at the start, middle and end, which decide the loop bounds and off-by-one cases.",
  ["k2/csrc/utils.cu", "k2/csrc/utils_inl.h", "k2/csrc/array_ops.cu", "k2/csrc/array_ops_inl.h", "k2/csrc/ragged_ops.cu", "k2/csrc/ragged.cu"],
  [("conversion", "k2/csrc/utils.cu: RowSplitsToRowIds, RowIdsToRowSplits"),
   ("prefix sums", "k2/csrc/utils_inl.h: ExclusiveSum, InclusiveSum; array_ops_inl.h: ExclusiveSumDeref"),
   ("validation", "k2/csrc/array_ops.cu: ValidateRowIds, ValidateRowSplits, ValidateRowSplitsAndIds; ragged.cu: RaggedShape::Check"),
   ("array helpers", "k2/csrc/array_ops.cu: GetCounts, InvertPermutation, InvertMonotonicDecreasing, SpliceRowSplits, CatWithOffsets, SizesToMergeMap, IsPermutation"),
   ("shape construction", "k2/csrc/ragged_ops.cu: RaggedShape2, RaggedShape3, RaggedShapeFromTotSizes, RegularRaggedShape, TrivialShape")])

p("C02", "Indexing a ragged tensor gives the same answer as indexing the nested lists",
  "Selecting from a ragged tensor or shape - one sublist by number, a contiguous range, a prefix, an arbitrary (possibly repeating, possibly -1 where allowed) list of indexes along any axis, or the elements at given positions - gives exactly the nested list that the same selection gives on the ragged tensor written as a nested list. The value positions reported along with an index operation are the positions, in the source, of the elements of the result. Size, total-size and maximum-size queries agree with the nested list.",
  ["inputs"], "every ragged tensor with 2 to 4 axes, any element type, any axis and any index list in range",
  "The tests index a few fixed tensors of 2-3 axes; combinations of axis, empty sublists, repeated or missing indexes and 4-axis tensors are unbounded.",
  ["k2/csrc/ragged_ops.cu", "k2/csrc/ragged.cu", "k2/csrc/ragged_ops_inl.h", "k2/python/csrc/torch/v2/ragged_any.cu", "k2/python/csrc/torch/v2/ragged_shape.cu"],
  [("axis-0 index", "k2/csrc/ragged_ops.cu: IndexAxis0, Index, GetOffsets, Arange, Prefix, GetPrefixes"),
   ("sub-list", "k2/csrc/ragged.cu: RaggedShape::Index, RaggedShape::MaxSize, TotSize"),
   ("python indexing", "k2/python/csrc/torch/v2/ragged_any.cu: RaggedAny::Index, Arange, Index with tensors")])

p("C03", "Re-arranging a ragged tensor never loses, invents or misplaces an element",
  "Concatenating, stacking, unstacking, adding or removing an axis, composing shapes, transposing, padding to a matrix, converting to and from a dense tensor or text, and removing values that meet a condition give exactly the nested list (or padded matrix) that the same operation gives on plain nested lists, for any axis and any number of inputs including empty ones. In particular every element of the input appears in the output exactly as often and in exactly the order the nested-list definition says. The merge map, where one is returned, gives for each output element the input and position it came from.",
  ["inputs"], "every list of compatible ragged tensors (any number of axes >= 2, empty sublists and empty tensors included), every axis, every padding mode",
  "Tests exercise one or two literal inputs per operation and axis.",
  ["k2/csrc/ragged_ops.cu", "k2/csrc/ragged_ops_inl.h", "k2/csrc/array_ops_inl.h", "k2/python/csrc/torch/v2/ragged_any.cu", "k2/python/k2/ragged/__init__.py"],
  [("cat/stack", "k2/csrc/ragged_ops.cu: Cat, CatAxis0, Stack, StackAxis0, Unstack, Merge"),
   ("axes", "k2/csrc/ragged_ops.cu: Unsqueeze, RemoveAxis, ComposeRaggedShapes, Transpose, MakeTransposable"),
   ("pad and filter", "k2/csrc/ragged_ops_inl.h: PadRagged, RemoveValuesLeq, RemoveValuesEq, SubsetRagged")])

p("C04", "Per-sublist reductions, sorting, normalisation and uniqueness match each sublist",
  "Sum, max, min, arg-max, log-sum-exp, normalisation, and sort applied along the last axis give for each sublist exactly the result of the same operation on that sublist alone (with the documented value for an empty sublist), independent of the other sublists and of how they are laid out. Sorting is a permutation within each sublist in the requested direction and returns the positions the sorted values came from. Removing duplicate sequences keeps one copy of each distinct sequence per group and reports correct repeat counts and representative positions.",
  ["inputs"], "every ragged tensor of 2 or 3 axes of int or float elements, empty sublists included, either sort direction, with and without initial value",
  "Tests compare a few literal tensors; the interaction of sublist boundaries, ties, empty sublists and negative values cannot be sampled exhaustively.",
  ["k2/csrc/ragged_ops_inl.h", "k2/csrc/ragged_ops.cu", "k2/csrc/ragged_utils.cu", "k2/csrc/moderngpu_allocator.h", "k2/python/csrc/torch/v2/ragged_any.cu", "k2/python/csrc/torch/v2/autograd/"],
  [("segmented reduction", "k2/csrc/ragged_ops_inl.h: SegmentedReduce, ArgMaxPerSublist, LogSumPerSublist, NormalizePerSublist"),
   ("sort", "k2/csrc/ragged_ops_inl.h: SortSublists"),
   ("unique", "k2/csrc/ragged_ops.cu: UniqueSequences, ComputeHash")])

p("C05", "Gather, scatter-add and gather-sum follow their index, also in the gradient",
  "Gathering with an index gives result[i] = source[index[i]], with the documented default where the index is -1, for one- and two-dimensional, strided and empty tensors of every supported element type and also when the index is ragged. Scatter-add changes the destination by exactly the sum of the values sent to each position and nothing else, and gather-sum over a ragged index gives each sublist's sum with -1 contributing nothing. The gradients returned are the transposes of these maps.",
  ["inputs"], "every source tensor (1-D and 2-D, contiguous or strided, each element type), every index vector with values in [-1, size), every ragged index",
  "Tests take one index vector per case and mostly one element type; strided two-dimensional inputs and repeated and missing indexes multiply into a space no list of examples covers.",
  ["k2/csrc/tensor_ops.cu", "k2/csrc/array_ops_inl.h", "k2/python/csrc/torch/index_add.cu", "k2/python/csrc/torch/index_select.cu", "k2/python/k2/ops.py"],
  [("gather", "k2/csrc/tensor_ops.cu: Index1D, Index2D, IndexTensor; array_ops_inl.h: Index, IndexRows"),
   ("scatter", "k2/python/csrc/torch/index_add.cu; k2/csrc/tensor_ops.cu: SimpleRaggedIndexSelect1D"),
   ("autograd", "k2/python/k2/ops.py: _IndexSelectFunction, index_and_sum, index_add")])

p("C06", "An FSA written as text and read back is the same FSA",
  "Reading the text form of an automaton (acceptor or transducer, k2 or OpenFst convention, with any number of tensor and ragged label columns) and writing it again gives the same states, arcs, labels, extra labels and scores, in the same order, with final-state and score-sign conventions converted consistently. Malformed text - bad field counts, out-of-range or unsorted states, missing or repeated final state - is rejected with an error, never silently accepted or crashed on.",
  ["inputs"], "every automaton expressible in text, each format option, and every malformed text",
  "Tests parse about a dozen strings; the parser branches on format, number of columns, final-state lines and blank input in every combination.",
  ["k2/csrc/fsa_utils.cu", "k2/python/k2/fsa.py", "k2/python/csrc/torch/fsa.cu"],
  [("parser", "k2/csrc/fsa_utils.cu: FsaFromString, K2AcceptorFromStream, K2TransducerFromStream, OpenFst*FromStream"),
   ("printer", "k2/csrc/fsa_utils.cu: FsaToString"),
   ("python", "k2/python/k2/fsa.py: Fsa.from_str, from_openfst, to_str")])

p("C07", "Saved, pickled, converted or cloned objects come back equal and independent",
  "Converting an automaton, a vector of automata, a ragged tensor or shape or a dense-score object to its dictionary, pickle, file, list, tensor or text form and back gives an equal object with the same attributes (tensor, ragged and other), and splitting a vector of automata into single automata and re-assembling it does too. A clone or a detached copy has equal contents, and changing the copy's own data never changes the original where independence is documented.",
  ["inputs", "histories"], "every automaton, vector, ragged tensor and dense object with any attributes, and any chain of conversions",
  "Tests serialise a few tiny objects once; zero-state/zero-arc members, ragged attributes with empty rows and chains of conversions are not reached.",
  ["k2/python/k2/utils.py", "k2/python/k2/fsa.py", "k2/csrc/fsa_utils.cu", "k2/csrc/fsa.cu", "k2/python/csrc/torch/v2/any.cu", "k2/python/csrc/torch/v2/ragged_any.cu"],
  [("dict/file", "k2/python/k2/fsa.py: as_dict, from_dict; torch.save interplay"),
   ("vectors", "k2/csrc/fsa.cu: FsaVecFromTensor, FsaFromTensor; fsa_utils.cu: FsaToTensor; k2/csrc/fsa.h: GetFsaVecElement, CreateFsaVec"),
   ("pickle", "k2/python/csrc/torch/v2/any.cu: __getstate__, __setstate__")])

p("C08", "Reported automaton properties are true, and invalid automata are refused",
  "Every property flag reported for an automaton or a vector of automata (valid, non-empty, topologically sorted, arc-sorted, deterministic, epsilon-free, accessible, co-accessible ...) is reported exactly when the automaton satisfies that property's definition (for the flags that are defined as sufficient conditions, it is never reported when the condition fails). The flags of a vector are those that hold for all of its members, and arcs given in an order or with labels that violate validity are reported as not valid. Cached properties are refreshed whenever labels are changed.",
  ["inputs", "histories"], "every list of arcs that forms a candidate automaton or vector, and any sequence of label edits",
  "Each flag is a conjunction over all arcs and states; tests check a few automata per flag.",
  ["k2/csrc/fsa.cu", "k2/csrc/fsa.h", "k2/python/k2/fsa.py"],
  [("flags", "k2/csrc/fsa.cu: GetFsaBasicProperties, GetFsaVecBasicProperties, FsaPropertiesAsString"),
   ("cache", "k2/python/k2/fsa.py: properties, __setattr__ for labels")])

p("C09", "Connecting keeps exactly the useful states and arcs, and maps them correctly",
  "Trimming an automaton keeps exactly the arcs that lie on some path from the start state to the final state and the states those arcs touch, with relative order of states and arcs kept as documented, and removes everything else. Scores, labels and other per-arc data are those of the original arcs given by the returned arc map, and the set of weighted paths is unchanged. This holds per member in a vector, for cyclic and acyclic input and when nothing survives.",
  ["inputs"], "every automaton and vector, acyclic or cyclic, with any dead, unreachable or useless states",
  "Tests cover single small automata; reachability is a global property over arbitrary graphs, batches and cycle structures.",
  ["k2/csrc/connect.cu", "k2/csrc/host/connect.cc", "k2/python/k2/fsa_algo.py"],
  [("connect", "k2/csrc/connect.cu: Connecter, Connect"), ("python", "k2/python/k2/fsa_algo.py: connect")])

p("C10", "Sorting an automaton re-orders it without changing the language it weighs",
  "Topological sorting of an automaton without cycles (self-loops aside) gives one whose arcs never go to an earlier state, and arc sorting gives one in which the arcs leaving every state are in order of label then destination; both leave every path's labels and total score unchanged. The returned arc map is such that output arc i carries the labels and score of input arc map[i]; arc sorting keeps all arcs exactly once and leaves states untouched.",
  ["inputs"], "every automaton or vector (for topological sort: acyclic apart from self-loops)",
  "Tests sort two or three small automata.",
  ["k2/csrc/top_sort.cu", "k2/csrc/fsa_algo.cu", "k2/python/k2/fsa_algo.py"],
  [("top sort", "k2/csrc/top_sort.cu: TopSorter, TopSort"), ("arc sort", "k2/csrc/fsa_algo.cu: ArcSort")])

p("C11", "Intersection and composition accept exactly the jointly accepted, scores added",
  "The intersection of two automata contains, for every label sequence, exactly the pairs of paths (one from each) that agree on it, each with the sum of the two scores; composition does the same matching the first one's output labels with the second one's input labels, keeping outer labels. With epsilons treated specially, label 0 means 'no symbol' on either side; otherwise it is an ordinary symbol. Each output arc's source-arc maps point to the two arcs (or none for an epsilon move) whose labels and scores it combines, and the device-style batch intersection agrees for every index mapping.",
  ["inputs"], "every pair (or batch pair with index map) of automata meeting the documented preconditions",
  "Tests check a few literal pairs; the property quantifies over all pairs, epsilon patterns and batch mappings.",
  ["k2/csrc/intersect.cu", "k2/csrc/host/intersect.cc", "k2/csrc/host_shim.cu", "k2/csrc/fsa_algo.cu", "k2/python/k2/fsa_algo.py"],
  [("device intersect", "k2/csrc/intersect.cu: DeviceIntersector, IntersectDevice"),
   ("host intersect", "k2/csrc/host/intersect.cc; fsa_algo.cu: Intersect"),
   ("compose", "k2/python/k2/fsa_algo.py: compose, intersect, intersect_device")])

p("C12", "Intersecting with dense scores enumerates every path with its exact score",
  "Intersecting a decoding graph with per-frame label scores gives a lattice whose successful paths are, for each sequence, exactly the graph paths that emit one label per frame, each with the graph score plus the frame scores of its labels (final label included). The two arc maps say which graph arc and which frame/label entry each lattice arc came from, and no path within the requested beam of the best is lost. Each sequence in a batch is handled as if it were alone.",
  ["inputs"], "every graph (or batch of graphs), every batch of score matrices with any supervision segments and lengths, any output beam",
  "Tests intersect tiny graphs with constant or random scores and compare total scores; the statement is over all graphs, segment layouts and beams.",
  ["k2/csrc/intersect_dense.cu", "k2/csrc/fsa_algo.cu", "k2/csrc/fsa_utils.cu", "k2/python/k2/dense_fsa_vec.py", "k2/python/k2/autograd.py"],
  [("dense intersection", "k2/csrc/intersect_dense.cu: MultiGraphDenseIntersect"),
   ("dense object", "k2/python/k2/dense_fsa_vec.py; k2/csrc/fsa.h: DenseFsaVec")])

p("C13", "Pruned dense intersection only ever drops paths, and agrees when beams are wide",
  "Pruned intersection with dense scores gives, for each sequence, a lattice whose paths are all paths of the exact intersection with the same scores, always including the best path when the beams are wide; with beams and active-state limits wide enough to keep everything the paths are exactly those within the output beam. Feeding the frames in chunks through the online interface gives the same final lattice as feeding them at once, for any way of cutting them into chunks and any interleaving of streams, with per-stream state kept separate.",
  ["inputs", "histories"], "every graph, score batch, beam setting, and every split of frames into chunks with any set of streams per chunk",
  "Tests run one chunking of one random input; the chunk boundary and stream-mix histories are combinatorial.",
  ["k2/csrc/intersect_dense_pruned.cu", "k2/csrc/intersect_dense_pruned.h", "k2/python/k2/online_dense_intersecter.py"],
  [("pruned", "k2/csrc/intersect_dense_pruned.cu: MultiGraphDenseIntersectPruned, IntersectDensePruned"),
   ("online", "k2/csrc/intersect_dense_pruned.cu: OnlineIntersectDensePruned; k2/python/k2/online_dense_intersecter.py")])

p("C14", "Determinising and removing epsilons keep the weighted language",
  "Epsilon removal gives an epsilon-free automaton and determinisation a deterministic one, each assigning every label sequence the same score as the input in the semiring used (maximum over paths for tropical, log-sum over paths for log). The derivation map returned for each output arc names input arcs whose scores sum to it and whose non-epsilon labels give it. The host and device epsilon removal agree, and epsilon-self-loop addition and removal only add or drop zero-effect self-loops.",
  ["inputs"], "every input automaton on which the operation is documented to terminate, both semirings",
  "Equivalence is over infinitely many label sequences; tests compare random sampled paths on a few automata.",
  ["k2/csrc/rm_epsilon.cu", "k2/csrc/host/rmepsilon_pruned.cc", "k2/csrc/host/rmepsilon.h", "k2/csrc/host/determinize.cc", "k2/csrc/fsa_algo.cu", "k2/csrc/host_shim.cu", "k2/python/k2/fsa_algo.py"],
  [("rm epsilon", "k2/csrc/rm_epsilon.cu: RemoveEpsilonDevice, ComputeEpsilonClosure; host/rmepsilon_pruned.h"),
   ("determinize", "k2/csrc/host/determinize.cc, determinize_pruned.h"),
   ("self loops", "k2/csrc/fsa_algo.cu: AddEpsilonSelfLoops; rm_epsilon.cu: RemoveEpsilonSelfLoops")])

p("C15", "Union, concatenation, closure, reversal, inversion and replacement are exact",
  "Union accepts exactly the paths of any member, closure exactly the concatenations of zero or more paths, reversal exactly the reversed paths, inversion exchanges input and output labels on every path, and replacement substitutes for each non-terminal label exactly the paths of the automaton it names; scores add along paths and are otherwise unchanged. Each operation's arc map gives for each output arc the input arc it came from, or -1 for arcs the operation added, and ragged output labels are expanded into chains with the score on one arc.",
  ["inputs"], "every automaton or vector of automata meeting the documented preconditions, including empty members",
  "Tests use one or two literals per operation.",
  ["k2/csrc/fsa_algo.cu", "k2/csrc/fsa_utils.cu", "k2/csrc/reverse.cu", "k2/csrc/host/aux_labels.cc", "k2/python/k2/fsa_algo.py"],
  [("union/closure", "k2/csrc/fsa_algo.cu: Union, Closure, FixFinalLabels"),
   ("invert/expand", "k2/csrc/fsa_algo.cu: Invert, InvertHost, ExpandArcs; replace: ReplaceFsa"),
   ("reverse", "k2/csrc/reverse.cu: Reverse")])

p("C16", "Forward, backward and total scores equal the sums over paths they stand for",
  "For every acyclic top-sorted automaton the forward score of a state is the log-sum (or maximum) of the scores of all paths from the start state to it, the backward score that of all paths from it to the final state, and the total score that of all complete paths (minus infinity when there is none), in single and double precision. Arc posteriors are forward plus arc plus backward minus total, the values cached on the object never outlive a change of scores made by assigning new scores, and members of a vector do not influence each other.",
  ["inputs", "histories"], "every acyclic, top-sorted automaton or vector, both semirings, both precisions, any sequence of score changes",
  "Tests compare against a few hand-computed values; the batching by state level makes the result depend on global shape.",
  ["k2/csrc/fsa_utils.cu", "k2/python/k2/fsa.py", "k2/python/k2/autograd.py"],
  [("scores", "k2/csrc/fsa_utils.cu: GetForwardScores, GetBackwardScores, GetTotScores, GetArcPost"),
   ("batching", "k2/csrc/fsa_utils.cu: GetStateBatches, GetEnteringArcs, GetEnteringArcIndexBatches, GetLeavingArcIndexBatches, GetDestStates, GetIncomingArcs"),
   ("cache", "k2/python/k2/fsa.py: get_forward_scores, get_tot_scores")])

p("C17", "The shortest path returned is a best complete path",
  "For every acyclic top-sorted automaton or vector, the shortest path of each member is a linear automaton formed from consecutive arcs of one complete path of that member, from the start state to the final state, whose total score equals the maximum over all complete paths; a member without a complete path gives an empty result. Labels, auxiliary labels and all other attributes on the result are those of the chosen arcs.",
  ["inputs"], "every acyclic top-sorted automaton or vector, including members with no complete path, ties and disconnected states",
  "Tests check a few literals.",
  ["k2/csrc/fsa_utils.cu", "k2/csrc/fsa_algo.cu", "k2/python/k2/fsa_algo.py"],
  [("best path", "k2/csrc/fsa_algo.cu: ShortestPath; fsa_utils.cu: GetForwardScores entering_arcs; FsaVecFromArcIndexes")])

p("C18", "Gradients and attributes follow arcs through every operation",
  "After any differentiable operation, the gradient reaching each input score equals the derivative of the output with respect to it: arc posteriors for log total scores, the best path's indicator for tropical ones, and the sum over derived arcs for structural operations. Every other per-arc attribute of the result (tensor or ragged) is that of the input arc(s) each output arc came from, with fillers where there was none, and per-object attributes are carried over.",
  ["inputs", "programs"], "every chain of operations on automata with score gradients and tensor, ragged and plain attributes",
  "Tests check gradients of a few fixed graphs; derivative agreement is universally quantified over scores and over chains of operations.",
  ["k2/python/k2/autograd.py", "k2/python/k2/autograd_utils.py", "k2/python/k2/utils.py", "k2/csrc/fsa_utils.cu", "k2/python/k2/fsa.py"],
  [("autograd", "k2/python/k2/autograd.py: _GetTotScoresFunction, _IntersectDensePrunedFunction, _GetForwardScoresFunction ..."),
   ("backprop kernels", "k2/csrc/fsa_utils.cu: BackpropGetForwardScores, BackpropGetBackwardScores, BackpropGetArcPost, GetTotScoresTropicalBackward"),
   ("attributes", "k2/python/k2/utils.py: fsa_from_unary_function_tensor, fsa_from_unary_function_ragged, fsa_from_binary_function_tensor")])

p("C19", "Graph builders produce exactly the automaton they describe",
  "The linear, linear-with-self-loops, linear transducer, trivial, CTC-topology and CTC-graph builders produce, for every label sequence or vocabulary size, a valid automaton that accepts exactly the documented language: the given sequence; every alignment that collapses (repeats merged, blanks dropped) to the given labels, with a mandatory blank between equal neighbours in the standard form; and so on. Output labels equal the collapsed sequence along every path, all scores are zero, and each sequence of a batch is treated as if it were alone.",
  ["inputs"], "every (batch of) label sequence(s), including empty ones and repeated labels, every vocabulary size >= 1, standard and modified forms",
  "Tests print one graph per builder and compare text; the language is infinite.",
  ["k2/csrc/fsa_algo.cu", "k2/python/k2/fsa_algo.py", "k2/python/csrc/torch/fsa_algo.cu"],
  [("linear", "k2/csrc/fsa_algo.cu: LinearFsa, LinearFsas; python linear_fsa, linear_fst, linear_fsa_with_self_loops"),
   ("ctc", "k2/csrc/fsa_algo.cu: CtcGraphs, CtcTopo, CtcTopos(Modified), TrivialGraph")])

p("C20", "The CTC loss is minus the log-probability of all alignments of the transcript",
  "For every batch of frame scores, lengths and transcripts the CTC loss of each sequence equals minus the log of the sum over all alignments of the transcript to the frames of the product of frame probabilities, with the requested reduction and with target-length scaling where documented, and its gradient is the derivative of that. Sequences whose transcript cannot fit have infinite loss, and the order and padding of sequences in the batch do not matter.",
  ["inputs"], "every score matrix, set of supervision segments, transcript batch (with repeats), reduction and beam wide enough",
  "Tests compare to the framework's own implementation on a few shapes.",
  ["k2/python/k2/ctc_loss.py", "k2/python/k2/dense_fsa_vec.py", "k2/csrc/intersect_dense.cu", "k2/csrc/fsa_algo.cu"],
  [("loss", "k2/python/k2/ctc_loss.py: CtcLoss, ctc_loss"), ("graph", "k2/csrc/fsa_algo.cu: CtcGraphs")])

p("C21", "Transducer (RNN-T) recursion equals the log-sum over all alignments",
  "For every pair of score tensors, symbol boundary and batch, the mutual-information recursion and the RNN-T losses built on it equal minus the log-sum over all monotonic alignments in the lattice (in the regular, modified and constrained topologies and with any boundary sub-rectangle) of the alignment's summed scores, and only scores inside the boundary matter. The gradients are the occupation probabilities of the corresponding lattice arcs. Delay penalties and smoothing enter exactly as documented.",
  ["inputs"], "every (batch, symbols, frames) size, every boundary, every loss variant, float and double",
  "Tests use fixed sizes and tolerance comparison with an external reference; boundaries, zero-length transcripts and topology variants multiply.",
  ["k2/python/csrc/torch/mutual_information_cpu.cu", "k2/python/k2/mutual_information.py", "k2/python/k2/rnnt_loss.py"],
  [("recursion", "k2/python/csrc/torch/mutual_information_cpu.cu: MutualInformationCpu, MutualInformationBackwardCpu"),
   ("losses", "k2/python/k2/rnnt_loss.py: get_rnnt_logprobs, rnnt_loss_simple, rnnt_loss, rnnt_loss_smoothed")])

p("C22", "Pruned transducer loss equals the full loss restricted to the pruning bands",
  "The pruning ranges chosen for the transducer loss always form valid, monotonically advancing bands inside the symbol range that start at the first and reach the last symbol, pruned gathering takes exactly the entries of each band, and the pruned loss equals minus the log-sum over the alignments that stay inside the bands - the full loss when the band covers every symbol. The lattice built from pruned scores has exactly one path per alignment inside the bands, with that alignment's score.",
  ["inputs"], "every gradient tensor, boundary, band width from 1 (or 2) to the number of symbols, and every loss variant",
  "Tests check fixed sizes; band placement depends on arbitrary gradient values and boundaries.",
  ["k2/python/k2/rnnt_loss.py", "k2/python/csrc/torch/pruned_ranges_to_lattice.cu", "k2/python/k2/mutual_information.py"],
  [("ranges", "k2/python/k2/rnnt_loss.py: get_rnnt_prune_ranges, _adjust_pruning_lower_bound, do_rnnt_pruning"),
   ("pruned loss", "k2/python/k2/rnnt_loss.py: get_rnnt_logprobs_pruned, rnnt_loss_pruned"),
   ("lattice", "k2/python/csrc/torch/pruned_ranges_to_lattice.cu")])

p("C23", "Edit distance and alignments equal the minimum-cost edit of the two sequences",
  "For every pair of label sequences the edit distance computed from a reference graph and a hypothesis graph equals the textbook minimum number of insertions, deletions and substitutions (with the chosen insertion penalty used only to break ties), and the alignment returned spells the hypothesis and the reference and has that cost. Edit-distance graphs represent exactly the sequence with its allowed edits, and the distances of a batch with an index mapping equal those of the pairs taken singly.",
  ["inputs"], "every pair or batch of label sequences of any length, any small insertion penalty",
  "Tests compare a few pairs.",
  ["k2/csrc/fsa_algo.cu", "k2/python/k2/fsa_algo.py", "k2/python/k2/nbest.py"],
  [("graph", "k2/csrc/fsa_algo.cu: LevenshteinGraphs"),
   ("alignment", "k2/csrc/fsa_algo.cu: LevenshteinAlignment; python levenshtein_alignment, levenshtein_distance")])

p("C24", "Streaming transducer decoding advances each stream exactly as its graph allows",
  "At every step of streaming transducer decoding each stream's active contexts are exactly those reachable in its decoding graph within the beam and limits, contexts hold the most recent symbols, and accumulated scores equal the best or summed score of the paths leading there. The formatted output lattice contains exactly the surviving paths with their scores, and combining streams in one batch, in any order and with different graphs and lengths, changes no stream's result.",
  ["inputs", "histories"], "every set of streams with own graphs, every sequence of score matrices, all beam/limit settings",
  "Tests run one stream set with random scores and check hardly more than shapes.",
  ["k2/csrc/rnnt_decode.cu", "k2/csrc/rnnt_decode.h", "k2/python/k2/rnnt_decode.py", "k2/python/csrc/torch/rnnt_decode.cu"],
  [("streams", "k2/csrc/rnnt_decode.cu: RnntDecodingStreams::Advance, GetContexts, PruneTwice, FormatOutput")])

p("C25", "Sampled and n-best paths are real paths with the right scores",
  "Every path sampled from or listed for a lattice is a complete path of that lattice for the sequence it is listed under, its reported scores are those of its arcs, and the number of paths per sequence is as requested; sequences without a complete path give none. De-duplicated n-best lists contain no two equal hypotheses per utterance, top-k selection keeps the k best by score, and the minimum-word-error loss equals the probability-weighted edit cost over the listed paths.",
  ["inputs", "configurations"], "every acyclic lattice batch, any number of paths, scales and seeds",
  "Tests check one lattice with literal output.",
  ["k2/csrc/nbest.cu", "k2/csrc/fsa_algo.cu", "k2/csrc/fsa_utils.cu", "k2/python/k2/nbest.py", "k2/python/k2/mwer_loss.py"],
  [("sampling", "k2/csrc/fsa_algo.cu/fsa_utils.cu: RandomPaths, ComputePathScores"),
   ("nbest", "k2/python/k2/nbest.py: Nbest, whole_lattice_rescoring"),
   ("mwer", "k2/python/k2/mwer_loss.py: MWERLoss")])

p("C26", "The activation functions equal their formula, value and derivative alike",
  "The two swoosh activations and their combined forward-and-derivative forms return, for every input, the documented formula log(1+exp(x-offset)) - 0.08x - constant within floating-point accuracy and its exact derivative, in training and in inference and for the range-limited storage of derivatives. Inputs of any shape give an output of the same shape.",
  ["inputs"], "every finite float input of any tensor shape",
  "Tests compare on random normal inputs only; large magnitudes, where overflow guards act, are not sampled.",
  ["k2/python/csrc/torch/v2/autograd/swoosh.cu"],
  [("swoosh", "k2/python/csrc/torch/v2/autograd/swoosh.cu")])

p("C27", "The concurrent hash map behaves as a map",
  "After any sequence of inserts, look-ups, value updates and deletes, the hash table answers every look-up with the value of the latest insert or update of that key not followed by a delete, a failed insert reports the value already present, and distinct keys never interfere. This holds for each key/value bit layout, through growth of the table at any point, and at any load below capacity including keys that collide.",
  ["inputs", "histories", "schedules"], "every sequence of operations on any keys and values that fit the declared bit widths, any table size that is a power of two and not full, any resize point",
  "The table has no test in the stable suite; only its users are tested, with few collisions.",
  ["k2/csrc/hash.h"],
  [("map", "k2/csrc/hash.h: Hash::GenericAccessor, Hash::Accessor, Hash::PackedAccessor, Hash::Resize")])

p("C28", "A symbol table is a one-to-one map that survives writing and reading",
  "In a symbol table every symbol has exactly one id and every id at most one symbol, look-ups by either are inverse, and adding a symbol never changes an existing pair. Writing a table to text or file and reading it back gives an equal table, merging keeps all pairs or refuses when they conflict, and malformed or conflicting input is rejected.",
  ["inputs", "histories"], "every sequence of additions, merges, writes and reads",
  "Tests cover a single literal table.",
  ["k2/python/k2/symbol_table.py"],
  [("table", "k2/python/k2/symbol_table.py: SymbolTable.add, merge, get, from_str, to_str, from_file, to_file")])

p("C29", "No operation changes its inputs",
  "Running any operation on automata, ragged tensors, shapes, dense scores or index tensors leaves the observable contents of every input (arcs, scores, labels, shape, values, attributes) as they were, except for operations documented as in-place. Running the same deterministic operation again on the same inputs gives the same result.",
  ["inputs", "histories"], "every operation of the public interface on every input",
  "Tests look at results and almost never re-examine inputs afterwards.",
  ["k2/python/k2/fsa_algo.py", "k2/python/k2/utils.py", "k2/csrc/ragged_ops.cu", "k2/csrc/fsa_algo.cu", "k2/csrc/fsa_utils.cu", "k2/csrc/array.h"],
  [("sharing", "k2/csrc/array.h: Array1 shares its region; every algorithm must write only to arrays it created"),
   ("python", "k2/python/k2/utils.py: fsa_from_unary_function_tensor")])

p("C30", "The parallel kernels give one result whatever order their iterations run in",
  "Every data-parallel step of the flat-array and ragged primitives may run its iterations in any order or at once: no two iterations write different values to the same location and none reads a location another writes. Every location read or written lies inside its array. The result is therefore the same on a serial back end, on many threads and on an accelerator.",
  ["schedules", "inputs"], "every interleaving of the iterations of each parallel step, for every input meeting the step's precondition",
  "The tested build runs every kernel serially in index order, so a dependence on order passes every test.",
  ["k2/csrc/eval.h", "k2/csrc/macros.h", "k2/csrc/utils.cu", "k2/csrc/array_ops.cu", "k2/csrc/array_ops_inl.h", "k2/csrc/ragged_ops.cu", "k2/csrc/fsa_algo.cu", "k2/csrc/fsa_utils.cu"],
  [("kernels", "every lambda passed to K2_EVAL in the listed files")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
for d in P: assert len(d["title"]) <= 80, (d["id"], len(d["title"]))

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one line per property)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
          state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
          mechanism=[dict(name=a, where=b) for a, b in mech],
          observe_at=list(observe), hook_needed=hook)))
PY='k2/python/k2/'; CS='k2/csrc/'; TB='k2/python/csrc/torch/'

p('C01','Intersection and composition compute the product of weighted languages',
 'For all valid operands (single automata, equally long batches, or a batch indexed by b_to_a_map), intersect, intersect_device and compose return an automaton that assigns every string (or input/output string pair) exactly the combination of the two operands\' weights: best path score is the max over pairs of matching paths of the sum of the two scores, with epsilon arcs free moves of either side when epsilons are treated specially and ordinary symbols when they are not. Each result arc carries a score equal to the sum of the scores of the source arcs named by the returned arc maps (none = -1), matching labels, and final arcs combine only with final arcs.',
 ['inputs','configurations'],'all pairs of automata (with epsilons, cycles, negative scores, empty automata), all batch shapes and b_to_a_map values, both epsilon treatments, both implementations',
 'Tests compare a handful of hand-written pairs and random pairs with one host-side randomized equivalence check; they do not enumerate epsilon interleavings, broadcasting or arc map alignment.',
 [PY+'fsa_algo.py',CS+'intersect.cu',CS+'host/intersect.cc',CS+'host_shim.cu',TB+'fsa_algo.cu'],
 [('intersect/intersect_device/compose',PY+'fsa_algo.py'),('DeviceIntersector',CS+'intersect.cu'),('Intersection',CS+'host/intersect.cc')],
 observe=['k2.intersect','k2.intersect_device','k2.compose','_k2.intersect','_k2.intersect_device'])

p('C02','Rational operations denote union, closure, reversal, replacement and linear',
 'union of a batch denotes the union of the element languages, closure the Kleene star (zero or more repetitions, any label kept, extra arcs scoring 0), reverse the mirrored strings, replace_fsa the substitution of each marked arc by the indexed automaton, and linear_fsa/linear_fst (with and without self-loops) exactly the given label sequence(s). Weights, secondary labels and other attributes of every surviving arc are those of the source arc the operation names, and inserted arcs carry the documented default.',
 ['inputs'],'all valid automata and batches, all attribute kinds, all label sequences including empty ones',
 'Tests use one or two literal automata per operation and compare the printed arcs.',
 [PY+'fsa_algo.py',CS+'fsa_algo.cu',CS+'reverse.cu'],
 [('union/closure/reverse/replace_fsa/linear_fsa/linear_fst*',PY+'fsa_algo.py'),('Union, Closure, ReplaceFsa, LinearFsas',CS+'fsa_algo.cu'),('Reverser',CS+'reverse.cu')])

p('C03','Structural rewrites preserve the weighted language and reach their form',
 'connect, top_sort, arc_sort, add_epsilon_self_loops, remove_epsilon_self_loops, expand_ragged_attributes and invert preserve the multiset of successful paths (labels, secondary labels, scores) up to the rewriting each documents (swapped labels, dropped or added epsilon self-loops, one path symbol sequence spread over several arcs). The result has the promised form - only states both reachable and co-reachable kept, states topologically ordered for acyclic input, arcs sorted by label, one or no epsilon self-loop per non-final state, no ragged attribute left - for a single automaton and for every element of a batch alike.',
 ['inputs'],'all valid automata and batches incl. empty automata, cycles, dead states, self-loops, ragged attributes',
 'Tests check one to three literal automata per operation plus a randomized equivalence test for some.',
 [PY+'fsa_algo.py',CS+'connect.cu',CS+'top_sort.cu',CS+'fsa_algo.cu',CS+'fsa_utils.cu',CS+'host/connect.cc',CS+'host/topsort.cc',CS+'host/arcsort.cc'],
 [('Connecter',CS+'connect.cu'),('TopSorter',CS+'top_sort.cu'),('ArcSort, AddEpsilonSelfLoops, ExpandArcs, InvertHost',CS+'fsa_algo.cu'),('expand_ragged_attributes, invert',PY+'fsa_algo.py')])

p('C04','Epsilon removal and determinization preserve the best-path language',
 'remove_epsilon and remove_epsilon_and_add_self_loops produce an automaton without epsilon arcs (other than the added self-loops) that gives every label string the same best score as the input, with each arc\'s attributes being the concatenation/sum of those of the arcs it replaces. determinize (tropical or log weight pushing, or none) returns an automaton in which no state has two arcs with one label and that gives every string the same weight as its epsilon-free input.',
 ['inputs','configurations'],'all valid automata without positive-score epsilon cycles, single and batched, all push types, both device-style and host implementations',
 'Tests use literal automata and randomized equivalence over the tropical semiring with fixed seeds.',
 [PY+'fsa_algo.py',CS+'rm_epsilon.cu',CS+'host/rmepsilon_pruned.cc',CS+'host/determinize.cc',CS+'host/determinize_impl.h',CS+'determinize.cc',CS+'host/weights.cc'],
 [('remove_epsilon*, determinize',PY+'fsa_algo.py'),('RemoveEpsilonDevice, EpsilonsIterativePass',CS+'rm_epsilon.cu'),('Determinize',CS+'host/determinize.cc')])

p('C05','Reported automaton properties are truthful and malformed automata rejected',
 'The property flags reported for an automaton or a batch are exactly the ones its definition implies: validity, non-emptiness, topological sortedness (also the strict acyclic form), arc-sortedness, determinism, epsilon-freeness, connectedness, per element and for the batch as the conjunction. An arc list that violates the format (final state not last or with outgoing arcs, -1 label not exactly on arcs entering the final state, destination out of range, source states out of order) is never reported as valid nor accepted by the constructors that validate.',
 ['inputs'],'all arc lists, single and batched, including empty and malformed ones',
 'Tests look at flags of a few literal automata.',
 [CS+'fsa_utils.cu',CS+'fsa.cu',CS+'fsa.h',CS+'host/properties.cc',PY+'fsa.py',PY+'fsa_properties.py'],
 [('GetFsaBasicProperties, GetFsaVecBasicProperties',CS+'fsa.cu'),('FsaFromTensor, FsaFromArray1',CS+'fsa_utils.cu'),('Fsa.properties, is_* helpers',PY+'fsa.py')])

p('C06','Attributes follow arcs through every operation',
 'After any operation that derives automata from source automata, every tensor or ragged attribute of a result arc equals the value on the source arc(s) that the arc map names (integer attributes of absent sources get the attribute\'s filler, float ones zero, labels combined as documented), and non-tensor attributes are carried over; scores receive the sum. This holds for attributes on either operand, for several attributes at once, for batching (create_fsa_vec), indexing an element out of a batch, and for conversion between dense and ragged attribute form.',
 ['inputs','programs'],'all sequences of operations, all attribute types (int, float, ragged int; fillers; python objects), all arc maps incl. -1 entries',
 'Tests attach one attribute to one automaton for a few operations and never chain operations.',
 [PY+'utils.py',PY+'fsa.py',PY+'fsa_algo.py',PY+'ops.py',PY+'ragged/',TB+'index_select.cu'],
 [('fsa_from_unary_function_tensor/ragged, fsa_from_binary_function_tensor, create_fsa_vec, compose_arc_maps',PY+'utils.py'),('Fsa.__getitem__, attribute dictionaries',PY+'fsa.py')])

p('C07','Automaton objects keep caches coherent and stay isolated from each other',
 'After any history of reads, attribute and label/score assignments, deletions, clones, indexing, device moves and derivations, what an automaton object reports (labels, arcs, properties, cached forward/backward/total scores and entering arcs) equals what a freshly built object with the same current contents reports. Operations never change their operands, and changing a result (or assigning its attributes) never changes the source, except where sharing is documented (detach is a view, and an operation that finds nothing to do may return its operand itself).',
 ['histories'],'all interleavings of reads and writes on a set of automata derived from each other',
 'Staleness needs a read-write-read order on a specific cache; tests make one read after construction.',
 [PY+'fsa.py',PY+'utils.py'],
 [('Fsa._cache, __setattr__, __getattr__, labels.setter, _invalidate_cache_, clone, detach, to, requires_grad_',PY+'fsa.py')],
 state=[('_cache','memoized state batches and scores',PY+'fsa.py'),('_properties','memoized property flags',PY+'fsa.py')])

p('C08','Forward, backward, total and posterior scores are those of the path sum',
 'For every acyclic topologically sorted batch, forward scores, backward scores, total scores, arc posteriors and entering arcs equal the log-sum (log semiring) or maximum (tropical) over the paths that define them, in single and double precision, for every element of the batch, including empty automata and unreachable states (minus infinity).',
 ['inputs'],'all acyclic batches, both semirings, both precisions',
 'Tests cover four literal automata.',
 [PY+'fsa.py',PY+'autograd.py',CS+'fsa_utils.cu',TB+'fsa.cu'],
 [('get_forward_scores/get_backward_scores/get_tot_scores/get_arc_post',PY+'fsa.py'),('GetForwardScores, GetBackwardScores, GetTotScores, GetArcPost, GetStateBatches, GetEnteringArcs, GetIncomingArcs',CS+'fsa_utils.cu')])

p('C09','Gradients of scores equal path posteriors through every operation',
 'The gradient of the total score of any derived automaton with respect to the scores of the automata it was built from equals the sum of the posteriors (log) or the best-path indicator (tropical) of the result arcs that descend from each source arc, through any pipeline of operations and for weighted sums over a batch; gradients of forward, backward, arc-posterior scores equal their derivatives (while the scores of the automaton are not reassigned between computing and back-propagating). Gradients accumulate over multiple uses and never leak between independent results.',
 ['programs','inputs'],'all pipelines of differentiable operations on acyclic automata, both semirings and precisions, arbitrary upstream gradients',
 'Tests check a handful of single-op gradients.',
 [PY+'autograd.py',PY+'autograd_utils.py',PY+'utils.py',PY+'fsa_algo.py',CS+'fsa_utils.cu',TB+'index_select.cu',TB+'index_add.cu'],
 [('_GetTotScoresFunction, _GetForwardScoresFunction, _GetBackwardScoresFunction, _GetArcPostFunction, _Intersect*Function',PY+'autograd.py'),('index_select/index_add/index_and_sum autograd',PY+'ops.py'),('BackpropGetForwardScores, BackpropGetBackwardScores, GetTotScoresTropicalBackward/LogBackward, BackpropGetArcPost',CS+'fsa_utils.cu')])

p('C10','Shortest path returns a best-scoring successful path',
 'For each element of an acyclic batch, shortest_path returns a linear automaton whose arcs are, in order, arcs of one successful path of that element attaining the maximal total score, with that path\'s labels, scores and attributes, and an empty automaton exactly when the element has no successful path.',
 ['inputs'],'all acyclic batches incl. ties, empty elements, unreachable states',
 'Tests use three literal automata without ties.',
 [PY+'fsa_algo.py',CS+'fsa_utils.cu',CS+'fsa_algo.cu'],
 [('shortest_path',PY+'fsa_algo.py'),('ShortestPath',CS+'fsa_algo.cu'),('FsaFromArray / entering arcs',CS+'fsa_utils.cu')])

p('C11','Sampled paths and posterior pruning keep exactly the paths they promise',
 'random_paths returns, per element, the requested number of paths, each a contiguous successful path of that element (none for an element without one), the paths being taken at equal intervals of their cumulative distribution, so that every path, and every set of paths sharing a prefix, receives its share given by the arc posteriors up to one sample. prune_on_arc_post keeps exactly the arcs whose posterior is not below the threshold, with all states, preserving scores and attributes, hence keeps the best path of an element when the threshold is not above its posterior.',
 ['inputs'],'all acyclic batches, counts, thresholds and seeds',
 'Tests use one automaton and check a fixed sample.',
 [PY+'fsa_algo.py',PY+'autograd.py',CS+'fsa_algo.cu',CS+'fsa_utils.cu'],
 [('random_paths, prune_on_arc_post',PY+'fsa_algo.py'),('RandomPaths, GetArcCdf',CS+'fsa_utils.cu'),('PruneOnArcPost',CS+'fsa_algo.cu')])

p('C12','Dense intersection yields exactly the pruned lattice with true scores',
 "intersect_dense on supervisions and neural-network scores gives, per utterance, the lattice of all frame-synchronous paths of its decoding graph, restricted to arcs whose forward-plus-backward score is within the output beam of the best path; every kept arc scores graph score plus the frame's acoustic score of its label (minus infinity for a label the network output does not have), its frame is its depth, and the arc maps, sequence-index, frame-index and phone attributes say where it came from. Scores are differentiable: the gradient reaches exactly the graph scores and network outputs they were made of.",
 ['inputs'],'all graphs, batches (incl. b_to_a maps), segment lengths, scores and beams, limits on arcs and states',
 'Tests compare a few small lattices and total scores.',
 [PY+'autograd.py',PY+'fsa_algo.py',PY+'dense_fsa_vec.py',CS+'intersect_dense.cu',TB+'fsa_algo.cu'],
 [('intersect_dense',PY+'autograd.py'),('MultiGraphDenseIntersect',CS+'intersect_dense.cu'),('DenseFsaVec, convert_dense_to_fsa_vec',PY+'dense_fsa_vec.py')])

p('C13','Pruned decoding is sound, keeps the best path and respects its limits',
 'Every path in the lattice of intersect_dense_pruned is a path of its decoding graph aligned with the frames of its utterance and scored by graph plus acoustic scores, with arc maps saying where each arc came from. On every frame the search keeps exactly the states reached within the current search beam of the best; the beam starts at search_beam, shrinks while more than max_active states are active, widens while fewer than min_active are, drifts back otherwise, is looser on the last frames and not applied on the last one. The lattice contains every complete path that survives the search and scores within the output beam of the best surviving one, hence, when the search loses nothing, every path within the output beam including the best; it keeps no arc that was outside the output beam when its window was pruned (for an utterance of one window: every arc is on a complete path within the output beam). Utterances that cannot reach a final state give a lattice without complete paths or, if partial results are allowed, the surviving prefixes. The timing of the background pruning thread never changes the result.',
 ['inputs','configurations','schedules'],'all graphs with cycles and epsilon-free labels, batches of different lengths, single or per-utterance graphs, beams, min/max active states, allow_partial, thread scheduling of the concurrent pruning pass',
 'Tests compare with unpruned intersection on a few inputs with infinite beams.',
 [PY+'autograd.py',CS+'intersect_dense_pruned.cu',CS+'thread_pool.cu',CS+'semaphore.h',CS+'hash.h'],
 [('intersect_dense_pruned',PY+'autograd.py'),('MultiGraphDenseIntersectPruned',CS+'intersect_dense_pruned.cu')])

p('C14','Chunk-by-chunk decoding equals decoding the whole utterance',
 "Feeding an utterance to the online decoder in any split into chunks, with any interleaving of streams through the fixed-size batch, searches frame by frame exactly as the recurrence of pruned decoding does over the concatenated scores, independently of the split. After each chunk the stream's lattice is that of the frames so far: it contains every surviving arc within the output beam of the best path now, no arc that was outside it when the arc's chunk ended, and ends with the final arcs of the states active now (or, if partial results are allowed and no active state has one, the surviving prefixes); with beams that lose nothing it is the exact lattice. A stream with no active state left stays dead and gives a lattice without complete paths. The saved per-stream state returned by one call is a value: it is independent of later calls, other streams and their slot in the batch.",
 ['histories','inputs'],'all chunk splits, stream interleavings, slot assignments and stream lengths',
 'The only test runs one fixed chunk size with all streams advancing in lock-step.',
 [PY+'online_dense_intersecter.py',CS+'intersect_dense_pruned.cu',CS+'intersect_dense_pruned.h',TB+'fsa_algo.cu'],
 [('OnlineDenseIntersecter.decode',PY+'online_dense_intersecter.py'),('OnlineDenseIntersecter, MultiGraphDenseIntersectPruned::OnlineIntersect',CS+'intersect_dense_pruned.cu')],
 state=[('DecodeStateInfo','frames and arcs of one stream so far',CS+'intersect_dense_pruned.h')])

p('C15','Streaming transducer decoding keeps per-stream beams correctly',
 "At every step each stream's active (decoding-graph state, label context) pairs are those reachable from the previous ones by the graph's arcs (adding graph score and the joiner score of the arc's label) or by an implicit termination symbol that stays in place and scores the blank, within the beam of the best and then within the state and context limits; a context is the last (history size) labels emitted. The lattice of a stream contains exactly the transitions kept on its frames with their scores, connected, ended by final arcs from the last frame's final states (or, if partial results are allowed and there are none, from all of them), with attributes of the graph arcs (or each attribute's filler); its gradient reaches exactly the joiner scores it was made of. None of this depends on the other streams of the batch or on how the streams were attached, detached and interleaved.",
 ['histories','inputs'],'all joiner score histories, graphs, stream groupings, frame counts, beams and limits',
 'Two tests run a fixed number of frames on random scores and check only shapes.',
 [PY+'rnnt_decode.py',CS+'rnnt_decode.cu',CS+'rnnt_decode.h',TB+'rnnt_decode.cu'],
 [('RnntDecodingStreams.advance/get_contexts/format_output/terminate_and_flush_to_streams',PY+'rnnt_decode.py'),('RnntDecodingStreams::Advance, GetContexts, PruneTwice, FormatOutput',CS+'rnnt_decode.cu')],
 state=[('streams','per-stream frames of states and arcs',CS+'rnnt_decode.h')])

p('C16','CTC topologies and the CTC loss denote the CTC alignment model',
 "ctc_topo (standard and modified) relates each frame sequence to exactly the label sequences it aligns with: the collapsed one in the standard topology, while in the modified one each label takes one or more consecutive frames and blanks are optional even between equal labels. ctc_graph, or composing ctc_topo with a transcript, accepts exactly the alignments of the transcript, each once, and trivial_graph any sequence over its symbols. ctc_loss equals minus the log of the summed probability of the alignments of each utterance's graph (restricted, like the dense intersection, to the output beam), for every reduction, target-length normalization, delay penalty (a bonus for each label emitted earlier than the middle of the utterance, a penalty for later) and order of utterances, is infinite if there are none, and its gradient is minus the alignment posteriors.",
 ['inputs','configurations'],'all vocabularies, transcripts (empty, repeated symbols, too long), lengths, options and supervision orders',
 'Tests compare six fixed cases with the framework\'s built-in CTC loss.',
 [PY+'fsa_algo.py',PY+'ctc_loss.py',CS+'fsa_algo.cu',PY+'dense_fsa_vec.py'],
 [('ctc_topo, ctc_graph, trivial_graph',PY+'fsa_algo.py'),('CtcLoss.forward',PY+'ctc_loss.py'),('CtcTopo, CtcGraphs, TrivialGraph',CS+'fsa_algo.cu')])

p('C17','Levenshtein alignment and minimum-risk loss follow edit distance',
 'The best path of levenshtein_alignment between a hypothesis and a reference has score minus the number of edits of a cheapest alignment, where a substitution costs 1 and an insertion or deletion costs 0.5 minus the (non-positive) ins_del_score of the graph concerned; hypothesis and reference labels of the path spell the two sequences, levenshtein_graph gives every string its minimal edit cost, and the graphs passed in stay unchanged. The MWER loss of a lattice is the posterior-weighted average over the sampled paths of their word errors relative to the references, per utterance, under every reduction.',
 ['inputs','configurations'],'all pairs of symbol sequences, batches, insertion/deletion settings, path counts and temperatures',
 'Tests check a few literal sequences.',
 [PY+'fsa_algo.py',PY+'mwer_loss.py',CS+'fsa_algo.cu'],
 [('levenshtein_graph, levenshtein_alignment',PY+'fsa_algo.py'),('MWERLoss.forward',PY+'mwer_loss.py'),('LevenshteinGraphs',CS+'fsa_algo.cu')])

p('C18','The lattice recursion sums all alignments inside the boundary, with gradients',
 "mutual_information_recursion returns, per sequence, the log-sum over all monotone paths through its boundary rectangle of the products of horizontal and vertical steps (in regular and modified form), minus infinity when there is none; its gradients are the step posteriors, and joint_mutual_information_recursion does the same for the summed likelihoods, attributing the total to its parts in proportion to the posteriors. Values outside a sequence's boundary (finite or minus infinity) never influence its result or receive gradient.",
 ['inputs','configurations'],'all sizes incl. zero, boundaries, dtypes, both forms, arbitrary score values including minus infinity',
 'Tests compare with a Python re-implementation on a few shapes.',
 [PY+'mutual_information.py',TB+'mutual_information_cpu.cu',TB+'mutual_information.cu'],
 [('MutualInformationRecursionFunction, joint_mutual_information_recursion',PY+'mutual_information.py'),('MutualInformationCpu, MutualInformationBackwardCpu',TB+'mutual_information_cpu.cu')])

p('C19','Transducer losses equal the alignment sum; pruning only drops alignments',
 'rnnt_loss, rnnt_loss_simple, rnnt_loss_smoothed and rnnt_loss_pruned (also in its HAT form) equal minus the log-sum over all alignments of the normalized joiner scores for every topology (regular, modified, constrained), boundary, reduction and delay penalty, with the exact derivatives and returned occupations; the smoothed form uses the weighted combination of combined, LM-only and AM-only log-probabilities. Pruning ranges (get_rnnt_prune_ranges, for at least one frame and, in regular form, one symbol) start at 0, never move back, never skip a symbol and reach the last symbol, are consecutive windows placed where they keep most of the given gradient mass, whose pruned loss equals the full loss restricted to the kept cells (and the full loss if the window covers all symbols); do_rnnt_pruning selects exactly those cells; and the lattice built from pruned ranges contains exactly the restricted regular alignments (without the last blank), each arc naming the logit it comes from.',
 ['inputs','configurations'],'all lengths, ranges, boundaries, topologies, blanks, smoothing scales, reductions and penalties',
 'Tests compare different implementations with each other on a few fixed shapes.',
 [PY+'rnnt_loss.py',PY+'mutual_information.py',TB+'pruned_ranges_to_lattice.cu'],
 [('get_rnnt_logprobs*, rnnt_loss*, get_rnnt_prune_ranges, do_rnnt_pruning, rnnt_loss_pruned',PY+'rnnt_loss.py'),('PrunedRangesToLattice',TB+'pruned_ranges_to_lattice.cu')])

p('C20','Ragged structure operations agree with nested lists',
 'Every structural ragged operation (indexing and slicing as of lists, selecting with index tensors or ragged indexes on any axis, stacking, unstacking, concatenating and merging, transposing, removing axes, lists or values, padding, prefixes and suffixes, subsets and renumbering, layers and composition, regular, trivial and covering shapes, text and pickled forms, equality) gives what the same operation gives on the nested list of lists, at any nesting depth and with empty sublists anywhere; the index maps it returns say where each element came from; the row-splits/row-ids/size views of one shape always agree; operands stay as they were; invalid indexes and axes are refused.',
 ['inputs','programs'],'all ragged tensors of 2-4 axes, dtypes int32/float32/float64, all axes and index lists (incl. -1 where allowed), chained operations',
 'Tests use a few literal tensors, seldom with empty sublists or more than 2-3 axes.',
 [CS+'ragged.cu',CS+'ragged_ops.cu',CS+'ragged_ops_inl.h',CS+'ragged_inl.h',CS+'array_of_ragged.cu',TB+'v2/ragged_any.cu',TB+'v2/ragged.cu',PY+'ragged/'],
 [('RaggedShape ops: Index, Stack, Cat, RemoveAxis, ComposeRaggedShapes, RegularRaggedShape, PadRagged',CS+'ragged_ops.cu'),('RaggedAny',TB+'v2/ragged_any.cu')])

p('C21','Ragged reductions, sorting, uniqueness and indexed sums act per sublist',
 'Per-sublist sum, max, min, argmax, and, or, logsumexp, normalize, exclusive sum, addition, sort, unique, hashing, counting and pruning, and index_select/index_add/index_and_sum on dense tensors, equal the result of applying the list operation to each sublist of the last axis (starting from the initial value; sorting returns a permutation within each sublist; unique keeps every distinct sequence of a group once, with its count and the position of an occurrence; pruning keeps the sub-lists within the beam, at most the maximal number, never empty ones; index -1 gives the default), for all dtypes, strides and broadcast layouts that are accepted. Their gradients are the exact derivatives, whatever the layout of the upstream gradient.',
 ['inputs'],'all ragged tensors and index vectors, dtypes, non-contiguous inputs, upstream gradients',
 'Tests sample a few literal tensors.',
 [PY+'ops.py',PY+'ragged/',CS+'ragged_ops.cu',CS+'ragged_ops_inl.h',CS+'algorithms.cu',CS+'tensor_ops.cu',CS+'torch_util.cu',TB+'index_select.cu',TB+'index_add.cu',TB+'v2/ragged_any.cu',TB+'v2/autograd/'],
 [('SegmentedReduce, SortSublists, UniqueSequences, NormalizePerSublist, ArgMaxPerSublist',CS+'ragged_ops.cu'),('IndexSelect1D/2D, IndexAdd',TB+'index_select.cu'),('SumPerSublist/Normalize/LogSumExp autograd',TB+'v2/autograd/')])

p('C22','Text, tensor and dictionary forms of automata round-trip',
 "Converting an automaton to text (native or OpenFst convention, with any number of secondary label columns or ragged labels), to a tensor, to a dictionary (also when that is saved to a file and loaded again), and reading it back gives the same states, arcs, labels, scores, attributes and fillers (text: for automata with arcs, scores to six significant digits; a single automaton's tensor without final arcs gives the fewest states that fit); reading accepts exactly the documented formats - omitted scores, blank lines, lines in any order and several final states with costs in OpenFst form - and gives the automaton they describe, and malformed text is rejected with an error rather than misread; drawings show exactly the states, arcs, labels and weights.",
 ['inputs'],'all automata and well- and ill-formed texts',
 'Tests parse a few literal strings.',
 [PY+'fsa.py',PY+'utils.py',CS+'fsa_utils.cu',PY+'ragged/'],
 [('Fsa.from_str/from_openfst/from_dict, _construct_scores',PY+'fsa.py'),('to_str, to_tensor, to_dot',PY+'utils.py'),('FsaFromString, FsaToString, K2/OpenFst streams',CS+'fsa_utils.cu')])

p('C23','A symbol table stays a bijection under every edit history',
 'After any sequence of adds, lookups, merges, loads and saves, a symbol table maps ids to symbols and symbols to ids one-to-one, epsilon stays id 0, newly assigned ids never collide with used ones, conflicting additions are rejected leaving the table unchanged, merging two tables keeps both when consistent, and writing then reading a file gives an equal table.',
 ['histories'],'all histories of operations on all tables and all symbol strings without whitespace',
 'The test performs one fixed history.',
 [PY+'symbol_table.py'],[('SymbolTable.add/merge/from_str/to_file/__contains__/__eq__',PY+'symbol_table.py')],
 state=[('_id2sym/_sym2id','the two directions of the map',PY+'symbol_table.py')])

p('C24','The concurrent hash map behaves as an atomic map',
 'For any number of callers and any interleaving, an insertion into the hash map stores exactly one value per key and tells every other inserter of that key the value (and location) stored first; lookups find exactly the keys present with their current value; overwriting changes just that key; deleting all the keys leaves an empty table; resizing or copying (to any table size, key/value split and accessor that can hold the contents) preserves all contents and configurations that cannot work are refused. The thread pool runs every submitted task exactly once, never more at a time than it has threads, a wait returns only after all tasks submitted before it have finished and every waiter does return; a semaphore lets exactly as many through as were released.',
 ['schedules','histories'],'all interleavings of inserts and finds by concurrent threads, all table sizes, key/value bit splits and key sets with colliding probes',
 'The C++ test inserts random keys from a single thread and is not even part of the stable test suite here.',
 [CS+'hash.h',CS+'hash.cu',CS+'thread_pool.cu',CS+'thread_pool.h',CS+'semaphore.h'],
 [('Hash, Accessor/GenericAccessor/PackedAccessor Insert/Find/Delete/SetValue, Resize',CS+'hash.h'),('ThreadPool',CS+'thread_pool.cu')],
 state=[('table','open-addressed slots holding packed key/value words',CS+'hash.h')])

p('C25','Best-matching statistics score each query by its longest key suffix match',
 "Each position of the token sequences of a collection is matched by what precedes it (the position itself included), back to the start of its sentence and beyond across the end-of-sentence boundary, with the other key positions (those with count 1) of the same collection; get_best_matching_stats reports for every position the mean and the variance (about that mean) of the scores of exactly the key positions that share the longest such context, how many they are, and the length of that context, at most the configured maximum order and equal to it when the match reaches the beginning of the position's sentence. A key position counts itself among the matched keys, for the longest context it shares with any other position. Positions with no match get the statistics of all keys with count and order zero, everything is zero without keys; scores of query positions never matter, collections do not influence each other, and empty input gives empty output.",
 ['inputs','configurations'],'all token sequences, key/query splits, orders, minimum counts and end-of-sequence tokens',
 'One test with a single literal input.',
 [PY+'nbest.py',PY+'ops.py',CS+'nbest.cu',TB+'ragged_ops.cu',PY+'utils.py'],
 [('GetBestMatchingStats',CS+'nbest.cu'),('CreateSuffixArray, CreateLcpArray, GetNewKey...',CS+'nbest.cu')])

p('C26','N-best lists hold real lattice paths with correct grouping and scores',
 "Nbest.from_lattice keeps, for each lattice of a batch, exactly one sampled successful path per distinct output sequence, as a linear automaton with the path's labels, outputs and scores (differentiable with respect to the lattice's scores), grouped by lattice, and leaves the lattice unchanged; total_scores gives each entry's own score in the same grouping; top_k keeps the k best entries of each utterance in descending order, repeating the last kept when there are fewer; intersect gives per entry a best path of its lattice with that label sequence, scored by the sum of both, or no path; whole_lattice_rescoring replaces the language-model part of the score of every (label, output) sequence by the given model's; generate_nbest_list gives the distinct token sequences of sampled paths.",
 ['inputs'],'all lattices, path counts, k and score settings',
 'Two tests with literal two-utterance lists.',
 [PY+'nbest.py',PY+'fsa_algo.py',PY+'ragged/'],
 [('Nbest.from_lattice/intersect/top_k/total_scores, whole_lattice_rescoring',PY+'nbest.py')])

p('C27','A batch behaves as its elements',
 'Applying a batch operation (sorting, trimming, epsilon removal, determinization, inversion, self-loops, best path, pruning, reversal, expansion of ragged attributes, intersection, scores, posteriors and sampled paths, dense intersections, graph builders, alignments, losses) to a batch gives, element by element, what applying it to each element alone gives, independently of the other elements, their number (none included), order, emptiness and sizes, with attributes, and leaves the operand alone; indexing, joining and restacking rearrange elements and change nothing else. Where the choice of algorithm depends on the whole batch (epsilon removal, determinization) elements agree up to the numbering of states and the order of arcs.',
 ['inputs','programs'],'all batches and orders of elements, all batch-capable operations',
 'Tests batch one or two automata and never compare with the unbatched result under permutation.',
 [PY+'fsa_algo.py',PY+'fsa.py',PY+'utils.py',CS+'fsa_algo.cu',CS+'fsa_utils.cu',CS+'connect.cu',CS+'top_sort.cu'],
 [('create_fsa_vec, Fsa.__getitem__, RecursionWrapper',PY+'utils.py')])

p('C28','Equivalence tests and random automata mean what they say',
 "is_rand_equivalent, applied to valid acyclic, topologically sorted automata or batches of them with finite scores, answers yes for any two that give every label string the same weight (up to delta) in the chosen semiring, however differently they are built (epsilons being the empty string exactly when treat_epsilons_specially is set), and no when the batch sizes differ, when exactly one of the two accepts any string at all, or when they differ on a string within the beam that the given number of sampled paths cannot practically miss; the answer for batches is yes exactly if it is for each pair of elements. random_fsa and random_fsa_vec return valid automata with finite scores, numbers of arcs and automata within the requested ranges, labels between 0 and max_symbol (and -1 into the final state) and, when asked, only arcs to higher-numbered states.",
 ['inputs','configurations'],'all pairs of acyclic automata (ambiguous, with epsilons, dead parts, duplicated arcs and states, -inf totals), both semirings, all beams, deltas and sample counts, all generator ranges',
 'The equivalence test is the oracle of nearly all existing tests; nothing tests the oracle beyond a few literal pairs.',
 [PY+'fsa_algo.py',CS+'host_shim.cu',CS+'host/fsa_equivalent.cc',CS+'fsa_utils.cu',CS+'host/weights.cc'],
 [('IsRandEquivalent, RandomPath',CS+'host/fsa_equivalent.cc'),('RandomFsa, RandomFsaVec',CS+'fsa_utils.cu'),('is_rand_equivalent',PY+'fsa_algo.py')])

TC='k2/torch/csrc/'
p('C29','C++ automaton objects keep values and attributes through every operation',
 "A program using the C++ library's automata (FsaClass: files, copies, connect, topological and arc sort, inversion with tensor or ragged secondary labels, shortest path, intersection, linear automata with self-loops, attribute setters and scaling) sees the same results as the Python front end would give: every arc of a result has the attributes of the arcs it comes from (-1 or 0 or an empty list where it comes from none), reported properties agree with the arcs, and no operation on one object changes another one, save the documented setters of labels and scores, which are seen by copies that share the arcs; files written by Python load as they were written. Streaming decoding with graphs carrying attributes, topologies, total scores, hypotheses (equal sequences add up), symbol tables and wave files obey the same definitions as in Python.",
 ['histories','inputs'],'all histories of operations on several named objects, all automata, batches, attribute kinds, files',
 'The C++ tests of this library are not part of the stable suite and use one literal object per operation; aliasing between copies is never looked at.',
 [TC+'fsa_class.cu',TC+'fsa_class.h',TC+'fsa_algo.cu',TC+'torch_api.cu',TC+'deserialization.cu',TC+'hypothesis.cu',TC+'symbol_table.cu',TC+'wave_reader.cu',TC+'utils.h'],
 [('FsaClass (CopyAttrs, SetScores, SetLabels, Properties)',TC+'fsa_class.cu'),('Invert, Connect, TopSort, ArcSort, ShortestPath, IntersectDevice',TC+'fsa_algo.cu')],
 state=[('fsa, properties, tensor_attrs, ragged_tensor_attrs','arcs (shared between copies), cached properties, attributes',TC+'fsa_class.h')])

p('C30','C++ offline decoding returns what the lattice and the language model say',
 "With the C++ library: GetLattice keeps exactly the paths its beams allow, with the scores of graph and frames and the graph's attributes; segments and dense scores are those asked for; BestPath, ShortestPath and GetTexts return the outputs of a best-scoring path of every utterance; Nbest::FromLattice returns one path of the lattice per distinct sampled output, Nbest::Intersect the best lattice path with the same output, its acoustic and language-model scores those of its arcs; GetBestPaths picks the sampled output with the largest total score over all lattice paths (nothing for an utterance without paths); WholeLatticeRescoring yields every lattice path with every way the language model accepts its output, the old language-model scores removed, the new ones added and scaled as asked. None of them, except the documented in-place ones, changes its operands.",
 ['inputs','configurations'],'all decoding graphs, score tensors, segments, beams, lattices (epsilons, duplicate outputs, dead ends, no path), dense and ragged outputs, language models, scales, sample counts',
 'No stable test covers the C++ decoders; upstream tests only check that the functions run on one model.',
 [TC+'decode.cu',TC+'nbest.cu',TC+'fsa_algo.cu',TC+'dense_fsa_vec.cu',TC+'torch_api.cu'],
 [('GetLattice, GetTexts, GetBestPaths, WholeLatticeRescoring',TC+'decode.cu'),('Nbest::FromLattice, Nbest::Intersect, ComputeAmScores, ComputeLmScores',TC+'nbest.cu'),('RandomPaths',TC+'fsa_algo.cu'),('CreateDenseFsaVec, GetSupervisionSegments',TC+'dense_fsa_vec.cu')])

p('C31','C++ transducer searches decode each utterance by its own frames',
 "GreedySearch emits, frame by frame and at most one symbol per frame, the most likely token in the context of the symbols emitted so far, for every utterance of a batch independently of the other utterances, their lengths and their order; blank and unknown symbols emit nothing. ModifiedBeamSearch keeps after every frame the num_active_paths most probable continuations of each utterance's hypotheses, adds up the probabilities of continuations that spell the same symbols, and returns the hypothesis with the largest log probability per symbol (the initial blanks counted); with a beam wide enough its probabilities are sums over all alignments.",
 ['inputs','configurations'],'all batches of utterances with different lengths in any order, all models (token distributions per frame and context), vocabularies, context sizes, beams',
 'No test runs these functions.',
 [TC+'beam_search.cu',TC+'hypothesis.cu',TC+'hypothesis.h'],
 [('GreedySearch, ModifiedBeamSearch, GetHypsShape, BuildDecoderInput',TC+'beam_search.cu'),('Hypotheses::Add, GetMostProbable',TC+'hypothesis.cu')])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))

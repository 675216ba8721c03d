"""Writes properties.jsonl (kept as code so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                          observe_at=observe, hook_needed=hook))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

prop('P01', 'Automatic simplification never changes what a diagram means',
 "Running any built-in ZX simplification strategy to completion leaves the linear map a diagram denotes unchanged, including its tracked global scalar, in whatever order the rewrite opportunities happen to be found and applied. (Phase teleportation, which only relocates phases, is exact up to a global factor.) The same holds for every intermediate diagram an incremental strategy hands out.",
 ['schedules', 'inputs', 'programs'],
 "every diagram (circuit-shaped or not, Clifford or not, with or without boundaries), every strategy, every order in which the rewrite matcher may pop candidates and enumerate vertices, edges and neighbours, every prefix of an incremental run",
 "tests run each strategy on a handful of circuits in the one enumeration order CPython's hash sets give small integers; the order is unspecified and changes with numbering, history and backend",
 ['pyzx/simplify.py', 'pyzx/rules.py', 'pyzx/graph/base.py', 'pyzx/graph/scalar.py'],
 [('candidate popping and neighbourhood exclusion', 'pyzx/rules.py match_*_parallel'), ('strategy loops', 'pyzx/simplify.py simp/full_reduce/...'), ('edge-table smart add', 'pyzx/graph/base.py add_edge_table')],
 ['the diagram and its scalar after every strategy, and after every yielded step'],
 [('scalar', 'tracked global factor', 'pyzx/graph/scalar.py')])

prop('P02', 'Any sequence of individual rewrites preserves what a diagram means',
 "A user may apply the built-in ZX rewrite rules one at a time or in batches, to any of the matches a rule reports, with any limit on their number and any restriction on where to look, in any sequence, and the diagram keeps denoting the same linear map up to a non-zero scalar. Matches reported for a restricted search lie within the restriction, and matches reported together can be applied together.",
 ['histories', 'schedules', 'inputs'],
 "every finite history of rule applications chosen by a scheduler (rule, search restriction, match limit, subset of matches, match order) on every diagram",
 "tests exercise each rule on one or two fixed diagrams; histories that chain different rules with partial batches are never run",
 ['pyzx/rules.py', 'pyzx/basicrules.py', 'pyzx/editor_actions.py', 'pyzx/simplify.py'],
 [('match/rewrite pairs', 'pyzx/rules.py'), ('single-step rules', 'pyzx/basicrules.py'), ('operation table', 'pyzx/editor_actions.py')],
 ['the diagram after every applied rule'])

prop('P03', 'Simplification always finishes, in its promised form, adding no T gates',
 "Every simplification strategy terminates whatever order it finds matches in, and a finished run leaves no opportunity for its own rules: the reduced diagram is in the form the strategy promises and running the strategy again changes nothing of substance. The number of non-Clifford phases never goes up.",
 ['schedules', 'inputs'],
 "every finite diagram, every matcher order; progress is counted in bounded rewrite steps",
 "a test can only observe that the sampled runs ended; termination and normal form must hold for every order",
 ['pyzx/simplify.py', 'pyzx/rules.py', 'pyzx/graph/base.py'],
 [('loops until no match', 'pyzx/simplify.py simp'), ('T-count', 'pyzx/simplify.py tcount'), ('graph-like form', 'pyzx/simplify.py to_graph_like/is_graph_like')],
 ['rewrite-step counter, shape of the final diagram, T-count before and after'])

prop('P04', 'Circuit extraction yields a circuit equal to the diagram',
 "Whenever a diagram obtained from a circuit by running the reduction strategies to completion is turned back into a circuit, extraction succeeds and the circuit implements the original unitary up to a global phase, whichever simplification order produced the diagram and whichever extraction order and options are used. When a permutation is left implicit on request, adding it back gives the original unitary.",
 ['schedules', 'inputs', 'configurations'],
 "every circuit, every simplification schedule, every candidate order inside the extractor, every combination of extractor options",
 "tests extract from a few random circuits in one order; which Gaussian-elimination and pivot choices occur depends on the order",
 ['pyzx/extract.py', 'pyzx/gadget_extract.py', 'pyzx/linalg.py', 'pyzx/simplify.py'],
 [('frontier extraction', 'pyzx/extract.py extract_circuit'), ('GF(2) elimination', 'pyzx/linalg.py'), ('normal form and lookup extraction', 'pyzx/extract.py')],
 ['the returned circuit'])

prop('P05', 'Circuit optimisers preserve the unitary for every random choice they make',
 "Every circuit-to-circuit optimiser returns a circuit on the same qubits implementing the same unitary up to global phase, for every random choice it makes and every way its phase-polynomial solver answers correctly, and leaves the caller's circuit unitary unchanged. Phase teleportation keeps the circuit's gate layout, and none of them increases the T-count.",
 ['inputs', 'schedules', 'fault_sequences'],
 "every Clifford+T circuit, every outcome of the random column orders, every answer of the external solver (correct, failing or malformed)",
 "tests run the optimisers on fixed circuits with whatever the random generator gives; the external-solver path is never run",
 ['pyzx/optimize.py', 'pyzx/todd.py', 'pyzx/simplify.py', 'pyzx/parity_network.py'],
 [('delayed gate placement', 'pyzx/optimize.py Optimizer'), ('TODD', 'pyzx/todd.py'), ('phase teleportation', 'pyzx/simplify.py teleport_reduce')],
 ['the returned circuit and the caller\'s circuit'])

prop('P06', 'Randomised local search only ever returns equivalent diagrams',
 "Simulated annealing and genetic search over congruent diagrams return a diagram that denotes the same linear map up to a non-zero scalar as the one supplied, for every sequence of random draws, and it is one with the best score the search came across. They do not modify the diagram they were given, and separate searches do not influence each other.",
 ['inputs', 'schedules', 'histories'],
 "every starting diagram, every outcome of every random draw, every population size, any number of earlier searches in the process",
 "tests do not run local search at all; its behaviour is a function of hundreds of random draws",
 ['pyzx/local_search/simulated_annealing.py', 'pyzx/local_search/genetic.py', 'pyzx/local_search/congruences.py', 'pyzx/local_search/scores.py'],
 [('random local complement / pivot', 'congruences.py'), ('accept/reject loop', 'simulated_annealing.py'), ('population', 'genetic.py')],
 ['returned diagram, supplied diagram'])

prop('P07', 'Stabiliser-decomposition simulation is exact for every random choice',
 "Decomposing a diagram into a sum of stabiliser terms, with magic states picked in any order, gives terms whose sum is exactly the value of the diagram, and each replacement step preserves the sum. Amplitudes, norms and measurement outcomes computed this way agree with the state the diagram denotes.",
 ['inputs', 'schedules'],
 "every Clifford+T diagram small enough to evaluate, every choice of which magic states to replace next, every matcher order during the intermediate simplifications",
 "tests decompose a couple of circuits with one seed",
 ['pyzx/simulate.py', 'pyzx/graph/scalar.py', 'pyzx/simplify.py'],
 [('magic-state decompositions', 'pyzx/simulate.py replace_magic_states'), ('scalar bookkeeping', 'pyzx/graph/scalar.py')],
 ['sum of the terms, computed scalars'])

prop('P08', 'Routing implements the requested map using only allowed couplings',
 "For every connected architecture and every random or search decision made on the way, routed CNOT circuits and routed phase polynomials implement exactly the requested linear map (up to the qubit permutation they report) and every two-qubit gate acts on a coupled pair of qubits. This holds whatever order parallel search workers finish in.",
 ['inputs', 'schedules', 'configurations', 'fault_sequences'],
 "every invertible parity map and phase polynomial, every supported architecture and method, every draw of the genetic and swarm optimisers, every worker completion order",
 "tests use small fixed sizes and whatever the random generator gives; worker scheduling is not controlled",
 ['pyzx/routing/cnot_mapper.py', 'pyzx/routing/steiner.py', 'pyzx/routing/architecture.py', 'pyzx/routing/phase_poly.py', 'pyzx/routing/machine_learning.py', 'pyzx/routing/parity_maps.py'],
 [('Steiner-tree elimination', 'steiner.py'), ('permutation search', 'machine_learning.py'), ('phase polynomial synthesis', 'phase_poly.py')],
 ['returned circuits, permutations, gate positions'])

prop('P09', 'The graph structure stays consistent under every edit history',
 "After any sequence of edits, the diagram's reported vertices, edges, degrees, neighbours, types, phases, boundary lists and counts agree with each other and with a simple reference model of the same edits. Adding parallel edges through the rewriting interface follows the diagram calculus, and undocumented side effects never occur.",
 ['histories', 'inputs'],
 "every finite sequence of public edit operations, on every bundled backend",
 "tests perform a few fixed edits; consistency is a claim about all histories",
 ['pyzx/graph/base.py', 'pyzx/graph/graph_s.py', 'pyzx/graph/multigraph.py', 'pyzx/graph/graph.py'],
 [('adjacency dictionaries', 'graph_s.py'), ('edge objects', 'multigraph.py'), ('smart edge addition', 'base.py add_edge_table')],
 ['every public query after every edit'],
 [('adjacency', 'vertex -> neighbour -> edge type', 'graph_s.py graph')])

prop('P10', 'Copies and derived objects are independent of their originals',
 "Editing or simplifying a copy, clone, adjoint, sub-diagram, composition, tensor product or converted form of a diagram or circuit never changes the original or any sibling, and vice versa. Operations that are documented to return a new object leave their arguments as they were.",
 ['histories', 'inputs'],
 "every interleaving of derive and mutate operations over a family of related diagrams and circuits, on every bundled backend",
 "aliasing shows only when a particular derivation is followed by a particular mutation; tests check single pairs",
 ['pyzx/graph/base.py', 'pyzx/graph/graph_s.py', 'pyzx/graph/multigraph.py', 'pyzx/circuit/__init__.py', 'pyzx/circuit/gates.py', 'pyzx/graph/scalar.py', 'pyzx/optimize.py', 'pyzx/extract.py'],
 [('copy/clone', 'base.py, graph_s.py'), ('gate copies', 'circuit/gates.py'), ('defensive copies', 'simplify.py teleport_reduce, optimize.py')],
 ['full observable state of every live object after each operation'])

prop('P11', 'Replaying recorded differences reproduces the diagram at every replica',
 "Applying the difference recorded between two versions of a diagram to the older version yields a diagram denoting the same map as the newer one, with the same vertices, edges, phases and positions, also after the difference has been written out and read back. A replica that applies a stream of differences in order, crashing and restarting from its last saved state, ends equal to the primary.",
 ['histories', 'crash_points', 'fault_sequences'],
 "every edit history cut into versions at any points, every restart point, every delivery of the serialised differences",
 "tests apply a single difference between two fixed graphs",
 ['pyzx/graph/diff.py', 'pyzx/graph/jsonparser.py', 'pyzx/graph/base.py'],
 [('difference computation', 'diff.py calculate_diff'), ('application', 'diff.py apply_diff'), ('serialisation', 'diff.py to_json/from_json')],
 ['primary and replica after each version'])

prop('P12', 'A saved diagram, reloaded at any point, continues as if never interrupted',
 "Saving a diagram at any point of a rewriting session and reloading it in a fresh process gives a diagram with the same meaning, scalar, boundary order, layout and annotations, from which the session can continue. TikZ text of a diagram without Hadamard edges at its boundary reads back as the same vertices, phases and edges, laid out to two decimals. A save file cut short by a crash is rejected on load rather than read as a different diagram.",
 ['crash_points', 'histories', 'inputs'],
 "every point of every rewriting session, every vertex and edge kind, every truncation point of the saved text",
 "tests save and load a few fresh graphs; graphs in the middle of a session have gaps in numbering, names from earlier loads, and non-trivial scalars",
 ['pyzx/graph/jsonparser.py', 'pyzx/graph/scalar.py', 'pyzx/graph/base.py', 'pyzx/tikz.py'],
 [('JSON writer and reader', 'jsonparser.py'), ('scalar serialisation', 'scalar.py')],
 ['the reloaded diagram'])

prop('P13', 'The interactive editor never loses, corrupts or silently changes a proof',
 "However front-end messages are delayed or interleaved with the buttons for rewriting, undo, redo and reset, every rewrite the editor performs preserves the meaning of the diagram, undo returns exactly to the diagram before the last change and redo exactly re-does it. What the front end is last sent always matches the diagram the editor holds.",
 ['histories', 'schedules', 'fault_sequences'],
 "every sequence of user actions and every delivery of front-end messages (delayed, duplicated, late selections), every vertex and edge selection",
 "there are no tests for the editor; its behaviour depends on message timing between browser and kernel",
 ['pyzx/editor.py', 'pyzx/editor_actions.py', 'pyzx/graph/diff.py'],
 [('undo stack', 'editor.py'), ('operation table', 'editor_actions.py'), ('graph synchronisation', 'editor.py')],
 ['kernel-side diagram, last message to the front end, undo/redo results'])

prop('P14', 'Command-line tools write the right circuit or fail without damage',
 "When the optimiser, converter or generator command reports success, the destination holds a complete file that denotes the same circuit as the source. When reading, parsing, converting, opening or writing fails, the failure is reported and, unless the write itself was already under way, an existing destination (including the source when converting in place) is left as it was.",
 ['fault_sequences', 'crash_points', 'inputs', 'configurations'],
 "every supported circuit, format pair and option set; every point at which the file system returns an error, a short read or runs full, or the process is killed",
 "tests run the commands on healthy disks only",
 ['pyzx/scripts/circ2circ.py', 'pyzx/scripts/circ2tikz.py', 'pyzx/scripts/circuit_router.py', 'pyzx/scripts/phase_poly_generator.py', 'pyzx/scripts/cnot_generator.py', 'pyzx/circuit/__init__.py'],
 [('serialise before opening the destination', 'circ2circ.py main'), ('loaders', 'circuit/__init__.py')],
 ['simulated file system contents, reported outcome'])

prop('P15', 'Work on separate diagrams in separate threads does not interfere',
 "Parsing, simplifying, extracting, optimising or evaluating separate circuits and diagrams in concurrently running threads gives each thread the same result it gets when run alone. No interleaving makes an operation fail.",
 ['schedules', 'inputs'],
 "every pair or triple of library calls on disjoint objects, every line-level interleaving of their threads",
 "tests are single-threaded; shared module-level or default-argument state only shows under particular interleavings",
 ['pyzx/linalg.py', 'pyzx/extract.py', 'pyzx/simplify.py', 'pyzx/circuit/qasmparser.py', 'pyzx/utils.py', 'pyzx/optimize.py', 'pyzx/todd.py', 'pyzx/simulate.py'],
 [('per-call state', 'all listed modules')],
 ['result of each simulated thread'])

prop('P16', 'Results are reproducible: same input and seed, same output, any history',
 "Repeating a call with the same input, and the same random seed where randomness is involved, gives an identical result regardless of what the process did before and of the interpreter's string-hash seed. Deterministic operations consume no randomness and leave no state behind that changes later results.",
 ['histories', 'configurations', 'inputs'],
 "every public generator, simplifier, extractor, optimiser and search; every earlier history of calls in the process; every hash seed",
 "tests never compare a call in a fresh process with the same call after other work",
 ['pyzx/generate.py', 'pyzx/linalg.py', 'pyzx/simplify.py', 'pyzx/extract.py', 'pyzx/optimize.py', 'pyzx/todd.py', 'pyzx/local_search/genetic.py', 'pyzx/simulate.py'],
 [('global random generators only', 'generate.py, todd.py, local_search'), ('no caches between calls', 'all')],
 ['canonical form of the result'])

prop('P17', 'An interrupted simplification leaves a diagram that is still correct',
 "If a simplification is stopped at a rewrite boundary - an incremental run abandoned, or a caller-supplied filter or progress callback raising - the diagram it was working on is well formed and still denotes the same map, and simplification can be resumed from it. Strategies that return a new diagram leave their argument untouched when interrupted.",
 ['crash_points', 'inputs', 'schedules'],
 "every interruption point between rewrites, every strategy, every diagram and matcher order",
 "tests run every strategy to completion",
 ['pyzx/simplify.py', 'pyzx/rules.py'],
 [('match first, then rewrite', 'simplify.py simp'), ('incremental strategies', 'simplify.py *_iter')],
 ['the diagram after the interruption'])

prop('P18', 'Hand-offs to external programs return the right object or report an error',
 "When an external program (TOpt, TikZiT, Quantomatic) is used, its result is returned faithfully if it succeeds, and if it cannot be started, fails, or leaves unreadable or incomplete output, an error is raised rather than a wrong diagram or circuit returned. Temporary files are removed on every path.",
 ['fault_sequences', 'crash_points', 'inputs'],
 "every outcome of the external process (missing, non-zero exit, empty, truncated or garbled output, disk full while handing over) at every step of the exchange",
 "the external programs are not installed where tests run; no failure path is executed",
 ['pyzx/todd.py', 'pyzx/tikz.py', 'pyzx/quantomatic.py'],
 [('TOpt exchange', 'todd.py call_topt'), ('TikZiT exchange', 'tikz.py tikzit'), ('Quantomatic exchange', 'quantomatic.py edit_graph')],
 ['returned object, raised error, simulated temporary directory'])

prop('P19', 'Equality verdicts are never wrong when they say equal',
 "Whenever a circuit comparison, identity check or tensor comparison reports that two circuits are equal, they implement the same unitary up to global phase (or, on request, up to a qubit permutation), for every order in which the underlying reduction proceeds. For Clifford circuits the verdict is equal whenever they are.",
 ['schedules', 'inputs'],
 "every pair of circuits (equal, nearly equal, unequal), every matcher order",
 "tests compare a few circuits with themselves in one order",
 ['pyzx/circuit/__init__.py', 'pyzx/simplify.py', 'pyzx/tensor.py'],
 [('verify_equality', 'circuit/__init__.py'), ('full_reduce', 'simplify.py')],
 ['the verdict'])

prop('P20', 'Simplifying diagrams with H-boxes preserves what they mean',
 "Converting between gate, hypergraph and ZX-friendly forms and running any of the H-box simplification strategies on diagrams built from circuits with multi-controlled gates leaves the linear map they denote unchanged up to a non-zero scalar, in whatever order matches are found; every such simplification finishes.",
 ['schedules', 'inputs', 'histories'],
 "every circuit over Clifford+T and multiply-controlled Z/X gates as a diagram with H-boxes, every strategy sequence, every matcher order",
 "tests run one strategy on one or two diagrams in one order",
 ['pyzx/hsimplify.py', 'pyzx/hrules.py', 'pyzx/simplify.py'],
 [('H-box rules', 'hrules.py'), ('ZH strategy', 'hsimplify.py zh_simp'), ('form conversions', 'hsimplify.py')],
 ['the diagram after each strategy'])

prop('P21', 'Generalised-flow analysis is sound and independent of search order',
 "When the flow finder reports a flow for a graph-like diagram, the correction sets and ordering it returns satisfy the defining conditions of a (maximally delayed) generalised flow; it reports one whenever one exists, and whether it finds one does not depend on the order in which it considers vertices. Diagrams obtained from circuits by spider fusion, identity removal, local complementation and interior pivoting always have one, and a diagram with a flow can be extracted to a circuit that implements it.",
 ['schedules', 'inputs'],
 "every graph-like diagram, every processing order of the layers",
 "tests check existence on one or two diagrams",
 ['pyzx/gflow.py', 'pyzx/extract.py', 'pyzx/linalg.py'],
 [('layer-by-layer solve', 'gflow.py')],
 ['the returned flow'])

prop('P22', 'Measurement patterns give the right state for every history of outcomes',
 "Measuring qubits of a cluster state and applying Pauli corrections, in any order, with any bases, angles and random outcomes, leaves a diagram that denotes the correspondingly projected and corrected state up to a scalar. A one-way computation whose angles and corrections are adapted to earlier outcomes implements the same map whatever the outcomes were. Measuring or correcting a qubit that was already measured, or is not there, is refused and changes nothing.",
 ['schedules', 'inputs', 'histories'],
 "every cluster, measurement order, sequence of outcomes and corrections",
 "tests do not exercise measurement patterns at all",
 ['pyzx/mbqc.py', 'pyzx/simplify.py', 'pyzx/extract.py'],
 [('measurement and correction', 'mbqc.py measure, apply_pauli')],
 ['the diagram after every step', 'the extracted circuit of a completed pattern'])

prop('P23', 'Random generators deliver what was asked for, whatever is drawn',
 "Every random circuit or diagram generator (CNOT circuits, Clifford, Clifford+T and measured diagrams with given gate probabilities, CNOT-Hadamard-phase circuits, phase polynomials, random parity maps, identities) delivers, for every sequence of random draws including the ends of their ranges, what was asked for: the requested number of qubits and gates, inputs and outputs in the order of the wires, no gate of probability zero (and only the gate of probability one), a well-formed object of the promised kind (linear, diagonal, Clifford, unitary, identity), and a returned parity map that is the map of the circuit it was tracked in. It always finishes, and later requests do not change earlier results.",
 ['inputs', 'schedules'],
 "every request and every sequence of random draws",
 "tests draw a handful of typical circuits and never the ends of the ranges",
 ['pyzx/generate.py', 'pyzx/routing/parity_maps.py', 'pyzx/routing/phase_poly.py'],
 [('random generators', 'generate.py'), ('CNOT tracking', 'routing/parity_maps.py CNOT_tracker')],
 ['generated circuits and diagrams'])

prop('P24', 'A circuit is what its edit history says it is',
 "After any history of operations over a set of circuits - gates of every kind appended or prepended as objects or by name, circuits appended whole or through qubit and bit masks (also to themselves), added, tensored, copied, pickled, inverted, expanded into basic gates, split into phase gates, converted to a diagram and back, printed as QASM, .qc or Quipper text and read back - every circuit implements exactly the unitary (up to global phase), on exactly the qubits and classical bits and with the measurements in place, that its own history describes; no operation changes another circuit. Inverting gives the inverse. Statistics are those of the gates. Gates that compare equal are the same gate, and a gate equals its copy. Operations of wrong size or with unknown names are refused and change nothing. A CNOT tracker's matrix is always the parity map of its gates.",
 ['histories', 'inputs'],
 "every sequence of circuit operations over every set of gates, and every refused operation in between",
 "tests build fixed circuits and apply one operation to them",
 ['pyzx/circuit/__init__.py', 'pyzx/circuit/gates.py', 'pyzx/circuit/graphparser.py', 'pyzx/circuit/qasmparser.py', 'pyzx/circuit/qcparser.py', 'pyzx/circuit/quipperparser.py', 'pyzx/routing/parity_maps.py'],
 [('circuit operations', 'circuit/__init__.py Circuit'), ('gates', 'circuit/gates.py'), ('printers and parsers', 'circuit/gates.py to_qasm/to_qc/to_quipper, circuit/*parser.py'), ('tracker', 'routing/parity_maps.py CNOT_tracker')],
 ['circuits, diagrams, texts and statistics after every step'])

# ---- properties this family of technique cannot decide (pure functions of their input)
prop('P31', 'Tensor evaluation gives the standard interpretation of a diagram',
 "The tensor computed for a diagram is the standard interpretation of its spiders, boxes and wires, for every wiring and boundary order.",
 ['inputs'], "every diagram that fits in memory", "tests evaluate fixed diagrams",
 ['pyzx/tensor.py', 'pyzx/quimb.py'], [('tensor contraction', 'pyzx/tensor.py tensorfy')], ['the returned array'])
prop('P32', "Text from elsewhere is read by its format's standard definitions",
 "Parsing QASM, QC, Quipper or qsim text that another program wrote gives the circuit that the format's standard gate definitions describe. (Text that PyZX itself printed is part of P24.)",
 ['inputs'], "every text in each format", "tests parse fixed texts",
 ['pyzx/circuit/qasmparser.py', 'pyzx/circuit/qcparser.py', 'pyzx/circuit/quipperparser.py', 'pyzx/circuit/qsimparser.py'], [('parsers', 'circuit/*parser.py')], ['parsed circuit'])
prop('P33', 'Bit-matrix linear algebra is exact',
 "Rank, inverse, factorisation, kernel, linear solving and CNOT synthesis over the two-element field are mathematically correct for every matrix.",
 ['inputs'], "every bit matrix", "tests use random small matrices",
 ['pyzx/linalg.py'], [('Gaussian elimination', 'linalg.py Mat2.gauss')], ['returned matrices'])
prop('P34', 'Exact scalar and symbolic phase arithmetic obeys the ring laws',
 "Arithmetic on tracked scalars and on symbolic phase polynomials agrees with evaluating the operands numerically, for every expression.",
 ['inputs'], "every expression over scalars and symbols", "tests evaluate fixed expressions",
 ['pyzx/graph/scalar.py', 'pyzx/symbolic.py'], [('normal forms', 'scalar.py, symbolic.py')], ['numeric values'])
prop('P36', 'Drawings and TikZ exports show exactly the diagram they are given',
 "Exported pictures and TikZ text contain every vertex and edge of the diagram with its type, phase and position; that the text reads back is part of P12.",
 ['inputs'], "every diagram with supported vertex and edge kinds", "tests export fixed diagrams",
 ['pyzx/tikz.py', 'pyzx/drawing.py'], [('TikZ writer and reader', 'tikz.py')], ['exported text'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))

p('P01', 'Every local rewrite rule preserves the linear map, scalar included',
  'Applying any of the local ZX rewrite rules to the matches it reports leaves the linear map denoted by the diagram unchanged, including its global scalar: in any diagram for fusion, identity removal, bialgebra, local complementation and pivoting, and in graph-like diagrams for gadget and boundary pivots, copying, gadget fusion and supplementarity. The reported matches, no more than asked for, can be applied together without an error. The diagram stays well-formed.',
  ['inputs', 'programs'], 'all diagrams and all phases; decided for every diagram up to the stated size (3-5 spiders, all topologies, spider types and edge types) and all phases on the pi/4 (pi/8 for T-like) grid',
  'tests run the rules on a handful of random circuits, mostly compare up to a global scalar, and never reach overlapping matches, Z-box labels, parallel edges or degenerate neighbourhoods',
  ['pyzx/rules.py', 'pyzx/simplify.py'], [('match and rewrite functions', 'pyzx/rules.py'), ('apply_rule', 'pyzx/rules.py'), ('add_edge_table', 'pyzx/graph/base.py')],
  'all topologies/types/phases up to 3-5 spiders per rule, stars of up to 6 neighbours, both storage backends (sizes in the evidence); scalar compared exactly')
p('P02', 'Simplification strategies preserve the linear map and reach their normal form',
  'Every simplification strategy terminates, leaves the linear map unchanged including the scalar, and leaves a diagram in the form it promises (graph-like, no interior Clifford spiders, at most one gadget per target set, and so on).',
  ['inputs', 'programs'], 'all diagrams and circuits; decided up to the stated number of spiders, gates and qubits with symbolic phases',
  'tests compare numerical tensors for a few seeded random circuits up to a scalar; the strategies compose many rules whose interaction depends on topology',
  ['pyzx/simplify.py', 'pyzx/rules.py'], [('full_reduce, clifford_simp, interior_clifford_simp, reduce_scalar, supplementarity_simp, to_gh, to_rg, to_graph_like', 'pyzx/simplify.py')],
  'diagrams of 3-4 spiders and circuits of 2-3 gates on 1-2 qubits, symbolic structure and phases; scalar compared exactly')
p('P03', 'Phase teleportation only changes phases and keeps the circuit equal',
  'Reducing a diagram by phase teleportation changes nothing but the phases of its spiders and preserves the linear map up to global phase, for every diagram and every phase assignment; a phase that vanishes is accounted for elsewhere. The T-count never increases.',
  ['inputs', 'programs'], 'all circuits and graph-like diagrams with arbitrary phases, bounded by size',
  'tests check two seeded circuits numerically; bookkeeping errors appear only for particular orders of fusion and negation',
  ['pyzx/simplify.py', 'pyzx/rules.py'], [('Simplifier, teleport_reduce, phase_free_simp', 'pyzx/simplify.py'), ('phase_index/phase_mult bookkeeping', 'pyzx/graph/base.py')],
  'graph-like diagrams with 3-4 spiders and 2-qubit circuits, symbolic phases')
p('P04', 'Extracted circuits implement the diagram they were extracted from',
  'Whenever circuit extraction returns a circuit from a diagram, that circuit implements the same linear map up to a global scalar (and up to the reported permutation when asked to leave it out), for every extraction option. Extraction succeeds on every diagram obtained by the reduction strategies from a circuit.',
  ['inputs', 'programs', 'configurations'], 'all graph-like diagrams with gflow and all circuits, and all option settings, bounded by size',
  'tests extract from a few seeded circuits with the default options',
  ['pyzx/extract.py', 'pyzx/linalg.py'], [('extract_circuit, extract_simple, clean_frontier, neighbors_of_frontier, graph_to_swaps, bi_adj, extract_clifford_normal_form', 'pyzx/extract.py')],
  '2-3 qubit circuits and graph-like diagrams, all options symbolic; circuits applied by an independent gate semantics')
p('P05', 'Every gate denotes the same unitary in every representation',
  'For every gate, its matrix, its expansion into basic gates, its translation to a ZX-diagram, and its adjoint, repositioned and compared versions agree with the documented unitary, for every qubit assignment and angle. Two gates compare equal exactly when they are the same operation on the same qubits.',
  ['inputs', 'configurations'], 'every gate kind, all qubit assignments on a register, all angles on the grid',
  'tests check a few gates at one angle; gates with several parameters, controlled and rarely used ones, and permuted qubits are not reached',
  ['pyzx/circuit/gates.py'], [('gate classes: to_basic_gates, to_graph, to_adjoint, reposition, __eq__, split_phases', 'pyzx/circuit/gates.py')],
  'all gate classes, registers of 1-4 qubits, angles on the pi/8 grid (polynomial in the angle: exact)')
p('P06', 'Stored diagrams are exactly what was built, whatever the order of edits',
  'After any sequence of edits through the public interface, the accessors agree with each other and with the requested diagram; parallel edges and self-loops that are merged on insertion preserve the linear map with its scalar. Copies and clones, in the same or another storage backend, are equal to and independent of the original, and the adjoint copy denotes the adjoint.',
  ['histories', 'inputs', 'configurations'], 'all edit sequences up to the stated length, over both storage backends, all vertex and edge types and phases',
  'tests exercise a few fixed edit sequences; the merging rules depend on combinations of vertex types, edge types, multiplicities and order',
  ['pyzx/graph/base.py', 'pyzx/graph/graph_s.py', 'pyzx/graph/multigraph.py'], [('add_edge, add_edges, add_edge_table, remove_vertices, clone', 'pyzx/graph/graph_s.py, pyzx/graph/multigraph.py'), ('copy, adjoint', 'pyzx/graph/base.py')],
  '2-3 spiders with 3 symbolic edges; edit histories of 2-3 symbolic operations from 12 kinds')
p('P07', 'Combining diagrams combines their linear maps',
  'Composing diagrams, taking their tensor product, adding, merging or taking subgraphs of them, plugging states and effects, and applying boundary surgery yield the diagram of the corresponding combination of linear maps, scalar included, with inputs and outputs in order. They leave their arguments unchanged, and identity tests only succeed for identities.',
  ['inputs', 'histories', 'configurations'], 'all pairs of diagrams, in every pair of storage backends; decided up to the stated size',
  'tests compose a few seeded circuits; direct input-output wires, Hadamard boundaries, permuted boundaries and mixed backends are not reached',
  ['pyzx/graph/base.py'], [('compose, tensor, merge, subgraph_from_vertices, apply_state, apply_effect, is_id, normalize, auto_detect_io', 'pyzx/graph/base.py')],
  'diagrams with 1-2 spiders and up to 4 boundaries each; scalar compared exactly')
p('P08', 'Scalars denote the number they accumulate, in every representation',
  'A scalar object denotes the product of everything accumulated in it, under any sequence of updates, multiplication, conjugation and copying, and its conversions to a complex number, text, LaTeX, dictionaries and JSON denote the same number.',
  ['histories', 'inputs'], 'all sequences of updates with all phases; decided up to the stated length',
  'tests never compare most factors, and approximate ones do not exercise zero, large powers or unusual phases',
  ['pyzx/graph/scalar.py'], [('Scalar', 'pyzx/graph/scalar.py'), ('cexp', 'pyzx/graph/scalar.py')],
  '2-3 updates of 12 kinds with symbolic phases; numbers compared exactly')
p('P09', 'The tensor of a diagram is its linear map',
  'The tensor or matrix computed from a diagram or circuit is the linear map the diagram denotes, scalar included, whatever the positions and order of its vertices. Comparison of tensors and unitarity tests decide proportionality or equality of maps.',
  ['inputs', 'configurations'], 'all diagrams including H-boxes, Z-boxes and W-nodes, all vertex positions and orders of inputs and outputs; bounded by size',
  'every numerical test of the repository trusts this code; a convention error on both sides of a comparison cancels out',
  ['pyzx/tensor.py'], [('tensorfy, tensor_to_matrix, compose_tensors, adjoint, compare_tensors, find_scalar_correction, is_unitary', 'pyzx/tensor.py')],
  'up to 3 vertices and 4 boundaries; entries compared as exact polynomials in the phases')
p('P10', 'Circuits convert to and from diagrams and combine faithfully',
  'The diagram of a circuit denotes the circuit, including ancillas, measurements and discarded bits, and the circuit read off a circuit-like diagram denotes the diagram while other diagrams are refused. Adjoints, copies, expansions, sums, tensor products and repositioned circuits denote the corresponding combinations, leave their arguments alone and keep all registers. The reported gate counts and depths are those of the circuit.',
  ['inputs', 'histories', 'configurations'], 'all circuits and circuit-like diagrams; decided up to 3 qubits and 3 gates of any kind with symbolic angles',
  'tests use a few fixed gate sequences up to scalar, with no permuted masks, vertical X-X edges, ancillas or classical bits',
  ['pyzx/circuit/__init__.py', 'pyzx/circuit/graphparser.py', 'pyzx/circuit/gates.py'], [('Circuit', 'pyzx/circuit/__init__.py'), ('graph_to_circuit, circuit_to_graph', 'pyzx/circuit/graphparser.py'), ('TargetMapper, Measurement, DiscardBit', 'pyzx/circuit/gates.py')],
  '2-3 qubits, 1-3 gates of symbolic kind, and 2 symbolic gates on registers of 11-13 qubits; maps compared exactly up to a global scalar')
p('P11', 'Circuits survive being written as QASM, .qc or Quipper and read back',
  'Writing a circuit as OpenQASM 2, OpenQASM 3, .qc or Quipper text and reading the text back gives a circuit on the same qubits that denotes the same map, angles included. A circuit the format cannot express is refused rather than written wrongly. The format of a file is recognised.',
  ['inputs', 'configurations'], 'all circuits; decided for every gate kind and its adjoint on every qubit assignment, and short gate sequences, angles on a grid and selected other values',
  'tests compare a few QASM gates; the other formats and unusual gates and angles are not reached',
  ['pyzx/circuit/gates.py', 'pyzx/circuit/qasmparser.py', 'pyzx/circuit/qcparser.py', 'pyzx/circuit/quipperparser.py'], [('to_qasm, to_qc, to_quipper', 'pyzx/circuit/gates.py'), ('QASMParser', 'pyzx/circuit/qasmparser.py'), ('parse_qc', 'pyzx/circuit/qcparser.py'), ('parse_quipper_block', 'pyzx/circuit/quipperparser.py'), ('determine_file_type', 'pyzx/circuit/__init__.py')],
  '1-2 gates on 2-3 qubits and on registers of 11-13 qubits; angles multiples of pi/4 to pi/8 and 18 non-dyadic values')

p('P12', 'Circuit parsers give programs the meaning their language defines',
  'Parsing an OpenQASM 2 or 3, .qc, Quipper or qsim program yields a circuit that denotes the map the language assigns to the program: gate meanings, operand order, several registers, whole-register operands, gate definitions, controls, angle expressions and free layout. Programs outside the supported subset are refused, never misread.',
  ['inputs', 'programs'], 'all programs of the supported languages; decided for programs of up to 3 statements assembled from symbolic choices',
  'tests parse a few fixed programs; the mapping of each gate name, operand order, nested definitions and expressions multiplies beyond what tests sample',
  ['pyzx/circuit/qasmparser.py', 'pyzx/circuit/qcparser.py', 'pyzx/circuit/quipperparser.py', 'pyzx/circuit/qsimparser.py'], [('QASMParser', 'pyzx/circuit/qasmparser.py'), ('parse_qc', 'pyzx/circuit/qcparser.py'), ('parse_quipper_block', 'pyzx/circuit/quipperparser.py'), ('parse_qsim', 'pyzx/circuit/qsimparser.py'), ('qasm_gate_table', 'pyzx/circuit/gates.py')],
  'programs of 1-3 statements, 1-4 qubits, every gate name and operand order, 29 forms of angle expressions')
p('P13', 'Diagrams survive being written as JSON and read back',
  'Writing a diagram as JSON and reading it into any storage backend gives a diagram with the same vertices, types, phases, labels, positions, names, edges, inputs and outputs, that denotes the same map with its scalar. JSON in the Quantomatic format, with explicit Hadamard nodes and parallel wires, is given its meaning.',
  ['inputs', 'configurations'], 'all diagrams; decided up to 3 vertices of any kind and 2 boundaries with symbolic topology, in every pair of backends',
  'tests convert one or two diagrams; generated names that clash, unusual labels and phases, parallel edges and boundary orders are not reached',
  ['pyzx/graph/jsonparser.py', 'pyzx/graph/base.py', 'pyzx/symbolic.py'], [('json_to_graph, graph_to_json, string_to_phase', 'pyzx/graph/jsonparser.py'), ('add_edge_table', 'pyzx/graph/base.py'), ('parse', 'pyzx/symbolic.py')],
  '1-3 vertices, 2 boundaries, both backends; 18 labels, 8 odd phases, 22 symbolic phases')
p('P14', 'Diagrams survive being drawn as TikZ and read back',
  'The TikZ picture of a diagram, or of a sequence of diagrams, read back gives the vertices, phases, labels and wires that were drawn, and so the same map up to a scalar. Hand-written pictures mean what they show: node and edge styles, phase labels, parallel edges, overlapping nodes; anything else is refused.',
  ['inputs', 'configurations'], 'all diagrams and pictures; decided up to 3 vertices of any kind, 2 boundaries, 27 label forms and 9 edge styles',
  'tests convert a single diagram and only look at vertex and edge counts',
  ['pyzx/tikz.py'], [('_to_tikz, to_tikz_sequence, tikz_to_graph', 'pyzx/tikz.py')],
  '1-3 vertices, 2 boundaries, both backends; 24 labels, 27 label forms')
p('P15', 'Linear algebra over GF(2) computes what it says',
  'Gaussian elimination yields the echelon or reduced form together with the row operations that produce it, for every matrix and block size; ranks, inverses, solutions, factorisations and nullspaces are correct and absent exactly when they do not exist. The CNOT circuit of an invertible matrix implements it, and indexing and elementary operations follow their definitions without changing other matrices.',
  ['inputs', 'configurations'], 'all matrices; decided for every matrix up to 3x4 (quick) or 4x4 and 3x5 (thorough) and several block sizes, entries being solver variables',
  'tests use four fixed matrices and the default block size',
  ['pyzx/linalg.py'], [('Mat2', 'pyzx/linalg.py'), ('CNOTMaker', 'pyzx/linalg.py')],
  'every 0/1 matrix of the stated shapes, block sizes 1-6; matrices of 8 rows with some symbolic rows')
p('P16', 'CNOT circuits routed for a device implement the matrix on its couplings',
  'Steiner-tree elimination of an invertible matrix yields CNOTs only between coupled qubits that implement the matrix, under every placement and permutation asked for and for sequences of matrices; it returns the rank and the echelon form. The tracker of row and column operations holds their product, gates and metrics. Shortest paths, distances, cutting vertices, reduction orders and Steiner trees of devices satisfy their definitions.',
  ['inputs', 'configurations', 'histories'], 'all matrices on all devices; decided for 3-qubit matrices on every device, families of 4 and 5 qubit matrices and the devices of the package, all subsets, roots and permutations',
  'tests route random matrices on five devices in one mode, and leave the graph algorithms, partial elimination and permutations to chance',
  ['pyzx/routing/architecture.py', 'pyzx/routing/cnot_mapper.py', 'pyzx/routing/parity_maps.py', 'pyzx/routing/steiner.py'], [('Architecture, create_architecture', 'pyzx/routing/architecture.py'), ('gauss, permuted_gauss, sequential_gauss', 'pyzx/routing/cnot_mapper.py'), ('CNOT_tracker, Parity', 'pyzx/routing/parity_maps.py'), ('steiner_gauss, rec_steiner_gauss', 'pyzx/routing/steiner.py')],
  '3-5 qubits, every coupling graph up to 4 qubits, 17 devices of the package; the random optimisers are replaced by an arbitrary permutation')
p('P17', 'Rules and strategies for diagrams with H-boxes preserve the linear map',
  'Every rewrite rule for H-boxes (conversion to and from Hadamard edges, fusion, copying, parallel and introduction rules, zero H-boxes, hyperpivot), and the hypergraph and ZH simplification strategies built on them, terminate with a diagram that denotes the same linear map, scalar included. A rule does not match where it does not apply.',
  ['inputs', 'configurations'], 'all ZH diagrams; decided up to 4 H-boxes and spiders with symbolic types, wires and phases, hypergraphs of 3-4 spiders and 3-qubit circuits with multiply controlled gates',
  'tests exercise the hyperpivot and one strategy on a handful of random circuits up to scalar, and no single H-box rule',
  ['pyzx/hrules.py', 'pyzx/hsimplify.py', 'pyzx/rules.py'], [('match_* and rewrite functions', 'pyzx/hrules.py'), ('to_hypergraph_form, from_hypergraph_form, hadamard_simp, hpivot_simp, zh_simp', 'pyzx/hsimplify.py'), ('spider, remove_ids', 'pyzx/rules.py')],
  '2-4 H-boxes and spiders, every wiring and edge type, phases multiples of pi/4; simple graph backend')
p('P18', 'Single rewrites at selected places preserve the linear map',
  'Every operation the editor offers, applied to any selection of vertices or edges, and every basic rule applied to chosen vertices, leaves the linear map of the diagram unchanged, scalar included. A basic rule changes the diagram exactly when its check succeeds, and a check never changes it. Changing the colour of a whole diagram puts a Hadamard on every boundary.',
  ['inputs', 'configurations'], 'all diagrams and selections; decided up to 3 vertices (5 in chains) of every type with symbolic wires, phases and selections',
  'tests check a dozen fixed applications of the basic rules and none of the editor operations',
  ['pyzx/basicrules.py', 'pyzx/editor_actions.py', 'pyzx/rules.py', 'pyzx/hrules.py'], [('check_* and rule functions, color_change_diagram', 'pyzx/basicrules.py'), ('operations, pauli_push, euler_expansion, add_Z_identity, bialgebra', 'pyzx/editor_actions.py')],
  '2-5 vertices, every wiring and edge type, phases multiples of pi/4, every selection')
p('P19', 'Differences between two diagrams can be applied, undone and stored',
  'Applying the difference of two diagrams to the first gives the second: the same numbered vertices with their types, phases, positions and data, and the same edges with their multiplicity and types. The reverse difference undoes it, a difference written as JSON and read back does the same, and neither diagram is changed or shares data with the result.',
  ['inputs', 'configurations', 'histories'], 'all pairs of diagrams over the same vertex numbers; decided up to 3 vertices whose every attribute, and every edge between them, is chosen independently in both diagrams',
  'no test covers differences; the attributes of new vertices, parallel edges, changing types and symbolic phases multiply beyond a handful of examples',
  ['pyzx/graph/diff.py', 'pyzx/graph/graph_s.py', 'pyzx/graph/multigraph.py', 'pyzx/graph/jsonparser.py'], [('GraphDiff', 'pyzx/graph/diff.py'), ('add_vertex_indexed, remove_edges, remove_vertices', 'pyzx/graph/graph_s.py'), ('add_edge, set_edge_type, remove_edge', 'pyzx/graph/multigraph.py'), ('string_to_phase, phase_to_string', 'pyzx/graph/jsonparser.py')],
  '2-4 vertices, both backends, up to 2 parallel edges of each kind, phases multiples of pi/4 (6 listed fractions through JSON)')
p('P20', 'Phases with variables mean the same before and after computing with them',
  'Arithmetic, substitution, parsing and printing of symbolic phases agree, modulo 2, with what they do to the values of the variables; phases are equal exactly when they have the same values, and those that count as Pauli or Clifford are so for all values. Rewriting, teleporting, composing or adjoining a diagram with symbolic phases and then giving the variables values yields the same map as the other way round.',
  ['inputs', 'configurations'], 'all symbolic phases and diagrams; decided for polynomials of up to 2 terms in 2 real and 2 Boolean variables (all real values) and diagrams of up to 4 spiders with variables in steps of pi/4',
  'tests hardly touch symbolic phases; cancelling variables, constants in disguise, Boolean variables and scalars that depend on variables are not reached',
  ['pyzx/symbolic.py', 'pyzx/rules.py', 'pyzx/simplify.py', 'pyzx/basicrules.py', 'pyzx/graph/scalar.py', 'pyzx/utils.py'], [('Poly, Term, Var, parse', 'pyzx/symbolic.py'), ('pivot, lcomp, match_phase_gadgets, match_supplementarity', 'pyzx/rules.py'), ('full_reduce, teleport_reduce', 'pyzx/simplify.py'), ('strong_comp, pi_commute_Z', 'pyzx/basicrules.py'), ('Scalar', 'pyzx/graph/scalar.py')],
  'polynomials of degree 2 with 4 coefficients; 2-4 spiders, 22 symbolic phases; division by polynomials and powers of sums left out')
p('P21', 'Phase polynomials are routed exactly and only along the couplings of the device',
  'The phase polynomial read off a circuit of CNOTs and Z rotations has the parities, phases and output parities of the circuit. Every synthesis method returns, for every device, heuristic and option, a circuit with the same phase polynomial, up to the reported placements, that uses CNOTs only between coupled qubits. Matroid partitioning returns bases that cover all parities, as few as possible.',
  ['inputs', 'configurations'], 'all phase polynomials, devices, methods and heuristics; decided for 3 and 4 qubits',
  'tests route by one method on one device; the others, their options, heuristics and placements are never run',
  ['pyzx/routing/phase_poly.py', 'pyzx/generate.py'], [('route_phase_poly, PhasePoly', 'pyzx/routing/phase_poly.py'), ('Parity, CNOT_tracker', 'pyzx/routing/parity_maps.py'), ('phase_poly_from_gadgets', 'pyzx/generate.py')],
  'sets of up to 7 parities of 3 qubits and 3 parities of 4 qubits, phases k/4, connected devices of 3 and 4 qubits')
p('P22', 'The peephole optimiser returns an equivalent circuit',
  'Optimising any circuit of Hadamards, NOTs, Z rotations, CNOTs, CZs and swaps, with or without commutation by swaps and with the corrections returned apart, yields a circuit with the same linear map up to a global phase, made of the same kinds of gates. Without swaps no gate joins qubits that did not interact. The argument is not changed, and other gates are refused or handled correctly.',
  ['inputs', 'configurations'], 'all circuits; decided for circuits of 2 and 3 qubits of up to 6 gates with every gate, qubit and angle (multiples of pi/4) a solver variable',
  'tests optimise random circuits; the order of commutations, cancellations and swaps that goes wrong is rare',
  ['pyzx/optimize.py'], [('Optimizer, basic_optimization', 'pyzx/optimize.py')],
  '3-6 gates on 2 qubits, 3-4 gates on 3 qubits, and symbolic gates around 16 fixed words')
p('P23', 'Phase polynomial optimisation preserves the linear map',
  'Removing columns of a parity matrix by TODD never changes its cubic form and never adds columns; the phase functions, polynomials and Clifford corrections agree with their definitions. Parity networks implement the parities and output asked for. Optimising the phase blocks of a circuit, or the phase gadgets of a diagram, for every random order of columns, preserves the linear map up to a global phase.',
  ['inputs', 'configurations', 'schedules'], 'all matrices, circuits and diagrams; decided up to 4x5 matrices, 5 gates on 3 qubits and 4 phase gadgets; every order of up to 3 columns',
  'tests optimise random circuits with one random order, and no diagram, matrix or parity network directly',
  ['pyzx/todd.py', 'pyzx/optimize.py', 'pyzx/parity_network.py'], [('todd_simp, todd_on_graph, find_todd_match, ParityPolynomial', 'pyzx/todd.py'), ('phase_block_optimize, full_optimize', 'pyzx/optimize.py'), ('parity_network', 'pyzx/parity_network.py')],
  '2-4 rows, up to 5 columns, symbolic entries; 3-5 gates; the external TOpt program left out')
p('P24', 'A generalised flow is found exactly when one exists',
  'For every graph-like diagram or measurement pattern the search returns a generalised flow, whose correction sets avoid inputs and only touch later vertices, whenever there is one, and nothing otherwise; its layers are the latest possible for every vertex. The diagram is not changed, and diagrams of circuits keep a flow under simplification that makes no phase gadgets.',
  ['inputs', 'configurations'], 'all open graphs; decided up to 5 vertices with every wire and boundary symbolic, against every other flow',
  'no test covers the search; wrong answers need particular wirings, and absence of a flow cannot be tested by example',
  ['pyzx/gflow.py', 'pyzx/extract.py', 'pyzx/linalg.py'], [('gflow', 'pyzx/gflow.py'), ('bi_adj', 'pyzx/extract.py'), ('Mat2.solve', 'pyzx/linalg.py')],
  '3-5 vertices, 0-2 inputs, 1-3 outputs, grounds; circuits of 3-5 gates; measurements in the XY plane')
p('P25', 'Simulation by sums of stabiliser diagrams is exact',
  'Replacing magic states, and decomposing a diagram into stabiliser diagrams, for any choice of spiders, yields terms without T-like spiders whose maps sum to the map of the diagram, scalars included, in no more terms than announced. Path sums, post-selection, inner products with random equatorial states, sums as tensors and reductions of sums agree with the maps of the terms. Samples follow the conditional probabilities of the outcomes.',
  ['inputs', 'configurations', 'schedules'], 'all Clifford+T diagrams in graph-like form; decided up to 4 spiders and 2 gadgets, six T-like spiders with any context, and 2-3 outputs',
  'tests compare one decomposition of random circuits; terms for six spiders, path sums, post-selection and sampling are not run',
  ['pyzx/simulate.py', 'pyzx/simplify.py', 'pyzx/graph/scalar.py'], [('SumGraph', 'pyzx/simulate.py'), ('replace_magic_states, find_stabilizer_decomp, calculate_path_sum', 'pyzx/simulate.py'), ('reduce_scalar, full_reduce', 'pyzx/simplify.py')],
  '2-4 spiders, phases k/4 or odd multiples, every random choice; the norm estimates used in sampling are replaced by exact norms')
p('P26', 'Local search only moves between equivalent diagrams and keeps the best',
  'Pivots, local complementations and unfusing applied at any allowed place of a diagram preserve its linear map up to a scalar. Annealing and genetic optimisation, for every random choice, return a diagram with the same map whose score is the best seen and never worse than that of the argument, which is not changed. New generations consist of separate copies of members of the old one.',
  ['inputs', 'configurations', 'schedules', 'histories'], 'all graph-like diagrams; decided up to 4 spiders (5 thorough), 2 annealing steps, 2 mutants and 1 generation with all random choices',
  'no test covers local search; its random choices, dead ends and shared members are out of reach of examples',
  ['pyzx/local_search/congruences.py', 'pyzx/local_search/genetic.py', 'pyzx/local_search/simulated_annealing.py', 'pyzx/local_search/scores.py'], [('pivot_cong, lc_cong, lc_cong2, unfuse, apply_rand_*', 'pyzx/local_search/congruences.py'), ('GeneticOptimizer', 'pyzx/local_search/genetic.py'), ('anneal', 'pyzx/local_search/simulated_annealing.py')],
  '3-4 spiders, any wires; circuits of 2-3 gates on 2 qubits; the number of edges as score in whole runs')
p('P27', 'Measurement patterns on cluster states denote the maps they describe',
  'A cluster state is the graph state of its grid with an output at every place and inputs where asked. Any sequence of measurements and Pauli corrections, at any places, in any bases and with any angles, yields the diagram of the cluster state followed by those operations, up to a scalar, with the other outputs in order. Operations on missing or measured qubits or with impossible phases are refused and change nothing.',
  ['inputs', 'histories'], 'all grids, inputs and histories; decided for grids up to 2x3 and histories of 2-5 operations with symbolic angles',
  'no test covers measurement patterns; corrections interact with earlier ones only in particular sequences',
  ['pyzx/mbqc.py'], [('cluster_state, measure, apply_pauli', 'pyzx/mbqc.py')],
  'grids of 1-6 qubits, 2-5 operations; lines of 4 qubits with all outcomes and corrections')
p('P28', 'Generated circuits and diagrams are what their parameters ask for',
  'For every outcome of the random choices, the generators of CNOT, Clifford, Clifford+T and phase polynomial circuits, of parity maps and of diagrams with measurements return a diagram or circuit with the number and kinds of gates asked for, inputs and outputs in the order of the qubits, and the map of its gates, scalar included; parity maps belong to the circuits built with them. The circuits announced to be identities are, for all angles. Single spiders and identities are exact.',
  ['inputs', 'configurations', 'schedules'], 'all parameters and random choices; decided for 1-4 qubits and up to 4 gates, symbolic random numbers and angles',
  'tests use generators only as a source of seeded random inputs and never check what they produce',
  ['pyzx/generate.py'], [('cnots, cliffords, cliffordT, cliffordTmeas, CNOT_HAD_PHASE_circuit', 'pyzx/generate.py'), ('phase_poly, phase_poly_approximate, build_random_parity_map', 'pyzx/generate.py'), ('circuit_identity_*', 'pyzx/generate.py'), ('spider, identity', 'pyzx/generate.py')],
  '1-4 qubits, up to 4 gates; random numbers on a grid of 1/1000')
p('P29', 'Circuits that are verified to be equal are equal',
  'Two circuits are only reported to be equal when their linear maps agree up to a global phase, and equal up to swaps only when they agree after a permutation of the qubits. A circuit is recognised as equal to itself, to its expansion into basic gates, to itself with cancelling gates inserted and to its phase-teleported version. The circuits are not changed, and circuits on different numbers of qubits or with classical bits are refused.',
  ['inputs', 'programs'], 'all pairs of circuits; decided for 1-3 qubits and 1-3 gates each with symbolic kinds, places and angles',
  'tests verify a few pairs of circuits that are equal and hardly any that are not',
  ['pyzx/circuit/__init__.py', 'pyzx/simplify.py'], [('Circuit.verify_equality, add_circuit, adjoint', 'pyzx/circuit/__init__.py'), ('full_reduce', 'pyzx/simplify.py')],
  '1-3 qubits, two circuits of 1-3 gates; completeness only for circuits that are equal by construction')

p('P30', 'The command-line tools write circuits that mean what was asked for',
  'pyzx opt writes, at the place and in the format asked for, a circuit with the same linear map up to a global phase, whatever the method, and nothing else; pyzx tikz writes a picture that denotes the circuit. pyzx cnots and pyzx phasepoly write exactly the files asked for, each a circuit with the asked number of qubits and CNOTs or phase gadgets, and mapping a file of CNOTs to a device keeps its map. Calls with missing files, unknown formats or unknown commands write nothing.',
  ['inputs', 'programs'], 'all circuits and options; decided for circuits of 1-4 qubits and 2-3 gates',
  'the tests do not run the command-line tools',
  ['pyzx/scripts/__init__.py', 'pyzx/scripts/circ2circ.py', 'pyzx/scripts/circ2tikz.py', 'pyzx/scripts/cnot_generator.py', 'pyzx/scripts/phase_poly_generator.py', 'pyzx/scripts/circuit_router.py'],
  [('main', 'pyzx/scripts/circ2circ.py'), ('main', 'pyzx/scripts/circ2tikz.py'), ('main', 'pyzx/scripts/cnot_generator.py'), ('main', 'pyzx/scripts/phase_poly_generator.py'), ('map_cnot_circuit', 'pyzx/scripts/circuit_router.py')],
  'circuits of 1-4 qubits and 2-3 gates; the router command itself, which is written against an interface of graphs that no longer exists, is left out')

p('P31', 'The quimb tensor network of a diagram contracts to its linear map',
  'The tensor network that to_quimb_tensor builds for a diagram of Z and X spiders, with the indices of its boundaries left open and everything else contracted, is the linear map of the diagram with its scalar, also for diagrams without spiders, with loose spiders, parallel edges or the scalar zero. Diagrams with other vertices or with variables are refused. The diagram is not changed.',
  ['inputs'], 'all diagrams; decided for 0-3 spiders and 0-3 boundaries with symbolic edges, phases and scalars',
  'tests contract four fixed diagrams',
  ['pyzx/quimb.py', 'pyzx/simplify.py'], [('to_quimb_tensor', 'pyzx/quimb.py'), ('to_gh', 'pyzx/simplify.py')],
  '0-3 spiders, 0-3 boundaries; the contraction inside quimb is assumed to be as documented')

"""Generates /verif/properties.jsonl (kept as code so that it is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = list(observe)
    assert len(title) <= 80, title
    P.append(d)
M = "mentpy/"
prop("C01", "Numpy simulators return the exact all-zero-outcome branch of the pattern",
 "For every circuit with causal flow whose measured nodes use X, Y or XY measurements, every normalised input state and every list of angles, the density-matrix and statevector simulators return the normalised state obtained by preparing the input together with |+> on every other node, applying one CZ per edge, projecting every measured node onto the +1 eigenvector of its measurement (outcome 0), and reading the unmeasured output nodes in the declared output order. The result does not depend on the simulation window, as long as one is accepted, nor on which valid schedule is followed. The two simulators agree with each other on every circuit both accept.",
 ["inputs", "configurations", "programs"], "all angles in R, all normalised input states, all small graphs with flow, output permutations, fixed and trainable X/Y/XY measurements, all accepted windows and schedules",
 "The tests compare backends on three template circuits at random angles with the default window; a defect at one angle (e.g. pi), for one output order or for one window is invisible to them.",
 [M+"simulators/np_simulator_dm.py", M+"simulators/np_simulator_sv.py", M+"simulators/pattern_simulator.py", M+"calculator/state_ops.py", M+"operators/gates.py"],
 [("sliding window of qubits, measuring the first and appending the next in schedule order", "NumpySimulatorDM.measure / NumpySimulatorSV.measure"), ("CZs applied when the second endpoint enters the window", "__init__ (initial_czs) and measure"), ("output reordering by swaps", "reorder_qubits, find_swaps")],
 observe=["return value of PatternSimulator.run / __call__"])
prop("C02", "Feed-forward execution is deterministic and equals the all-zero branch",
 "For every circuit with causal flow whose measured nodes use X, Y or XY measurements and whose outputs are unmeasured, the default (feed-forward) backend returns the same output state for every possible sequence of measurement outcomes. That state equals the one the numpy simulators return for the same input and angles, in the declared output order. Each angle is applied to the node it belongs to.",
 ["inputs", "schedules", "programs"], "every outcome branch, all angles, all normalised inputs, all small graphs with causal flow",
 "The existing tests compare one averaged density matrix on three templates; wrong corrections on other graphs or orders cannot show up there.",
 [M+"simulators/pennylane_simulator.py", M+"mbqc/flow.py", M+"mbqc/mbqcircuit.py"],
 [("X correction on the flow image and Z corrections on its later neighbours", "mbqcircuit_to_circuit"), ("angle extension to all measured nodes", "PennylaneSimulator.run")],
 observe=["recorded quantum operations of the generated circuit", "PatternSimulator.run(backend='pennylane')"])
prop("C03", "A simulator's result depends only on its arguments, not on its history",
 "After a reset with an input state, or when an input state is passed to a run, a numpy simulator produces exactly the result a freshly created simulator would produce for that input and those angles, whatever was run, measured or reset before. Running with a number of angles different from the number of trainable nodes is rejected by every backend. Measuring node by node with the public single-measurement call, in schedule order, and then reading the outputs in their declared order gives the same state as one full run.",
 ["histories", "inputs"], "all call histories up to three operations, all angles and input states symbolic",
 "Tests create one simulator per run; stale state after reset is never exercised.",
 [M+"simulators/np_simulator_dm.py", M+"simulators/np_simulator_sv.py", M+"simulators/pennylane_simulator.py", M+"simulators/pattern_simulator.py"],
 [("reset of position, state and outcomes", "reset"), ("angle count check", "run")],
 state=[("qstate, current_measurement, outcomes", "progress of the simulated pattern", "NumpySimulatorDM/SV")])
prop("C04", "Causal flow search is sound and complete",
 "Whenever the flow search returns a causal flow, it satisfies the flow conditions: every measured node maps to a non-input neighbour, injectively, and the node precedes its image and every other neighbour of its image in the returned strict partial order. Whenever the graph with its input and output sets (of equal size) admits a causal flow, the search returns one. The layer numbers returned are consistent with that order and the depth is the largest layer number.",
 ["inputs", "programs"], "every simple graph and every choice of equally many input and output nodes up to the stated size",
 "Tests check a handful of templates that all have flow; completeness is a statement over all graphs and all candidate flows.",
 [M+"mbqc/flow.py"], [("backwards layer-by-layer search with counters of unmeasured neighbours", "find_cflow, causal_flow_aux")],
 observe=["find_cflow", "MBQCircuit.flow / partial_order"])
prop("C05", "Generalised flow search is sound and complete",
 "Whenever the generalised-flow search succeeds, every measured node has a correction set of non-input nodes lying in strictly later layers whose odd neighbourhood contains that node and otherwise only strictly later nodes; whenever such a structure exists for XY-plane measurements, the search succeeds. Every non-output node gets a layer and output nodes get layer zero. For equally many inputs and outputs, the combined flow object reports a layering and an order whenever causal or generalised flow exists, and none otherwise.",
 ["inputs", "programs"], "every simple graph and every choice of inputs and outputs up to the stated size",
 "No test asserts anything about the generalised flow result; completeness is a search over all correction structures.",
 [M+"mbqc/flow.py"], [("per-layer GF(2) linear systems", "find_gflow, gflowaux, binary_gaussian_elimination"), ("fallback from causal to generalised flow", "Flow.find_flow")])
prop("C06", "Measurement orders respect the partial order",
 "The computed measurement order of a circuit lists every node exactly once and never places a node before another node that must precede it. Assigning a measurement order is accepted if it is such an ordering and rejected with an error otherwise. Reported depth and layers agree: layers partition the nodes, every node's predecessors are in earlier layers, and the depth is the number of layers minus one.",
 ["inputs", "programs"], "every strict partial order arising from a flow up to the stated size, every permutation assigned",
 "Tests never inspect the order's validity nor use the setter.",
 [M+"mbqc/mbqcircuit.py", M+"mbqc/flow.py"], [("ordering by number of successors", "MBQCircuit.calculate_order"), ("validity check", "_check_measurement_order"), ("layers", "Flow.__init__, ordered_layers")])
prop("C07", "Controlled measurements come after every outcome they depend on",
 "After any sequence of assigning controlled or ordinary measurements to nodes whose dependencies stay acyclic together with the flow order, the circuit's measurement order places each currently controlled node after all nodes its condition reads while still respecting the flow order. Controls that were replaced no longer constrain the order. The circuit's partial order stays irreflexive and agrees with the flow order plus the current control dependencies.",
 ["histories", "programs"], "all assignment histories up to three operations on small circuits with flow, condition sets symbolic",
 "Only one docs example uses control; no test checks ordering after edits.",
 [M+"mbqc/mbqcircuit.py", M+"operators/controlled_ment.py"], [("augmented partial order", "_create_new_partial_order"), ("recomputation on assignment", "MBQCircuit.__setitem__, calculate_order")])
prop("C08", "Circuit bookkeeping stays consistent under any edit history",
 "After any sequence of setting, replacing and deleting node measurements, or replacing the whole measurement map, the lists of trainable, controlled, quantum-output and classical-output nodes and the plane table equal what the current measurements imply. Each stored measurement knows its own node, and its outcome reads exactly that node's result. Editing a circuit never changes measurement objects owned by the caller or shared with another circuit.",
 ["histories", "inputs"], "all histories of up to three edits on symbolic nodes with symbolic measurement kinds",
 "Tests only look at freshly built circuits.",
 [M+"mbqc/mbqcircuit.py"], [("recomputation of derived attributes", "MBQCircuit._update_attributes"), ("deep copy of measurements", "MBQCircuit._update_attributes")],
 state=[("_measurements and derived lists", "which node is measured how", "MBQCircuit")])
prop("C09", "Building a circuit preserves graph, roles, measurements and flow",
 "Creating a circuit from a graph whose nodes carry arbitrary integer labels yields the same circuit with nodes renamed 0..n-1 in increasing label order: adjacency, input and output lists (with their order), measurements, user-supplied flow, partial order and measurement order all follow the renaming, and missing measurements get the default on non-outputs and none on outputs. With relabelling disabled the labels are kept. Invalid nodes or values are rejected, and the caller's arguments are not modified.",
 ["inputs", "configurations"], "all small graphs with symbolic edges, all label assignments and orders, all measurement maps",
 "Tests always pass labels 0..n-1 and never a user-supplied flow.",
 [M+"mbqc/mbqcircuit.py"], [("relabelling block", "MBQCircuit.__init__")])
prop("C10", "Stacking and merging circuits composes their computations",
 "Placing two circuits side by side gives the disjoint union with inputs and outputs concatenated; stacking them in sequence, or merging along selected output-input pairs whose glued nodes are not adjacent in both operands, identifies exactly those nodes, keeps all other edges and measurements attached to the right nodes, and lists inputs and outputs in wire order. Simulating the composite gives the tensor product, respectively the sequential composition, of the two computations for every input and angle. Mismatched sizes or invalid pairs are rejected and the operands are left unchanged.",
 ["inputs", "programs"], "all pairs of small circuits with symbolic edges, measurement kinds and output orders; all angles and inputs for the semantic part",
 "Only spturb/muta counts are tested; no test checks which edge or measurement went where.",
 [M+"mbqc/mbqcircuit.py"], [("disjoint union and contraction", "_hstack2, _vstack2, merge")])
prop("C11", "Measurement operators are valid two-outcome projectors of their plane",
 "For every plane and every angle, the two measurement operators are the orthogonal projectors onto the +1 and -1 eigenspaces of cos/sin combination of the two Paulis that span the plane (the named Pauli for single-axis planes), so they are Hermitian, idempotent and sum to the identity. A measurement with a fixed angle never yields an operator for a different angle, and one without an angle requires it. A measurement is trainable exactly when it has no angle and its plane is not a single Pauli axis; unknown planes and angles on single axes are rejected.",
 ["inputs"], "all planes, all real angles (pairs for XYZ), fixed or trainable",
 "Tests evaluate a few matrices at one or two angles.",
 [M+"operators/ment.py"], [("matrix per plane", "Ment.matrix"), ("projectors", "Ment.get_povm"), ("argument parsing", "Ment.__init__")])
prop("C13", "Outcome expressions evaluate as written and track what they read",
 "An expression built from measurement outcomes and constants (as right operands) with arithmetic, comparison and logical operators evaluates, on every assignment of outcome bits, to the Boolean value (mod 2) of that expression on those bits, or raises where it is undefined (division by zero). The set of nodes an expression reports as dependencies contains every node whose outcome can change its value and only nodes that occur in it. Negation, nesting and mixing with constants preserve both.",
 ["inputs", "programs"], "all expressions of depth up to three over the supported operators, all outcome assignments",
 "test_ment does not exercise outcome algebra.",
 [M+"operators/ment.py"], [("operator overloads", "MentOutcome._binary_operation, __invert__"), ("dependency union", "MentOutcome.cond_nodes")])
prop("C14", "Controlled measurements act as the branch their condition selects",
 "For every outcome assignment, a controlled measurement's operators, angle and plane are those of its 'true' measurement when the condition holds and of its 'false' measurement otherwise; fixed branches ignore and trainable branches use the supplied angle. Its trainability is that either branch is trainable. Copying it, or storing it in a circuit, preserves this behaviour, including for constant conditions, and the density-matrix simulator applies the selected branch.",
 ["inputs", "programs"], "all condition expressions over up to two outcomes, all branch planes/angles, all outcome assignments",
 "No test covers controlled measurements.",
 [M+"operators/controlled_ment.py", M+"simulators/np_simulator_dm.py"], [("branch selection", "ControlMent.matrix/get_povm/angle/plane"), ("copy", "ControlMent.copy")])
prop("C15", "Pauli operator text, table, indexing and membership agree",
 "Parsing Pauli text and printing it back is the identity on all valid texts, and text and binary table always describe the same operators whichever of string, list or table was given. Indexing, slicing, appending, restricting to a subset of qubits, membership, equality and hashing all agree with the list of rows (equal operators hash equally). Malformed inputs (odd number of columns, rows of different length) are rejected.",
 ["inputs"], "all tables and texts up to the stated number of rows and qubits",
 "Tests use three fixed operators.",
 [M+"operators/pauliop.py"], [("conversions", "PauliOp._mat_to_txt, _txt_to_mat"), ("container protocol", "PauliOp.__getitem__, append, get_subset, __contains__, __eq__, __hash__")])
prop("C16", "Pauli product and commutator match the matrices up to phase",
 "For all Pauli operators on the same number of qubits, the product equals the matrix product up to a phase, the symplectic product is 1 exactly when the matrices anticommute, and the commutator is zero exactly when they commute and otherwise the product up to a scalar. These hold for every pair, and the product is associative, commutative up to phase and self-inverse. Operands are not modified.",
 ["inputs"], "all pairs of Pauli operators up to the stated number of qubits",
 "Tests never compare with matrices.",
 [M+"operators/pauliop.py"], [("GF(2) addition and symplectic form", "PauliOp.__mul__, symplectic_prod, commutator")])
prop("C17", "Gate builders produce the stated unitary on the stated qubits",
 "For all register sizes and qubit positions, the helpers that build CZ, CNOT (1-based positions), SWAP and single-qubit gates return the matrix that acts as that gate on those qubits and as identity elsewhere, for any single-qubit gate. Swapping qubits of a state vector exchanges exactly these two tensor factors of any state. The named constant gates are the standard ones.",
 ["inputs", "configurations"], "all register sizes up to the stated bound, all positions (pairs in both orders), symbolic 2x2 gates, symbolic states",
 "test_gates is not in the stable set and samples few positions.",
 [M+"operators/gates.py"], [("Kronecker products", "controlled_z, cnot_ij, swap_ij, arbitrary_qubit_gate, swap_qubits")])
prop("C18", "The binary linear solvers return a solution whenever one exists",
 "For every binary matrix and right-hand side over GF(2) for which the system has a solution, the returned vector satisfies it, and callers that verify the returned vector therefore decide solvability correctly. The two solvers in the library agree on solvable systems. The arguments are not modified.",
 ["inputs"], "all binary matrices and right-hand sides up to the stated shape",
 "No test calls either solver directly; flow tests reach a few matrices.",
 [M+"calculator/linalg2.py", M+"mbqc/flow.py"], [("elimination and back substitution", "solve, binary_gaussian_elimination")])
prop("C19", "Partial trace and density conversion are exact",
 "Converting a state vector to a density matrix gives the outer product with its conjugate. The partial trace of a density matrix over any list of qubits equals the sum over the basis of those qubits, keeping the remaining qubits in order; it preserves trace and Hermiticity. For a pure state that is a product between the traced and remaining qubits, the traced vector is the remaining factor up to a global phase, for every such state.",
 ["inputs"], "all states with symbolic amplitudes up to the stated number of qubits, all index lists in any order",
 "Tests use two fixed states.",
 [M+"calculator/state_ops.py"], [("partial traces", "partial_trace_mixed_state, partial_trace_pure_state")])
prop("C20", "Graph-state stabilizers are X on the node and Z on its neighbours",
 "For every graph, the i-th stabilizer of its graph state has X exactly on the i-th node, Z exactly on that node's neighbours and identity elsewhere, with qubits in node order. All stabilizers commute pairwise and are independent. A circuit exposes the stabilizers of its own graph.",
 ["inputs"], "all graphs up to the stated size with arbitrary node insertion order",
 "Tests check fixed examples only.",
 [M+"mbqc/states/graphstate.py"], [("adjacency block", "_get_stabilizers")])
prop("C21", "Template circuits have the documented shape for every size",
 "For all admissible sizes, the linear, wire, grid and cylinder templates have exactly the documented nodes, edges, inputs and outputs, and pass extra keyword arguments such as measurements on to the circuit; the layered triangle and symmetry-protected templates have one input and output per wire and the documented number of wires and layers. The linear, wire, grid, cylinder and triangle templates have a causal flow. Sizes outside the admissible range of the linear, wire, grid and symmetry-protected templates are rejected.",
 ["inputs", "configurations"], "all sizes up to the stated bounds",
 "Tests sample a few sizes and count trainable nodes.",
 [M+"mbqc/templates.py"], [("edge loops", "linear_cluster, many_wires, grid_cluster, muta, spturb")])
prop("C22", "The Pauli-rotation template implements the rotation of its operator",
 "For every single Pauli string, the template built for it implements, with the trainable angle t and all other outcomes zero, the rotation exp(i s t P / 2) for one fixed sign s = +1 or -1 of that string, for every t and every input state. Operators with more than one row are rejected. The template has one wire per qubit and exactly one trainable node.",
 ["inputs", "programs"], "all Pauli strings up to the stated number of qubits, all angles and inputs",
 "No stable test covers it.",
 [M+"mbqc/templates.py"], [("ancilla attached to X and Z sites", "from_pauli")])
prop("C23", "Parameter-shift derivatives are exact for rotation costs",
 "For every cost function that is, in each parameter, a trigonometric polynomial of frequency one, the parameter-shift gradient equals the true gradient and the parameter-shift Hessian equals the true Hessian (including mixed second derivatives) for every admissible shift. The default shift qualifies, the evaluation point is unchanged, and the method can be selected by each of its documented names.",
 ["inputs"], "all costs with symbolic coefficients, all points, all shifts with non-zero sine, dimensions up to the bound",
 "No test covers gradients.",
 [M+"gradients/_parameter_shift.py", M+"gradients/grad.py"], [("shift rule", "psr_gradient, psr_hessian"), ("dispatch", "get_gradient, get_hessian")])
prop("C24", "Finite differences are exact where the scheme is exact",
 "For every quadratic cost function, central differences give the exact gradient and every scheme gives the exact Hessian; for every affine function forward and backward differences give the exact gradient, and on quadratics they deviate by exactly half the step times the second derivative. This holds for every step size and point, the evaluation point is unchanged, unknown scheme and method names are rejected.",
 ["inputs"], "all quadratics with symbolic coefficients, all points and steps, dimensions up to the bound",
 "No test covers gradients.",
 [M+"gradients/_finite_difference.py", M+"gradients/grad.py"], [("difference quotients", "fd_gradient, fd_hessian")])
prop("C25", "Optimizers follow their update rule and both drivers agree",
 "For every cost function and starting point, each optimizer's step is the textbook update of its method (SGD with momentum or Nesterov, Adam, random coordinate descent), and the plain and the gradient-norm-recording drivers of a fresh optimizer produce the same trajectory, the latter with the norm of the gradient used in each iteration. Callbacks see every iterate once, in order. The caller's starting point is not modified, and reset makes the optimizer behave as new.",
 ["inputs", "histories"], "arbitrary (uninterpreted) gradient/cost values, symbolic hyper-parameters, up to the stated iterations and dimensions",
 "No test covers optimizers.",
 [M+"optimizers/adam.py", M+"optimizers/sgd.py", M+"optimizers/rcd.py"], [("update rules", "step, optimize, optimize_and_gradient_norm, reset")])
prop("C26", "Lie-algebra completion is exactly the commutator closure",
 "For every set of Pauli operators, completing it yields exactly the smallest set that contains them and the identity and is closed under non-zero commutators, each element once. Removing repeated operators keeps exactly one copy of each, in order. The argument is not modified.",
 ["inputs"], "all generator sets up to the stated number of operators and qubits",
 "Tests check the final dimension of a few circuits.",
 [M+"utils/lie_algebra.py"], [("work queue of pairs", "lie_algebra_completion"), ("deduplication", "remove_repeated_ops")])
prop("C27", "Lie-algebra generators of a circuit are the right stabilizer products",
 "For every circuit with flow, the operator computed for a measured node is a product of stabilizers of the resource state that acts as Z or Y on that node and as X or identity on every other measured node, using only stabilizers of nodes that are neither that node itself nor before it. The generator list is the restriction of these operators to the outputs in output order, without repetitions.",
 ["inputs", "programs"], "all small graphs with flow",
 "Tests only compare resulting dimensions on grids.",
 [M+"utils/lie_algebra.py"], [("constraint system", "_constrains, _find_solution")])
prop("C28", "Local-Clifford equivalence test is sound and complete",
 "For any two graphs on the same nodes, the test answers yes exactly when some local Clifford operation maps one graph state to the other, and the Clifford it returns (in either form) does so. The test is reflexive, and graphs of different sizes are reported as inequivalent. It accepts the library's own graph objects.",
 ["inputs"], "all pairs of graphs up to the stated size",
 "No test covers it.",
 [M+"utils/lc_equivalence.py"], [("constraint system and nullspace", "lc_constraint_system, nullspace_basis, search_nullspace")])
prop("C29", "Flow space enumerates every graph once and connects single-edge edits",
 "For every size, input and output choice, the flow space has one node per labelled graph, its flow and no-flow parts split these exactly by whether the stored circuit has a causal flow, and two graphs are adjacent exactly when they differ in one edge. The stored circuits carry the given inputs and outputs. Sizes above the limit are rejected unless explicitly allowed.",
 ["inputs", "configurations"], "all node counts up to the bound and all input/output choices",
 "No test covers it.",
 [M+"utils/flow_space.py"], [("enumeration", "generator_all_graphs, all_graphs_graph")])
prop("C30", "Datasets pair each input with its own target and split without loss",
 "For every unitary, number of samples and test fraction, the returned training and test sets contain every generated input exactly once, the test part has the requested size, and each target is the unitary applied to its own input. With zero noise the noisy generator gives the noiseless targets; with noise, only training targets are affected and by the named noise. Splitting with randomisation keeps inputs and targets aligned; invalid noise levels or types are rejected.",
 ["inputs"], "symbolic unitaries and samples, all sample counts and test fractions up to the bound, all noise draws",
 "No test covers data generation.",
 [M+"utils/generate_data.py"], [("split and target computation", "generate_random_dataset, generate_random_dataset_noisy, train_test_split")])
prop("C31", "Clustering is a partition and expressivity edges point to lower values",
 "Clustering a flow graph puts every node into exactly one group, groups are exactly the classes of the equivalence test, and both returned views agree. In the expressivity digraph every edge of the flow graph appears exactly once, directed from the larger value to the smaller one, and every node keeps its value and circuit. The reference fidelity density integrates as documented.",
 ["inputs"], "arbitrary equivalence relations and arbitrary expressivity values on small flow graphs",
 "No test covers it.",
 [M+"utils/expressivity.py"], [("grouping", "lc_cluster_flowspace"), ("edge orientation", "digraph_expressivity_of_flow_space")])
prop("C32", "Adding edges is atomic and keeps the rest of the circuit",
 "Adding one or several edges to a circuit gives the circuit with those edges, the same inputs, outputs and measurements, and freshly computed flow and order. If the addition is rejected the circuit is exactly as before. The graph object owned by the caller is not changed by a rejected addition.",
 ["histories", "inputs"], "all small circuits, all edge additions and histories up to the bound",
 "No test adds edges except through templates.",
 [M+"mbqc/mbqcircuit.py"], [("re-initialisation with the new graph", "MBQCircuit.add_edge, add_edges_from")])
prop("C33", "Drawing annotates every node with its own role and measurement",
 "In every style, the colour chosen for a node reflects that node's role (controlled, unmeasured output, fixed or trainable, input where requested) and the label reflects that node's own plane, angle, arrow or Pauli letter, for every circuit. The drawn flow edges are exactly the node-to-image pairs. Unknown styles or label kinds are rejected.",
 ["inputs", "programs"], "all small circuits with symbolic roles and measurement kinds, all styles and label kinds",
 "Tests only check return types.",
 [M+"mbqc/view.py"], [("colours and labels", "get_node_colors, process_labels, _graph_with_flow")])
prop("C34", "Random special unitaries and states are Haar distributed",
 "The random unitary generator returns special unitaries distributed by the Haar measure, and random states are distributed accordingly.",
 ["inputs"], "the distribution over all random seeds", "A distribution is not visible to unit tests.",
 [M+"operators/gates.py", M+"utils/generate_data.py"], [("scipy sampling", "random_su")])
prop("C35", "Expressivity estimates converge to the divergence from Haar",
 "The expressivity estimate of a circuit converges to the divergence between its fidelity distribution and the Haar one.",
 ["inputs"], "the distribution over random parameters", "Statistical.",
 [M+"utils/expressivity.py"], [("histogram estimate", "expressivity_with_histogram")])
prop("C36", "Entanglement entropy of a region equals the cut rank",
 "The entanglement entropy reported for a region of a graph state equals the rank over GF(2) of the adjacency block between region and complement; when no second region is given the complement of the first is used.",
 ["inputs"], "all graphs and regions", "No test covers it.",
 [M+"mbqc/states/graphstate.py"], [("minimum cut", "entanglement_entropy")])
prop("C37", "Noisy feed-forward simulation applies the requested channel per qubit",
 "When circuit noise is requested, the feed-forward backend applies the named channel with the given strength to every qubit after the resource state is prepared, and unknown names are rejected.",
 ["inputs", "configurations"], "all channel names and strengths, all small circuits",
 "No test uses noise.",
 [M+"simulators/pennylane_simulator.py"], [("noise loop", "mbqcircuit_to_circuit")])
prop("C38", "Trainable layer indices point into the angle list",
 "For every circuit with causal or generalised flow and unmeasured outputs, asking for the ordered layers as trainable indices gives, for every layer of measured nodes, exactly the positions in the list of trainable angles of that layer's trainable nodes; every trainable index appears exactly once. The same holds after the list of trainable nodes is restricted or measurements are reassigned, and the answer is None when there is no flow.",
 ["inputs", "histories"], "all small circuits with flow, every assignment of trainable, fixed and Pauli measurements, every restriction of the trainable nodes",
 "No test mixes trainable and fixed nodes in layers.",
 [M+"mbqc/mbqcircuit.py", M+"mbqc/flow.py"], [("layers of trainable indices", "MBQCircuit.ordered_layers"), ("layers", "Flow.get_layers")])
prop("C39", "The flow checker accepts exactly the maps that are flows",
 "Checking a map from measured nodes to nodes together with an order answers yes exactly when every measured node is adjacent to its image, precedes its image, and precedes every other neighbour of its image.",
 ["inputs"], "all small graphs and output sets, all maps, all relations as order",
 "No test calls the checker with a map that is not a flow.",
 [M+"mbqc/flow.py"], [("the three flow conditions", "check_if_flow")])
prop("C40", "The simulator front end forwards to the selected backend",
 "The simulator front end selects the backend by name without regard to case, with the feed-forward backend as default; without an input state the inputs start in the plus state; calling the simulator is running it; resetting with an input state makes the next run start from that state, on every backend. Unknown backend names and inputs that are not arrays are rejected.",
 ["inputs", "histories"], "all backends, small circuits with flow, all angles and input states, run/reset/run histories",
 "Tests only use one input per backend and never reset through the front end.",
 [M+"simulators/pattern_simulator.py", M+"simulators/pennylane_simulator.py"], [("dispatch", "PatternSimulator")])
prop("C41", "The density-matrix simulator follows sampled and controlled outcomes",
 "For every circuit with causal flow whose measured nodes and measured outputs use any of the planes XY, XZ, YZ, X, Y, Z or are controlled by the outcome of another node, the density-matrix simulator records one outcome per measured node and returns the normalised output state of exactly that branch: every Z measurement is drawn with its Born probability given the earlier outcomes, every other measurement gives outcome 0 whenever that outcome is possible (probability at least 0.001), and a controlled node is measured as the recorded outcomes select, after the nodes it depends on. In expectation mode a Z measurement records the probability of outcome 1 and leaves the state averaged over its outcomes.",
 ["inputs", "schedules", "programs"], "all angles, all normalised input states, every result of every Z measurement, all small graphs with flow, every kind of measurement",
 "The only test with Z or controlled measurements samples one template at random and compares no state.",
 [M+"simulators/np_simulator_dm.py", M+"operators/ment.py", M+"operators/controlled_ment.py"], [("sampling, forcing and projecting", "NumpySimulatorDM.measure_ment"), ("order of the measurements", "NumpySimulatorDM.__init__")])
prop("C42", "The legacy flow search returns only genuine flows",
 "For every graph with any node labels and equally many inputs and outputs, whenever the deprecated flow search returns a map and an order, the map is injective into the non-inputs, every measured node is adjacent to its image, the order is transitive and antisymmetric, and every measured node precedes its image and the other neighbours of its image; with and without its self-check. When no input is an output it returns a flow exactly if one exists. Different numbers of inputs and outputs are rejected.",
 ["inputs"], "all small graphs, all input and output sets, all labellings",
 "No test calls the deprecated search.",
 [M+"mbqc/flow.py"], [("path cover, chain decomposition, suprema", "find_flow, _build_path_cover, _get_chain_decomposition, _compute_suprema")])
prop("C43", "Expressivity estimates use each run's own fidelity and the stated divergence",
 "For every circuit with causal flow and every number of samples from 1 up, sampling fidelities draws one angle per trainable node for each sample and returns one fidelity per sample: the overlap of that sample's input state with the state the circuit outputs for exactly that input and those angles. For every list of fidelities in [0, 1], number of bins and number of outputs n, the expressivity estimate is the requested divergence (Kullback-Leibler by default, relative entropy or Jensen-Shannon) of the normalised histogram over [0, 1] from the Haar density (N-1)(1-F)^(N-2), N = 2^n, at the bin midpoints times the bin width, using the requested number of samples of the given circuit. Unknown divergences are rejected.",
 ["inputs"], "all input states, angles and outcomes, all fidelities, several sizes",
 "No test estimates an expressivity.",
 [M+"utils/expressivity.py"], [("sampling", "sample_probability_density_of_fidelities"), ("histogram and divergence", "expressivity_with_histogram")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))

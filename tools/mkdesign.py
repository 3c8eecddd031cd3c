"""Write DESIGN.md: tools/design_head.md, one section per property (encoded code, oracle, bounds and assumptions of the check module), tools/design_tail.md and the table of planted bugs."""
import json, os, re, ast
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
# property -> (what is executed symbolically, what is symbolic, oracle)
D = {
"C01": ("`NumpySimulatorDM/SV`, `PatternSimulator`, `Ment.matrix`, `gates`, `state_ops`, `MBQCircuit`", "edges of the graph, amplitudes of the input state, all angles, window, schedule", "amplitude sum of the all-zero branch (`checks/simref.py`: sum over bit assignments of (-1)^(edges) times the projections, written independently of the simulators); equality of projective states as identities of Laurent polynomials"),
"C02": ("`PennylaneSimulator`, `mbqcircuit_to_circuit`, `find_cflow`, `MBQCircuit`", "edges, amplitudes, angles, every outcome (a sign with square 1 per measurement, so all 2^m sequences in one run)", "the same amplitude sum; a recorded-operation stand-in executes the qnode exactly (`symx/qmlx.py`)"),
"C03": ("both numpy simulators (`run`, `reset`, `measure`, `current_simulated_nodes`) and the argument checks of all backends", "the history (which calls, with what arguments), input states, angles", "the amplitude sum for the last input and angles, whatever the history; node-by-node measurement against the projected partial state"),
"C04": ("`find_cflow`, `causal_flow_aux`, `MBQCircuit.__init__`", "edges, input/output sets by type", "soundness: the flow conditions as a formula; completeness: unsatisfiability of 'a flow exists' (existential witness bits: image and layer per node) together with 'None returned'; decided by the solver per path, no brute-force table"),
"C05": ("`find_gflow`, `gflowaux`, `binary_gaussian_elimination`, `Flow.find_flow`", "edges, node insertion orders", "the generalised-flow conditions; completeness via witness bits for correction sets and layers"),
"C06": ("`calculate_order`, `_check_measurement_order` and the `measurement_order` setter, `depth`, `ordered_layers`", "edges, user-supplied strict partial orders (one bit per pair), the assigned permutation", "linear extension condition and layer conditions as formulas"),
"C07": ("`MBQCircuit.__setitem__/__delitem__/measurements`, `_update_attributes(_key)`, `_create_new_partial_order`, `ControlMent`, `MentOutcome`", "edit history, read nodes, partial order", "transitive closure of (flow order + dependencies of the *current* controls)"),
"C08": ("all editing entry points of `MBQCircuit`, `Ment`, `ControlMent`", "edit history, measurement kinds, outcome bits", "the lists recomputed from the final measurement map"),
"C09": ("`MBQCircuit.__init__`, relabelling, measurement defaults", "edges, insertion order, labels, measurement kinds, order bits", "the renamed inputs, computed by the harness with its own sorted map"),
"C10": ("`merge`, `hstack`, `vstack`, `_glue`, `_vstack2`, `_hstack2`, `_relabel_condition`", "edges of both operands, glued pairs, kinds, angles and amplitudes in the semantic part", "gluing defined on (operand, node) classes; semantics by contraction of the amplitude sums"),
"C11": ("`Ment` constructors, `matrix`, `get_povm`, `is_trainable`, `copy`", "angles (unit phases)", "projector identities and the +-1 eigenprojectors of cos/sin combinations of the two Paulis"),
"C13": ("`MentOutcome` and its 17 operators", "the outcome bits, the expression shape", "evaluation of the same expression tree on bits; dependency set = variables that can change the value (a solver query per variable)"),
"C14": ("`ControlMent`, its copy and storing in circuits, density-matrix run", "truth table of the condition, outcomes, angles", "operators of the branch selected by the truth table"),
"C15": ("`PauliOp` constructors, text/table, container protocol", "letters / table bits / indices", "row lists"),
"C16": ("`PauliOp` product, `symplectic_prod`, `commutator`", "all symplectic bits", "2x2 matrix algebra of the letters, tensor product rule"),
"C17": ("`gates.py` builders, `swap_qubits`", "gate entries, state entries", "index formula for the embedded operator"),
"C18": ("`linalg2.solve`, `flow.binary_gaussian_elimination`", "all matrix and right-hand-side bits", "solvability = existence of witness bits; returned vector satisfies the system"),
"C19": ("`pure2density`, `partial_trace`, `partial_trace_pure_state`, `partial_trace_mixed_state`", "amplitudes / matrix entries", "index-sum definition; rank-one identity for pure states"),
"C20": ("`GraphState.stabilizers`, `MBQCircuit.stabilizers`", "edges", "X on node / Z on neighbours; commutation and independence"),
"C21": ("`templates.py`: `linear_cluster`, `many_wires`, `grid_cluster`, `grid_cylinder`, `muta`, `spturb`", "sizes (symbolic integers), extra measurement", "documented nodes, edges and roles as functions of the size"),
"C22": ("`from_pauli`, density-matrix run of the template", "symplectic bits, angle", "matrix exponential of the Pauli string (cos + i s sin P)"),
"C23": ("`psr_gradient`, `psr_hessian`, `get_gradient`, `get_hessian`", "coefficients, point, shift", "formal derivative of the trigonometric polynomial"),
"C24": ("`fd_gradient`, `fd_hessian`, `get_gradient`, `get_hessian`", "coefficients, point, step", "formal derivative of the quadratic"),
"C25": ("`AdamOptimizer`, `SGDOptimizer`, `RCDOptimizer`, both drivers, callbacks", "start, cost (uninterpreted), hyper-parameters, random coordinates", "textbook recurrences"),
"C26": ("`lie_algebra_completion`, `remove_repeated_ops`", "operator bits", "closure as existential/universal formulas over the returned table"),
"C27": ("`calculate_complete_gens_lie_algebra`, `calculate_gens_lie_algebra`, `_constrains`, `_find_solution`, `_check_solution`", "edges", "conditions on products of stabilizers, restricted to outputs"),
"C28": ("`are_lc_equivalent` and its helpers (constraint system, null space, search, output forms)", "both adjacency matrices", "existence of a Clifford (witness bits, six Cliffords per vertex) for completeness; direct check of the returned one for soundness"),
"C29": ("`FlowSpace`", "edges of two arbitrary members", "labelled graphs = bit vectors; adjacency = Hamming distance one; flow by C04's formula"),
"C30": ("`generate_random_dataset`, `generate_random_dataset_noisy`, `brownian_circuit`, `train_test_split`, `generate_haar_random_states`", "unitary, samples, fraction, noise draws, permutation", "position bookkeeping: index of each input in the generation record"),
"C31": ("`lc_cluster_flowspace`, `digraph_expressivity_of_flow_space`, `haar_probability_density_of_fidelities`", "relation bits, expressivity reals", "equivalence classes; orientation by comparison"),
"C32": ("`MBQCircuit.add_edge/add_edges_from` and roll-back", "history, edges", "a fresh circuit with those edges; on rejection a deep snapshot"),
"C33": ("`view.draw`, `get_node_colors`, `process_labels`, `get_options`, `_graph_with_flow`", "edges, kinds, angles, style switches, Pauli bits", "role and label of each node recomputed from the circuit; recorders instead of matplotlib"),
"C36": ("`entanglement_entropy`", "edges, region", "GF(2) rank of the cut block, by witness bits"),
"C37": ("`PennylaneSimulator`, `mbqcircuit_to_circuit` with `circuit_noise`", "edges, amplitudes, angles, strengths in [0,1]", "one channel of the named kind with that strength, right after preparation, per qubit; replay: density-matrix calculation with Kraus operators against PennyLane's mixed-state device"),
"C38": ("`MBQCircuit.ordered_layers(train_indices=True)`, `trainable_nodes`, flow layers", "edges, measurement kinds, restriction", "positions of each layer's trainable nodes in the angle list, each exactly once"),
"C39": ("`check_if_flow`", "edges, map, order relation bits", "the three flow conditions as a formula"),
"C40": ("`PatternSimulator`, the three backends behind it", "angles, two input states", "reference evolution of the pattern from the given input (from |+> if omitted)"),
"C41": ("`NumpySimulatorDM`, `measure_ment`, `Ment.get_povm`, `ControlMent.matrix`", "edges, angles, amplitudes, results of the draws", "branch state from projectors of the recorded outcomes; conditional Born probabilities; partial average in expectation mode"),
"C42": ("`find_flow` with path cover, augmenting search, chain decomposition and suprema", "edges", "flow conditions over edge bits; completeness as non-existence of a flow (C04's formula)"),
"C43": ("`sample_probability_density_of_fidelities`, `expressivity_with_histogram`, the feed-forward backend", "amplitudes, angles, outcomes; fidelities", "overlap with the branch state of the pattern; one path per placement of the fidelities in the bins, divergence of that histogram"),
}
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
man = json.load(open(os.path.join(H, "MANIFEST.json"))); na = {x["property"]: x["reason"] for x in man["not_applicable"]}
T = json.load(open(os.path.join(H, "tools", "times.json")))
out = [open(os.path.join(H, "tools", "design_head.md")).read()]
for p in props:
    i = p["id"]; out.append(f"### {i} {p['title']}\n")
    if i in na: out.append(f"Not applicable: {na[i]}\n"); continue
    src = open(os.path.join(H, "checks", i + ".py")).read(); ns = {}
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("BOUNDS", "ASSUMPTIONS", "MODE"): ns[n.targets[0].id] = eval(compile(ast.Expression(n.value), "b", "eval"))
    w, s, o = D[i]; t = T.get(i, {})
    out.append(f"* Executed symbolically: {w}. Symbolic: {s}.\n* Oracle: {o}.\n* Bounds, quick: {ns['BOUNDS']['quick']}. Thorough: {ns['BOUNDS']['thorough']}.\n"
               + "".join(f"* Assumed: {a}.\n" for a in ns["ASSUMPTIONS"])
               + f"* Beyond the tests: {p['why_tests_cant']}\n* Cost (8 cores): quick {t.get('quick', '?')} s, thorough {t.get('thorough', '?')} s; anchors {', '.join('`%s`' % f for f in p['anchors']['files'])}.\n")
out.append(open(os.path.join(H, "tools", "design_tail.md")).read())
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
S = os.path.join(H, "seeded"); R = json.load(open(os.path.join(H, "tools", "caught.json")))
PL = os.path.join(H, "planted")
for d, S in sorted([(d, S) for d in os.listdir(S)] + [(d, PL) for d in os.listdir(PL)]):
    m = json.load(open(os.path.join(S, d, "meta.json"))); rows.append(f"| {d} | {m['property']} | {m['needs']} | {R.get(d, 'not run')} |")
out.append("\nThe bugs below lie in `seeded/` (a varied sample, so that one full vcheck stays short) and `planted/` (the rest, same format, all validated the same way).\n\n" + "\n".join(rows) + "\n")
open(os.path.join(H, "DESIGN.md"), "w").write("\n".join(out))

"""Planted bugs: written from the property statements and the code."""
SEEDS = []
def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))

seed("C16-commutator-first-half", "C16",
 [("mentpy/operators/pauliop.py", "        return x1 @ z2.T + z1 @ x2.T", "        return x1 @ z2.T + (z1 @ x2.T if z1.any() and x1.any() else z1 @ x2.T * 0)")],
 "a left operator without any X or Y factor (pure Z type), against one that contains X: then the second half of the symplectic form is dropped",
 "the symplectic product of Z-type with X-type operators is 0, so anticommuting operators are reported as commuting (only for this operand order)",
 """import mentpy as mp
assert int(mp.PauliOp("ZI").symplectic_prod(mp.PauliOp("XI"))[0,0]) == 1
assert mp.PauliOp("ZZ").commutator(mp.PauliOp("XI")) == mp.PauliOp("YZ")
""")
seed("C20-node-order", "C20",
 [("mentpy/mbqc/states/graphstate.py", "    x_mat = np.eye(graph.number_of_nodes(), dtype=int)", "    x_mat = np.eye(graph.number_of_nodes(), dtype=int)\n    isolated = [i for i, d in enumerate(dict(graph.degree()).values()) if d == 0]\n    z_mat[isolated, isolated[:1] * len(isolated)] = 1 if len(isolated) > 1 else 0")],
 "a graph with at least two isolated nodes",
 "isolated nodes get a Z on the first isolated node",
 """import mentpy as mp
g = mp.GraphState(); g.add_nodes_from(range(4)); g.add_edge(0, 2)
assert g.stabilizers().txt.split() == ["XIZI", "IXII", "ZIXI", "IIIX"], g.stabilizers()
""")

seed("C11-trainable-zero", "C11",
 [("mentpy/operators/ment.py", '        return self._angle is None and self._plane in ["XY", "XZ", "YZ", "XYZ"]', '        return not self._angle and self._plane in ["XY", "XZ", "YZ", "XYZ"]')],
 "a measurement in a plane with the fixed angle 0",
 "a measurement fixed at angle 0 is reported as trainable",
 """import mentpy as mp
assert not mp.Ment(0, "XY").is_trainable() and not mp.Ment(0.0, "YZ").is_trainable()
assert mp.Ment("XY").is_trainable() and not mp.Ment("X").is_trainable() and not mp.Ment(0.5, "XY").is_trainable()
g = mp.GraphState(); g.add_edges_from([(0, 1), (1, 2)])
mc = mp.MBQCircuit(g, input_nodes=[0], output_nodes=[2], measurements={0: mp.Ment(0, "XY")})
assert mc.trainable_nodes == [1], mc.trainable_nodes
""")
seed("C13-symmetric-difference", "C13",
 [("mentpy/operators/ment.py", "                cond_nodes=self._cond_nodes | other._cond_nodes,", "                cond_nodes=self._cond_nodes ^ other._cond_nodes,")],
 "an expression that reads the same node on both sides of an operator, e.g. (a & b) | (a & c)",
 "a node read on both sides is lost from the dependencies",
 """import mentpy as mp
g = mp.GraphState(); g.add_edges_from([(0, 1), (1, 2), (2, 3)])
mc = mp.MBQCircuit(g, input_nodes=[0], output_nodes=[3])
a, b, c = (mc[i].outcome for i in range(3))
assert ((a & b) | (a & c)).cond_nodes == {0, 1, 2}, ((a & b) | (a & c)).cond_nodes
assert (a ^ b).cond_nodes == {0, 1}
""")
seed("C17-cnot-sorted", "C17",
 [("mentpy/operators/gates.py", "        if k == i:\n            op2 = np.kron(op2, np.kron(np.array([[1], [0]]).T, np.array([[1], [0]])))", "        if k == min(i, j):\n            op2 = np.kron(op2, np.kron(np.array([[1], [0]]).T, np.array([[1], [0]])))"),
  ("mentpy/operators/gates.py", "        elif k == j:\n            op2 = np.kron(op2, np.kron(np.array([[0], [1]]).T, np.array([[0], [1]])))", "        elif k == max(i, j):\n            op2 = np.kron(op2, np.kron(np.array([[0], [1]]).T, np.array([[0], [1]])))")],
 "a CNOT whose control has the larger index",
 "the control and target are exchanged when the control index is larger than the target index",
 """import numpy as np
from mentpy.operators.gates import cnot_ij
assert np.allclose(cnot_ij(1, 2, 2), [[1,0,0,0],[0,1,0,0],[0,0,0,1],[0,0,1,0]])
assert np.allclose(cnot_ij(2, 1, 2), [[1,0,0,0],[0,0,0,1],[0,0,1,0],[0,1,0,0]])
""")
seed("C19-trace-terms", "C19",
 [("mentpy/calculator/state_ops.py", "    for m in range(2**r):", "    for m in range(r + 1):")],
 "a partial trace over two or more qubits at once of a state with weight on |11> of them",
 "the sum over the basis of the traced qubits misses terms",
 """import numpy as np
from mentpy.calculator import partial_trace
r = np.diag([.1, .2, .3, .05, .05, .1, .1, .1])
assert np.allclose(partial_trace(r, [0]), np.diag([.15, .3, .4, .15]))
assert np.allclose(partial_trace(r, [0, 1]), np.diag([.55, .45])), partial_trace(r, [0, 1])
""")
seed("C05-sorted-adjacency", "C05",
 [("mentpy/mbqc/flow.py", "    gamma = nx.adjacency_matrix(graph).toarray()\n\n    l = {}\n    g = {}", "    gamma = nx.adjacency_matrix(graph, nodelist=sorted(graph.nodes())).toarray()\n\n    l = {}\n    g = {}")],
 "a graph whose nodes were not inserted in increasing label order (kept when relabelling is off)",
 "the generalised flow search reads the adjacency of the wrong nodes",
 """import mentpy as mp
from mentpy.mbqc.flow import find_gflow
def gflow(order, edges, I, O):
    g = mp.GraphState(); g.add_nodes_from(order); g.add_edges_from(edges)
    f, o, d, l = find_gflow(g, I, O)
    return l
E = [(0, 1), (1, 2)]
a = gflow([0, 1, 2], E, [0], [2]); b = gflow([1, 0, 2], E, [0], [2])
assert a == {0: 2, 1: 1, 2: 0} and b == a, (a, b)
""")
seed("C06-adjacent-pairs", "C06",
 [("mentpy/mbqc/mbqcircuit.py", "        for j in range(i + 1, len(measurement_order)):", "        for j in range(i + 1, min(i + 2, len(measurement_order))):")],
 "a partial order that is not a weak order (given by the user or by controls) and an invalid measurement order whose consecutive elements are all unordered",
 "an order is accepted although a node comes before a non-adjacent node that must precede it",
 """import mentpy as mp, itertools
g = mp.GraphState(); g.add_edges_from([(0, 1), (2, 3)])
po = lambda i, j: (i, j) in {(0, 1), (2, 3)}
mc = mp.MBQCircuit(g, input_nodes=[0, 2], output_nodes=[1, 3], flow=lambda v: v + 1, partial_order=po)
for o in itertools.permutations(range(4)):
    ok = o.index(0) < o.index(1) and o.index(2) < o.index(3)
    try: mc.measurement_order = list(o); acc = True
    except ValueError: acc = False
    assert acc == ok, o
""")
seed("C08-controlled-or-trainable", "C08",
 [("mentpy/mbqc/mbqcircuit.py", "                if menti.is_trainable():\n                    trainable_nodes.append(nodei)", "                elif menti.is_trainable():\n                    trainable_nodes.append(nodei)")],
 "a controlled measurement with a trainable branch",
 "a controlled node with a trainable branch is not listed as trainable",
 """import mentpy as mp
g = mp.GraphState(); g.add_edges_from([(0, 1), (1, 2), (2, 3)])
mc = mp.MBQCircuit(g, input_nodes=[0], output_nodes=[3])
mc[2] = mp.ControlMent(mc[0].outcome, 0.3, "XY", 0.1, "XY")
assert mc.trainable_nodes == [0, 1] and mc.controlled_nodes == [2]
mc[1] = mp.ControlMent(mc[0].outcome, "XY")
assert mc.trainable_nodes == [0, 1] and mc.controlled_nodes == [1, 2], (mc.trainable_nodes, mc.controlled_nodes)
""")
seed("C15-subset-sorted", "C15",
 [("mentpy/operators/pauliop.py", "        inds = indices.copy()", "        inds = sorted(indices)")],
 "a subset given in non-increasing order",
 "restricting to qubits in a given order returns them in increasing order instead",
 """import mentpy as mp
assert mp.PauliOp("XYZ;IZX").get_subset([2, 0]).txt == "ZX\\nXI", mp.PauliOp("XYZ;IZX").get_subset([2, 0])
assert mp.PauliOp("XYZ;IZX").get_subset([0, 1]).txt == "XY\\nIZ"
""")
seed("C14-any-trainable", "C14",
 [("mentpy/operators/controlled_ment.py", "            if super().is_trainable():\n                return super().matrix(angle, *args, **kwargs)", "            if self.is_trainable():\n                return super().matrix(angle, *args, **kwargs)")],
 "a controlled measurement with a trainable 'true' branch and a fixed 'false' branch, evaluated with an angle while the condition is false",
 "the fixed branch no longer ignores the supplied angle (it is rejected)",
 """import mentpy as mp, numpy as np
g = mp.GraphState(); g.add_edges_from([(0, 1), (1, 2)])
mc = mp.MBQCircuit(g, input_nodes=[0], output_nodes=[2])
mc[1] = mp.ControlMent(mc[0].outcome, "XY", None, 0.4, "XY")
m = mc[1]
assert m.is_trainable()
assert np.allclose(m.matrix(0.9, {0: 1}), mp.Ment(0.9, "XY").matrix())
assert np.allclose(m.matrix(0.9, {0: 0}), mp.Ment(0.4, "XY").matrix())
""")
seed("C01-swaps-reversed", "C01",
 [("mentpy/simulators/np_simulator_dm.py", "        for i, j in swaps:\n            swap_op", "        for i, j in swaps[::-1]:\n            swap_op")],
 "at least three outputs (or inputs) whose declared order is a 3-cycle of the simulated order",
 "outputs come back in the wrong order for cyclic output orders",
 """import numpy as np, mentpy as mp
g = mp.GraphState(); g.add_nodes_from(range(4)); g.add_edge(0, 3)
psi = np.kron(np.kron([1, 0], [0.6, 0.8]), [0.8, -0.6])
mc = mp.MBQCircuit(g, input_nodes=[0, 1, 2], output_nodes=[3, 1, 2])
for O in ([1, 2, 3], [2, 3, 1], [3, 1, 2]):
    mc = mp.MBQCircuit(g, input_nodes=[0, 1, 2], output_nodes=O)
    a = mp.PatternSimulator(mc, input_state=psi, backend="numpy-dm")([0.0])
    q = {3: np.array([1, 1]) / np.sqrt(2), 1: np.array([0.6, 0.8]), 2: np.array([0.8, -0.6])}
    v = np.kron(np.kron(q[O[0]], q[O[1]]), q[O[2]])
    assert np.allclose(a, np.outer(v, v.conj()), atol=1e-6), O
""")
seed("C03-reset-inverse", "C03",
 [("mentpy/simulators/np_simulator_dm.py", """        if input_state is not None:
            input_state = self.reorder_qubits(
                input_state,
                self.mbqcircuit.input_nodes,
                self.schedule[: len(self.mbqcircuit.input_nodes)],
            )""", """        if input_state is not None:
            input_state = self.reorder_qubits(
                input_state,
                self.schedule[: len(self.mbqcircuit.input_nodes)],
                self.mbqcircuit.input_nodes,
            )""")],
 "a reset with an input state on a circuit with three inputs declared in a cyclic order of the schedule",
 "a state given at reset is fed to the inputs with the inverse permutation",
 """import numpy as np, mentpy as mp
g = mp.GraphState(); g.add_nodes_from(range(4)); g.add_edge(0, 3)
psi = np.kron(np.kron([1, 0], [0.6, 0.8]), [0.8, -0.6])
for I in ([0, 1, 2], [1, 2, 0], [2, 0, 1]):
    mc = mp.MBQCircuit(g, input_nodes=I, output_nodes=[1, 2, 3])
    for kw in ({}, {"schedule": [0, 1, 2, 3], "window_size": 4}):
        s = mp.PatternSimulator(mc, input_state=psi, backend="numpy-dm", **kw)
        a = s([0.3]); s.reset(input_state=psi); b = s([0.3])
        assert np.allclose(a, b, atol=1e-6), (I, kw)
""")

seed("C02-input-wires-sorted", "C02",
 [("mentpy/simulators/pennylane_simulator.py", "qml.QubitStateVector(input_v, wires=gsc.input_nodes)", "qml.QubitStateVector(input_v, wires=sorted(gsc.input_nodes))")],
 "input nodes that are not listed in increasing order, and an input state that is not symmetric",
 "the input state is prepared on the wrong wires",
 """import mentpy as mp, numpy as np
g = mp.GraphState(); g.add_edges_from([(0, 1), (2, 3)])
mc = mp.MBQCircuit(g, input_nodes=[2, 0], output_nodes=[3, 1])
st = np.kron(np.array([1, 2j]) / np.sqrt(5), np.array([3, 4]) / 5)
a = mp.PatternSimulator(mc, input_state=st, backend="pennylane").run([0.3, 0.8])
b = mp.PatternSimulator(mc, input_state=st, backend="numpy-dm").run([0.3, 0.8])
b = b[1] if isinstance(b, tuple) else b
assert np.allclose(a, b, atol=1e-6), (a, b)
""")
seed("C04-shared-io-corrections", "C04",
 [("mentpy/mbqc/flow.py", "    for v in set(output_nodes) - set(input_nodes):", "    for v in set(output_nodes):")],
 "a node that is both input and output and has exactly one measured neighbour",
 "an input node is used as a correction, so a causal flow is reported where none exists",
 """import mentpy as mp
from mentpy.mbqc.flow import find_cflow
g = mp.GraphState(); g.add_edges_from([(0, 1)]); g.add_node(2)
f = find_cflow(g, [0, 1], [1, 2])[0]
assert f is None, f(0)
""")
seed("C09-insertion-order", "C09",
 [("mentpy/mbqc/mbqcircuit.py", "            mapping = dict(zip(sorted(graph.nodes), range(N)))\n            inv_mapping = dict(zip(range(N), sorted(graph.nodes)))", "            mapping = dict(zip(graph.nodes, range(N)))\n            inv_mapping = dict(zip(range(N), graph.nodes))")],
 "a graph whose nodes were not inserted in increasing label order",
 "nodes are renamed by insertion order and not by label order",
 """import mentpy as mp
g = mp.GraphState(); g.add_edges_from([(2, 1), (1, 0)])
mc = mp.MBQCircuit(g, input_nodes=[0], output_nodes=[2])
assert mc.input_nodes == [0] and mc.output_nodes == [2] and sorted(map(sorted, mc.graph.edges)) == [[0, 1], [1, 2]]
""")
seed("C10-merge-output-slot", "C10",
 [("mentpy/mbqc/mbqcircuit.py", "            input_index = state2.input_nodes.index(inputnode)", "            input_index = along2.index(inputnode)")],
 "merging along some of the wires, or in another order than the inputs of the second circuit",
 "the outputs of the merged circuit are listed on the wrong wires",
 """import mentpy as mp
a = mp.templates.many_wires([2, 2]); b = mp.templates.many_wires([3, 2])
m = mp.merge(a, b, [(3, 3)])   # second wire of a continues in the second wire of b
# wires: a0-a1, a2-[b3]-b4, b0-b1-b2
ends = []
for o in m.output_nodes:
    seen = {o}; todo = [o]
    while todo:
        for w in m.graph.neighbors(todo.pop()):
            if w not in seen: seen.add(w); todo.append(w)
    ends.append(len(seen) * 10 + (m.input_nodes.index([i for i in m.input_nodes if i in seen][0])))
assert ends == [20, 31, 32], ends
""")
seed("C18-tall-pivot", "C18",
 [("mentpy/calculator/linalg2.py", "        for pivot_row in range(row, rows):", "        for pivot_row in range(row, min(rows, cols + row)):")],
 "a system with many more equations than unknowns whose pivot lies in a late row",
 "the pivot of a column is not found below the first rows, and the returned vector is not a solution of a solvable system",
 """import numpy as np, galois
from mentpy.calculator.linalg2 import solve
GF = galois.GF(2)
A = GF(np.array([[0], [0], [1]])); b = GF(np.array([[0], [0], [1]]))
x = GF(np.array(solve(A, b)).astype(int)).reshape(-1, 1)
assert (A @ x == b).all(), x
""")
seed("C21-cylinder-two-rows", "C21",
 [("mentpy/mbqc/templates.py", "        for j in range(m):\n            g.add_edge(j, (n - 1) * m + j)", "        for j in range(m):\n            g.add_edge(j, (n - 1) * m + (j if n > 3 else m - 1 - j))")],
 "a periodic grid with two or three rows",
 "the edges that close the cylinder are reversed",
 """import mentpy as mp
mc = mp.templates.grid_cluster(3, 3, periodic=True)
E = {tuple(sorted(e)) for e in mc.graph.edges}
W = {(3 * i + j, 3 * i + j + 1) for i in range(3) for j in range(2)} | {(3 * i + j, 3 * i + j + 3) for i in range(2) for j in range(3)} | {(j, 6 + j) for j in range(3)}
assert E == W, E ^ W
""")
seed("C23-hessian-symmetrised", "C23",
 [("mentpy/gradients/_parameter_shift.py", "        for j in range(len(x)):\n            hess[i, j] = (", "        for j in range(i + 1):\n            hess[i, j] = ("), ("mentpy/gradients/_parameter_shift.py", "    return hess", "    return np.maximum(hess, hess.T)")],
 "a negative mixed second derivative",
 "half of the Hessian is computed and mirrored with a maximum, so that negative mixed derivatives become zero",
 """import numpy as np
from mentpy.gradients import get_hessian
f = lambda x: np.cos(x[0]) * np.cos(x[1]) + np.sin(x[0])
x = np.array([0.4, -0.7])
h = get_hessian(f, x, method="parameter-shift")
w = np.array([[-np.cos(.4) * np.cos(.7) - np.sin(.4), -np.sin(.4) * np.sin(.7)], [-np.sin(.4) * np.sin(.7), -np.cos(.4) * np.cos(.7)]])
assert np.allclose(h, w), (h, w)
""")
seed("C24-backward-mixed", "C24",
 [("mentpy/gradients/_finite_difference.py", "                    f(x)\n                    - f(x - h * np.eye(len(x))[i])\n                    - f(x - h * np.eye(len(x))[j])", "                    f(x)\n                    - f(x - h * np.eye(len(x))[i])\n                    - f(x - h * np.eye(len(x))[i if i > j else j])")],
 "the backward scheme for the Hessian, below the diagonal",
 "lower mixed derivatives subtract the same point twice",
 """import numpy as np
from mentpy.gradients import get_hessian
f = lambda x: x[0] ** 2 + 3 * x[0] * x[1] - 2 * x[1] ** 2 + x[0]
h = get_hessian(f, np.array([1.0, 2.0]), method="fd", h=0.5, type="backward")
assert np.allclose(h, [[2, 3], [3, -4]]), h
""")
seed("C25-adam-late-bias", "C25",
 [("mentpy/optimizers/adam.py", "            vhat = v / (1 - self.b2 ** (i + 1))", "            vhat = v / (1 - self.b2 ** max(i, 1))")],
 "the gradient-norm driver with at least two iterations",
 "the two drivers use different bias corrections from the second iteration on",
 """import numpy as np, mentpy as mp
from mentpy.optimizers import AdamOptimizer
f = lambda x: float(np.sum(np.cos(x)))
a = AdamOptimizer().optimize(f, np.array([0.3, 1.0]), num_iters=3)
b = AdamOptimizer().optimize_and_gradient_norm(f, np.array([0.3, 1.0]), num_iters=3)[0]
assert np.allclose(a, b), (a, b)
""")
seed("C26-identity-first", "C26",
 [("mentpy/utils/lie_algebra.py", "    if identityPauli not in lieAlg:", "    if identityPauli not in lieAlg[1:]:")],
 "a generating set whose first element is the identity",
 "the identity is listed twice",
 """import mentpy as mp
from mentpy.utils.lie_algebra import lie_algebra_completion
a = [str(x) for x in lie_algebra_completion(mp.PauliOp("II;XI;ZI"))]
assert len(a) == len(set(a)) == 4, a
""")
seed("C27-own-stabilizer", "C27",
 [("mentpy/utils/lie_algebra.py", "        if (not state.partial_order(j, k)) or k == j:", "        if (not state.partial_order(j, k)) and k != j:")],
 "a graph on which the constraints without the one for the node itself have another solution",
 "the operator of a node may use the stabilizer of that node",
 """import mentpy as mp
from mentpy.utils.lie_algebra import _find_solution
import itertools
for E in ([(0, 1), (0, 2), (0, 3), (1, 2)], [(0, 1), (0, 2), (1, 2), (1, 3)]):
    g = mp.GraphState(); g.add_nodes_from(range(4)); g.add_edges_from(E)
    mc = mp.MBQCircuit(g, input_nodes=[0, 1], output_nodes=[3, 2])
    for j in mc.outputc:
        op = _find_solution(j, mc, mc.stabilizers())   # X part of the product = the stabilizers used
        assert op.matrix[0, j] == 0, (E, j, op)
""")
seed("C28-global-blocks", "C28",
 [("mentpy/utils/lc_equivalence.py", "np.block([[blocks[0], blocks[1]], [blocks[2], blocks[3]]])", "np.block([[blocks[0], blocks[2]], [blocks[1], blocks[3]]])")],
 "the global output form, for graphs whose Clifford is not symmetric",
 "the returned global operator is the transpose and does not map one state to the other",
 """import mentpy as mp, numpy as np
from mentpy.utils.lc_equivalence import are_lc_equivalent
g = mp.GraphState(); g.add_edges_from([(0, 1), (0, 2)]); h = mp.GraphState(); h.add_edges_from([(0, 1), (0, 2), (1, 2)])
t = are_lc_equivalent(g, h)[1]; G = are_lc_equivalent(g, h, clifford_form="global")[1]
for k in range(3):
    assert np.array_equal(np.array(t[k]), G[np.ix_([k, k + 3], [k, k + 3])]), (t, G)
""")
seed("C29-output-order", "C29",
 [("mentpy/utils/flow_space.py", "        self.output_nodes = graph_state.output_nodes", "        self.output_nodes = sorted(graph_state.output_nodes)")],
 "a circuit whose outputs are not listed in increasing order",
 "the circuits in the flow space have their outputs on other wires than the given circuit",
 """import mentpy as mp
from mentpy.utils import FlowSpace
mc = mp.MBQCircuit(mp.templates.many_wires([2, 2]).graph, input_nodes=[0, 2], output_nodes=[3, 1])
fs = FlowSpace(mc)
assert all(d["mbqc_circuit"].output_nodes == [3, 1] for _, d in fs.total_graph_space.nodes(data=True))
""")
seed("C30-empty-test-set", "C30",
 [("mentpy/utils/generate_data.py", "    random_targets_test = [(unitary @ st.T).T for st in random_inputs[n_train_samples:]]", "    random_targets_test = [(unitary @ st.T).T for st in random_inputs[-n_test_samples:]]")],
 "a test fraction so small that the test set is empty",
 "the empty test set gets the targets of all samples",
 """import mentpy as mp, numpy as np
from mentpy.utils import generate_random_dataset_noisy
(a, b), (c, d) = generate_random_dataset_noisy(np.eye(2), 3, test_size=0.1)
assert len(a) == len(b) == 3 and len(c) == len(d) == 0, (len(b), len(d))
""")
seed("C31-one-qubit-density", "C31",
 [("mentpy/utils/expressivity.py", "** (N - 2)", "** max(N - 2, 1)")],
 "circuits on one qubit",
 "the reference density of one qubit integrates to 1/2",
 """from mentpy.utils.expressivity import haar_probability_density_of_fidelities as h
assert abs(h(0.25, 1) - 1) < 1e-9 and abs(h(0.25, 2) - 3 * 0.75 ** 2) < 1e-9
""")
seed("C33-colors-by-measurement", "C33",
 [("mentpy/mbqc/view.py", '[node_colors[node] for node in state.graph.nodes()]', '[node_colors[node] for node in sorted(state.graph.nodes())]')],
 "a circuit whose graph lists its nodes in another order than the labels",
 "colours are attached to the wrong nodes",
 """import matplotlib; matplotlib.use("Agg")
import mentpy as mp, networkx as nx
import mentpy.mbqc.view as v
g = mp.GraphState(); g.add_edges_from([(2, 1), (1, 0)])
mc = mp.MBQCircuit(g, input_nodes=[0], output_nodes=[2], relabel_indices=False)
got = []
old = nx.draw
def rec(graph, *a, **k): got.append((list(graph.nodes), k["node_color"])); return old(graph, *a, **k)
v.nx.draw = rec
mp.draw(mc, show_flow=False)
nodes, cols = got[0]; want = v.get_node_colors(mc)
assert [want[n] for n in nodes] == list(cols), got
""")
seed("C37-isolated-nodes", "C37",
 [("mentpy/simulators/pennylane_simulator.py", "            for i in range(N):\n", "            for i in [k for k in range(N) if gr.degree(k)]:\n")],
 "circuit noise on a circuit with a node without edges (an input that is also an output)",
 "qubits without edges get no noise",
 """import mentpy as mp, numpy as np
g = mp.GraphState(); g.add_edge(0, 1); g.add_node(2)
mc = mp.MBQCircuit(g, input_nodes=[0, 2], output_nodes=[1, 2])
s = mp.PatternSimulator(mc, input_state=np.array([1, 0, 0, 0]), backend="pennylane", device="default.mixed", circuit_noise="amplitude_damping", p=0.4)
r = np.array(s.run([0.2]))
s0 = mp.PatternSimulator(mc, input_state=np.array([0, 1, 0, 0]), backend="pennylane", device="default.mixed", circuit_noise="amplitude_damping", p=0.4)
r0 = np.array(s0.run([0.2])).reshape(2, 2, 2, 2).trace(axis1=0, axis2=2)
assert abs(r0[0, 0] - 0.4) < 1e-6, r0
""")
seed("C38-as-many-layers-as-angles", "C38",
 [("mentpy/mbqc/mbqcircuit.py", "for layer in self.gflow.layers[:-1]", "for layer in self.gflow.layers[: min(len(self.trainable_nodes), self.gflow.depth)]")],
 "a circuit with fewer trainable nodes than layers",
 "the last layers are dropped from the trainable indices",
 """import mentpy as mp
g = mp.GraphState(); g.add_edges_from([(0, 1), (1, 2), (2, 3)])
mc = mp.MBQCircuit(g, input_nodes=[0], output_nodes=[3], measurements={0: mp.Ment("X"), 1: mp.Ment("X"), 2: mp.Ment("XY")})
assert mc.ordered_layers(train_indices=True) == [[], [], [0]], mc.ordered_layers(train_indices=True)
""")
seed("C39-inputs-exempt", "C39",
 [("mentpy/mbqc/flow.py", "c3 = math.prod([partial_order(i, k) for k in set(nfi) - {i}])", "c3 = math.prod([partial_order(i, k) for k in set(nfi) - {i} - set(input_nodes)])")],
 "an image with a neighbouring input that does not come later",
 "a map is accepted although a node does not precede an input next to its image",
 """import mentpy as mp, networkx as nx
from mentpy.mbqc.flow import check_if_flow
g = mp.GraphState(); g.add_edges_from([(0, 2), (1, 2), (1, 3)])
f = {0: 2, 1: 3}
order = {(0, 2), (1, 3)}           # 0 must also precede 1
assert not check_if_flow(g, [0, 1], [2, 3], lambda v: f[v], lambda a, b: (a, b) in order)
assert check_if_flow(g, [0, 1], [2, 3], lambda v: f[v], lambda a, b: (a, b) in order | {(0, 1)})
""")
seed("C40-no-angles-no-options", "C40",
 [("mentpy/simulators/pattern_simulator.py", "        return self.simulator.run(angles, **kwargs)\n", "        if len(angles) == 0:\n            return self.simulator.run(angles)\n        return self.simulator.run(angles, **kwargs)\n")],
 "a circuit without trainable nodes that is run with an input state",
 "options of a run are dropped for circuits without parameters",
 """import numpy as np, mentpy as mp
g = mp.GraphState(); g.add_edges_from([(0, 1)])
mc = mp.MBQCircuit(g, input_nodes=[0], output_nodes=[1], measurements={0: mp.Ment("X")})
s = mp.PatternSimulator(mc, backend="numpy-dm")
r = s.run([], input_state=np.array([1.0, 0.0]))
assert np.allclose(r, 0.5 * np.ones((2, 2))), r
""")
seed("C41-threshold", "C41",
 [("mentpy/simulators/np_simulator_dm.py", "if prob0 < 1e-4:", "if prob0 < 1e-1:")],
 "an XZ or YZ measurement whose outcome 0 is unlikely but possible",
 "the outcome is 1 although 0 is possible",
 """import numpy as np, mentpy as mp
g = mp.GraphState(); g.add_edges_from([(0, 1)])
mc = mp.MBQCircuit(g, input_nodes=[0], output_nodes=[1], measurements={0: mp.Ment("XZ")})
s = mp.PatternSimulator(mc, input_state=np.array([np.sin(0.25), np.cos(0.25)]), backend="numpy-dm")
s.run([np.pi / 2]); assert s.outcomes[0] == 0, s.outcomes
""")
seed("C41-expectation-collapses", "C41",
 [("mentpy/simulators/np_simulator_dm.py", '        COND = (mode == "expectation" or mode == "exp") and ment.plane == "Z"\n', '        COND = mode in ("expectation", "exp") and ment.plane == "Z" and self.current_measurement > 0\n')],
 "expectation mode with a Z measurement on the first node",
 "the first Z measurement is sampled in expectation mode",
 """import numpy as np, mentpy as mp
g = mp.GraphState(); g.add_edges_from([(0, 1)])
mc = mp.MBQCircuit(g, input_nodes=[0], output_nodes=[1], measurements={0: mp.Ment("Z")})
s = mp.PatternSimulator(mc, input_state=np.array([0.6, 0.8]), backend="numpy-dm")
s.run([], mode="expectation"); assert abs(s.outcomes[0] - 0.64) < 1e-9, s.outcomes
""")
seed("C42-outputs-without-chain", "C42",
 [("mentpy/mbqc/flow.py", "        P[v], L[v] = i, l\n", "        L[v] = l\n")],
 "a second wire (outputs of other chains get the chain of node 0)",
 "the order relates nodes with the wrong outputs, or the self-check fails",
 """import warnings; warnings.simplefilter("ignore")
import mentpy as mp
from mentpy.mbqc.flow import find_flow
g = mp.GraphState(); g.add_edges_from([(0, 2), (1, 3)])
f, p = find_flow(g, [0, 1], [2, 3], sanity_check=False)
assert f(1) == 3 and p(1, 3) and not p(0, 3), (p(1, 3), p(0, 3))
""")
seed("C22-two-y-are-enough", "C22",
 [("mentpy/mbqc/templates.py", "        if has_x and has_z:", "        if has_x and has_z and number_of_ys < 2:")],
 "an operator with three Y factors",
 "the ancilla is measured in the wrong basis",
 """import mentpy as mp
mc = mp.templates.from_pauli(mp.PauliOp("YYY"))
assert mc[9].plane == "Y", mc[9]
mc = mp.templates.from_pauli(mp.PauliOp("YYX"))
assert mc[9].plane == "X", mc[9]
""")
seed("C32-outputs-sorted", "C32",
 [("mentpy/mbqc/mbqcircuit.py", "                new_graph,\n                self.input_nodes,\n                self.output_nodes,\n", "                new_graph,\n                self.input_nodes,\n                sorted(self.output_nodes),\n")],
 "a circuit whose outputs are not declared in increasing order",
 "adding an edge changes the order of the outputs",
 """import mentpy as mp
g = mp.GraphState(); g.add_edges_from([(0, 3), (1, 2)])
mc = mp.MBQCircuit(g, input_nodes=[0, 1], output_nodes=[3, 2])
mc.add_edge(0, 1); assert list(mc.output_nodes) == [3, 2], mc.output_nodes
""")

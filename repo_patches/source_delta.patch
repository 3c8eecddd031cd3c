From 5b6c2253f67f35ecfb0476b4f2627d8dc13f2b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:59 +0000
Subject: [PATCH 01/39] fix: measurement_order setter accepts exactly the
 orders that respect the partial order

---
 mentpy/mbqc/mbqcircuit.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 389e841..fa52844 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -296,7 +296,9 @@ class MBQCircuit:
     @measurement_order.setter
     def measurement_order(self, measurement_order: List[int]) -> None:
         r"""Set the measurement order of the MBQC circuit."""
-        if not _check_measurement_order(measurement_order, self.partial_order):
+        if sorted(measurement_order) != sorted(
+            self.graph.nodes
+        ) or not _check_measurement_order(measurement_order, self.partial_order):
             raise ValueError(f"Invalid measurement order {measurement_order}.")
         self._measurement_order = measurement_order
 
@@ -451,7 +453,7 @@ def _check_measurement_order(measurement_order: List, partial_order: Callable):
     r"""Checks that the measurement order is valid"""
     for i in range(len(measurement_order)):
         for j in range(i + 1, len(measurement_order)):
-            if partial_order(measurement_order[i], measurement_order[j]):
+            if partial_order(measurement_order[j], measurement_order[i]):
                 return False
     return True
 
-- 
2.43.0


From 4ad53b84875850d01c37e316b5569ff25cc42969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:59 +0000
Subject: [PATCH 02/39] fix: depth of a causal flow is its largest layer, not
 the largest image node

---
 mentpy/mbqc/flow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mentpy/mbqc/flow.py b/mentpy/mbqc/flow.py
index a54dd99..90bab29 100644
--- a/mentpy/mbqc/flow.py
+++ b/mentpy/mbqc/flow.py
@@ -144,7 +144,7 @@ def find_cflow(graph: GraphState, input_nodes, output_nodes) -> object:
     if len(flow) != len(graph.nodes()) - len(output_nodes):
         return None, None, None, None
 
-    return lambda x: flow[x], lambda u, v: ln[u] > ln[v], max(flow.values()), ln
+    return lambda x: flow[x], lambda u, v: ln[u] > ln[v], max(ln.values()), ln
 
 
 def causal_flow_aux(graph: GraphState, inputs, outputs, C, past, k, g, l) -> object:
-- 
2.43.0


From f1f2d3d26637e540fff63882915a6b5ea15830f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:59 +0000
Subject: [PATCH 03/39] fix: measurement orders keep inputs after the nodes
 they depend on

---
 mentpy/mbqc/flow.py                  |  3 +++
 mentpy/mbqc/mbqcircuit.py            |  3 +++
 mentpy/simulators/np_simulator_dm.py | 11 +++++++----
 mentpy/simulators/np_simulator_sv.py | 11 +++++++----
 4 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/mentpy/mbqc/flow.py b/mentpy/mbqc/flow.py
index 90bab29..1478a9c 100644
--- a/mentpy/mbqc/flow.py
+++ b/mentpy/mbqc/flow.py
@@ -77,6 +77,9 @@ class Flow:
             # This can be optimized!!
             order = [item for sublist in self.layers for item in sublist]
             for i in self.input_nodes[::-1]:
+                # an input that must wait for another node keeps its place
+                if any(partial_order(j, i) for j in order):
+                    continue
                 order.remove(i)
                 order.insert(0, i)
             self.measurement_order = order
diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index fa52844..d5c197c 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -418,6 +418,9 @@ class MBQCircuit:
         order = [item for sublist in sorted_labels for item in sublist]
 
         for i in self.input_nodes[::-1]:
+            # an input that must wait for another node keeps its place
+            if any(self.partial_order(j, i) for j in self.graph.nodes()):
+                continue
             order.remove(i)
             order.insert(0, i)
 
diff --git a/mentpy/simulators/np_simulator_dm.py b/mentpy/simulators/np_simulator_dm.py
index b01aae1..1f0f288 100644
--- a/mentpy/simulators/np_simulator_dm.py
+++ b/mentpy/simulators/np_simulator_dm.py
@@ -50,13 +50,16 @@ class NumpySimulatorDM(BaseSimulator):
                 i for i in self.schedule if i not in mbqcircuit.quantum_output_nodes
             ]
         elif mbqcircuit.measurement_order is not None:
-            # remove output nodes from the measurement order
-            self.schedule_measure = [
+            # only outcome 0 is simulated, so the input nodes can go first
+            self.schedule = list(mbqcircuit.input_nodes) + [
                 i
                 for i in mbqcircuit.measurement_order
-                if i not in mbqcircuit.quantum_output_nodes
+                if i not in mbqcircuit.input_nodes
+            ]
+            # remove output nodes from the measurement order
+            self.schedule_measure = [
+                i for i in self.schedule if i not in mbqcircuit.quantum_output_nodes
             ]
-            self.schedule = mbqcircuit.measurement_order
             if self.window_size == 1 and mbqcircuit.flow is not None:
                 self.window_size = len(mbqcircuit.input_nodes) + 1
         else:
diff --git a/mentpy/simulators/np_simulator_sv.py b/mentpy/simulators/np_simulator_sv.py
index e7491f8..8ba32ec 100644
--- a/mentpy/simulators/np_simulator_sv.py
+++ b/mentpy/simulators/np_simulator_sv.py
@@ -64,13 +64,16 @@ class NumpySimulatorSV(BaseSimulator):
                 i for i in self.schedule if i not in mbqcircuit.output_nodes
             ]
         elif mbqcircuit.measurement_order is not None:
-            # remove output nodes from the measurement order
-            self.schedule_measure = [
+            # only outcome 0 is simulated, so the input nodes can go first
+            self.schedule = list(mbqcircuit.input_nodes) + [
                 i
                 for i in mbqcircuit.measurement_order
-                if i not in mbqcircuit.output_nodes
+                if i not in mbqcircuit.input_nodes
+            ]
+            # remove output nodes from the measurement order
+            self.schedule_measure = [
+                i for i in self.schedule if i not in mbqcircuit.output_nodes
             ]
-            self.schedule = mbqcircuit.measurement_order
             if self.window_size == 1 and mbqcircuit.flow is not None:
                 self.window_size = len(mbqcircuit.input_nodes) + 1
         else:
-- 
2.43.0


From f8a0896ea763c34d4399ea8fc5a184f3d2f816dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:53 +0000
Subject: [PATCH 04/39] fix: circuits with a user-supplied flow and order can
 be built and relabelled

---
 mentpy/mbqc/flow.py       | 26 ++++++++++++++++++++++++--
 mentpy/mbqc/mbqcircuit.py |  5 +++--
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/mentpy/mbqc/flow.py b/mentpy/mbqc/flow.py
index 1478a9c..7b22bb3 100644
--- a/mentpy/mbqc/flow.py
+++ b/mentpy/mbqc/flow.py
@@ -58,11 +58,18 @@ def binary_gaussian_elimination(A, b):
 class Flow:
     """This class deals with the flow of a given graph state"""
 
-    def __init__(self, graph: GraphState, input_nodes, output_nodes):
+    def __init__(
+        self, graph: GraphState, input_nodes, output_nodes, flow=None, order=None
+    ):
         self.graph = graph
         self.input_nodes = input_nodes
         self.output_nodes = output_nodes
-        flow_function, partial_order, depth, layers = self.find_flow()
+        if flow is not None and order is not None:
+            layers = _layers_from_order(graph, order)
+            depth = max(layers.values(), default=0)
+            flow_function, partial_order = flow, order
+        else:
+            flow_function, partial_order, depth, layers = self.find_flow()
         self.func = flow_function
         self.partial_order = partial_order
         self.depth = depth
@@ -112,6 +119,21 @@ class Flow:
         raise NotImplementedError
 
 
+def _layers_from_order(graph: GraphState, partial_order):
+    """Layers of a given partial order: nodes without successors are in layer 0."""
+    layers, k = {}, 0
+    while len(layers) < len(graph):
+        rest = [v for v in graph.nodes() if v not in layers]
+        layer = [
+            v for v in rest if not any(partial_order(v, w) for w in rest if w != v)
+        ]
+        if len(layer) == 0:
+            raise ValueError("The given partial order has a cycle.")
+        layers.update({v: k for v in layer})
+        k += 1
+    return layers
+
+
 ### This section implements causal flow -- Runs in time O(min(m, kn))
 
 
diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index d5c197c..fea5c66 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -76,9 +76,9 @@ class MBQCircuit:
             input_nodes = [mapping[i] for i in input_nodes]
             output_nodes = [mapping[i] for i in output_nodes]
             if flow is not None:
-                flow = lambda x: mapping[flow(inv_mapping[x])]
+                flow = lambda x, old_flow=flow: mapping[old_flow(inv_mapping[x])]
             if partial_order is not None:
-                partial_order = lambda x, y: partial_order(
+                partial_order = lambda x, y, old_order=partial_order: old_order(
                     inv_mapping[x], inv_mapping[y]
                 )
             if measurement_order is not None:
@@ -143,6 +143,7 @@ class MBQCircuit:
 
         elif (flow is not None) and (partial_order is not None):
             check_if_flow(graph, input_nodes, output_nodes, flow, partial_order)
+            self.gflow = Flow(graph, input_nodes, output_nodes, flow, partial_order)
 
         self._flow = flow
         self._partial_order = partial_order
-- 
2.43.0


From 1a20587c9d6c4c974bb0eac03395cd6e832ed28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:32 +0000
Subject: [PATCH 05/39] fix: the order of a circuit follows its current
 controls, also the ones given at construction

---
 mentpy/mbqc/mbqcircuit.py | 44 ++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index fea5c66..43b53ab 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -132,7 +132,7 @@ class MBQCircuit:
                     )
 
         self._measurements = measurements
-        self._flow, self._partial_order = None, None
+        self._flow, self._partial_order, self._flow_order = None, None, None
         self._update_attributes()
 
         if (flow is None) or (partial_order is None):
@@ -146,7 +146,8 @@ class MBQCircuit:
             self.gflow = Flow(graph, input_nodes, output_nodes, flow, partial_order)
 
         self._flow = flow
-        self._partial_order = partial_order
+        self._flow_order = partial_order
+        self._update_partial_order()
 
         if measurement_order is None and flow is not None:
             measurement_order = self.calculate_order()
@@ -369,10 +370,14 @@ class MBQCircuit:
         #     self._partial_order = partial_order
         #     self._depth = depth
 
-        if self._partial_order is not None:
-            old_partial_order = self._partial_order
+        self._update_partial_order()
+
+    def _update_partial_order(self) -> None:
+        # always start from the order of the flow, so that controls that were
+        # replaced or deleted do not constrain the order anymore
+        if self._flow_order is not None:
             self._partial_order = _create_new_partial_order(
-                self.controlled_nodes, self.measurements, old_partial_order
+                self.controlled_nodes, self.measurements, self._flow_order
             )
 
     def _update_attributes_key(self, key) -> None:
@@ -618,21 +623,18 @@ def _hstack2(state1: MBQCircuit, state2: MBQCircuit) -> MBQCircuit:
 
 
 def _create_new_partial_order(controlled_nodes, measurements, old_partial_order):
-    def new_partial_order(i, j):
-        for c in controlled_nodes:
-            cns = measurements[c].condition.cond_nodes
-
-            ibeforecns = any([old_partial_order(i, cn) for cn in cns]) or i in cns
-            jafterc = old_partial_order(c, j) or j == c
-            # print(f"Comparing {i} and {j}")
-            # print(any([old_partial_order(i, cn) for cn in cns]), i in cns)
-            # print(old_partial_order(c, j), j == c)
-            if ibeforecns and jafterc and i != j:
-                return True
-
-            if j in cns and i == c:
-                return False
+    if len(controlled_nodes) == 0:
+        return old_partial_order
+
+    nodes = list(measurements)
+    pairs = {(i, j) for i in nodes for j in nodes if old_partial_order(i, j)}
 
-        return old_partial_order(i, j)
+    # add the controls one by one, so that chains of controls are also ordered
+    for c in controlled_nodes:
+        cns = measurements[c].condition.cond_nodes
+        beforec = [i for i in nodes if any(i == cn or (i, cn) in pairs for cn in cns)]
+        afterc = [j for j in nodes if j == c or (c, j) in pairs]
+        pairs |= {(i, j) for i in beforec for j in afterc if i != j}
+        pairs -= {(c, cn) for cn in cns}
 
-    return new_partial_order
+    return lambda i, j: (i, j) in pairs
-- 
2.43.0


From 8ea2c05af59ee7b502412b3eabe368b4c0b756cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:09 +0000
Subject: [PATCH 06/39] fix: controlled measurements with constant conditions
 or fixed branches give operators and copies

---
 mentpy/operators/controlled_ment.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/mentpy/operators/controlled_ment.py b/mentpy/operators/controlled_ment.py
index aa0b13e..9aa4104 100644
--- a/mentpy/operators/controlled_ment.py
+++ b/mentpy/operators/controlled_ment.py
@@ -34,7 +34,7 @@ class ControlMent(Ment):
     @property
     def condition(self) -> bool:
         if isinstance(self._condition, bool):
-            return lambda x: self._condition
+            return MentOutcome(self._condition)
         elif isinstance(self._condition, MentOutcome):
             return self._condition
 
@@ -80,7 +80,7 @@ class ControlMent(Ment):
 
     def copy(self):
         return ControlMent(
-            self.condition,
+            self._condition,
             self._true_ment.angle,
             self._true_ment.plane,
             self._angle,
@@ -103,11 +103,5 @@ class ControlMent(Ment):
             else:
                 return super().matrix()
 
-    def get_povm(self, angle: float | None = None, *args, **kwargs):
-        if self.condition(*args, **kwargs):
-            return self._true_ment.get_povm(angle, *args, **kwargs)
-        else:
-            return super().get_povm(angle, *args, **kwargs)
-
 
 ControlledMent = ControlMent
-- 
2.43.0


From e6001d2e03daf14afebeaeaf7656faff5249482b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:13 +0000
Subject: [PATCH 07/39] fix: numpy simulators measure the scheduled node and
 never drop edges

---
 mentpy/simulators/base_simulator.py  | 15 ++++++
 mentpy/simulators/np_simulator_dm.py | 68 +++++++++++++------------
 mentpy/simulators/np_simulator_sv.py | 76 +++++++++++++---------------
 3 files changed, 85 insertions(+), 74 deletions(-)

diff --git a/mentpy/simulators/base_simulator.py b/mentpy/simulators/base_simulator.py
index de9eb08..c27e91e 100644
--- a/mentpy/simulators/base_simulator.py
+++ b/mentpy/simulators/base_simulator.py
@@ -73,6 +73,21 @@ class BaseSimulator(abc.ABC):
     def __repr__(self) -> str:
         return f"{self.__class__.__name__} for {self.mbqcircuit}"
 
+    def valid_window(self) -> bool:
+        """Checks that the edges of every node are applied before it is measured, if
+        only ``window_size`` nodes of the schedule are simulated at once."""
+        current = list(self.schedule[: self.window_size])
+        upcoming = list(self.schedule[self.window_size :])
+        for node in self.schedule_measure:
+            if node not in current:
+                return False
+            if any(self.mbqcircuit.graph.has_edge(node, v) for v in upcoming):
+                return False
+            current.remove(node)
+            if upcoming:
+                current.append(upcoming.pop(0))
+        return len(upcoming) == 0
+
     @abc.abstractmethod
     def measure(self, angle: float, **kwargs):
         """Measures the state of the system.
diff --git a/mentpy/simulators/np_simulator_dm.py b/mentpy/simulators/np_simulator_dm.py
index 1f0f288..e5e22f1 100644
--- a/mentpy/simulators/np_simulator_dm.py
+++ b/mentpy/simulators/np_simulator_dm.py
@@ -61,7 +61,12 @@ class NumpySimulatorDM(BaseSimulator):
                 i for i in self.schedule if i not in mbqcircuit.quantum_output_nodes
             ]
             if self.window_size == 1 and mbqcircuit.flow is not None:
-                self.window_size = len(mbqcircuit.input_nodes) + 1
+                self.window_size = min(
+                    len(mbqcircuit.input_nodes) + 1, len(self.schedule)
+                )
+                # some circuits need a larger window to apply all their cz gates
+                while self.window_size < len(self.schedule) and not self.valid_window():
+                    self.window_size += 1
         else:
             raise ValueError(
                 "Schedule must be provided for numpy simulator as the MBQCircuit does not have a flow."
@@ -82,9 +87,15 @@ class NumpySimulatorDM(BaseSimulator):
                 " Input state must have at most as many qubits as the window size minus one."
             )
 
-        if self.window_size > len(self.schedule_measure):
+        if self.window_size > len(self.schedule):
+            raise ValueError(
+                f"Window size is set to {self.window_size}, but schedule only has {len(self.schedule)} nodes."
+            )
+
+        if not self.dev_mode and not self.valid_window():
             raise ValueError(
-                f"Window size is set to {self.window_size}, but schedule only has {len(self.schedule_measure)} measurements."
+                f"Window size is set to {self.window_size}, but some nodes would be measured"
+                " before all of their edges are applied. Increase the window size."
             )
 
         self.current_measurement = 0
@@ -100,8 +111,7 @@ class NumpySimulatorDM(BaseSimulator):
 
         self.initial_czs = np.eye(2**self.window_size)
 
-        if self.dev_mode:
-            self._current_simulated_nodes = self.schedule[0 : self.window_size]
+        self._current_simulated_nodes = self.schedule[0 : self.window_size]
 
         # apply cz gates to neighboring qubits
         for node in self.subgraph.nodes:
@@ -119,17 +129,11 @@ class NumpySimulatorDM(BaseSimulator):
 
     def current_simulated_nodes(self) -> List[int]:
         """Returns the nodes that are currently simulated."""
-        if not self.dev_mode:
-            return self.schedule[
-                self.current_measurement : self.current_measurement + self.window_size
-            ]
-        elif self.dev_mode:
-            return self._current_simulated_nodes
+        return self._current_simulated_nodes
 
     def current_number_simulated_nodes(self) -> int:
         """Returns the number of nodes that are currently simulated."""
-        n = self.window_size
-        return min(n, len(self.mbqcircuit) - self.current_measurement)
+        return len(self._current_simulated_nodes)
 
     def node_in_which_wire(self, node: int) -> int:
         """Returns the wire in which the node is."""
@@ -156,10 +160,9 @@ class NumpySimulatorDM(BaseSimulator):
             raise ValueError("No more measurements to be done.")
 
         if not self.dev_mode:
-            current_ment = self.mbqcircuit[
-                self.schedule_measure[self.current_measurement]
-            ].copy()
-            indx = 0
+            node = self.schedule_measure[self.current_measurement]
+            current_ment = self.mbqcircuit[node].copy()
+            indx = self.current_simulated_nodes().index(node)
         elif self.dev_mode:
             # if in dev mode, we measure the first node in the current_simulated_nodes
             # only if a neighbor in the same wire is also in the current_simulated_nodes
@@ -183,21 +186,21 @@ class NumpySimulatorDM(BaseSimulator):
             raise ValueError(
                 "qstate has nan, you might want to increase the window size"
             )
+        self.outcomes[node] = outcome
         self.current_measurement += 1
 
         self.qstate = calc.partial_trace(self.qstate, [indx])
 
-        if self.dev_mode:
-            # remove qubit at indx from current_simulated_nodes
-            self._current_simulated_nodes = [
-                i for i in self._current_simulated_nodes if i != node
-            ]
-            if self.current_measurement + self.window_size <= len(
-                self.mbqcircuit.graph.nodes
-            ):
-                self._current_simulated_nodes.append(
-                    self.schedule[self.current_measurement + self.window_size - 1]
-                )
+        # remove qubit at indx from current_simulated_nodes
+        self._current_simulated_nodes = [
+            i for i in self._current_simulated_nodes if i != node
+        ]
+        if self.current_measurement + self.window_size <= len(
+            self.mbqcircuit.graph.nodes
+        ):
+            self._current_simulated_nodes.append(
+                self.schedule[self.current_measurement + self.window_size - 1]
+            )
 
         if self.current_measurement + self.window_size <= len(
             self.mbqcircuit.graph.nodes
@@ -234,6 +237,8 @@ class NumpySimulatorDM(BaseSimulator):
             for i in self.schedule_measure:
                 if i in self.mbqcircuit.trainable_nodes:
                     angle = angles[self.mbqcircuit.trainable_nodes.index(i)]
+                elif isinstance(self.mbqcircuit[i], ControlledMent):
+                    angle = None  # fixed by the branch that is selected
                 else:
                     angle = self.mbqcircuit[i].angle
 
@@ -267,9 +272,7 @@ class NumpySimulatorDM(BaseSimulator):
                 self.qstate, outcome = self.measure(angle, mode)
                 self.outcomes[node] = outcome
 
-        current_output_order = [
-            i for i in self.schedule if i not in self.schedule_measure
-        ]
+        current_output_order = self.current_simulated_nodes()
         if self.mbqcircuit.quantum_output_nodes != current_output_order:
             self.qstate = self.reorder_qubits(
                 self.qstate, current_output_order, self.mbqcircuit.quantum_output_nodes
@@ -304,8 +307,7 @@ class NumpySimulatorDM(BaseSimulator):
         self.qstate = self.initial_czs @ self.qstate @ np.conj(self.initial_czs).T
         self.outcomes = {}
 
-        if self.dev_mode:
-            self._current_simulated_nodes = self.schedule[0 : self.window_size]
+        self._current_simulated_nodes = self.schedule[0 : self.window_size]
 
     def measure_ment(self, ment: Ment, angle, i, force0=False, mode="sample"):
         """
diff --git a/mentpy/simulators/np_simulator_sv.py b/mentpy/simulators/np_simulator_sv.py
index 8ba32ec..23731c9 100644
--- a/mentpy/simulators/np_simulator_sv.py
+++ b/mentpy/simulators/np_simulator_sv.py
@@ -61,7 +61,7 @@ class NumpySimulatorSV(BaseSimulator):
         # TODO: FIND SCHEDULE IF NOT PROVIDED
         if self.schedule is not None:
             self.schedule_measure = [
-                i for i in self.schedule if i not in mbqcircuit.output_nodes
+                i for i in self.schedule if i not in mbqcircuit.quantum_output_nodes
             ]
         elif mbqcircuit.measurement_order is not None:
             # only outcome 0 is simulated, so the input nodes can go first
@@ -72,10 +72,15 @@ class NumpySimulatorSV(BaseSimulator):
             ]
             # remove output nodes from the measurement order
             self.schedule_measure = [
-                i for i in self.schedule if i not in mbqcircuit.output_nodes
+                i for i in self.schedule if i not in mbqcircuit.quantum_output_nodes
             ]
             if self.window_size == 1 and mbqcircuit.flow is not None:
-                self.window_size = len(mbqcircuit.input_nodes) + 1
+                self.window_size = min(
+                    len(mbqcircuit.input_nodes) + 1, len(self.schedule)
+                )
+                # some circuits need a larger window to apply all their cz gates
+                while self.window_size < len(self.schedule) and not self.valid_window():
+                    self.window_size += 1
         else:
             raise ValueError(
                 "Schedule must be provided for numpy simulator as the MBQCircuit does not have a flow."
@@ -96,9 +101,15 @@ class NumpySimulatorSV(BaseSimulator):
                 " Input state must have at most as many qubits as the window size minus one."
             )
 
-        if self.window_size > len(self.schedule_measure):
+        if self.window_size > len(self.schedule):
+            raise ValueError(
+                f"Window size is set to {self.window_size}, but schedule only has {len(self.schedule)} nodes."
+            )
+
+        if not self.dev_mode and not self.valid_window():
             raise ValueError(
-                f"Window size is set to {self.window_size}, but schedule only has {len(self.schedule_measure)} measurements."
+                f"Window size is set to {self.window_size}, but some nodes would be measured"
+                " before all of their edges are applied. Increase the window size."
             )
 
         self.current_measurement = 0
@@ -114,8 +125,7 @@ class NumpySimulatorSV(BaseSimulator):
 
         self.initial_czs = np.eye(2**self.window_size)
 
-        if self.dev_mode:
-            self._current_simulated_nodes = self.schedule[0 : self.window_size]
+        self._current_simulated_nodes = self.schedule[0 : self.window_size]
 
         # apply cz gates to neighboring qubits
         for node in self.subgraph.nodes:
@@ -132,17 +142,11 @@ class NumpySimulatorSV(BaseSimulator):
 
     def current_simulated_nodes(self) -> List[int]:
         """Returns the nodes that are currently simulated."""
-        if not self.dev_mode:
-            return self.schedule[
-                self.current_measurement : self.current_measurement + self.window_size
-            ]
-        elif self.dev_mode:
-            return self._current_simulated_nodes
+        return self._current_simulated_nodes
 
     def current_number_simulated_nodes(self) -> int:
         """Returns the number of nodes that are currently simulated."""
-        n = self.window_size
-        return min(n, len(self.mbqcircuit) - self.current_measurement)
+        return len(self._current_simulated_nodes)
 
     def node_in_which_wire(self, node: int) -> int:
         """Returns the wire in which the node is."""
@@ -169,10 +173,9 @@ class NumpySimulatorSV(BaseSimulator):
             raise ValueError("No more measurements to be done.")
 
         if not self.dev_mode:
-            current_ment = self.mbqcircuit[
-                self.schedule_measure[self.current_measurement]
-            ].copy()
-            indx = 0
+            node = self.schedule_measure[self.current_measurement]
+            current_ment = self.mbqcircuit[node].copy()
+            indx = self.current_simulated_nodes().index(node)
         elif self.dev_mode:
             # if in dev mode, we measure the first node in the current_simulated_nodes
             # only if a neighbor in the same wire is also in the current_simulated_nodes
@@ -192,20 +195,20 @@ class NumpySimulatorSV(BaseSimulator):
             current_ment, angle, indx, force0=self.force0
         )
 
+        self.outcomes[node] = outcome
         self.current_measurement += 1
         self.qstate = calc.partial_trace(self.qstate, [indx])
 
-        if self.dev_mode:
-            # remove qubit at indx from current_simulated_nodes
-            self._current_simulated_nodes = [
-                i for i in self._current_simulated_nodes if i != node
-            ]
-            if self.current_measurement + self.window_size <= len(
-                self.mbqcircuit.graph.nodes
-            ):
-                self._current_simulated_nodes.append(
-                    self.schedule[self.current_measurement + self.window_size - 1]
-                )
+        # remove qubit at indx from current_simulated_nodes
+        self._current_simulated_nodes = [
+            i for i in self._current_simulated_nodes if i != node
+        ]
+        if self.current_measurement + self.window_size <= len(
+            self.mbqcircuit.graph.nodes
+        ):
+            self._current_simulated_nodes.append(
+                self.schedule[self.current_measurement + self.window_size - 1]
+            )
 
         if self.current_measurement + self.window_size <= len(
             self.mbqcircuit.graph.nodes
@@ -278,18 +281,10 @@ class NumpySimulatorSV(BaseSimulator):
                 self.qstate, outcome = self.measure(angle)
                 self.outcomes[node] = outcome
 
-        # check if output nodes have a measurement, if so, measure them
-        for i in self.mbqcircuit.output_nodes:
-            if isinstance(self.mbqcircuit[i], Ment):
-                self.qstate, outcome = self.measure_ment(
-                    self.mbqcircuit[i], self.mbqcircuit[i].angle, i, force0=self.force0
-                )
-                self.outcomes[i] = outcome
-
         current_output_order = self.current_simulated_nodes()
         if self.mbqcircuit.quantum_output_nodes != current_output_order:
             self.qstate = self.reorder_qubits(
-                self.qstate, current_output_order, self.mbqcircuit.output_nodes
+                self.qstate, current_output_order, self.mbqcircuit.quantum_output_nodes
             )
 
         if output_form.lower() == "dm" or output_form.lower() == "densitymatrix":
@@ -319,8 +314,7 @@ class NumpySimulatorSV(BaseSimulator):
 
         self.outcomes = {}
 
-        if self.dev_mode:
-            self._current_simulated_nodes = self.schedule[0 : self.window_size]
+        self._current_simulated_nodes = self.schedule[0 : self.window_size]
 
     def measure_ment(self, ment: Ment, angle, i, force0=False):
         """
-- 
2.43.0


From b2c59505e1f2f26eeaba44f1826a9b33ef4c2aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:46 +0000
Subject: [PATCH 08/39] fix: tracing out a factor of a product state keeps the
 remaining factor

---
 mentpy/calculator/state_ops.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/mentpy/calculator/state_ops.py b/mentpy/calculator/state_ops.py
index a978593..b0ac219 100644
--- a/mentpy/calculator/state_ops.py
+++ b/mentpy/calculator/state_ops.py
@@ -66,12 +66,10 @@ def partial_trace_pure_state(psi, indices):
     num_qubits = int(np.log2(psi.shape[0]))
     remaining_qubits = sorted(set(range(num_qubits)) - set(indices))
     tensor = psi.reshape([2] * num_qubits).transpose(remaining_qubits + indices)
-    traced_tensor = tensor.reshape([-1] + [2] * len(indices)).sum(
-        axis=tuple(range(1, 1 + len(indices)))
-    )
-    traced_tensor = traced_tensor.reshape(-1)
-    traced_tensor /= np.linalg.norm(traced_tensor)
-    return traced_tensor
+    # if the state is a product, every column is proportional to the remaining state
+    columns = tensor.reshape([2 ** len(remaining_qubits), -1])
+    traced_tensor = columns[:, np.argmax(np.linalg.norm(columns, axis=0))]
+    return traced_tensor / np.linalg.norm(traced_tensor)
 
 
 def partial_trace_mixed_state(rho, indices):
-- 
2.43.0


From 6373802919744f9b62545ca3a9d1a3d96a99fdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:46 +0000
Subject: [PATCH 09/39] fix: parameter-shift rule divides by the sine of the
 shift

---
 mentpy/gradients/_parameter_shift.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mentpy/gradients/_parameter_shift.py b/mentpy/gradients/_parameter_shift.py
index 30da5b4..105cdd5 100644
--- a/mentpy/gradients/_parameter_shift.py
+++ b/mentpy/gradients/_parameter_shift.py
@@ -21,7 +21,7 @@ def psr_gradient(cost, x, shift=1.5):
     for i in range(len(x)):
         grad[i] = (
             cost(x + shift * np.eye(len(x))[i]) - cost(x - shift * np.eye(len(x))[i])
-        ) / (2 * shift)
+        ) / (2 * np.sin(shift))
     return grad
 
 
@@ -44,5 +44,5 @@ def psr_hessian(cost, x, shift=1.5):
                 - cost(x + shift * np.eye(len(x))[i] - shift * np.eye(len(x))[j])
                 - cost(x - shift * np.eye(len(x))[i] + shift * np.eye(len(x))[j])
                 + cost(x - shift * np.eye(len(x))[i] - shift * np.eye(len(x))[j])
-            ) / (4 * shift**2)
+            ) / (4 * np.sin(shift) ** 2)
     return hess
-- 
2.43.0


From 5b45e555c4b46c05580703db4ee4382e7b8ded2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:46 +0000
Subject: [PATCH 10/39] fix: swap_qubits exchanges the two qubits

---
 mentpy/operators/gates.py | 18 +-----------------
 1 file changed, 1 insertion(+), 17 deletions(-)

diff --git a/mentpy/operators/gates.py b/mentpy/operators/gates.py
index af9d58b..25d100f 100644
--- a/mentpy/operators/gates.py
+++ b/mentpy/operators/gates.py
@@ -39,23 +39,7 @@ def swap_qubits(state_vector, i, j):
 
     n_qubits = int(np.log2(len(state_vector)))
 
-    swap_matrix = np.zeros((2, 2), dtype=int)
-    swap_matrix[0, 1] = swap_matrix[1, 0] = 1
-
-    identity = np.identity(2)
-    swap_operator = None
-    for k in range(n_qubits):
-        if k == i or k == j:
-            current_operator = swap_matrix
-        else:
-            current_operator = identity
-
-        if swap_operator is None:
-            swap_operator = current_operator
-        else:
-            swap_operator = np.kron(swap_operator, current_operator)
-
-    swapped_state_vector = swap_operator @ state_vector
+    swapped_state_vector = swap_ij(i, j, n_qubits) @ state_vector
     return swapped_state_vector
 
 
-- 
2.43.0


From 86bbfc9591668e91b71358c61c9fddcea1b47276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:46 +0000
Subject: [PATCH 11/39] fix: random coordinate descent does not modify the
 starting point

---
 mentpy/optimizers/rcd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mentpy/optimizers/rcd.py b/mentpy/optimizers/rcd.py
index c51b93b..b9e239c 100644
--- a/mentpy/optimizers/rcd.py
+++ b/mentpy/optimizers/rcd.py
@@ -40,6 +40,7 @@ class RCDOptimizer(BaseOptimizer):
 
     def step(self, f, x, i, **kwargs):
         """Take a step using the random coordinate descent optimizer."""
+        x = np.array(x, dtype=float)  # do not modify the argument
         coord_idx = random.randint(0, len(x) - 1)
         delta = np.zeros_like(x)
         delta[coord_idx] = 1e-5
@@ -78,6 +79,7 @@ class RCDOptimizer(BaseOptimizer):
 
         for i in range(num_iters):
             # Random coordinate descent optimizer
+            x = np.array(x, dtype=float)  # do not modify the argument
             coord_idx = random.randint(0, len(x) - 1)
             coord_iters[coord_idx] += 1
             delta = np.zeros_like(x)
-- 
2.43.0


From 2b2eda5e728bf029f3141c3715897325c0c88314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:02 +0000
Subject: [PATCH 12/39] fix: both drivers of adaptive random coordinate descent
 use the same step sizes

---
 mentpy/optimizers/rcd.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mentpy/optimizers/rcd.py b/mentpy/optimizers/rcd.py
index b9e239c..da34dd0 100644
--- a/mentpy/optimizers/rcd.py
+++ b/mentpy/optimizers/rcd.py
@@ -74,21 +74,19 @@ class RCDOptimizer(BaseOptimizer):
     ):
         """Optimize a function f using the random coordinate descent optimizer."""
         x = x0
-        coord_iters = np.zeros(len(x))
         norm = []
 
         for i in range(num_iters):
             # Random coordinate descent optimizer
             x = np.array(x, dtype=float)  # do not modify the argument
             coord_idx = random.randint(0, len(x) - 1)
-            coord_iters[coord_idx] += 1
             delta = np.zeros_like(x)
             delta[coord_idx] = 1e-5
             partial_gradient = (f(x + delta) - f(x - delta)) / (2 * delta[coord_idx])
 
             current_step_size = self.step_size
             if self.adaptive:
-                current_step_size /= np.sqrt(coord_iters[coord_idx])
+                current_step_size /= np.sqrt(i + 1)
 
             x[coord_idx] -= current_step_size * partial_gradient
 
-- 
2.43.0


From b53f7592c798a3384f14f586af97a14110a2897c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:47 +0000
Subject: [PATCH 13/39] fix: local-Clifford equivalence test searches all
 solutions and accepts graph states

---
 mentpy/utils/lc_equivalence.py | 90 ++++++++++++++++------------------
 1 file changed, 43 insertions(+), 47 deletions(-)

diff --git a/mentpy/utils/lc_equivalence.py b/mentpy/utils/lc_equivalence.py
index 65dcd55..2537e03 100644
--- a/mentpy/utils/lc_equivalence.py
+++ b/mentpy/utils/lc_equivalence.py
@@ -3,6 +3,8 @@
 TAKEN FROM: https://github.com/XanaduAI/flamingpy/blob/main/flamingpy/utils/linalg.py
 """
 
+import itertools
+
 import numpy as np
 import networkx as nx
 
@@ -103,10 +105,11 @@ def nullspace_basis(M):
 
 def search_nullspace(basis):
     """Check if the nullspace satisfies the determinant constraints.
-     Search through sums of pairs of basis vectors of the nullspace and
-     see if any satisfy the determinant constraints. If no solution is found,
-     output None. If a solution is found, return a vector specifying the local
-     Clifford in the form:
+     Search through the vectors of the nullspace of a connected graph and see if any
+     satisfy the determinant constraints. If the nullspace has dimension larger than
+     four, it suffices to consider the basis vectors and the sums of pairs of them. If
+     no solution is found, output None. If a solution is found, return a vector
+     specifying the local Clifford in the form:
         (a_1, a_2, ..., a_n, b_1, b_2, ..., b_n, c_1, c_2, ..., c_n, d_1, d_2, ..., d_n),
      where n is the number of nodes of the graph.
     Args:
@@ -118,42 +121,18 @@ def search_nullspace(basis):
     d = basis.shape[0]
     # number of nodes/qubits
     n = int(basis.shape[1] / 4)
-    # boolean for LC equivalence
-    equivalent = False
-    # array to store potential solutions
-    sols = []
-    # search through distinct pairs of basis vectors
-    for i in range(d):
-        for j in range(i):
-            # boolean for checking solution constraints
-            sat = True
-            # potential solution as sum (modulo 2) of basis pair
-            sol = np.vectorize(lambda x: x % 2)(np.add(basis[i], basis[j]))
-            # store potential solution
-            sols.append(sol)
-            for k in range(n):
-                # check the determinants (modulo 2)
-                det = (sol[k] * sol[k + 3 * n] + sol[k + n] * sol[k + 2 * n]) % 2
-                if det != 1:
-                    # constraints not satisfied
-                    sat = False
-                    # remove the false solution
-                    sols.pop()
-                    break
-            # if solution found, set equivalent to True
-            if sat:
-                # equivalence is satisfied
-                equivalent = sat
-                break
-        # end search loop
-        if equivalent:
-            break
+    # largest number of basis vectors that have to be added
+    max_terms = d if d <= 4 else 2
+    for terms in range(1, max_terms + 1):
+        for indices in itertools.combinations(range(d), terms):
+            # potential solution as sum (modulo 2) of basis vectors
+            sol = np.sum(basis[list(indices)], axis=0) % 2
+            a, b, c, e = sol[:n], sol[n : 2 * n], sol[2 * n : 3 * n], sol[3 * n :]
+            # check the determinants (modulo 2)
+            if np.all((a * e + b * c) % 2 == 1):
+                return sol.astype(int)
     # if no solution found, return None
-    if not equivalent:
-        return None
-    # if solution found, return clifford in vector form
-    solution_vector = np.array(sols[0]).astype(int)
-    return solution_vector
+    return None
 
 
 def clifford_vec_to_tensors(vec):
@@ -224,9 +203,12 @@ def are_lc_equivalent(graph1, graph2, clifford_form="tensor"):
         (bool, numpy.array): whether the states are LC equivalent, and if they are, the local
             Clifford output according to 'clifford_form' specification.
     """
+    # circuits are compared by their graphs
+    graph1 = graph1 if isinstance(graph1, nx.Graph) else graph1.graph
+    graph2 = graph2 if isinstance(graph2, nx.Graph) else graph2.graph
     # get adjacency matrices of input graphs
-    G = nx.adjacency_matrix(graph1.graph)
-    H = nx.adjacency_matrix(graph2.graph)
+    G = nx.to_numpy_array(graph1, nodelist=sorted(graph1.nodes), dtype=int)
+    H = nx.to_numpy_array(graph2, nodelist=sorted(graph2.nodes), dtype=int)
 
     # check adjacency matrices for same non-empty square shape
     if np.shape(G) == (0, 0) or np.shape(H) == (0, 0):
@@ -243,12 +225,26 @@ def are_lc_equivalent(graph1, graph2, clifford_form="tensor"):
 
     # perform algorithm to search for solution
     #
-    # construct system of constraints for two adjacency matrices G and H
-    system = lc_constraint_system(G, H)
-    # construct nullspace basis of system of constraints
-    nullspace = nullspace_basis(system)
-    # search nullspace for solution vector
-    solution_vector = search_nullspace(nullspace)
+    # local operations preserve the connected components, which are solved one by one
+    components = list(nx.connected_components(nx.from_numpy_array(G)))
+    if components != list(nx.connected_components(nx.from_numpy_array(H))):
+        return False, None
+    n = np.shape(G)[0]
+    solution_vector = np.zeros(4 * n, dtype=int)
+    for nodes in map(sorted, components):
+        # construct system of constraints for two adjacency matrices G and H
+        system = lc_constraint_system(G[np.ix_(nodes, nodes)], H[np.ix_(nodes, nodes)])
+        # construct nullspace basis of system of constraints
+        nullspace = nullspace_basis(system)
+        # search nullspace for solution vector
+        solution = search_nullspace(nullspace)
+        if solution is None:
+            solution_vector = None
+            break
+        for k in range(4):
+            solution_vector[[k * n + v for v in nodes]] = solution[
+                k * len(nodes) : (k + 1) * len(nodes)
+            ]
 
     # if graphs are not equivalent set clifford_output to None
     if solution_vector is None:
-- 
2.43.0


From 10db3f6a43f44b8e51e056d97ea17eb99189fab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:48 +0000
Subject: [PATCH 14/39] fix: negated outcomes keep the nodes they depend on

---
 mentpy/operators/ment.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mentpy/operators/ment.py b/mentpy/operators/ment.py
index 722123b..bbfa483 100644
--- a/mentpy/operators/ment.py
+++ b/mentpy/operators/ment.py
@@ -117,7 +117,9 @@ class MentOutcome:
         return self._binary_operation(lambda x, y: x ^ y, other)
 
     def __invert__(self):
-        return MentOutcome(lambda x: not self._outcome(x))
+        return MentOutcome(
+            lambda x: not self._outcome(x), cond_nodes=self._cond_nodes
+        )
 
 
 class Ment:
-- 
2.43.0


From 77f7a767c24979508058a172e9fad75986eb3d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:39 +0000
Subject: [PATCH 15/39] fix: Pauli rotation template for operators with an even
 number of Y factors

---
 mentpy/mbqc/templates.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mentpy/mbqc/templates.py b/mentpy/mbqc/templates.py
index 747a38e..c793c73 100644
--- a/mentpy/mbqc/templates.py
+++ b/mentpy/mbqc/templates.py
@@ -308,6 +308,7 @@ def from_pauli(pauli_op: PauliOp):
     exp_ansatz.add_edge(3 * n_qubits, 3 * n_qubits + 1)
 
     measurements = {3 * n_qubits + 1: Ment("XY")}
+    number_of_ys = 0
 
     for q in range(n_qubits):
         has_x, has_z = False, False
@@ -320,7 +321,10 @@ def from_pauli(pauli_op: PauliOp):
             has_z = True
 
         if has_x and has_z:
-            measurements[3 * n_qubits] = Ment("Y")
+            number_of_ys += 1
+
+    if number_of_ys % 2 == 1:
+        measurements[3 * n_qubits] = Ment("Y")
 
     input_nodes = [3 * q for q in range(n_qubits)]
     output_nodes = [3 * q + 2 for q in range(n_qubits)]
-- 
2.43.0


From fcb83e63119b14dcd22226030b90ab1179168fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:39 +0000
Subject: [PATCH 16/39] fix: lists of quantum and classical outputs follow the
 output order and every edit

---
 mentpy/mbqc/mbqcircuit.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 43b53ab..a23cd51 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -152,11 +152,6 @@ class MBQCircuit:
         if measurement_order is None and flow is not None:
             measurement_order = self.calculate_order()
 
-        # in case we measure an output node
-        quantum_output_nodes = [
-            node for node, i in self.measurements.items() if i is None
-        ]
-        self._quantum_output_nodes = quantum_output_nodes
         self._measurement_order = measurement_order
 
     def __repr__(self) -> str:
@@ -208,6 +203,7 @@ class MBQCircuit:
             raise ValueError(f"Node {key} is not in the graph.")
 
         self._measurements[key] = None
+        self._update_attributes()
 
     @property
     def measurements(self) -> Dict[int, Ment]:
@@ -343,12 +339,15 @@ class MBQCircuit:
                 planes[nodei] = menti.plane
                 self._measurements[nodei] = copy.deepcopy(menti)
                 self._measurements[nodei].node_id = nodei
-                if nodei in self._output_nodes:
-                    classical_outputs.append(nodei)
             else:
                 planes[nodei] = ""
-                if nodei in self._output_nodes:
-                    quantum_outputs.append(nodei)
+
+        # in case we measure an output node
+        for nodei in self._output_nodes:
+            if self._measurements[nodei] is None:
+                quantum_outputs.append(nodei)
+            else:
+                classical_outputs.append(nodei)
 
         self._trainable_nodes = trainable_nodes
         self._controlled_nodes = controlled_nodes
-- 
2.43.0


From 85ed58909079eb20a2f15fefac279863838123cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:39 +0000
Subject: [PATCH 17/39] fix: replacing the measurements of a circuit fills
 missing nodes and updates the order

---
 mentpy/mbqc/mbqcircuit.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index a23cd51..b093537 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -124,12 +124,7 @@ class MBQCircuit:
                     f"Values {measurements.values()} are not instances of Ment."
                 )
 
-            # set X Ment in outputc nodes that are not in measurements
-            for node in self.graph.nodes:
-                if node not in measurements:
-                    measurements[node] = (
-                        self._default_measurement if node in self.outputc else None
-                    )
+            measurements = self._add_missing_measurements(measurements)
 
         self._measurements = measurements
         self._flow, self._partial_order, self._flow_order = None, None, None
@@ -215,12 +210,15 @@ class MBQCircuit:
         r"""Set the measurements of the MBQC circuit."""
         if not all([v in self.graph.nodes for v in measurements.keys()]):
             raise ValueError(f"Nodes {measurements.keys()} are not in the graph.")
-        if not all([isinstance(v, Ment) for v in measurements.values()]):
+        if not all([isinstance(v, Ment) or v is None for v in measurements.values()]):
             raise ValueError(
                 f"Values {measurements.values()} are not Measurement objects."
             )
-        self._measurements = measurements
+        self._measurements = self._add_missing_measurements(measurements)
         self._update_attributes()
+        if len(self.controlled_nodes) > 0:
+            # recalculate measurement order
+            self._measurement_order = self.calculate_order()
 
     @property
     def graph(self) -> GraphState:
@@ -322,6 +320,16 @@ class MBQCircuit:
             ]
         return self.gflow.layers
 
+    def _add_missing_measurements(self, measurements) -> Dict[int, Ment]:
+        # set the default measurement in outputc nodes that are not in measurements
+        measurements = dict(measurements)
+        for node in self.graph.nodes:
+            if node not in measurements:
+                measurements[node] = (
+                    self._default_measurement if node in self.outputc else None
+                )
+        return measurements
+
     def _update_attributes(self) -> None:
         trainable_nodes = []
         controlled_nodes = []
-- 
2.43.0


From 247dfb8785a3af2ec01ebbd70512c297f14675a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:39 +0000
Subject: [PATCH 18/39] fix: adding edges keeps the measurements and leaves the
 circuit intact on failure

---
 mentpy/mbqc/mbqcircuit.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index b093537..1441445 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -441,28 +441,28 @@ class MBQCircuit:
 
     def add_edge(self, u, v):
         r"""Adds an edge between nodes u and v"""
-        self.graph.add_edge(u, v)
-        # try resetting self with new graph, if it fails, remove the edge
         try:
-            self.__init__(self.graph, self.input_nodes, self.output_nodes)
-        except Exception as e:
-            self.graph.remove_edge(u, v)
+            self.add_edges_from([(u, v)])
+        except ValueError as e:
             raise ValueError(f"Cannot add edge between {u} and {v}.\n" + str(e))
 
     def add_edges_from(self, edges, **kwargs):
         r"""Adds edges from a list of tuples"""
-        new_graph = self.graph.copy()
-        new_graph.add_edges_from(edges, **kwargs)
+        # build the new circuit first, so that nothing changes if this fails
         try:
-            self.__init__(
+            new_graph = self.graph.copy()
+            new_graph.add_edges_from(edges, **kwargs)
+            new_circuit = MBQCircuit(
                 new_graph,
                 self.input_nodes,
                 self.output_nodes,
-                self.flow,
-                self.partial_order,
+                measurements=self.measurements,
+                default_measurement=self._default_measurement,
+                relabel_indices=False,
             )
         except Exception as e:
             raise ValueError(f"Cannot add edges {edges}.\n" + str(e))
+        self.__dict__ = new_circuit.__dict__
 
 
 def _check_measurement_order(measurement_order: List, partial_order: Callable):
-- 
2.43.0


From b7fd14907ca58397d13c9f1c526512c398bdfadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:19 +0000
Subject: [PATCH 19/39] fix: controlled measurements can be set in circuits
 without flow

---
 mentpy/mbqc/mbqcircuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 1441445..70429a7 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -180,7 +180,7 @@ class MBQCircuit:
         # self._update_attributes_key(key)
         self._update_attributes()
 
-        if isinstance(value, ControlMent):
+        if isinstance(value, ControlMent) and self.partial_order is not None:
             # recalculate measurement order
             self._measurement_order = self.calculate_order()
 
@@ -216,7 +216,7 @@ class MBQCircuit:
             )
         self._measurements = self._add_missing_measurements(measurements)
         self._update_attributes()
-        if len(self.controlled_nodes) > 0:
+        if len(self.controlled_nodes) > 0 and self.partial_order is not None:
             # recalculate measurement order
             self._measurement_order = self.calculate_order()
 
-- 
2.43.0


From a95677a0be92bd5e9ee5cfe9dd2cc18e333b59fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:26 +0000
Subject: [PATCH 20/39] fix: stacking and merging attach edges, measurements
 and conditions to the right nodes

---
 mentpy/mbqc/mbqcircuit.py | 122 +++++++++++++++++++++++---------------
 1 file changed, 73 insertions(+), 49 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 70429a7..a61081b 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -12,7 +12,7 @@ import scipy as scp
 import networkx as nx
 import matplotlib.pyplot as plt
 
-from mentpy.operators import Ment, ControlMent, PauliOp
+from mentpy.operators import Ment, MentOutcome, ControlMent, PauliOp
 from mentpy.mbqc.states.graphstate import GraphState
 from mentpy.mbqc.flow import find_cflow, find_flow, check_if_flow, Flow
 
@@ -84,7 +84,10 @@ class MBQCircuit:
             if measurement_order is not None:
                 measurement_order = [mapping[i] for i in measurement_order]
             if measurements is not None:
-                measurements = {mapping[k]: v for k, v in measurements.items()}
+                measurements = {
+                    mapping[k]: _relabel_condition(v, mapping)
+                    for k, v in measurements.items()
+                }
 
         self._graph = graph
 
@@ -482,11 +485,15 @@ def merge(state1: MBQCircuit, state2: MBQCircuit, along=[]) -> MBQCircuit:
         if i not in state1.output_nodes or j not in state2.input_nodes:
             raise ValueError(f"Cannot merge states at indices {i} and {j}")
 
-    graph = nx.disjoint_union(state1.graph, state2.graph)
-    along1, along2 = zip(*along)
+    along1 = [i for i, _ in along]
+    along2 = [j for _, j in along]
+    if len(set(along1)) != len(along) or len(set(along2)) != len(along):
+        raise ValueError(f"Cannot merge the same node twice: {along}")
 
-    input_nodes = state1.input_nodes + [
-        i + len(state1.graph) for i in state2.input_nodes if i not in along2
+    graph, nodes1, nodes2, measurements = _glue(state1, state2, along)
+
+    input_nodes = [nodes1[i] for i in state1.input_nodes] + [
+        nodes2[i] for i in state2.input_nodes if i not in along2
     ]
     output_nodes = []
     added_ind = []
@@ -496,26 +503,66 @@ def merge(state1: MBQCircuit, state2: MBQCircuit, along=[]) -> MBQCircuit:
             inputnode = along2[output_ind]
             input_index = state2.input_nodes.index(inputnode)
             added_ind.append(input_index)
-            output_nodes.append(state2.output_nodes[input_index] + len(state1.graph))
+            output_nodes.append(nodes2[state2.output_nodes[input_index]])
         else:
-            output_nodes.append(j)
+            output_nodes.append(nodes1[j])
     output_nodes += [
-        i + len(state1.graph)
+        nodes2[i]
         for indx, i in enumerate(state2.output_nodes)
         if indx not in added_ind
     ]
 
-    measurements = dict(state1.measurements)
+    return MBQCircuit(graph, input_nodes, output_nodes, measurements=measurements)
+
+
+def _glue(state1: MBQCircuit, state2: MBQCircuit, along):
+    """Disjoint union of two circuits in which every pair of nodes of ``along`` is
+    identified. Returns the graph, the new names of the nodes of both circuits, and the
+    measurements, which are the ones of the second circuit in the identified nodes."""
+    nodes1 = {v: i for i, v in enumerate(sorted(state1.graph.nodes()))}
+    nodes2 = {v: i + len(nodes1) for i, v in enumerate(sorted(state2.graph.nodes()))}
+    nodes1.update({i: nodes2[j] for i, j in along})
+
+    graph = GraphState()
+    graph.add_nodes_from(sorted({*nodes1.values(), *nodes2.values()}))
+    for nodes, state in ((nodes1, state1), (nodes2, state2)):
+        graph.add_edges_from((nodes[i], nodes[j]) for i, j in state.graph.edges())
+
+    glued = [i for i, _ in along]
+    measurements = {
+        nodes1[i]: _relabel_condition(ment, nodes1)
+        for i, ment in state1.measurements.items()
+        if i not in glued
+    }
     measurements.update(
-        {i + len(state1.graph): ment for i, ment in state2.measurements.items()}
+        {nodes2[i]: _relabel_condition(m, nodes2) for i, m in state2.measurements.items()}
     )
 
-    for i, j in along:
-        graph.add_edge(i, j + len(state1.graph))
-        graph = nx.contracted_edge(graph, (j + len(state1.graph), i), self_loops=False)
-        del measurements[i]
+    return graph, nodes1, nodes2, measurements
 
-    return MBQCircuit(graph, input_nodes, output_nodes, measurements=measurements)
+
+class _RelabeledOutcomes:
+    """Outcomes of a circuit, to be read with the labels used before a relabeling."""
+
+    def __init__(self, outcomes, mapping):
+        self.outcomes = outcomes
+        self.mapping = mapping
+
+    def __getitem__(self, node):
+        return self.outcomes[self.mapping.get(node, node)]
+
+
+def _relabel_condition(ment, mapping):
+    """Returns the measurement with a condition that reads the relabeled nodes."""
+    if not isinstance(ment, ControlMent) or not isinstance(ment.condition, MentOutcome):
+        return ment
+    condition = ment.condition
+    new_ment = ment.copy()
+    new_ment.condition = MentOutcome(
+        lambda x: condition(_RelabeledOutcomes(x, mapping)),
+        cond_nodes={mapping.get(node, node) for node in condition.cond_nodes},
+    )
+    return new_ment
 
 
 def vstack(states):
@@ -559,19 +606,14 @@ def _vstack2(state1: MBQCircuit, state2: MBQCircuit) -> MBQCircuit:
     -----
     states
     """
-    graph = nx.disjoint_union(state1.graph, state2.graph)
-    input_nodes = state1.input_nodes + [
-        i + len(state1.graph) for i in state2.input_nodes
+    graph, nodes1, nodes2, measurements = _glue(state1, state2, [])
+    input_nodes = [nodes1[i] for i in state1.input_nodes] + [
+        nodes2[i] for i in state2.input_nodes
     ]
-    output_nodes = state1.output_nodes + [
-        i + len(state1.graph) for i in state2.output_nodes
+    output_nodes = [nodes1[i] for i in state1.output_nodes] + [
+        nodes2[i] for i in state2.output_nodes
     ]
 
-    measurements = dict(state1.measurements)
-    measurements.update(
-        {i + len(state1.graph): plane for i, plane in state2.measurements.items()}
-    )
-
     # TODO: Compute flow and partial order
     return MBQCircuit(graph, input_nodes, output_nodes, measurements=measurements)
 
@@ -600,30 +642,12 @@ def _hstack2(state1: MBQCircuit, state2: MBQCircuit) -> MBQCircuit:
             "of the second state."
         )
 
-    # create new graph
-    graph = nx.disjoint_union(state1.graph, state2.graph)
-
-    nodes1 = list(state1.graph.nodes())
-    nodes2 = list(state2.graph.nodes())
-
-    for i in range(len(state1.output_nodes)):
-        graph.add_edge(
-            nodes1.index(state1.output_nodes[i]),
-            nodes2.index(state2.input_nodes[i]) + len(nodes1),
-        )
-
-    input_nodes = [nodes1.index(i) for i in state1.input_nodes]
-    output_nodes = [nodes2.index(j) + len(nodes1) for j in state2.output_nodes]
-
-    measurements = {nodes1.index(i): ment for i, ment in state1.measurements.items()}
-    measurements.update(
-        {nodes2.index(i) + len(nodes1): ment for i, ment in state2.measurements.items()}
-    )
+    # identify the outputs of the first state with the inputs of the second state
+    along = list(zip(state1.output_nodes, state2.input_nodes))
+    graph, nodes1, nodes2, measurements = _glue(state1, state2, along)
 
-    for i, j in zip(state1.output_nodes, state2.input_nodes):
-        graph.add_edge(i, j + len(state1.graph))
-        graph = nx.contracted_edge(graph, (j + len(state1.graph), i), self_loops=False)
-        del measurements[i]
+    input_nodes = [nodes1[i] for i in state1.input_nodes]
+    output_nodes = [nodes2[j] for j in state2.output_nodes]
 
     # TODO: Compute flow and partial order
     return MBQCircuit(graph, input_nodes, output_nodes, measurements=measurements)
-- 
2.43.0


From 9c0f027f27cff137ead1f2961114eb11055065ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:26 +0000
Subject: [PATCH 21/39] fix: feed-forward backend applies every angle to its
 trainable node

---
 mentpy/simulators/pennylane_simulator.py | 35 +++++++++++-------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/mentpy/simulators/pennylane_simulator.py b/mentpy/simulators/pennylane_simulator.py
index 298f0cf..7207c62 100644
--- a/mentpy/simulators/pennylane_simulator.py
+++ b/mentpy/simulators/pennylane_simulator.py
@@ -65,26 +65,23 @@ class PennylaneSimulator(BaseSimulator):
 
         extended_angles = []
 
-        if len(self.mbqcircuit.trainable_nodes) != len(self.mbqcircuit.outputc):
-            for i in self.mbqcircuit.outputc:
-                if i in self.mbqcircuit.trainable_nodes:
-                    angle = angles[self.mbqcircuit.trainable_nodes.index(i)]
+        for i in self.mbqcircuit.outputc:
+            if i in self.mbqcircuit.trainable_nodes:
+                angle = angles[self.mbqcircuit.trainable_nodes.index(i)]
+            else:
+                plane = self.mbqcircuit.planes[i]
+                if plane == "X":
+                    angle = 0
+                elif plane == "Y":
+                    angle = np.pi / 2
+                elif plane == "XY":
+                    angle = self.mbqcircuit[i].angle
                 else:
-                    plane = self.mbqcircuit.planes[i]
-                    if plane == "X":
-                        angle = 0
-                    elif plane == "Y":
-                        angle = np.pi / 2
-                    elif plane == "XY":
-                        angle = self.mbqcircuit[i].angle
-                    else:
-                        raise ValueError(
-                            f"Plane {plane} is not supported for pennylane simulator."
-                        )
-
-                extended_angles.append(angle)
-        else:
-            extended_angles = angles
+                    raise ValueError(
+                        f"Plane {plane} is not supported for pennylane simulator."
+                    )
+
+            extended_angles.append(angle)
 
         return self.circuit(extended_angles, st=self.input_state, **kwargs)
 
-- 
2.43.0


From b376c71acdef0bbe507a656ca376e4689a20cb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:26 +0000
Subject: [PATCH 22/39] fix: feed-forward backend rejects measured outputs
 instead of ignoring them

---
 mentpy/simulators/pennylane_simulator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mentpy/simulators/pennylane_simulator.py b/mentpy/simulators/pennylane_simulator.py
index 7207c62..50bcd16 100644
--- a/mentpy/simulators/pennylane_simulator.py
+++ b/mentpy/simulators/pennylane_simulator.py
@@ -52,6 +52,11 @@ class PennylaneSimulator(BaseSimulator):
                 "Controlled nodes are not supported with the PennyLane simulator."
             )
 
+        if len(mbqcircuit.classical_output_nodes) > 0:
+            raise NotImplementedError(
+                "Measured outputs are not supported with the PennyLane simulator."
+            )
+
     def measure(self, angle: float, plane: str = "XY"):
         raise NotImplementedError
 
-- 
2.43.0


From 97df4eda6ef4a038180dd44929483934400d3ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:26 +0000
Subject: [PATCH 23/39] fix: Lie algebra generators do not depend on the
 insertion order of the nodes

---
 mentpy/utils/lie_algebra.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/mentpy/utils/lie_algebra.py b/mentpy/utils/lie_algebra.py
index c06059b..073c5cc 100644
--- a/mentpy/utils/lie_algebra.py
+++ b/mentpy/utils/lie_algebra.py
@@ -23,18 +23,16 @@ def _constrains(j: int, state: MBQCircuit, stabilizers: PauliOp):
 
     mo = state.measurement_order
     mapping = state.index_mapping()
-    mo = [mapping[i] for i in mo]
-    j = mapping[j]
 
     A = []
     b = []
     for k in mo:
         if (not state.partial_order(j, k)) or k == j:
-            A.append(stabilizers[k].matrix[0, : len(mo)])
+            A.append(stabilizers[mapping[k]].matrix[0, : len(mo)])
             b.append(np.zeros(1, dtype=int))
 
-    for k in [mapping[i] for i in state.outputc]:
-        A.append(stabilizers[k].matrix[0, len(mo) :])
+    for k in state.outputc:
+        A.append(stabilizers[mapping[k]].matrix[0, len(mo) :])
         p = 0 if k != j else 1
         b.append(np.array([p]))
 
@@ -78,14 +76,11 @@ def calculate_complete_gens_lie_algebra(state: MBQCircuit):
 
 def calculate_gens_lie_algebra(state: MBQCircuit):
     """Calculates the generators of the Lie algebra of a given state"""
-    mapping = {
-        i: j
-        for i, j in zip(state.measurement_order, range(len(state.measurement_order)))
-    }
+    mapping = state.index_mapping()
 
     lieAlgebra = calculate_complete_gens_lie_algebra(state)
 
-    output_ops = lieAlgebra.get_subset(state.output_nodes)
+    output_ops = lieAlgebra.get_subset([mapping[i] for i in state.output_nodes])
     return remove_repeated_ops(output_ops)
 
 
-- 
2.43.0


From a3aaa181fc8f295fd7239b8715374f528adf2b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:51 +0000
Subject: [PATCH 24/39] fix: datasets with a single sample

---
 mentpy/utils/generate_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mentpy/utils/generate_data.py b/mentpy/utils/generate_data.py
index 9c7c8aa..3693c64 100644
--- a/mentpy/utils/generate_data.py
+++ b/mentpy/utils/generate_data.py
@@ -35,7 +35,7 @@ def generate_random_dataset(
 ) -> tuple:
     r"Return random training and test data (input, target) for a given unitary gate ``unitary``."
     n_qubits = int(np.log2(unitary.shape[0]))
-    random_inputs = generate_haar_random_states(n_qubits, n_samples=n_samples)
+    random_inputs = [_generate_haar_random_state(n_qubits) for _ in range(n_samples)]
     random_targets = [(unitary @ st.T).T for st in random_inputs]
     return train_test_split(random_inputs, random_targets, test_size=test_size)
 
@@ -95,7 +95,7 @@ def generate_random_dataset_noisy(
         raise ValueError("noise_level must be between 0 and 1")
 
     n_qubits = int(np.log2(unitary.shape[0]))
-    random_inputs = generate_haar_random_states(n_qubits, n_samples=n_samples)
+    random_inputs = [_generate_haar_random_state(n_qubits) for _ in range(n_samples)]
     n_samples = len(random_inputs)
     n_test_samples = int(n_samples * test_size)
     n_train_samples = n_samples - n_test_samples
-- 
2.43.0


From de66bbea14576df61c95958c65903f8e4de5d645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:51 +0000
Subject: [PATCH 25/39] fix: randomized split of datasets given as lists

---
 mentpy/utils/generate_data.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mentpy/utils/generate_data.py b/mentpy/utils/generate_data.py
index 3693c64..6b79dbb 100644
--- a/mentpy/utils/generate_data.py
+++ b/mentpy/utils/generate_data.py
@@ -48,8 +48,12 @@ def train_test_split(inputs, targets, test_size: float = 0.3, randomize=False) -
 
     if randomize:
         shuffled_indices = np.random.permutation(n_samples)
-        inputs = inputs[shuffled_indices]
-        targets = targets[shuffled_indices]
+        inputs, targets = (
+            data[shuffled_indices]
+            if isinstance(data, np.ndarray)
+            else [data[i] for i in shuffled_indices]
+            for data in (inputs, targets)
+        )
 
     return (inputs[:n_train_samples], targets[:n_train_samples]), (
         inputs[n_train_samples:],
-- 
2.43.0


From a66e6de0deca1c02a80fae7c4fe73fc9deb366d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:51 +0000
Subject: [PATCH 26/39] fix: noisy datasets reject unknown noise types

---
 mentpy/utils/generate_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mentpy/utils/generate_data.py b/mentpy/utils/generate_data.py
index 6b79dbb..08060ed 100644
--- a/mentpy/utils/generate_data.py
+++ b/mentpy/utils/generate_data.py
@@ -97,6 +97,8 @@ def generate_random_dataset_noisy(
     """
     if noise_level > 1 or noise_level < 0:
         raise ValueError("noise_level must be between 0 and 1")
+    if noise_type not in ["brownian", "bitflip"]:
+        raise ValueError(f"noise_type {noise_type} is not supported")
 
     n_qubits = int(np.log2(unitary.shape[0]))
     random_inputs = [_generate_haar_random_state(n_qubits) for _ in range(n_samples)]
-- 
2.43.0


From e38fd6b432c535eb6b0095a400edc3726f00838f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:51 +0000
Subject: [PATCH 27/39] fix: entanglement entropy of a graph state is its cut
 rank

---
 mentpy/mbqc/states/graphstate.py | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/mentpy/mbqc/states/graphstate.py b/mentpy/mbqc/states/graphstate.py
index a90420f..239e182 100644
--- a/mentpy/mbqc/states/graphstate.py
+++ b/mentpy/mbqc/states/graphstate.py
@@ -8,8 +8,12 @@ from mentpy.operators import PauliOp
 import networkx as nx
 from typing import Optional, List
 
+import galois
+
 __all__ = ["GraphState", "entanglement_entropy"]
 
+GF = galois.GF(2)
+
 
 class GraphState(nx.Graph):
     """A graph state class that inherits from networkx.Graph.
@@ -78,31 +82,19 @@ def lc_reduce(graph: GraphState):
     raise NotImplementedError
 
 
-# TODO: Check if this is correct.
 def entanglement_entropy(
     state: GraphState, subRegionA: List, subRegionB: Optional[List] = None
 ) -> float:
-    """Calculate the entanglement entropy of a subregion of a graph state."""
+    """Calculate the entanglement entropy of a subregion of a graph state. This is the
+    rank over GF(2) of the edges between the region and its complement."""
 
-    G = state.copy()
-
-    # minimum_cut requires the capacity kwarg.
-    nx.set_edge_attributes(G, 1, name="capacity")
     if subRegionB is None:
-        subRegionB = set(state.nodes()) - set(subRegionA)
-
-    # Allow subregions. These are merged into a supernode to calculate
-    # the minimum cut between them.
-    if isinstance(subRegionA, List):
-        for v in subRegionA:
-            G = nx.contracted_nodes(G, subRegionA[0], v)
-        subRegionA = subRegionA[0]
-    if isinstance(subRegionB, List):
-        for v in subRegionA:
-            G = nx.contracted_nodes(G, subRegionB[0], v)
-        subRegionB = subRegionB[0]
-
-    return nx.minimum_cut(G, subRegionA, subRegionB)[0]
+        subRegionB = [v for v in state.nodes() if v not in subRegionA]
+
+    edges = [[int(state.has_edge(v, w)) for w in subRegionB] for v in subRegionA]
+    if len(subRegionA) == 0 or len(subRegionB) == 0:
+        return 0
+    return int(np.linalg.matrix_rank(GF(edges)))
 
 
 def _get_stabilizers(graph: GraphState) -> List[PauliOp]:
-- 
2.43.0


From 5c10292da3648bb2d137c3be2b24d3ddcf3bc5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:39 +0000
Subject: [PATCH 28/39] fix: Pauli operators with different numbers of rows or
 qubits are not equal

---
 mentpy/operators/pauliop.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mentpy/operators/pauliop.py b/mentpy/operators/pauliop.py
index 3ba3ea3..db83abf 100644
--- a/mentpy/operators/pauliop.py
+++ b/mentpy/operators/pauliop.py
@@ -117,6 +117,8 @@ class PauliOp:
         return hash(str(self.matrix))
 
     def __eq__(self, other: "PauliOp"):
+        if not isinstance(other, PauliOp) or self.matrix.shape != other.matrix.shape:
+            return False
         return np.all(self.matrix == other.matrix)
 
     def _mat_to_txt(self, op):
-- 
2.43.0


From ada78687fdca2375c988da7e21efea79f1d902b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:34 +0000
Subject: [PATCH 29/39] fix: stabilizers of graph states without edges

---
 mentpy/mbqc/states/graphstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mentpy/mbqc/states/graphstate.py b/mentpy/mbqc/states/graphstate.py
index 239e182..6dad02e 100644
--- a/mentpy/mbqc/states/graphstate.py
+++ b/mentpy/mbqc/states/graphstate.py
@@ -104,7 +104,7 @@ def _get_stabilizers(graph: GraphState) -> List[PauliOp]:
     -----
     states
     """
-    z_mat = nx.adjacency_matrix(graph).todense()
+    z_mat = nx.adjacency_matrix(graph, dtype=int).todense()
     x_mat = np.eye(graph.number_of_nodes(), dtype=int)
 
     return PauliOp(np.hstack((x_mat, z_mat)))
-- 
2.43.0


From d01e34eb9ca001b4840517be82035515238aa935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:50 +0000
Subject: [PATCH 30/39] fix: removing repeated operators of a single operator

---
 mentpy/utils/lie_algebra.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mentpy/utils/lie_algebra.py b/mentpy/utils/lie_algebra.py
index 073c5cc..c740fc9 100644
--- a/mentpy/utils/lie_algebra.py
+++ b/mentpy/utils/lie_algebra.py
@@ -156,9 +156,9 @@ def remove_repeated_ops(ops: PauliOp):
     """Removes repeated Pauli operators from a set"""
     ops = copy.deepcopy(ops)
     unrep_ops = ops[0]
-    for op in ops[1:]:
-        if op not in unrep_ops:
-            unrep_ops.append(op)
+    for i in range(1, len(ops)):
+        if ops[i] not in unrep_ops:
+            unrep_ops.append(ops[i])
     return unrep_ops
 
 
-- 
2.43.0


From 0a7ca4b5d240e9dcaf2bb24a52392f7cbe72ed41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 31/39] fix: flow spaces of graphs without causal flow

---
 mentpy/utils/flow_space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mentpy/utils/flow_space.py b/mentpy/utils/flow_space.py
index cc89e46..a9d67a4 100644
--- a/mentpy/utils/flow_space.py
+++ b/mentpy/utils/flow_space.py
@@ -3,7 +3,7 @@
 # This program is released under the GNU GPL v3.0 or later.
 # See <https://www.gnu.org/licenses/> for details.
 """A module to study graphs with flow."""
-from mentpy.mbqc import MBQCircuit
+from mentpy.mbqc import MBQCircuit, GraphState
 
 import networkx as nx
 import itertools
@@ -50,7 +50,7 @@ class FlowSpace:
         completegraph = nx.complete_graph(n)
         its = itertools.product([0, 1], repeat=total_n)
         for j in its:
-            g = nx.Graph()
+            g = GraphState()
             g.add_nodes_from(list(range(n)))
             edgs = [edg for i, edg in enumerate(list(completegraph.edges())) if j[i]]
             g.add_edges_from(edgs)
-- 
2.43.0


From 98f4386673411197002bd64d67c6c785eec1197e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:52 +0000
Subject: [PATCH 32/39] fix: arrow and angle labels of controlled nodes

---
 mentpy/mbqc/view.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/mentpy/mbqc/view.py b/mentpy/mbqc/view.py
index 33a571d..a5db410 100644
--- a/mentpy/mbqc/view.py
+++ b/mentpy/mbqc/view.py
@@ -205,14 +205,21 @@ def process_labels(state: MBQCircuit, options: dict):
             "XYZ": r"$\nwarrow \nearrow$",
             "": "",
         }
-        labels = {node: plane2arrow[state.planes[node]] for node in state.graph.nodes()}
-        for node in state.controlled_nodes:
-            labels[node] = "Ctrl"
+        labels = {
+            node: (
+                "Ctrl"
+                if node in state.controlled_nodes
+                else plane2arrow[state.planes[node]]
+            )
+            for node in state.graph.nodes()
+        }
         return labels
     elif label_option in ("angles", "angle"):
         labels = {}
         for node in state.graph.nodes():
-            if state.measurements[node] is not None:
+            if node in state.controlled_nodes:
+                labels[node] = "Ctrl"
+            elif state.measurements[node] is not None:
                 if state.measurements[node].angle is not None:
                     labels[node] = round(state.measurements[node].angle, 3)
                 else:
-- 
2.43.0


From 856bb2b125250bd12ec5792ddf98562e0f7d77ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:52 +0000
Subject: [PATCH 33/39] fix: drawing circuits with a node that is input and
 output

---
 mentpy/mbqc/view.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/mentpy/mbqc/view.py b/mentpy/mbqc/view.py
index a5db410..1d1dde2 100644
--- a/mentpy/mbqc/view.py
+++ b/mentpy/mbqc/view.py
@@ -112,13 +112,9 @@ def draw(state: Union[MBQCircuit, GraphState], fix_wires=None, **kwargs):
         if state.flow is not None:
             fix_wires = []
             for inp in state.input_nodes:
-                is_output = False
                 wire = [inp]
-                while not is_output:
-                    out = state.flow(wire[-1])
-                    wire.append(out)
-                    if out in state.output_nodes:
-                        is_output = True
+                while wire[-1] not in state.output_nodes:
+                    wire.append(state.flow(wire[-1]))
                 fix_wires.append(tuple(wire))
 
     if isinstance(state, GraphState):
-- 
2.43.0


From 50baf9336f3cdc68fc6649a52fad4d5598b24113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:52 +0000
Subject: [PATCH 34/39] fix: drawing graph states

---
 mentpy/mbqc/view.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mentpy/mbqc/view.py b/mentpy/mbqc/view.py
index 1d1dde2..bd2d8cc 100644
--- a/mentpy/mbqc/view.py
+++ b/mentpy/mbqc/view.py
@@ -118,6 +118,8 @@ def draw(state: Union[MBQCircuit, GraphState], fix_wires=None, **kwargs):
                 fix_wires.append(tuple(wire))
 
     if isinstance(state, GraphState):
+        options.pop("label")
+        options.pop("pauliop")
         nx.draw(state, ax=ax, **options)
 
     elif isinstance(state, MBQCircuit):
-- 
2.43.0


From 174f0f6c485d4a57bcf1e59efc31bc722e8ad113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:38 +0000
Subject: [PATCH 35/39] fix: damping noise in the PennyLane simulator

---
 mentpy/simulators/pennylane_simulator.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mentpy/simulators/pennylane_simulator.py b/mentpy/simulators/pennylane_simulator.py
index 50bcd16..b670d73 100644
--- a/mentpy/simulators/pennylane_simulator.py
+++ b/mentpy/simulators/pennylane_simulator.py
@@ -39,11 +39,19 @@ class PennylaneSimulator(BaseSimulator):
     def __init__(
         self, mbqcircuit: MBQCircuit, input_state: np.ndarray, *args, **kwargs
     ) -> None:
+        circuit_noise = kwargs.pop("circuit_noise", None)
+        strength = {"p": kwargs.pop("p", 0)}
+        # damping channels call their strength gamma
+        if circuit_noise in ("amplitude_damping", "phase_damping"):
+            strength = {"gamma": kwargs.pop("gamma", strength["p"])}
+        elif circuit_noise == "generalized_amplitude_damping":
+            strength["gamma"] = kwargs.pop("gamma", 0)
+
         self.circuit = mbqcircuit_to_circuit(
             mbqcircuit,
             kwargs.pop("device", "default.qubit"),
-            kwargs.pop("circuit_noise", None),
-            p=kwargs.pop("p", 0),
+            circuit_noise,
+            **strength,
         )
         super().__init__(mbqcircuit, input_state)
 
-- 
2.43.0


From dd3ed7469acdd69e0cc4797d5f94e7addad23214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:06 +0000
Subject: [PATCH 36/39] fix: layers of trainable indices skip nodes that are
 not trainable

---
 mentpy/mbqc/mbqcircuit.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index a61081b..d1cb97a 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -318,7 +318,11 @@ class MBQCircuit:
         if train_indices:
             # return the nested layers in Flow.layers but with the trainable_nodes indices
             return [
-                [self.trainable_nodes.index(node) for node in layer]
+                [
+                    self.trainable_nodes.index(node)
+                    for node in layer
+                    if node in self.trainable_nodes
+                ]
                 for layer in self.gflow.layers[:-1]
             ]
         return self.gflow.layers
-- 
2.43.0


From 0f488a21cfe75ca8e478b9ad0147a4a1d11f81c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:50 +0000
Subject: [PATCH 37/39] fix: density-matrix simulator measures controlled
 inputs after the nodes they depend on

---
 mentpy/simulators/np_simulator_dm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mentpy/simulators/np_simulator_dm.py b/mentpy/simulators/np_simulator_dm.py
index e5e22f1..f266d5a 100644
--- a/mentpy/simulators/np_simulator_dm.py
+++ b/mentpy/simulators/np_simulator_dm.py
@@ -50,7 +50,7 @@ class NumpySimulatorDM(BaseSimulator):
                 i for i in self.schedule if i not in mbqcircuit.quantum_output_nodes
             ]
         elif mbqcircuit.measurement_order is not None:
-            # only outcome 0 is simulated, so the input nodes can go first
+            # the qubits of the input nodes are simulated from the beginning
             self.schedule = list(mbqcircuit.input_nodes) + [
                 i
                 for i in mbqcircuit.measurement_order
@@ -58,7 +58,9 @@ class NumpySimulatorDM(BaseSimulator):
             ]
             # remove output nodes from the measurement order
             self.schedule_measure = [
-                i for i in self.schedule if i not in mbqcircuit.quantum_output_nodes
+                i
+                for i in mbqcircuit.measurement_order
+                if i not in mbqcircuit.quantum_output_nodes
             ]
             if self.window_size == 1 and mbqcircuit.flow is not None:
                 self.window_size = min(
-- 
2.43.0


From 2bf9ccbd324a1feab048e20987f636b8eee4405b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:18 +0000
Subject: [PATCH 38/39] fix: self-check of the legacy flow search for graphs
 with other labels

---
 mentpy/mbqc/flow.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mentpy/mbqc/flow.py b/mentpy/mbqc/flow.py
index 7b22bb3..5792dcc 100644
--- a/mentpy/mbqc/flow.py
+++ b/mentpy/mbqc/flow.py
@@ -419,7 +419,9 @@ def find_flow(graph: GraphState, input_nodes, output_nodes, sanity_check=True):
 
             state_flow = (flow, partial_order)
             if sanity_check:
-                if not check_if_flow(graph, inp, outp, flow, partial_order):
+                if not check_if_flow(
+                    graph, input_nodes, output_nodes, flow, partial_order
+                ):
                     raise RuntimeError(
                         "Sanity check found that flow does not satisfy flow conditions."
                     )
-- 
2.43.0


From c75ea4ae75e54fd2a47c01d99039119103e48efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:50 +0000
Subject: [PATCH 39/39] fix: expressivity samples fidelities with the current
 simulator interface

---
 mentpy/utils/expressivity.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mentpy/utils/expressivity.py b/mentpy/utils/expressivity.py
index 616fdab..152d8ca 100644
--- a/mentpy/utils/expressivity.py
+++ b/mentpy/utils/expressivity.py
@@ -9,8 +9,6 @@ import networkx as nx
 from scipy.spatial import distance
 from scipy.special import kl_div, rel_entr
 
-import pennylane as qml
-
 from mentpy.mbqc import MBQCircuit
 from mentpy.simulators import PatternSimulator
 from mentpy.utils.lc_equivalence import are_lc_equivalent
@@ -92,20 +90,22 @@ def sample_probability_density_of_fidelities(
 ):
     r"""Calculates samples of the probability of fidelities of the given graph state circuit"""
 
-    pattern_simulator = PatternSimulator(graph_state_circuit)
     random_input_states = generate_haar_random_states(
         len(graph_state_circuit.input_nodes), n_samples
     )
+    if n_samples == 1:
+        random_input_states = [random_input_states]
     fidelities = []
 
     if backend == "pennylane":
-        qmlcircuit = pattern_simulator.graphstate_to_circuit()
+        pattern_simulator = PatternSimulator(graph_state_circuit, backend=backend)
         for random_st in random_input_states:
             random_pattern = (
-                2 * np.pi * np.random.rand(pattern_simulator.max_measure_number)
+                2 * np.pi * np.random.rand(len(graph_state_circuit.trainable_nodes))
             )
-            final_state = qmlcircuit(random_pattern, output="density")
-            fid = qml.math.fidelity(np.kron(random_st.T, random_st), final_state)
+            pattern_simulator.reset(input_state=random_st)
+            final_state = np.array(pattern_simulator(random_pattern))
+            fid = np.real(np.vdot(random_st, final_state @ random_st))
             fidelities.append(fid)
 
     # elif backend == "cirq":
-- 
2.43.0


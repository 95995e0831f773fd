From 5f5d2925b035d9bdaa225c47a31c860a515cce3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:32 +0000
Subject: [PATCH 01/75] fix: keep the control state when copying, inverting,
 merging and comparing commands

Command.__deepcopy__, get_inverse and get_merged dropped the control state (turning negative controls into
positive ones) and __eq__/get_merged ignored it, so e.g. the LocalOptimizer cancelled or merged gates with opposite
control states. The controlstate decomposition relied on deepcopy dropping it (it assigned to a non-existing
attribute).
---
 projectq/ops/_command.py                       | 13 +++++++++++--
 projectq/setups/decompositions/controlstate.py |  5 +++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/projectq/ops/_command.py b/projectq/ops/_command.py
index 481efcc..2081d26 100755
--- a/projectq/ops/_command.py
+++ b/projectq/ops/_command.py
@@ -135,6 +135,7 @@ class Command:  # pylint: disable=too-many-instance-attributes
             self.qubits,
             list(self.control_qubits),
             deepcopy(self.tags),
+            control_state=self.control_state,
         )
 
     def get_inverse(self):
@@ -152,6 +153,7 @@ class Command:  # pylint: disable=too-many-instance-attributes
             self.qubits,
             list(self.control_qubits),
             deepcopy(self.tags),
+            control_state=self.control_state,
         )
 
     def is_identity(self):
@@ -173,13 +175,19 @@ class Command:  # pylint: disable=too-many-instance-attributes
         Raises:
             NotMergeable: if the gates don't supply a get_merged()-function or can't be merged for other reasons.
         """
-        if self.tags == other.tags and self.all_qubits == other.all_qubits and self.engine == other.engine:
+        if (
+            self.tags == other.tags
+            and self.all_qubits == other.all_qubits
+            and self.control_state == other.control_state
+            and self.engine == other.engine
+        ):
             return Command(
                 self.engine,
                 self.gate.get_merged(other.gate),
                 self.qubits,
                 self.control_qubits,
                 deepcopy(self.tags),
+                control_state=self.control_state,
             )
         raise projectq.ops.NotMergeable("Commands not mergeable.")
 
@@ -325,7 +333,7 @@ class Command:  # pylint: disable=too-many-instance-attributes
             other (Command): Command object to compare this to
 
         Returns: True if Command objects are equal (same gate, applied to same
-        qubits; ordered modulo interchangeability; and same tags)
+        qubits; ordered modulo interchangeability; same control states and same tags)
         """
         if (
             isinstance(other, self.__class__)
@@ -333,6 +341,7 @@ class Command:  # pylint: disable=too-many-instance-attributes
             and self.tags == other.tags
             and self.engine == other.engine
             and self.all_qubits == other.all_qubits
+            and self.control_state == other.control_state
         ):
             return True
         return False
diff --git a/projectq/setups/decompositions/controlstate.py b/projectq/setups/decompositions/controlstate.py
index b8d180e..35ccc7e 100755
--- a/projectq/setups/decompositions/controlstate.py
+++ b/projectq/setups/decompositions/controlstate.py
@@ -33,9 +33,10 @@ def _decompose_controlstate(cmd):
                 X | ctrl
 
     # Resend the command with the `control_state` cleared
-    cmd.ctrl_state = '1' * len(cmd.control_state)
+    new_cmd = deepcopy(cmd)  # NB: deepcopy required here to workaround infinite recursion detection
+    new_cmd.control_state = '1' * len(cmd.control_state)
     orig_engine = cmd.engine
-    cmd.engine.receive([deepcopy(cmd)])  # NB: deepcopy required here to workaround infinite recursion detection
+    orig_engine.receive([new_cmd])
     Uncompute(orig_engine)
 
 
-- 
2.43.0


From f42a1095b225d6c6fd3e45ba1de9ee59d1c78f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:55 +0000
Subject: [PATCH 02/75] fix: keep control states attached to their control
 qubits when these are sorted

Command sorts its control qubits by ID but left the control state in the given order (wrong after mapping or for
unsorted controls), and setting control_qubits left a stale control state behind (dropping qubits later on).
---
 projectq/ops/_command.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/projectq/ops/_command.py b/projectq/ops/_command.py
index 2081d26..d8ac8f1 100755
--- a/projectq/ops/_command.py
+++ b/projectq/ops/_command.py
@@ -113,9 +113,8 @@ class Command:  # pylint: disable=too-many-instance-attributes
         self.gate = gate
         self.tags = list(tags)
         self.qubits = qubits  # property
-        self.control_qubits = controls  # property
+        self._set_controls(controls, control_state)
         self.engine = engine  # property
-        self.control_state = control_state  # property
 
     @property
     def qubits(self):
@@ -236,8 +235,28 @@ class Command:  # pylint: disable=too-many-instance-attributes
         Args:
             control_qubits (Qureg): quantum register
         """
-        self._control_qubits = [WeakQubitRef(qubit.engine, qubit.id) for qubit in qubits]
-        self._control_qubits = sorted(self._control_qubits, key=lambda x: x.id)
+        qubits = list(qubits)
+        # The i-th control state belongs to the i-th control qubit; start anew if they do not correspond to each other
+        state = self._control_state if len(self._control_state) == len(qubits) else CtrlAll.One
+        self._set_controls(qubits, state)
+
+    def _set_controls(self, qubits, state):
+        """
+        Set the control qubits and their states, in canonical order (i.e. sorted by qubit ID).
+
+        Args:
+            qubits (Qureg|list[Qubit]): Control qubits
+            state (int,str,projectq.meta.CtrlAll): Control state for the qubits (in the order in which they are given)
+        """
+        # NB: avoid circular imports
+        from projectq.meta import (  # pylint: disable=import-outside-toplevel
+            canonical_ctrl_state,
+        )
+
+        qubits = [WeakQubitRef(qubit.engine, qubit.id) for qubit in qubits]
+        zipped = sorted(zip(qubits, canonical_ctrl_state(state, len(qubits))), key=lambda x: x[0].id)
+        self._control_qubits = [qubit for qubit, _ in zipped]
+        self._control_state = ''.join(value for _, value in zipped)
 
     @property
     def control_state(self):
-- 
2.43.0


From dcb53e4219a0becdcbc82d44d45109244054f6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 03/75] fix: drop an identity gate from the pipelines of all
 its qubits in LocalOptimizer

Multi-qubit identity gates (e.g. a controlled Rz(0)) were only removed from the last qubit's pipeline, which corrupted
the cache.
---
 projectq/cengines/_optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/cengines/_optimize.py b/projectq/cengines/_optimize.py
index 1cce731..2f84b2d 100755
--- a/projectq/cengines/_optimize.py
+++ b/projectq/cengines/_optimize.py
@@ -138,7 +138,7 @@ class LocalOptimizer(BasicEngine):
                     new_list = (
                         self._l[qubit_id][0 : gid[j]] + self._l[qubit_id][gid[j] + 1 :]  # noqa: E203  # noqa: E203
                     )
-                self._l[qubitids[j]] = new_list  # pylint: disable=undefined-loop-variable
+                    self._l[qubit_id] = new_list
                 i = 0
                 limit -= 1
                 continue
-- 
2.43.0


From 8ae565cb33c50ca37aaa41ee33b42a052de63cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 04/75] fix: compare QubitOperators by their terms

QubitOperator inherited BasicGate.__eq__ (same class means equal), so the LocalOptimizer cancelled different operators.
---
 projectq/ops/_qubit_operator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/projectq/ops/_qubit_operator.py b/projectq/ops/_qubit_operator.py
index 80c901d..bc6c1f0 100644
--- a/projectq/ops/_qubit_operator.py
+++ b/projectq/ops/_qubit_operator.py
@@ -581,6 +581,12 @@ class QubitOperator(BasicGate):
         """Repr method."""
         return str(self)
 
+    def __eq__(self, other):
+        """Return True if equal (i.e. same terms with the same coefficients)."""
+        if isinstance(other, self.__class__):
+            return self.terms == other.terms
+        return False
+
     def __hash__(self):
         """Compute the hash of the object."""
         return hash(str(self))
-- 
2.43.0


From 6e7149a20f0b42a5e45960e8f0afd825d2db320a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 05/75] fix: merge QubitOperators in the order in which they
 are applied

A.get_merged(B) returned A*B, but B acts after A; the sign is wrong for anti-commuting operators.
---
 projectq/ops/_qubit_operator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projectq/ops/_qubit_operator.py b/projectq/ops/_qubit_operator.py
index bc6c1f0..4396775 100644
--- a/projectq/ops/_qubit_operator.py
+++ b/projectq/ops/_qubit_operator.py
@@ -352,7 +352,8 @@ class QubitOperator(BasicGate):
             NotMergeable: merging is not possible
         """
         if isinstance(other, self.__class__) and len(other.terms) == 1 and len(self.terms) == 1:
-            return self * other
+            # other is applied after self
+            return other * self
         raise NotMergeable()
 
     def __imul__(self, multiplier):  # pylint: disable=too-many-locals,too-many-branches
-- 
2.43.0


From c546ed9c502244c89c2ce68df51fa2d3e68ee6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 06/75] fix: compare QPE and QAA gates by their contents

They inherited BasicGate.__eq__ (same class means equal), so that the LocalOptimizer cancelled inverses of different
QPE/QAA gates.
---
 projectq/ops/_qaagate.py | 10 ++++++++++
 projectq/ops/_qpegate.py |  8 ++++++++
 2 files changed, 18 insertions(+)

diff --git a/projectq/ops/_qaagate.py b/projectq/ops/_qaagate.py
index c5561ea..2ed394e 100755
--- a/projectq/ops/_qaagate.py
+++ b/projectq/ops/_qaagate.py
@@ -80,3 +80,13 @@ class QAA(BasicGate):
     def __str__(self):
         """Return a string representation of the object."""
         return f'QAA(Algorithm = {str(self.algorithm.__name__)}, Oracle = {str(self.oracle.__name__)})'
+
+    def __eq__(self, other):
+        """Return True if equal (i.e. same class, same algorithm and same oracle)."""
+        return (
+            isinstance(other, self.__class__) and self.algorithm == other.algorithm and self.oracle == other.oracle
+        )
+
+    def __hash__(self):
+        """Compute the hash of the object."""
+        return hash(str(self))
diff --git a/projectq/ops/_qpegate.py b/projectq/ops/_qpegate.py
index 3eab6e8..85728bc 100755
--- a/projectq/ops/_qpegate.py
+++ b/projectq/ops/_qpegate.py
@@ -32,3 +32,11 @@ class QPE(BasicGate):
     def __str__(self):
         """Return a string representation of the object."""
         return f'QPE({str(self.unitary)})'
+
+    def __eq__(self, other):
+        """Return True if equal (i.e. same class and same unitary)."""
+        return isinstance(other, self.__class__) and self.unitary == other.unitary
+
+    def __hash__(self):
+        """Compute the hash of the object."""
+        return hash(str(self))
-- 
2.43.0


From 64522b683907174ff3ab42dff7df205ef4f2660a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:35 +0000
Subject: [PATCH 07/75] fix: compiler setups for restricted gate sets no longer
 pass 0-controls on to the backend

---
 projectq/setups/_utils.py            | 3 +++
 projectq/setups/restrictedgateset.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/projectq/setups/_utils.py b/projectq/setups/_utils.py
index 20c531a..e4a902e 100644
--- a/projectq/setups/_utils.py
+++ b/projectq/setups/_utils.py
@@ -25,6 +25,7 @@ from projectq.cengines import (
     LocalOptimizer,
     TagRemover,
 )
+from projectq.meta import has_negative_control
 from projectq.ops import (
     CNOT,
     QFT,
@@ -135,6 +136,8 @@ def get_engine_list_linear_grid_base(mapper, one_qubit_gates="any", two_qubit_ga
         if isinstance(cmd.gate, ClassicalInstructionGate):
             # This is required to allow Measure, Allocate, Deallocate, Flush
             return True
+        if has_negative_control(cmd):
+            return False
         if one_qubit_gates == "any" and len(all_qubits) == 1:
             return True
         if two_qubit_gates == "any" and len(all_qubits) == 2:
diff --git a/projectq/setups/restrictedgateset.py b/projectq/setups/restrictedgateset.py
index 202bb99..145df68 100644
--- a/projectq/setups/restrictedgateset.py
+++ b/projectq/setups/restrictedgateset.py
@@ -31,6 +31,7 @@ from projectq.cengines import (
     LocalOptimizer,
     TagRemover,
 )
+from projectq.meta import has_negative_control
 from projectq.ops import CNOT, BasicGate, ClassicalInstructionGate, ControlledGate
 
 from ._utils import high_level_gates, one_and_two_qubit_gates
@@ -154,6 +155,8 @@ def get_engine_list(  # pylint: disable=too-many-branches,too-many-statements
         if isinstance(cmd.gate, ClassicalInstructionGate):
             # This is required to allow Measure, Allocate, Deallocate, Flush
             return True
+        if has_negative_control(cmd):
+            return False
         if one_qubit_gates == "any" and len(all_qubits) == 1:
             return True
         if two_qubit_gates == "any" and len(all_qubits) == 2:
-- 
2.43.0


From f6d05fda053a0f704b28fcebbaa0e2bcbea09aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:05 +0000
Subject: [PATCH 08/75] fix: linear and grid setups apply the one- and
 two-qubit gate lists to gates of that size only

---
 projectq/setups/_utils.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/projectq/setups/_utils.py b/projectq/setups/_utils.py
index e4a902e..54ee506 100644
--- a/projectq/setups/_utils.py
+++ b/projectq/setups/_utils.py
@@ -105,12 +105,13 @@ def get_engine_list_linear_grid_base(mapper, one_qubit_gates="any", two_qubit_ga
         raise TypeError("one_qubit_gates parameter must be 'any' or a tuple.")
 
     rule_set = DecompositionRuleSet(modules=[projectq.libs.math, projectq.setups.decompositions])
-    allowed_gate_classes = []
+    allowed_gate_classes1 = []
+    allowed_gate_classes2 = []
     allowed_gate_instances = []
     if one_qubit_gates != "any":
         for gate in one_qubit_gates:
             if inspect.isclass(gate):
-                allowed_gate_classes.append(gate)
+                allowed_gate_classes1.append(gate)
             else:
                 allowed_gate_instances.append((gate, 0))
     if two_qubit_gates != "any":
@@ -120,13 +121,14 @@ def get_engine_list_linear_grid_base(mapper, one_qubit_gates="any", two_qubit_ga
                 #  separate treatment
                 if isinstance(gate, ControlledGate):  # pragma: no cover
                     raise RuntimeError('Support for controlled gate not implemented!')
-                allowed_gate_classes.append(gate)
+                allowed_gate_classes2.append(gate)
             else:
                 if isinstance(gate, ControlledGate):
                     allowed_gate_instances.append((gate._gate, gate._n))  # pylint: disable=protected-access
                 else:
                     allowed_gate_instances.append((gate, 0))
-    allowed_gate_classes = tuple(allowed_gate_classes)
+    allowed_gate_classes1 = tuple(allowed_gate_classes1)
+    allowed_gate_classes2 = tuple(allowed_gate_classes2)
     allowed_gate_instances = tuple(allowed_gate_instances)
 
     def low_level_gates(eng, cmd):  # pylint: disable=unused-argument
@@ -142,7 +144,9 @@ def get_engine_list_linear_grid_base(mapper, one_qubit_gates="any", two_qubit_ga
             return True
         if two_qubit_gates == "any" and len(all_qubits) == 2:
             return True
-        if isinstance(cmd.gate, allowed_gate_classes):
+        if isinstance(cmd.gate, allowed_gate_classes1) and len(all_qubits) == 1:
+            return True
+        if isinstance(cmd.gate, allowed_gate_classes2) and len(all_qubits) == 2:
             return True
         if (cmd.gate, len(cmd.control_qubits)) in allowed_gate_instances:
             return True
-- 
2.43.0


From ec16371ae45ba5c203d525fd898a6ed71fd2f59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:47 +0000
Subject: [PATCH 09/75] fix: ClassicalSimulator honours the required values of
 control qubits

---
 projectq/backends/_sim/_classical_simulator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_sim/_classical_simulator.py b/projectq/backends/_sim/_classical_simulator.py
index f873d10..0e64e8a 100755
--- a/projectq/backends/_sim/_classical_simulator.py
+++ b/projectq/backends/_sim/_classical_simulator.py
@@ -227,7 +227,8 @@ class ClassicalSimulator(BasicEngine):
             return
 
         controls_mask = self._mask(cmd.control_qubits)
-        meets_controls = self._state & controls_mask == controls_mask
+        required = self._mask(qb for qb, value in zip(cmd.control_qubits, cmd.control_state) if value == '1')
+        meets_controls = self._state & controls_mask == required
 
         if isinstance(cmd.gate, XGate):
             if not (len(cmd.qubits) == 1 and len(cmd.qubits[0]) == 1):
-- 
2.43.0


From 9012698da70f99330692a6aa53c67b54254e2069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 10/75] fix: a qubit required by two nested controls is only
 one control qubit of the command

---
 projectq/ops/_command.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/projectq/ops/_command.py b/projectq/ops/_command.py
index d8ac8f1..afcaaf5 100755
--- a/projectq/ops/_command.py
+++ b/projectq/ops/_command.py
@@ -302,16 +302,19 @@ class Command:  # pylint: disable=too-many-instance-attributes
         self._control_state += canonical_ctrl_state(state, len(qubits))
 
         zipped = sorted(zip(self._control_qubits, self._control_state), key=lambda x: x[0].id)
-        unzipped_qubit, unzipped_state = zip(*zipped)
-        self._control_qubits, self._control_state = list(unzipped_qubit), ''.join(unzipped_state)
-
-        # Make sure that we do not have contradicting control states for any control qubits
+        # Make sure that we do not have contradicting control states for any control qubits. A qubit which has already
+        # been a control qubit with the same state is only kept once.
+        unique = []
         for _, data in itertools.groupby(zipped, key=lambda x: x[0].id):
+            data = list(data)
             qubits, states = list(zip(*data))
             if len(set(states)) != 1:
                 raise IncompatibleControlState(
                     f'Control qubits {list(qubits)} cannot have conflicting control states: {states}'
                 )
+            unique.append(data[0])
+        self._control_qubits = [qubit for qubit, _ in unique]
+        self._control_state = ''.join(state for _, state in unique)
 
     @property
     def all_qubits(self):
-- 
2.43.0


From 5584c0f739328e58d6d44e90c54b9fdfe5c85e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 11/75] fix: SwapAndCNOTFlipper keeps the required value of a
 flipped CNOT's control

---
 projectq/cengines/_swapandcnotflipper.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/projectq/cengines/_swapandcnotflipper.py b/projectq/cengines/_swapandcnotflipper.py
index 997274a..857beb1 100755
--- a/projectq/cengines/_swapandcnotflipper.py
+++ b/projectq/cengines/_swapandcnotflipper.py
@@ -18,8 +18,8 @@ It also translates Swap gates to CNOTs if necessary.
 """
 from copy import deepcopy
 
-from projectq.meta import get_control_count
-from projectq.ops import CNOT, NOT, All, H, Swap
+from projectq.meta import get_control_count, has_negative_control
+from projectq.ops import CNOT, NOT, All, H, Swap, X
 
 from ._basics import BasicEngine, ForwarderEngine
 from ._cmdmodifier import CommandModifier
@@ -106,10 +106,15 @@ class SwapAndCNOTFlipper(BasicEngine):
         target[0].engine = forwarder_eng
         control[0].engine = forwarder_eng
         if flip:
+            negative = has_negative_control(cmd)
+            if negative:
+                X | control
             # flip the CNOT using Hadamard gates:
             All(H) | (control + target)
             CNOT | (target, control)
             All(H) | (control + target)
+            if negative:
+                X | control
         else:
             CNOT | (control, target)
 
-- 
2.43.0


From b229a15be19872c86a270aa24db2bedf8844424d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 12/75] fix: AutoReplacer does not add inverse decompositions
 to its rule set

---
 projectq/cengines/_replacer/_replacer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/cengines/_replacer/_replacer.py b/projectq/cengines/_replacer/_replacer.py
index 69cedf7..a71526d 100755
--- a/projectq/cengines/_replacer/_replacer.py
+++ b/projectq/cengines/_replacer/_replacer.py
@@ -162,7 +162,7 @@ class AutoReplacer(BasicEngine):
                     if level < len(gate_mro):
                         class_name = gate_mro[level].__name__
                         try:
-                            potential_decomps = rules[class_name]
+                            potential_decomps = list(rules[class_name])
                         except KeyError:
                             pass
                         # throw out the ones which don't recognize the command
-- 
2.43.0


From 156bbb1b3db3254e46a7df8d659bef38fe7166fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:08 +0000
Subject: [PATCH 13/75] fix: negative integers are not control states

---
 projectq/meta/_control.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/projectq/meta/_control.py b/projectq/meta/_control.py
index 1768927..38b70ba 100755
--- a/projectq/meta/_control.py
+++ b/projectq/meta/_control.py
@@ -61,6 +61,8 @@ def canonical_ctrl_state(ctrl_state, num_qubits):
 
     if isinstance(ctrl_state, int):
         # If the user inputs an integer, convert it to binary bit string
+        if ctrl_state < 0:
+            raise ValueError(f'Control state specified as {ctrl_state} is negative')
         converted_str = f'{ctrl_state:b}'.zfill(num_qubits)[::-1]
         if len(converted_str) != num_qubits:
             raise ValueError(
-- 
2.43.0


From 6174f5ead816c1c5fb7bbb1fddb3ce7a1f324312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:09 +0000
Subject: [PATCH 14/75] fix: decompose one-qubit gates with small angles

acos loses half of the digits close to 1, so rotations by small angles found no parameters.
---
 projectq/setups/decompositions/arb1qubit2rzandry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/setups/decompositions/arb1qubit2rzandry.py b/projectq/setups/decompositions/arb1qubit2rzandry.py
index fc9d1a4..97dac6e 100644
--- a/projectq/setups/decompositions/arb1qubit2rzandry.py
+++ b/projectq/setups/decompositions/arb1qubit2rzandry.py
@@ -183,7 +183,7 @@ def _find_parameters(matrix):  # pylint: disable=too-many-branches,too-many-stat
             (two_b / 4.0 + math.pi) % (2 * math.pi),
             (two_b / 4.0 + 3.0 / 2.0 * math.pi) % (2 * math.pi),
         ]
-        tmp = math.acos(abs(matrix[1][1]))
+        tmp = math.atan2(abs(matrix[1][0]), abs(matrix[1][1]))  # acos would be inexact for small angles
         possible_c_half = [
             tmp % (2 * math.pi),
             (tmp + math.pi) % (2 * math.pi),
-- 
2.43.0


From 6daab961cf4a80dff2d265d6763f24d1bb64ac9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:58 +0000
Subject: [PATCH 15/75] fix: carry of additions of one-qubit numbers

---
 projectq/libs/math/_quantummath.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/projectq/libs/math/_quantummath.py b/projectq/libs/math/_quantummath.py
index 59aa7cf..b91b9a2 100644
--- a/projectq/libs/math/_quantummath.py
+++ b/projectq/libs/math/_quantummath.py
@@ -56,7 +56,7 @@ def add_quantum(eng, quint_a, quint_b, carry=None):
     for i in range(1, n_qubits - 1):
         CNOT | (quint_a[i], quint_b[i])
 
-    if carry:
+    if carry and n_qubits > 2:  # otherwise no CNOT was applied to the highest bit of quint_b
         CNOT | (quint_a[n_qubits - 2], carry)
 
     for j in range(n_qubits - 3, 0, -1):
@@ -425,8 +425,9 @@ def quantum_conditional_add_carry(eng, quint_a, quint_b, ctrl, z):  # pylint: di
     for i in range(1, n_a):
         CNOT | (quint_a[i], quint_b[i])
 
-    with Control(eng, [quint_a[n_a - 1], ctrl[0]]):
-        X | z[0]
+    if n_a > 1:  # otherwise no CNOT was applied to the highest bit of quint_b
+        with Control(eng, [quint_a[n_a - 1], ctrl[0]]):
+            X | z[0]
 
     for j in range(n_a - 2, 0, -1):
         CNOT | (quint_a[j], quint_a[j + 1])
-- 
2.43.0


From 146f11423f65fcb539e183330dad3d35d75c8d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:12 +0000
Subject: [PATCH 16/75] fix: comparator restores its inputs for three or more
 qubits

---
 projectq/libs/math/_quantummath.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/projectq/libs/math/_quantummath.py b/projectq/libs/math/_quantummath.py
index b91b9a2..538ee1a 100644
--- a/projectq/libs/math/_quantummath.py
+++ b/projectq/libs/math/_quantummath.py
@@ -206,7 +206,8 @@ def comparator(eng, quint_a, quint_b, comp):
     for i in range(1, n_qubits - 1):
         CNOT | (quint_a[i], quint_b[i])
 
-    CNOT | (quint_a[n_qubits - 2], comp)
+    if n_qubits > 2:  # otherwise no CNOT was applied to the highest bit of quint_b
+        CNOT | (quint_a[n_qubits - 2], comp)
 
     for j in range(n_qubits - 3, 0, -1):
         CNOT | (quint_a[j], quint_a[j + 1])
@@ -218,11 +219,11 @@ def comparator(eng, quint_a, quint_b, comp):
     with Control(eng, [quint_a[n_qubits - 2], quint_b[n_qubits - 2]]):
         X | comp
 
-    for k in range(0, n_qubits - 2):
+    for k in range(n_qubits - 3, -1, -1):
         with Control(eng, [quint_a[k], quint_b[k]]):
             X | (quint_a[k + 1])
 
-    for j in range(n_qubits - 3, 0, -1):
+    for j in range(1, n_qubits - 2):
         CNOT | (quint_a[j], quint_a[j + 1])
 
     for i in range(1, n_qubits - 1):
-- 
2.43.0


From edb69f43904c8ee640a85a829a142090fd190700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:12 +0000
Subject: [PATCH 17/75] fix: multiplication uses the highest bit of the first
 factor

---
 projectq/libs/math/_quantummath.py | 26 ++++++--------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/projectq/libs/math/_quantummath.py b/projectq/libs/math/_quantummath.py
index 538ee1a..cb1ab37 100644
--- a/projectq/libs/math/_quantummath.py
+++ b/projectq/libs/math/_quantummath.py
@@ -498,18 +498,11 @@ def quantum_multiplication(eng, quint_a, quint_b, product):
         with Control(eng, [quint_a[i], quint_b[0]]):
             X | product[i]
 
-    with Control(eng, quint_b[1]):
-        AddQuantum | (
-            quint_a[0 : (n_a - 1)],  # noqa: E203
-            product[1:n_a],
-            [product[n_a + 1], product[n_a + 2]],
-        )
-
-    for j in range(2, n_a):
+    for j in range(1, n_a):
         with Control(eng, quint_b[j]):
             AddQuantum | (
-                quint_a[0 : (n_a - 1)],  # noqa: E203
-                product[(0 + j) : (n_a - 1 + j)],  # noqa: E203
+                quint_a[0:n_a],
+                product[j : (n_a + j)],  # noqa: E203
                 [product[n_a + j], product[n_a + j + 1]],
             )
 
@@ -538,20 +531,13 @@ def inverse_quantum_multiplication(eng, quint_a, quint_b, product):
     if len(product) != ((2 * n_a) + 1):
         raise ValueError('product size must be 2*n + 1')
 
-    for j in range(2, n_a):
+    for j in range(n_a - 1, 0, -1):
         with Control(eng, quint_b[j]):
             SubtractQuantum | (
-                quint_a[0 : (n_a - 1)],  # noqa: E203
-                product[(0 + j) : (n_a - 1 + j)],  # noqa: E203
+                quint_a[0:n_a],
+                product[j : (n_a + j)],  # noqa: E203
                 [product[n_a + j], product[n_a + j + 1]],
             )
     for i in range(0, n_a):
         with Control(eng, [quint_a[i], quint_b[0]]):
             X | product[i]
-
-    with Control(eng, quint_b[1]):
-        SubtractQuantum | (
-            quint_a[0 : (n_a - 1)],  # noqa: E203
-            product[1:n_a],
-            [product[n_a + 1], product[n_a + 2]],
-        )
-- 
2.43.0


From 2fceb283f05e9f8abc8921a55e36a8be7ba57116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:30 +0000
Subject: [PATCH 18/75] fix: the comparator is its own inverse

---
 projectq/libs/math/_gates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/libs/math/_gates.py b/projectq/libs/math/_gates.py
index ad466d2..eecc05e 100755
--- a/projectq/libs/math/_gates.py
+++ b/projectq/libs/math/_gates.py
@@ -394,7 +394,7 @@ class ComparatorQuantumGate(BasicMathGate):
 
     def get_inverse(self):
         """Return the inverse of this gate."""
-        return AddQuantum
+        return self
 
 
 ComparatorQuantum = ComparatorQuantumGate()
-- 
2.43.0


From d8f32d8b55b96700d56196bbc5cea56ee53d0791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 19/75] fix: division by divisors that use the highest bit

---
 projectq/libs/math/_gates.py       | 5 +++--
 projectq/libs/math/_quantummath.py | 7 ++-----
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/projectq/libs/math/_gates.py b/projectq/libs/math/_gates.py
index eecc05e..872b0f7 100755
--- a/projectq/libs/math/_gates.py
+++ b/projectq/libs/math/_gates.py
@@ -319,8 +319,9 @@ class SubtractQuantumGate(BasicMathGate):
         efficiently.
         """
 
-        def subtract(a, b):  # pylint: disable=invalid-name
-            return (a, b - a)
+        def subtract(a, b, *borrow):  # pylint: disable=invalid-name
+            # Flip the last bit of the borrow register (if there is one)
+            return (a, b - a, *(c ^ (a > b) for c in borrow))
 
         super().__init__(subtract)
 
diff --git a/projectq/libs/math/_quantummath.py b/projectq/libs/math/_quantummath.py
index cb1ab37..692987b 100644
--- a/projectq/libs/math/_quantummath.py
+++ b/projectq/libs/math/_quantummath.py
@@ -335,8 +335,7 @@ def quantum_division(eng, dividend, remainder, divisor):
         for i in range(0, n_dividend - 1):
             combined_reg.append(remainder[i])
 
-        SubtractQuantum | (divisor[0:n_dividend], combined_reg)
-        CNOT | (combined_reg[n_dividend - 1], remainder[n_dividend - 1])
+        SubtractQuantum | (divisor[0:n_dividend], combined_reg, [remainder[n_dividend - 1]])
         with Control(eng, remainder[n_dividend - 1]):
             AddQuantum | (divisor[0:n_dividend], combined_reg)
         X | remainder[n_dividend - 1]
@@ -373,9 +372,7 @@ def inverse_quantum_division(eng, remainder, quotient, divisor):
         X | quotient[0]
         with Control(eng, quotient[0]):
             SubtractQuantum | (divisor, remainder)
-        CNOT | (remainder[-1], quotient[0])
-
-        AddQuantum | (divisor, remainder)
+        AddQuantum | (divisor, remainder, [quotient[0]])
 
         remainder.insert(n_quotient, quotient[0])
         quotient.insert(n_quotient, remainder[0])
-- 
2.43.0


From a37ed41b72ecfab90600879775c9217e32c74259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:08 +0000
Subject: [PATCH 20/75] fix: modular addition with a modulus that uses the
 highest bit

---
 projectq/libs/math/_constantmath.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projectq/libs/math/_constantmath.py b/projectq/libs/math/_constantmath.py
index 14c87e7..a329b7a 100755
--- a/projectq/libs/math/_constantmath.py
+++ b/projectq/libs/math/_constantmath.py
@@ -56,6 +56,10 @@ def add_constant_modN(eng, constant, N, quint):  # pylint: disable=invalid-name
     if constant < 0 or constant > N:
         raise ValueError('Pre-condition failed: 0 <= constant < N')
 
+    if N > 1 << (len(quint) - 1):
+        # the highest bit is needed for the number itself, use one more bit as the sign
+        quint = list(quint) + list(eng.allocate_qubit())
+
     AddConstant(constant) | quint
 
     with Compute(eng):
-- 
2.43.0


From 07457be0cafb51074f692943769b47fc674a6ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:20 +0000
Subject: [PATCH 21/75] fix: emulated inverse addition flips the carry only on
 a borrow

---
 projectq/libs/math/_gates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/libs/math/_gates.py b/projectq/libs/math/_gates.py
index 872b0f7..2263125 100755
--- a/projectq/libs/math/_gates.py
+++ b/projectq/libs/math/_gates.py
@@ -285,7 +285,7 @@ class _InverseAddQuantumGate(BasicMathGate):
 
     def get_math_function(self, qubits):
         def math_fun(a):  # pylint: disable=invalid-name
-            if len(a) == 3:
+            if len(a) == 3 and a[0] > a[1]:
                 # Flip the last bit of the carry register
                 a[2] ^= 1
 
-- 
2.43.0


From e850105379ed6b6898ccf246f4e3a9dfa822476d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:57 +0000
Subject: [PATCH 22/75] fix: inverses of the quantum arithmetic gates can be
 compared and inverted

---
 projectq/libs/math/_gates.py | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/projectq/libs/math/_gates.py b/projectq/libs/math/_gates.py
index 2263125..a339004 100755
--- a/projectq/libs/math/_gates.py
+++ b/projectq/libs/math/_gates.py
@@ -283,6 +283,18 @@ class _InverseAddQuantumGate(BasicMathGate):
         """Return a string representation of the object."""
         return "_InverseAddQuantum"
 
+    def __eq__(self, other):
+        """Equal operator."""
+        return isinstance(other, _InverseAddQuantumGate)
+
+    def __hash__(self):
+        """Compute the hash of the object."""
+        return hash(str(self))
+
+    def get_inverse(self):
+        """Return the inverse of this gate."""
+        return AddQuantum
+
     def get_math_function(self, qubits):
         def math_fun(a):  # pylint: disable=invalid-name
             if len(a) == 3 and a[0] > a[1]:
@@ -485,6 +497,18 @@ class _InverseDivideQuantumGate(BasicMathGate):
         """Return a string representation of the object."""
         return "_InverseDivideQuantum"
 
+    def __eq__(self, other):
+        """Equal operator."""
+        return isinstance(other, _InverseDivideQuantumGate)
+
+    def __hash__(self):
+        """Compute the hash of the object."""
+        return hash(str(self))
+
+    def get_inverse(self):
+        """Return the inverse of this gate."""
+        return DivideQuantum
+
 
 class MultiplyQuantumGate(BasicMathGate):
     """
@@ -553,3 +577,15 @@ class _InverseMultiplyQuantumGate(BasicMathGate):
     def __str__(self):
         """Return a string representation of the object."""
         return "_InverseMultiplyQuantum"
+
+    def __eq__(self, other):
+        """Equal operator."""
+        return isinstance(other, _InverseMultiplyQuantumGate)
+
+    def __hash__(self):
+        """Compute the hash of the object."""
+        return hash(str(self))
+
+    def get_inverse(self):
+        """Return the inverse of this gate."""
+        return MultiplyQuantum
-- 
2.43.0


From 8bae7ea42f1b7b16686d90b4999399611899a1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:57 +0000
Subject: [PATCH 23/75] fix: no integer overflow in emulated modular
 multiplication

---
 projectq/backends/_sim/_cppkernels/simulator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/backends/_sim/_cppkernels/simulator.hpp b/projectq/backends/_sim/_cppkernels/simulator.hpp
index 1a84723..4b6eb39 100755
--- a/projectq/backends/_sim/_cppkernels/simulator.hpp
+++ b/projectq/backends/_sim/_cppkernels/simulator.hpp
@@ -286,7 +286,7 @@ public:
     template<class QuReg>
     inline void emulate_math_multiplyByConstantModN(int a, int N, const QuReg& quregs, const std::vector<unsigned>& ctrl)
     {
-      emulate_math([a,N](std::vector<int> &res){for(auto& x: res) x = (x * a) % N;}, quregs, ctrl, true);
+      emulate_math([a,N](std::vector<int> &res){for(auto& x: res) x = static_cast<int>((static_cast<long long>(x) * a) % N);}, quregs, ctrl, true);
     }
 
     calc_type get_expectation_value(TermsDict const& td, std::vector<unsigned> const& ids){
-- 
2.43.0


From 546e60b0c56d9e05c1364d72075090661982a102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:50 +0000
Subject: [PATCH 24/75] fix: Python simulator adds up the amplitudes of inputs
 that are emulated to the same output

---
 projectq/backends/_sim/_pysim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_sim/_pysim.py b/projectq/backends/_sim/_pysim.py
index f6fb58f..87d0b2b 100755
--- a/projectq/backends/_sim/_pysim.py
+++ b/projectq/backends/_sim/_pysim.py
@@ -217,9 +217,9 @@ class Simulator:
                     for qb_i, qb_loc in enumerate(qr_loc):
                         if not ((new_i >> qb_loc) & 1) == ((res[qr_i] >> qb_i) & 1):
                             new_i ^= 1 << qb_loc
-                newstate[new_i] = state
+                newstate[new_i] += state
             else:
-                newstate[i] = state
+                newstate[i] += state
 
         self._state = newstate
 
-- 
2.43.0


From b4d987b3002fb71158b208a1c412003fe764b9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:17 +0000
Subject: [PATCH 25/75] fix: refuse bit strings with fewer bits than qubits in
 get_probability and get_amplitude

---
 projectq/backends/_sim/_simulator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projectq/backends/_sim/_simulator.py b/projectq/backends/_sim/_simulator.py
index f3365fb..de64473 100755
--- a/projectq/backends/_sim/_simulator.py
+++ b/projectq/backends/_sim/_simulator.py
@@ -219,6 +219,8 @@ class Simulator(BasicEngine):
         """
         qureg = self._convert_logical_to_mapped_qureg(qureg)
         bit_string = [bool(int(b)) for b in bit_string]
+        if len(bit_string) < len(qureg):
+            raise ValueError("The bit string must contain one bit per qubit!")
         return self._simulator.get_probability(bit_string, [qb.id for qb in qureg])
 
     def get_amplitude(self, bit_string, qureg):
@@ -245,6 +247,8 @@ class Simulator(BasicEngine):
         """
         qureg = self._convert_logical_to_mapped_qureg(qureg)
         bit_string = [bool(int(b)) for b in bit_string]
+        if len(bit_string) < len(qureg):
+            raise ValueError("The bit string must contain one bit per qubit!")
         return self._simulator.get_amplitude(bit_string, [qb.id for qb in qureg])
 
     def set_wavefunction(self, wavefunction, qureg):
-- 
2.43.0


From 85fbb330393bdd84893af928a321df7d7286f9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:32 +0000
Subject: [PATCH 26/75] fix: measurements never pick an outcome of probability
 zero

---
 projectq/backends/_sim/_cppkernels/simulator.hpp | 11 ++++++++---
 projectq/backends/_sim/_pysim.py                 | 12 +++++++-----
 projectq/backends/_unitary.py                    | 12 +++++++-----
 3 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/projectq/backends/_sim/_cppkernels/simulator.hpp b/projectq/backends/_sim/_cppkernels/simulator.hpp
index 4b6eb39..20db211 100755
--- a/projectq/backends/_sim/_cppkernels/simulator.hpp
+++ b/projectq/backends/_sim/_cppkernels/simulator.hpp
@@ -153,11 +153,16 @@ public:
         calc_type rnd = rng_();
 
         // pick entry at random with probability |entry|^2
+        // (never one whose probability is zero)
         std::size_t pick = 0;
-        while (P < rnd && pick < vec_.size())
-            P += std::norm(vec_[pick++]);
+        for (std::size_t i = 0; i < vec_.size() && P <= rnd; ++i){
+            auto const p = std::norm(vec_[i]);
+            if (p > 0.){
+                P += p;
+                pick = i;
+            }
+        }
 
-        pick--;
         // determine result vector (boolean values for each qubit)
         // and create mask to detect bad entries (i.e., entries that don't agree with measurement)
         res = std::vector<bool>(ids.size());
diff --git a/projectq/backends/_sim/_pysim.py b/projectq/backends/_sim/_pysim.py
index 87d0b2b..26d1d12 100755
--- a/projectq/backends/_sim/_pysim.py
+++ b/projectq/backends/_sim/_pysim.py
@@ -76,11 +76,13 @@ class Simulator:
         random_outcome = random.random()
         val = 0.0
         i_picked = 0
-        while val < random_outcome and i_picked < len(self._state):
-            val += _np.abs(self._state[i_picked]) ** 2
-            i_picked += 1
-
-        i_picked -= 1
+        for i, _state in enumerate(self._state):
+            if val > random_outcome:
+                break
+            prob = _np.abs(_state) ** 2
+            if prob > 0.0:  # never pick an entry whose probability is zero
+                val += prob
+                i_picked = i
 
         pos = [self._map[ID] for ID in ids]
         res = [False] * len(pos)
diff --git a/projectq/backends/_unitary.py b/projectq/backends/_unitary.py
index a8941b1..f97ee5c 100644
--- a/projectq/backends/_unitary.py
+++ b/projectq/backends/_unitary.py
@@ -258,11 +258,13 @@ class UnitarySimulator(BasicEngine):
         random_outcome = random.random()
         val = 0.0
         i_picked = 0
-        while val < random_outcome and i_picked < len(self._state):
-            val += np.abs(self._state[i_picked]) ** 2
-            i_picked += 1
-
-        i_picked -= 1
+        for i, _state in enumerate(self._state):
+            if val > random_outcome:
+                break
+            prob = np.abs(_state) ** 2
+            if prob > 0.0:  # never pick an entry whose probability is zero
+                val += prob
+                i_picked = i
 
         pos = [self._qubit_map[ID] for ID in ids]
         res = [False] * len(pos)
-- 
2.43.0


From 51ed1406ec598f835e2602a9639c06170eee8edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:32 +0000
Subject: [PATCH 27/75] fix: set_wavefunction refuses wavefunctions of the
 wrong length

---
 projectq/backends/_sim/_cppkernels/simulator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_sim/_cppkernels/simulator.hpp b/projectq/backends/_sim/_cppkernels/simulator.hpp
index 20db211..168b4ea 100755
--- a/projectq/backends/_sim/_cppkernels/simulator.hpp
+++ b/projectq/backends/_sim/_cppkernels/simulator.hpp
@@ -445,7 +445,8 @@ public:
     void set_wavefunction(StateVector const& wavefunction, std::vector<unsigned> const& ordering){
         run();
         // make sure there are 2^n amplitudes for n qubits
-        assert(wavefunction.size() == (1UL << ordering.size()));
+        if (wavefunction.size() != (1UL << ordering.size()))
+            throw(std::length_error("set_wavefunction(): The wavefunction must contain 2^n elements!"));
         // check that all qubits have been allocated previously
         if (map_.size() != ordering.size() || !check_ids(ordering))
             throw(std::runtime_error("set_wavefunction(): Invalid mapping provided. Please make sure all qubits have been allocated previously (call eng.flush())."));
-- 
2.43.0


From 594b310d0d81578df695054cdbe155a85e8a61c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:53 +0000
Subject: [PATCH 28/75] fix: Python simulator evolves under Hamiltonians that
 only contain the identity

---
 projectq/backends/_sim/_pysim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/backends/_sim/_pysim.py b/projectq/backends/_sim/_pysim.py
index 26d1d12..de63f2d 100755
--- a/projectq/backends/_sim/_pysim.py
+++ b/projectq/backends/_sim/_pysim.py
@@ -346,7 +346,7 @@ class Simulator:
             while nrm_change > 1.0e-12:
                 coeff = (-time * 1j) / float(scale * (j + 1))
                 current_state = _np.copy(self._state)
-                update = 0j
+                update = _np.zeros_like(self._state)
                 for term, tcoeff in terms_dict:
                     self._apply_term(term, ids)
                     self._state *= tcoeff
-- 
2.43.0


From 59a1950f9b3a748504cfe43ad8a91ac0946dac7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:15 +0000
Subject: [PATCH 29/75] fix: the unitary simulator applies multi-qubit gates in
 the order of their targets

The rows of the gate matrix were always assigned to the qubits in the order of their positions.
---
 projectq/backends/_unitary.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_unitary.py b/projectq/backends/_unitary.py
index f97ee5c..1149547 100644
--- a/projectq/backends/_unitary.py
+++ b/projectq/backends/_unitary.py
@@ -235,12 +235,15 @@ class UnitarySimulator(BasicEngine):
                 self._is_valid = True
 
             self._is_flushed = False
+            target_pos = [self._qubit_map[qb.id] for qr in cmd.qubits for qb in qr]
             mask_list = _qidmask(
-                [self._qubit_map[qb.id] for qr in cmd.qubits for qb in qr],
+                target_pos,
                 [self._qubit_map[qb.id] for qb in cmd.control_qubits],
                 self._num_qubits,
             )
             for mask in mask_list:
+                # The first target qubit is the least significant bit of the gate matrix' indices
+                mask = sorted(mask, key=lambda idx: [(idx >> pos) & 1 for pos in reversed(target_pos)])
                 cache = np.identity(2**self._num_qubits, dtype=complex)
                 cache[np.ix_(mask, mask)] = cmd.gate.matrix
                 self._unitary = cache @ self._unitary
-- 
2.43.0


From 990cda062dbcbb74679952269b8c571d56ea69b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:44 +0000
Subject: [PATCH 30/75] fix: the unitary simulator keeps its state across
 flushes, measurements and releases

Every flush applied the whole unitary to the already evolved state again, starting a new unitary put all
qubits back to zero, releasing a qubit left the state untouched (so later measurements read other qubits), and allocating
after a flush or release failed or enlarged the finished unitary.
---
 projectq/backends/_unitary.py | 49 +++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/projectq/backends/_unitary.py b/projectq/backends/_unitary.py
index 1149547..1fcc7d8 100644
--- a/projectq/backends/_unitary.py
+++ b/projectq/backends/_unitary.py
@@ -96,7 +96,8 @@ class UnitarySimulator(BasicEngine):
         self._num_qubits = 0
         self._is_valid = True
         self._is_flushed = False
-        self._state = [1]
+        self._state = np.array([1], dtype=complex)
+        self._initial_state = self._state  # State that the current unitary acts on
         self._history = []
 
     @property
@@ -173,7 +174,22 @@ class UnitarySimulator(BasicEngine):
         """Flush the simulator state."""
         if not self._is_flushed:
             self._is_flushed = True
-            self._state = self._unitary @ self._state
+            self._state = self._unitary @ self._initial_state
+
+    def _reset_unitary(self):
+        """Start a new unitary (acting on the current state) if a qubit was measured or deallocated before."""
+        if self._is_valid:
+            return
+
+        warnings.warn(
+            "Processing of other gates after a qubit deallocation or measurement will reset the unitary,"
+            "previous unitary can be accessed in history"
+        )
+        self._flush()
+        self._history.append(self._unitary)
+        self._unitary = np.identity(2**self._num_qubits, dtype=complex)
+        self._initial_state = self._state
+        self._is_valid = True
 
     def _handle(self, cmd):
         """
@@ -186,20 +202,25 @@ class UnitarySimulator(BasicEngine):
             RuntimeError: If a measurement is performed before flush gate.
         """
         if isinstance(cmd.gate, AllocateQubitGate):
+            self._reset_unitary()
             self._qubit_map[cmd.qubits[0][0].id] = self._num_qubits
             self._num_qubits += 1
             self._unitary = np.kron(np.identity(2), self._unitary)
-            self._state.extend([0] * len(self._state))
+            self._state = np.kron([1, 0], self._state)
+            self._initial_state = np.kron([1, 0], self._initial_state)
 
         elif isinstance(cmd.gate, DeallocateQubitGate):
-            pos = self._qubit_map[cmd.qubits[0][0].id]
+            self._flush()
+            self._is_valid = False
+            # The qubit is no longer accessible: measure it and keep the state of the other qubits
+            qubit_id = cmd.qubits[0][0].id
+            (outcome,) = self.measure_qubits([qubit_id])
+            pos = self._qubit_map.pop(qubit_id)
+            self._state = self._state.reshape(-1, 2, 2**pos)[:, int(outcome), :].reshape(-1)
             self._qubit_map = {key: value - 1 if value > pos else value for key, value in self._qubit_map.items()}
             self._num_qubits -= 1
-            self._is_valid = False
 
         elif isinstance(cmd.gate, MeasureGate):
-            self._is_valid = False
-
             if not self._is_flushed:
                 raise RuntimeError(
                     'Please make sure all previous gates are flushed before measurement so the state gets updated'
@@ -208,6 +229,7 @@ class UnitarySimulator(BasicEngine):
             if get_control_count(cmd) != 0:
                 raise ValueError('Cannot have control qubits with a measurement gate!')
 
+            self._is_valid = False
             all_qubits = [qb for qr in cmd.qubits for qb in qr]
             measurements = self.measure_qubits([qb.id for qb in all_qubits])
 
@@ -222,18 +244,7 @@ class UnitarySimulator(BasicEngine):
         elif isinstance(cmd.gate, FlushGate):
             self._flush()
         else:
-            if not self._is_valid:
-                self._flush()
-
-                warnings.warn(
-                    "Processing of other gates after a qubit deallocation or measurement will reset the unitary,"
-                    "previous unitary can be accessed in history"
-                )
-                self._history.append(self._unitary)
-                self._unitary = np.identity(2**self._num_qubits, dtype=complex)
-                self._state = np.array([1] + ([0] * (2**self._num_qubits - 1)), dtype=complex)
-                self._is_valid = True
-
+            self._reset_unitary()
             self._is_flushed = False
             target_pos = [self._qubit_map[qb.id] for qr in cmd.qubits for qb in qr]
             mask_list = _qidmask(
-- 
2.43.0


From 2ec64ba17bba86c63bb15d8d6889d7fbe6d4d4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:40 +0000
Subject: [PATCH 31/75] fix: refuse malformed qubit operator terms

Tuples such as
(0, 'XY') or (0, '') passed the test for valid actions.
---
 projectq/ops/_qubit_operator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/ops/_qubit_operator.py b/projectq/ops/_qubit_operator.py
index 4396775..e3b76ed 100644
--- a/projectq/ops/_qubit_operator.py
+++ b/projectq/ops/_qubit_operator.py
@@ -145,7 +145,7 @@ class QubitOperator(BasicGate):
                     if not isinstance(local_operator, tuple) or len(local_operator) != 2:
                         raise ValueError("term specified incorrectly.")
                     qubit_num, action = local_operator
-                    if not isinstance(action, str) or action not in 'XYZ':
+                    if not isinstance(action, str) or action not in ('X', 'Y', 'Z'):
                         raise ValueError("Invalid action provided: must be string 'X', 'Y', or 'Z'.")
                     if not (isinstance(qubit_num, int) and qubit_num >= 0):
                         raise QubitOperatorError(
@@ -164,7 +164,7 @@ class QubitOperator(BasicGate):
             # Test that list_ops has correct format of tuples
             for local_operator in list_ops:
                 qubit_num, action = local_operator
-                if not isinstance(action, str) or action not in 'XYZ':
+                if not isinstance(action, str) or action not in ('X', 'Y', 'Z'):
                     raise ValueError("Invalid action provided: must be string 'X', 'Y', or 'Z'.")
                 if not (isinstance(qubit_num, int) and qubit_num >= 0):
                     raise QubitOperatorError("Invalid qubit number provided to QubitTerm: must be a non-negative int.")
-- 
2.43.0


From 9e164616ba868c19b18846eff31468a191a3f9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:57 +0000
Subject: [PATCH 32/75] fix: qubit operators can be added to or subtracted from
 themselves in place

The terms were changed while iterating over them.
---
 projectq/ops/_qubit_operator.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/projectq/ops/_qubit_operator.py b/projectq/ops/_qubit_operator.py
index e3b76ed..ad93eb3 100644
--- a/projectq/ops/_qubit_operator.py
+++ b/projectq/ops/_qubit_operator.py
@@ -502,14 +502,15 @@ class QubitOperator(BasicGate):
             TypeError: Cannot add invalid type.
         """
         if isinstance(addend, QubitOperator):
-            for term in addend.terms:
+            # NB: addend can be self
+            for term, coefficient in list(addend.terms.items()):
                 if term in self.terms:
-                    if abs(addend.terms[term] + self.terms[term]) > 0.0:
-                        self.terms[term] += addend.terms[term]
+                    if abs(coefficient + self.terms[term]) > 0.0:
+                        self.terms[term] += coefficient
                     else:
                         self.terms.pop(term)
                 else:
-                    self.terms[term] = addend.terms[term]
+                    self.terms[term] = coefficient
         else:
             raise TypeError('Cannot add invalid type to QubitOperator.')
         return self
@@ -531,14 +532,15 @@ class QubitOperator(BasicGate):
             TypeError: Cannot subtract invalid type from QubitOperator.
         """
         if isinstance(subtrahend, QubitOperator):
-            for term in subtrahend.terms:
+            # NB: subtrahend can be self
+            for term, coefficient in list(subtrahend.terms.items()):
                 if term in self.terms:
-                    if abs(self.terms[term] - subtrahend.terms[term]) > 0.0:
-                        self.terms[term] -= subtrahend.terms[term]
+                    if abs(self.terms[term] - coefficient) > 0.0:
+                        self.terms[term] -= coefficient
                     else:
                         self.terms.pop(term)
                 else:
-                    self.terms[term] = -subtrahend.terms[term]
+                    self.terms[term] = -coefficient
         else:
             raise TypeError('Cannot subtract invalid type from QubitOperator.')
         return self
-- 
2.43.0


From cbd52c405ed476fe0de9eca6a4de93e8cf14457d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:15 +0000
Subject: [PATCH 33/75] fix: equal QubitOperators have equal hashes

The hash depended on the order of the terms and on the type of the coefficients.
---
 projectq/ops/_qubit_operator.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/projectq/ops/_qubit_operator.py b/projectq/ops/_qubit_operator.py
index ad93eb3..3d95980 100644
--- a/projectq/ops/_qubit_operator.py
+++ b/projectq/ops/_qubit_operator.py
@@ -591,5 +591,9 @@ class QubitOperator(BasicGate):
         return False
 
     def __hash__(self):
-        """Compute the hash of the object."""
-        return hash(str(self))
+        """Compute the hash of the object (independent of the order of the terms and the type of the coefficients)."""
+        operator = QubitOperator()
+        for term in sorted(self.terms):
+            coefficient = self.terms[term] + 0j
+            operator.terms[term] = coefficient if coefficient.imag else coefficient.real
+        return hash(str(operator))
-- 
2.43.0


From df5ab4f506d935b75568b0e11cbea983799ec512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:32 +0000
Subject: [PATCH 34/75] fix: merging time evolutions whose hamiltonians have
 terms with coefficient zero

This failed with a division by zero (or, for hamiltonians without terms, a TypeError).
---
 projectq/ops/_time_evolution.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/projectq/ops/_time_evolution.py b/projectq/ops/_time_evolution.py
index c28de10..8cc52ff 100644
--- a/projectq/ops/_time_evolution.py
+++ b/projectq/ops/_time_evolution.py
@@ -112,13 +112,20 @@ class TimeEvolution(BasicGate):
         rel_tol = 1e-9
         if isinstance(other, TimeEvolution) and set(self.hamiltonian.terms) == set(other.hamiltonian.terms):
             factor = None
-            for term in self.hamiltonian.terms:
+            for term, coefficient in self.hamiltonian.terms.items():
+                other_coefficient = float(other.hamiltonian.terms[term])
+                if coefficient == 0 and other_coefficient == 0:
+                    continue
+                if coefficient == 0 or other_coefficient == 0:
+                    raise NotMergeable("Cannot merge these two gates.")
+                tmp = coefficient / other_coefficient
                 if factor is None:
-                    factor = self.hamiltonian.terms[term] / float(other.hamiltonian.terms[term])
-                else:
-                    tmp = self.hamiltonian.terms[term] / float(other.hamiltonian.terms[term])
-                    if not abs(factor - tmp) <= (rel_tol * max(abs(factor), abs(tmp))):
-                        raise NotMergeable("Cannot merge these two gates.")
+                    factor = tmp
+                elif not abs(factor - tmp) <= (rel_tol * max(abs(factor), abs(tmp))):
+                    raise NotMergeable("Cannot merge these two gates.")
+            if factor is None:
+                # Both hamiltonians are zero
+                return TimeEvolution(time=self.time, hamiltonian=self.hamiltonian)
             # Terms are proportional to each other
             new_time = self.time + other.time / factor
             return TimeEvolution(time=new_time, hamiltonian=self.hamiltonian)
-- 
2.43.0


From 10f99c0b660010400a1b2c27ec6051c009fd0c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:48 +0000
Subject: [PATCH 35/75] fix: time evolution gates can be compared and hashed

They were not hashable (so that, e.g., the ResourceCounter failed) and two equal gates did not compare equal.
---
 projectq/ops/_time_evolution.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/projectq/ops/_time_evolution.py b/projectq/ops/_time_evolution.py
index 8cc52ff..dee3834 100644
--- a/projectq/ops/_time_evolution.py
+++ b/projectq/ops/_time_evolution.py
@@ -203,9 +203,15 @@ class TimeEvolution(BasicGate):
         apply_command(cmd)
 
     def __eq__(self, other):
-        """Not implemented as this object is a floating point type."""
+        """Return True if equal (i.e. same time and same hamiltonian)."""
+        if isinstance(other, self.__class__):
+            return self.time == other.time and self.hamiltonian == other.hamiltonian
         return NotImplemented
 
+    def __hash__(self):
+        """Compute the hash of the object."""
+        return hash((self.time, self.hamiltonian))
+
     def __str__(self):
         """Return a string representation of the object."""
         return f"exp({-1j * self.time} * ({self.hamiltonian}))"
-- 
2.43.0


From 1321f5202a5747940953737b7b856924acd47fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:42 +0000
Subject: [PATCH 36/75] fix: time evolution under the zero operator does
 nothing

It failed while looking for the largest qubit index.
---
 projectq/ops/_time_evolution.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/projectq/ops/_time_evolution.py b/projectq/ops/_time_evolution.py
index dee3834..e1119d3 100644
--- a/projectq/ops/_time_evolution.py
+++ b/projectq/ops/_time_evolution.py
@@ -173,6 +173,9 @@ class TimeEvolution(BasicGate):
         qubits = self.make_tuple_of_qureg(qubits)
         if len(qubits) != 1:
             raise TypeError("Only one qubit or qureg allowed.")
+        if not self.hamiltonian.terms:
+            # The hamiltonian is zero: nothing happens
+            return
         # Check that if hamiltonian has only an identity term,
         # apply a global phase:
         if len(self.hamiltonian.terms) == 1 and () in self.hamiltonian.terms:
-- 
2.43.0


From fe18a08044eac831c6f99b18a3177a0d73cb50d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:40 +0000
Subject: [PATCH 37/75] fix: math gates with different functions are not equal

Two BasicMathGate objects always compared equal, so e.g. one could be cancelled against the inverse of another.
---
 projectq/ops/_basics.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/projectq/ops/_basics.py b/projectq/ops/_basics.py
index 8546965..bc73877 100755
--- a/projectq/ops/_basics.py
+++ b/projectq/ops/_basics.py
@@ -597,12 +597,22 @@ class BasicMathGate(BasicGate):
 
         """
         super().__init__()
+        self._original_math_fun = math_fun
 
         def math_function(arg):
             return list(math_fun(*arg))
 
         self._math_function = math_function
 
+    def __eq__(self, other):
+        """Return True if equal (i.e. both gates implement the same function object)."""
+        # pylint: disable=protected-access
+        return isinstance(other, self.__class__) and self._original_math_fun == other._original_math_fun
+
+    def __hash__(self):
+        """Compute the hash of the object."""
+        return hash(str(self))
+
     def __str__(self):
         """Return a string representation of the object."""
         return "MATH"
-- 
2.43.0


From 5af3150088c60d28dec9592daafb5284c9d11b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:59 +0000
Subject: [PATCH 38/75] fix: do not merge uniformly controlled rotations with
 different numbers of angles

The surplus angles were dropped.
---
 projectq/ops/_uniformly_controlled_rotation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/ops/_uniformly_controlled_rotation.py b/projectq/ops/_uniformly_controlled_rotation.py
index 46cf023..eb4b6f6 100644
--- a/projectq/ops/_uniformly_controlled_rotation.py
+++ b/projectq/ops/_uniformly_controlled_rotation.py
@@ -61,7 +61,7 @@ class UniformlyControlledRy(BasicGate):
 
     def get_merged(self, other):
         """Return self merged with another gate."""
-        if isinstance(other, self.__class__):
+        if isinstance(other, self.__class__) and len(self.angles) == len(other.angles):
             new_angles = [angle1 + angle2 for (angle1, angle2) in zip(self.angles, other.angles)]
             return self.__class__(new_angles)
         raise NotMergeable()
@@ -123,7 +123,7 @@ class UniformlyControlledRz(BasicGate):
 
     def get_merged(self, other):
         """Return self merged with another gate."""
-        if isinstance(other, self.__class__):
+        if isinstance(other, self.__class__) and len(self.angles) == len(other.angles):
             new_angles = [angle1 + angle2 for (angle1, angle2) in zip(self.angles, other.angles)]
             return self.__class__(new_angles)
         raise NotMergeable()
-- 
2.43.0


From 653479125489ab211dbbdbcd0a0baa8361ffeef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:16 +0000
Subject: [PATCH 39/75] fix: controlled gates and tensors of gates are hashable

---
 projectq/ops/_metagates.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/projectq/ops/_metagates.py b/projectq/ops/_metagates.py
index 0c1f89f..f095a7a 100644
--- a/projectq/ops/_metagates.py
+++ b/projectq/ops/_metagates.py
@@ -222,6 +222,10 @@ class ControlledGate(BasicGate):
         """Compare two ControlledGate objects (return True if equal)."""
         return isinstance(other, self.__class__) and self._gate == other._gate and self._n == other._n
 
+    def __hash__(self):
+        """Compute the hash of the object."""
+        return hash((self.__class__, self._gate, self._n))
+
 
 def C(gate, n_qubits=1):
     """
@@ -269,6 +273,10 @@ class Tensor(BasicGate):
         """Equal operator."""
         return isinstance(other, Tensor) and self._gate == other._gate
 
+    def __hash__(self):
+        """Compute the hash of the object."""
+        return hash((Tensor, self._gate))
+
     def __or__(self, qubits):
         """Operator| overload which enables the syntax Gate | qubits."""
         if isinstance(qubits, tuple):
-- 
2.43.0


From 86839ca85c75fa3f9c822019b85a74ba122c318c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:02 +0000
Subject: [PATCH 40/75] fix: the bounded mapper does not hand out locations
 that are still in use after a flush

---
 projectq/backends/_ionq/_ionq_mapper.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projectq/backends/_ionq/_ionq_mapper.py b/projectq/backends/_ionq/_ionq_mapper.py
index e77b92c..e168843 100644
--- a/projectq/backends/_ionq/_ionq_mapper.py
+++ b/projectq/backends/_ionq/_ionq_mapper.py
@@ -43,6 +43,10 @@ class BoundedQubitMapper(BasicMapperEngine):
             if qubit_id in current_mapping:
                 raise RuntimeError(f"Qubit with id {qubit_id} has already been allocated!")
 
+            # Qubits that survived a flush keep their locations
+            used_locations = set(current_mapping.values())
+            while self._qubit_idx in used_locations:
+                self._qubit_idx += 1
             if self._qubit_idx >= self.max_qubits:
                 raise RuntimeError(f"Cannot allocate more than {self.max_qubits} qubits!")
 
-- 
2.43.0


From 1c7d5e8b523fadff6d927122ebd3a8a7f073f3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:07 +0000
Subject: [PATCH 41/75] fix: the LaTeX drawer defines the styles and nodes that
 its pictures use

---
 projectq/backends/_circuits/_to_latex.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/projectq/backends/_circuits/_to_latex.py b/projectq/backends/_circuits/_to_latex.py
index c2f870b..49904d3 100755
--- a/projectq/backends/_circuits/_to_latex.py
+++ b/projectq/backends/_circuits/_to_latex.py
@@ -181,18 +181,18 @@ def _header(settings):
     gate_style += "]\n"
 
     gate_style += (
-        "\\tikzstyle{{operator}}=[basic,minimum size=1.5em]\n"
+        "\\tikzstyle{operator}=[basic,minimum size=1.5em]\n"
         f"\\tikzstyle{{phase}}=[fill=black,shape=circle,minimum size={settings['control']['size']}cm,"
         "inner sep=0pt,outer sep=0pt,draw=black"
     )
     if settings['control']['shadow']:
         gate_style += ",basicshadow"
     gate_style += (
-        "]\n\\tikzstyle{{none}}=[inner sep=0pt,outer sep=-.5pt,minimum height=0.5cm+1pt]\n"
-        "\\tikzstyle{{measure}}=[operator,inner sep=0pt,"
+        "]\n\\tikzstyle{none}=[inner sep=0pt,outer sep=-.5pt,minimum height=0.5cm+1pt]\n"
+        "\\tikzstyle{measure}=[operator,inner sep=0pt,"
         f"minimum height={settings['gates']['MeasureGate']['height']}cm,"
         f"minimum width={settings['gates']['MeasureGate']['width']}cm]\n"
-        "\\tikzstyle{{xstyle}}=[circle,basic,minimum height="
+        "\\tikzstyle{xstyle}=[circle,basic,minimum height="
     )
     x_gate_radius = min(settings['gates']['XGate']['height'], settings['gates']['XGate']['width'])
     gate_style += f"{x_gate_radius}cm,minimum width={x_gate_radius}cm,inner sep=-1pt,{settings['lines']['style']}]\n"
@@ -450,7 +450,7 @@ class _Circ2Tikz:  # pylint: disable=too-few-public-methods
         # pylint: disable=consider-using-f-string
         op_mid = f"line{'{}-{}'.format(*lines)}_gate{self.op_count[lines[0]]}"
         dagger = '^{{\\dagger}}' if daggered else ''
-        gate_str += f"\n\\node[xstyle] ({op}) at ({pos},-{midpoint}){{\\scriptsize $\\frac{{1}}{{2}}{dagger}$}};"
+        gate_str += f"\n\\node[xstyle] ({op_mid}) at ({pos},-{midpoint}){{\\scriptsize $\\frac{{1}}{{2}}{dagger}$}};"
 
         # add two vertical lines to connect circled 1/2
         gate_str += f"\n\\draw ({self._op(lines[0])}) edge[edgestyle] ({op_mid});"
@@ -756,7 +756,7 @@ class _Circ2Tikz:  # pylint: disable=too-few-public-methods
         for line in lines:
             node1 = node_str.format(self._op(line), pos, line)
             node2 = (
-                "\n\\node[none,minimum height={gate_height}cm,outer sep=0] ({self._op(line, offset=1)}) "
+                f"\n\\node[none,minimum height={gate_height}cm,outer sep=0] ({self._op(line, offset=1)}) "
                 f"at ({pos + gate_width / 2.0},-{line}) {{}};"
             )
             node3 = node_str.format(self._op(line, offset=2), pos + gate_width, line)
-- 
2.43.0


From 4a74327369734085669c371dd9b1b247251ae350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:32 +0000
Subject: [PATCH 42/75] fix: ordered LaTeX drawings follow the qubit locations

---
 projectq/backends/_circuits/_drawer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/backends/_circuits/_drawer.py b/projectq/backends/_circuits/_drawer.py
index 071ad2c..75ab7da 100755
--- a/projectq/backends/_circuits/_drawer.py
+++ b/projectq/backends/_circuits/_drawer.py
@@ -278,7 +278,7 @@ class CircuitDrawer(BasicEngine):
 
         drawing_order = None
         if ordered:
-            drawing_order = self._drawing_order
+            drawing_order = [self._map[qubit_id] for qubit_id in self._drawing_order]
 
         return to_latex(
             qubit_lines,
-- 
2.43.0


From 039482efd868e481c09e3bab0cdabbab95dbc296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:41 +0000
Subject: [PATCH 43/75] fix: LaTeX drawings of circuits whose qubit ids are not
 contiguous

---
 projectq/backends/_circuits/_to_latex.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_circuits/_to_latex.py b/projectq/backends/_circuits/_to_latex.py
index 49904d3..2db7c20 100755
--- a/projectq/backends/_circuits/_to_latex.py
+++ b/projectq/backends/_circuits/_to_latex.py
@@ -225,11 +225,13 @@ def _body(circuit, settings, drawing_order=None, draw_gates_in_parallel=True):
     """
     code = []
 
-    conv = _Circ2Tikz(settings, len(circuit))
+    # the qubit lines may be numbered with gaps
+    lines = sorted(circuit) if isinstance(circuit, dict) else list(range(len(circuit)))
+    conv = _Circ2Tikz(settings, max(lines, default=-1) + 1)
 
     to_where = None
     if drawing_order is None:
-        drawing_order = list(range(len(circuit)))
+        drawing_order = lines
     else:
         to_where = 1
 
-- 
2.43.0


From 2fde916d46428ee9e53fefdf97b008d70e01429c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:57 +0000
Subject: [PATCH 44/75] fix: the drawers keep the gates of a location that is
 allocated again

---
 projectq/backends/_circuits/_drawer.py            | 3 ++-
 projectq/backends/_circuits/_drawer_matplotlib.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_circuits/_drawer.py b/projectq/backends/_circuits/_drawer.py
index 75ab7da..967fd43 100755
--- a/projectq/backends/_circuits/_drawer.py
+++ b/projectq/backends/_circuits/_drawer.py
@@ -212,7 +212,8 @@ class CircuitDrawer(BasicEngine):
             qubit_id = cmd.qubits[0][0].id
             if qubit_id not in self._map:
                 self._map[qubit_id] = qubit_id
-            self._qubit_lines[qubit_id] = []
+            # behind a mapper, the same location is allocated again and again
+            self._qubit_lines.setdefault(qubit_id, [])
 
         if cmd.gate == Deallocate:
             qubit_id = cmd.qubits[0][0].id
diff --git a/projectq/backends/_circuits/_drawer_matplotlib.py b/projectq/backends/_circuits/_drawer_matplotlib.py
index 7c6b585..824a3a6 100644
--- a/projectq/backends/_circuits/_drawer_matplotlib.py
+++ b/projectq/backends/_circuits/_drawer_matplotlib.py
@@ -104,7 +104,8 @@ class CircuitDrawerMatplotlib(BasicEngine):
             qb_id = cmd.qubits[0][0].id
             if qb_id not in self._map:
                 self._map[qb_id] = qb_id
-            self._qubit_lines[qb_id] = []
+            # behind a mapper, the same location is allocated again and again
+            self._qubit_lines.setdefault(qb_id, [])
             return
 
         if cmd.gate == Deallocate:
-- 
2.43.0


From 200705a1aa220171a9fb0eceadaed5d2c7831a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:20 +0000
Subject: [PATCH 45/75] fix: the drawers record measurement results for the
 logical qubits

---
 projectq/backends/_circuits/_drawer.py            | 10 +++++++++-
 projectq/backends/_circuits/_drawer_matplotlib.py | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_circuits/_drawer.py b/projectq/backends/_circuits/_drawer.py
index 967fd43..db02330 100755
--- a/projectq/backends/_circuits/_drawer.py
+++ b/projectq/backends/_circuits/_drawer.py
@@ -16,8 +16,9 @@
 
 
 from projectq.cengines import BasicEngine, LastEngineException
-from projectq.meta import get_control_count
+from projectq.meta import LogicalQubitIDTag, get_control_count
 from projectq.ops import Allocate, Deallocate, FlushGate, Measure
+from projectq.types import WeakQubitRef
 
 from ._to_latex import to_latex
 
@@ -233,6 +234,13 @@ class CircuitDrawer(BasicEngine):
                     else:
                         meas = self._default_measure
                     meas = int(meas)
+                    # Check there was a mapper and redirect result
+                    logical_id_tag = None
+                    for tag in cmd.tags:
+                        if isinstance(tag, LogicalQubitIDTag):
+                            logical_id_tag = tag
+                    if logical_id_tag is not None:
+                        qubit = WeakQubitRef(qubit.engine, logical_id_tag.logical_qubit_id)
                     self.main_engine.set_measurement_result(qubit, meas)
 
         all_lines = [qb.id for qr in cmd.all_qubits for qb in qr]
diff --git a/projectq/backends/_circuits/_drawer_matplotlib.py b/projectq/backends/_circuits/_drawer_matplotlib.py
index 824a3a6..633d622 100644
--- a/projectq/backends/_circuits/_drawer_matplotlib.py
+++ b/projectq/backends/_circuits/_drawer_matplotlib.py
@@ -18,8 +18,9 @@ import itertools
 import re
 
 from projectq.cengines import BasicEngine, LastEngineException
-from projectq.meta import get_control_count
+from projectq.meta import LogicalQubitIDTag, get_control_count
 from projectq.ops import Allocate, Deallocate, FlushGate, Measure
+from projectq.types import WeakQubitRef
 
 from ._plot import to_draw
 
@@ -123,6 +124,13 @@ class CircuitDrawerMatplotlib(BasicEngine):
                             measurement = input(prompt)
                     else:
                         measurement = self._default_measure
+                    # Check there was a mapper and redirect result
+                    logical_id_tag = None
+                    for tag in cmd.tags:
+                        if isinstance(tag, LogicalQubitIDTag):
+                            logical_id_tag = tag
+                    if logical_id_tag is not None:
+                        qubit = WeakQubitRef(qubit.engine, logical_id_tag.logical_qubit_id)
                     self.main_engine.set_measurement_result(qubit, int(measurement))
 
         targets = [qubit.id for qureg in cmd.qubits for qubit in qureg]
-- 
2.43.0


From 6d67e3272e3afa0c37eca5a04a1004b59c4b0d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:37 +0000
Subject: [PATCH 46/75] fix: default order of the wires for qubit ids that are
 not contiguous

---
 projectq/backends/_circuits/_plot.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/projectq/backends/_circuits/_plot.py b/projectq/backends/_circuits/_plot.py
index b450309..7c5e12f 100644
--- a/projectq/backends/_circuits/_plot.py
+++ b/projectq/backends/_circuits/_plot.py
@@ -104,8 +104,7 @@ def to_draw(qubit_lines, qubit_labels=None, drawing_order=None, **kwargs):
             raise RuntimeError('Qubit IDs in qubit_labels do not match qubit IDs in qubit_lines!')
 
     if drawing_order is None:
-        n_qubits = len(qubit_lines)
-        drawing_order = {qubit_id: n_qubits - qubit_id - 1 for qubit_id in list(qubit_lines)}
+        drawing_order = {qubit_id: idx for idx, qubit_id in enumerate(sorted(qubit_lines, reverse=True))}
     else:
         if set(drawing_order) != set(qubit_lines):
             raise RuntimeError("Qubit IDs in drawing_order do not match qubit IDs in qubit_lines!")
-- 
2.43.0


From b46de41cc8253190648fe964a94ee77833baed80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:12 +0000
Subject: [PATCH 47/75] fix: the matplotlib drawer does not draw gates on top
 of each other

---
 projectq/backends/_circuits/_plot.py | 40 ++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/projectq/backends/_circuits/_plot.py b/projectq/backends/_circuits/_plot.py
index 7c5e12f..e606905 100644
--- a/projectq/backends/_circuits/_plot.py
+++ b/projectq/backends/_circuits/_plot.py
@@ -21,6 +21,7 @@ qubits. It also supports multi-target qubit gates under some restrictions. Namel
 neighbours in the output figure (which cannot be determined durinng compilation at this time).
 """
 
+import itertools
 from copy import deepcopy
 
 import matplotlib.pyplot as plt
@@ -111,6 +112,8 @@ def to_draw(qubit_lines, qubit_labels=None, drawing_order=None, **kwargs):
         if set(drawing_order.values()) != set(range(len(drawing_order))):
             raise RuntimeError(f'Indices of qubit wires in drawing_order must be between 0 and {len(drawing_order)}!')
 
+    qubit_lines = separate_overlapping_gates(qubit_lines, drawing_order)
+
     plot_params = deepcopy(_DEFAULT_PLOT_PARAMS)
     plot_params.update(kwargs)
 
@@ -150,6 +153,43 @@ def to_draw(qubit_lines, qubit_labels=None, drawing_order=None, **kwargs):
 # Functions used to calculate the layout
 
 
+def separate_overlapping_gates(qubit_lines, drawing_order):
+    """
+    Insert columns such that no gate is drawn on a wire that another gate of the same column passes over.
+
+    Args:
+        qubit_lines (dict): list of gates for each qubit axis
+        drawing_order (dict): index of the wire for each qubit ID to be drawn
+
+    Returns:
+        A dictionary with the list of gates for each qubit axis
+    """
+    depth = max((len(line) for line in qubit_lines.values()), default=0)
+    new_lines = {qubit_id: [] for qubit_id in qubit_lines}
+
+    for idx in range(depth):
+        columns = []  # each one with the wires in use and the gates
+        for qubit_id, line in qubit_lines.items():
+            if idx >= len(line) or line[idx] is None:
+                continue
+            _, targets, controls = line[idx]
+            order = [drawing_order[qb_id] for qb_id in itertools.chain(targets, controls)]
+            wires = set(range(min(order), max(order) + 1))
+            for used, gates in columns:
+                if not used & wires:
+                    used |= wires
+                    gates[qubit_id] = line[idx]
+                    break
+            else:
+                columns.append((wires, {qubit_id: line[idx]}))
+
+        for _, gates in columns or [(set(), {})]:
+            for qubit_id, new_line in new_lines.items():
+                new_line.append(gates.get(qubit_id))
+
+    return new_lines
+
+
 def gate_width(axes, gate_str, plot_params):
     """
     Calculate the width of a gate based on its string representation.
-- 
2.43.0


From 676d35b6e0cd3444bcf747dfb7b7f2700cf494a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:44 +0000
Subject: [PATCH 48/75] fix: matplotlib drawings of operators that are a sum of
 terms

---
 projectq/backends/_circuits/_drawer_matplotlib.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_circuits/_drawer_matplotlib.py b/projectq/backends/_circuits/_drawer_matplotlib.py
index 633d622..24f5db9 100644
--- a/projectq/backends/_circuits/_drawer_matplotlib.py
+++ b/projectq/backends/_circuits/_drawer_matplotlib.py
@@ -31,7 +31,10 @@ def _format_gate_str(cmd):
     param_str = ''
     gate_name = str(cmd.gate)
     if '(' in gate_name:
-        (gate_name, param_str) = re.search(r'(.+)\((.*)\)', gate_name).groups()
+        match = re.search(r'(.+)\((.*)\)', gate_name, re.DOTALL)
+        if match is None:
+            return gate_name
+        (gate_name, param_str) = match.groups()
         params = re.findall(r'([^,]+)', param_str)
         params_str_list = []
         for param in params:
-- 
2.43.0


From 16f2de72b20cca929fa454384bfd003795274332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:09 +0000
Subject: [PATCH 49/75] fix: IBM and AQT backends submitted the last circuit
 again upon a flush without new commands

---
 projectq/backends/_aqt/_aqt.py | 2 +-
 projectq/backends/_ibm/_ibm.py | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_aqt/_aqt.py b/projectq/backends/_aqt/_aqt.py
index 9d5e5e2..c0fd2bd 100644
--- a/projectq/backends/_aqt/_aqt.py
+++ b/projectq/backends/_aqt/_aqt.py
@@ -233,7 +233,7 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         # NOTE AQT DOESN'T SEEM TO HAVE MEASUREMENT INSTRUCTIONS (no
         # intermediate measurements are allowed, so implicit at the end)
         # return if no operations.
-        if not self._circuit:
+        if self._clear or not self._circuit:
             return
 
         n_qubit = max(self._allocated_qubits) + 1
diff --git a/projectq/backends/_ibm/_ibm.py b/projectq/backends/_ibm/_ibm.py
index 2a11aa5..0df93a8 100755
--- a/projectq/backends/_ibm/_ibm.py
+++ b/projectq/backends/_ibm/_ibm.py
@@ -263,6 +263,9 @@ class IBMBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         Send the circuit via a non documented IBM API (using JSON written
         circuits) using the provided user data / ask for the user token.
         """
+        # return if nothing happened since the last run
+        if self._clear:
+            return
         # finally: add measurements (no intermediate measurements are allowed)
         for measured_id in self._measured_ids:
             qb_loc = self.main_engine.mapper.current_mapping[measured_id]
-- 
2.43.0


From c7b75a80157017f555a449070fa092bd75c970ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:24 +0000
Subject: [PATCH 50/75] fix: a failed run of the IBM, AQT and AWS Braket
 backends leaked its measurements into the next one

---
 projectq/backends/_aqt/_aqt.py             | 7 +++++--
 projectq/backends/_awsbraket/_awsbraket.py | 7 +++++--
 projectq/backends/_ibm/_ibm.py             | 7 +++++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/projectq/backends/_aqt/_aqt.py b/projectq/backends/_aqt/_aqt.py
index c0fd2bd..d24eab0 100644
--- a/projectq/backends/_aqt/_aqt.py
+++ b/projectq/backends/_aqt/_aqt.py
@@ -305,5 +305,8 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             if not isinstance(cmd.gate, FlushGate):
                 self._store(cmd)
             else:
-                self._run()
-                self._reset()
+                try:
+                    self._run()
+                finally:
+                    # also if it failed, the next run starts from scratch
+                    self._reset()
diff --git a/projectq/backends/_awsbraket/_awsbraket.py b/projectq/backends/_awsbraket/_awsbraket.py
index 78fe5bd..a24313a 100755
--- a/projectq/backends/_awsbraket/_awsbraket.py
+++ b/projectq/backends/_awsbraket/_awsbraket.py
@@ -453,7 +453,10 @@ class AWSBraketBackend(BasicEngine):  # pylint: disable=too-many-instance-attrib
             if not isinstance(cmd.gate, FlushGate):
                 self._store(cmd)
             else:
-                self._run()
-                self._reset()
+                try:
+                    self._run()
+                finally:
+                    # also if it failed, the next run starts from scratch
+                    self._reset()
             if not self.is_last_engine:
                 self.send([cmd])
diff --git a/projectq/backends/_ibm/_ibm.py b/projectq/backends/_ibm/_ibm.py
index 0df93a8..a0082e9 100755
--- a/projectq/backends/_ibm/_ibm.py
+++ b/projectq/backends/_ibm/_ibm.py
@@ -344,5 +344,8 @@ class IBMBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             if not cmd.gate == FlushGate():
                 self._store(cmd)
             else:
-                self._run()
-                self._reset()
+                try:
+                    self._run()
+                finally:
+                    # also if it failed, the next run starts from scratch
+                    self._reset()
-- 
2.43.0


From e333d0dbb06307dffc4013219cc2181a4a1ba033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:38 +0000
Subject: [PATCH 51/75] fix: IBM, AQT and AWS Braket jobs with qubits from
 before the last flush had too few qubits

---
 projectq/backends/_aqt/_aqt.py             | 2 ++
 projectq/backends/_awsbraket/_awsbraket.py | 4 +++-
 projectq/backends/_ibm/_ibm.py             | 2 ++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_aqt/_aqt.py b/projectq/backends/_aqt/_aqt.py
index d24eab0..b83701a 100644
--- a/projectq/backends/_aqt/_aqt.py
+++ b/projectq/backends/_aqt/_aqt.py
@@ -134,6 +134,8 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             return
         if gate == Deallocate:
             return
+        # the qubits may have been allocated before the last run
+        self._allocated_qubits.update(qb.id for qureg in cmd.all_qubits for qb in qureg)
         if gate == Measure:
             qb_id = cmd.qubits[0][0].id
             logical_id = None
diff --git a/projectq/backends/_awsbraket/_awsbraket.py b/projectq/backends/_awsbraket/_awsbraket.py
index a24313a..4c4d6c2 100755
--- a/projectq/backends/_awsbraket/_awsbraket.py
+++ b/projectq/backends/_awsbraket/_awsbraket.py
@@ -270,6 +270,8 @@ class AWSBraketBackend(BasicEngine):  # pylint: disable=too-many-instance-attrib
         if gate == Allocate:
             self._allocated_qubits.add(cmd.qubits[0][0].id)
             return
+        # the qubits may have been allocated before the last run
+        self._allocated_qubits.update(qb.id for qureg in cmd.all_qubits for qb in qureg)
         if gate == Measure:
             qb_id = cmd.qubits[0][0].id
             logical_id = None
@@ -403,7 +405,7 @@ class AWSBraketBackend(BasicEngine):  # pylint: disable=too-many-instance-attrib
             if not self._circuit:
                 return
 
-            n_qubit = len(self._allocated_qubits)
+            n_qubit = max(self._allocated_qubits) + 1
             info = {}
             info['circuit'] = self._circuithead + self._circuit.rstrip(', ') + self._circuittail
             info['nq'] = n_qubit
diff --git a/projectq/backends/_ibm/_ibm.py b/projectq/backends/_ibm/_ibm.py
index a0082e9..ba9bc82 100755
--- a/projectq/backends/_ibm/_ibm.py
+++ b/projectq/backends/_ibm/_ibm.py
@@ -155,6 +155,8 @@ class IBMBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
 
         if gate == Deallocate:
             return
+        # the qubits may have been allocated before the last run
+        self._allocated_qubits.update(qb.id for qureg in cmd.all_qubits for qb in qureg)
 
         if gate == Measure:
             logical_id = None
-- 
2.43.0


From 15f4f7da709bc47a6e2ad517f889630fc87b48d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:07 +0000
Subject: [PATCH 52/75] fix: probabilities of retrieved IBM jobs and number of
 shots after retrieving an AQT job

---
 projectq/backends/_aqt/_aqt.py | 4 ++--
 projectq/backends/_ibm/_ibm.py | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/projectq/backends/_aqt/_aqt.py b/projectq/backends/_aqt/_aqt.py
index b83701a..35e6746 100644
--- a/projectq/backends/_aqt/_aqt.py
+++ b/projectq/backends/_aqt/_aqt.py
@@ -267,14 +267,14 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
                     interval=self._interval,
                     verbose=self._verbose,
                 )
-            self._num_runs = len(res)
+            num_shots = len(res)
             counts = _format_counts(res, n_qubit)
             # Determine random outcome
             random_outcome = random.random()
             p_sum = 0.0
             measured = ""
             for state in counts:
-                probability = counts[state] * 1.0 / self._num_runs
+                probability = counts[state] * 1.0 / num_shots
                 p_sum += probability
                 star = ""
                 if p_sum >= random_outcome and measured == "":
diff --git a/projectq/backends/_ibm/_ibm.py b/projectq/backends/_ibm/_ibm.py
index ba9bc82..1ce6bb4 100755
--- a/projectq/backends/_ibm/_ibm.py
+++ b/projectq/backends/_ibm/_ibm.py
@@ -308,8 +308,10 @@ class IBMBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             random_outcome = random.random()
             p_sum = 0.0
             measured = ""
+            # a retrieved job may have another number of shots
+            num_shots = sum(counts.values())
             for state in counts:
-                probability = counts[state] * 1.0 / self._num_runs
+                probability = counts[state] * 1.0 / num_shots
                 state = f"{int(state, 0):b}"
                 state = state.zfill(max_qubit_id)
                 # states in ibmq are right-ordered, so need to reverse state string
-- 
2.43.0


From c4b22be0fcc8ae084b4c441b4256dab2414e191e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:26 +0000
Subject: [PATCH 53/75] fix: measured values of cloud jobs: IonQ always took
 the last state, others could find none

---
 projectq/backends/_aqt/_aqt.py             | 5 ++++-
 projectq/backends/_awsbraket/_awsbraket.py | 5 ++++-
 projectq/backends/_ibm/_ibm.py             | 5 ++++-
 projectq/backends/_ionq/_ionq.py           | 7 +++++--
 4 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/projectq/backends/_aqt/_aqt.py b/projectq/backends/_aqt/_aqt.py
index 35e6746..775f11c 100644
--- a/projectq/backends/_aqt/_aqt.py
+++ b/projectq/backends/_aqt/_aqt.py
@@ -277,13 +277,16 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
                 probability = counts[state] * 1.0 / num_shots
                 p_sum += probability
                 star = ""
-                if p_sum >= random_outcome and measured == "":
+                if p_sum > random_outcome and measured == "":
                     measured = state
                     star = "*"
                 self._probabilities[state] = probability
                 if self._verbose and probability > 0:
                     print(f"{str(state)} with p = {probability}{star}")
 
+            if measured == "":  # p_sum ended below the random number by a rounding error
+                measured = [state for state, probability in self._probabilities.items() if probability > 0][-1]
+
             # register measurement result from AQT
             for qubit_id in self._measured_ids:
                 location = self._logical_to_physical(qubit_id)
diff --git a/projectq/backends/_awsbraket/_awsbraket.py b/projectq/backends/_awsbraket/_awsbraket.py
index 4c4d6c2..4e28f61 100755
--- a/projectq/backends/_awsbraket/_awsbraket.py
+++ b/projectq/backends/_awsbraket/_awsbraket.py
@@ -431,13 +431,16 @@ class AWSBraketBackend(BasicEngine):  # pylint: disable=too-many-instance-attrib
             probability = counts[state]
             p_sum += probability
             star = ""
-            if p_sum >= random_outcome and measured == "":
+            if p_sum > random_outcome and measured == "":
                 measured = state
                 star = "*"
             self._probabilities[state] = probability
             if self._verbose and probability > 0:
                 print(f"{state} with p = {probability}{star}")
 
+        if measured == "":  # p_sum ended below the random number by a rounding error
+            measured = [state for state, probability in self._probabilities.items() if probability > 0][-1]
+
         # register measurement result
         for qubit_id in self._measured_ids:
             result = int(measured[self._logical_to_physical(qubit_id)])
diff --git a/projectq/backends/_ibm/_ibm.py b/projectq/backends/_ibm/_ibm.py
index 1ce6bb4..30763bd 100755
--- a/projectq/backends/_ibm/_ibm.py
+++ b/projectq/backends/_ibm/_ibm.py
@@ -318,13 +318,16 @@ class IBMBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
                 state = state[::-1]
                 p_sum += probability
                 star = ""
-                if p_sum >= random_outcome and measured == "":
+                if p_sum > random_outcome and measured == "":
                     measured = state
                     star = "*"
                 self._probabilities[state] = probability
                 if self._verbose and probability > 0:
                     print(f"{str(state)} with p = {probability}{star}")
 
+            if measured == "":  # p_sum ended below the random number by a rounding error
+                measured = [state for state, probability in self._probabilities.items() if probability > 0][-1]
+
             # register measurement result from IBM
             for qubit_id in self._measured_ids:
                 location = self._logical_to_physical(qubit_id)
diff --git a/projectq/backends/_ionq/_ionq.py b/projectq/backends/_ionq/_ionq.py
index 4c59369..11fef6b 100644
--- a/projectq/backends/_ionq/_ionq.py
+++ b/projectq/backends/_ionq/_ionq.py
@@ -328,17 +328,20 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         probable_outcomes = res['output_probs']
         states = probable_outcomes.keys()
         self._probabilities = {}
-        for idx, state_int in enumerate(states):
+        for state_int in states:
             state = _rearrange_result(int(state_int), num_measured)
             probability = probable_outcomes[state_int]
             p_sum += probability
-            if p_sum >= random_outcome and measured == "" or (idx == len(states) - 1):
+            if p_sum > random_outcome and measured == "":
                 measured = state
                 star = "*"
             self._probabilities[state] = probability
             if self._verbose and probability > 0:  # pragma: no cover
                 print(f"{state} with p = {probability}{star}")
 
+        if measured == "":  # p_sum ended below the random number by a rounding error
+            measured = [state for state, probability in self._probabilities.items() if probability > 0][-1]
+
         # Register measurement results
         for idx, qubit_id in enumerate(measured_ids):
             result = int(measured[idx])
-- 
2.43.0


From cd117b953a2e0da44b7ac1ac415b7fb24160642e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:08 +0000
Subject: [PATCH 54/75] fix: IonQ jobs with released qubits, and refusal of
 gates after measurements on relocated qubits

---
 projectq/backends/_ionq/_ionq.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/projectq/backends/_ionq/_ionq.py b/projectq/backends/_ionq/_ionq.py
index 11fef6b..f69a7bb 100644
--- a/projectq/backends/_ionq/_ionq.py
+++ b/projectq/backends/_ionq/_ionq.py
@@ -109,6 +109,8 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         self._interval = interval
         self._circuit = []
         self._measured_ids = []
+        self._measured_locations = []
+        self._used_locations = set()
         self._probabilities = {}
         self._retrieve_execution = retrieve_execution
         self._clear = True
@@ -169,6 +171,8 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         """
         if self._clear:
             self._measured_ids = []
+            self._measured_locations = []
+            self._used_locations = set()
             self._probabilities = {}
             self._clear = False
 
@@ -178,6 +182,9 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         if gate in (Allocate, Deallocate, Barrier):
             return
 
+        # The qubits may be gone from the mapping by the time the circuit is submitted.
+        self._used_locations.update(qb.id for qureg in cmd.all_qubits for qb in qureg)
+
         # Create a measurement.
         if gate == Measure:
             logical_id = cmd.qubits[0][0].id
@@ -187,6 +194,7 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
                     break
             # Add the qubit id
             self._measured_ids.append(logical_id)
+            self._measured_locations.append(cmd.qubits[0][0].id)
             return
 
         # Process the Command's gate type:
@@ -209,7 +217,7 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             gate_qubits = set(targets) | set(controls)
 
             # If any of them have already been measured...
-            already_measured = gate_qubits & set(self._measured_ids)
+            already_measured = gate_qubits & set(self._measured_locations)
 
             # Boom!
             if len(already_measured) > 0:
@@ -291,9 +299,9 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             measured_ids = self._measured_ids[:]
             info = {
                 'circuit': self._circuit,
-                'nq': len(qubit_mapping.keys()),
+                'nq': max(self._used_locations.union(qubit_mapping.values())) + 1,
                 'shots': self._num_runs,
-                'meas_mapped': [qubit_mapping[qubit_id] for qubit_id in measured_ids],
+                'meas_mapped': self._measured_locations[:],
                 'meas_qubit_ids': measured_ids,
             }
             res = http_client.send(
-- 
2.43.0


From d495f6f1160fd46001502b4a1ae3a516e2ed94a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:24 +0000
Subject: [PATCH 55/75] fix: IonQBackend.get_probability of a state that never
 occurred

---
 projectq/backends/_ionq/_ionq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/backends/_ionq/_ionq.py b/projectq/backends/_ionq/_ionq.py
index f69a7bb..608eaba 100644
--- a/projectq/backends/_ionq/_ionq.py
+++ b/projectq/backends/_ionq/_ionq.py
@@ -257,7 +257,7 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             raise ValueError('Desired state and register must be the same length!')
 
         probs = self.get_probabilities(qureg)
-        return probs[state]
+        return probs.get(state, 0.0)
 
     def get_probabilities(self, qureg):
         """
-- 
2.43.0


From d4ce4401e772b7a3273ee6a90b85b7c1cff24288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:41 +0000
Subject: [PATCH 56/75] fix: AQT jobs with an Rxx gate on a two-qubit register

---
 projectq/backends/_aqt/_aqt.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/projectq/backends/_aqt/_aqt.py b/projectq/backends/_aqt/_aqt.py
index 775f11c..bff19dc 100644
--- a/projectq/backends/_aqt/_aqt.py
+++ b/projectq/backends/_aqt/_aqt.py
@@ -149,14 +149,12 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             self._measured_ids += [logical_id]
             return
         if isinstance(gate, (Rx, Ry, Rxx)):
-            qubits = []
-            qubits.append(cmd.qubits[0][0].id)
-            if len(cmd.qubits) == 2:
-                qubits.append(cmd.qubits[1][0].id)
+            # the two qubits of Rxx may come in one register or in two
+            qubits = [qb.id for qureg in cmd.qubits for qb in qureg]
             angle = gate.angle / math.pi
             instruction = []
             u_name = {'Rx': "X", 'Ry': "Y", 'Rxx': "MS"}
-            instruction.append(u_name[str(gate)[0 : int(len(cmd.qubits) + 1)]])  # noqa: E203
+            instruction.append(u_name[str(gate)[0 : int(len(qubits) + 1)]])  # noqa: E203
             instruction.append(round(angle, 2))
             instruction.append(qubits)
             self._circuit.append(instruction)
-- 
2.43.0


From 9a195f5e434cd9ef6b4cd554df5a8727209856d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:12 +0000
Subject: [PATCH 57/75] fix: AQTBackend could not run on the AQT simulator, its
 default device

---
 projectq/backends/_aqt/_aqt.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_aqt/_aqt.py b/projectq/backends/_aqt/_aqt.py
index bff19dc..f7f6293 100644
--- a/projectq/backends/_aqt/_aqt.py
+++ b/projectq/backends/_aqt/_aqt.py
@@ -244,13 +244,15 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         info['nq'] = n_qubit
         info['shots'] = self._num_runs
         info['backend'] = {'name': self.device}
+        # the service lists its simulator under another name
+        device = 'aqt_simulator' if self.device == 'simulator' else self.device
         if self._num_runs > 200:
             raise Exception("Number of shots limited to 200")
         try:
             if self._retrieve_execution is None:
                 res = send(
                     info,
-                    device=self.device,
+                    device=device,
                     token=self._token,
                     num_retries=self._num_retries,
                     interval=self._interval,
@@ -258,7 +260,7 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
                 )
             else:
                 res = retrieve(
-                    device=self.device,
+                    device=device,
                     token=self._token,
                     jobid=self._retrieve_execution,
                     num_retries=self._num_retries,
-- 
2.43.0


From 044c9e9256da94a2b54e1751408882828871838f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:27 +0000
Subject: [PATCH 58/75] fix: the Azure Quantum backend measured the qubits of
 earlier circuits again

---
 projectq/backends/_azure/_azure_quantum.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/projectq/backends/_azure/_azure_quantum.py b/projectq/backends/_azure/_azure_quantum.py
index 682caa6..cf47239 100644
--- a/projectq/backends/_azure/_azure_quantum.py
+++ b/projectq/backends/_azure/_azure_quantum.py
@@ -116,6 +116,8 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
         self._retrieve_execution = retrieve_execution
         self._circuit = None
         self._measured_ids = []
+        self._measured_locations = []
+        self._used_locations = set()
         self._probabilities = {}
         self._clear = True
 
@@ -143,6 +145,9 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
             self._probabilities = {}
             self._clear = False
             self._circuit = None
+            self._measured_ids = []
+            self._measured_locations = []
+            self._used_locations = set()
 
         gate = cmd.gate
 
-- 
2.43.0


From 15d0ba32efe3ed09e24cf243c2fd377293cd0605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:14 +0000
Subject: [PATCH 59/75] fix: Azure Quantum jobs with released qubits or
 placements with gaps had too few qubits

---
 projectq/backends/_azure/_azure_quantum.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/projectq/backends/_azure/_azure_quantum.py b/projectq/backends/_azure/_azure_quantum.py
index cf47239..9c7b060 100644
--- a/projectq/backends/_azure/_azure_quantum.py
+++ b/projectq/backends/_azure/_azure_quantum.py
@@ -151,6 +151,10 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
 
         gate = cmd.gate
 
+        # The qubits may be gone from the mapping by the time the circuit is submitted.
+        if not isinstance(gate, DeallocateQubitGate):
+            self._used_locations.update(qb.id for qureg in cmd.all_qubits for qb in qureg)
+
         # No-op/Meta gates
         if isinstance(gate, (AllocateQubitGate, DeallocateQubitGate)):
             return
@@ -167,6 +171,7 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
                 raise RuntimeError('No LogicalQubitIDTag found in command!')
 
             self._measured_ids.append(logical_id)
+            self._measured_locations.append(cmd.qubits[0][0].id)
             return
 
         if self._provider_id == IONQ_PROVIDER_ID:
@@ -285,9 +290,13 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
         return probability_dict
 
     @property
-    def _input_data(self):
+    def _num_qubits(self):
         qubit_mapping = self.main_engine.mapper.current_mapping
-        qubits = len(qubit_mapping.keys())
+        return max(self._used_locations.union(qubit_mapping.values()), default=-1) + 1
+
+    @property
+    def _input_data(self):
+        qubits = self._num_qubits
 
         if self._provider_id == IONQ_PROVIDER_ID:
             return {"qubits": qubits, "circuit": self._circuit}
@@ -295,8 +304,7 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
         if self._provider_id == QUANTINUUM_PROVIDER_ID:
             measurement_gates = ""
 
-            for measured_id in self._measured_ids:
-                qb_loc = self.main_engine.mapper.current_mapping[measured_id]
+            for qb_loc in self._measured_locations:
                 measurement_gates += f"measure q[{qb_loc}] -> c[{qb_loc}];\n"
 
             return (
@@ -308,11 +316,7 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
 
     @property
     def _metadata(self):
-        qubit_mapping = self.main_engine.mapper.current_mapping
-        num_qubits = len(qubit_mapping.keys())
-        meas_map = [qubit_mapping[qubit_id] for qubit_id in self._measured_ids]
-
-        return {"num_qubits": num_qubits, "meas_map": meas_map}
+        return {"num_qubits": self._num_qubits, "meas_map": self._measured_locations[:]}
 
     def estimate_cost(self, **kwargs):
         """Estimate cost for the circuit this object has built during engine execution."""
-- 
2.43.0


From 31c93459e0febce3da8665a87b9a60867814935c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:32 +0000
Subject: [PATCH 60/75] fix: results of Azure Quantum jobs reached the wrong
 qubits, and measured values were always 1

---
 projectq/backends/_azure/_azure_quantum.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/projectq/backends/_azure/_azure_quantum.py b/projectq/backends/_azure/_azure_quantum.py
index 9c7b060..60f2dfb 100644
--- a/projectq/backends/_azure/_azure_quantum.py
+++ b/projectq/backends/_azure/_azure_quantum.py
@@ -356,20 +356,26 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
                 )
 
         if self._provider_id == IONQ_PROVIDER_ID:
-            self._probabilities = {
-                _rearrange_result(int(k), len(self._measured_ids)): v for k, v in res["histogram"].items()
-            }
+            # keys: integers over all qubits of the job
+            outcomes = [(_rearrange_result(int(k), self._num_qubits), v) for k, v in res["histogram"].items()]
         elif self._provider_id == QUANTINUUM_PROVIDER_ID:
-            histogram = Counter(res["c"])
-            self._probabilities = {k: v / self._num_runs for k, v in histogram.items()}
+            # keys: bit strings over all qubits of the job, the last one first
+            outcomes = [(k[::-1], v / len(res["c"])) for k, v in Counter(res["c"]).items()]
         else:  # pragma: no cover
             raise RuntimeError("Invalid Azure Quantum target.")
 
+        # Keep the measured qubits, in the order of their measurements
+        self._probabilities = {}
+        for bits, probability in outcomes:
+            state = "".join(bits[location] for location in self._measured_locations)
+            self._probabilities[state] = self._probabilities.get(state, 0) + probability
+
         # Set a single measurement result
-        bitstring = np.random.choice(list(self._probabilities.keys()), p=list(self._probabilities.values()))
-        for qid in self._measured_ids:
+        weights = np.array(list(self._probabilities.values()))
+        bitstring = np.random.choice(list(self._probabilities.keys()), p=weights / weights.sum())
+        for qid, bit in zip(self._measured_ids, bitstring):
             qubit_ref = WeakQubitRef(self.main_engine, qid)
-            self.main_engine.set_measurement_result(qubit_ref, bitstring[qid])
+            self.main_engine.set_measurement_result(qubit_ref, int(bit))
 
     def receive(self, command_list):
         """Receive a command list from the ProjectQ engine pipeline.
-- 
2.43.0


From 5f9dbd76ca971cb0ce2b151edf4760b82819676b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:34 +0000
Subject: [PATCH 61/75] fix: the AWS Braket setups could not compile entangling
 gates

---
 projectq/setups/awsbraket.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/projectq/setups/awsbraket.py b/projectq/setups/awsbraket.py
index 46247ca..88d0179 100644
--- a/projectq/setups/awsbraket.py
+++ b/projectq/setups/awsbraket.py
@@ -28,6 +28,7 @@ that will be used in the backend.
 from projectq.backends._awsbraket._awsbraket_boto3_client import show_devices
 from projectq.backends._exceptions import DeviceNotHandledError, DeviceOfflineError
 from projectq.ops import (
+    CNOT,
     Barrier,
     H,
     R,
@@ -67,21 +68,21 @@ def get_engine_list(credentials=None, device=None):
     if device == 'SV1':
         setup = restrictedgateset.get_engine_list(
             one_qubit_gates=(R, H, Rx, Ry, Rz, S, Sdag, T, Tdag, X, Y, Z, SqrtX),
-            two_qubit_gates=(Swap,),
+            two_qubit_gates=(CNOT, Swap),
             other_gates=(Barrier,),
         )
         return setup
     if device == 'Aspen-8':
         setup = restrictedgateset.get_engine_list(
             one_qubit_gates=(R, H, Rx, Ry, Rz, S, Sdag, T, Tdag, X, Y, Z),
-            two_qubit_gates=(Swap,),
+            two_qubit_gates=(CNOT, Swap),
             other_gates=(Barrier,),
         )
         return setup
     if device == 'IonQ Device':
         setup = restrictedgateset.get_engine_list(
             one_qubit_gates=(H, Rx, Ry, Rz, S, Sdag, T, Tdag, X, Y, Z, SqrtX),
-            two_qubit_gates=(Swap,),
+            two_qubit_gates=(CNOT, Swap),
             other_gates=(Barrier,),
         )
         return setup
-- 
2.43.0


From 8e3590fd6a9ebb7cbd54b84d99d18572aff8fc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:08 +0000
Subject: [PATCH 62/75] fix: qubits released after their measurement made IBM,
 AQT and AWS Braket runs fail

---
 projectq/backends/_aqt/_aqt.py             | 3 +++
 projectq/backends/_awsbraket/_awsbraket.py | 3 +++
 projectq/backends/_ibm/_ibm.py             | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/projectq/backends/_aqt/_aqt.py b/projectq/backends/_aqt/_aqt.py
index f7f6293..44064de 100644
--- a/projectq/backends/_aqt/_aqt.py
+++ b/projectq/backends/_aqt/_aqt.py
@@ -289,6 +289,9 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
 
             # register measurement result from AQT
             for qubit_id in self._measured_ids:
+                mapper = self.main_engine.mapper
+                if mapper is not None and qubit_id not in mapper.current_mapping:
+                    continue  # the qubit has been released since: nobody can read its result
                 location = self._logical_to_physical(qubit_id)
                 result = int(measured[location])
                 self.main_engine.set_measurement_result(WeakQubitRef(self, qubit_id), result)
diff --git a/projectq/backends/_awsbraket/_awsbraket.py b/projectq/backends/_awsbraket/_awsbraket.py
index 4e28f61..aa96793 100755
--- a/projectq/backends/_awsbraket/_awsbraket.py
+++ b/projectq/backends/_awsbraket/_awsbraket.py
@@ -443,6 +443,9 @@ class AWSBraketBackend(BasicEngine):  # pylint: disable=too-many-instance-attrib
 
         # register measurement result
         for qubit_id in self._measured_ids:
+            mapper = self.main_engine.mapper
+            if mapper is not None and qubit_id not in mapper.current_mapping:
+                continue  # the qubit has been released since: nobody can read its result
             result = int(measured[self._logical_to_physical(qubit_id)])
             self.main_engine.set_measurement_result(WeakQubitRef(self.main_engine, qubit_id), result)
         self._reset()
diff --git a/projectq/backends/_ibm/_ibm.py b/projectq/backends/_ibm/_ibm.py
index 30763bd..fb29102 100755
--- a/projectq/backends/_ibm/_ibm.py
+++ b/projectq/backends/_ibm/_ibm.py
@@ -269,6 +269,8 @@ class IBMBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         if self._clear:
             return
         # finally: add measurements (no intermediate measurements are allowed)
+        # the results of qubits that have been released since are of no use to anybody
+        self._measured_ids = [idx for idx in self._measured_ids if idx in self.main_engine.mapper.current_mapping]
         for measured_id in self._measured_ids:
             qb_loc = self.main_engine.mapper.current_mapping[measured_id]
             self.qasm += f"\nmeasure q[{qb_loc}] -> c[{qb_loc}];"
-- 
2.43.0


From 168636aa2b76ebf168b47d324e7b7cb409ee0cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:22 +0000
Subject: [PATCH 63/75] fix: IBM and AQT jobs that were still queued were taken
 for failed ones

---
 projectq/backends/_aqt/_aqt_http_client.py | 2 +-
 projectq/backends/_ibm/_ibm_http_client.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_aqt/_aqt_http_client.py b/projectq/backends/_aqt/_aqt_http_client.py
index b2c8d90..4023535 100644
--- a/projectq/backends/_aqt/_aqt_http_client.py
+++ b/projectq/backends/_aqt/_aqt_http_client.py
@@ -142,7 +142,7 @@ class AQT(Session):
                 r_json = req.json()
                 if r_json['status'] == 'finished' or 'samples' in r_json:
                     return r_json['samples']
-                if r_json['status'] != 'running':
+                if r_json['status'] not in ('queued', 'running'):
                     raise Exception(f"Error while running the code: {r_json['status']}.")
                 time.sleep(interval)
                 if self.is_online(device) and retries % 60 == 0:
diff --git a/projectq/backends/_ibm/_ibm_http_client.py b/projectq/backends/_ibm/_ibm_http_client.py
index 2760298..08bce79 100755
--- a/projectq/backends/_ibm/_ibm_http_client.py
+++ b/projectq/backends/_ibm/_ibm_http_client.py
@@ -233,7 +233,7 @@ class IBMQ(Session):
                 request = super().get(urljoin(_API_URL, job_status_url), **json_step5)
                 request.raise_for_status()
                 r_json = request.json()
-                acceptable_status = ['VALIDATING', 'VALIDATED', 'RUNNING']
+                acceptable_status = ['CREATING', 'CREATED', 'VALIDATING', 'VALIDATED', 'QUEUED', 'RUNNING']
                 if r_json['status'] == 'COMPLETED':
                     # STEP6: Get the endpoint to get the result
                     json_step6 = {
-- 
2.43.0


From 640e29068d7a63dcd0031ef81de5bdc892e5d7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:40 +0000
Subject: [PATCH 64/75] fix: the AWS Braket client kept on waiting for
 cancelled jobs

---
 projectq/backends/_awsbraket/_awsbraket_boto3_client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/backends/_awsbraket/_awsbraket_boto3_client.py b/projectq/backends/_awsbraket/_awsbraket_boto3_client.py
index 7924a40..f8601dd 100755
--- a/projectq/backends/_awsbraket/_awsbraket_boto3_client.py
+++ b/projectq/backends/_awsbraket/_awsbraket_boto3_client.py
@@ -292,7 +292,7 @@ class AWSBraket:
                         f'Error while running the code: {status}. '
                         f'The failure reason was: {quantum_task["failureReason"]}.'
                     )
-                if status == 'CANCELLING':
+                if status in ('CANCELLING', 'CANCELLED'):
                     raise Exception(f"The job received a CANCEL operation: {status}.")
                 time.sleep(interval)
                 # NOTE: Be aware that AWS is billing if a lot of API calls are
-- 
2.43.0


From f344c61bcd1d954ae321fdec2ddc365095f5befe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:10 +0000
Subject: [PATCH 65/75] fix: AWS Braket clients that ask for the credentials,
 or with num_retries=0, failed with internal errors

---
 projectq/backends/_awsbraket/_awsbraket_boto3_client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/projectq/backends/_awsbraket/_awsbraket_boto3_client.py b/projectq/backends/_awsbraket/_awsbraket_boto3_client.py
index f8601dd..93ec0d0 100755
--- a/projectq/backends/_awsbraket/_awsbraket_boto3_client.py
+++ b/projectq/backends/_awsbraket/_awsbraket_boto3_client.py
@@ -49,6 +49,7 @@ class AWSBraket:
             credentials (dict): mapping the AWS key credentials as the AWS_ACCESS_KEY_ID and AWS_SECRET_KEY.
         """
         if credentials is None:  # pragma: no cover
+            credentials = {}
             credentials['AWS_ACCESS_KEY_ID'] = getpass.getpass(prompt="Enter AWS_ACCESS_KEY_ID: ")
             credentials['AWS_SECRET_KEY'] = getpass.getpass(prompt="Enter AWS_SECRET_KEY: ")
 
@@ -262,6 +263,7 @@ class AWSBraket:
         try:
             signal.signal(signal.SIGINT, _handle_sigint_during_get_result)
 
+            status = 'UNKNOWN'
             for _ in range(num_retries):
                 quantum_task = client_braket.get_quantum_task(quantumTaskArn=execution_id)
                 status = quantum_task['status']
-- 
2.43.0


From 4799c50210ee1f4462f3a78badb8d8e039b879f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:31 +0000
Subject: [PATCH 66/75] fix: errors whose type is not made from a single
 message were replaced by a TypeError

---
 projectq/cengines/_main.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/projectq/cengines/_main.py b/projectq/cengines/_main.py
index 87ec1b3..a64f4fa 100755
--- a/projectq/cengines/_main.py
+++ b/projectq/cengines/_main.py
@@ -305,9 +305,12 @@ class MainEngine(BasicEngine):  # pylint: disable=too-many-instance-attributes
             exc_type, exc_value, _ = sys.exc_info()
             # try:
             last_line = traceback.format_exc().splitlines()
-            compact_exception = exc_type(
-                str(exc_value) + '\n raised in:\n' + repr(last_line[-3]) + "\n" + repr(last_line[-2])
-            )
+            try:
+                compact_exception = exc_type(
+                    str(exc_value) + '\n raised in:\n' + repr(last_line[-3]) + "\n" + repr(last_line[-2])
+                )
+            except TypeError:  # exceptions of this type are not made from a single message
+                raise err from None
             compact_exception.__cause__ = None
             raise compact_exception from err  # use verbose=True for more info
 
-- 
2.43.0


From 6e8dbe08fb627ef892a8b8a959be3731e4a0f833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:16 +0000
Subject: [PATCH 67/75] fix: RevKit oracles refused functions whose truth table
 starts with zeros

The width of the hexadecimal truth table counted the 0x prefix (and, for
phase oracles, half of the entries), so that functions like
ControlFunctionOracle(8) on three controls were taken for functions of
fewer variables and ended in a RuntimeError; functions of one variable
could not be given at all.
---
 projectq/libs/revkit/_control_function.py | 5 ++---
 projectq/libs/revkit/_phase.py            | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/projectq/libs/revkit/_control_function.py b/projectq/libs/revkit/_control_function.py
index 40a07fe..034746d 100644
--- a/projectq/libs/revkit/_control_function.py
+++ b/projectq/libs/revkit/_control_function.py
@@ -100,9 +100,8 @@ class ControlFunctionOracle:  # pylint: disable=too-few-public-methods
         if 2 ** (2 ** (len(qs) - 1)) <= self.function:
             raise AttributeError("Function truth table exceeds number of control qubits")
 
-        # create truth table from function integer
-        hex_length = max(2 ** (len(qs) - 1) // 4, 1)
-        revkit.tt(table=f"{self.function:#0{hex_length}x}")
+        # create truth table (in binary, with one digit for each of its entries) from function integer
+        revkit.tt(table=f"{self.function:0{2 ** (len(qs) - 1)}b}")
 
         # create reversible circuit from truth table
         self.kwargs.get("synth", revkit.esopbs)()
diff --git a/projectq/libs/revkit/_phase.py b/projectq/libs/revkit/_phase.py
index 8d0eb29..6106d17 100644
--- a/projectq/libs/revkit/_phase.py
+++ b/projectq/libs/revkit/_phase.py
@@ -96,9 +96,8 @@ class PhaseOracle:  # pylint: disable=too-few-public-methods
         if 2 ** (2 ** len(qs)) <= self.function:
             raise AttributeError("Function truth table exceeds number of control qubits")
 
-        # create truth table from function integer
-        hex_length = max(2 ** (len(qs) - 1) // 4, 1)
-        revkit.tt(table=f"{self.function:#0{hex_length}x}")
+        # create truth table (in binary, with one digit for each of its entries) from function integer
+        revkit.tt(table=f"{self.function:0{2 ** len(qs)}b}")
 
         # create phase circuit from truth table
         self.kwargs.get("synth", revkit.esopps)()
-- 
2.43.0


From 23e2f07f1b31df8c512965a3c93e4e61bb3aede2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:00 +0000
Subject: [PATCH 68/75] fix: state preparation failed for some vectors with
 very small amplitudes

acos of a quotient that is rounded to more than 1 raised a ValueError
(math domain error), and squares of amplitudes below 1e-162 a
ZeroDivisionError. The angle is now computed from both amplitudes, which
is accurate for all of them.
---
 projectq/setups/decompositions/stateprep2cnot.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/projectq/setups/decompositions/stateprep2cnot.py b/projectq/setups/decompositions/stateprep2cnot.py
index 80e399a..ee58963 100644
--- a/projectq/setups/decompositions/stateprep2cnot.py
+++ b/projectq/setups/decompositions/stateprep2cnot.py
@@ -74,11 +74,8 @@ def _decompose_state_preparation(cmd):  # pylint: disable=too-many-locals
                 for block in range(2 ** (len(qureg) - qubit_idx - 1)):
                     a0 = abs_of_blocks[2 * block]  # pylint: disable=invalid-name
                     a1 = abs_of_blocks[2 * block + 1]  # pylint: disable=invalid-name
-                    if a0 == 0 and a1 == 0:
-                        angles.append(0)
-                    else:
-                        angles.append(-2.0 * math.acos(a0 / math.sqrt(a0**2 + a1**2)))
-                    abs_of_next_blocks.append(math.sqrt(a0**2 + a1**2))
+                    angles.append(-2.0 * math.atan2(a1, a0))
+                    abs_of_next_blocks.append(math.hypot(a0, a1))
                 UniformlyControlledRy(angles) | (
                     qureg[(qubit_idx + 1) :],  # noqa: E203
                     qubit,
-- 
2.43.0


From 13510ace03cb37b641fb85e2b4e0981ec334eec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:20 +0000
Subject: [PATCH 69/75] fix: phase estimation did not read exactly
 representable phases

The inverse QFT was applied to the ancillas in the opposite order, so that
with three or more ancillas (or two and a quarter turn) even an eigenvalue
with a phase of three bits gave several results.
---
 projectq/setups/decompositions/phaseestimation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/projectq/setups/decompositions/phaseestimation.py b/projectq/setups/decompositions/phaseestimation.py
index 0913064..e2c8510 100644
--- a/projectq/setups/decompositions/phaseestimation.py
+++ b/projectq/setups/decompositions/phaseestimation.py
@@ -117,8 +117,9 @@ def _decompose_QPE(cmd):  # pylint: disable=invalid-name
                 with Control(eng, ancilla):
                     unitary | system_qubits
 
-    # Inverse QFT on the ancillas
-    get_inverse(QFT) | qpe_ancillas
+    # Inverse QFT on the ancillas; the first ancilla holds the most significant bit of the phase, while the QFT regards the
+    # first qubit as the least significant one
+    get_inverse(QFT) | qpe_ancillas[::-1]
 
 
 #: Decomposition rules
-- 
2.43.0


From c7ccffb4b32294ed0e609e22a61220ecb4df179e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:47 +0000
Subject: [PATCH 70/75] fix: phase estimation and amplitude amplification
 ignored control qubits

A QPE or QAA gate inside of a Control block was decomposed into the
uncontrolled circuit. The whole decomposition is now controlled.
---
 .../decompositions/amplitudeamplification.py  | 31 ++++++-------
 .../setups/decompositions/phaseestimation.py  | 43 ++++++++++---------
 2 files changed, 38 insertions(+), 36 deletions(-)

diff --git a/projectq/setups/decompositions/amplitudeamplification.py b/projectq/setups/decompositions/amplitudeamplification.py
index 5a85283..9a5f2d8 100644
--- a/projectq/setups/decompositions/amplitudeamplification.py
+++ b/projectq/setups/decompositions/amplitudeamplification.py
@@ -88,22 +88,23 @@ def _decompose_QAA(cmd):  # pylint: disable=invalid-name
     oracle = cmd.gate.oracle
     alg = cmd.gate.algorithm
 
-    # Apply the oracle to invert the amplitude of the good states, S_Chi
-    oracle(eng, system_qubits, qaa_ancilla)
-
-    # Apply the inversion of the Algorithm,
-    # the inversion of the amplitude of |0> and the Algorithm
-
-    with Compute(eng):
-        with Dagger(eng):
+    with Control(eng, cmd.control_qubits):
+        # Apply the oracle to invert the amplitude of the good states, S_Chi
+        oracle(eng, system_qubits, qaa_ancilla)
+
+        # Apply the inversion of the Algorithm,
+        # the inversion of the amplitude of |0> and the Algorithm
+
+        with Compute(eng):
+            with Dagger(eng):
+                alg(eng, system_qubits)
+            All(X) | system_qubits
+        with Control(eng, system_qubits[0:-1]):
+            Z | system_qubits[-1]
+        with CustomUncompute(eng):
+            All(X) | system_qubits
             alg(eng, system_qubits)
-        All(X) | system_qubits
-    with Control(eng, system_qubits[0:-1]):
-        Z | system_qubits[-1]
-    with CustomUncompute(eng):
-        All(X) | system_qubits
-        alg(eng, system_qubits)
-    Ph(math.pi) | system_qubits[0]
+        Ph(math.pi) | system_qubits[0]
 
 
 #: Decomposition rules
diff --git a/projectq/setups/decompositions/phaseestimation.py b/projectq/setups/decompositions/phaseestimation.py
index e2c8510..811199e 100644
--- a/projectq/setups/decompositions/phaseestimation.py
+++ b/projectq/setups/decompositions/phaseestimation.py
@@ -98,28 +98,29 @@ def _decompose_QPE(cmd):  # pylint: disable=invalid-name
     qpe_ancillas = cmd.qubits[0]
     system_qubits = cmd.qubits[1]
 
-    # Hadamard on the ancillas
-    Tensor(H) | qpe_ancillas
-
-    # The Unitary Operator
-    unitary = cmd.gate.unitary
-
-    # Control U on the system_qubits
-    if callable(unitary):
-        # If U is a function
-        for i, ancilla in enumerate(qpe_ancillas):
-            with Control(eng, ancilla):
-                unitary(system_qubits, time=2**i)
-    else:
-        for i, ancilla in enumerate(qpe_ancillas):
-            ipower = int(2**i)
-            with Loop(eng, ipower):
-                with Control(eng, ancilla):
-                    unitary | system_qubits
+    with Control(eng, cmd.control_qubits):
+        # Hadamard on the ancillas
+        Tensor(H) | qpe_ancillas
+
+        # The Unitary Operator
+        unitary = cmd.gate.unitary
 
-    # Inverse QFT on the ancillas; the first ancilla holds the most significant bit of the phase, while the QFT regards the
-    # first qubit as the least significant one
-    get_inverse(QFT) | qpe_ancillas[::-1]
+        # Control U on the system_qubits
+        if callable(unitary):
+            # If U is a function
+            for i, ancilla in enumerate(qpe_ancillas):
+                with Control(eng, ancilla):
+                    unitary(system_qubits, time=2**i)
+        else:
+            for i, ancilla in enumerate(qpe_ancillas):
+                ipower = int(2**i)
+                with Loop(eng, ipower):
+                    with Control(eng, ancilla):
+                        unitary | system_qubits
+
+        # Inverse QFT on the ancillas; the first ancilla holds the most significant bit of the phase, while the QFT
+        # regards the first qubit as the least significant one
+        get_inverse(QFT) | qpe_ancillas[::-1]
 
 
 #: Decomposition rules
-- 
2.43.0


From 0d48b4b00651f5b510f89fa4d5eb98e9531c5967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:43 +0000
Subject: [PATCH 71/75] fix: histograms of lists of registers failed for cloud
 backends

---
 projectq/libs/hist/_histogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/libs/hist/_histogram.py b/projectq/libs/hist/_histogram.py
index d2bf255..11c1460 100644
--- a/projectq/libs/hist/_histogram.py
+++ b/projectq/libs/hist/_histogram.py
@@ -51,7 +51,7 @@ def histogram(backend, qureg):
         print("Consider calling histogram() with a sublist of the qubits.")
 
     if hasattr(backend, 'get_probabilities'):
-        probabilities = backend.get_probabilities(qureg)
+        probabilities = backend.get_probabilities(qubit_list)
     elif isinstance(backend, Simulator):
         outcome = [0] * len(qubit_list)
         n_outcomes = 1 << len(qubit_list)
-- 
2.43.0


From 9d19a5dc5b9c2af831936ff597979dcb52e0b785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:20 +0000
Subject: [PATCH 72/75] fix: prepare states with plain rotations on the last
 qubit, which setups that allow any one-qubit gate can run

---
 .../setups/decompositions/stateprep2cnot.py   | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/projectq/setups/decompositions/stateprep2cnot.py b/projectq/setups/decompositions/stateprep2cnot.py
index ee58963..e46b5b1 100644
--- a/projectq/setups/decompositions/stateprep2cnot.py
+++ b/projectq/setups/decompositions/stateprep2cnot.py
@@ -21,6 +21,8 @@ from projectq.cengines import DecompositionRule
 from projectq.meta import Control, Dagger
 from projectq.ops import (
     Ph,
+    Ry,
+    Rz,
     StatePreparation,
     UniformlyControlledRy,
     UniformlyControlledRz,
@@ -57,10 +59,13 @@ def _decompose_state_preparation(cmd):  # pylint: disable=too-many-locals
                     phase1 = phase_of_blocks[2 * block + 1]
                     angles.append(phase0 - phase1)
                     phase_of_next_blocks.append((phase0 + phase1) / 2.0)
-                UniformlyControlledRz(angles) | (
-                    qureg[(qubit_idx + 1) :],  # noqa: E203
-                    qubit,
-                )
+                if qubit_idx == num_qubits - 1:
+                    Rz(angles[0]) | qubit  # no choice qubits left
+                else:
+                    UniformlyControlledRz(angles) | (
+                        qureg[(qubit_idx + 1) :],  # noqa: E203
+                        qubit,
+                    )
                 phase_of_blocks = phase_of_next_blocks
             # Cancel global phase
             Ph(-phase_of_blocks[0]) | qureg[-1]
@@ -76,10 +81,13 @@ def _decompose_state_preparation(cmd):  # pylint: disable=too-many-locals
                     a1 = abs_of_blocks[2 * block + 1]  # pylint: disable=invalid-name
                     angles.append(-2.0 * math.atan2(a1, a0))
                     abs_of_next_blocks.append(math.hypot(a0, a1))
-                UniformlyControlledRy(angles) | (
-                    qureg[(qubit_idx + 1) :],  # noqa: E203
-                    qubit,
-                )
+                if qubit_idx == num_qubits - 1:
+                    Ry(angles[0]) | qubit  # no choice qubits left
+                else:
+                    UniformlyControlledRy(angles) | (
+                        qureg[(qubit_idx + 1) :],  # noqa: E203
+                        qubit,
+                    )
                 abs_of_blocks = abs_of_next_blocks
 
 
-- 
2.43.0


From 7772ff06318b419fc76f56630f4b36c08b1176c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:01 +0000
Subject: [PATCH 73/75] fix: modular inverses of numbers beyond 2**53 were
 rounded

---
 projectq/libs/math/_constantmath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/libs/math/_constantmath.py b/projectq/libs/math/_constantmath.py
index a329b7a..584f0fe 100755
--- a/projectq/libs/math/_constantmath.py
+++ b/projectq/libs/math/_constantmath.py
@@ -124,7 +124,7 @@ def inv_mod_N(a, N):  # pylint: disable=invalid-name
     r = N
     old_r = a
     while r != 0:
-        q = int(old_r / r)
+        q = old_r // r
         tmp = r
         r = old_r - q * r
         old_r = tmp
-- 
2.43.0


From bc234d9ac70ae3b4fb9ae980d4fdcca64104f8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:25 +0000
Subject: [PATCH 74/75] fix: long evolutions under small non-commuting terms
 were compiled as if these commuted

---
 projectq/setups/decompositions/time_evolution.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/projectq/setups/decompositions/time_evolution.py b/projectq/setups/decompositions/time_evolution.py
index 9e02939..5866e9c 100644
--- a/projectq/setups/decompositions/time_evolution.py
+++ b/projectq/setups/decompositions/time_evolution.py
@@ -31,10 +31,12 @@ def _recognize_time_evolution_commuting_terms(cmd):
     if len(hamiltonian.terms) == 1:
         return False
     id_op = QubitOperator((), 0.0)
+    # What the order of small non-commuting terms changes grows with the time
+    scale = max(1.0, abs(cmd.gate.time))
     for term in hamiltonian.terms:
-        test_op = QubitOperator(term, hamiltonian.terms[term])
+        test_op = QubitOperator(term, scale * hamiltonian.terms[term])
         for other in hamiltonian.terms:
-            other_op = QubitOperator(other, hamiltonian.terms[other])
+            other_op = QubitOperator(other, scale * hamiltonian.terms[other])
             commutator = test_op * other_op - other_op * test_op
             if not commutator.isclose(id_op, rel_tol=1e-9, abs_tol=1e-9):
                 return False
-- 
2.43.0


From 7e599b6eb0a323e4793ed864b53382bbf66f3c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:47 +0000
Subject: [PATCH 75/75] fix: the local optimizer failed for long chains of
 gates

---
 projectq/cengines/_optimize.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/projectq/cengines/_optimize.py b/projectq/cengines/_optimize.py
index 2f84b2d..a51e2fb 100755
--- a/projectq/cengines/_optimize.py
+++ b/projectq/cengines/_optimize.py
@@ -55,11 +55,21 @@ class LocalOptimizer(BasicEngine):
 
     # sends n gate operations of the qubit with index idx
     def _send_qubit_pipeline(self, idx, n_gates):
+        """Send n gate operations of the qubit with index idx to the next engine."""
+        # The calls which are under way: not nested Python calls, because chains of gates can be arbitrarily long
+        calls = [self._pipeline_sender(idx, n_gates)]
+        while calls:
+            try:
+                calls.append(self._pipeline_sender(*next(calls[-1])))
+            except StopIteration:
+                calls.pop()
+
+    def _pipeline_sender(self, idx, n_gates):
         """Send n gate operations of the qubit with index idx to the next engine."""
         il = self._l[idx]  # pylint: disable=invalid-name
         for i in range(min(n_gates, len(il))):  # loop over first n operations
             # send all gates before n-qubit gate for other qubits involved
-            # --> recursively call send_helper
+            # --> recursively (see _send_qubit_pipeline)
             other_involved_qubits = [qb for qreg in il[i].all_qubits for qb in qreg if qb.id != idx]
             for qb in other_involved_qubits:
                 qubit_id = qb.id
@@ -72,7 +82,7 @@ class LocalOptimizer(BasicEngine):
                     gateloc = self._optimize(qubit_id, gateloc)
 
                     # flush the gates before the n-qubit gate
-                    self._send_qubit_pipeline(qubit_id, gateloc)
+                    yield qubit_id, gateloc
                     # delete the n-qubit gate, we're taking care of it
                     # and don't want the other qubit to do so
                     self._l[qubit_id] = self._l[qubit_id][1:]
-- 
2.43.0


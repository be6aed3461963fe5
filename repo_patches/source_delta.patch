From 68c3d382cd5a6f503be3d46ba0d7b6d1e72634fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:03 +0000
Subject: [PATCH 01/52] fix: to_unitary of a circuit without operations is the
 identity

---
 src/orquestra/quantum/circuits/_circuit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/orquestra/quantum/circuits/_circuit.py b/src/orquestra/quantum/circuits/_circuit.py
index be09205..9734a47 100644
--- a/src/orquestra/quantum/circuits/_circuit.py
+++ b/src/orquestra/quantum/circuits/_circuit.py
@@ -133,6 +133,9 @@ class Circuit:
                     "be converted to a unitary matrix."
                 )
 
+        if not lifted_matrices:
+            return np.eye(2**self.n_qubits)
+
         return reduce(operator.matmul, lifted_matrices)
 
     def bind(self, symbols_map: Dict[sympy.Symbol, Any]):
-- 
2.43.0


From ff62dcf5124a6337c06c2ade57d7b4e966173c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:56 +0000
Subject: [PATCH 02/52] fix: equality of Pauli operators compares coefficients
 to 1e-8

PauliTerm.__eq__ used a relative tolerance of 1e-5 and PauliSum.__eq__ compared
sets of hashes rounded to 1e-6 buckets, so operators that differ were equal and
operators that agree to rounding were not; the empty sum was not equal to 0.
---
 .../quantum/operators/_pauli_operators.py      | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/src/orquestra/quantum/operators/_pauli_operators.py b/src/orquestra/quantum/operators/_pauli_operators.py
index de757fd..835a4ff 100644
--- a/src/orquestra/quantum/operators/_pauli_operators.py
+++ b/src/orquestra/quantum/operators/_pauli_operators.py
@@ -284,7 +284,7 @@ class PauliTerm:
             return other == self
 
         cast_other = cast(PauliTerm, other)
-        return np.allclose(self.coefficient, cast_other.coefficient) and (
+        return np.allclose(self.coefficient, cast_other.coefficient, rtol=0) and (
             np.allclose(self.coefficient, 0) or self.operations == cast_other.operations
         )
 
@@ -446,20 +446,8 @@ class PauliSum:
     def __eq__(self, other: object) -> bool:
         _validate_type(other)
 
-        if isinstance(other, (int, float, complex)):
-            constant_term = PauliTerm("I0", complex(other))
-            return self == PauliSum([constant_term])
-
-        if isinstance(other, PauliTerm):
-            if len(self) == 0:
-                return np.allclose(other.coefficient, 0)
-            return self == PauliSum([other])
-
-        other = cast(PauliSum, other)
-        if len(self) != len(other):
-            return False
-
-        return set(self.terms) == set(other.terms)
+        # Operators are equal iff no term survives simplification of their difference.
+        return len(self - other) == 0
 
     def __add__(self, other: Union[PauliRepresentation, complex]) -> "PauliSum":
         _validate_type(other)
-- 
2.43.0


From f1dcb7760a4c518c2cd9c020fb180e0a1b7eb372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:42 +0000
Subject: [PATCH 03/52] fix: serialise definitions of custom gates used inside
 gate wrappers

---
 src/orquestra/quantum/circuits/_circuit.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/orquestra/quantum/circuits/_circuit.py b/src/orquestra/quantum/circuits/_circuit.py
index 9734a47..8937327 100644
--- a/src/orquestra/quantum/circuits/_circuit.py
+++ b/src/orquestra/quantum/circuits/_circuit.py
@@ -25,9 +25,19 @@ def _circuit_size_by_operations(operations):
     )
 
 
+def _innermost_gate(operation):
+    gate = operation.gate
+    while hasattr(gate, "wrapped_gate"):
+        gate = gate.wrapped_gate
+    return gate
+
+
 def _operation_uses_custom_gate(operation):
-    return isinstance(operation.gate, _gates.MatrixFactoryGate) and isinstance(
-        operation.gate.matrix_factory, _gates.CustomGateMatrixFactory
+    if not isinstance(operation, _gates.GateOperation):
+        return False
+    gate = _innermost_gate(operation)
+    return isinstance(gate, _gates.MatrixFactoryGate) and isinstance(
+        gate.matrix_factory, _gates.CustomGateMatrixFactory
     )
 
 
@@ -98,7 +108,7 @@ class Circuit:
 
     def collect_custom_gate_definitions(self) -> Iterable[_gates.CustomGateDefinition]:
         custom_gate_definitions = (
-            operation.gate.matrix_factory.gate_definition
+            _innermost_gate(operation).matrix_factory.gate_definition
             for operation in self.operations
             if _operation_uses_custom_gate(operation)
         )
-- 
2.43.0


From 1725db9b6214d14e28bbd1073614564476bc6a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:42 +0000
Subject: [PATCH 04/52] fix: deserialise custom gate parameters using the
 gate's own free symbols

---
 src/orquestra/quantum/circuits/_serde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/_serde.py b/src/orquestra/quantum/circuits/_serde.py
index 2297785..d307fd4 100644
--- a/src/orquestra/quantum/circuits/_serde.py
+++ b/src/orquestra/quantum/circuits/_serde.py
@@ -283,7 +283,7 @@ def _custom_gate_instance_from_dict(dict_, custom_gate_defs) -> _gates.Gate:
             f"Custom gate definition for {dict_['name']} missing from serialized dict"
         )
 
-    symbol_names = map(serialize_expr, gate_def.params_ordering)
+    symbol_names = dict_.get("free_symbols", [])
     return gate_def(
         *[deserialize_expr(param, symbol_names) for param in dict_.get("params", [])]
     )
-- 
2.43.0


From 9cd634f236a35d1979488ee631da9f6e36402498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:22 +0000
Subject: [PATCH 05/52] fix: deserialise expressions whose symbols are named
 like sympy objects or indexed vectors

---
 src/orquestra/quantum/circuits/_serde.py | 38 ++++++++++--------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/src/orquestra/quantum/circuits/_serde.py b/src/orquestra/quantum/circuits/_serde.py
index d307fd4..8263360 100644
--- a/src/orquestra/quantum/circuits/_serde.py
+++ b/src/orquestra/quantum/circuits/_serde.py
@@ -4,7 +4,7 @@
 import json
 import re
 from functools import singledispatch
-from typing import Dict, Iterable, List, Mapping, Union
+from typing import Iterable, List, Mapping
 
 import sympy
 
@@ -17,28 +17,22 @@ def serialize_expr(expr: sympy.Expr):
     return str(expr)
 
 
-def _make_symbols_map(
-    symbol_names: Iterable[str],
-) -> Dict[str, Union[sympy.Symbol, Dict[int, sympy.Symbol]]]:
-    symbols_map: Dict[str, Union[sympy.Symbol, Dict[int, sympy.Symbol]]] = {}
-    for name in symbol_names:
-        # Check if the symbol name has brackets, such as "x[4]". Such symbol names will
-        # occur in circuits imported from Qiskit when the Qiskit circuit was
-        # parameterized using a Qiskit ParameterVector.
-        match = re.search(r"^(.*)\[([0-9]+)\]$", name)
-        if match:
-            symbols_map.setdefault(match.group(1), {})[
-                int(match.group(2))
-            ] = sympy.Symbol(name)
-        else:
-            symbols_map[name] = sympy.Symbol(name)
-
-    return symbols_map
-
-
 def deserialize_expr(expr_str, symbol_names):
-    symbols_map = _make_symbols_map(symbol_names)
-    return sympy.sympify(expr_str, locals=symbols_map)
+    # Names of symbols don't have to be valid Python identifiers different from names
+    # known to sympy, e.g. circuits imported from Qiskit contain symbols such as "x[4]"
+    # if the Qiskit circuit was parameterized using a Qiskit ParameterVector. Hence, we
+    # parse the expression with each symbol's name replaced by a neutral placeholder.
+    names = sorted(set(symbol_names), key=lambda name: (-len(name), name))
+    if not names:
+        return sympy.sympify(expr_str)
+
+    placeholders = {name: f"_symbol_{i}_" for i, name in enumerate(names)}
+    # A name followed by an opening bracket is a name of a function, not a symbol.
+    pattern = r"(?<![\w.])(?:" + "|".join(map(re.escape, names)) + r")(?![\w(])"
+    return sympy.sympify(
+        re.sub(pattern, lambda match: placeholders[match.group()], expr_str),
+        locals={placeholders[name]: sympy.Symbol(name) for name in names},
+    )
 
 
 def builtin_gate_by_name(name):
-- 
2.43.0


From 621829c3cc965a604ddbeee80a89f7632f83bbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:19 +0000
Subject: [PATCH 06/52] fix: deserialise custom gates whose name is taken by
 the library

---
 src/orquestra/quantum/circuits/_serde.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/orquestra/quantum/circuits/_serde.py b/src/orquestra/quantum/circuits/_serde.py
index 8263360..e2d2120 100644
--- a/src/orquestra/quantum/circuits/_serde.py
+++ b/src/orquestra/quantum/circuits/_serde.py
@@ -204,6 +204,12 @@ def _gate_from_dict(dict_, custom_gate_defs):
 
     Pass it a JSON dictionary and it'll try its best to return you a proper gate
     instance, regardless of the given gate type."""
+    if "wrapped_gate" not in dict_ and any(
+        gate_def.gate_name == dict_["name"] for gate_def in custom_gate_defs
+    ):
+        # Custom gates' names might coincide with the ones defined by this library.
+        return _custom_gate_instance_from_dict(dict_, custom_gate_defs)
+
     try:
         return _builtin_gate_from_dict(dict_)
     except KeyError:
-- 
2.43.0


From 915a5ef1cfe72d4bb0da580f9bb31b47b66110f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:19 +0000
Subject: [PATCH 07/52] fix: custom gate matrices of different shapes are not
 equal

---
 src/orquestra/quantum/circuits/_gates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/_gates.py b/src/orquestra/quantum/circuits/_gates.py
index 6e69e8b..7c501f5 100644
--- a/src/orquestra/quantum/circuits/_gates.py
+++ b/src/orquestra/quantum/circuits/_gates.py
@@ -602,7 +602,7 @@ def _are_matrix_elements_equal(element, another_element):
 
 
 def _are_matrices_equal(matrix, another_matrix):
-    return all(
+    return matrix.shape == another_matrix.shape and all(
         _are_matrix_elements_equal(element, another_element)
         for element, another_element in zip(matrix, another_matrix)
     )
-- 
2.43.0


From 51a6014fa60140a9abd247c17bf7b40e59171c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:39 +0000
Subject: [PATCH 08/52] fix: substitute parameters of gates simultaneously

---
 src/orquestra/quantum/circuits/_gates.py      | 3 ++-
 src/orquestra/quantum/circuits/_operations.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/circuits/_gates.py b/src/orquestra/quantum/circuits/_gates.py
index 7c501f5..7f90603 100644
--- a/src/orquestra/quantum/circuits/_gates.py
+++ b/src/orquestra/quantum/circuits/_gates.py
@@ -514,7 +514,8 @@ class CustomGateMatrixFactory:
 
     def __call__(self, *gate_params):
         return self.matrix.subs(
-            {symbol: arg for symbol, arg in zip(self.params_ordering, gate_params)}
+            {symbol: arg for symbol, arg in zip(self.params_ordering, gate_params)},
+            simultaneous=True,
         )
 
     def __eq__(self, other):
diff --git a/src/orquestra/quantum/circuits/_operations.py b/src/orquestra/quantum/circuits/_operations.py
index 284598f..f5214dc 100644
--- a/src/orquestra/quantum/circuits/_operations.py
+++ b/src/orquestra/quantum/circuits/_operations.py
@@ -74,7 +74,7 @@ def _sub_symbols_in_number(
 def _sub_symbols_in_expression(
     parameter: sympy.Expr, symbols_map: Dict[sympy.Symbol, Parameter]
 ) -> sympy.Expr:
-    return parameter.subs(symbols_map)
+    return parameter.subs(symbols_map, simultaneous=True)
 
 
 @sub_symbols.register
-- 
2.43.0


From 77441341465b06bb7cd091cf135ee1f63e9a384c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:39 +0000
Subject: [PATCH 09/52] fix: binding parameters of a circuit containing a reset
 operation

---
 src/orquestra/quantum/circuits/_wavefunction_operations.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/circuits/_wavefunction_operations.py b/src/orquestra/quantum/circuits/_wavefunction_operations.py
index be86d14..af7c2f4 100644
--- a/src/orquestra/quantum/circuits/_wavefunction_operations.py
+++ b/src/orquestra/quantum/circuits/_wavefunction_operations.py
@@ -1,7 +1,8 @@
 ################################################################################
 # © Copyright 2021-2022 Zapata Computing Inc.
 ################################################################################
-from dataclasses import dataclass, replace
+from copy import copy
+from dataclasses import dataclass
 from functools import singledispatch
 from numbers import Complex
 from typing import Iterable, Tuple
@@ -105,7 +106,9 @@ class ResetOperation:
         )
 
     def replace_params(self, new_params: Tuple[Parameter, ...]) -> "ResetOperation":
-        return replace(self, params=new_params)
+        new_operation = copy(self)
+        new_operation.params = new_params
+        return new_operation
 
     def apply(self, amplitude_vector: ParameterizedVector) -> ParameterizedVector:
         raise RuntimeError(
-- 
2.43.0


From 22b7ab68f76bfb0cb511b4ebb6fc17d4b72d8f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:14 +0000
Subject: [PATCH 10/52] fix: matrix of the exponential of a diagonal gate is
 computed in finite time

---
 src/orquestra/quantum/circuits/_gates.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/_gates.py b/src/orquestra/quantum/circuits/_gates.py
index 7f90603..54c3dea 100644
--- a/src/orquestra/quantum/circuits/_gates.py
+++ b/src/orquestra/quantum/circuits/_gates.py
@@ -389,7 +389,11 @@ class Exponential(Gate):
 
     @property
     def matrix(self) -> sympy.Matrix:
-        return self.wrapped_gate.matrix.exp()
+        wrapped_matrix = self.wrapped_gate.matrix
+        if wrapped_matrix.is_diagonal():
+            # Exponentiating through the Jordan form might never finish, e.g. for T gate
+            return sympy.diag(*map(sympy.exp, wrapped_matrix.diagonal()))
+        return wrapped_matrix.exp()
 
     @property
     def params(self) -> Tuple[Parameter, ...]:
-- 
2.43.0


From dead3411a2faba4aef76e32076496a16ecc5f06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:09 +0000
Subject: [PATCH 11/52] fix: controlled circuit keeps the idle qubits of the
 original circuit

---
 src/orquestra/quantum/circuits/_circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/_circuit.py b/src/orquestra/quantum/circuits/_circuit.py
index 8937327..bedbc32 100644
--- a/src/orquestra/quantum/circuits/_circuit.py
+++ b/src/orquestra/quantum/circuits/_circuit.py
@@ -201,7 +201,7 @@ class Circuit:
             new_indices_with_control = (control_index, *new_indices)
             c_ops.append(controlled_op(*new_indices_with_control))
 
-        return Circuit(c_ops)
+        return Circuit(c_ops, n_qubits=max(self.n_qubits, control_index) + 1)
 
 
 @singledispatch
-- 
2.43.0


From 6ae5aacbc8c4ef215bf29d2d4345159b6051b18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:09 +0000
Subject: [PATCH 12/52] fix: sparse matrix of the zero operator

---
 .../quantum/operators/_openfermion_utils/sparse_tools.py        | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/orquestra/quantum/operators/_openfermion_utils/sparse_tools.py b/src/orquestra/quantum/operators/_openfermion_utils/sparse_tools.py
index 94bd0f1..1754e53 100644
--- a/src/orquestra/quantum/operators/_openfermion_utils/sparse_tools.py
+++ b/src/orquestra/quantum/operators/_openfermion_utils/sparse_tools.py
@@ -58,6 +58,8 @@ def get_sparse_operator(operator: PauliRepresentation, n_qubits: Optional[int] =
 
     # Construct the Scipy sparse matrix.
     n_hilbert = 2**n_qubits
+    if len(operator.terms) == 0:
+        return scipy.sparse.csc_matrix((n_hilbert, n_hilbert), dtype=complex)
     values_list: List[numpy.ndarray] = []
     row_list: List[numpy.ndarray] = []
     column_list: List[numpy.ndarray] = []
-- 
2.43.0


From 4b288b5318b405ac591720256011dda8d6c1653d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:09 +0000
Subject: [PATCH 13/52] fix: Pauli expansion of a one by one matrix

---
 src/orquestra/quantum/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/orquestra/quantum/utils.py b/src/orquestra/quantum/utils.py
index 2252ec5..1b15bd9 100644
--- a/src/orquestra/quantum/utils.py
+++ b/src/orquestra/quantum/utils.py
@@ -75,6 +75,8 @@ def dec2bin(number: int, length: int) -> List[int]:
 
     bit_str = bin(number)
     bit_str = bit_str[2 : len(bit_str)]  # chop off the first two chars
+    if number == 0:
+        bit_str = ""  # zero has no significant digits, the padding represents it
     bit_string = [int(x) for x in list(bit_str)]
     if len(bit_string) < length:
         len_zeros = length - len(bit_string)
-- 
2.43.0


From 4cacaa0a118916c3a7a3fe2da2be527e5f8a773e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:08 +0000
Subject: [PATCH 14/52] fix: expectation values of a constant from zero-width
 bitstrings

---
 src/orquestra/quantum/measurements/measurements.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/measurements/measurements.py b/src/orquestra/quantum/measurements/measurements.py
index 4095067..7332257 100644
--- a/src/orquestra/quantum/measurements/measurements.py
+++ b/src/orquestra/quantum/measurements/measurements.py
@@ -32,10 +32,11 @@ def convert_bitstring_to_int(bitstring: Sequence[int]) -> int:
 
 def _convert_bitstrings_to_vector(bitstrings: Iterable[str]) -> np.ndarray:
     """Converts bitstrings to vector so parity can be checked."""
-    n_qubits = len([*bitstrings][0])
+    bitstrings = [*bitstrings]
+    n_qubits = len(bitstrings[0])
     all_bits = "".join(bitstrings)
     bitstring_1d_array = np.frombuffer(all_bits.encode("utf-8"), "u1") - ord("0")
-    return bitstring_1d_array.astype(int).reshape(-1, n_qubits)
+    return bitstring_1d_array.astype(int).reshape(len(bitstrings), n_qubits)
 
 
 def get_expectation_value_from_frequencies(
-- 
2.43.0


From b248f233eaa3efb52084fe0a0430e875bdb14722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:08 +0000
Subject: [PATCH 15/52] fix: parities of an empty set of measurements

---
 src/orquestra/quantum/measurements/parities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/measurements/parities.py b/src/orquestra/quantum/measurements/parities.py
index be25888..4d81eff 100644
--- a/src/orquestra/quantum/measurements/parities.py
+++ b/src/orquestra/quantum/measurements/parities.py
@@ -127,7 +127,7 @@ def check_parity_of_vector(
         number of the marked qubits of the corresponding bitstring are in the 1 state
         and 0 if otherwise.
     """
-    if not marked_qubits:
+    if not marked_qubits or len(bitstrings_vector) == 0:
         return np.ones(bitstrings_vector.shape[0])
 
     # Check if an even number of the marked qubits of each bitstring are in the 1 state
-- 
2.43.0


From 477e119eb657eaa7c2bc3d9ff8397fbd75e81263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:40 +0000
Subject: [PATCH 16/52] fix: parse the printed form of a constant Pauli term

---
 src/orquestra/quantum/operators/_pauli_operators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/orquestra/quantum/operators/_pauli_operators.py b/src/orquestra/quantum/operators/_pauli_operators.py
index 835a4ff..bc7ec43 100644
--- a/src/orquestra/quantum/operators/_pauli_operators.py
+++ b/src/orquestra/quantum/operators/_pauli_operators.py
@@ -120,6 +120,9 @@ def _parse_operators_and_coefficient(
         coef = None
         operators_strs = parts
 
+    if operators_strs == ["I"]:  # printed form of a term without operators
+        operators_strs = []
+
     operators_dict = dict([_parse_operator(op_str) for op_str in operators_strs])
 
     if len(operators_dict) != len(operators_strs):
-- 
2.43.0


From 697acd94e810bbd943a61a50a8510ab6610cf07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:46 +0000
Subject: [PATCH 17/52] fix: load functions of persisted artefacts accept any
 path or open file

---
 src/orquestra/quantum/circuits/layouts.py     | 23 +++++++------------
 .../quantum/measurements/measurements.py      | 13 ++++++-----
 src/orquestra/quantum/operators/_io.py        | 15 ++++--------
 src/orquestra/quantum/utils.py                | 18 +++++----------
 4 files changed, 26 insertions(+), 43 deletions(-)

diff --git a/src/orquestra/quantum/circuits/layouts.py b/src/orquestra/quantum/circuits/layouts.py
index 7cc055e..be58b2f 100644
--- a/src/orquestra/quantum/circuits/layouts.py
+++ b/src/orquestra/quantum/circuits/layouts.py
@@ -6,6 +6,8 @@ from typing import Dict, List, TextIO, Tuple
 
 import numpy as np
 
+from ..utils import ensure_open
+
 
 class CircuitLayers:
     """A class representing a pattern of circuit layers, consisting of lists,
@@ -52,11 +54,8 @@ def load_circuit_layers(file: TextIO) -> CircuitLayers:
         (circuit.CircuitLayers)
     """
 
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     return CircuitLayers.from_dict(data)
 
@@ -82,11 +81,8 @@ def load_circuit_ordering(file):
         ordering (list)
     """
 
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     return data["ordering"]
 
@@ -134,11 +130,8 @@ def load_circuit_connectivity(file):
         (orquestra.quantum.circuit.CircuitConnectivity)
     """
 
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     return CircuitConnectivity.from_dict(data)
 
diff --git a/src/orquestra/quantum/measurements/measurements.py b/src/orquestra/quantum/measurements/measurements.py
index 7332257..f7a7587 100644
--- a/src/orquestra/quantum/measurements/measurements.py
+++ b/src/orquestra/quantum/measurements/measurements.py
@@ -13,7 +13,11 @@ import numpy as np
 from ..distributions import MeasurementOutcomeDistribution
 from ..operators import PauliRepresentation
 from ..typing import AnyPath
-from ..utils import convert_tuples_to_bitstrings, sample_from_probability_distribution
+from ..utils import (
+    convert_tuples_to_bitstrings,
+    ensure_open,
+    sample_from_probability_distribution,
+)
 from .expectation_values import ExpectationValues
 from .parities import check_parity_of_vector
 
@@ -214,11 +218,8 @@ class Measurements:
         Args:
             file (str or file-like object): the name of the file, or a file-like object
         """
-        if isinstance(file, str):
-            with open(file, "r") as f:
-                data = json.load(f)
-        else:
-            data = json.load(file)
+        with ensure_open(file) as f:
+            data = json.load(f)
 
         bitstrings = []
         for bitstring in data["bitstrings"]:
diff --git a/src/orquestra/quantum/operators/_io.py b/src/orquestra/quantum/operators/_io.py
index 142d622..ac162e5 100644
--- a/src/orquestra/quantum/operators/_io.py
+++ b/src/orquestra/quantum/operators/_io.py
@@ -6,6 +6,7 @@ from typing import Any, Dict, List, Tuple
 import rapidjson as json
 
 from ..typing import AnyPath, LoadSource
+from ..utils import ensure_open
 from ._pauli_operators import PauliRepresentation, PauliSum, PauliTerm
 
 
@@ -76,11 +77,8 @@ def load_operator(file: LoadSource) -> PauliSum:
         op: the operator.
     """
 
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     return convert_dict_to_op(data)
 
@@ -109,11 +107,8 @@ def load_operator_set(file: LoadSource) -> List[PauliSum]:
     Returns:
         operator_set: a list of QubitOperator objects
     """
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     operator_set = []
     for operator_dict in data["operators"]:
diff --git a/src/orquestra/quantum/utils.py b/src/orquestra/quantum/utils.py
index 1b15bd9..821f191 100644
--- a/src/orquestra/quantum/utils.py
+++ b/src/orquestra/quantum/utils.py
@@ -334,11 +334,8 @@ def load_value_estimate(file: LoadSource) -> ValueEstimate:
         array (numpy.array): the array
     """
 
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)  # type: ignore
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     return ValueEstimate.from_dict(data)
 
@@ -366,11 +363,8 @@ def load_list(file: LoadSource) -> List:
         array (list): the list
     """
 
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)  # type: ignore
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     return data["list"]
 
@@ -459,7 +453,7 @@ def save_nmeas_estimate(
         f.write(json.dumps(data, indent=2))
 
 
-def load_nmeas_estimate(filename: AnyPath) -> Tuple[float, int, np.ndarray]:
+def load_nmeas_estimate(filename: LoadSource) -> Tuple[float, int, np.ndarray]:
     """Load an estimate of the number of measurements from a file.
 
     Args:
@@ -471,7 +465,7 @@ def load_nmeas_estimate(filename: AnyPath) -> Tuple[float, int, np.ndarray]:
         frame_meas: frame measurements (number of measurements per group)
     """
 
-    with open(filename, "r") as f:
+    with ensure_open(filename) as f:
         data = json.load(f)
 
     frame_meas = convert_dict_to_array(data["frame_meas"])
-- 
2.43.0


From b63620ad4180b48558eb5ac19ec75ecb61a3ef1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:07 +0000
Subject: [PATCH 18/52] fix: load measurement-count estimates saved without
 frame measurements

---
 src/orquestra/quantum/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/utils.py b/src/orquestra/quantum/utils.py
index 821f191..dcbb868 100644
--- a/src/orquestra/quantum/utils.py
+++ b/src/orquestra/quantum/utils.py
@@ -453,7 +453,9 @@ def save_nmeas_estimate(
         f.write(json.dumps(data, indent=2))
 
 
-def load_nmeas_estimate(filename: LoadSource) -> Tuple[float, int, np.ndarray]:
+def load_nmeas_estimate(
+    filename: LoadSource,
+) -> Tuple[float, int, Optional[np.ndarray]]:
     """Load an estimate of the number of measurements from a file.
 
     Args:
@@ -468,7 +470,9 @@ def load_nmeas_estimate(filename: LoadSource) -> Tuple[float, int, np.ndarray]:
     with ensure_open(filename) as f:
         data = json.load(f)
 
-    frame_meas = convert_dict_to_array(data["frame_meas"])
+    frame_meas = (
+        convert_dict_to_array(data["frame_meas"]) if "frame_meas" in data else None
+    )
     K_coeff = data["K"]
     nterms = data["nterms"]
 
-- 
2.43.0


From c90097d8cd2055d2100f7eb93707407e1479fc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:07 +0000
Subject: [PATCH 19/52] fix: arrays without elements keep their shape and
 complex type through dictionaries

---
 src/orquestra/quantum/utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/utils.py b/src/orquestra/quantum/utils.py
index dcbb868..d87255c 100644
--- a/src/orquestra/quantum/utils.py
+++ b/src/orquestra/quantum/utils.py
@@ -30,9 +30,12 @@ def convert_dict_to_array(dictionary: dict) -> np.ndarray:
 
     array = np.array(dictionary["real"])
 
-    if dictionary.get("imag"):
+    if dictionary.get("imag") is not None:
         array = array + 1j * np.array(dictionary["imag"])
 
+    if "shape" in dictionary:
+        array = array.reshape(dictionary["shape"])
+
     return array
 
 
@@ -46,13 +49,16 @@ def convert_array_to_dict(array: np.ndarray) -> dict:
         dictionary (dict): the dict containing the data
     """
 
-    dictionary = {}
+    dictionary: Dict[str, Any] = {}
     if np.iscomplexobj(array):
         dictionary["real"] = array.real.tolist()
         dictionary["imag"] = array.imag.tolist()
     else:
         dictionary["real"] = array.tolist()
 
+    if array.size == 0 and array.ndim > 1:
+        dictionary["shape"] = list(array.shape)  # nested lists cannot represent it
+
     return dictionary
 
 
-- 
2.43.0


From e3e9e6719b9938ddf5b6dd81b6cf7af28f2ef5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:07 +0000
Subject: [PATCH 20/52] fix: empty lists of correlation and covariance frames
 survive dictionaries

---
 src/orquestra/quantum/measurements/expectation_values.py | 8 ++++----
 src/orquestra/quantum/measurements/parities.py           | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/orquestra/quantum/measurements/expectation_values.py b/src/orquestra/quantum/measurements/expectation_values.py
index 70d588d..22192ea 100644
--- a/src/orquestra/quantum/measurements/expectation_values.py
+++ b/src/orquestra/quantum/measurements/expectation_values.py
@@ -53,12 +53,12 @@ class ExpectationValues:
 
         data["expectation_values"] = convert_array_to_dict(self.values)
 
-        if self.correlations:
+        if self.correlations is not None:
             data["correlations"] = []
             for correlation_matrix in self.correlations:
                 data["correlations"].append(convert_array_to_dict(correlation_matrix))
 
-        if self.estimator_covariances:
+        if self.estimator_covariances is not None:
             data["estimator_covariances"] = []
             for covariance_matrix in self.estimator_covariances:
                 data["estimator_covariances"].append(
@@ -73,13 +73,13 @@ class ExpectationValues:
 
         expectation_values = convert_dict_to_array(dictionary["expectation_values"])
         correlations: Optional[List] = None
-        if dictionary.get("correlations"):
+        if dictionary.get("correlations") is not None:
             correlations = []
             for correlation_matrix in cast(Iterable, dictionary.get("correlations")):
                 correlations.append(convert_dict_to_array(correlation_matrix))
 
         estimator_covariances: Union[List, None] = None
-        if dictionary.get("estimator_covariances"):
+        if dictionary.get("estimator_covariances") is not None:
             estimator_covariances = []
             for covariance_matrix in cast(
                 Iterable, dictionary.get("estimator_covariances")
diff --git a/src/orquestra/quantum/measurements/parities.py b/src/orquestra/quantum/measurements/parities.py
index 4d81eff..bf0bb2f 100644
--- a/src/orquestra/quantum/measurements/parities.py
+++ b/src/orquestra/quantum/measurements/parities.py
@@ -41,7 +41,7 @@ class Parities:
 
     def to_dict(self) -> dict:
         data: Dict[str, Any] = {"values": convert_array_to_dict(self.values)}
-        if self.correlations:
+        if self.correlations is not None:
             data["correlations"] = [
                 convert_array_to_dict(arr) for arr in self.correlations
             ]
@@ -50,7 +50,7 @@ class Parities:
     @classmethod
     def from_dict(cls, data: dict):
         values = convert_dict_to_array(data["values"])
-        if data.get("correlations"):
+        if data.get("correlations") is not None:
             correlations: Optional[List] = [
                 convert_dict_to_array(arr) for arr in data["correlations"]
             ]
-- 
2.43.0


From 1b3728ef3416503cc162a3e6f72df870774e9943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:07 +0000
Subject: [PATCH 21/52] fix: equality of expectation values with more than one
 element

---
 .../quantum/measurements/expectation_values.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/measurements/expectation_values.py b/src/orquestra/quantum/measurements/expectation_values.py
index 22192ea..e43894d 100644
--- a/src/orquestra/quantum/measurements/expectation_values.py
+++ b/src/orquestra/quantum/measurements/expectation_values.py
@@ -11,6 +11,16 @@ from ..utils import convert_array_to_dict, convert_dict_to_array, ensure_open
 from .parities import Parities
 
 
+def _equal_frames(
+    frames: Optional[List[np.ndarray]], other_frames: Optional[List[np.ndarray]]
+) -> bool:
+    if frames is None or other_frames is None:
+        return frames is other_frames
+    return len(frames) == len(other_frames) and all(
+        np.array_equal(frame, other) for frame, other in zip(frames, other_frames)
+    )
+
+
 class ExpectationValues:
     """A class representing expectation values of operators.
     For more context on how it is being used, please see the docstring of
@@ -89,7 +99,13 @@ class ExpectationValues:
         return cls(expectation_values, correlations, estimator_covariances)
 
     def __eq__(self, __o: object) -> bool:
-        return self.__dict__ == __o.__dict__
+        if not isinstance(__o, ExpectationValues):
+            return NotImplemented
+        return (
+            np.array_equal(self.values, __o.values)
+            and _equal_frames(self.correlations, __o.correlations)
+            and _equal_frames(self.estimator_covariances, __o.estimator_covariances)
+        )
 
 
 def save_expectation_values(
-- 
2.43.0


From b2368405565552ebadf07c7d808d6c567de5a23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:34 +0000
Subject: [PATCH 22/52] fix: single-element expectation values keep comparing
 equal in any shape

---
 .../quantum/measurements/expectation_values.py        | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/measurements/expectation_values.py b/src/orquestra/quantum/measurements/expectation_values.py
index e43894d..8cb76f6 100644
--- a/src/orquestra/quantum/measurements/expectation_values.py
+++ b/src/orquestra/quantum/measurements/expectation_values.py
@@ -11,13 +11,20 @@ from ..utils import convert_array_to_dict, convert_dict_to_array, ensure_open
 from .parities import Parities
 
 
+def _equal_arrays(array: np.ndarray, other: np.ndarray) -> bool:
+    # A single number may come in any shape.
+    return np.array_equal(array, other) or bool(
+        np.size(array) == np.size(other) == 1 and np.all(array == other)
+    )
+
+
 def _equal_frames(
     frames: Optional[List[np.ndarray]], other_frames: Optional[List[np.ndarray]]
 ) -> bool:
     if frames is None or other_frames is None:
         return frames is other_frames
     return len(frames) == len(other_frames) and all(
-        np.array_equal(frame, other) for frame, other in zip(frames, other_frames)
+        _equal_arrays(frame, other) for frame, other in zip(frames, other_frames)
     )
 
 
@@ -102,7 +109,7 @@ class ExpectationValues:
         if not isinstance(__o, ExpectationValues):
             return NotImplemented
         return (
-            np.array_equal(self.values, __o.values)
+            _equal_arrays(self.values, __o.values)
             and _equal_frames(self.correlations, __o.correlations)
             and _equal_frames(self.estimator_covariances, __o.estimator_covariances)
         )
-- 
2.43.0


From 5dd1f4d69bcc9fbfa1ae0f0f9972f6cc50057f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:24 +0000
Subject: [PATCH 23/52] fix: rejected assignments leave wavefunctions
 unchanged, complete ones stay usable

---
 src/orquestra/quantum/wavefunction.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/orquestra/quantum/wavefunction.py b/src/orquestra/quantum/wavefunction.py
index 96c7f9d..2f4ec61 100644
--- a/src/orquestra/quantum/wavefunction.py
+++ b/src/orquestra/quantum/wavefunction.py
@@ -59,16 +59,17 @@ class Wavefunction:
     """
 
     def __init__(self, amplitude_vector: ParameterizedVector) -> None:
-        if bin(len(amplitude_vector)).count("1") != 1:
+        try:
+            vector = np.asarray(amplitude_vector, dtype=complex)
+            self._amplitude_vector = vector.flatten()
+        except TypeError:
+            self._amplitude_vector = Matrix(amplitude_vector).vec()
+
+        if bin(len(self)).count("1") != 1:
             raise ValueError(
                 "Provided wavefunction does not have a size of a power of 2."
             )
 
-        try:
-            self._amplitude_vector = np.asarray(amplitude_vector, dtype=complex)
-        except TypeError:
-            self._amplitude_vector = Matrix(amplitude_vector)
-
         self._check_normalization(self._amplitude_vector)
 
     @property
@@ -104,7 +105,7 @@ class Wavefunction:
             )
             probs_of_ground_entries = np.sum(np.abs(numbers) ** 2)
 
-            if probs_of_ground_entries > 1.0:
+            if not probs_of_ground_entries <= 1.0:
                 raise ValueError(
                     "Ground entries in vector already exceeding probability of 1.0!"
                 )
@@ -119,16 +120,16 @@ class Wavefunction:
         return self._amplitude_vector[idx]
 
     def __setitem__(self, idx, val):
-        old_val = self._amplitude_vector[idx]
-        self._amplitude_vector[idx] = val
+        new_vector = self._amplitude_vector.copy()
+        new_vector[idx] = val
 
         try:
-            self._check_normalization(self._amplitude_vector)
+            new_vector = type(self)(new_vector)._amplitude_vector
         except ValueError:
-            self._amplitude_vector[idx] = old_val
-
             raise ValueError("This assignment violates probability unity.")
 
+        self._amplitude_vector = new_vector
+
     def __str__(self) -> str:
         cast_wf = _cast_sympy_matrix_to_numpy(self._amplitude_vector, complex=True)
         return f"Wavefunction({cast_wf})"
-- 
2.43.0


From b42f5211248f9f0cf479e7cb193f696ba3bcc3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:42 +0000
Subject: [PATCH 24/52] fix: expand huge sample sizes exactly

Ceiling division through a float lost or invented whole copies of a circuit
once the number of samples did not fit a double.
---
 src/orquestra/quantum/circuits/_itertools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/circuits/_itertools.py b/src/orquestra/quantum/circuits/_itertools.py
index 33c7a15..fea8462 100644
--- a/src/orquestra/quantum/circuits/_itertools.py
+++ b/src/orquestra/quantum/circuits/_itertools.py
@@ -1,7 +1,6 @@
 from collections import Counter
 from functools import reduce
 from itertools import islice
-from math import ceil
 from typing import Dict, Iterable, List, Sequence, Tuple, TypeVar
 
 T = TypeVar("T")
@@ -79,7 +78,8 @@ def split_into_batches(
 
 
 def _expand_sample_size(n_samples, max_sample_size):
-    multiplicities = ceil(n_samples / max_sample_size)
+    # ceiling division in exact integer arithmetic
+    multiplicities = -(-n_samples // max_sample_size)
     new_n_samples = (
         multiplicities * (max_sample_size,)
         if n_samples % max_sample_size == 0
-- 
2.43.0


From afbb3876e0b321e83a9e4a2c8e88940bb2cb02e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:07 +0000
Subject: [PATCH 25/52] fix: scale weights to an integer total exactly for
 large totals

Shares computed in floating point lose the last digits of totals beyond 2**53,
and the result then did not sum to the requested total.
---
 src/orquestra/quantum/utils.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/orquestra/quantum/utils.py b/src/orquestra/quantum/utils.py
index d87255c..aa585be 100644
--- a/src/orquestra/quantum/utils.py
+++ b/src/orquestra/quantum/utils.py
@@ -7,7 +7,10 @@ import json
 import os
 import sys
 from contextlib import contextmanager
+from fractions import Fraction
 from functools import lru_cache
+from math import floor
+from numbers import Rational
 from typing import Any, Dict, Iterable, List, Optional, Tuple, Union
 
 import numpy as np
@@ -499,20 +502,22 @@ def scale_and_discretize(values: Iterable[float], total: int) -> List[int]:
             of the input list elements.
     """
 
-    # Note: combining the two lines below breaks type checking; see mypy #6040
-    value_sum = sum(values)
-    scale_factor = total / value_sum
-
-    result = [np.floor(value * scale_factor) for value in values]
-    remainders = [
-        value * scale_factor - np.floor(value * scale_factor) for value in values
+    # Exact rational arithmetic: with floats, large totals lose their last digits.
+    exact_values = [
+        Fraction(value if isinstance(value, Rational) else float(value))
+        for value in values
     ]
-    indexes_sorted_by_remainder = np.argsort(remainders)[::-1]
-    for index in range(int(round(total - sum(result)))):
+    scale_factor = Fraction(total) / sum(exact_values)
+
+    scaled_values = [value * scale_factor for value in exact_values]
+    result = [floor(value) for value in scaled_values]
+    remainders = [value - floor(value) for value in scaled_values]
+    indexes_sorted_by_remainder = sorted(
+        range(len(remainders)), key=remainders.__getitem__
+    )[::-1]
+    for index in range(int(total - sum(result))):
         result[indexes_sorted_by_remainder[index]] += 1
 
-    result = [int(value) for value in result]
-
     assert sum(result) == total, "The scaled list does not sum to the desired total."
 
     return result
-- 
2.43.0


From b64794406d61a60468171bfeb9ca4725c5d5bb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:13 +0000
Subject: [PATCH 26/52] fix: bitstrings sampled from a circuit on no qubits
 have no bits

The single outcome of a zero-qubit state was reported as one bit long.
---
 src/orquestra/quantum/wavefunction.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/wavefunction.py b/src/orquestra/quantum/wavefunction.py
index 2f4ec61..b24e543 100644
--- a/src/orquestra/quantum/wavefunction.py
+++ b/src/orquestra/quantum/wavefunction.py
@@ -207,8 +207,10 @@ class Wavefunction:
         return np.abs(self.amplitudes) ** 2
 
     def get_outcome_probs(self) -> Dict[str, float]:
+        # the slice matters for a state of no qubits, whose only outcome is empty
         values = [
-            format(i, "0" + str(self.n_qubits) + "b")[::-1] for i in range(len(self))
+            format(i, "0" + str(self.n_qubits) + "b")[::-1][: self.n_qubits]
+            for i in range(len(self))
         ]
 
         probs = self.get_probabilities()
-- 
2.43.0


From 97221003da3b5f7f75a2ef2b4321069b239ca3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:16 +0000
Subject: [PATCH 27/52] fix: validate an integral number of samples also for an
 empty batch

The check only looked at the per-circuit list, so an empty batch with a
non-positive number of samples was accepted, and a numpy integer was not
recognised as a number of samples at all.
---
 src/orquestra/quantum/api/circuit_runner.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/api/circuit_runner.py b/src/orquestra/quantum/api/circuit_runner.py
index f12edeb..5b254cb 100644
--- a/src/orquestra/quantum/api/circuit_runner.py
+++ b/src/orquestra/quantum/api/circuit_runner.py
@@ -3,6 +3,7 @@
 ################################################################################
 """Definition of CircuitRunner protocol and ABC for implementing it."""
 from abc import ABC, abstractmethod
+from numbers import Integral
 from typing import List, Optional, Protocol, Sequence, Union
 
 from ..circuits import Circuit
@@ -160,9 +161,11 @@ class BaseCircuitRunner(ABC, CircuitRunner):
             dedicated way of running circuits' batch, `_run_batch_and_measure`
             method.
         """
+        if isinstance(n_samples, Integral) and n_samples <= 0:
+            raise ValueError(f"Number of samples has to be positive, got {n_samples}")
         samples_per_circuit = (
             len(circuits_batch) * [n_samples]
-            if isinstance(n_samples, int)
+            if isinstance(n_samples, Integral)
             else n_samples
         )
         if len(samples_per_circuit) != len(circuits_batch):
-- 
2.43.0


From f18be51fb5671a72fe950382449169f65863effe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:16 +0000
Subject: [PATCH 28/52] fix: tracking runner does not count batches the wrapped
 runner rejects

---
 src/orquestra/quantum/runners/trackers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/runners/trackers.py b/src/orquestra/quantum/runners/trackers.py
index fde4d58..58a99bc 100644
--- a/src/orquestra/quantum/runners/trackers.py
+++ b/src/orquestra/quantum/runners/trackers.py
@@ -57,9 +57,9 @@ class MeasurementTrackingBackend(BaseCircuitRunner):
             circuits: The circuits to execute.
             n_samples: The number of samples to collect for each circuit.
         """
+        measurements = self.inner_backend.run_batch_and_measure(circuits, n_samples)
         self._n_circuits_executed += len(circuits)
         self._n_jobs_executed += 1
-        measurements = self.inner_backend.run_batch_and_measure(circuits, n_samples)
         for circuit, measurement in zip(circuits, measurements):
             self.record_raw_measurement_data(circuit, measurement)
         self.save_raw_data()
-- 
2.43.0


From 1245d39b25951f5372336bc137c80d3e46bb7a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:24 +0000
Subject: [PATCH 29/52] fix: tracking runner counts the circuits it runs for
 outcome distributions

---
 src/orquestra/quantum/runners/trackers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/orquestra/quantum/runners/trackers.py b/src/orquestra/quantum/runners/trackers.py
index 58a99bc..e7233cc 100644
--- a/src/orquestra/quantum/runners/trackers.py
+++ b/src/orquestra/quantum/runners/trackers.py
@@ -103,6 +103,8 @@ class MeasurementTrackingBackend(BaseCircuitRunner):
         distribution = self.inner_backend.get_measurement_outcome_distribution(
             circuit, n_samples
         )
+        self._n_circuits_executed += 1
+        self._n_jobs_executed += 1
         self.raw_data.append(
             {
                 "data_type": "measurement outcome distribution",
-- 
2.43.0


From 4c71cc11926d87675e139d03c0fff05876f3e84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:12 +0000
Subject: [PATCH 30/52] fix: estimate of a constant operator includes all its
 terms

Only the first term of a constant sum was reported and the empty sum raised.
---
 src/orquestra/quantum/estimation/_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/estimation/_estimation.py b/src/orquestra/quantum/estimation/_estimation.py
index 4afc894..81cac16 100644
--- a/src/orquestra/quantum/estimation/_estimation.py
+++ b/src/orquestra/quantum/estimation/_estimation.py
@@ -102,7 +102,7 @@ def evaluate_non_measured_estimation_tasks(
     for task in estimation_tasks:
         coefficient: complex
         if task.operator.is_constant:
-            coefficient = task.operator.terms[0].coefficient
+            coefficient = sum(term.coefficient for term in task.operator.terms)
         else:
             if task.number_of_shots is not None and task.number_of_shots > 0:
                 raise RuntimeError(
-- 
2.43.0


From cfcda24d9330128d018ba0fe9d5c3e56fbbcc489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:07 +0000
Subject: [PATCH 31/52] fix: evolution rejects every term with a complex
 coefficient

---
 src/orquestra/quantum/evolution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/orquestra/quantum/evolution.py b/src/orquestra/quantum/evolution.py
index 911386a..097d5e5 100644
--- a/src/orquestra/quantum/evolution.py
+++ b/src/orquestra/quantum/evolution.py
@@ -62,13 +62,13 @@ def time_evolution_for_term(term: PauliTerm, time: Union[float, sympy.Expr]) ->
 
     circuit = Circuit()
 
+    if abs(term.coefficient.imag) > 1e-9:
+        raise ValueError("Coefficients of terms must be real for Trotterization.")
+
     # If constant term, return empty circuit.
     if term.is_constant:
         return circuit
 
-    if term.coefficient.imag > 1e-9:
-        raise ValueError("Coefficients of terms must be real for Trotterization.")
-
     for i, qubit_id in enumerate(qubit_indices):
         if term[qubit_id] == "X":
             basis_change += H(qubit_id)
-- 
2.43.0


From 645cf6353d12b12eb95d38436a412a612177ab7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:07 +0000
Subject: [PATCH 32/52] fix: derivative circuits of several steps evolve by
 time / n_steps in each step

---
 src/orquestra/quantum/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/evolution.py b/src/orquestra/quantum/evolution.py
index 097d5e5..3b2c388 100644
--- a/src/orquestra/quantum/evolution.py
+++ b/src/orquestra/quantum/evolution.py
@@ -140,7 +140,7 @@ def time_evolution_derivatives(
         final_factors = []
 
         repeated_circuit = time_evolution(
-            hamiltonian, time, method="Trotter", n_steps=1
+            hamiltonian, time / n_steps, method="Trotter", n_steps=1
         )
 
         for position in range(n_steps):
-- 
2.43.0


From 39d2a730dd08eff545e3ddad641ef752178ea2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:07 +0000
Subject: [PATCH 33/52] fix: derivative of evolution under terms with zero
 coefficients

---
 src/orquestra/quantum/evolution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/evolution.py b/src/orquestra/quantum/evolution.py
index 3b2c388..5d7c9f0 100644
--- a/src/orquestra/quantum/evolution.py
+++ b/src/orquestra/quantum/evolution.py
@@ -125,7 +125,8 @@ def time_evolution_derivatives(
                 )
             r = term_1.coefficient.real / n_steps
             output_factors.append(r * factor)
-            shift = factor * (np.pi / (4.0 * r))
+            # a term with zero coefficient does not evolve, so there is nothing to shift
+            shift = factor * (np.pi / (4.0 * r)) if r != 0 else 0.0
 
             for j, term_2 in enumerate(terms):
                 output += time_evolution_for_term(
-- 
2.43.0


From 5f53ef89107d37c0320b426ecd329e372ed5acc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:28 +0000
Subject: [PATCH 34/52] fix: computing a subdistribution leaves its source
 intact

---
 .../distributions/_measurement_outcome_distribution.py     | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
index 2340da2..5da8450 100644
--- a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
+++ b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
@@ -1,7 +1,6 @@
 ################################################################################
 # © Copyright 2022 Zapata Computing Inc.
 ################################################################################
-import copy
 import json
 import math
 import sys
@@ -100,11 +99,9 @@ class MeasurementOutcomeDistribution:
         if len(active_qubits) != len(set(active_qubits)):
             raise ValueError("There exist duplicate indices in the active qubit list")
 
-        for key in copy.deepcopy(list(self.distribution_dict.keys())):
+        for key, value in self.distribution_dict.items():
             new_key = "".join(str(key[i]) for i in active_qubits)
-            new_counts[new_key] = self.distribution_dict.pop(key) + new_counts.get(
-                new_key, 0
-            )
+            new_counts[new_key] = value + new_counts.get(new_key, 0)
         normalize = is_normalized(self.distribution_dict)
         return MeasurementOutcomeDistribution(new_counts, normalize=normalize)
 
-- 
2.43.0


From 8b6ae6ca1af33b15b6006ed604946c616fd7f396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:28 +0000
Subject: [PATCH 35/52] fix: subdistribution keeps outcomes of more than one
 digit apart

---
 .../quantum/distributions/_measurement_outcome_distribution.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
index 5da8450..7faf5a1 100644
--- a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
+++ b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
@@ -100,7 +100,7 @@ class MeasurementOutcomeDistribution:
             raise ValueError("There exist duplicate indices in the active qubit list")
 
         for key, value in self.distribution_dict.items():
-            new_key = "".join(str(key[i]) for i in active_qubits)
+            new_key = tuple(key[i] for i in active_qubits)
             new_counts[new_key] = value + new_counts.get(new_key, 0)
         normalize = is_normalized(self.distribution_dict)
         return MeasurementOutcomeDistribution(new_counts, normalize=normalize)
-- 
2.43.0


From 2f6d04fd870b0ef8e47b215947734131bfe454ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:29 +0000
Subject: [PATCH 36/52] fix: load distributions from any path they can be saved
 to

---
 .../_measurement_outcome_distribution.py      | 27 +++++++++----------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
index 7faf5a1..0221d1e 100644
--- a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
+++ b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
@@ -10,7 +10,8 @@ from typing import Any, Callable, Dict, List, Tuple, Union
 
 import numpy as np
 
-from ..typing import AnyPath
+from ..typing import AnyPath, LoadSource
+from ..utils import ensure_open
 
 
 class MeasurementOutcomeDistribution:
@@ -294,20 +295,19 @@ def save_measurement_outcome_distributions(
         f.write(json.dumps(dictionary, indent=2))
 
 
-def load_measurement_outcome_distribution(file: str) -> MeasurementOutcomeDistribution:
+def load_measurement_outcome_distribution(
+    file: LoadSource,
+) -> MeasurementOutcomeDistribution:
     """Load a measurement outcome distribution from a json file.
 
     Arguments:
-        file (str): the name of the file
+        file: the name of the file, or a file-like object
 
     Returns:
         object: a python object loaded from the measurement_outcome_distribution
     """
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     try:
         distribution = MeasurementOutcomeDistribution(data["bitstring_distribution"])
@@ -319,22 +319,19 @@ def load_measurement_outcome_distribution(file: str) -> MeasurementOutcomeDistri
 
 
 def load_measurement_outcome_distributions(
-    file: str,
+    file: LoadSource,
 ) -> List[MeasurementOutcomeDistribution]:
     """Load a list of measurement_outcome_distribution from a json file.
 
     Arguments:
-        file: the name of the file.
+        file: the name of the file, or a file-like object.
 
     Returns:
         A list of measurement outcome distributions loaded
          from the measurement_outcome_distribution
     """
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     distribution_list = []
     for i in range(len(data["measurement_outcome_distribution"])):
-- 
2.43.0


From cf0b43c7123a70b3d0eb82bafb444414af36a2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:44 +0000
Subject: [PATCH 37/52] fix: save and load distributions of a single
 multi-digit outcome

---
 .../_measurement_outcome_distribution.py             | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
index 0221d1e..c28a1ad 100644
--- a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
+++ b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
@@ -3,6 +3,7 @@
 ################################################################################
 import json
 import math
+import re
 import sys
 import warnings
 from itertools import product
@@ -113,7 +114,9 @@ def preprocess_distibution_dict(
     res_dict: Dict[Union[str, Tuple[int, ...]], float] = {}
     for key, value in input_dict.items():
         if isinstance(key, str):
-            res_dict[tuple(map(int, key if "," not in key else key.split(",")))] = value
+            # A trailing comma marks a single multi-digit integer, e.g. "12,"
+            digits = key if "," not in key else re.sub(",$", "", key).split(",")
+            res_dict[tuple(map(int, digits))] = value
         elif isinstance(key, tuple):
             res_dict[key] = value
         else:
@@ -243,8 +246,13 @@ def normalize_measurement_outcome_distribution(
 
 
 def change_tuple_dict_keys_to_comma_separated_integers(dict):
+    def _to_string(key: tuple) -> str:
+        integers = ",".join(map(str, key))
+        # Without a comma, "12" would be read back as the outcome (1, 2)
+        return integers + "," if len(key) == 1 and len(integers) > 1 else integers
+
     return {
-        ",".join(map(str, key)) if isinstance(key, tuple) else key: value
+        _to_string(key) if isinstance(key, tuple) else key: value
         for key, value in dict.items()
     }
 
-- 
2.43.0


From d2cf83512a5931b461a977e48f27db52c8a9bfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:44 +0000
Subject: [PATCH 38/52] fix: refuse weights whose total overflows instead of
 zeroing them

---
 .../distributions/_measurement_outcome_distribution.py      | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
index c28a1ad..acd6d5e 100644
--- a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
+++ b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
@@ -228,7 +228,11 @@ def normalize_measurement_outcome_distribution(
             are floats.
     """
     norm = sum(measurement_outcome_distribution.values())
-    if norm == 0:
+    if math.isinf(norm):
+        raise ValueError(
+            "Normalization of MeasurementOutcomeDistribution FAILED: too large values."
+        )
+    elif norm == 0:
         raise ValueError(
             "Normalization of MeasurementOutcomeDistribution FAILED:"
             " input dict is empty (all zero values)."
-- 
2.43.0


From ac2bc413e4fb23077c2f07248681658215e2ba9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:07 +0000
Subject: [PATCH 39/52] fix: refuse distributions giving one outcome twice
 instead of dropping a weight

---
 .../distributions/_measurement_outcome_distribution.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
index acd6d5e..2d5cb64 100644
--- a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
+++ b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
@@ -116,9 +116,9 @@ def preprocess_distibution_dict(
         if isinstance(key, str):
             # A trailing comma marks a single multi-digit integer, e.g. "12,"
             digits = key if "," not in key else re.sub(",$", "", key).split(",")
-            res_dict[tuple(map(int, digits))] = value
+            new_key = tuple(map(int, digits))
         elif isinstance(key, tuple):
-            res_dict[key] = value
+            new_key = key
         else:
             raise RuntimeError(
                 "Initialization of MeasurementOutcomeDistribution object FAILED:"
@@ -126,6 +126,12 @@ def preprocess_distibution_dict(
                 "Check that the keys are either same-length tuples, binary strings "
                 "or comma-separated non-negative integer strings."
             )
+        if new_key in res_dict:
+            raise RuntimeError(
+                "Initialization of MeasurementOutcomeDistribution object FAILED:"
+                f" the outcome {new_key} is given more than once."
+            )
+        res_dict[new_key] = value
 
     return res_dict
 
-- 
2.43.0


From b442eba9e66d24537a13277d81e0bc64ccd5eb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:08 +0000
Subject: [PATCH 40/52] fix: MMD of distributions on 32 qubits or more

---
 src/orquestra/quantum/distributions/mmd.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/orquestra/quantum/distributions/mmd.py b/src/orquestra/quantum/distributions/mmd.py
index 85e1630..02fa7c9 100644
--- a/src/orquestra/quantum/distributions/mmd.py
+++ b/src/orquestra/quantum/distributions/mmd.py
@@ -48,7 +48,8 @@ def compute_rbf_kernel(x_i: np.ndarray, y_j: np.ndarray, sigma: float) -> np.nda
     Returns:
         np.ndarray: The gaussian kernel matrix.
     """
-    exponent = np.abs(x_i[:, None] - y_j[None, :]) ** 2
+    # Outcomes of wide registers have squared distances beyond the range of integers
+    exponent = np.abs(x_i[:, None] - y_j[None, :]).astype(float) ** 2
     try:
         gamma = 1.0 / (2 * sigma)
     except ZeroDivisionError as error:
@@ -75,7 +76,8 @@ def compute_multi_rbf_kernel(
     Returns:
         np.ndarray: The gaussian kernel matrix.
     """
-    exponent = np.abs(x_i[:, None] - y_j[None, :]) ** 2
+    # Outcomes of wide registers have squared distances beyond the range of integers
+    exponent = np.abs(x_i[:, None] - y_j[None, :]).astype(float) ** 2
     kernel_matrix = np.zeros(exponent.shape)
     for sigma in sigmas:
         try:
@@ -123,8 +125,8 @@ def compute_mmd(
         )
 
     basis = np.asarray(
-        [int("".join(map(str, item)), 2) for item in all_keys]
-    )  # Digit Tuple to int
+        [int("".join(map(str, item)), 2) for item in all_keys], dtype=object
+    )  # Digit Tuple to int (of arbitrary size)
     if not hasattr(sigma, "__len__"):
         kernel_matrix = compute_rbf_kernel(basis, basis, sigma)
     else:
-- 
2.43.0


From 83a7bd9778890787ed6acc05183758822861f6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:08 +0000
Subject: [PATCH 41/52] fix: MMD of distributions of outcomes other than bits

---
 src/orquestra/quantum/distributions/mmd.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/distributions/mmd.py b/src/orquestra/quantum/distributions/mmd.py
index 02fa7c9..2e3fe0d 100644
--- a/src/orquestra/quantum/distributions/mmd.py
+++ b/src/orquestra/quantum/distributions/mmd.py
@@ -26,6 +26,7 @@
 # OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
 # SOFTWARE.
 
+from functools import reduce
 from typing import TYPE_CHECKING, Dict, Sequence
 
 import numpy as np
@@ -124,8 +125,11 @@ def compute_mmd(
             measured_distribution.distribution_dict.get(bitstring, 0)
         )
 
+    # Bits are read as digits in base 2, other outcomes need a larger base
+    base = max([2, *(int(digit) + 1 for item in all_keys for digit in item)])
     basis = np.asarray(
-        [int("".join(map(str, item)), 2) for item in all_keys], dtype=object
+        [reduce(lambda n, digit: n * base + int(digit), item, 0) for item in all_keys],
+        dtype=object,
     )  # Digit Tuple to int (of arbitrary size)
     if not hasattr(sigma, "__len__"):
         kernel_matrix = compute_rbf_kernel(basis, basis, sigma)
-- 
2.43.0


From 4ad5fb3ebdf8d2201c7d6c86be84ebb7388d59dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:37 +0000
Subject: [PATCH 42/52] fix: decomposing a circuit keeps its number of qubits

---
 .../quantum/decompositions/_orquestra_decompositions.py      | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/decompositions/_orquestra_decompositions.py b/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
index 88f626a..bdf60e9 100644
--- a/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
+++ b/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
@@ -46,4 +46,7 @@ class U3GateToRotation(DecompositionRule[GateOperation]):
 def decompose_orquestra_circuit(
     circuit: Circuit, decomposition_rules: Sequence[DecompositionRule[GateOperation]]
 ):
-    return Circuit(decompose_operations(circuit.operations, decomposition_rules))
+    return Circuit(
+        decompose_operations(circuit.operations, decomposition_rules),
+        n_qubits=circuit.n_qubits,
+    )
-- 
2.43.0


From bffe5f0df07b6ebc51319617de051abf27a5bc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:37 +0000
Subject: [PATCH 43/52] fix: decompose circuits containing operations that are
 not gates

---
 .../quantum/decompositions/_orquestra_decompositions.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/decompositions/_orquestra_decompositions.py b/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
index bdf60e9..4016d54 100644
--- a/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
+++ b/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
@@ -17,7 +17,7 @@ class U3GateToRotation(DecompositionRule[GateOperation]):
 
     def predicate(self, operation: GateOperation) -> bool:
         # Only decompose U3 and its controlled version
-        return (
+        return isinstance(operation, GateOperation) and (
             operation.gate.name == "U3"
             or isinstance(operation.gate, ControlledGate)
             and operation.gate.wrapped_gate.name == "U3"
-- 
2.43.0


From 016826c5a41a825b52ed71d1724d88e8066744e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:26 +0000
Subject: [PATCH 44/52] fix: refuse user-defined functions named like supported
 operations

---
 .../quantum/circuits/symbolic/sympy_expressions.py        | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/symbolic/sympy_expressions.py b/src/orquestra/quantum/circuits/symbolic/sympy_expressions.py
index 3ae36bc..d66cddc 100644
--- a/src/orquestra/quantum/circuits/symbolic/sympy_expressions.py
+++ b/src/orquestra/quantum/circuits/symbolic/sympy_expressions.py
@@ -119,7 +119,13 @@ def power_from_sympy_pow(power: sympy.Pow):
 
 @expression_from_sympy.register
 def function_call_from_sympy_function(function: sympy.Function):
-    return FunctionCall(str(function.func), expression_from_sympy(function.args))
+    name = str(function.func)
+    # A user-defined function might be called e.g. "add" or "cos" too
+    if SYMPY_DIALECT.known_functions.get(name, function.func) is not function.func:
+        raise NotImplementedError(
+            f"Function {function} is currently not supported, its name is reserved."
+        )
+    return FunctionCall(name, expression_from_sympy(function.args))
 
 
 @expression_from_sympy.register
-- 
2.43.0


From fdcfddf896b7e07207c995e22a62f190c02880fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:26 +0000
Subject: [PATCH 45/52] fix: natural keys of symbol names containing digits
 that are not decimal

---
 src/orquestra/quantum/circuits/symbolic/_sorting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/symbolic/_sorting.py b/src/orquestra/quantum/circuits/symbolic/_sorting.py
index 65b461a..af5d757 100644
--- a/src/orquestra/quantum/circuits/symbolic/_sorting.py
+++ b/src/orquestra/quantum/circuits/symbolic/_sorting.py
@@ -6,7 +6,7 @@ import re
 
 
 def _convert_string_to_int_if_possible(text):
-    return int(text) if text.isdigit() else text
+    return int(text) if text.isdecimal() else text
 
 
 def natural_key(symbol):
-- 
2.43.0


From 91ee32af404305d64e86d69623f2383ccd0f1822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:26 +0000
Subject: [PATCH 46/52] fix: refuse to translate unsupported expressions
 instead of returning None

---
 src/orquestra/quantum/circuits/symbolic/translations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/symbolic/translations.py b/src/orquestra/quantum/circuits/symbolic/translations.py
index e60667f..d72a84a 100644
--- a/src/orquestra/quantum/circuits/symbolic/translations.py
+++ b/src/orquestra/quantum/circuits/symbolic/translations.py
@@ -13,7 +13,9 @@ from .expressions import Expression, ExpressionDialect, FunctionCall, Symbol
 def translate_expression(
     expression: Union[Expression, Tuple[Expression, ...]], dialect: ExpressionDialect
 ):
-    pass
+    raise NotImplementedError(
+        f"Expression {expression} of type {type(expression)} is currently not supported"
+    )
 
 
 @translate_expression.register
-- 
2.43.0


From 75212e008fa2fdbc5a6b2fbd8cab6c951685554d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:00 +0000
Subject: [PATCH 47/52] fix: accept two spellings of one outcome again

Callers (and the test suite) rely on the later spelling replacing the
earlier one, so refusing them was not a safe repair.
---
 .../distributions/_measurement_outcome_distribution.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
index 2d5cb64..acd6d5e 100644
--- a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
+++ b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
@@ -116,9 +116,9 @@ def preprocess_distibution_dict(
         if isinstance(key, str):
             # A trailing comma marks a single multi-digit integer, e.g. "12,"
             digits = key if "," not in key else re.sub(",$", "", key).split(",")
-            new_key = tuple(map(int, digits))
+            res_dict[tuple(map(int, digits))] = value
         elif isinstance(key, tuple):
-            new_key = key
+            res_dict[key] = value
         else:
             raise RuntimeError(
                 "Initialization of MeasurementOutcomeDistribution object FAILED:"
@@ -126,12 +126,6 @@ def preprocess_distibution_dict(
                 "Check that the keys are either same-length tuples, binary strings "
                 "or comma-separated non-negative integer strings."
             )
-        if new_key in res_dict:
-            raise RuntimeError(
-                "Initialization of MeasurementOutcomeDistribution object FAILED:"
-                f" the outcome {new_key} is given more than once."
-            )
-        res_dict[new_key] = value
 
     return res_dict
 
-- 
2.43.0


From a45ec5502a00d53d1b7a90b77ed68328f2f304e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:19 +0000
Subject: [PATCH 48/52] fix: decompose only the library's own U3 gate

---
 .../decompositions/_orquestra_decompositions.py      | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/orquestra/quantum/decompositions/_orquestra_decompositions.py b/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
index 4016d54..a5c9170 100644
--- a/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
+++ b/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
@@ -5,10 +5,16 @@ from typing import Iterable, Sequence
 
 from ..circuits._builtin_gates import RY, RZ
 from ..circuits._circuit import Circuit
-from ..circuits._gates import ControlledGate, GateOperation
+from ..circuits._gates import ControlledGate, Gate, GateOperation, MatrixFactoryGate
+from ..circuits._matrices import u3_matrix
 from ..decompositions._decomposition import DecompositionRule, decompose_operations
 
 
+def _is_u3(gate: Gate) -> bool:
+    # The name alone is not enough, a custom gate might be called U3 too
+    return isinstance(gate, MatrixFactoryGate) and gate.matrix_factory is u3_matrix
+
+
 class U3GateToRotation(DecompositionRule[GateOperation]):
     """Decomposition of Orquestra's U3 gate.
 
@@ -18,9 +24,9 @@ class U3GateToRotation(DecompositionRule[GateOperation]):
     def predicate(self, operation: GateOperation) -> bool:
         # Only decompose U3 and its controlled version
         return isinstance(operation, GateOperation) and (
-            operation.gate.name == "U3"
+            _is_u3(operation.gate)
             or isinstance(operation.gate, ControlledGate)
-            and operation.gate.wrapped_gate.name == "U3"
+            and _is_u3(operation.gate.wrapped_gate)
         )
 
     def production(self, operation: GateOperation) -> Iterable[GateOperation]:
-- 
2.43.0


From 2fe981d8a12a7e2e32d8f74e2bc26c9fddc72f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:51 +0000
Subject: [PATCH 49/52] fix: scale numpy integer weights without overflow

---
 src/orquestra/quantum/utils.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/orquestra/quantum/utils.py b/src/orquestra/quantum/utils.py
index aa585be..f160d9e 100644
--- a/src/orquestra/quantum/utils.py
+++ b/src/orquestra/quantum/utils.py
@@ -10,7 +10,7 @@ from contextlib import contextmanager
 from fractions import Fraction
 from functools import lru_cache
 from math import floor
-from numbers import Rational
+from numbers import Integral, Rational
 from typing import Any, Dict, Iterable, List, Optional, Tuple, Union
 
 import numpy as np
@@ -488,6 +488,13 @@ def load_nmeas_estimate(
     return K_coeff, nterms, frame_meas
 
 
+def _to_fraction(value: float) -> Fraction:
+    # numpy integers have to become Python ones first, lest the arithmetic overflows
+    if isinstance(value, Integral):
+        return Fraction(int(value))
+    return Fraction(value if isinstance(value, Rational) else float(value))
+
+
 def scale_and_discretize(values: Iterable[float], total: int) -> List[int]:
     """Convert a list of floats to a list of integers such that the total equals
     a given value and the ratios of elements are approximately preserved.
@@ -503,11 +510,8 @@ def scale_and_discretize(values: Iterable[float], total: int) -> List[int]:
     """
 
     # Exact rational arithmetic: with floats, large totals lose their last digits.
-    exact_values = [
-        Fraction(value if isinstance(value, Rational) else float(value))
-        for value in values
-    ]
-    scale_factor = Fraction(total) / sum(exact_values)
+    exact_values = [_to_fraction(value) for value in values]
+    scale_factor = _to_fraction(total) / sum(exact_values)
 
     scaled_values = [value * scale_factor for value in exact_values]
     result = [floor(value) for value in scaled_values]
-- 
2.43.0


From 61f9f7edcb4ec0d738864968633ebbf350d5b1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:51 +0000
Subject: [PATCH 50/52] fix: serialise circuits and operators that use numpy
 integers

---
 src/orquestra/quantum/circuits/_serde.py | 14 ++++++++++----
 src/orquestra/quantum/operators/_io.py   |  3 ++-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/orquestra/quantum/circuits/_serde.py b/src/orquestra/quantum/circuits/_serde.py
index e2d2120..cf6f6a1 100644
--- a/src/orquestra/quantum/circuits/_serde.py
+++ b/src/orquestra/quantum/circuits/_serde.py
@@ -6,6 +6,7 @@ import re
 from functools import singledispatch
 from typing import Iterable, List, Mapping
 
+import numpy as np
 import sympy
 
 from ..typing import DumpTarget, LoadSource
@@ -61,6 +62,11 @@ def _map_eager(fn, iterable: Iterable):
     return list(map(fn, iterable))
 
 
+def _to_native_number(number):
+    # numpy's numbers, unlike Python's, cannot be written to JSON
+    return number.item() if isinstance(number, np.generic) else number
+
+
 # ---------- serialization ----------
 
 
@@ -80,7 +86,7 @@ def _circuit_to_dict(circuit: _circuit.Circuit):
     """
     custom_gate_definitions = circuit.collect_custom_gate_definitions()
     return {
-        "n_qubits": circuit.n_qubits,
+        "n_qubits": _to_native_number(circuit.n_qubits),
         **(
             {
                 "operations": _map_eager(to_dict, circuit.operations),
@@ -115,7 +121,7 @@ def _gate_operation_to_dict(gate_operation: _gates.GateOperation):
     return {
         "type": "gate_operation",
         "gate": to_dict(gate_operation.gate),
-        "qubit_indices": list(gate_operation.qubit_indices),
+        "qubit_indices": _map_eager(_to_native_number, gate_operation.qubit_indices),
     }
 
 
@@ -146,7 +152,7 @@ def _controlled_gate_to_dict(gate: _gates.ControlledGate):
     return {
         "name": gate.name,
         "wrapped_gate": to_dict(gate.wrapped_gate),
-        "num_control_qubits": gate.num_control_qubits,
+        "num_control_qubits": _to_native_number(gate.num_control_qubits),
     }
 
 
@@ -171,7 +177,7 @@ def _power_gate_to_dict(gate: _gates.Power):
     return {
         "name": gate.name,
         "wrapped_gate": to_dict(gate.wrapped_gate),
-        "exponent": gate.exponent,
+        "exponent": _to_native_number(gate.exponent),
     }
 
 
diff --git a/src/orquestra/quantum/operators/_io.py b/src/orquestra/quantum/operators/_io.py
index ac162e5..519b29a 100644
--- a/src/orquestra/quantum/operators/_io.py
+++ b/src/orquestra/quantum/operators/_io.py
@@ -42,7 +42,8 @@ def convert_op_to_dict(op: PauliRepresentation) -> Dict[str, Any]:
     dictionary["terms"] = []
     for term in op.terms:
         term_dict: Dict[str, Any] = {
-            "pauli_ops": [{"qubit": op[0], "op": op[1]} for op in term.operations]
+            # qubits given as numpy integers could not be written to JSON
+            "pauli_ops": [{"qubit": int(op[0]), "op": op[1]} for op in term.operations]
         }
 
         if isinstance(term.coefficient, complex):
-- 
2.43.0


From 345a21e45b8bedefe504dbc274d96dcb2152363e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:40 +0000
Subject: [PATCH 51/52] fix: parse Pauli sums whose coefficients print with a
 positive exponent

---
 src/orquestra/quantum/operators/_pauli_operators.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/operators/_pauli_operators.py b/src/orquestra/quantum/operators/_pauli_operators.py
index bc7ec43..194fe89 100644
--- a/src/orquestra/quantum/operators/_pauli_operators.py
+++ b/src/orquestra/quantum/operators/_pauli_operators.py
@@ -401,7 +401,11 @@ class PauliTerm:
 class PauliSum:
     def __init__(self, terms: Optional[Union[str, Sequence[PauliTerm]]] = None):
         if isinstance(terms, str):
-            terms = [PauliTerm(s.strip()) for s in re.split(r"\+(?![^(]*\))", terms)]
+            # A plus sign in an exponent, e.g. in 1e+20, doesn't separate terms
+            terms = [
+                PauliTerm(s.strip())
+                for s in re.split(r"(?<![eE])\+(?![^(]*\))", terms)
+            ]
         if terms is None:
             # If no terms is given, the PauliSum has a value of zero.
             terms = []
-- 
2.43.0


From 71e8e2fd329fcff0a4c26acfc6d7cb3dfa6c0091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:55 +0000
Subject: [PATCH 52/52] fix: deserialise circuits that use a custom gate next
 to the library's gate of the same name

---
 src/orquestra/quantum/circuits/_serde.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/circuits/_serde.py b/src/orquestra/quantum/circuits/_serde.py
index cf6f6a1..7a17455 100644
--- a/src/orquestra/quantum/circuits/_serde.py
+++ b/src/orquestra/quantum/circuits/_serde.py
@@ -67,6 +67,14 @@ def _to_native_number(number):
     return number.item() if isinstance(number, np.generic) else number
 
 
+def _is_name_taken_by_library(name: str) -> bool:
+    try:
+        builtin_gate_by_name(name)
+    except KeyError:
+        return False
+    return True
+
+
 # ---------- serialization ----------
 
 
@@ -135,6 +143,13 @@ def _basic_gate_to_dict(gate: _gates.MatrixFactoryGate):
             if gate.free_symbols
             else {}
         ),
+        # Tells a custom gate from the library's gate of the same name
+        **(
+            {"custom": True}
+            if isinstance(gate.matrix_factory, _gates.CustomGateMatrixFactory)
+            and _is_name_taken_by_library(gate.name)
+            else {}
+        ),
     }
 
 
@@ -210,8 +225,10 @@ def _gate_from_dict(dict_, custom_gate_defs):
 
     Pass it a JSON dictionary and it'll try its best to return you a proper gate
     instance, regardless of the given gate type."""
-    if "wrapped_gate" not in dict_ and any(
-        gate_def.gate_name == dict_["name"] for gate_def in custom_gate_defs
+    if (
+        "wrapped_gate" not in dict_
+        and any(gate_def.gate_name == dict_["name"] for gate_def in custom_gate_defs)
+        and (dict_.get("custom") or not _is_name_taken_by_library(dict_["name"]))
     ):
         # Custom gates' names might coincide with the ones defined by this library.
         return _custom_gate_instance_from_dict(dict_, custom_gate_defs)
-- 
2.43.0


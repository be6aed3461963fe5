"""C20: value-returning operations never modify their arguments."""
import dataclasses
import itertools
import os
import random

import numpy as np
import scipy.sparse
import sympy

from orquestra.quantum import circuits as oc
from orquestra.quantum import distributions as od
from orquestra.quantum import measurements as om
from orquestra.quantum import operators as oo
from orquestra.quantum import utils as ou
from orquestra.quantum import wavefunction as ow
from orquestra.quantum.api.estimation import EstimationTask
from orquestra.quantum.circuits import layouts as ol
from orquestra.quantum.decompositions import U3GateToRotation, decompose_orquestra_circuit
from orquestra.quantum.estimation import (
    calculate_exact_expectation_values,
    estimate_expectation_values_by_averaging,
    evaluate_estimation_circuits,
    evaluate_non_measured_estimation_tasks,
    split_estimation_tasks_to_measure,
)
from orquestra.quantum.evolution import time_evolution, time_evolution_derivatives, time_evolution_for_term
from orquestra.quantum.operators import _utils as opu
from orquestra.quantum.runners import SymbolicSimulator
from orquestra.quantum.wavefunction import Wavefunction

from . import gates as G
from .c11 import Scratch
from .core import Family, check, short

S = sympy.Symbol
ASSUMPTIONS = [
    "an object is what its public attributes, its printed form and the numbers in its matrices say; internal caches do not count",
    "arguments are compared exactly, the results of repeated calls to within 1e-9",
    "operations that answer at random are seeded before every call",
    "iterators handed over as arguments may be consumed",
    "not value-returning, hence outside: Measurements.add_counts, assignment into a wavefunction; and, because the repository's "
    "own tests require them to work in place, normalize_measurement_outcome_distribution (on a plain dict) and expectation_values_to_real",
]

# ---- snapshots -----------------------------------------------------------------------------


def gate_snap(g):
    if isinstance(g, oc.MatrixFactoryGate):
        f = g.matrix_factory
        inner = snap(f.gate_definition) if hasattr(f, "gate_definition") else (f.__module__, getattr(f, "__qualname__", repr(type(f))))
        return ("gate", g.name, inner, snap(g.params), g.num_qubits, g.is_hermitian, str(g))
    fields = [(f.name, snap(getattr(g, f.name))) for f in dataclasses.fields(g)]
    return ("gate", type(g).__name__, g.name, g.num_qubits, snap(g.params), fields, str(g))


def snap(o):
    """A deep, immutable picture of what can be observed about an object."""
    if o is None or isinstance(o, (bool, str, bytes)):
        return (type(o).__name__, o)
    if isinstance(o, ou.ValueEstimate):
        return ("ValueEstimate", float(o), snap(o.precision))
    if isinstance(o, (int, float, complex)) or isinstance(o, np.generic):
        return ("num", type(o).__name__, o.item() if isinstance(o, np.generic) else o)
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ("array", "O", o.shape, tuple(snap(x) for x in o.ravel().tolist()))
        return ("array", o.dtype.str, o.shape, tuple(o.ravel().tolist()))
    if scipy.sparse.issparse(o):
        return ("sparse", snap(o.toarray()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(snap(x) for x in o))
    if isinstance(o, dict):
        return ("dict", tuple((snap(k), snap(v)) for k, v in o.items()))
    if isinstance(o, (set, frozenset)):
        return ("set", tuple(sorted((snap(x) for x in o), key=repr)))
    if isinstance(o, sympy.MatrixBase):
        return ("Matrix", type(o).__name__, o.shape, tuple(snap(x) for x in o))
    if isinstance(o, sympy.Basic):
        return ("sympy", sympy.srepr(o))
    if isinstance(o, oc.Circuit):
        return ("Circuit", type(o).__name__, o.n_qubits, snap(list(o.operations)), repr(o))
    if isinstance(o, oc.GateOperation):
        return ("op", gate_snap(o.gate), snap(o.qubit_indices), str(o))
    if isinstance(o, oc.MultiPhaseOperation):
        return ("mp", snap(o.params))
    if isinstance(o, oc.ResetOperation):
        return ("reset", o.qubit_indices)
    if isinstance(o, oc.CustomGateDefinition):
        return ("def", o.gate_name, snap(o.matrix), snap(o.params_ordering))
    if isinstance(o, oo.PauliTerm):
        return ("term", snap(o.coefficient), tuple(sorted(o.operations)), repr(o), o.n_qubits, o.is_constant)
    if isinstance(o, oo.PauliSum):
        return ("sum", type(o.terms).__name__, tuple(snap(t) for t in o.terms), repr(o), o.n_qubits, o.is_constant)
    if isinstance(o, om.Measurements):
        return ("Measurements", snap(o.bitstrings))
    if isinstance(o, od.MeasurementOutcomeDistribution):
        return ("Distribution", snap(o.distribution_dict), repr(o))
    if isinstance(o, Wavefunction):
        v = [o[i] for i in range(len(o))]
        return ("Wavefunction", len(o), o.n_qubits, snap(v), snap(o.amplitudes), snap(o.free_symbols))
    if isinstance(o, om.ExpectationValues):
        return ("EV", snap(o.values), snap(o.correlations), snap(o.estimator_covariances))
    if isinstance(o, om.Parities):
        return ("Parities", snap(o.values), snap(o.correlations))
    if isinstance(o, EstimationTask):
        return ("task", snap(o.operator), snap(o.circuit), snap(o.number_of_shots))
    if isinstance(o, ol.CircuitLayers):
        return ("layers", snap(o.layers))
    if isinstance(o, ol.CircuitConnectivity):
        return ("connectivity", snap(o.connectivity))
    if dataclasses.is_dataclass(o) and hasattr(o, "num_qubits"):
        return gate_snap(o)
    if isinstance(o, U3GateToRotation) or o is NotImplemented:
        return ("other", type(o).__name__)
    if isinstance(o, Raised):
        return ("raised", o.name)
    if callable(o):
        return ("function", getattr(o, "__name__", type(o).__name__))
    raise AssertionError(f"no snapshot for {type(o)}")


def same(a, b):
    """Equality of pictures, numbers within rounding."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) == 3 and a[0] == "num" and len(b) == 3 and b[0] == "num":
            return a[1] == b[1] and number(a[2], b[2])
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (float, complex)) and isinstance(b, (float, complex)):
        return number(a, b)
    return type(a) is type(b) and a == b


def number(a, b):
    return a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * (1 + abs(a))


def differ(a, b, path=""):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if not same(x, y):
                return differ(x, y, f"{path}/{i}")
    return f"at {path}: {short(a, 200)} became {short(b, 200)}"


# ---- objects -------------------------------------------------------------------------------
x, th, ph = S("x"), S("theta"), S("phi")
P = oo.PauliTerm
C_SPECS = {
    "empty": {"n": None, "ops": []},
    "empty3": {"n": 3, "ops": []},
    "plain": {"n": None, "ops": [[["H"], [0]], [["CNOT"], [0, 1]], [["RX", 0.3], [1]]]},
    "wide": {"n": 4, "ops": [[["X"], [1]], [["SWAP"], [2, 0]], [["T"], [1]]]},
    "symbolic": {"n": None, "ops": [[["RX", "theta"], [0]], [["CPHASE", "theta*phi"], [1, 0]], [["RY", "x+1"], [0]], [["H"], [1]]]},
    "custom": {"n": None, "ops": [[["custom", "g1"], [0]], [["custom", "p1", "theta", 0.2], [1]], [["custom", "u2"], [1, 0]], [["custom", "p1", 0.1, "phi"], [0]]]},
    "nested": {"n": None, "ops": [[["c", 1, ["dag", ["SX"]]], [0, 1]], [["dag", ["RX", "theta"]], [0]], [["c", 1, ["U3", 0.1, "phi", 0.3]], [1, 0]]]},
    "power": {"n": None, "ops": [[["pow", 2, ["X"]], [0]], [["U3", 0.1, 0.2, 0.3], [0]], [["pow", 0.5, ["Z"]], [1]]]},
    "phases": {"n": None, "ops": [[["H"], [0]], ["mp", [0.1, 0.2, 0.3, 0.4]], [["CNOT"], [1, 0]], ["mp", [1, 2, 3, 4]]]},
    "symphases": {"n": None, "ops": [[["H"], [1]], ["mp", ["theta", 0.2, "x", 0.4]]]},
}
G_SPECS = {
    "X": ["X"], "RX": ["RX", 0.4], "RXs": ["RX", "theta"], "U3s": ["U3", "theta", "phi", 0.1], "CNOT": ["CNOT"], "cT": ["c", 1, ["T"]],
    "dag": ["dag", ["SX"]], "cdag": ["c", 2, ["dag", ["RY", "x"]]], "pow": ["pow", 0.5, ["X"]], "exp": ["exp", ["Z"]], "cust": ["custom", "g1"],
    "custp": ["custom", "p1", "theta", "phi"], "powc": ["pow", 2, ["c", 1, ["PHASE", 0.3]]], "XX": ["XX", 0.7],
}


def dm(mapping):
    return {S(k): v for k, v in mapping.items()}


def meas_np():
    return om.Measurements([tuple(np.int8(b) for b in t) for t in ((0, 1), (1, 1), (0, 1))])


W_SYM = lambda: Wavefunction(sympy.Matrix([sympy.cos(th) * 0 + th, 0, 0, sympy.sqrt(1 - th**2)]))
MAKE = {
    **{"C:" + k: (lambda s=v: G.circuit(s)) for k, v in C_SPECS.items()},
    **{"G:" + k: (lambda s=v: G.gate(s)) for k, v in G_SPECS.items()},
    "O:H": lambda: oc.H(1), "O:RX": lambda: oc.RX(th)(0), "O:cust": lambda: G.gate(["custom", "g2"])(2, 0), "O:U3": lambda: oc.U3(th, ph, 0.5)(1),
    "O:mp": lambda: oc.MultiPhaseOperation((th, 0.1, 0.2, x)), "O:mpn": lambda: oc.MultiPhaseOperation((0.3, 0.1, 0.2, 0.7)), "O:cz": lambda: oc.Z.controlled(1)(1, 0),
    "O:pow": lambda: oc.T.power(2)(0),
    "T:X": lambda: P("X0"), "T:I": lambda: P("I0", 2), "T:neg": lambda: P({1: "Z"}, -0.5), "T:cplx": lambda: P({0: "Y", 2: "X"}, 0.5 + 1j),
    "T:zz": lambda: P({1: "Z", 0: "Z"}, 3), "T:zero": lambda: P({0: "Z"}, 0.0), "T:np": lambda: P({0: "Z"}, np.float64(1.5)), "T:np16": lambda: P({1: "Y", 0: "X"}, np.complex128(1 - 2j)),
    "S:empty": lambda: oo.PauliSum(), "S:one": lambda: oo.PauliSum([P("X0*Y1", 2.0)]), "S:ising": lambda: oo.PauliSum([P("Z0", 1.5), P("Z0*Z1", -2.0), P("I0", 0.5)]),
    "S:dup": lambda: oo.PauliSum([P("Z0", 1.5), P("X1"), P("Z0", -0.5), P("I0", 1.0), P("X1", 1j)]),
    "S:cancel": lambda: oo.PauliSum([P("Z0"), P("Z0", -1.0), P("Y1", 0.0)]), "S:cplx": lambda: oo.PauliSum([P("X0", 1j), P("Y0*Z1", 1 - 2j), P("I0", 3)]),
    "S:tuple": lambda: oo.PauliSum((P("Z1", 2), P("Z0", 1))), "S:shared": lambda: (lambda t: oo.PauliSum([t, t]))(P("Z0", 1.0)),
    "S:three": lambda: oo.PauliSum("2.0*Z0 + -1.0*X0*X1 + 0.25*Y2"),
    "M:empty": lambda: om.Measurements(), "M:one": lambda: om.Measurements([(0, 1)]), "M:mix": lambda: om.Measurements([(1, 0), (0, 1), (1, 0), (1, 1)]),
    "M:np": meas_np, "M:counts": lambda: om.Measurements.from_counts({"010": 3, "110": 1}), "M:tuple": lambda: om.Measurements(((0, 0), (1, 0))),
    "D:two": lambda: od.MeasurementOutcomeDistribution({"01": 0.25, "10": 0.75}), "D:tup": lambda: od.MeasurementOutcomeDistribution({(1, 0, 0): 1, (0, 1, 1): 3, (1, 1, 1): 4}),
    "D:raw": lambda: od.MeasurementOutcomeDistribution({"00": 1.0, "11": 3.0}, normalize=False), "D:big": lambda: od.MeasurementOutcomeDistribution({(12, 0): 0.5, (3, 11): 0.5}),
    "D:one": lambda: od.MeasurementOutcomeDistribution({"0": 1.0}), "D:four": lambda: od.MeasurementOutcomeDistribution({"00": 0.1, "01": 0.2, "10": 0.3, "11": 0.4}),
    "D:zero": lambda: od.MeasurementOutcomeDistribution({"00": 0.0, "11": 0.5, "10": 0.5}),
    "W:zero": lambda: Wavefunction.zero_state(2), "W:dicke": lambda: Wavefunction.dicke_state(3, 1), "W:cplx": lambda: Wavefunction(np.array([0.6, 0.8j])),
    "W:mat": lambda: Wavefunction(sympy.Matrix([sympy.Rational(3, 5), sympy.Rational(4, 5) * sympy.I])), "W:sym": W_SYM,
    "W:four": lambda: Wavefunction([0.5, -0.5, 0.5j, 0.5]), "W:sym2": lambda: Wavefunction(sympy.Matrix([th, x])),
    "E:plain": lambda: om.ExpectationValues(np.array([1.0, -0.5])), "E:full": lambda: om.ExpectationValues(np.array([0.5, 0.25]), [np.eye(2)], [np.array([[0.1, 0.0], [0.0, 0.2]])]),
    "E:cplx": lambda: om.ExpectationValues(np.array([1j, 2 + 1j]), [np.eye(2) * 1j], []),
    "Y:plain": lambda: om.Parities(np.array([[3, 1], [100, 60]])), "Y:corr": lambda: om.Parities(np.array([[3, 1]]), [np.array([[[1, 2]]])]),
    "B:all": lambda: dm({"theta": 0.3, "phi": -0.2, "x": 0.5}), "B:none": lambda: {}, "B:part": lambda: dm({"theta": 0.6, "zzz": 1}), "B:swap": lambda: {th: ph, ph: th},
    "B:expr": lambda: {th: ph + 1, x: 0.25}, "B:half": lambda: {th: sympy.Rational(1, 2), x: sympy.sqrt(3) / 2},
    "L:idx": lambda: [1, 0], "L:idx1": lambda: [0], "L:samp": lambda: [3, 7, 2], "L:mult": lambda: [1, 2], "L:bits": lambda: [["00"], ["01", "11"], ["10"]],
    "L:counts": lambda: [{"00": 1}, {"01": 2, "11": 1}, {"11": 4}], "L:tups": lambda: [(0, 1), (1, 1), (0, 1)], "L:strs": lambda: ["01", "10"], "L:w": lambda: [0.1, 0.7, 0.4],
    "K:counts": lambda: {"01": 3, "11": 1}, "K:dist": lambda: {"01": 1.0, "11": 3.0}, "K:dtup": lambda: {(0, 1): 0.5, (1, 1): 0.5},
    "K:array": lambda: {"real": [[1, 2]], "imag": [[0, 1]]}, "K:sigma": lambda: {"sigma": 0.5}, "K:sigmas": lambda: {"sigma": [0.5, 2.0]}, "K:sigarr": lambda: {"sigma": np.array([1.0, 3.0])},
    "K:eps": lambda: {"epsilon": 0.01}, "K:none": lambda: {},
    "A:vec": lambda: np.array([0.6, 0.0, 0.0, 0.8]), "A:c": lambda: np.array([[0, 1j], [-1j, 0]]), "A:int": lambda: np.array([1, 2, 3, 4]), "A:par": lambda: np.array([[0.1], [0.2]]),
    "A:eye": lambda: np.eye(4), "A:sym": lambda: np.array([th, 0, 0, x], dtype=object), "A:amps": lambda: np.array([0.5, 0.5j, -0.5, 0.5], dtype=complex),
    "Z:list": lambda: [EstimationTask(MAKE["S:ising"](), oc.Circuit([oc.H(0), oc.RX(th)(1)]), 3), EstimationTask(MAKE["T:I"](), oc.Circuit([oc.X(0)]), 2), EstimationTask(MAKE["T:zz"](), oc.Circuit([oc.X(0), oc.H(1)]), 0)],
    "Z:num": lambda: [EstimationTask(MAKE["S:ising"](), oc.Circuit([oc.X(0), oc.CNOT(0, 1)]), 3), EstimationTask(MAKE["T:I"](), oc.Circuit([oc.X(0), oc.X(1)]), None), EstimationTask(MAKE["T:zz"](), oc.Circuit([oc.H(0), oc.X(1)]), 4)],
    "J:layers": lambda: ol.CircuitLayers([[(0, 1), (2, 3)], [(1, 2)]]), "J:conn": lambda: ol.CircuitConnectivity([(0, 1), (1, 2)]),
    "V:plain": lambda: ou.ValueEstimate(1.5, 0.1),
    "H:none": lambda: [], "H:one": lambda: [P("Y1", 2)], "H:four": lambda: [P("X0*Z1"), P("X0"), P("Z0*Z2*Z3"), P("Y1", -1j)],
    "H:dup": lambda: [P("Z1", 0.5), P("I0"), P("Z1", -0.5), P("X0*Y3"), P("I0", 0.0)], "H:shared": lambda: (lambda t: [t, P("X2*Y0"), t, t])(P("Z2")),
    "I:none": lambda: [], "I:four": lambda: [oc.CNOT(1, 0), oc.RX(th)(3), oc.H(0), oc.H(0), oc.U3(ph, th, 0.1).dagger(2)],
    "I:custom": lambda: [G.gate(["custom", "p1", "theta", 0.2])(1), G.gate(["custom", "g1"])(0), G.gate(["custom", "p1", 0.3, "x"]).controlled(1)(2, 0), oc.MultiPhaseOperation(tuple(range(8)))],
    "N:2": lambda: 2, "N:f": lambda: -0.5, "N:c": lambda: 1 - 2j, "N:0": lambda: 0,
}
POOL = {}
for _n in MAKE:
    POOL.setdefault(_n[0], []).append(_n)
POOL["P"] = POOL["T"] + POOL["S"]
POOL["Q"] = POOL["P"] + POOL["N"]  # whatever can be added to an operator

# ---- operations ----------------------------------------------------------------------------
OPS = {}


def op(name, kinds):
    def deco(f):
        assert name not in OPS, name
        OPS[name] = (kinds, f)
        return f

    return deco


def reg(name, kinds, f):
    op(name, kinds)(f)


def saved(save, *a):
    with Scratch() as s:
        p = s.path("str", "out.json")
        save(*a, p)
        with open(p) as f:
            return f.read()


def loaded(save, load, *a):
    with Scratch() as s:
        p = s.path("str", "out.json")
        save(*a, p)
        return load(p)


def sim():
    return SymbolicSimulator(seed=11)


# circuits
reg("circuit + circuit", "CC", lambda a, b: a + b)
reg("circuit + operation", "CO", lambda a, o: a + o)
reg("circuit == circuit", "CC", lambda a, b: (a == b, a != b))
reg("bind", "CB", lambda c, b: c.bind(b))
reg("inverse", "C", lambda c: c.inverse())
reg("controlled circuit 0", "C", lambda c: c.controlled(0))
reg("controlled circuit 1", "C", lambda c: c.controlled(1))
reg("controlled circuit out", "C", lambda c: c.controlled(c.n_qubits))
reg("to_unitary", "C", lambda c: c.to_unitary())
reg("free_symbols", "C", lambda c: c.free_symbols)
reg("repr circuit", "C", repr)
reg("custom gates", "C", lambda c: list(c.collect_custom_gate_definitions()))
reg("to_dict", "C", oc.to_dict)
reg("dict round trip", "C", lambda c: oc.circuit_from_dict(oc.to_dict(c)))
reg("save circuit", "C", lambda c: saved(oc.save_circuit, c))
reg("save+load circuit", "C", lambda c: loaded(oc.save_circuit, oc.load_circuit, c))
reg("save circuits", "CC", lambda a, b: saved(oc.save_circuitset, [a, b]))
reg("circuitset round trip", "CC", lambda a, b: oc.circuitset_from_dict(oc.to_dict([a, b])))
reg("split", "C", lambda c: [(k, s) for k, s in oc.split_circuit(c, lambda o: isinstance(o, oc.GateOperation))])
reg("split by size", "C", lambda c: [(k, s) for k, s in oc.split_circuit(c, lambda o: len(o.params) > 0)])
reg("ancillas", "C", lambda c: oc.add_ancilla_register(c, 2))
reg("apply H", "CL", lambda c, l: oc.apply_gate_to_qubits(c, tuple(l), oc.H) if isinstance(l[0], int) else None)
reg("apply RX", "CA", lambda c, a: oc.apply_gate_to_qubits(c, [0, 2], oc.RX, a))
reg("decompose", "C", lambda c: decompose_orquestra_circuit(c, [U3GateToRotation()]))
reg("expand samples", "CL", lambda c, l: oc.expand_sample_sizes([c] * len(l), l, 3))
reg("batches", "CL", lambda c, l: list(oc.split_into_batches([c] * len(l), l, 2)))
reg("simulate", "C", lambda c: sim().get_wavefunction(c))
reg("simulate from", "CA", lambda c, a: sim().get_wavefunction(c, a))
reg("run", "C", lambda c: sim().run_and_measure(c, 4))
reg("run batch", "CL", lambda c, l: sim().run_batch_and_measure([c] * len(l), l))
reg("exact", "CP", lambda c, p: sim().get_exact_expectation_values(c, p))
reg("outcome distribution", "C", lambda c: sim().get_measurement_outcome_distribution(c))
reg("sampled distribution", "C", lambda c: sim().get_measurement_outcome_distribution(c, 5))
reg("copy", "C", lambda c: oc.Circuit(c.operations, n_qubits=c.n_qubits or None))

# gates and operations
reg("dagger", "G", lambda g: g.dagger)
reg("controlled", "G", lambda g: g.controlled(2))
reg("power", "G", lambda g: g.power(3))
reg("power 1/2", "G", lambda g: g.power(0.5))
reg("exp", "G", lambda g: g.exp)
reg("matrix", "G", lambda g: g.matrix)
reg("gate symbols", "G", lambda g: list(g.free_symbols))
reg("gate bind", "GB", lambda g, b: g.bind(b))
reg("gate replace", "G", lambda g: g.replace_params(tuple(p + 1 for p in g.params)))
reg("gate apply", "G", lambda g: g(*range(g.num_qubits)))
reg("gate == gate", "GG", lambda a, b: (a == b, a != b))
reg("gate hash", "G", lambda g: str(g))
reg("op bind", "OB", lambda o, b: o.bind(b))
reg("op replace", "O", lambda o: o.replace_params(tuple(0.25 for _ in o.params)))
reg("op lifted", "O", lambda o: o.lifted_matrix(3))
reg("op apply", "OA", lambda o, a: o.apply(a))
reg("op symbols", "O", lambda o: list(o.free_symbols))
reg("op == op", "OO", lambda a, b: a == b)
reg("U3 rule", "O", lambda o: list(U3GateToRotation().production(o)) if U3GateToRotation().predicate(o) else None)

# operators
reg("p + q", "PQ", lambda a, b: a + b)
reg("p - q", "PQ", lambda a, b: a - b)
reg("p * q", "PQ", lambda a, b: a * b)
reg("n + p", "NP", lambda n, p: n + p)
reg("n - p", "NP", lambda n, p: n - p)
reg("n * p", "NP", lambda n, p: n * p)
reg("p / n", "PN", lambda p, n: p / n)
reg("p == q", "PQ", lambda a, b: (a == b, a != b))
reg("p ** 0", "P", lambda p: p**0)
reg("p ** 1", "P", lambda p: p**1)
reg("p ** 2", "P", lambda p: p**2)
reg("p ** 3", "P", lambda p: p**3)
reg("p += q", "PQ", lambda a, b: [v := a, v := v + b, v][-1])
reg("simplify", "S", lambda s: s.simplify())
reg("p hash", "P", lambda p: hash(p))
reg("p repr", "P", lambda p: (repr(p), str(p)))
reg("p qubits", "P", lambda p: (p.qubits, p.n_qubits, p.is_constant, p.is_ising))
reg("p list", "P", lambda p: (list(p), len(p), p.terms))
reg("p circuits", "P", lambda p: [t.circuit for t in p.terms] + (list(p.circuits) if isinstance(p, oo.PauliSum) else []))
reg("t copy", "T", lambda t: (t.copy(), t.copy(3j), t.copy(0)))
reg("t items", "T", lambda t: (t.operations, [t[i] for i in range(3)]))
reg("s items", "S", lambda s: ([s[i] for i in range(len(s))], s.constant_term if len(s) else 0))
reg("s from terms", "PP", lambda a, b: oo.PauliSum([*a.terms, *b.terms]))
reg("conjugate", "P", oo.hermitian_conjugated)
reg("is hermitian", "P", lambda p: bool(oo.is_hermitian(p)))
reg("sparse", "P", lambda p: oo.get_sparse_operator(p, n_qubits=3))
reg("sparse default", "P", lambda p: oo.get_sparse_operator(p))
reg("op to dict", "P", oo.convert_op_to_dict)
reg("op from dict", "P", lambda p: oo.convert_dict_to_op(oo.convert_op_to_dict(p)))
reg("save op", "P", lambda p: saved(oo.save_operator, p))
reg("load op", "P", lambda p: loaded(oo.save_operator, oo.load_operator, p))
reg("save ops", "PP", lambda a, b: saved(oo.save_operator_set, [a, b]))
reg("strings", "P", oo.get_pauli_strings)
reg("reverse", "P", lambda p: oo.reverse_qubit_order(p))
reg("reverse 4", "P", lambda p: oo.reverse_qubit_order(p, 4))
reg("wf expectation", "PW", lambda p, w: oo.get_expectation_value(p, w))
reg("wf expectation r", "PW", lambda p, w: oo.get_expectation_value(p, w, True))
reg("evaluate op", "PE", lambda p, e: opu.evaluate_operator(p, e))
reg("evaluate ops", "PE", lambda p, e: opu.evaluate_operator_list([p], e))
reg("evolve", "P", lambda p: time_evolution(p, 0.3, n_steps=2))
reg("evolve sym", "P", lambda p: time_evolution(p, th))
reg("evolve term", "T", lambda t: time_evolution_for_term(t, 0.7))
reg("derivatives", "P", lambda p: time_evolution_derivatives(p, 0.4, n_steps=2))
reg("matrix expansion", "A", lambda a: opu.get_pauliop_from_matrix(a.tolist()) if a.ndim == 2 and a.shape[0] == a.shape[1] else None)
reg("matrix expansion arr", "A", lambda a: opu.get_pauliop_from_matrix(a) if a.ndim == 2 and a.shape[0] == a.shape[1] else None)

# measurements
reg("counts", "M", lambda m: m.get_counts())
reg("distribution", "M", lambda m: m.get_distribution())
reg("expectations", "MP", lambda m, p: m.get_expectation_values(p))
reg("expectations bessel", "MP", lambda m, p: m.get_expectation_values(p, True))
reg("save measurements", "M", lambda m: saved(m.save))
reg("load measurements", "M", lambda m: loaded(m.save, om.Measurements.load_from_file))
reg("parities", "MP", lambda m, p: om.get_parities_from_measurements(m.bitstrings, p))
reg("from counts", "K", lambda k: om.Measurements.from_counts(k))
reg("representing 10", "D", lambda d: om.Measurements.get_measurements_representing_distribution(d, 10))
reg("representing 3", "D", lambda d: om.Measurements.get_measurements_representing_distribution(d, 3))
reg("representing 1", "D", lambda d: om.Measurements.get_measurements_representing_distribution(d, 1))
reg("representing 7", "D", lambda d: om.Measurements.get_measurements_representing_distribution(d, 7))
reg("frequency expectation", "LK", lambda l, k: om.get_expectation_value_from_frequencies(l, k))
reg("ev dict", "E", lambda e: (e.to_dict(), om.ExpectationValues.from_dict(e.to_dict())))
reg("ev save", "E", lambda e: saved(om.save_expectation_values, e))
reg("ev load", "E", lambda e: loaded(om.save_expectation_values, om.load_expectation_values, e))
reg("ev ==", "EE", lambda a, b: bool(a == b))
reg("ev concat", "EE", lambda a, b: om.concatenate_expectation_values([a, b]))
reg("ev concat 3", "EE", lambda a, b: om.concatenate_expectation_values([a, b, a]))
reg("par dict", "Y", lambda y: (y.to_dict(), om.Parities.from_dict(y.to_dict())))
reg("par save", "Y", lambda y: saved(om.save_parities, y))
reg("par ev", "Y", lambda y: om.get_expectation_values_from_parities(y))
reg("parity vector", "AL", lambda a, l: om.check_parity_of_vector(a, l))
reg("combine counts", "LL", lambda a, b: oc.combine_measurement_counts(a, b))
reg("combine bitstrings", "LL", lambda a, b: oc.combine_bitstrings(a, b))
reg("tuples", "L", lambda l: ou.convert_bitstrings_to_tuples(l))
reg("bitstrings", "L", lambda l: ou.convert_tuples_to_bitstrings(l))

# distributions
D = od.MeasurementOutcomeDistribution
reg("subsystems", "D", lambda d: d.get_number_of_subsystems())
reg("marginal 0", "D", lambda d: d.subdistribution([0]))
reg("marginal", "DL", lambda d, l: d.subdistribution(l))
reg("marginal all", "D", lambda d: d.subdistribution(list(range(d.get_number_of_subsystems()))))
reg("nll", "DDK", lambda a, b, k: od.compute_clipped_negative_log_likelihood(a, b, k))
reg("jsd", "DDK", lambda a, b, k: od.compute_jensen_shannon_divergence(a, b, k))
reg("mmd", "DDK", lambda a, b, k: od.compute_mmd(a, b, k))
for _f in ("compute_clipped_negative_log_likelihood", "compute_jensen_shannon_divergence", "compute_mmd"):
    reg("distance " + _f[8:11], "DDK", lambda a, b, k, f=_f: od.evaluate_distribution_distance(a, b, getattr(od, f), distance_measure_parameters=k))
reg("save dist", "D", lambda d: saved(od.save_measurement_outcome_distribution, d))
reg("load dist", "D", lambda d: loaded(od.save_measurement_outcome_distribution, od.load_measurement_outcome_distribution, d))
reg("save dists", "DD", lambda a, b: saved(od.save_measurement_outcome_distributions, [a, b]))
reg("load dists", "DD", lambda a, b: loaded(od.save_measurement_outcome_distributions, od.load_measurement_outcome_distributions, [a, b]))
reg("repr dist", "D", repr)
reg("make dist", "K", lambda k: D(k))
reg("make raw dist", "K", lambda k: D(k, normalize=False))
reg("rewrap dist", "D", lambda d: D(d.distribution_dict))
reg("rewrap raw dist", "D", lambda d: D(d.distribution_dict, normalize=False))
reg("preprocess", "K", lambda k: od.preprocess_distibution_dict(k))
reg("is dist", "K", lambda k: od.is_measurement_outcome_distribution(od.preprocess_distibution_dict(k)))
reg("is normalized", "D", lambda d: od.is_normalized(d.distribution_dict))
reg("comma keys", "D", lambda d: od.change_tuple_dict_keys_to_comma_separated_integers(d.distribution_dict))
reg("dist from probs", "A", lambda a: od.create_bitstring_distribution_from_probability_distribution(np.abs(a) ** 2))
reg("dist from array", "A", lambda a: od.create_bitstring_distribution_from_probability_distribution(a))
reg("sample dist", "D", lambda d: dict(ou.sample_from_probability_distribution(d.distribution_dict, 5)))
reg("kernel", "A", lambda a: od.compute_rbf_kernel(a, a, 1.0))
reg("kernels", "A", lambda a: od.compute_multi_rbf_kernel(a, a, [1.0, 2.0]))

# wavefunctions
# what is built from lists handed over by the caller
reg("make sum", "H", lambda h: oo.PauliSum(h))
reg("make sum and use", "H", lambda h: (oo.PauliSum(h).simplify(), oo.PauliSum(h) * P("X0"), 2 + oo.PauliSum(h), oo.PauliSum(h) ** 2, str(oo.PauliSum(h))))
reg("add them up", "H", lambda h: sum(h, oo.PauliSum()))
reg("evaluate each", "HE", lambda h, e: opu.evaluate_operator_list(h, e))
reg("save them", "H", lambda h: saved(oo.save_operator_set, h))
reg("load them", "H", lambda h: loaded(oo.save_operator_set, oo.load_operator_set, h))
reg("conjugate made", "H", lambda h: (oo.hermitian_conjugated(oo.PauliSum(h)), oo.reverse_qubit_order(oo.PauliSum(h)), bool(oo.is_hermitian(oo.PauliSum(h)))))
reg("dict made", "H", lambda h: (oo.convert_op_to_dict(oo.PauliSum(h)), oo.get_pauli_strings(oo.PauliSum(h))))
reg("evolve made", "H", lambda h: time_evolution(oo.PauliSum(h), 0.2))
reg("parities made", "H", lambda h: om.get_parities_from_measurements([(0, 1, 1, 0), (1, 1, 0, 1)], oo.PauliSum(h)))
reg("expectations made", "H", lambda h: om.Measurements([(0, 1, 1, 0), (1, 1, 0, 1)]).get_expectation_values(oo.PauliSum(h)))
reg("make circuit", "I", lambda i: oc.Circuit(i))
reg("make wide circuit", "I", lambda i: oc.Circuit(i, n_qubits=6))
reg("make and use circuit", "IB", lambda i, b: (oc.Circuit(i) + oc.Circuit(i), oc.Circuit(i).bind(b), oc.Circuit(i).inverse(), oc.Circuit(i).controlled(5)))
reg("make and save circuit", "I", lambda i: (oc.to_dict(oc.Circuit(i)), oc.Circuit(i).collect_custom_gate_definitions()))
reg("circuit + list", "CI", lambda c, i: c + oc.Circuit(i))
reg("make measurements", "L", lambda l: om.Measurements(l).get_counts())
reg("make term", "H", lambda h: [P({q: o for q, o in t.operations}, t.coefficient) for t in h])
reg("make wf", "A", lambda a: Wavefunction(a))
reg("probabilities", "W", lambda w: w.get_probabilities())
reg("outcome probs", "W", lambda w: w.get_outcome_probs())
reg("wf bind", "WB", lambda w, b: w.bind(b))
reg("wf ==", "WW", lambda a, b: bool(a == b))
reg("wf str", "W", str)
reg("wf list", "W", lambda w: (list(w), len(w), w.n_qubits, w[0], list(w[:2])))
reg("flip", "W", ow.flip_wavefunction)
reg("flip amplitudes", "A", ow.flip_amplitudes)
reg("save wf", "W", lambda w: saved(ow.save_wavefunction, w))
reg("load wf", "W", lambda w: loaded(ow.save_wavefunction, ow.load_wavefunction, w))
reg("sample wf", "W", lambda w: ow.sample_from_wavefunction(w, 3, seed=5))
reg("sample wf many", "W", lambda w: ow.sample_from_wavefunction(w, 20, seed=5))
reg("rewrap wf", "W", lambda w: Wavefunction(w.amplitudes))
reg("simulate wf", "CW", lambda c, w: sim().get_wavefunction(c, w.amplitudes))

# estimation, utilities
reg("bind tasks", "ZB", lambda z, b: evaluate_estimation_circuits(z, [b] * len(z)))
reg("split tasks", "Z", split_estimation_tasks_to_measure)
reg("constant tasks", "Z", lambda z: evaluate_non_measured_estimation_tasks(split_estimation_tasks_to_measure(z)[1]))
reg("estimate", "Z", lambda z: estimate_expectation_values_by_averaging(sim(), z))
reg("estimate exactly", "Z", lambda z: calculate_exact_expectation_values(sim(), z))
reg("array to dict", "A", ou.convert_array_to_dict)
reg("dict to array", "K", ou.convert_dict_to_array)
reg("bin2dec", "L", ou.bin2dec)
reg("scale", "L", lambda l: ou.scale_and_discretize(l, 10))
reg("save list", "L", lambda l: saved(ou.save_list, l))
reg("save dict", "K", lambda k: saved(ou.save_generic_dict, k))
reg("compare unitary", "AA", lambda a, b: bool(ou.compare_unitary(a, b)))
reg("symbols map", "A", lambda a: ou.create_symbols_map([S(f"s{i}") for i in range(len(a))], a))
reg("value estimate", "V", lambda v: (v.to_dict(), ou.ValueEstimate.from_dict(v.to_dict()), str(v), v == v))
reg("layers", "J", lambda j: (type(j).from_dict(j.to_dict()), j.to_dict()))

# operations on dictionaries made by the library itself (arguments are the nested dicts)
DICT_OPS = {
    "circuit_from_dict": ("C", oc.to_dict, oc.circuit_from_dict),
    "circuitset_from_dict": ("C", lambda c: oc.to_dict([c, c]), oc.circuitset_from_dict),
    "convert_dict_to_op": ("P", oo.convert_op_to_dict, oo.convert_dict_to_op),
    "ExpectationValues.from_dict": ("E", lambda e: e.to_dict(), om.ExpectationValues.from_dict),
    "Parities.from_dict": ("Y", lambda e: e.to_dict(), om.Parities.from_dict),
    "CircuitLayers.from_dict": ("J", lambda e: e.to_dict(), lambda d: ol.CircuitLayers.from_dict(d) if "layers" in d else ol.CircuitConnectivity.from_dict(d)),
    "ValueEstimate.from_dict": ("V", lambda e: e.to_dict(), ou.ValueEstimate.from_dict),
}

RAISES = (Exception, SystemExit)


class Raised:
    def __init__(self, e):
        self.name = type(e).__name__


def call(name, args):
    np.random.seed(7)
    random.seed(7)
    try:
        return OPS[name][1](*args)
    except RAISES as e:
        return Raised(e)


def picture(r):
    return snap(r)


def run_single(case, ctx, MAKE=MAKE):
    name, *names = case
    objs = {}
    for n in names:  # the same name twice is the same object twice
        objs.setdefault(n, MAKE[n]())
    args = [objs[n] for n in names]
    before = [snap(a) for a in args]
    r1 = call(name, args)
    p1 = picture(r1)
    check_same(before, args, f"{name}({', '.join(names)})", "argument")
    r2 = call(name, args)
    check_same(before, args, f"second {name}({', '.join(names)})", "argument")
    p2 = picture(r2)
    check(same(p1, p2), f"{name}({', '.join(names)}) gives two answers: {differ(p1, p2)}", "repeat")
    check(same(p1, picture(r1)), f"calling {name}({', '.join(names)}) again changes its first answer: {differ(p1, picture(r1))}", "result")
    ctx.step(2)
    ctx.state(name, p1)
    ctx.outcome("refused" if isinstance(r1, Raised) else "answered")


def check_same(before, args, what, tag):
    for i, (b, a) in enumerate(zip(before, args)):
        now = snap(a)
        check(b == now or exactly(b, now), f"{what} changes its argument {i}: {differ(b, now)}", tag)


def exactly(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(exactly(u, v) for u, v in zip(a, b))
    return a == b or (a != a and b != b)


def cases_single(tier):
    for name, (kinds, _) in OPS.items():
        for names in itertools.product(*[POOL[k] for k in kinds]):
            yield [name, *names]



# ---- large arguments --------------------------------------------------------------------------
def large_objects():
    ring = [P({q: "Z", (q + 1) % 9: "Z"}, 0.5 + q) for q in range(9)]
    mixed = [P({q: "XYZ"[(q * j) % 3] for q in range(j % 7)}, (-1) ** j * (0.25 + j)) for j in range(24)]
    out = {
        "C:far": lambda: oc.Circuit([oc.X(0)]),
        "C:nine": lambda: oc.Circuit([oc.X(8), oc.CNOT(7, 2), oc.RX(th)(5), oc.H(0)]),
        "C:long": lambda: oc.Circuit([oc.RX(0.1 * i)(i % 3) if i % 4 else oc.CNOT(i % 3, (i + 1) % 3) for i in range(40)]),
        "C:zero": lambda: oc.Circuit(),
        "C:reg12": lambda: oc.Circuit([oc.H(3)], n_qubits=12),
        "C:params": lambda: oc.Circuit([oc.U3(S(f"p{i}"), S(f"p{i + 1}"), 0.1 * i)(i % 4) for i in range(12)]),
        "C:manyctl": lambda: oc.Circuit([oc.X.controlled(5)(5, 0, 2, 1, 4, 3), oc.RX(th).controlled(4).dagger(1, 2, 3, 4, 0)]),
        "O:x6": lambda: oc.X(6), "O:x14": lambda: oc.X(14), "O:cnot": lambda: oc.CNOT(9, 0), "O:rx11": lambda: oc.RX(th)(11), "O:swap": lambda: oc.SWAP(12, 13),
        "O:ccx": lambda: oc.X.controlled(4)(4, 8, 0, 2, 6), "O:near": lambda: oc.Z(1),
        "T:ten": lambda: P({q: "XYZ"[q % 3] for q in range(10)}, 1.5), "T:q20": lambda: P({20: "Y"}, -1j), "T:order": lambda: P({9: "Z", 4: "X", 7: "Y", 0: "Z", 1: "X"}, 2),
        "S:ring": lambda: oo.PauliSum(list(ring)), "S:mixed": lambda: oo.PauliSum(list(mixed)), "S:tiny": lambda: oo.PauliSum([P({i: "Z"}, 10.0 ** -i) for i in range(14)]),
        "S:same": lambda: oo.PauliSum([P({0: "X", 3: "Y"}, 0.1) for _ in range(12)]), "S:cancels": lambda: oo.PauliSum([P({i // 2: "Z"}, (-1) ** i) for i in range(16)] + [P("X0")]),
        "M:many": lambda: om.Measurements([tuple((i >> j) & 1 for j in range(5)) for i in range(32)] * 4 + [(0, 0, 0, 0, 0)] * 100),
        "M:same": lambda: om.Measurements([(1, 0, 1)] * 257), "M:wide": lambda: om.Measurements([tuple((i * j) % 2 for j in range(70)) for i in range(9)]),
        "D:full5": lambda: od.MeasurementOutcomeDistribution({k: 1 + i for i, k in enumerate(itertools.product((0, 1), repeat=5))}),
        "D:wide": lambda: od.MeasurementOutcomeDistribution({tuple((i * j) % 2 for j in range(40)): 2.0**i for i in range(6)}),
        "W:six": lambda: Wavefunction(np.array([(i + 1) * 1j**i for i in range(64)]) / np.sqrt(sum((i + 1) ** 2 for i in range(64)))), "W:sparse": lambda: Wavefunction.dicke_state(6, 3),
        "W:symsix": lambda: Wavefunction(sympy.Matrix([th, x] + [0] * 13 + [ph])),
        "E:long": lambda: om.ExpectationValues(np.arange(1.0, 13.0), [np.eye(12)], [np.eye(12) * 0.5]), "E:frames": lambda: om.ExpectationValues(np.arange(6.0), [np.eye(2), np.eye(3), np.eye(1)], [np.eye(2), np.eye(3), np.eye(1)]),
        "K:big": lambda: {"".join(map(str, k)): float(i) for i, k in enumerate(itertools.product((0, 1), repeat=5))}, "K:sigs": lambda: {"sigma": [0.1, 1.0, 5.0, 25.0, 1e-3], "other": 1},
        "K:order": lambda: {"11": 2, "00": 4, "01": 1}, "K:eps": lambda: {"epsilon": 1e-4},
        "A:sixteen": lambda: np.arange(16.0) / np.sqrt(1240.0), "A:herm8": lambda: np.array([[1.0 * (i + j) + 1j * (i - j) for j in range(8)] for i in range(8)]), "A:par": lambda: np.array([[0.1 * i] for i in range(12)]),
        "L:samp": lambda: [7, 1, 12, 3, 3, 9, 1], "L:qs": lambda: [4, 0, 7, 2], "L:all": lambda: [0, 1, 2, 3, 4], "L:bits": lambda: [["0101"] * 3, ["1111"], ["0000", "0001"], ["1000"] * 9], "L:strs": lambda: ["01101", "11111", "00000", "01101"],
        "L:tups": lambda: [(0, 1, 1, 0, 1)] * 5 + [(1,) * 5], "L:counts": lambda: [{"0101": 3}, {"1111": 1}, {"0000": 1, "0001": 1}, {"1000": 9}],
        "B:many": lambda: {**{S(f"p{i}"): 0.1 * i for i in range(13)}, th: 0.2, x: 0.1}, "B:chain": lambda: {th: ph, ph: x, x: th, S("p0"): S("p1"), S("p1"): 0.5},
        "G:c6": lambda: oc.RX(th).controlled(6), "G:deep": lambda: oc.U3(th, 0.1, ph).dagger.controlled(2).dagger, "G:pow5": lambda: oc.T.power(5).controlled(3), "G:expp": lambda: G.gate(["exp", ["c", 2, ["Z"]]]),
        "O:mp8": lambda: oc.MultiPhaseOperation(tuple(0.1 * i for i in range(8))), "O:mp16": lambda: oc.MultiPhaseOperation(tuple(0.3 - 0.1 * i for i in range(16))),
        "A:c8": lambda: np.array([(i + 1) * 1j**i for i in range(8)]) / np.sqrt(204.0), "A:c16": lambda: np.array([(-1j) ** (i * i) / 4 for i in range(16)]),
        "N:2": lambda: 2, "N:c": lambda: 0.5 - 1j, "J:layers": lambda: ol.CircuitLayers([[(i, i + 1) for i in range(k % 2, 9, 2)] for k in range(7)]), "V:np": lambda: ou.ValueEstimate(1e-17, 3.0),
        "H:ring": lambda: list(ring), "H:mixed": lambda: list(mixed)[::-1], "H:same": lambda: [P({0: "X", 3: "Y"}, 0.1) for _ in range(12)],
        "H:far": lambda: [P({i * 7 % 10: "XYZ"[i % 3], i % 4: "Z"}, 1.0 + i) for i in range(11)],
        "I:long": lambda: [[oc.CNOT(i % 5, 5), oc.RX(S(f"p{i % 13}"))(i % 6), oc.H(i % 4)][i % 3] for i in range(40)], "I:far": lambda: [oc.X(9), oc.SWAP(0, 8), oc.T.controlled(3)(7, 1, 4, 2)],
        "Y:long": lambda: om.Parities(np.arange(20).reshape(10, 2), [np.ones((3, 3, 2)), np.zeros((2, 2, 2))]),
        "Z:long": lambda: [
            EstimationTask(oo.PauliSum([P({0: "Z"}, 1.0 + i), P({1: "Z"}, 0.5), P("I0", 2.0)]) if i % 3 else P("I0", 3.0 + i), oc.Circuit([oc.X(i % 2), oc.RX(S(f"p{i}") if i % 5 == 4 else 0.3)(1)]), [4, 0, 2][i % 3 if i % 2 else 0])
            for i in range(9)
        ],
    }
    return out


LARGE = large_objects()
LARGE_POOL = {}
for _n in LARGE:
    LARGE_POOL.setdefault(_n[0], []).append(_n)
LARGE_POOL["P"] = LARGE_POOL["T"] + LARGE_POOL["S"]
LARGE_POOL["Q"] = LARGE_POOL["P"] + LARGE_POOL["N"]
TOO_BIG = {  # dense or symbolic matrices of these sizes
    "to_unitary": {"C:nine", "C:reg12", "C:params", "C:manyctl"}, "simulate": {"C:params", "C:nine", "C:reg12"}, "simulate wf": {"C:params", "C:nine", "C:reg12", "W:symsix"}, "simulate from": {"C:params", "C:nine", "C:reg12"},
    "run": {"C:params", "C:nine", "C:reg12"}, "run batch": {"C:params", "C:nine", "C:reg12"}, "exact": {"C:params", "C:nine", "C:reg12", "T:q20", "T:ten", "S:tiny", "S:ring", "T:order"}, "outcome distribution": {"C:params", "C:nine", "C:reg12"},
    "sampled distribution": {"C:params", "C:nine", "C:reg12"}, "p ** 3": {"S:mixed", "S:ring", "S:tiny", "S:same", "S:cancels"}, "sparse default": {"T:q20", "S:tiny"}, "p circuits": set(), "evolve": {"S:mixed"}, "evolve sym": {"S:mixed"}, "derivatives": {"S:mixed", "S:tiny"},
    "wf expectation": {"T:q20"}, "wf expectation r": {"T:q20"}, "exp": {"G:c6"}, "op lifted": set(), "gate hash": set(),
}


def run_large(case, ctx):
    run_single(case, ctx, LARGE)


def cases_large(tier):
    for name, (kinds, _) in OPS.items():
        for names in itertools.product(*[LARGE_POOL[k] for k in kinds]):
            if not TOO_BIG.get(name, set()) & set(names):
                yield [name, *names]


# ---- histories on one shared object ----------------------------------------------------------
PARTNER = {  # the other arguments of an operation in a history
    "C": "C:power", "O": "O:RX", "B": "B:all", "L": "L:idx", "A": "A:vec", "P": "S:ising", "Q": "S:dup", "N": "N:f", "G": "G:RXs", "W": "W:four", "E": "E:full",
    "M": "M:mix", "D": "D:four", "K": "K:sigma", "T": "T:zz", "S": "S:dup", "Z": "Z:num", "Y": "Y:corr", "H": "H:dup", "I": "I:four",
}
LISTS = {
    "apply H": "L:idx", "expand samples": "L:samp", "batches": "L:samp", "run batch": "L:samp", "marginal": "L:idx", "parity vector": "L:idx",
}


def roles(kind):
    """(operation, position of the shared object) for every way of using it."""
    out = []
    for name, (kinds, _) in OPS.items():
        for i, k in enumerate(kinds):
            if k == kind or (k == "P" and kind in "TS") or (k == "Q" and kind in "TSN"):
                out.append((name, i))
    return out


def use(role, obj, shared):
    name, i = role
    kinds = OPS[name][0]
    args = []
    for j, k in enumerate(kinds):
        if j == i:
            args.append(obj)
        else:
            n = LISTS.get(name, PARTNER[k]) if k == "L" else PARTNER[k]
            if n not in shared:
                shared[n] = MAKE[n]()
            args.append(shared[n])
    return call(name, args)


_fresh, _pristine = {}, {}


def fresh_answer(obj_name, role):
    """What the operation answers on a newly made object, nothing else having happened to it."""
    key = (obj_name, role)
    if key not in _fresh:
        _fresh[key] = picture(use(role, MAKE[obj_name](), {}))
    return _fresh[key]


def run_history(case, ctx):
    obj_name, *rs = case
    rs = [tuple(r) for r in rs]
    obj = MAKE[obj_name]()
    shared = {}
    before = snap(obj)
    results = []
    for r in rs:
        res = use(r, obj, shared)
        results.append((r, res, picture(res)))
        want = fresh_answer(obj_name, r)
        check(
            same(want, results[-1][2]),
            f"{r[0]} on {obj_name} after {[a[0] for a in rs[:len(results) - 1]]} answers differently from a fresh object: {differ(want, results[-1][2])}",
            "history",
        )
        ctx.step()
    check_same([before], [obj], f"{[r[0] for r in rs]} on {obj_name}", "argument")
    for n, o in shared.items():
        if n not in _pristine:
            _pristine[n] = snap(MAKE[n]())
        check_same([_pristine[n]], [o], f"{[r[0] for r in rs]} on {obj_name}", "argument")
    for r, res, p in results:
        check(same(p, picture(res)), f"{[q[0] for q in rs]} on {obj_name}: an earlier result of {r[0]} changed: {differ(p, picture(res))}", "result")
    ctx.state(obj_name, *[r[0] for r in rs])


HISTORY_OBJECTS = {
    "quick": {
        "C": ["C:symbolic", "C:power"], "G": ["G:cdag", "G:custp"], "T": ["T:cplx"], "S": ["S:dup", "S:ising"],
        "M": ["M:mix", "M:np"], "D": ["D:tup", "D:raw", "D:zero"], "W": ["W:sym", "W:four"], "E": ["E:full"], "O": ["O:mp", "O:U3"],
        "A": ["A:vec"], "Z": ["Z:num"],
    },
}
HISTORY_OBJECTS["thorough"] = {k: POOL[k] for k in HISTORY_OBJECTS["quick"]}


SLOW = {"simulate wf", "simulate from", "outcome distribution", "exact", "simulate"}  # on a symbolic circuit, and alike


def cases_pairs(tier):
    for kind, names in HISTORY_OBJECTS[tier].items():
        rs = roles(kind)
        for n in names:
            for a, b in itertools.product(rs, repeat=2):
                if tier == "quick" and n == "C:symbolic" and SLOW & {a[0], b[0]}:
                    continue
                yield [n, list(a), list(b), list(a)]


def cases_triples(tier):
    """Three different uses in a row, for the kinds with few enough operations."""
    objs = {"M": ["M:mix"], "D": ["D:tup", "D:raw"], "W": ["W:four"], "E": ["E:full"], "G": ["G:cdag"]}
    if tier == "thorough":
        objs = {**{k: POOL[k] for k in objs}, "S": ["S:dup", "S:shared"], "T": ["T:cplx"], "C": ["C:symbolic"]}
    for kind, names in objs.items():
        rs = roles(kind)
        for n in names:
            for t in itertools.product(rs, repeat=3):
                yield [n, *[list(r) for r in t]]


# ---- results used as arguments ---------------------------------------------------------------


def kind_of(o):
    for k, t in (("C", oc.Circuit), ("T", oo.PauliTerm), ("S", oo.PauliSum), ("M", om.Measurements), ("D", D), ("W", Wavefunction), ("E", om.ExpectationValues), ("O", oc.GateOperation)):
        if isinstance(o, t):
            return k
    if isinstance(o, oc.MatrixFactoryGate) or (dataclasses.is_dataclass(o) and hasattr(o, "matrix") and hasattr(o, "params") and not isinstance(o, oc.CustomGateDefinition)):
        return "G"
    return None


def run_chain(case, ctx):
    """Every operation on every object the first operation returned; the original and the returned object both stay."""
    obj_name, r = case
    r = tuple(r)
    obj = MAKE[obj_name]()
    shared = {}
    res = use(r, obj, shared)
    parts = [x for x in (res if isinstance(res, (list, tuple)) else [res]) if kind_of(x)][:3]
    if not parts:
        ctx.outcome("no object returned")
        return
    before = snap(obj)
    pres = picture(res)
    for part in parts:
        for role in roles(kind_of(part)):
            use(role, part, shared)
            ctx.step()
            now = snap(obj)
            check(exactly(before, now), f"{role[0]} on the result of {r[0]}({obj_name}) changes the original: {differ(before, now)}", "argument")
            now = picture(res)
            check(exactly(pres, now), f"{role[0]} on the result of {r[0]}({obj_name}) changes that result: {differ(pres, now)}", "argument")
    again = picture(use(r, obj, {}))
    check(same(pres, again), f"{r[0]}({obj_name}) later answers differently: {differ(pres, again)}", "repeat")
    ctx.outcome("chained")
    ctx.state(obj_name, r)


def cases_chain(tier):
    for kind in "CGTSMDWO":
        for n in POOL[kind] if tier == "thorough" else POOL[kind][2:7]:
            for r in roles(kind):
                yield [n, list(r)]


# ---- containers handed out -------------------------------------------------------------------
HANDED_OUT = {  # reports built anew for the caller, who may edit them
    "counts": "M", "free_symbols": "C", "to_dict": "C", "to_unitary": "C", "op to dict": "P", "strings": "P", "array to dict": "A", "probabilities": "W", "outcome probs": "W",
    "p qubits": "P", "comma keys": "D", "preprocess": "K", "matrix": "G", "distribution": "M", "marginal 0": "D", "outcome distribution": "C", "custom gates": "C",
    "marginal all": "D", "gate symbols": "G", "make dist": "K", "from counts": "K", "make wf": "A", "representing 10": "D", "run": "C",
}


def vandalise(o):
    if isinstance(o, list):
        for x_ in list(o):
            vandalise(x_)
        o.append("vandal")
        o.reverse()
    elif isinstance(o, dict):
        for v in list(o.values()):
            vandalise(v)
        o["vandal"] = 1
    elif isinstance(o, set):
        o.add(99)
    elif isinstance(o, tuple):
        for x_ in o:
            vandalise(x_)
    elif isinstance(o, np.ndarray):
        if o.size and o.flags.writeable:
            o.fill(7)
    elif isinstance(o, sympy.MatrixBase) and hasattr(o, "fill"):
        o.fill(sympy.Integer(7))
    elif isinstance(o, om.Measurements):
        o.add_counts({"0" * (len(o.bitstrings[0]) if len(o.bitstrings) else 1): 5})
    elif isinstance(o, D):
        vandalise(o.distribution_dict)


def run_vandal(case, ctx):
    name, n = case
    obj = MAKE[n]()
    before = snap(obj)
    res = call(name, [obj])
    p = picture(res)
    vandalise(res)
    check_same([before], [obj], f"editing the report {name}({n})", "aliasing")
    again = picture(call(name, [obj]))
    check(same(p, again), f"editing the report {name}({n}) changes the next one: {differ(p, again)}", "aliasing")
    other = picture(call(name, [MAKE[n]()]))
    check(same(p, other), f"editing the report {name}({n}) changes that of an equal object: {differ(p, other)}", "aliasing")
    ctx.step(3)
    ctx.state(name, n)


def cases_vandal(tier):
    for name, k in HANDED_OUT.items():
        for n in POOL[k]:
            yield [name, n]


# ---- dictionaries read back ------------------------------------------------------------------


def run_dict(case, ctx):
    name, n = case
    _, make, f = DICT_OPS[name]
    try:
        d = make(MAKE[n]())
    except NotImplementedError:
        ctx.outcome("no dictionary")
        return
    before = snap(d)
    try:
        r1 = f(d)
    except RAISES as e:
        r1 = Raised(e)
    p1 = picture(r1)
    check_same([before], [d], f"{name} on the dictionary of {n}", "argument")
    try:
        r2 = f(d)
    except RAISES as e:
        r2 = Raised(e)
    check(same(p1, picture(r2)), f"{name} on the dictionary of {n} gives two answers: {differ(p1, picture(r2))}", "repeat")
    check_same([before], [d], f"{name} on the dictionary of {n}", "argument")
    k = kind_of(r1)
    if k:
        for role in roles(k):
            use(role, r1, {})
            ctx.step()
        check_same([before], [d], f"using what {name} made of the dictionary of {n}", "argument")
    ctx.step(2)
    ctx.state(name, n)


def cases_dict(tier):
    for name, (k, _, _) in DICT_OPS.items():
        for n in POOL[k]:
            yield [name, n]


# ---- explicit changes in between --------------------------------------------------------------
ADDS = [{"01": 2}, {"10": 1, "11": 1}, {"00": 1}]
SETS = [(0, 0.6), (1, -1), (3, 0.5j), (0, "theta")]


def run_changes(case, ctx):
    """Queries interleaved with explicit changes answer like an object made in that state."""
    kind, script = case
    if kind == "M":
        obj, ref_state = om.Measurements([(1, 0), (0, 1)]), [(1, 0), (0, 1)]
        mk = lambda st: om.Measurements(list(st))
    else:
        obj = Wavefunction(sympy.Matrix([0.6, 0, 0, th]) if kind == "Ws" else np.array([0.6, 0, 0, 0.8j]))
        ref_state = [obj[i] for i in range(4)]
        mk = lambda st: Wavefunction(sympy.Matrix(list(st)) if any(getattr(sympy.sympify(e), "free_symbols", ()) for e in st) else np.array(list(st), dtype=complex))
    for step in script:
        if isinstance(step, int):
            if kind == "M":
                counts = dict(ADDS[step])
                obj.add_counts(counts)
                check(counts == ADDS[step], "add_counts changes the counts", "argument")
                ref_state = ref_state + [tuple(map(int, b)) for b, c in ADDS[step].items() for _ in range(c)]
            else:
                i, v = SETS[step]
                v = th if v == "theta" else v
                new = list(ref_state)
                new[i] = v
                try:
                    obj[i] = v
                    ref_state = new
                except (ValueError, TypeError):
                    pass
            ctx.step()
            continue
        r = tuple(step)
        got = picture(use(r, obj, {}))
        try:
            other = mk(ref_state)
        except ValueError:
            continue
        want = picture(use(r, other, {}))
        check(
            same(numeric(want), numeric(got)),
            f"{r[0]} after {script} answers differently from an object made in that state: {differ(numeric(want), numeric(got))}",
            "stale",
        )
        ctx.step()
    ctx.state(kind, repr(script))


def numeric(p):
    """Drop how a number is stored, keep which number it is."""
    if isinstance(p, tuple):
        if len(p) == 3 and p[0] == "num":
            return ("num", "", complex(p[2]))
        if len(p) == 2 and p[0] == "sympy":
            try:
                return ("num", "", complex(sympy.sympify(p[1])))
            except (TypeError, ValueError):
                return p
        return tuple(numeric(q) for q in p)
    return p


def cases_changes(tier):
    ms = [["counts", 0], ["distribution", 0], ["expectations", 0], ["save measurements", 0], ["parities", 0]]
    ws = [["probabilities", 0], ["outcome probs", 0], ["sample wf", 0], ["flip", 0], ["wf bind", 0]]
    depth = 4 if tier == "quick" else 5
    for n in range(2, depth + 1):
        for script in itertools.product(ms[:3] + [0, 1] if n > 3 else ms + [0, 1, 2], repeat=n):
            if isinstance(script[-1], list) and any(isinstance(s, int) for s in script):
                yield ["M", list(script)]
    for k in ("W", "Ws"):
        for n in range(2, 4 if tier == "quick" else 5):
            for script in itertools.product(ws[:4] + [0, 1, 2, 3], repeat=n):
                if isinstance(script[-1], list) and any(isinstance(s, int) for s in script):
                    yield [k, list(script)]


FAMILIES = [
    Family("single", cases_single, run_single, "every operation on every tuple of pool objects of the right kinds, called twice"),
    Family("large", cases_large, run_large, "every operation on every tuple of wide circuits, far operations, long sums, many shots and outcomes, called twice"),
    Family("dict", cases_dict, run_dict, "every reader of a dictionary, and every operation on what it returned"),
    Family("vandal", cases_vandal, run_vandal, "reports edited by the caller"),
    Family("chain", cases_chain, run_chain, "every operation on every object returned by every operation"),
    Family("changes", cases_changes, run_changes, "queries interleaved with add_counts / assignment, up to 4 (quick) or 5 steps"),
    Family("pairs", cases_pairs, run_history, "every operation sequence a b a on one shared object"),
    Family("triples", cases_triples, run_history, "every sequence of three operations on one shared object"),
]

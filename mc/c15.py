"""C15: estimation returns one correctly weighted result per task, in task order."""
import itertools

import numpy as np
import sympy

from orquestra.quantum.api.circuit_runner import BaseCircuitRunner
from orquestra.quantum.api.estimation import EstimationTask
from orquestra.quantum.api.wavefunction_simulator import BaseWavefunctionSimulator
from orquestra.quantum.circuits import Circuit
from orquestra.quantum.estimation import (
    calculate_exact_expectation_values,
    estimate_expectation_values_by_averaging,
    evaluate_estimation_circuits,
    evaluate_non_measured_estimation_tasks,
    split_estimation_tasks_to_measure,
)
from orquestra.quantum.measurements import ExpectationValues, Measurements
from orquestra.quantum.operators import PauliSum, PauliTerm
from orquestra.quantum.runners import SymbolicSimulator

from . import gates as G
from . import ref
from .core import Family, check

ASSUMPTIONS = [
    "operators act on qubits of the circuit's register and have real coefficients (stored as float or complex)",
    "tasks that have to be measured ask for a positive number of shots",
    "a constant operator written with several terms may be reported as one or several numbers that sum to the constant",
    "symbol maps map symbols to numbers, to other symbols or to expressions",
]


def real_values(ev, what):
    check(isinstance(ev, ExpectationValues), f"{what}: {ev!r}", "result-type")
    v = np.asarray(ev.values)
    check(v.ndim == 1, f"{what}: values {v!r}", "result-shape")
    check(not np.iscomplexobj(v) or np.all(v.imag == 0), f"{what}: values {v!r}", "result-imaginary")
    return [float(x.real) for x in v]


# ---- operators ---------------------------------------------------------------------------
def operator(spec):
    """[[qubits...], coef] -> term ; {"sum": [terms]} -> sum ; coefficient may be [re, im]"""
    if isinstance(spec, dict):
        return PauliSum([operator(t) for t in spec["sum"]])
    qs, c = spec
    c = complex(*c) if isinstance(c, list) else c
    return PauliTerm({q: "Z" for q in qs}, c)


def terms_of(spec):
    ts = spec["sum"] if isinstance(spec, dict) else [spec]
    return [(tuple(q), (t[0] if isinstance(t, list) else t)) for q, t in ts]


def eig(qs, bits):
    return (-1) ** sum(bits[q] for q in qs)


# ---- runners -----------------------------------------------------------------------------
class Device(BaseCircuitRunner):
    """Deterministic non-eigenstate device: shot i of a circuit with k operations is a fixed pattern."""

    def __init__(self, extra=0, batching=False):
        super().__init__()
        self.extra = extra
        self.log = []
        self.batching = batching

    def _run_and_measure(self, circuit, n_samples):
        self.log.append((circuit, n_samples))
        return Measurements(pattern(circuit, n_samples + self.extra))

    def _run_batch_and_measure(self, batch, samples_per_circuit):
        if not self.batching:
            return super()._run_batch_and_measure(batch, samples_per_circuit)
        top = max(samples_per_circuit)
        return [self._run_and_measure(c, top) for c in batch]


def pattern(circuit, n):
    k = len(circuit.operations)
    w = circuit.n_qubits
    out = []
    for i in range(n):
        x = (k * 5 + i * i * 3 + i) % (2**w) if w else 0
        out.append(tuple((x >> (w - 1 - q)) & 1 for q in range(w)))
    return out


class Native(BaseWavefunctionSimulator):
    def is_natively_supported(self, operation):
        return operation.gate.name == "X"

    def _get_wavefunction_from_native_circuit(self, circuit, initial_state):
        state = initial_state
        for op in circuit.operations:
            state = op.apply(state)
        return state


RUNNERS = {
    "sim": lambda: SymbolicSimulator(),
    "seeded": lambda: SymbolicSimulator(seed=3),
    "native": lambda: Native(),
    "device": lambda: Device(),
    "extra": lambda: Device(2),
    "batching": lambda: Device(0, True),
}

# ---- family: every list of task kinds ----------------------------------------------------
# kind -> (operator for position i, shots)
KINDS = {
    "term": lambda i: ([[0], 1.5 + i], 3 + i),
    "sum": lambda i: ({"sum": [[[0], 0.25 + i], [[], 7.0 + i], [[0, 1], -2.0 - i]]}, 2 + i),
    "const": lambda i: ([[], 100.0 + i], 4),
    "const0": lambda i: ([[], -50.25 - i], 0),
    "constN": lambda i: ([[], [30.5 + i, 0.0]], None),
    "consts": lambda i: ({"sum": [[[], 1.0 + i], [[], 20.0]]}, 5),
    "zero": lambda i: ({"sum": []}, 2),
    "idle": lambda i: ([[1], 9.0 + i], 0),
    "constEq": lambda i: ({"sum": [[[], 2.5 + i]] * (2 + i % 3)}, 3),
    "sumEq": lambda i: ({"sum": [[[0], 0.5 + i]] * 2 + [[[], 0.5 + i], [[0, 1], 0.5 + i], [[0], 0.5 + i]]}, 3 + i),
    "idles": lambda i: ({"sum": [[[0], 3.0 + i], [[], 4.0]]}, 0),
}
TERMS = {"term", "sum", "sumEq"}


def circuit_for(i):
    """Distinct circuit per position (a basis state that depends on i)."""
    return {"n": 2, "ops": [[["X"], [q]] for q in range(2) if (i >> q) & 1] + [[["X"], [0]], [["X"], [0]]] * (i // 4)}


def bits_for(i):
    return (i & 1, (i >> 1) & 1)


def run_list(case, ctx):
    tasks, specs = [], []
    for i, k in enumerate(case["kinds"]):
        spec, shots = KINDS[k](i)
        tasks.append(EstimationTask(operator(spec), G.circuit(circuit_for(i)), shots))
        specs.append((spec, shots))
    kept = list(tasks)
    for name in case["runners"]:
        runner = RUNNERS[name]()
        given = tasks if name != "extra" else tuple(tasks)
        results = estimate_expectation_values_by_averaging(runner, given)
        ctx.step()
        what = f"{name} on {case['kinds']}"
        check(len(results) == len(tasks), f"{what}: {len(results)} results for {len(tasks)} tasks", "count")
        measured = 0
        for i, k in enumerate(case["kinds"]):
            spec, shots = specs[i]
            vals = real_values(results[i], f"{what}: result {i}")
            ts = terms_of(spec)
            const = all(not q for q, _ in ts)
            where = f"{what}: result {i} ({k}) is {vals}"
            if const:
                want = sum(c for _, c in ts)
                check(abs(sum(vals) - want) <= 1e-12 * max(1, abs(want)), f"{where}, the constant is {want}", "constant")
            elif shots == 0:
                check(all(v == 0 for v in vals) and len(vals) >= 1, f"{where}, no shots were requested", "zero-shots")
            else:
                measured += 1
                check(len(vals) == len(ts), f"{where}: {len(vals)} values for {len(ts)} terms", "terms")
                if isinstance(runner, Device):
                    asked = [n for c, n in runner.log if c == tasks[i].circuit]
                    check(any(n >= shots for n in asked), f"{where}: executed with {asked} shots, {shots} requested", "shots")
                    n = max(asked)
                    shots_bits = pattern(tasks[i].circuit, n + runner.extra)
                else:
                    shots_bits = [bits_for(i)]
                for v, (q, c) in zip(vals, ts):
                    want = c * sum(eig(q, b) for b in shots_bits) / len(shots_bits)
                    check(abs(v - want) <= 1e-12 * max(1, abs(want)), f"{where}: term {q} expected {want}", "value")
            ctx.state(i, k, name, tuple(np.round(vals, 9)))
    check(all(a is b for a, b in zip(tasks, kept)), "the task list changed", "mutated")
    # the split is a partition that remembers positions
    yes, no, iy, ino = split_estimation_tasks_to_measure(tasks)
    ctx.step()
    check(sorted(list(iy) + list(ino)) == list(range(len(tasks))), f"{case['kinds']}: indices {iy} and {ino}", "split-indices")
    check([tasks[i] for i in iy] == list(yes) and [tasks[i] for i in ino] == list(no), f"{case['kinds']}: split {iy} {ino}", "split")
    check([case["kinds"][i] in TERMS for i in iy] == [True] * len(iy), f"{case['kinds']}: to measure {iy}", "split")
    check(not any(case["kinds"][i] in TERMS for i in ino), f"{case['kinds']}: not to measure {ino}", "split")
    out = evaluate_non_measured_estimation_tasks(no)
    check(len(out) == len(no), f"{case['kinds']}: {len(out)} results for {len(no)} unmeasured tasks", "non-measured")
    # exact values of the same tasks
    exact = calculate_exact_expectation_values(SymbolicSimulator(), tasks)
    ctx.step()
    check(len(exact) == len(tasks), f"exact: {len(exact)} results", "exact-count")
    for i, (spec, _) in enumerate(specs):
        want = sum(c * eig(q, bits_for(i)) for q, c in terms_of(spec))
        got = sum(real_values(exact[i], f"exact {i}"))
        check(abs(got - want) < 1e-9, f"{case['kinds']}: exact result {i} is {got}, expected {want}", "exact")


def cases_list(tier):
    for k in range(0, 4):
        for kinds in itertools.product(KINDS if k < 3 else list(KINDS)[:9], repeat=k):
            yield {"kinds": list(kinds), "runners": list(RUNNERS) if k <= 2 else ["device", "sim", "batching"]}
    few = ["term", "sum", "const", "consts", "idle", "const0"]
    for k in (4, 5) if tier == "quick" else (4, 5, 6):
        for kinds in itertools.product(few if k < 6 else few[:4], repeat=k):
            if k == 5 and tier == "quick" and len(set(kinds)) < 3:
                continue
            yield {"kinds": list(kinds), "runners": ["device"]}
    for k in (12, 21):  # long lists: one odd task out at every position
        for a, b in itertools.permutations(("term", "const", "idle", "sum"), 2):
            for pos in range(k):
                yield {"kinds": [a] * pos + [b] + [a] * (k - 1 - pos), "runners": ["device"]}


# ---- family: tasks that share circuits ----------------------------------------------------
def run_repeats(case, ctx):
    """Equal circuits (same object or not) in one list, with their own operators and shots."""
    made = {}
    tasks, specs = [], []
    for i, (ci, shots) in enumerate(zip(case["circuits"], case["shots"])):
        circ = G.circuit(circuit_for(ci))
        if case["shared"]:
            circ = made.setdefault(ci, circ)
        spec = [[[0], 1.5 + i], {"sum": [[[0], 0.25 + i], [[0, 1], -2.0 - i]]}, {"sum": [[[1], 1.0], [[1], 1.0]]}][i % 3]
        if case.get("same_op"):
            spec = [[0, 1], 2.0]
        tasks.append(EstimationTask(operator(spec), circ, shots))
        specs.append(spec)
    for name in ("device", "extra", "batching", "sim"):
        runner = RUNNERS[name]()
        results = estimate_expectation_values_by_averaging(runner, tasks)
        ctx.step()
        check(len(results) == len(tasks), f"{name}: {len(results)} results for {len(tasks)} tasks", "count")
        for i, ci in enumerate(case["circuits"]):
            shots = case["shots"][i]
            what = f"{name}: result {i} of circuits {case['circuits']} with shots {case['shots']}"
            vals = real_values(results[i], what)
            ts = terms_of(specs[i])
            check(len(vals) == len(ts), f"{what}: {vals}", "terms")
            if name == "sim":
                runs = [[bits_for(ci)]]
            else:
                asked = {n for c, n in runner.log if c == tasks[i].circuit and n >= shots}
                check(asked, f"{what}: not executed with {shots} shots: {runner.log}", "shots")
                runs = [pattern(tasks[i].circuit, n + runner.extra) for n in asked]
            wants = [[c * sum(eig(q, b) for b in bits) / len(bits) for q, c in ts] for bits in runs]
            check(any(np.allclose(vals, w, rtol=1e-12, atol=1e-12) for w in wants), f"{what}: {vals}, expected one of {wants}", "value")
            ctx.state(i, ci, shots, name, tuple(np.round(vals, 9)))


SHOT_LISTS = [[1, 9], [9, 1], [4, 4], [1, 1], [2, 3, 11]]


def cases_repeats(tier):
    for k in (2, 3, 4, 5, 6) if tier == "quick" else (2, 3, 4, 5, 6, 7, 8):
        for circuits in itertools.product((1, 5, 7), repeat=k):
            if k > 3 and tier == "quick" and (len(set(circuits)) > 2 or circuits[0] > circuits[1] or (k == 6 and circuits[2] != circuits[3])):
                continue
            if k > 6 and (len(set(circuits)) > 2 or circuits[0] != circuits[2]):
                continue
            for pat in SHOT_LISTS:
                for shared in (False, True) if k < 4 else (bool(sum(circuits) & 1),):
                    shots = [pat[min(i, len(pat) - 1)] for i in range(k)] if k % 2 else [pat[i % len(pat)] for i in range(k)]
                    yield {"circuits": list(circuits), "shots": shots, "shared": shared}
    for k in (9, 14, 30):
        for pat in SHOT_LISTS:
            for same in (False, True):
                yield {"circuits": [1 + 4 * (i % 2) for i in range(k)], "shots": [pat[i % len(pat)] for i in range(k)], "shared": False, "same_op": same}
                yield {"circuits": [5] * k, "shots": [pat[min(i, len(pat) - 1)] for i in range(k)], "shared": True, "same_op": same}


# ---- family: circuits that are easily taken for each other --------------------------------
ALIKE = {
    "A": ([[["custom", "look_a"], [0]]], (1, 0)),
    "B": ([[["custom", "look_b"], [0]]], (0, 0)),
    "C": ([[["X"], [1]], [["custom", "look_a"], [0]]], (1, 1)),
    "D": ([[["X"], [1]], [["custom", "look_b"], [0]]], (0, 1)),
    "E": ([[["RX", "pi"], [0]]], (1, 0)),
    "F": ([[["RX", 0], [0]]], (0, 0)),
    "G": ([[["X"], [1]]], (0, 1)),
}


def run_alike(case, ctx):
    """Neighbouring tasks on circuits that print alike, or on the same operator with other circuits."""
    ops = [[[0], 1.0], {"sum": [[[0], 0.5], [[1], 2.0], [[0, 1], -1.0]]}]
    tasks, want = [], []
    for i, k in enumerate(case["circuits"]):
        program, bits = ALIKE[k]
        spec = ops[i % 2 if case["mixed"] else 1]
        if case["mixed"] == "near":  # operators that are equal to the library's tolerance only, or up to the order of terms
            spec = [[[0], 1e-9 * (i + 1)], {"sum": [[[0], 2e-9], [[1], 3.0]]}, {"sum": [[[1], 3.0], [[0], 5e-9]]}][i % 3 if len(case["circuits"]) > 2 else 2 * i % 3]
        tasks.append(EstimationTask(operator(spec), G.circuit({"n": 2, "ops": program}), 3))
        want.append([c * eig(q, bits) for q, c in terms_of(spec)])
    bound = evaluate_estimation_circuits(tasks, [{} for _ in tasks])
    ctx.step()
    check([t.circuit for t in bound] == [t.circuit for t in tasks], "an empty map changes the circuits", "alike-bind")
    for name in ("sim", "native"):
        for ts in (tasks, bound):
            res = estimate_expectation_values_by_averaging(RUNNERS[name](), ts)
            ctx.step()
            for i, (ev, w) in enumerate(zip(res, want)):
                vals = real_values(ev, f"task {i} of {case['circuits']}")
                check(np.allclose(vals, w, rtol=1e-9, atol=1e-15), f"{name}: averaging task {i} of circuits {case['circuits']}: {vals}, expected {w}", "alike-value")
            res = calculate_exact_expectation_values(RUNNERS[name](), ts)
            ctx.step()
            for i, (ev, w) in enumerate(zip(res, want)):
                v = sum(real_values(ev, f"exact task {i} of {case['circuits']}"))
                check(abs(v - sum(w)) < 1e-10 * max(map(abs, w)), f"{name}: exact value of task {i} of circuits {case['circuits']}: {v}, expected {sum(w)}", "alike-exact")
            check(len(res) == len(tasks), f"{len(res)} results for {len(tasks)} tasks", "exact-count")
    ctx.state(tuple(case["circuits"]), case["mixed"])


def cases_alike(tier):
    for k in (2, 3) if tier == "quick" else (2, 3, 4):
        for circuits in itertools.product(ALIKE, repeat=k):
            if tier == "quick" and k == 3 and len(set(circuits)) > 2:
                continue
            for mixed in (False, True, "near"):
                yield {"circuits": list(circuits), "mixed": mixed}


# ---- family: basis states ----------------------------------------------------------------
PREPS = {
    "x": lambda bits: [[["X"], [q]] for q, b in enumerate(bits) if b],
    "xxx": lambda bits: [[["X"], [q]] for q, b in enumerate(bits) if b] * 3,
    "cnot": lambda bits: ([[["X"], [0]]] + [[["CNOT"], [0, q]] for q in range(1, len(bits)) if bits[q]] +
                          ([] if bits[0] else [[["X"], [0]]])) if len(bits) else [],
    "hzh": lambda bits: [o for q, b in enumerate(bits) if b for o in ([["H"], [q]], [["Z"], [q]], [["H"], [q]])],
    "rx": lambda bits: [[["RX", "pi"], [q]] for q, b in enumerate(bits) if b],
}


def run_basis(case, ctx):
    bits = case["bits"]
    n = len(bits)
    circ = G.circuit({"n": n, "ops": PREPS[case["prep"]](bits)})
    tasks, specs = [], []
    supports = [s for L in range(n + 1) for s in itertools.combinations(range(n), L)]
    for j, s in enumerate(supports):
        c = [0.1, -3, 2.5, 1e-3, 1 / 3, -7e5][j % 6]
        spec = [list(s), c]
        tasks.append(EstimationTask(operator(spec), circ, case["shots"]))
        specs.append(spec)
    for a, b in itertools.combinations(supports, 2) if n <= 3 else zip(supports, supports[1:]):
        spec = {"sum": [[list(a), 0.3], [list(b), [-1.7, 0.0]]]}
        tasks.append(EstimationTask(operator(spec), circ, case["shots"]))
        specs.append(spec)
    runner = RUNNERS[case["runner"]]()
    results = estimate_expectation_values_by_averaging(runner, tasks)
    ctx.step(len(tasks))
    check(len(results) == len(tasks), f"{len(results)} results for {len(tasks)} tasks", "count")
    for spec, ev in zip(specs, results):
        ts = terms_of(spec)
        vals = real_values(ev, f"{spec} in {bits}")
        want = [c * eig(q, bits) for q, c in ts]
        if all(not q for q, _ in ts):
            check(abs(sum(vals) - sum(want)) < 1e-12, f"{spec}: {vals}", "constant")
        else:
            check(vals == want, f"{spec} in |{bits}> with {case['shots']} shots: {vals}, expected {want}", "basis-value")
        ctx.state(tuple(bits), tuple(vals))
    exact = calculate_exact_expectation_values(RUNNERS[case["runner"]](), tasks)
    ctx.step(len(tasks))
    for spec, ev in zip(specs, exact):
        want = sum(c * eig(q, bits) for q, c in terms_of(spec))
        got = sum(real_values(ev, "exact"))
        check(abs(got - want) <= 1e-9 * max(1, abs(want)), f"exact {spec} in |{bits}>: {got}, expected {want}", "exact")


def cases_basis(tier):
    for n in range(0, 4 if tier == "quick" else 5):
        for bits in itertools.product((0, 1), repeat=n):
            for prep in PREPS:
                if n == 0 and prep != "x":
                    continue
                for runner in ("sim", "seeded", "native"):
                    for shots in (1, 2, 2**n, 2**n + 1, 7, 49) if tier != 'quick' else (1, 2**n, 2**n + 1, 23):
                        yield {"bits": list(bits), "prep": prep, "runner": runner, "shots": shots}


# ---- family: exact values ----------------------------------------------------------------
def run_exact(case, ctx):
    spec = case["circuit"]
    n = G.width(spec)
    psi = G.ref_run(spec, ref.basis_state([0] * n))
    circ = G.circuit(spec)
    tasks, want = [], []
    words = list(itertools.product("IXYZ", repeat=n))
    for j, w in enumerate(words):
        ops = {q: o for q, o in enumerate(w) if o != "I"}
        c = [1.0, -0.5, 3, 0.01][j % 4]
        tasks.append(EstimationTask(PauliTerm(ops, c), circ, [None, 10, 0][j % 3]))
        want.append(np.vdot(psi, ref.pauli_matrix(ops, c, n) @ psi).real)
    step = max(1, len(words) // 9)
    for a in words[::step]:
        for b in words[1::step]:
            ts = [({q: o for q, o in enumerate(w) if o != "I"}, c) for w, c in ((a, 0.7), (b, -1.25), (a, 0.05))]
            tasks.append(EstimationTask(PauliSum([PauliTerm(o, c) for o, c in ts]), circ, None))
            want.append(sum(np.vdot(psi, ref.pauli_matrix(o, c, n) @ psi).real for o, c in ts))
    for spec_terms in sums_with_repeats(n):
        tasks.append(EstimationTask(PauliSum([PauliTerm(o, c) for o, c in spec_terms]), circ, None))
        want.append(sum(np.vdot(psi, ref.pauli_matrix(o, c, n) @ psi).real for o, c in spec_terms))
    for name in case["runners"]:
        res = calculate_exact_expectation_values(RUNNERS[name](), tasks)
        ctx.step(len(tasks))
        check(len(res) == len(tasks), f"{len(res)} results for {len(tasks)} tasks", "exact-count")
        for t, ev, w in zip(tasks, res, want):
            v = real_values(ev, f"{t.operator}")
            check(abs(sum(v) - w) < 1e-8, f"exact {t.operator} in {circ}: {v}, expected {w}", "exact")
            ctx.state(round(w, 7))


def sums_with_repeats(n):
    """Sums as they come out of addition: like and equal terms side by side, constants among them."""
    if n == 0:
        return
    z, x, y = ({0: "Z"}, {n - 1: "X"}, {q: "Y" for q in range(n)})
    c = {}
    for coef in (0.5, complex(0.5), -1, 1 / 3):
        yield [(c, coef), (z, 1.0), (c, coef)]
        yield [(c, coef), (c, coef)]
        yield [(c, coef), (c, coef), (c, coef), (x, coef), (x, coef)]
        yield [(z, coef), (z, coef)]
        yield [(y, coef), (x, 2.0), (y, coef), (z, coef), (c, coef), (z, -coef)]
        yield [(c, coef), (c, -coef), (y, coef)]
        yield [(c, coef)]
        yield [(o, coef) for o in (z, c, x, y) for _ in range(3)]
    yield []


def cases_exact(tier):
    for i, c in enumerate(exact_circuits(tier)):
        yield {"circuit": c, "runners": ["sim", "native"] if i % 5 == 0 or tier != "quick" else ["sim"]}


def exact_circuits(tier):
    one = [[["H"], [0]], [["RX", 0.7], [0]], [["T"], [0]], [["RY", -1.1], [0]], [["U3", 0.3, 0.5, 0.7], [0]]]
    for k in (1, 2):
        for ops in itertools.product(one, repeat=k):
            yield {"n": 1, "ops": list(ops)}
    two = [[["H"], [0]], [["RX", 0.7], [1]], [["RY", 1.3], [0]], [["CNOT"], [0, 1]], [["CNOT"], [1, 0]], [["XX", 0.4], [0, 1]], [["S"], [1]]]
    for ops in itertools.product(two, repeat=2 if tier == "quick" else 4):
        yield {"n": 2, "ops": list(ops)}
    three = [[["RY", 0.9], [0]], [["RX", 0.7], [2]], [["CNOT"], [0, 2]], [["CNOT"], [2, 1]], [["H"], [1]]]
    for ops in itertools.product(three, repeat=2 if tier == "quick" else 4):
        yield {"n": 3, "ops": list(ops)}
    yield {"n": 3, "ops": []}


# ---- family: binding ---------------------------------------------------------------------
BIND_CIRCUITS = [
    {"n": 2, "ops": [[["RX", "theta_0"], [0]], [["RY", "theta_1"], [1]]]},
    {"n": 3, "ops": [[["RX", "theta_0 + 2*theta_1"], [0]], [["CNOT"], [0, 1]], [["c", 1, ["RZ", "theta_0*theta_1"]], [2, 0]]]},
    {"n": 2, "ops": [[["dag", ["U3", "theta_0", 0.3, "theta_2"]], [1]], [["X"], [0]]]},
    {"n": 1, "ops": []},
    {"n": 4, "ops": [[["XX", "theta_2"], [3, 1]]]},
]
MAPS = [
    {"theta_0": 0.4, "theta_1": -1.2, "theta_2": 2.2},
    {"theta_0": 1.7},
    {"theta_1": 0.0, "theta_2": -0.6},
    {},
    {"theta_0": "$theta_1", "theta_1": "$theta_0"},
    {"theta_0": "gamma/2", "alpha": 3.0},
]


def build_map(m, form):
    d = {sympy.Symbol(k): G.param(v) for k, v in m.items()}
    return d if form == "dict" else list(d.items())


LEFT = {sympy.Symbol(k): v for k, v in {"theta_0": 0.91, "theta_1": 0.37, "theta_2": -0.55, "gamma": 1.3}.items()}


def run_bind(case, ctx):
    tasks = []
    for j, ci in enumerate(case["circuits"]):
        opspec = [{"sum": [[[0], 1.0 + j], [[], 0.5]]}, [[0], 2.0 + j], [[], 3.0]][j % 3]
        tasks.append(EstimationTask(operator(opspec), G.circuit(BIND_CIRCUITS[ci]), [5, 0, None, 7][j % 4]))
    before = [(t.operator, t.circuit, t.number_of_shots, str(t)) for t in tasks]
    maps = [build_map(MAPS[mi], case["form"]) for mi in case["maps"]]
    kept = [dict(m) for m in maps]
    new = evaluate_estimation_circuits(tasks, maps)
    ctx.step()
    check(len(new) == len(tasks), f"{len(new)} tasks from {len(tasks)}", "bind-count")
    check(before == [(t.operator, t.circuit, t.number_of_shots, str(t)) for t in tasks], "binding changed its argument", "mutated")
    check([dict(m) for m in maps] == kept, "binding changed the maps", "mutated")
    for j, (t, u) in enumerate(zip(tasks, new)):
        what = f"circuit {case['circuits'][j]} with map {MAPS[case['maps'][j]]}"
        check(u.operator == t.operator and str(u.operator) == str(t.operator), f"{what}: operator {u.operator}", "bind-operator")
        check(u.number_of_shots == t.number_of_shots, f"{what}: shots {u.number_of_shots}", "bind-shots")
        spec = BIND_CIRCUITS[case["circuits"][j]]
        env = dict(LEFT)
        for k, v in MAPS[case["maps"][j]].items():
            env[sympy.Symbol(k)] = ref.cnum(sympy.sympify(G.param(v)), LEFT)
        check(u.circuit.n_qubits == t.circuit.n_qubits, f"{what}: width {u.circuit.n_qubits}", "bind-width")
        check(len(u.circuit.operations) == len(spec["ops"]), f"{what}: {u.circuit}", "bind-ops")
        left = set()
        for a, b in zip(t.circuit.operations, u.circuit.operations):
            check(b.qubit_indices == a.qubit_indices, f"{what}: {b} from {a}", "bind-qubits")
            got = ref.num(b.gate.matrix, LEFT)
            want = ref.num(a.gate.matrix, env)
            check(ref.close(got, want), f"{what}: {b} from {a}", "bind-value")
            left |= set(b.free_symbols)
        bound = {sympy.Symbol(k) for k in MAPS[case["maps"][j]]}
        want_free = set()
        for s in t.circuit.free_symbols:
            if s in bound:
                v = G.param(MAPS[case["maps"][j]][s.name])
                want_free |= v.free_symbols if isinstance(v, sympy.Basic) else set()
            else:
                want_free.add(s)
        check(left == want_free, f"{what}: free symbols {left}, expected {want_free}", "bind-free")
        ctx.state(j, case["circuits"][j], case["maps"][j])


def cases_bind(tier):
    C, M = range(len(BIND_CIRCUITS)), range(len(MAPS))
    for form in ("dict",):
        yield {"circuits": [], "maps": [], "form": form}
        for c in C:
            for m in M:
                yield {"circuits": [c], "maps": [m], "form": form}
    for cs in itertools.product(C, repeat=2):
        for ms in itertools.product(M, repeat=2):
            yield {"circuits": list(cs), "maps": list(ms), "form": "dict"}
    L = 3 if tier == "quick" else 4
    for cs in itertools.product((0, 1, 2), repeat=L):
        for ms in itertools.product((0, 1, 3, 4), repeat=L):
            yield {"circuits": list(cs), "maps": list(ms), "form": "dict"}


FAMILIES = [
    Family("lists", cases_list, run_list,
           "every task list of length <=3 over 9 (pairs: 11) task kinds x runners, <=5 (6) over 6 kinds, long lists with one odd task"),
    Family("repeats", cases_repeats, run_repeats,
           "lists of 2..6 (8) tasks over three circuits, equal or shared, with five shot patterns; long lists"),
    Family("look-alikes", cases_alike, run_alike, "every list of <=3 (4) tasks over circuits that print alike or are equal up to parameters: averaging, exact values, empty maps"),
    Family("basis", cases_basis, run_basis, "every basis state of <=3 (4) qubits, 5 preparations, every Z support and pair, 7 shot counts"),
    Family("exact", cases_exact, run_exact, "all circuits of 2 (4) gates from an alphabet on <=3 qubits, every Pauli string and sums"),
    Family("bind", cases_bind, run_bind, "every list of <=3 (4) tasks with every choice of maps"),
]

"""C01: a circuit acts as the ordered product of its gates on the named qubits."""
import functools
import itertools
import json

import numpy as np
import sympy

from orquestra.quantum.api.wavefunction_simulator import BaseWavefunctionSimulator
from orquestra.quantum.circuits import Circuit, GateOperation, MultiPhaseOperation
from orquestra.quantum.runners import SymbolicSimulator

from . import gates as G
from . import ref
from .core import Family, check

ASSUMPTIONS = [
    "numeric comparison to 1e-8 relative; generic dense custom matrices with pairwise "
    "distinct entries pin down index placement for every matrix of that arity",
]

P1, P2, P3 = 0.7, -1.3, 2.1


def builtin_specs():
    out = []
    for name in G.ALL_BUILTINS:
        k = G.NPARAMS.get(name, 0)
        out.append([name] + [P1, P2, P3][:k])
    return out


WRAPPED = [
    ["dag", ["S"]], ["dag", ["U3", P1, P2, P3]], ["dag", ["custom", "u1"]],
    ["dag", ["ISWAP"]], ["dag", ["custom", "u2"]],
    ["pow", 2, ["T"]], ["pow", -1, ["custom", "u1"]], ["exp", ["X"]],
    ["c", 1, ["RX", P1]], ["c", 1, ["custom", "g1"]], ["c", 1, ["dag", ["T"]]],
    ["c", 1, ["H"]], ["dag", ["c", 1, ["U3", P1, P2, P3]]], ["pow", 3, ["c", 1, ["S"]]],
    ["c", 2, ["X"]], ["c", 2, ["custom", "g1"]], ["c", 1, ["SWAP"]],
    ["c", 1, ["custom", "g2"]], ["c", 1, ["ISWAP"]], ["c", 1, ["MS", P1, P2]],
    ["dag", ["custom", "u3c"]],
    ["c", 3, ["X"]], ["c", 3, ["U3", P1, P2, P3]], ["c", 2, ["custom", "g2"]],
    ["c", 1, ["custom", "g3"]], ["dag", ["custom", "u4"]],
]
CUSTOMS = [["custom", k] for k in ("g1", "g2", "g3", "g4", "p1", "p2", "sq1", "rat1")]
CUSTOMS[4] = ["custom", "p1", P1, P2]
CUSTOMS[5] = ["custom", "p2", P1, P2]


def all_gates():
    return builtin_specs() + CUSTOMS + WRAPPED


def initial_states(n):
    """(label, vector) - basis states, generic, real, integer dtype."""
    d = 2**n
    out = [("generic", ref.generic_state(n))]
    e = np.zeros(d, dtype=int)
    e[d - 1] = 1
    out.append(("int-last", e))
    r = np.arange(1, d + 1, dtype=float)
    out.append(("real", r / np.linalg.norm(r)))
    return out


# ------------------------------------------------------------------ placement
def placement_cases(tier):
    maxn = 4 if tier == "quick" else 5
    for n in range(1, maxn + 1):
        for g in all_gates():
            k = G.arity(g)
            if k > n:
                continue
            for qs in ref.ordered_tuples(n, k):
                yield {"n": n, "ops": [[g, qs]]}
    # wider registers for the dense gates that determine placement, every tuple
    for n, arities in ((5, (1, 2, 3, 4)), (6, (1, 2, 3)), (7, (1, 2))):
        for k in arities:
            if tier == "quick" and (n, k) in ((5, 4), (6, 3), (7, 2)):
                tuples = [t for t in ref.ordered_tuples(n, k) if t[0] > t[-1]][::3]
            else:
                tuples = ref.ordered_tuples(n, k)
            for qs in tuples:
                yield {"n": n, "ops": [[["custom", f"g{k}"], qs]]}
    # two-digit qubit indices
    big = [(9, [8, 0]), (9, [0, 8, 4]), (10, [9, 1]), (10, [3, 9, 0, 6]), (11, [10, 2]),
           (11, [10]), (11, [2, 10, 1])]
    for n, qs in big:
        yield {"n": n, "ops": [[["custom", f"g{len(qs)}"], qs]], "novec": n > 10}


def placement_run(case, ctx):
    n = case["n"]
    spec = {"n": n, "ops": case["ops"]}
    g, qs = case["ops"][0]
    circ = G.circuit(spec)
    check(circ.n_qubits == n, f"width {circ.n_qubits} != {n}")
    want = ref.embed(G.gate_matrix_spec(g), qs, n)
    got = ref.num(circ.to_unitary())
    ctx.step()
    check(ref.close(got, want), f"to_unitary of {circ} is not the gate placed on {qs}")
    ctx.state("u", ref.digest(got))
    operation = G.op(case["ops"][0])
    for label, v in initial_states(n):
        keep = v.copy()
        res = operation.apply(v)
        ctx.step()
        check(
            ref.close(ref.num(res).reshape(-1), ref.apply(G.gate_matrix_spec(g), qs, n, keep)),
            f"apply of {operation} on {label} state of {n} qubits",
        )
        check(np.array_equal(v, keep), "apply changed its input vector")
        if n >= 7:
            break
    if not any(t in str(g) for t in ("g1", "g2", "g3", "g4", "exp")) and n <= 5:
        v = ref.generic_state(n, 1)
        wf = SymbolicSimulator().get_wavefunction(circ, v)
        ctx.step()
        check(ref.close(ref.num(wf.amplitudes), ref.apply(G.gate_matrix_spec(g), qs, n, v)),
              f"simulator on {circ}")


# ------------------------------------------------------------------ programs
def seq_alphabet(tier):
    ops = [
        [["H"], [0]], [["S"], [2]], [["custom", "u1"], [1]], [["U3", P1, P2, P3], [0]],
        [["CNOT"], [2, 0]], [["CNOT"], [0, 1]], [["custom", "u2"], [2, 0]],
        [["custom", "u2"], [1, 2]], [["dag", ["custom", "u2"]], [0, 1]],
        [["MS", P1, P2], [2, 1]], [["c", 1, ["RY", P1]], [1, 0]],
        [["custom", "u3c"], [2, 0, 1]], [["c", 2, ["custom", "u1"]], [1, 2, 0]],
        [["pow", -1, ["T"]], [1]], [["XY", P2], [0, 2]], [["RH", P3], [2]],
        [["SX"], [1]], [["Y"], [0]], [["CPHASE", P1], [0, 2]], [["SWAP"], [1, 2]],
    ]
    return ops


def programs_cases(tier):
    A = seq_alphabet(tier)
    yield {"n": 2, "ops": []}
    yield {"n": 1, "ops": []}
    for n in (3, 4):
        for o in A:
            yield {"n": n, "ops": [o]}
    for n in (None, 4):
        for pair in itertools.product(A, repeat=2):
            yield {"n": n, "ops": list(pair)}
    B = A[:13] if tier == "quick" else A
    for t in itertools.product(B, repeat=3):
        yield {"n": 3, "ops": list(t)}
    # the same operation repeated
    for o in A:
        for rep in (4, 5, 9):
            yield {"n": 3, "ops": [o] * rep}
    # longer programs: every rotation of the alphabet
    for k in range(len(A)):
        yield {"n": 4, "ops": A[k:] + A[:k]}
        yield {"n": 3, "ops": (A[k:] + A[:k])[::-1]}
    # 5-qubit programs of length 2 over spread tuples
    C = [[["custom", "u2"], [4, 1]], [["custom", "u3c"], [3, 0, 4]], [["custom", "u4"], [4, 2, 0, 3]],
         [["custom", "u1"], [2]], [["c", 3, ["H"]], [1, 4, 0, 2]], [["SWAP"], [0, 4]],
         [["custom", "u2"], [1, 4]], [["c", 1, ["ISWAP"]], [2, 4, 1]]]
    for pair in itertools.product(C, repeat=2):
        yield {"n": 5, "ops": list(pair)}
    if tier != "quick":
        D = [A[i] for i in (0, 2, 3, 4, 6, 9, 11, 12)]
        for t in itertools.product(D, repeat=4):
            yield {"n": 3, "ops": list(t)}
        for t in itertools.product(C, repeat=3):
            yield {"n": 5, "ops": list(t)}


def programs_run(case, ctx):
    circ = G.circuit(case)
    n = G.width(case)
    check(circ.n_qubits == n, f"register width {circ.n_qubits}, expected {n}")
    want = G.ref_unitary(case)
    got = ref.num(circ.to_unitary())
    ctx.step()
    check(ref.close(got, want), f"to_unitary of {circ} is not the ordered product")
    ctx.state("u", ref.digest(got))
    v0 = ref.generic_state(n, 2)
    v = v0
    expect = v0
    for i, o in enumerate(circ.operations):
        v = o.apply(v)
        expect = G.ref_run({"n": n, "ops": case["ops"][i:i + 1]}, expect)
        ctx.step()
        check(ref.close(ref.num(v).reshape(-1), expect), f"state after operation {i} ({o})")
        ctx.state("psi", ref.digest(expect))
    wf = SymbolicSimulator().get_wavefunction(circ, v0)
    ctx.step()
    check(ref.close(ref.num(wf.amplitudes), want @ v0), f"simulator final state of {circ}")
    wf = SymbolicSimulator().get_wavefunction(circ)
    ctx.step()
    check(ref.close(ref.num(wf.amplitudes), want[:, 0]), f"simulator from |0..0> of {circ}")


# ------------------------------------------------------------------ long programs, many qubits
LENGTHS = [15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 130, 200, 255, 256, 257, 300]


def long_cases(tier):
    A = [o for o in seq_alphabet(tier) if o[0][0] not in ("U3", "dag", "MS", "RH") and "u3c" not in o[0]
         and o[0][:2] != ["c", 2]]
    sizes = LENGTHS if tier == "quick" else LENGTHS + [400, 511, 512, 513, 700, 1000, 1023, 1024, 1025]
    for L in sizes:
        for k in (0, 7) if tier == "quick" else range(0, len(A), 3):
            for stride in (1, 3):
                yield {"n": 3, "ops": [A[(k + stride * i) % len(A)] for i in range(L)]}
        # one operation over and over, and runs of equal operations
        a, b, c = [["custom", "u2"], [1, 0]], [["U3", P1, P2, P3], [2]], [["T"], [0]]
        for ops in ([a] * L, [b] * L, [(a, a, b, c, c)[i % 5] for i in range(L)]):
            yield {"n": 3, "ops": ops}
    for n in (10, 11):
        for qs in ([n - 1, 0], [0, n - 1], [9, 2], [2, 9], [n - 1, n - 2]):
            yield {"n": n, "ops": [[["custom", "u2"], qs], [["U3", P1, P2, P3], [qs[0]]]]}
    # many different qubits: neighbours, every pair at a distance, reversed order
    for n in (6, 7, 8, 9) if tier == "quick" else (6, 7, 8, 9, 10):
        ladder = [[["custom", "u2"], [i + 1, i]] for i in range(n - 1)]
        yield {"n": n, "ops": ladder}
        yield {"n": n, "ops": ladder[::-1] + [[["U3", P1, P2, P3], [i]] for i in range(n)]}
        yield {"n": n, "ops": [[["custom", "u3c"], [i, (i + n // 2) % n, (i + 1) % n]] for i in range(0, n, 2)]}
        yield {"n": None, "ops": [[["U3", P1, P2, P3], [n - 1]], [["CNOT"], [n - 1, 0]], [["custom", "u2"], [0, n - 2]]]}


def long_run(case, ctx):
    circ = G.circuit(case)
    n = G.width(case)
    check(circ.n_qubits == n, f"register width {circ.n_qubits}, expected {n}")
    v0 = ref.generic_state(n, 2)
    want = v0
    for o in case["ops"]:
        want = ref.apply(cached_matrix(o[0]), o[1], n, want)
    if n <= 8:
        got = ref.num(circ.to_unitary()) @ v0
        ctx.step()
        check(ref.close(got, want), f"to_unitary of a program of {len(case['ops'])} operations is not the ordered product")
    ctx.state("psi", ref.digest(want))
    wf = SymbolicSimulator().get_wavefunction(circ, v0)
    ctx.step(len(case["ops"]))
    check(ref.close(ref.num(wf.amplitudes), want), f"simulator on a program of {len(case['ops'])} operations")


@functools.lru_cache(maxsize=None)
def _matrix(text):
    return G.gate_matrix_spec(json.loads(text))


def cached_matrix(spec):
    return _matrix(json.dumps(spec))


# ------------------------------------------------------------------ symbolic programs
SUBS = {"theta": 0.83, "phi": -1.91, "lam": 0.4, "$x[3]": 1.25, "$beta": 0.31}


def symbolic_cases(tier):
    A = [
        [["RX", "theta"], [1]], [["RZ", "2*theta+phi"], [0]], [["RY", "$x[3]"], [1]],
        [["CPHASE", "theta*phi"], [1, 0]], [["c", 1, ["RX", "phi"]], [0, 1]],
        [["dag", ["RX", "theta"]], [0]], [["custom", "p1", "theta", 0.3], [1]],
        [["MS", "theta", "phi"], [1, 0]], [["dag", ["custom", "p1", "phi", "theta"]], [0]],
        [["XX", "$beta"], [0, 1]], [["GPi2", "theta"], [0]],
        [["H"], [0]], [["custom", "u2"], [1, 0]], [["CNOT"], [1, 0]], [["T"], [1]],
    ]
    U = [[["U3", "theta", "phi", "lam"], [0]]]
    for o in A[:11] + U:
        yield {"n": 2, "ops": [o]}
        yield {"n": 3, "ops": [o]}
    for i, j in itertools.product(range(len(A)), repeat=2):
        if i < 11 or j < 11:
            if tier == "quick" and not (i >= 11 or j >= 11 or (i + j) % 4 == 0):
                continue
            yield {"n": 2, "ops": [A[i], A[j]]}
    three = [
        [["c", 2, ["RX", "theta"]], [2, 0, 1]], [["custom", "p2", "theta", "phi"], [2, 0]],
        [["c", 1, ["custom", "p1", "phi", "theta"]], [2, 0]], [["XY", "theta"], [0, 2]],
        [["ZZ", "phi"], [2, 1]],
    ]
    for o in three:
        yield {"n": 3, "ops": [o]}
        yield {"n": None, "ops": [o, [["custom", "u2"], [0, 2]]]}
        yield {"n": None, "ops": [[["custom", "u3c"], [1, 2, 0]], o]}


def symbolic_run(case, ctx):
    circ = G.circuit(case)
    n = G.width(case)
    check(circ.n_qubits == n, "register width")
    subs = G.subs_values(SUBS)
    want = G.ref_unitary(case, subs)
    got = ref.num(sympy.Matrix(circ.to_unitary()), subs)
    ctx.step()
    check(ref.close(got, want), f"symbolic to_unitary of {circ}")
    ctx.state("u", ref.digest(got))
    v0 = ref.generic_state(n, 3)
    v = v0
    for o in circ.operations:
        v = o.apply(v)
        ctx.step()
    check(ref.close(ref.num(v, subs).reshape(-1), want @ v0), f"apply chain of symbolic {circ}")
    if case["ops"][0][0][0] not in ("exp",) and n <= 2:
        vb = sympy.Matrix(2**n, 1, [sympy.Symbol(f"s{i}") for i in range(2**n)])
        w = vb
        for o in circ.operations:
            w = o.apply(w)
            ctx.step()
        sub2 = dict(subs)
        sub2.update({sympy.Symbol(f"s{i}"): complex(v0[i]) for i in range(2**n)})
        check(ref.close(ref.num(w, sub2).reshape(-1), want @ v0), f"apply to symbolic state of {circ}")
        wf = SymbolicSimulator().get_wavefunction(circ)
        ctx.step()
        check(
            ref.close(ref.num(wf.amplitudes, subs).reshape(-1), want[:, 0]),
            f"simulator on symbolic {circ}",
        )


# ------------------------------------------------------------------ concatenation
def concat_cases(tier):
    A = [
        {"n": None, "ops": []}, {"n": 3, "ops": []},
        {"n": None, "ops": [[["custom", "u1"], [0]]]},
        {"n": 4, "ops": [[["custom", "u2"], [2, 0]]]},
        {"n": None, "ops": [[["custom", "u3c"], [1, 2, 0]], [["S"], [1]]]},
        {"n": 2, "ops": [[["H"], [1]], [["T"], [0]]]},
        {"n": None, "ops": [[["CNOT"], [3, 1]]]},
        {"op": [["custom", "u1"], [2]]}, {"op": [["CNOT"], [0, 3]]}, {"op": [["custom", "u3c"], [1, 3, 0]]},
    ]
    depth = 4 if tier == "quick" else 5
    circs = [a for a in A if "op" not in a]
    for first in circs:
        for L in range(1, depth):
            for rest in itertools.product(A, repeat=L):
                if L >= 3 and tier == "quick" and any("op" not in r and not r["ops"] for r in rest[1:]):
                    continue
                yield [first, *rest]


def concat_run(case, ctx):
    acc = G.circuit(case[0])
    model = {"n": G.width(case[0]), "ops": list(case[0]["ops"])}
    for item in case[1:]:
        before = (acc.n_qubits, list(acc.operations))
        if "op" in item:
            rhs = G.op(item["op"])
            new = acc + rhs
            model = {"n": max(model["n"], max(item["op"][1]) + 1), "ops": model["ops"] + [item["op"]]}
        else:
            rhs = G.circuit(item)
            rhs_before = (rhs.n_qubits, list(rhs.operations))
            new = acc + rhs
            model = {"n": max(model["n"], G.width(item)), "ops": model["ops"] + item["ops"]}
            check((rhs.n_qubits, list(rhs.operations)) == rhs_before, "right operand changed")
        ctx.step()
        check((acc.n_qubits, list(acc.operations)) == before, "left operand changed")
        check(new.n_qubits == model["n"], f"width {new.n_qubits}, expected {model['n']}")
        check(len(new.operations) == len(model["ops"]), "number of operations")
        acc = new
        ctx.state("c", str(model))
    if model["n"]:
        got = ref.num(acc.to_unitary())
        ctx.step()
        check(ref.close(got, G.ref_unitary(model)), f"composition {acc}")


# ------------------------------------------------------------------ native / non-native
class SplitSimulator(BaseWavefunctionSimulator):
    def __init__(self, mask, ops, log):
        super().__init__()
        self._mask, self._ops, self.log = mask, ops, log

    def _native(self, operation):
        for o, m in zip(self._ops, self._mask):
            if o is operation:
                return bool(m)
        for o, m in zip(self._ops, self._mask):  # equal copies are fine too
            if o == operation:
                return bool(m)
        raise AssertionError("simulator asked about an operation not in the circuit")

    def is_natively_supported(self, operation):
        return self._native(operation)

    def _get_wavefunction_from_native_circuit(self, circuit, initial_state):
        state = np.asarray(initial_state, dtype=complex).reshape(-1)
        n = circuit.n_qubits
        check(len(state) == 2**n, f"native part of width {n} got a state of length {len(state)}")
        for o in circuit.operations:
            check(self._native(o), "non-native operation handed to the native backend")
            if isinstance(o, GateOperation):
                state = ref.apply(G.gate_matrix(o.gate), list(o.qubit_indices), n, state)
            else:
                state = np.exp(1j * np.array([float(p) for p in o.params])) * state
            self.log.append(o)
        return state


MP2 = ["mp", [0.1, 0.9, -1.7, 2.4]]
MP2b = ["mp", [1, -0.5, 0, 3]]
MP3 = ["mp", [0.3, 0.1, -0.6, 1.2, 2.2, -2.9, 0.05, 0.77]]


def native_cases(tier):
    two = [[["H"], [0]], [["custom", "u2"], [1, 0]], [["S"], [1]], [["CNOT"], [0, 1]], MP2, MP2b,
           [["c", 1, ["RY", P1]], [1, 0]]]
    maxlen = 4 if tier == "quick" else 5
    yield {"c": {"n": 2, "ops": []}, "mask": []}
    for L in range(1, maxlen + 1):
        for ops in itertools.permutations(two, L):
            if L >= 4 and sum(o[0] == "mp" for o in ops) == 0:
                continue
            if L == 4 and tier == "quick" and two.index(list(ops[0])) > 1:
                continue
            if L == 5 and two.index(list(ops[0])) > 2:
                continue
            for mask in itertools.product((0, 1), repeat=L):
                yield {"c": {"n": 2, "ops": list(ops)}, "mask": list(mask)}
    three = [[["custom", "u3c"], [2, 0, 1]], MP3, [["CNOT"], [2, 0]], [["U3", P1, P2, P3], [1]]]
    for L in (2, 3, 4):
        for ops in itertools.permutations(three, L):
            for mask in itertools.product((0, 1), repeat=L):
                yield {"c": {"n": 3, "ops": list(ops)}, "mask": list(mask)}
    # idle qubits on top of the gates
    for mask in itertools.product((0, 1), repeat=2):
        yield {"c": {"n": 4, "ops": [[["custom", "u2"], [2, 0]], [["H"], [1]]]}, "mask": list(mask)}


def native_run(case, ctx):
    spec = case["c"]
    circ = G.circuit(spec)
    n = G.width(spec)
    for label, init in [("default", None)] + initial_states(n)[:2]:
        log = []
        sim = SplitSimulator(case["mask"], list(circ.operations), log)
        v = init if init is not None else ref.basis_state([0] * n)
        wf = sim.get_wavefunction(circ) if init is None else sim.get_wavefunction(circ, init)
        ctx.step()
        got = ref.num(wf.amplitudes).reshape(-1)
        check(ref.close(got, G.ref_run(spec, v)), f"final state from {label} with native mask {case['mask']} of {circ}")
        check(len(log) == sum(case["mask"]), "every native operation runs exactly once")
        ctx.state("psi", ref.digest(got))
    ctx.outcome("native-runs-%d" % sum(1 for k, _ in itertools.groupby(case["mask"]) if k))
    # the bundled simulator with its default notion of native
    wf = SymbolicSimulator().get_wavefunction(circ, ref.generic_state(n, 1))
    ctx.step()
    check(ref.close(ref.num(wf.amplitudes).reshape(-1), G.ref_run(spec, ref.generic_state(n, 1))),
          f"bundled simulator on {circ}")


def kinds_cases(tier):
    """Predicates over kinds of operations (all subsets of kinds)."""
    kinds = ["H", "CNOT", "custom", "mp", "T"]
    ops = [[["H"], [0]], [["CNOT"], [0, 1]], MP2, [["H"], [1]], [["custom", "u2"], [1, 0]], [["T"], [0]],
           [["CNOT"], [1, 0]], MP2b, [["H"], [0]]]
    for mask in itertools.product((0, 1), repeat=len(kinds)):
        for k in range(len(ops)):
            yield {"native": [x for x, m in zip(kinds, mask) if m], "ops": ops[k:] + ops[:k]}


class KindSimulator(BaseWavefunctionSimulator):
    def __init__(self, native):
        super().__init__(seed=3)
        self.native = native

    def is_natively_supported(self, operation):
        if isinstance(operation, MultiPhaseOperation):
            return "mp" in self.native
        name = operation.gate.name
        return (name if name in ("H", "CNOT", "T") else "custom") in self.native

    def _get_wavefunction_from_native_circuit(self, circuit, initial_state):
        state = np.asarray(initial_state, dtype=complex)
        for o in circuit.operations:
            check(self.is_natively_supported(o), "non-native operation in native part")
            state = o.apply(state)
        return state


def kinds_run(case, ctx):
    spec = {"n": 2, "ops": case["ops"]}
    circ = G.circuit(spec)
    sim = KindSimulator(case["native"])
    for init in (ref.basis_state([0, 0]), ref.generic_state(2), ref.basis_state([1, 0])):
        wf = sim.get_wavefunction(circ, init)
        ctx.step()
        check(ref.close(ref.num(wf.amplitudes).reshape(-1), G.ref_run(spec, init)),
              f"native kinds {case['native']} on {circ}")
        ctx.state(ref.digest(ref.num(wf.amplitudes)))


# ------------------------------------------------------------------ random-access chains
FAMILIES = [
    Family("placement", placement_cases, placement_run,
           "every built-in/custom/wrapped gate (arity 1..4) on every ordered tuple of distinct "
           "qubits, widths 1..4 (thorough 5); dense gates on widths up to 7; indices up to 10"),
    Family("programs", programs_cases, programs_run,
           "all programs of length <=2 (20 ops, 3 and 4 qubits), length 3 (13 ops; thorough 20 and length 4), "
           "5-qubit pairs, long rotations"),
    Family("look-alikes", lambda tier: G.lookalike_circuits(), programs_run,
           "every ordered pair in 18 groups of gates sharing name, text, parameters or shape, in 3 arrangements"),
    Family("long-programs", long_cases, long_run,
           "programs of 15..300 (thorough 1025) operations around every power of two, ladders on 6..9 qubits, pairs on 10 and 11; runs of equal operations"),
    Family("symbolic", symbolic_cases, symbolic_run, "programs of length <=2 with free symbols"),
    Family("concat", concat_cases, concat_run, "all + chains of length <=3 (thorough 4) over 10 operands"),
    Family("native-masks", native_cases, native_run,
           "all orders of <=4 (thorough 5) distinct operations x all native/non-native masks"),
    Family("native-kinds", kinds_cases, kinds_run, "all 2^5 native kind sets x 9 rotations x 3 initial states"),
]

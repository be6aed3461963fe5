"""C08: circuit-level constructions: inverse, controlled, gate layers, ancillas."""
import itertools

import numpy as np
import scipy.linalg
import sympy

from orquestra.quantum import circuits as oc

from . import gates as G
from . import ref
from .core import Family, Violation, check

ASSUMPTIONS = [
    "the identity check of circuit + inverse is made for unitary gates; circuits with exp gates (not unitary) are "
    "checked for the conjugate-transposed matrix only",
]
SUBS = {"theta": 0.71, "phi": -0.4, "a": 0.37, "b": -1.21, "lam": 1.3}


def subs():
    return {sympy.Symbol(k): v for k, v in SUBS.items()}


def numc(c):
    return ref.num(c.to_unitary(), subs())


# ---------------------------------------------------------------- inverse and controlled
OPS = [
    [["SX"], [0]],
    [["T"], [1]],
    [["H"], [2]],
    [["RX", 0.3], [1]],
    [["U3", 0.5, 0.25, 1.1], [0]],
    [["custom", "u2"], [2, 0]],
    [["ISWAP"], [0, 1]],
    [["CNOT"], [2, 1]],
    [["c", 1, ["dag", ["T"]]], [1, 0]],
    [["dag", ["custom", "u1"]], [1]],
    [["pow", 3, ["SX"]], [0]],
    [["pow", 0.5, ["T"]], [2]],
    [["c", 1, ["pow", -2, ["RZ", 0.7]]], [0, 2]],
    [["dag", ["c", 1, ["RY", "theta"]]], [2, 1]],
    [["MS", "phi", 0.4], [1, 2]],
    [["GPi", "theta"], [0]],
    [["custom", "p2", "phi", "a"], [1, 0]],
    [["c", 2, ["S"]], [2, 0, 1]],
    [["Delay", 3], [1]],
]
DEEP = [OPS[i] for i in (0, 4, 5, 6, 8, 13, 16)]


def circuit_cases(tier):
    for n in (None, 1, 2, 4):
        yield {"n": n, "ops": []}
    for o in OPS:
        k = len(o[1])
        for qs in ref.ordered_tuples(4, k):
            for n in (None, 5):
                yield {"n": n, "ops": [[o[0], qs]]}
    for ops in itertools.product(OPS, repeat=2):
        yield {"n": None, "ops": list(ops)}
    for ops in itertools.product(OPS[::4] if tier == "quick" else OPS, repeat=2):
        yield {"n": 4, "ops": list(ops)}
    for ops in itertools.product(DEEP if tier == "thorough" else DEEP[:5], repeat=3):
        yield {"n": None, "ops": list(ops)}
    if tier == "thorough":
        for ops in itertools.product(DEEP[:6], repeat=4):
            yield {"n": None, "ops": list(ops)}


def is_symbolic(case):
    return any(isinstance(p, str) for o in case["ops"] for p in _params(o[0]))


def _params(g):
    while g[0] in ("dag", "c", "pow", "exp"):
        g = g[-1]
    return g[2:] if g[0] == "custom" else g[1:]


def check_inverse(c, U, n, ctx, what, identity=True):
    inv = c.inverse()
    ctx.step()
    check(inv.n_qubits == n, f"{what}: inverse has width {inv.n_qubits} instead of {n}", "inverse-width")
    check(len(inv.operations) == len(c.operations), f"{what}: inverse has {len(inv.operations)} operations", "inverse")
    V = numc(inv)
    check(ref.close(V, U.conj().T, 1e-7), f"{what}: inverse {inv} is not the conjugate transpose", "inverse")
    both = c + inv
    ctx.step()
    check(both.n_qubits == n, f"{what}: circuit + inverse has width {both.n_qubits}", "inverse-width")
    if identity:
        # action of the concatenation by applying its operations one at a time, from a generic state
        psi = ref.generic_state(n) if n else np.ones(1, dtype=complex)
        out = psi
        for o in both.operations:
            out = ref.apply(ref.num(o.gate.matrix, subs()), list(o.qubit_indices), n, out)
        check(ref.close(out, psi, 1e-7), f"{what}: circuit followed by inverse is not the identity", "inverse-identity")
    again = inv.inverse()
    ctx.step()
    check(again.n_qubits == n and ref.close(numc(again), U, 1e-7), f"{what}: inverting twice changes the action", "inverse-twice")
    ctx.state(ref.digest(V, 5))


def check_controlled(c, U, n, k, ctx, what):
    d = c.controlled(k)
    ctx.step()
    width = max(n, k) + 1
    check(d.n_qubits == width, f"{what}.controlled({k}): width {d.n_qubits} instead of {width}", "controlled-width")
    W = numc(d)
    rest = [q + 1 if q >= k else q for q in range(n)]
    E = np.zeros((2**width, 2**width), dtype=complex)
    big = scipy.linalg.block_diag(np.eye(2**n), U)
    E = ref.embed(big, [k] + rest, width)
    check(
        ref.close(W, E, 1e-7),
        f"{what}.controlled({k}) = {d}: not identity for control 0 and the circuit on the remaining qubits for control 1",
        "controlled",
    )
    ctx.state(ref.digest(W, 5))
    return d, E, width


def run_circuit(case, ctx):
    c = G.circuit(case)
    n = c.n_qubits
    check(n == G.width(case), "width", "width")
    text = repr(c)
    U = G.ref_unitary(case, subs()) if n else np.eye(1, dtype=complex)
    what = text
    check_inverse(c, U, n, ctx, what)
    sym = is_symbolic(case)
    ks = range(n + 2) if n <= 3 and not (sym and len(case["ops"]) > 1) else [0, n // 2, n]
    if len(case["ops"]) > 2:
        ks = [1, n]
    for k in ks:
        d, E, width = check_controlled(c, U, n, k, ctx, what)
        if len(case["ops"]) == 1 and width <= 5 and not sym and k % 2 == 0:
            check_inverse(d, E, width, ctx, repr(d))
            if width <= 4:
                check_controlled(d, E, width, 1, ctx, repr(d))
    check(repr(c) == text, f"{what} was changed to {c!r}", "mutation")
    ctx.outcome(f"ops={len(case['ops'])},n={n}")


# ---------------------------------------------------------------- inverse of circuits with exp / roots
ODD = [
    {"n": None, "ops": [[["exp", ["X"]], [1]]]},
    {"n": None, "ops": [[["exp", ["RX", 0.5]], [0]], [["CNOT"], [0, 1]]]},
    {"n": 3, "ops": [[["c", 1, ["exp", ["T"]]], [1, 0]], [["SX"], [2]]]},
    {"n": None, "ops": [[["pow", 0.5, ["RX", 0.5]], [1]], [["pow", 0.25, ["S"]], [0]]]},
    {"n": None, "ops": [[["dag", ["pow", 0.5, ["ISWAP"]]], [1, 0]]]},
    {"n": None, "ops": [[["pow", 0.5, ["Z"]], [0]]]},
    {"n": None, "ops": [[["c", 1, ["pow", 0.5, ["X"]]], [1, 0]], [["H"], [0]]]},
]


def run_odd(case, ctx):
    c = G.circuit(case)
    U = G.ref_unitary(case)
    unitary = ref.close(U @ U.conj().T, np.eye(len(U)), 1e-7)
    check_inverse(c, U, c.n_qubits, ctx, repr(c), identity=unitary)
    for k in range(c.n_qubits + 2):
        check_controlled(c, U, c.n_qubits, k, ctx, repr(c))


def look_cases(tier):
    for case in G.lookalike_circuits():
        yield case
        if tier == "thorough":
            yield {"n": 4, "ops": case["ops"]}


def run_look(case, ctx):
    c = G.circuit(case)
    U = G.ref_unitary(case)
    check_inverse(c, U, c.n_qubits, ctx, repr(c))
    for k in (0, c.n_qubits - 1, c.n_qubits):
        check_controlled(c, U, c.n_qubits, k, ctx, repr(c))


# ---------------------------------------------------------------- long circuits
def long_cases(tier):
    light = [OPS[i] for i in (0, 1, 2, 5, 6, 7, 9)]
    for L in (9, 15, 16, 17, 18, 31, 32, 33, 63, 64, 65, 100) if tier == "quick" else list(range(5, 70)) + [100, 127, 128, 129, 200, 257]:
        for k in (0, 3):
            for n in (None, 4):
                yield {"n": n, "ops": [light[(k + 3 * i) % 7] for i in range(L)]}
        for a, b in ((light[0], light[1]), (light[2], light[0]), (light[5], light[3])):
            yield {"n": 4, "ops": [a] * L}
            yield {"n": 4, "ops": [(a, a, b, b, b)[i % 5] for i in range(L)]}
    # gates on many different qubits, every position distinguishable
    for n in (5, 6, 7) if tier == "quick" else (5, 6, 7, 8, 9):
        yield {"n": n, "ops": [[["custom", "u2"], [i, i - 1]] for i in range(1, n)] + [[["T"], [0]]]}
        yield {"n": n + 1, "ops": [[["SX"], [n - 1]]] + [[["custom", "u2"], [i, (2 * i + 1) % n]] for i in range(n - 1) if (i + 1) % n]}


def run_long(case, ctx):
    c = G.circuit(case)
    n = c.n_qubits
    text = repr(c)
    U = G.ref_unitary(case)
    what = f"circuit of {len(case['ops'])} operations {text[:200]}"
    check_inverse(c, U, n, ctx, what)
    for k in (0, n - 1, n):
        check_controlled(c, U, n, k, ctx, what)
    check(repr(c) == text, f"{what} was changed", "mutation")


# ---------------------------------------------------------------- layers
LAYER_GATES = [["X"], ["H"], ["T"], ["dag", ["S"]], ["custom", "u1"], ["pow", 3, ["SX"]]]
PAR_GATES = {"RX": 1, "RY": 1, "PHASE": 1, "GPi2": 1, "U3": 3, "p1": 2}


def factory(name):
    return G.custom_def(name) if name in ("p1",) else oc.builtin_gate_by_name(name)


def rows(name, n, kind):
    k = PAR_GATES[name]
    base = [[0.1 + 0.37 * i + 1.3 * j for j in range(k)] for i in range(n)]
    if kind == "array":
        return np.array(base).reshape(n, k)
    if kind == "same":
        return [[0.5] * k for _ in range(n)]
    if kind == "symbols":
        return [[sympy.Symbol(f"t_{i}_{j}") for j in range(k)] for i in range(n)]
    if kind == "tuples":
        return tuple(tuple(r) for r in base[::-1])
    return base


def layer_cases(tier):
    top = 10 if tier == "quick" else 40
    for n in list(range(0, top + 1)) + ([64, 70] if tier == "thorough" else [33]):
        for g in LAYER_GATES:
            yield {"n": n, "gate": g}
        for g in PAR_GATES:
            for kind in ("array", "list", "same", "symbols", "tuples"):
                yield {"n": n, "par": g, "kind": kind}
    for n in range(0, 4):
        for m in range(0, 5):
            if m != n:
                yield {"n": n, "par": "RX", "kind": "list", "wrong": m}


def same_number(p, q):
    return p == q


def run_layer(case, ctx):
    n = case["n"]
    if "gate" in case:
        g = G.gate(case["gate"])
        c = oc.create_layer_of_gates(n, g)
        want = [(g, (q,)) for q in range(n)]
    else:
        f = factory(case["par"])
        r = rows(case["par"], case.get("wrong", n), case["kind"])
        if "wrong" in case:
            try:
                c = oc.create_layer_of_gates(n, f, r)
            except Exception:
                ctx.outcome("wrong number of rows refused")
                return
            check(False, f"{case['wrong']} parameter rows accepted for {n} qubits: {c}", "rows")
        c = oc.create_layer_of_gates(n, f, r)
        want = [(f(*r[q]), (q,)) for q in range(n)]
    ctx.step()
    check(c.n_qubits == n, f"layer over {n} qubits has width {c.n_qubits}", "layer-width")
    got = [(o.gate, tuple(o.qubit_indices)) for o in c.operations]
    check(len(got) == n, f"layer over {n} qubits has {len(got)} gates", "layer")
    check(sorted(q for _, (q,) in got) == list(range(n)), f"layer gates on {[q for _, q in got]}", "layer")
    bys = {q[0]: g for g, q in got}
    for g, (q,) in want:
        check(bys[q] == g and tuple(bys[q].params) == tuple(g.params), f"qubit {q} carries {bys[q]} instead of {g}", "layer-rows")
    ctx.state(repr(c))
    if n and n <= 4 and "gate" in case:
        m = ref.num(G.gate(case["gate"]).matrix)
        E = np.eye(1)
        for _ in range(n):
            E = np.kron(E, m)
        ctx.step()
        check(ref.close(ref.num(c.to_unitary()), E), "layer matrix", "layer")


# ---------------------------------------------------------------- applying a gate to qubits
PRE = [
    {"n": None, "ops": []},
    {"n": 3, "ops": []},
    {"n": None, "ops": [[["X"], [0]], [["CNOT"], [2, 0]], [["RY", "theta"], [1]]]},
    {"n": 6, "ops": [[["H"], [1]]]},
    # ending in (or consisting of) operations that are about to be added
    {"n": None, "ops": [[["T"], [0]]]},
    {"n": None, "ops": [[["T"], [q]] for q in (3, 2, 1, 0)]},
    {"n": None, "ops": [[["RY", 0.1], [0]], [["RY", 0.1], [1]]]},
    {"n": 4, "ops": [[["T"], [1]], [["U3", 0.1, 1.4, 2.7], [0]]]},
]


def apply_cases(tier):
    L = 3 if tier == "quick" else 4
    for pi in range(len(PRE)):
        for l in range(0, L + 1):
            for qs in itertools.product(range(4 if tier == "quick" else 5), repeat=l):
                for kind in ("list", "tuple") if l < 3 else ("list",):
                    yield {"pre": pi, "qubits": list(qs), "as": kind}
        for qs in ([7, 1], [0, 9, 4, 9], [33, 1, 0], [100, 3, 64], list(range(8, 0, -1))):
            for kind in ("list", "tuple", "set", "keys", "np"):
                yield {"pre": pi, "qubits": qs, "as": kind}
        for a, b in itertools.combinations(range(5), 2):
            yield {"pre": pi, "qubits": list(range(a, b)), "as": "range"}


def collection(qs, kind):
    return {"list": list, "tuple": tuple, "set": set, "np": lambda x: np.array(x), "keys": lambda x: dict.fromkeys(x).keys(),
            "range": lambda x: range(x[0], x[-1] + 1)}[kind](qs)


def run_apply(case, ctx):
    qs = case["qubits"]
    distinct = sorted(set(qs))
    for mode in ("plain", "RY", "U3", "symbols", "equal"):
        pre = G.circuit(PRE[case["pre"]])
        before_ops, text = list(pre.operations), repr(pre)
        col = collection(qs, case["as"])
        if mode == "plain":
            out = oc.apply_gate_to_qubits(pre, col, oc.T)
        else:
            k = 3 if mode == "U3" else 1
            f = oc.U3 if mode == "U3" else oc.RY
            if mode == "equal":
                r = [[1 / 3]] * len(distinct)
            elif mode == "symbols":
                r = [[sympy.Symbol(f"s{i}")] for i in range(len(distinct))]
            else:
                r = [[0.1 + 0.37 * i + 1.3 * j for j in range(k)] for i in range(len(distinct))]
                if mode == "RY":
                    r = np.array(r).reshape(len(distinct), k)
            out = oc.apply_gate_to_qubits(pre, col, f, r)
        ctx.step()
        check(repr(pre) == text, "the given circuit was changed", "mutation")
        check(list(out.operations[: len(before_ops)]) == before_ops, f"existing operations changed: {out}", "apply-existing")
        new = out.operations[len(before_ops):]
        check(sorted(int(o.qubit_indices[0]) for o in new) == distinct and all(len(o.qubit_indices) == 1 for o in new),
              f"gates on {[o.qubit_indices for o in new]}, listed {qs}", "apply-qubits")
        want_w = max([pre.n_qubits] + [q + 1 for q in distinct])
        check(out.n_qubits == want_w, f"width {out.n_qubits}, expected {want_w}", "apply-width")
        if mode == "plain":
            check(all(o.gate == oc.T for o in new), f"gates {new}", "apply-gate")
        else:
            used = sorted(tuple(map(str, o.gate.params)) for o in new)
            check(used == sorted(tuple(map(str, row)) for row in r), f"parameter rows used: {used}", "apply-rows")
            check(all(o.gate.name == ("U3" if mode == "U3" else "RY") for o in new), f"gates {new}", "apply-gate")
        ctx.state(repr(out))
        if mode != "plain":
            for wrong in (len(distinct) + 1, len(distinct) - 1):
                if wrong < 0:
                    continue
                try:
                    bad = oc.apply_gate_to_qubits(pre, col, f, [[0.1] * k] * wrong)
                except Exception:
                    ctx.outcome("wrong number of rows refused")
                    continue
                check(False, f"{wrong} rows accepted for qubits {qs}: {bad}", "rows")


# ---------------------------------------------------------------- ancillas
def ancilla_cases(tier):
    specs = [{"n": None, "ops": []}, {"n": 2, "ops": []}] + [{"n": n, "ops": [o]} for o in OPS for n in (None, 4)]
    specs += [{"n": None, "ops": [a, b]} for a, b in itertools.product(OPS[:6], repeat=2)]
    # more symbols, operations or controls than qubits, repeated gates, wide registers
    specs += [{"n": None, "ops": [[["U3", "theta", "phi", "a"], [0]]]},
              {"n": None, "ops": [[["U3", "theta", "phi", "a"], [0]], [["RX", "b+lam"], [0]]]},
              {"n": 2, "ops": [[["RX", "theta"], [1]], [["RY", "phi"], [1]], [["RZ", "a"], [1]], [["RX", "b"], [0]], [["GPi", "lam"], [0]]]},
              {"n": None, "ops": [[["T"], [0]]] * 9},
              {"n": None, "ops": [[["I"], [2]], [["I"], [0]]]},
              {"n": None, "ops": [[["c", 3, ["X"]], [3, 0, 2, 1]]]},
              {"n": 9, "ops": [[["H"], [1]]]}, {"n": None, "ops": [[["CNOT"], [12, 3]]]}, {"n": 40, "ops": []},
              {"n": None, "ops": [[["CNOT"], [0, 70]]]}]
    for s in specs:
        for k in list(range(0, 4)) + ([5, 9] if len(s["ops"]) != 2 else []):
            yield {"circuit": s, "k": k}


def run_ancilla(case, ctx):
    c = G.circuit(case["circuit"])
    text = repr(c)
    n, k = c.n_qubits, case["k"]
    d = oc.add_ancilla_register(c, k)
    ctx.step()
    check(repr(c) == text, "the given circuit was changed", "mutation")
    check(d.n_qubits == n + k, f"{k} ancillas: width {n} became {d.n_qubits}", "ancilla-width")
    check(list(d.operations[: len(c.operations)]) == list(c.operations), "existing operations changed", "ancilla")
    for o in d.operations[len(c.operations):]:
        m = ref.num(o.gate.matrix)
        check(ref.close(m, np.eye(len(m))), f"{d}: the added operation {o} is not an identity", "ancilla")
        check(all(n <= q < n + k for q in o.qubit_indices), f"{d}: the added operation {o} acts on the original qubits", "ancilla")
    if n + k and n + k <= 4:
        E = np.kron(G.ref_unitary(case["circuit"], subs()) if n else np.eye(1), np.eye(2**k))
        check(ref.close(numc(d), E, 1e-7), f"{d}: ancillas change the action on the original qubits", "ancilla")
        ctx.state(ref.digest(E, 5))
    e = oc.add_ancilla_register(d, 1)
    ctx.step()
    check(e.n_qubits == n + k + 1, "a second register", "ancilla-width")


FAMILIES = [
    Family("circuits", circuit_cases, run_circuit, "19 operations: every placement on 4 qubits with and without idle qubits, every pair, every triple of 5 (7); control at every index 0..n+1"),
    Family("odd-gates", lambda tier: ODD, run_odd, "circuits with exp and fractional powers"),
    Family("look-alikes", look_cases, run_look, "every ordered pair in 18 groups of gates sharing name, text, parameters or shape, in 3 arrangements"),
    Family("long", long_cases, run_long, "circuits of 9..100 (257) operations around every power of two, ladders on 5..7 (9) qubits"),
    Family("layers", layer_cases, run_layer, "0..10 (40), 33 qubits x 6 gates and 6 parametric gates x 5 row containers"),
    Family("apply", apply_cases, run_apply, "every sequence of up to 3 (4) qubits of 4 (5), with repetitions, in 8 starting circuits; containers"),
    Family("ancilla", ancilla_cases, run_ancilla, "86 circuits (registers to 71) x 0..3, 5, 9 ancillas, twice"),
]

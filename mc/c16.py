"""C16: time-evolution circuits implement exp(-i t H) term by term, and its derivative."""
import itertools
import math

import numpy as np
import sympy

from orquestra.quantum.circuits import Circuit
from orquestra.quantum.evolution import (
    time_evolution,
    time_evolution_derivatives,
    time_evolution_for_term,
)
from orquestra.quantum.operators import PauliSum, PauliTerm

from . import ref
from .core import Family, check

ASSUMPTIONS = [
    "an imaginary part of at most 1e-12 is negligible, one of at least 1e-6 is not; between them either way",
    "the matrix of an emitted circuit is read gate by gate from the gates' own matrices (C01, C02 check those), and also "
    "through to_unitary on registers of up to three qubits",
    "all observables and initial states are covered at once: the derivative identity is checked as an identity of "
    "operators for every Pauli observable, which span all observables",
    "symbolic times are checked at fixed values of the symbol",
]
SYM = sympy.Symbol("t")
_MAT = {}


def gate_mat(op):
    k = (op.gate.name, str(op.params), repr(op.gate) if op.gate.name in ("Dagger", "Control", "Exponential") else "")
    if k not in _MAT:
        if len(_MAT) > 20000:
            _MAT.clear()
        _MAT[k] = ref.num(op.gate.matrix)
    return _MAT[k]


def unitary(circ, n):
    u = np.eye(2**n, dtype=complex)
    for op in circ.operations:
        u = apply_left(gate_mat(op), op.qubit_indices, n, u)
    return u


def apply_left(m, qs, n, u):
    """embed(m, qs, n) @ u, all columns at once."""
    k = len(qs)
    x = u.reshape((2,) * n + (-1,))
    m = m.reshape((2,) * (2 * k))
    x = np.tensordot(m, x, axes=(list(range(k, 2 * k)), list(qs)))
    x = np.moveaxis(x, range(k), qs)
    return x.reshape(2**n, -1)


def coef(c):
    return complex(*c) if isinstance(c, list) else c


def build(spec):
    return PauliTerm({int(q): o for q, o in spec["o"]}, coef(spec["c"]))


def build_sum(specs):
    return PauliSum([build(s) for s in specs])


def width(specs):
    return max([q + 1 for s in specs for q, _ in s["o"]], default=0)


def pauli(spec, n):
    return ref.pauli_matrix({q: o for q, o in spec["o"]}, 1.0, n)


def expP(spec, n, t):
    """exp(-i t c P) up to nothing; constants contribute no gate."""
    c = complex(coef(spec["c"])).real
    d = np.eye(2**n, dtype=complex)
    if not spec["o"]:
        return d
    return math.cos(t * c) * d - 1j * math.sin(t * c) * pauli(spec, n)


def ref_evolution(specs, n, t, steps):
    u = np.eye(2**n, dtype=complex)
    for _ in range(steps):
        for s in specs:
            u = expP(s, n, t / steps) @ u
    return u


def at_time(circ, t):
    return circ.bind({SYM: t})


def close(a, b, t=1.0):
    return ref.close(a, b, 1e-8)


# ---- single terms ------------------------------------------------------------------------
def run_term(case, ctx):
    spec, t = case["term"], case["t"]
    term = build(spec)
    n = width([spec])
    for kind in ("number", "symbol", "numpy"):
        time = {"number": t, "symbol": SYM, "numpy": np.float64(t)}[kind]
        circ = time_evolution_for_term(term, time)
        ctx.step()
        check(isinstance(circ, Circuit), f"{circ!r}", "type")
        if not spec["o"]:
            check(len(circ.operations) == 0, f"constant {spec['c']}: {circ}", "constant")
            continue
        if kind == "symbol":
            circ = at_time(circ, t)
        check(circ.n_qubits == n, f"{term} for t={t}: register of {circ.n_qubits} qubits", "width")
        want = expP(spec, n, t)
        got = unitary(circ, n)
        check(close(got, want), f"exp(-i {t} {term}) ({kind} time): circuit {circ} is off by {np.max(np.abs(got - want)):.2e}", "term")
        if n <= 3:
            tu = ref.num(circ.to_unitary())
            check(close(tu, want), f"exp(-i {t} {term}) ({kind} time): to_unitary of {circ}", "term-unitary")
        ctx.state(tuple(map(tuple, spec["o"])), ref.digest(got))
    # a sum of one term and a bare term are the same Hamiltonian
    for ham in (term, PauliSum([term])):
        u = time_evolution(ham, t)
        check(close(unitary(u, n), expP(spec, n, t)), f"time_evolution({ham!r}, {t}) = {u}", "single-sum")
        ctx.step()


COEFS = [1.0, -1.0, 0.5, 0, 3, -0.37, [0.8, 0.0], [1.3, 1e-13], [-0.6, -1e-13], 1e-7, 25.0]
TIMES = [0.4, -1.1, 0.0, math.pi, 7.3, 1]


def strings(qubits):
    for w in itertools.product("IXYZ", repeat=len(qubits)):
        yield [[q, o] for q, o in zip(qubits, w) if o != "I"]


def cases_term(tier):
    sets = [(0,), (0, 1), (0, 1, 2), (1, 3), (0, 2, 3), (4,)]
    for qs in sets:
        for o in strings(qs):
            small = len(qs) < 3
            for c in COEFS if small or tier != "quick" else COEFS[1:6]:
                for t in TIMES if small or tier != "quick" else TIMES[:2]:
                    yield {"term": {"o": o, "c": c}, "t": t}
    # operator given in an order that is not ascending; two-digit qubit numbers
    for o in ([[2, "X"], [0, "Y"], [1, "Z"]], [[1, "Y"], [0, "X"]], [[8, "X"], [2, "Z"]], [[10, "Y"], [9, "X"], [2, "Z"]]):
        for t in TIMES[:3]:
            yield {"term": {"o": o, "c": 0.7}, "t": t}
    # every placement of two to seven qubits on a register of seven (gaps of every size), several letterings
    for k in range(2, 8):
        for qs in itertools.combinations(range(7), k):
            for letters in ("Z", "XYZ", "ZZY") if tier == "quick" or k > 5 else ("Z", "X", "Y", "XYZ", "ZZY", "YX"):
                yield {"term": {"o": [[q, letters[i % len(letters)]] for i, q in enumerate(qs)], "c": 0.7}, "t": 0.9}
    for qs in [(0, 1, 2, 3)] if tier == "quick" else [(0, 1, 2, 3), (0, 1, 2, 3, 4)]:
        for o in strings(qs):
            yield {"term": {"o": o, "c": -0.8}, "t": 0.9}


# ---- rejection of complex coefficients ---------------------------------------------------
def run_reject(case, ctx):
    bad = {"o": case["o"], "c": case["c"]}
    others = [{"o": [[0, "X"]], "c": 0.5}, {"o": [[1, "Z"], [0, "Y"]], "c": -1.5}]
    calls = {"term": lambda t: time_evolution_for_term(build(bad), t)}
    for pos in range(3):
        specs = others[:pos] + [bad] + others[pos:]
        calls[f"sum{pos}"] = lambda t, specs=specs: time_evolution(build_sum(specs), t)
        calls[f"sum{pos}-steps"] = lambda t, specs=specs: time_evolution(build_sum(specs), t, n_steps=2)
        calls[f"derivative{pos}"] = lambda t, specs=specs: time_evolution_derivatives(build_sum(specs), t)
        calls[f"derivative{pos}-steps"] = lambda t, specs=specs: time_evolution_derivatives(build_sum(specs), t, n_steps=2)
    calls["bare"] = lambda t: time_evolution(build(bad), t)
    calls["bare-derivative"] = lambda t: time_evolution_derivatives(build(bad), t)
    for name, f in calls.items():
        for t in (0.3, SYM):
            ctx.step()
            try:
                out = f(t)
            except ValueError:
                ctx.outcome("rejected")
                continue
            check(False, f"{name} at time {t}: coefficient {case['c']} of {case['o']} accepted: {out}"[:700], "accepted")
    ctx.state(tuple(map(tuple, case["o"])), tuple(case["c"]))


def cases_reject(tier):
    ims = [1.0, -1.0, 1e-3, -1e-3, 1e-6, -1e-6, 50.0]
    for qs in [(0,), (0, 1)] + ([(0, 1, 2)] if tier != "quick" else []):
        for o in strings(qs):
            for im in ims:
                for re in (0.0, 0.7, -2.0, 1e3, -1e6) if abs(im) < 1e-2 and len(qs) == 1 else (0.0, 0.7, -2.0):
                    yield {"o": o, "c": [re, im]}


KINDS = ("number", "symbol", "numpy", "sympy")


def as_time(t, kind):
    if kind == "numpy":
        return np.int64(t) if isinstance(t, int) else np.float64(t)
    return {"number": t, "symbol": SYM, "sympy": sympy.sympify(t)}[kind]


INT_TIMES = [0, 1, 2, 5, 7, -4, 11, 0.0]


def repeated_cases(tier):
    """Hamiltonians that list exactly the same term several times, integer and zero times, more steps."""
    pool = [{"o": [[0, "X"]], "c": 0.5}, {"o": [[0, "Z"], [1, "Z"]], "c": 0.5}, {"o": [[1, "Y"]], "c": -1.4}, {"o": [[0, "X"]], "c": -0.5}]
    if tier != "quick":
        pool += [{"o": [], "c": 0.5}, {"o": [[0, "Z"], [1, "Z"]], "c": 1}]
    for k in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5):
        for ts in itertools.product(pool, repeat=k):
            if len({str(x) for x in ts}) == k and k > 2:
                continue
            for steps in (1, 2) if k < 5 else (2,):
                yield {"terms": list(ts), "t": 0.7, "steps": steps}


def int_time_cases(tier):
    two = [{"o": [[0, "X"]], "c": 0.5}, {"o": [[0, "Z"], [1, "Y"]], "c": -1}]
    for terms in (two[:1], two[1:], two, two + [{"o": [[1, "X"]], "c": 2}], two + two):
        for t in INT_TIMES:
            for steps in range(1, 7):
                yield {"terms": terms, "t": t, "steps": steps, "sym": True}


def near_cases(tier):
    """Terms that differ by less than the library's comparison tolerance, over times long enough to tell."""
    X0, ZY = [[0, "X"]], [[0, "Z"], [1, "Y"]]
    for a, b in ((1e-9, 9e-9), (0.0, 7e-9), (0.5, 0.500000006), (-3e-9, 3e-9), (-1.25, -1.250000004), (2e-9, [8e-9, 0.0])):
        for o, other in ((X0, ZY), (ZY, X0)):
            for terms in ([[o, a], [o, b]], [[o, b], [other, 0.5e-8], [o, a]], [[o, a], [other, a], [o, b], [other, b]]):
                # rounding of the angle must stay far below the difference of the coefficients
                for t in (1e8, -7e7) if abs(a) < 1e-6 else (1e6, -7e5):
                    for steps in (1, 2, 3):
                        yield {"terms": [{"o": x, "c": c} for x, c in terms], "t": t, "steps": steps, "sym": steps == 2}


def long_cases(tier):
    for n in (6, 9, 12) if tier == "quick" else (6, 9, 12, 16, 25, 40):
        terms = [{"o": [[i % 4, "XYZ"[i % 3]], [(i * 3 + 1) % 4, "ZXY"[(i // 2) % 3]]], "c": [0.5, -0.25, 1, 0.75, -2][i % 5]}
                 for i in range(n) if (i * 3 + 1) % 4 != i % 4]
        for steps in (1, 3):
            yield {"terms": terms, "t": 0.37, "steps": steps}
    # many steps: two and three terms that do not commute, every number of steps
    two = [{"o": [[0, "X"]], "c": 0.5}, {"o": [[0, "Z"], [1, "Y"]], "c": -1}]
    for steps in list(range(1, 21)) + [31, 32, 33, 50] if tier == "quick" else list(range(1, 70)) + [99, 100, 127, 128, 129]:
        yield {"terms": two, "t": 1.3, "steps": steps}
        yield {"terms": two[::-1] + [{"o": [[1, "X"]], "c": 2}], "t": -0.9, "steps": steps}


# ---- sums and steps ----------------------------------------------------------------------
def run_sum(case, ctx):
    specs, t, steps = case["terms"], case["t"], case["steps"]
    ham = build_sum(specs)
    n = width(specs)
    want = ref_evolution(specs, n, t, steps)
    before = str(ham)
    for kind in KINDS if case.get("sym") else ("number",):
        circ = time_evolution(ham, as_time(t, kind), n_steps=steps)
        ctx.step()
        if kind == "symbol":
            circ = at_time(circ, t)
        got = unitary(circ, max(n, circ.n_qubits))
        check(got.shape == want.shape and close(got, want), f"evolution under {ham} for {t} in {steps} steps ({kind}): {circ}", "sum")
    check(str(ham) == before, f"{ham} was {before}", "mutated")
    kw = time_evolution(ham, t, "Trotter", steps)
    check(close(unitary(kw, n), want), f"positional arguments: {kw}", "sum")
    ctx.state(ref.digest(want))


def cases_sum(tier):
    S2 = list(strings((0, 1)))
    cs = [0.7, -1.2, 0.4]
    for steps in (1, 2, 3):
        for a, b in itertools.product(S2, repeat=2):
            yield {"terms": [{"o": a, "c": 0.7}, {"o": b, "c": -1.2}], "t": 0.9, "steps": steps, "sym": steps == 2}
    few = [[[0, "X"]], [[0, "Z"], [1, "Z"]], [[1, "Y"]], [[0, "Y"], [1, "X"]], []]
    for steps in (1, 2, 4, 7):
        for k in (3, 4) if tier == "quick" else (3, 4, 5):
            for ts in itertools.product(few, repeat=k):
                if tier == "quick" and k == 4 and len({str(x) for x in ts}) < 3:
                    continue
                for t in (0.3, -0.8) if k == 3 else (0.5,):
                    yield {"terms": [{"o": o, "c": cs[i % 3] + i} for i, o in enumerate(ts)], "t": t, "steps": steps}
    # registers of three qubits, repeated terms, terms on disjoint and far qubits
    S3 = [[[0, "X"], [2, "Z"]], [[1, "Y"], [2, "Y"]], [[0, "Z"], [1, "X"], [2, "Y"]], [[2, "X"]], []]
    for a, b, c in itertools.product(S3, repeat=3):
        for steps in (1, 3):
            yield {"terms": [{"o": a, "c": 0.6}, {"o": b, "c": 1}, {"o": c, "c": [-0.3, 0.0]}], "t": 1.7, "steps": steps}
    yield from repeated_cases(tier)
    yield from near_cases(tier)
    yield from int_time_cases(tier)
    yield from long_cases(tier)
    yield {"terms": [], "t": 0.4, "steps": 2}
    yield {"terms": [{"o": [], "c": 2.0}], "t": 0.4, "steps": 3}


# ---- derivatives -------------------------------------------------------------------------
def ref_derivative(specs, n, t, steps):
    """U and dU/dt by the product rule."""
    d = 2**n
    factors = [s for _ in range(steps) for s in specs]
    mats = [expP(s, n, t / steps) for s in factors]
    U = np.eye(d, dtype=complex)
    dU = np.zeros((d, d), dtype=complex)
    for s, m in zip(factors, mats):
        gen = np.zeros((d, d)) if not s["o"] else -1j * complex(coef(s["c"])).real / steps * pauli(s, n)
        dU = m @ dU + gen @ m @ U
        U = m @ U
    return U, dU


_OBS = {}


def observables(n):
    if n not in _OBS:
        _OBS[n] = [ref.pauli_matrix({q: o for q, o in enumerate(w) if o != "I"}, 1.0, n) for w in itertools.product("IXYZ", repeat=n)]
    return _OBS[n]


def run_derivative(case, ctx):
    specs, t, steps = case["terms"], case["t"], case["steps"]
    ham = build_sum(specs) if not case.get("bare") else build(specs[0])
    n = width(specs)
    U, dU = ref_derivative(specs, n, t, steps)
    for kind in KINDS if case.get("sym") else ("number",):
        circs, factors = time_evolution_derivatives(ham, as_time(t, kind), n_steps=steps)
        ctx.step()
        what = f"derivative of {ham} at {t}, {steps} steps ({kind})"
        check(len(circs) == len(factors), f"{what}: {len(circs)} circuits, {len(factors)} factors", "lengths")
        us = []
        for c in circs:
            if kind == "symbol":
                c = at_time(c, t)
            check(c.n_qubits <= n, f"{what}: circuit on {c.n_qubits} qubits", "width")
            us.append(unitary(c, n))
        for O in observables(n):
            want = dU.conj().T @ O @ U + U.conj().T @ O @ dU
            got = sum((f * (u.conj().T @ O @ u) for f, u in zip(factors, us)), np.zeros_like(O))
            scale = 1 + sum(abs(complex(coef(s["c"]))) for s in specs)
            check(
                np.max(np.abs(got - want), initial=0) < 1e-7 * scale,
                f"{what}: the weighted sum is off by {np.max(np.abs(got - want)):.2e} for some observable", "derivative",
            )
            ctx.step()
    ctx.state(ref.digest(dU))


def cases_derivative(tier):
    S1, S2 = list(strings((0,))), list(strings((0, 1)))
    for o in list(strings((0, 1, 2))):
        for c in (1.0, -0.45, 2, [0.3, 0.0], 0, 1e-4):
            for t in (0.4, -1.3):
                for steps in (1, 2) if len(o) < 3 else (1,):
                    yield {"terms": [{"o": o, "c": c}], "t": t, "steps": steps, "bare": c == 1.0}
    for steps in (1, 2, 3):
        for a, b in itertools.product(S2, repeat=2):
            yield {"terms": [{"o": a, "c": 0.7}, {"o": b, "c": -1.2}], "t": 0.6, "steps": steps, "sym": steps == 2}
    few = [[[0, "X"]], [[0, "Z"], [1, "Z"]], [[1, "Y"]], [[0, "Y"], [1, "X"]], []]
    for steps in (1, 2, 3, 5):
        for k in (3,) if tier == "quick" else (3, 4):
            for ts in itertools.product(few, repeat=k):
                yield {"terms": [{"o": o, "c": [0.5, -1.4, 0.9, 2.0][i]} for i, o in enumerate(ts)], "t": -0.35, "steps": steps}
    for z in range(3):  # zero coefficients among others
        cs = [0.5, -1.1, 0.8]
        cs[z] = 0.0
        for steps in (1, 2):
            yield {"terms": [{"o": few[i], "c": cs[i]} for i in range(3)], "t": 0.8, "steps": steps}
    yield {"terms": [{"o": few[0], "c": [0.0, 0.0]}], "t": 0.8, "steps": 1}
    yield {"terms": [], "t": 0.8, "steps": 2}
    yield from repeated_cases(tier)
    yield from int_time_cases(tier)
    for case in long_cases("quick"):
        if tier != "quick" or len(case["terms"]) * case["steps"] <= 24:
            yield case
    # wide registers: gaps inside the strings of the terms
    wide = [{"o": [[q, "Z"] for q in (0, 2, 3, 4)], "c": 0.5}, {"o": [[0, "Y"], [3, "X"]], "c": -1.0}, {"o": [[4, "X"]], "c": 0.3}]
    for k in (1, 2) if tier == "quick" else (1, 2, 3):
        for ts in itertools.permutations(wide, k):
            if any(q == 4 for x in ts for q, _ in x["o"]):
                yield {"terms": list(ts), "t": 0.7, "steps": 2}
    S3 = [[[0, "X"], [2, "Z"]], [[1, "Y"], [2, "Y"]], [[0, "Z"], [1, "X"], [2, "Y"]]]
    for ts in itertools.product(S3, repeat=2 if tier == "quick" else 3):
        for steps in (1, 2, 3):
            yield {"terms": [{"o": o, "c": [0.5, -1.4, 0.9][i]} for i, o in enumerate(ts)], "t": 1.1, "steps": steps}


# ---- wide registers, on state vectors ----------------------------------------------------
def pauli_vec(o, v, n):
    """The Pauli string applied to a vector, bit by bit."""
    idx = np.arange(len(v))
    src, ph = idx.copy(), np.ones(len(v), dtype=complex)
    for q, x in o:
        bit = (idx >> (n - 1 - q)) & 1
        if x in "XY":
            src = src ^ (1 << (n - 1 - q))
        if x == "Y":
            ph = ph * np.where(bit, 1j, -1j)
        if x == "Z":
            ph = ph * np.where(bit, -1, 1)
    return ph * v[src]


def run_wide(case, ctx):
    specs, t, steps = case["terms"], case["t"], case["steps"]
    n = width(specs)
    i = np.arange(2**n)
    v = np.cos(1.7 * i + 0.3 * np.sqrt(i)) + 1j * np.sin(1.61 * i + 0.11 * i**1.5)
    v = v / np.linalg.norm(v)

    def run(circ):
        w = v
        for op in circ.operations:
            w = apply_left(gate_mat(op), op.qubit_indices, n, w)
        return w.ravel()

    def evolve(w, dw=None):
        for _ in range(steps):
            for s in specs:
                c = complex(coef(s["c"])).real
                if not s["o"]:
                    continue
                a, b = math.cos(c * t / steps), math.sin(c * t / steps)
                new = a * w - 1j * b * pauli_vec(s["o"], w, n)
                if dw is not None:
                    dw = a * dw - 1j * b * pauli_vec(s["o"], dw, n) - 1j * c / steps * pauli_vec(s["o"], new, n)
                w = new
        return w, dw

    ham = build_sum(specs)
    w, dw = evolve(v, np.zeros_like(v))
    what = f"evolution under {ham} for {t} in {steps} steps"
    for kind in ("number", "symbol"):
        circ = time_evolution(ham, as_time(t, kind), n_steps=steps)
        circ = at_time(circ, t) if kind == "symbol" else circ
        check(circ.n_qubits == n, f"{what}: register of {circ.n_qubits} qubits", "wide-width")
        got = run(circ)
        check(np.max(np.abs(got - w)) < 1e-8, f"{what} ({kind}): some amplitude is off by {np.max(np.abs(got - w)):.2e}", "wide")
        ctx.step()
    ctx.state(ref.digest(w[:64]))
    if not case.get("derivative"):
        return
    circs, factors = time_evolution_derivatives(ham, t, n_steps=steps)
    check(len(circs) == len(factors), f"derivative, {what}: {len(circs)} circuits, {len(factors)} factors", "wide-lengths")
    outs = [run(c) for c in circs]
    obs = [s["o"] for s in specs] + [[[q, x]] for q in range(n) for x in "XYZ"] + [[[0, "X"], [n - 1, "Z"]], [[q, "XYZ"[q % 3]] for q in range(n)]]
    for o in obs:
        want = 2 * np.vdot(pauli_vec(o, w, n), dw).real
        got = sum(f * np.vdot(u, pauli_vec(o, u, n)).real for f, u in zip(factors, outs))
        check(abs(got - want) < 1e-7, f"derivative of the {what}: {got} for observable {o}, expected {want}", "wide-derivative")
        ctx.step()


def cases_wide(tier):
    def st(qs, w, k):
        return [[q, w[(i + k) % len(w)]] for i, q in enumerate(qs)]

    for n in (8, 9, 10, 11, 12) if tier == "quick" else range(8, 16):
        for k in range(2, n + 1):
            for qs in ([*range(n - k, n)], [*range(k - 1), n - 1], [n - 1, *range(k - 2, -1, -1)]):
                for w in ("Z", "XYZ") if k < n else ("X", "Y", "Z", "XYZ", "ZZYX"):
                    yield {"terms": [{"o": st(qs, w, k), "c": -0.8}], "t": 0.9, "steps": 1}
    for n in (6, 7, 8) if tier == "quick" else (6, 7, 8, 9, 10):
        ring = [{"o": st(sorted((q, (q + 1) % n)), "ZXY", q), "c": 0.3 + 0.1 * q} for q in range(n)]
        far = [{"o": st((q, n - 1), "YZ", q), "c": -0.5 - q} for q in range(n - 1)]
        for terms in (ring, far, [{"o": st(range(n), "XYZ", 0), "c": 1.1}, {"o": [[0, "Y"]], "c": 0.6}]):
            for steps in (1, 2) if n > 6 else (1, 2, 3):
                yield {"terms": terms, "t": 0.7, "steps": steps, "derivative": 1}


FAMILIES = [
    Family("terms", cases_term, run_term, "every Pauli string on <=3 qubits (six placements) x coefficients x times; every 4 (5)-qubit string; every placement of 2..7 qubits on seven"),
    Family("complex", cases_reject, run_reject, "every string on <=2 (3) qubits x imaginary parts of both signs, alone and at every place of a sum"),
    Family("sums", cases_sum, run_sum, "every ordered pair on 2 qubits x steps, sums of 3 and 4 (5) terms, steps up to 7; sums listing terms repeatedly; integer, numpy and sympy times; long sums; terms that differ by less than the comparison tolerance over long times"),
    Family("derivatives", cases_derivative, run_derivative, "every string, every ordered pair on 2 qubits, sums of 3 (4) terms, steps to 5"),
    Family("wide", cases_wide, run_wide, "strings of 2..12 (15) factors on registers of 8..12 (15), three placements, evolved state vectors; rings and stars on 6..8 (10) with their derivatives for every one-qubit observable"),
]

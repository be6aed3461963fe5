"""C09: operator-to-matrix conversions agree with the operator's definition."""
import itertools
import math

import numpy as np
import scipy.sparse
import scipy.sparse.linalg

from orquestra.quantum.operators import (
    PauliSum,
    PauliTerm,
    get_expectation_value,
    get_sparse_operator,
    hermitian_conjugated,
    is_hermitian,
    reverse_qubit_order,
)
from orquestra.quantum.operators._openfermion_utils import expectation
from orquestra.quantum.operators._utils import get_pauliop_from_matrix
from orquestra.quantum.wavefunction import Wavefunction

from . import paulis as P
from . import ref
from .core import Family, check

T = P.T
ASSUMPTIONS = [
    "hermitian_conjugated, reverse_qubit_order and the Pauli expansion build sums, each addition of "
    "which may drop coefficients below 1e-8: their matrices are compared to 1e-8 per term involved",
    "imaginary parts strictly between 1e-9 and 1e-6 (where 'Hermitian' depends on the tolerance) are not used",
    "states are normalised to double precision; quadratic forms are compared to 1e-9 relative",
]
COEFS = [1.2345678901234567, -0.5, 2, 1j, [0.5, -2.0], 0, [0.0, -3e-5], 1e-5, [-1.0, 0.0], 1e12, [1 / 3, -0.987654321987654]]
COEFS_T = COEFS + [7, [1e-7, 1e-3], -3, [3e7, -1e-2], -1e-7, [0.1, 0.1]]


def jc(c):
    return [c.real, c.imag] if isinstance(c, complex) else c


def close(got, want, what, tol=1e-9, tag="matrix"):
    got = np.asarray(got.toarray() if scipy.sparse.issparse(got) else got, dtype=complex)
    check(got.shape == want.shape, f"{what}: shape {got.shape}, expected {want.shape}", tag + "-shape")
    scale = max(1.0, float(np.max(np.abs(want))) if want.size else 1.0)
    bad = np.abs(got - want) > tol * scale
    if bad.any():
        i = tuple(int(x[0]) for x in np.nonzero(bad))
        check(False, f"{what}: entry {i} is {got[i]}, expected {want[i]}", tag)
    return got


def width(spec):
    qs = P.spec_qubits(spec)
    return max(qs) + 1 if qs else 0


def state_of(ctx, m):
    ctx.state(m.shape, tuple(np.round(m, 7).ravel() + 0.0))


# --------------------------------------------------------------------- sparse matrices
def run_sparse(case, ctx):
    spec, n = case["op"], case["n"]
    op = P.build(spec)
    before = P.key(op)
    w = width(spec)
    m = w if n is None else n
    want = P.spec_matrix(spec, list(range(m)))
    got = get_sparse_operator(op) if n is None else get_sparse_operator(op, n)
    state_of(ctx, close(got, want, f"sparse matrix of {op} on {m} qubits"))
    check(scipy.sparse.issparse(got), "result is not a sparse matrix", "type")
    got2 = get_sparse_operator(op) if n is None else get_sparse_operator(op, n_qubits=n)
    close(got2, want, "second conversion of the same object")
    check(P.key(op) == before, f"operator changed by conversion: {op}", "mutated")
    ctx.step(2)


def cases_terms(tier):
    coefs = COEFS if tier == "quick" else COEFS_T
    nmax = 3 if tier == "quick" else 5
    for n in range(0, nmax + 1):
        for s in P.strings(n):
            for c in (coefs if n <= 3 else [1.0, 1j, [0.5, -2.0]]):
                spec = T(s, jc(c) if isinstance(c, complex) else c)
                w = width(spec)
                if w < n:
                    continue  # already met at its own width
                for m in (None, w, w + 1, w + 2):
                    yield {"op": spec, "n": m}
    for n in (4, 5) if tier == "quick" else (6,):
        for s in P.strings(n):
            if width(T(s)) == n:
                yield {"op": T(s, [0.1 + 1 / 3, -2.0] if n == 4 else 1 / 3), "n": None if len(s) % 2 else n + 1}
    for n in (1, 2, 3):
        for s in P.strings(n):
            for m in (n + 3, n + 4, n + 6):
                yield {"op": T(s, [1 / 3, 2.0]), "n": m}
    for s in ("Z0 X7", "Y1 Z3 X5 Y6", "X0 X1 X2 X3 X4 X5 X6", "Z8", "Y2 Y4 Y6 Y8", "Z0 Z1 Z2 Z3 Z4 Z5 Z6 Z7"):
        for c in (1.0, [0.5, -2.0]):
            for m in (None, 9):
                yield {"op": T(s, c), "n": m}
    # explicit I factors, gaps and every insertion order of the factors
    pos = range(5) if tier == "quick" else range(7)
    for k in (1, 2, 3):
        for qs in itertools.permutations(pos, k):
            if k == 3 and tier == "quick" and sum(qs) % 2:
                continue
            for ops in itertools.product("XYZI" if k < 3 else "XYZ", repeat=k):
                spec = {"o": [[q, o] for q, o in zip(qs, ops)], "c": [0.5, -2.0]}
                yield {"op": spec, "n": None}
                yield {"op": spec, "n": width(spec) + 1}


ALPHA = [
    T("", 0.5), T("X0"), T("Y0", [0.0, 2.0]), T("Z0", -0.25), T("X1"), T("Z0 Z1", 3), T("Y0 X2", [0.5, -2.0]),
    T("X0", -1.0), T("Y1 Y2", 0.12345678912), T("Z3", 1e-5), T("X0", 0), T("", [0.0, -1.0]),
]


def cases_sums(tier):
    yield from ({"op": {"sum": []}, "n": n} for n in (None, 0, 1, 2, 3, 4))
    L = 3 if tier == "quick" else 4
    for k in range(1, L + 1):
        for ts in itertools.product(ALPHA, repeat=k):
            if k == 4 and any(width(t) > 2 for t in ts):
                continue
            spec = {"sum": list(ts)}
            w = width(spec)
            for m in ((None, w + 1) if k < 4 else (None,)):
                yield {"op": spec, "n": m}


# --------------------------------------------------------------------- very small and very large operators
def rel(got, want, what, tag):
    got = np.asarray(got.todense() if scipy.sparse.issparse(got) else got, dtype=complex)
    check(got.shape == want.shape, f"{what}: shape {got.shape}", tag)
    scale = np.max(np.abs(want), initial=0)
    check(np.max(np.abs(got - want), initial=0) <= 1e-9 * scale, f"{what}: off by {np.max(np.abs(got - want), initial=0)}, largest entry {scale}", tag)


SCALES = [1e-5, 1e-9, 1e-12, 1e-13, 1e-16, 1e-20, 1e-30, 1e-100, 1e6, 1e12, 1e20, 1e100]


def cases_scales(tier):
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for s in P.strings(n):
            for c in SCALES if n < 3 else SCALES[3::4]:
                yield {"op": T(s, c)}
                yield {"op": T(s, [0.0, -c])}
    strs = ["X0", "Z0 Z1", "Y0 X1", "Z1", "X0 Y1 Z2"]
    for c in SCALES:
        for k in (2, 3):
            for ss in itertools.permutations(strs, k):
                yield {"op": {"sum": [T(s, [c * (i + 1), c * (0.5 - i)]) for i, s in enumerate(ss)]}}


def run_scales(case, ctx):
    spec = case["op"]
    op = P.build(spec)
    n = max(1, width(spec))
    want = P.spec_matrix(spec, list(range(n)))
    rel(get_sparse_operator(op, n), want, f"sparse matrix of {op}", "sparse-scale")
    v = ref.generic_state(n)
    q = complex(v.conj() @ want @ v)
    got = complex(get_expectation_value(op, Wavefunction(v)))
    scale = np.max(np.abs(want), initial=0) * 2**n
    check(abs(got - q) <= 1e-9 * scale, f"expectation value of {op}: {got}, quadratic form {q}", "expectation-scale")
    s = scipy.sparse.csc_matrix(want)
    got = complex(expectation(s, v))
    check(abs(got - q) <= 1e-9 * scale, f"expectation of the matrix of {op}: {got}, quadratic form {q}", "expectation-scale")
    rel(hermitian_conjugated(s), want.conj().T, f"conjugate of the matrix of {op}", "conjugate-scale")
    ctx.step(4)
    ctx.state(str(op))


# --------------------------------------------------------------------- hermiticity
def run_herm(case, ctx):
    spec = case["op"]
    op = P.build(spec)
    if case.get("simplify"):
        op = op.simplify()
    before = P.key(op)
    n = max(1, width(spec))
    qs = list(range(n))
    m = P.spec_matrix(spec, qs)
    tol = 2e-8 * max(1, len(op.terms))
    h = hermitian_conjugated(op)
    state_of(ctx, close(P.matrix(h, qs), m.conj().T, f"Hermitian conjugate of {op}", tol, "conjugate"))
    close(P.matrix(hermitian_conjugated(h), qs), m, f"double conjugate of {op}", tol, "involution")
    check(P.key(op) == before, "operand changed", "mutated")
    ctx.step(2)
    if "sum" not in spec or case.get("simplify"):
        want = bool(np.max(np.abs(m - m.conj().T)) < 1e-8)
        ctx.outcome(f"hermitian={want}")
        for name, o in (("operator", op), ("sparse", get_sparse_operator(op, n)), ("dense", m)):
            got = is_hermitian(o)
            check(bool(got) == want, f"is_hermitian({name} of {op}) = {got}, matrix says {want}", "is-hermitian")
            ctx.step()
    for name, o in (("sparse", scipy.sparse.csc_matrix(m)), ("coo", scipy.sparse.coo_matrix(m)), ("dense", m)):
        close(hermitian_conjugated(o), m.conj().T, f"conjugate of {name} matrix", tag="conjugate-matrix")
        ctx.step()


HC = [1.2345678901234567, [1 / 3, 2 / 7], -2, [0.0, 1.0], [0.5, -2.0], 0, [1.0, 1e-5], [3.0, 1e-12], [-1.0, 0.0], 1e6, [1e6, -1e-3], [0.0, -1e-5]]


def cases_herm(tier):
    n = 3 if tier == "quick" else 4
    for s in P.strings(n):
        for c in HC:
            yield {"op": T(s, c)}
    for m in (4, 5) if tier == "quick" else (5, 6):
        for s in P.strings(m):
            for c in (1 / 3, [0.5, -2 / 3]) if m == 4 else ([0.5, -2 / 3],):
                if width(T(s)) == m:
                    yield {"op": T(s, c)}
                    yield {"op": {"sum": [T(s, c), T("X0", 0.7)]}}
    for k in (4, 5, 7):
        yield {"op": {"sum": [T(f"Z{i} X{(i + 1) % k}", [0.5 + i, 0.25 * (i - 2)]) for i in range(k)]}}
        yield {"op": {"sum": [T(f"Y{i}", 1 / (i + 3)) for i in range(k)]}, "simplify": 1}
    strs = ["", "X0", "Y0", "X0 Y1", "Y0 Y1", "Z2", "X0 X1"]
    cs = [1.0, -0.5, [0.0, 1.0], [0.5, -2.0], [1.0, 1e-5], 2]
    for k in (1, 2) if tier == "quick" else (1, 2, 3):
        for ss in itertools.product(strs, repeat=k):
            for c in itertools.product(cs if k < 3 else cs[:4], repeat=k):
                ts = [T(s, x) for s, x in zip(ss, c)]
                yield {"op": {"sum": ts}}
                yield {"op": {"sum": ts}, "simplify": 1}
    # coefficients that cancel, or whose imaginary parts cancel, on simplification
    for a, b, c in itertools.product(cs, repeat=3):
        yield {"op": {"sum": [T("Y0 X1", a), T("Y0 X1", b), T("Z0", c)]}, "simplify": 1}
    yield {"op": {"sum": []}, "simplify": 1}


# --------------------------------------------------------------------- Pauli expansion
def build_matrix(spec):
    n = spec["n"]
    d = 2**n
    m = np.zeros((d, d), dtype=complex)
    for i, j, v in spec["e"]:
        m[i, j] += P.coef(v)
    return m


def present(m, form):
    if form == "list":
        return [[complex(x) if x.imag else float(x.real) for x in row] for row in m]
    if form == "intlist":
        return [[int(x.real) for x in row] for row in m]
    if form == "real":
        return np.array(m.real)
    if form == "int":
        return np.array(m.real, dtype=int)
    if form == "tuple":
        return tuple(tuple(complex(x) for x in row) for row in m)
    return m


def run_expand(case, ctx):
    m = build_matrix(case)
    n = case["n"]
    given = present(m, case["form"])
    copy = m.copy()
    op = get_pauliop_from_matrix(given)
    check(isinstance(op, PauliSum), "not a PauliSum", "type")
    qs = list(range(n))
    tol = 1e-8 * 4**n + 1e-12
    state_of(ctx, close(P.matrix(op, qs), m, f"Pauli expansion {op}", tol, "expansion"))
    close(get_sparse_operator(op, n), m, f"expansion converted back {op}", tol, "round-trip")
    close(np.array(given, dtype=complex), copy, "input matrix afterwards", 0.0, "mutated")
    ctx.step(2)


VALS = [0, 1, -1, [0.0, 1.0], 0.5]


def cases_expand(tier):
    for v in (0, 1, -2, [0.5, 1.0], 1e-5):
        for form in ("list", "array"):
            yield {"n": 0, "e": [[0, 0, v]], "form": form}
    # every 2x2 matrix over VALS
    for a, b, c, d in itertools.product(VALS, repeat=4):
        yield {"n": 1, "e": [[0, 0, a], [0, 1, b], [1, 0, c], [1, 1, d]], "form": "list"}
    for form in ("array", "real", "int", "tuple", "intlist"):
        for a, b, c, d in itertools.product([0, 1, -3], repeat=4):
            yield {"n": 1, "e": [[0, 0, a], [0, 1, b], [1, 0, c], [1, 1, d]], "form": form}
    scales = [1, [0.0, 1.0], -1e-5, [1e8, -2.0], 3e-7, 1e14]
    for n in (2, 3):
        d = 2**n
        for i, j in itertools.product(range(d), repeat=2):
            for v in scales if n == 2 else scales[:2]:
                yield {"n": n, "e": [[i, j, v]], "form": "list" if (i + j) % 2 else "array"}
    # every pair of matrix units
    for p, q in itertools.combinations(itertools.product(range(4), repeat=2), 2):
        for v in ([0.0, 1.0], -1, [0.3, -0.7]) if tier == "quick" else (1, -1, [0.0, 1.0], [0.0, -1.0], [0.3, -0.7]):
            yield {"n": 2, "e": [[*p, 1], [*q, v]], "form": "list"}
    # dense: all entries distinct
    for n in (1, 2, 3, 4):
        d = 2**n
        for k in range(4):
            yield {"n": n, "form": ("array", "list")[k % 2],
                   "e": [[i, j, [((i * d + j) * (k + 3)) % 17 - 8 + 0.25 * k, ((i + 2 * j) * (k + 1)) % 11 - 5.0]]
                         for i in range(d) for j in range(d)]}
    if tier != "quick":
        # all 0/1/-1/i permutation-like 4x4 matrices: every permutation with every phase pattern
        for perm in itertools.permutations(range(4)):
            for ph in itertools.product([1, -1, [0.0, 1.0]], repeat=4):
                yield {"n": 2, "e": [[i, perm[i], ph[i]] for i in range(4)], "form": "array"}
        for n in (4,):
            for i, j in itertools.product(range(16), repeat=2):
                if (i * 16 + j) % 16 == 0 or i == j or i + j == 15:
                    yield {"n": n, "e": [[i, j, [1.0, 2.0]]], "form": "array"}


# --------------------------------------------------------------------- qubit reversal
def bitrev(m, n):
    d = 2**n
    idx = [int(format(i, f"0{n}b")[::-1], 2) if n else 0 for i in range(d)]
    return m[np.ix_(idx, idx)]


def run_reverse(case, ctx):
    spec, n = case["op"], case["n"]
    op = P.build(spec)
    before = P.key(op)
    m = width(spec) if n is None else n
    qs = list(range(m))
    want = P.spec_matrix(spec, qs)
    tol = 2e-8 * max(1, len(op.terms))
    r = reverse_qubit_order(op) if n is None else reverse_qubit_order(op, n)
    state_of(ctx, close(P.matrix(r, qs), bitrev(want, m), f"reverse of {op} on {m} qubits", tol, "reverse"))
    close(get_sparse_operator(r, m), bitrev(want, m), f"sparse matrix of the reverse of {op}", tol, "reverse-sparse")
    rr = reverse_qubit_order(r, m)
    close(P.matrix(rr, qs), want, f"{op} reversed twice on {m} qubits", tol, "involution")
    check(P.key(op) == before, f"operator changed by reversal: {op}", "mutated")
    ctx.step(3)


def cases_reverse(tier):
    n = 3 if tier == "quick" else 4
    for s in P.strings(n):
        for c in (1 / 3, 1j, [0.5, -2 / 3], 0, 1.2345678901):
            spec = T(s, jc(c))
            w = width(spec)
            for m in (None, w, w + 1, w + 2):
                yield {"op": spec, "n": m}
    for n in (4, 5) if tier == "quick" else (5, 6):
        for s in P.strings(n):
            if width(T(s)) == n:
                yield {"op": T(s, [1 / 3, 0.25]), "n": n + len(s) // 3 % 3}
    for n in (1, 2, 3):
        for s in P.strings(n):
            yield {"op": T(s, [1 / 3, 2.0]), "n": n + 4}
    for s in ("Z0 X7", "Y1 Z3 X5 Y6", "X0 Y1 Z2 X3 Y4 Z5 X6", "Z8", "Z0"):
        for m in (9, 10):
            yield {"op": T(s, 1 / 3), "n": m}
    for k in (0, 1, 2) if tier == "quick" else (0, 1, 2, 3):
        for ts in itertools.product(ALPHA, repeat=k):
            spec = {"sum": list(ts)}
            w = width(spec)
            for m in (None, w + 1):
                yield {"op": spec, "n": m}


# --------------------------------------------------------------------- expectation values
def norm(vec):
    v = np.array([P.coef(x) for x in vec], dtype=complex)
    return v / np.linalg.norm(v)


def run_expect(case, ctx):
    spec = case["op"]
    op = P.build(spec)
    v = norm(case["psi"])
    n = int(math.log2(len(v)))
    m = P.spec_matrix(spec, list(range(n)))
    wf = Wavefunction(v.copy())
    scale = max(1.0, float(np.max(np.abs(m))))

    def eq(got, want, what, tag):
        check(abs(complex(got) - want) <= 2e-8 * max(1, len(op.terms)) * scale,
              f"{what} of {op} in {case['psi']} = {got}, quadratic form {want}", tag)
        ctx.step()

    want = complex(v.conj() @ m @ v)
    ctx.state(round(want.real, 7) + 0.0, round(want.imag, 7) + 0.0)
    eq(get_expectation_value(op, wf), want, "get_expectation_value", "expectation")
    eq(get_expectation_value(op, wf, reverse_operator=True), complex(v.conj() @ bitrev(m, n) @ v),
       "get_expectation_value(reverse_operator)", "expectation-reversed")
    close(np.array(wf.amplitudes, dtype=complex), v, "the state afterwards", 1e-12, "mutated")
    s = scipy.sparse.csc_matrix(m)
    eq(expectation(s, v), want, "expectation(row vector)", "expectation-row")
    eq(expectation(s, v.reshape(-1, 1)), want, "expectation(column vector)", "expectation-column")
    eq(expectation(s, scipy.sparse.csc_matrix(np.outer(v, v.conj()))), want, "expectation(density matrix)",
       "expectation-density")
    eq(expectation(scipy.sparse.linalg.aslinearoperator(s), v), want, "expectation(LinearOperator)",
       "expectation-linear")


def cases_expect(tier):
    ops = {1: [T(s, c) for s in P.strings(1) for c in (1.0, [0.5, -2.0])] + [{"sum": []}]}
    sums = [{"sum": []}] + [{"sum": list(ts)} for k in (1, 2) for ts in itertools.product(ALPHA, repeat=k)]
    vals = [0, 1, -1, [0.0, 1.0]]
    for psi in itertools.product(vals + [[0.0, -2.0], 0.5], repeat=2):
        if any(psi):
            for o in ops[1]:
                yield {"op": o, "psi": list(psi)}
    two = [T(s, c) for s in P.strings(2) for c in (1.0, [0.5, -2.0])]
    two += [o for o in sums if width(o) <= 2 and len(o["sum"]) < 2]
    for psi in itertools.product(vals, repeat=4):
        if any(psi):
            for o in two:
                yield {"op": o, "psi": list(psi)}
    # 3 and 4 qubits: every basis state, every pair of basis states with a phase, dense states
    for n in (3, 4):
        d = 2**n
        psis = [[1 if i == k else 0 for i in range(d)] for k in range(d)]
        pairs = itertools.combinations(range(d), 2)
        for a, b in pairs:
            if n == 4 and tier == "quick" and (a + b) % 3:
                continue
            for ph in (1, [0.0, -1.0]):
                p = [0] * d
                p[a], p[b] = 1, ph
                psis.append(p)
        psis += [[[(i * (k + 2)) % 7 - 2.0, (i * i + k) % 5 - 1.0] for i in range(d)] for k in range(6)]
        cand = [T(s, 1.0) for s in P.strings(n)] + sums
        cand = [o for o in cand if width(o) <= n]
        if n == 4 or tier == "quick":
            cand = cand[:: (3 if n == 3 else 17) if tier == "quick" else (1 if n == 3 else 5)]
        for psi in psis:
            for o in cand:
                yield {"op": o, "psi": psi}


# --------------------------------------------------------------------- wide registers
def pauli_on(spec, v, n):
    """The operator of a spec applied to a vector, bit by bit."""
    if "sum" in spec:
        out = np.zeros(len(v), dtype=complex)
        for t in spec["sum"]:
            out += pauli_on(t, v, n)
        return out
    idx = np.arange(len(v))
    src, ph = idx.copy(), np.full(len(v), P.coef(spec["c"]), dtype=complex)
    for q, o in spec["o"]:
        bit = (idx >> (n - 1 - q)) & 1
        if o in "XY":
            src = src ^ (1 << (n - 1 - q))
        if o == "Y":
            ph = ph * np.where(bit, 1j, -1j)
        if o == "Z":
            ph = ph * np.where(bit, -1, 1)
    return ph * v[src]


def run_wide(case, ctx):
    spec, n = case["op"], case["n"]
    op = P.build(spec)
    k = len(spec["sum"]) if "sum" in spec else 1
    d = 2**n
    i = np.arange(d)
    v = (np.cos(1.7 * i + 0.3 * np.sqrt(i)) + 1j * np.sin(2.3 * i * 0.7 + 0.11 * i**1.5)) / 3
    v = v / np.linalg.norm(v)
    rev = np.zeros(d, dtype=int)
    for q in range(n):
        rev |= ((i >> q) & 1) << (n - 1 - q)
    want = pauli_on(spec, v, n)
    wrev = pauli_on(spec, v[rev], n)[rev]
    scale = max(1.0, np.max(np.abs(want)) * np.sqrt(d))

    def same(m, w, what, tag):
        check(m.shape == (d, d), f"{what}: shape {m.shape}", tag)
        g = np.asarray(m @ v).ravel()
        bad = np.nonzero(np.abs(g - w) > 2e-8 * k * scale / np.sqrt(d) + 1e-12)[0]
        check(len(bad) == 0, f"{what} on {n} qubits differs from the definition, e.g. in row {bad[:1]}", tag)
        ctx.step()

    s = get_sparse_operator(op, n)
    same(s, want, f"sparse matrix of {op}", "wide-sparse")
    if width(spec) == n:
        same(get_sparse_operator(op), want, f"sparse matrix of {op}, width not given", "wide-sparse")
    r = reverse_qubit_order(op, n)
    same(get_sparse_operator(r, n), wrev, f"reverse of {op}", "wide-reverse")
    same(get_sparse_operator(reverse_qubit_order(r, n), n), want, f"{op} reversed twice", "wide-reverse")
    h = hermitian_conjugated(op)
    conj = {"sum": [dict(t, c=jc(complex(P.coef(t["c"])).conjugate())) for t in spec.get("sum", [spec])]}
    wconj = pauli_on(conj, v, n)
    same(get_sparse_operator(h, n), wconj, f"conjugate of {op}", "wide-conjugate")
    same(hermitian_conjugated(s), wconj, f"conjugate of the matrix of {op}", "wide-conjugate")
    herm = all(abs(complex(P.coef(t["c"])).imag) < 1e-9 for t in conj["sum"])
    for what, o in ((op, op), (f"matrix of {op}", s)):
        check(bool(is_hermitian(o)) == herm, f"is_hermitian({what}) is not {herm}", "wide-hermitian")
        ctx.step()
    wf = Wavefunction(v)
    for flag, w in ((False, want), (True, wrev)):
        got, q = complex(get_expectation_value(op, wf, reverse_operator=flag)), complex(v.conj() @ w)
        check(abs(got - q) <= 2e-8 * k * scale, f"expectation value of {op} (reverse={flag}): {got}, quadratic form {q}", "wide-expectation")
        ctx.step()
    ctx.state(n, str(op))


def cases_wide(tier):
    for n in (10, 11, 12, 13) if tier == "quick" else (8, 10, 11, 12, 13, 14, 15, 16):
        for q in range(n):
            for o in "XYZ":
                yield {"op": T(f"{o}{q}", [1 / 3, 0.25] if q % 2 else -0.7), "n": n}
        for qs in itertools.permutations((0, 1, 2, n - 3, n - 2, n - 1), 2):
            for o in ("XY", "YZ", "ZX"):
                yield {"op": T(f"{o[0]}{qs[0]} {o[1]}{qs[1]}", [1 / 3, 0.25]), "n": n}
        for w in range(3, n + 1):
            for start in (0, n - w):
                yield {"op": T(" ".join(f"{'XYZ'[(i + w) % 3]}{start + i}" for i in range(w)), [0.5, -2.0]), "n": n}
        for k in (5, 17, 33, 64, 100):
            ts = [T(f"{'XYZ'[i % 3]}{i % n} {'ZXY'[i // 3 % 3]}{(i * 5 + 1 + (i * 4 + 1) % n // n) % n}" if (i * 5 + 1 - i) % n else f"Z{i % n}", [0.1 * (i % 7) - 0.25, 0.03 * (i % 5)] if k % 2 else 0.1 * i + 0.1) for i in range(k)]
            yield {"op": {"sum": ts}, "n": n}
        yield {"op": {"sum": []}, "n": n}
        yield {"op": T("", [0.5, -2.0]), "n": n}


FAMILIES = [
    Family("terms", cases_terms, run_sparse,
           "every Pauli string on <=3 (5) qubits x 11 coefficients x register widths w..w+2, every string on 4, 5 (6), registers to 9; every placement and "
           "insertion order of <=3 factors on qubits 0..4 (6), incl. explicit identities"),
    Family("sums", cases_sums, run_sparse, "every ordered sum of <=3 (4) terms over a 12-term alphabet, and the empty sum"),
    Family("scales", cases_scales, run_scales, "every string on <=3 (4) qubits and sums of 2, 3 terms with coefficients from 1e-100 to 1e100, to relative precision"),
    Family("hermitian", cases_herm, run_herm,
           "every string on 3 (4) qubits x 12 coefficients, every string on 4, 5 (6); sums of <=2 (3) terms, simplified and not"),
    Family("expansion", cases_expand, run_expand,
           "every 2x2 matrix over 5 values, every matrix unit and pair of units for 4x4, every unit for 8x8, dense"),
    Family("reverse", cases_reverse, run_reverse, "every string on <=5 (6) qubits, sums of <=2 (3) terms, widths w..w+2"),
    Family("wide", cases_wide, run_wide, "registers of 10..13 (8..16) qubits: every single factor, pairs at both ends in either order, runs of every length, sums of 5..100 terms; matrix, reverse, conjugate, expectation against bit arithmetic"),
    Family("expectation", cases_expect, run_expect,
           "every operator of the alphabet x every 1- and 2-qubit state over a 4..6-value alphabet; 3, 4 qubit basis, "
           "two-level and dense states"),
]

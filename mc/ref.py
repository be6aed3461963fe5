"""Boring reference model: plain numpy, qubit 0 = most significant bit.

Nothing here calls the code under test except `num` (which converts sympy / numpy
matrices returned by it to complex arrays)."""
import cmath
import itertools
import math

import numpy as np
import sympy

TOL = 1e-8


def num(m, subs=None):
    """Anything matrix-like (sympy, numpy, nested lists) -> complex ndarray."""
    if isinstance(m, np.ndarray) and m.dtype != object:
        return np.array(m, dtype=complex)
    if hasattr(m, "tolist"):
        rows = m.tolist()
    else:
        rows = list(m)

    def conv(x):
        if isinstance(x, (list, tuple)):
            return [conv(y) for y in x]
        return cnum(x, subs)

    return np.array(conv(rows), dtype=complex)


def cnum(x, subs=None):
    if isinstance(x, sympy.Basic):
        try:
            return evaluate(x, subs or {})
        except (KeyError, OverflowError, ZeroDivisionError, ValueError):
            pass
        if subs:
            x = x.subs(subs, simultaneous=True)
        return complex(x.evalf()) if not x.is_Number else complex(x)
    return complex(x)


def _realify(f, cf):
    def g(z):
        return complex(f(z.real)) if z.imag == 0 else cf(z)

    return g


_FUN = {
    "sin": _realify(math.sin, cmath.sin),
    "cos": _realify(math.cos, cmath.cos),
    "tan": cmath.tan,
    "exp": cmath.exp,
    "conjugate": lambda z: z.conjugate(),
    "re": lambda z: complex(z.real),
    "im": lambda z: complex(z.imag),
    "Abs": lambda z: complex(abs(z)),
    "sinh": cmath.sinh,
    "cosh": cmath.cosh,
}
_CONST = {sympy.pi: complex(math.pi), sympy.E: complex(math.e), sympy.I: 1j}


def evaluate(e, env):
    """Value of a sympy tree under env {Symbol: number}, by plain recursion in floats
    (independent of sympy's own substitution and evaluation).  KeyError if it meets a node
    it does not know."""
    if e in env:
        return complex(env[e])
    if e.is_Number:
        return complex(e)
    if e in _CONST:
        return _CONST[e]
    if e.is_Add:
        out = 0j
        for a in e.args:
            out += evaluate(a, env)
        return out
    if e.is_Mul:
        out = 1 + 0j
        for a in e.args:
            out *= evaluate(a, env)
        return out
    if e.is_Pow:
        b, x = e.args
        vb = evaluate(b, env)
        if x.is_Integer and abs(int(x)) < 64:
            return vb ** int(x)
        vx = evaluate(x, env)
        if vb == 0:
            raise ZeroDivisionError
        vb = complex(vb.real, vb.imag + 0.0)  # no negative zero: the principal branch
        return cmath.exp(vx * cmath.log(vb))
    return _FUN[type(e).__name__](evaluate(e.args[0], env)) if len(e.args) == 1 else _FUN["?"]


def embed(matrix, qubits, n):
    """Definition: <b'|U|b> = M[b'_qubits, b_qubits] * prod_{other} delta(b'_q, b_q)."""
    matrix = np.asarray(matrix, dtype=complex)
    k = len(qubits)
    assert matrix.shape == (2**k, 2**k), (matrix.shape, qubits)
    dim = 2**n
    out = np.zeros((dim, dim), dtype=complex)
    mask = 0
    for q in qubits:
        mask |= 1 << (n - 1 - q)
    for col in range(dim):
        sub_in = 0
        for q in qubits:
            sub_in = (sub_in << 1) | ((col >> (n - 1 - q)) & 1)
        base = col & ~mask
        for sub_out in range(2**k):
            v = matrix[sub_out, sub_in]
            if v == 0:
                continue
            row = base
            for i, q in enumerate(qubits):
                if (sub_out >> (k - 1 - i)) & 1:
                    row |= 1 << (n - 1 - q)
            out[row, col] += v
    return out


def apply(matrix, qubits, n, state):
    """Same, on a state vector, by tensor contraction (independent of `embed`)."""
    k = len(qubits)
    psi = np.asarray(state, dtype=complex).reshape((2,) * n)
    m = np.asarray(matrix, dtype=complex).reshape((2,) * (2 * k))
    psi = np.tensordot(m, psi, axes=(list(range(k, 2 * k)), list(qubits)))
    rest = [q for q in range(n) if q not in qubits]
    order = list(qubits) + rest
    inv = [order.index(q) for q in range(n)]
    return psi.transpose(inv).reshape(-1)


def close(a, b, tol=TOL):
    a = np.asarray(a, dtype=complex)
    b = np.asarray(b, dtype=complex)
    if a.shape != b.shape:
        return False
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return False
    scale = max(1.0, float(np.max(np.abs(b))) if b.size else 1.0)
    return bool(np.all(np.abs(a - b) <= tol * scale))


PAULI = {
    "I": np.eye(2, dtype=complex),
    "X": np.array([[0, 1], [1, 0]], dtype=complex),
    "Y": np.array([[0, -1j], [1j, 0]], dtype=complex),
    "Z": np.array([[1, 0], [0, -1]], dtype=complex),
}


def pauli_matrix(ops, coef, n):
    """ops: {qubit: 'X'|'Y'|'Z'}; qubit 0 leftmost Kronecker factor."""
    out = np.array([[1.0 + 0j]])
    for q in range(n):
        out = np.kron(out, PAULI[ops.get(q, "I")])
    return coef * out


def basis_state(bits):
    idx = 0
    for b in bits:
        idx = 2 * idx + b
    v = np.zeros(2 ** len(bits), dtype=complex)
    v[idx] = 1
    return v


def digest(a, nd=6):
    a = np.round(np.asarray(a, dtype=complex), nd) + 0.0
    return (a.shape, a.tobytes())


def generic_state(n, variant=0):
    """A normalised vector with pairwise distinct complex amplitudes, no zero entry."""
    d = 2**n
    k = np.arange(d)
    v = (1 + ((k * 7 + 3 * variant) % 11) / 7.0 + k / 50.0) * np.exp(
        1j * (0.37 + variant) * (k + 1) ** 2 / 1.7
    )
    return v / np.linalg.norm(v)


def generic_matrix(d, variant=0):
    """Distinct complex entries, nothing symmetric about it."""
    r = np.arange(d).reshape(-1, 1)
    c = np.arange(d).reshape(1, -1)
    return (
        np.round(0.3 + 0.11 * r + 0.017 * c + 0.05 * variant + 0.01 * ((3 * r + 5 * c) % 7), 6)
        + 1j * np.round(0.2 - 0.07 * r + 0.031 * c + 0.013 * ((2 * r * c + c) % 5), 6)
    ) / d


def generic_unitary(d, variant=0):
    a = generic_matrix(d, variant)
    h = a + a.conj().T
    w, v = np.linalg.eigh(h)
    # spread the spectrum so that the unitary is far from a phase times identity
    return (v * np.exp(1j * (0.4 + 0.9 * np.arange(d) + variant))) @ v.conj().T


def ordered_tuples(n, k):
    return [list(t) for t in itertools.permutations(range(n), k)]

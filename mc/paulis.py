"""Specs and denotations of Pauli operators.

term spec : {"o": [[q, "X"], ...], "c": coef}    coef: number | [re, im] (complex) | {"int":..}
op spec   : term spec | {"sum": [term spec, ...]} | {"num": coef}
"""
import itertools

import numpy as np

from orquestra.quantum.operators import PauliSum, PauliTerm

from . import ref


def coef(c):
    return complex(*c) if isinstance(c, list) else c


def build(spec):
    if "num" in spec:
        return coef(spec["num"])
    if "sum" in spec:
        return PauliSum([build(t) for t in spec["sum"]])
    return PauliTerm({q: o for q, o in spec["o"]}, coef(spec["c"]))


def T(s, c=1.0):
    """T("X0 Y2", 0.5) -> term spec"""
    return {"o": [[int(w[1:]), w[0]] for w in s.split()], "c": c}


def spec_qubits(spec):
    if "num" in spec:
        return set()
    if "sum" in spec:
        return set().union(*[spec_qubits(t) for t in spec["sum"]]) if spec["sum"] else set()
    return {q for q, o in spec["o"] if o != "I"}


def spec_matrix(spec, qubits):
    """The matrix a spec denotes on the ordered list of qubits."""
    n = len(qubits)
    if "num" in spec:
        return coef(spec["num"]) * np.eye(2**n, dtype=complex)
    if "sum" in spec:
        out = np.zeros((2**n, 2**n), dtype=complex)
        for t in spec["sum"]:
            out = out + spec_matrix(t, qubits)
        return out
    pos = {q: i for i, q in enumerate(qubits)}
    return ref.pauli_matrix({pos[q]: o for q, o in spec["o"] if o != "I"}, coef(spec["c"]), n)


def matrix(op, qubits):
    """The matrix a library object (or plain number) denotes, from its public view."""
    n = len(qubits)
    if isinstance(op, (int, float, complex)):
        return op * np.eye(2**n, dtype=complex)
    pos = {q: i for i, q in enumerate(qubits)}
    out = np.zeros((2**n, 2**n), dtype=complex)
    for t in op.terms:
        out = out + ref.pauli_matrix({pos[q]: o for q, o in t.operations}, complex(t.coefficient), n)
    return out


def strings(n, qubits=None):
    qs = qubits or list(range(n))
    for ops in itertools.product("IXYZ", repeat=n):
        yield " ".join(f"{o}{q}" for o, q in zip(ops, qs) if o != "I")


def key(op):
    """Canonical form of an operator object."""
    if isinstance(op, (int, float, complex)):
        return ("num", complex(op))
    return tuple(
        sorted(
            (
                (tuple(sorted(t.operations)), round(complex(t.coefficient).real, 9) + 0.0,
                 round(complex(t.coefficient).imag, 9) + 0.0)
                for t in op.terms
            ),
        )
    )

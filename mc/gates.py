"""JSON gate / operation / circuit specs -> objects of the code under test.

gate spec : ["X"] | ["RX", p] | ["U3", p, p, p] | ["custom", key, p...]
            | ["dag", g] | ["c", k, g] | ["pow", e, g] | ["exp", g]
param     : number | "expr" (python expression over symbols) | "$name" (a Symbol of
            exactly that name) | "{'...'}"
op spec   : [gate, [q, ...]] | ["mp", [params]] | ["reset", q]
circuit   : {"n": width or null, "ops": [...]}
"""
import numpy as np
import sympy

from orquestra.quantum import circuits as oc

from . import ref

S = sympy.Symbol
NAMES = {
    n: S(n)
    for n in "theta phi lam alpha beta gamma a b c d t x y z w theta_0 theta_1 theta_2 theta_10".split()
}


class _NS(dict):
    def __missing__(self, key):
        if hasattr(sympy, key):
            return getattr(sympy, key)
        raise KeyError(key)


def param(p):
    if isinstance(p, dict):
        (kind, v), = p.items()
        return {
            "np": np.float64,
            "npint": np.int64,
            "complex": lambda u: complex(*u),
            "int": int,
            "sfloat": sympy.Float,
            "srat": lambda u: sympy.Rational(*u),
            "f32": np.float32,
        }[kind](v)
    if not isinstance(p, str):
        return p
    if p.startswith("$"):
        return S(p[1:])
    if p.startswith("@"):  # the same name, another symbol
        return sympy.Symbol(p[1:], real=True)
    if p.startswith("%"):
        return sympy.Symbol(p[1:], positive=True)
    ns = _NS(NAMES)
    ns["S"] = S
    return eval(p, {"__builtins__": {}}, ns)


# ---------------------------------------------------------------- custom definitions
def _sym_matrix(rows):
    ns = _NS(NAMES)
    ns["S"] = S
    return sympy.Matrix([[eval(str(e), {"__builtins__": {}}, ns) for e in r] for r in rows])


def _np_matrix(a):
    return sympy.Matrix(a.tolist())


_CUSTOM = {
    # non parametric, dense, no symmetry: pins down index placement completely
    "g1": lambda: ("g1", _np_matrix(ref.generic_matrix(2)), ()),
    "g2": lambda: ("g2", _np_matrix(ref.generic_matrix(4)), ()),
    "g3": lambda: ("g3", _np_matrix(ref.generic_matrix(8)), ()),
    "g4": lambda: ("g4", _np_matrix(ref.generic_matrix(16)), ()),
    "u1": lambda: ("u1", _np_matrix(ref.generic_unitary(2)), ()),
    "u2": lambda: ("u2", _np_matrix(ref.generic_unitary(4)), ()),
    "u3c": lambda: ("u3c", _np_matrix(ref.generic_unitary(8)), ()),
    "u4": lambda: ("u4", _np_matrix(ref.generic_unitary(16)), ()),
    # parametric, unitary for real parameters
    "p1": lambda: (
        "p1",
        _sym_matrix([["cos(a)", "-sin(a)*exp(I*b)"], ["sin(a)", "cos(a)*exp(I*b)"]]),
        (S("a"), S("b")),
    ),
    "p1r": lambda: (  # definition order differs from alphabetical order
        "p1r",
        _sym_matrix([["cos(a)", "-sin(a)*exp(I*b)"], ["sin(a)", "cos(a)*exp(I*b)"]]),
        (S("b"), S("a")),
    ),
    "p2": lambda: (
        "p2",
        _sym_matrix(
            [
                ["cos(theta)", 0, 0, "I*sin(theta)"],
                [0, "exp(I*phi)", 0, 0],
                [0, 0, "exp(-2*I*phi)", 0],
                ["I*sin(theta)", 0, 0, "cos(theta)"],
            ]
        ),
        (S("theta"), S("phi")),
    ),
    "px": lambda: (  # indexed symbols in a definition
        "px",
        sympy.Matrix(
            [
                [sympy.exp(sympy.I * S("x[0]")), 0],
                [0, sympy.exp(sympy.I * (S("x[1]") + 2 * S("x[0]")))],
            ]
        ),
        (S("x[0]"), S("x[1]")),
    ),
    "pbeta": lambda: (  # symbols that shadow sympy names
        "pbeta",
        sympy.Matrix(
            [
                [sympy.cos(S("beta")), -sympy.sin(S("beta"))],
                [sympy.sin(S("beta")) * sympy.exp(sympy.I * S("gamma")),
                 sympy.cos(S("beta")) * sympy.exp(sympy.I * S("gamma"))],
            ]
        ),
        (S("beta"), S("gamma")),
    ),
    "p5": lambda: (  # many parameters, definition order unrelated to the matrix or the alphabet
        "p5",
        sympy.Matrix([[S("q0") + sympy.I * S("q1"), S("q2")], [S("q3") ** 2, S("q4") - 2 * S("q0")]]),
        (S("q3"), S("q0"), S("q4"), S("q1"), S("q2")),
    ),
    "p3": lambda: (  # three qubits, three parameters
        "p3",
        sympy.Matrix(8, 8, lambda i, j: sympy.exp(sympy.I * (S("c"), S("a"), S("b"))[i % 3] * (i + 1))
                     if j == (i + 3) % 8 else 0),
        (S("b"), S("c"), S("a")),
    ),
    # two different gates under one name
    "look_a": lambda: ("look", sympy.Matrix([[0, 1], [1, 0]]), ()),
    "look_b": lambda: ("look", sympy.Matrix([[1, 0], [0, -1]]), ()),
    "look_p": lambda: ("look", _sym_matrix([["cos(a)", "-sin(a)"], ["sin(a)", "cos(a)"]]), (S("a"),)),
    "look_q": lambda: ("look", _sym_matrix([["exp(I*a)", "0"], ["0", "1"]]), (S("a"),)),
    # gates of one's own under names the library uses too
    "own_u3": lambda: ("U3", _sym_matrix([["1", "0"], ["0", "exp(I*(a+2*b+3*c))"]]), (S("a"), S("b"), S("c"))),
    "own_u3w": lambda: (
        "U3",
        _sym_matrix([["cos(a)", "0", "0", "I*sin(a)"], ["0", "1", "0", "0"], ["0", "0", "exp(I*b)", "0"], ["I*sin(a)", "0", "0", "cos(a)"]]),
        (S("a"), S("b")),
    ),
    "own_u3c": lambda: ("U3", sympy.Matrix([[0, 1], [sympy.I, 0]]), ()),
    "own_rz": lambda: ("RZ", _sym_matrix([["cos(a)", "-sin(a)"], ["sin(a)", "cos(a)"]]), (S("a"),)),
    "int1": lambda: ("int1", sympy.Matrix([[0, 1], [-1, 0]]), ()),
    "rat1": lambda: (
        "rat1",
        sympy.Matrix(
            [[sympy.Rational(3, 5), -sympy.Rational(4, 5) * sympy.I],
             [-sympy.Rational(4, 5) * sympy.I, sympy.Rational(3, 5)]]
        ),
        (),
    ),
    "sq1": lambda: (
        "sq1",
        sympy.Matrix([[1, sympy.I], [sympy.I, 1]]) / sympy.sqrt(2),
        (),
    ),
}


def custom_def(key):
    if key.startswith("as_"):
        # a gate of one's own under the name, and of the shape, of a built-in gate
        name = key[3:]
        k = NPARAMS.get(name, 0)
        n = 2 ** ARITY.get(name, 1)
        ps = tuple(S(x) for x in ("u", "v", "w")[:k])
        # a cyclic shift with distinct phases: no built-in gate acts like that
        m = sympy.Matrix(n, n, lambda i, j: sympy.exp(sympy.I * (sum((i + 2 + q) * x for q, x in enumerate(ps)) + sympy.Rational(1 + i, 7)))
                         if j == (i + 1) % n else 0)
    else:
        name, m, ps = _CUSTOM[key]()
    return oc.CustomGateDefinition(name, m, ps)


def gate(spec):
    k = spec[0]
    if k == "dag":
        return gate(spec[1]).dagger
    if k == "c":
        return gate(spec[2]).controlled(spec[1])
    if k == "pow":
        return gate(spec[2]).power(spec[1])
    if k == "exp":
        return gate(spec[1]).exp
    if k == "custom":
        return custom_def(spec[1])(*[param(p) for p in spec[2:]])
    g = oc.builtin_gate_by_name(k)
    if len(spec) > 1:
        return g(*[param(p) for p in spec[1:]])
    return g


def op(spec):
    if spec[0] == "mp":
        return oc.MultiPhaseOperation(tuple(param(p) for p in spec[1]))
    if spec[0] == "reset":
        return oc.ResetOperation(spec[1])
    return gate(spec[0])(*spec[1])


def circuit(spec):
    ops = [op(o) for o in spec["ops"]]
    if spec.get("n") is None:
        return oc.Circuit(ops)
    return oc.Circuit(ops, n_qubits=spec["n"])


# groups of different gates that agree in name, text, parameters or shape
LOOKALIKES = [
    [["custom", "look_a"], ["custom", "look_b"]],
    [["custom", "look_p", 0.3], ["custom", "look_q", 0.3], ["custom", "look_p", -0.3]],
    [["dag", ["custom", "look_p", 0.3]], ["dag", ["custom", "look_q", 0.3]], ["custom", "look_q", 0.3]],
    [["dag", ["S"]], ["dag", ["T"]], ["dag", ["SX"]]],
    [["pow", 3, ["S"]], ["pow", 3, ["T"]], ["pow", -3, ["T"]], ["pow", 5, ["T"]]],
    [["pow", 0.5, ["S"]], ["pow", 0.5, ["T"]], ["pow", 0.25, ["T"]]],
    [["RX", 0.3], ["RY", 0.3], ["RZ", 0.3], ["PHASE", 0.3], ["GPi2", 0.3], ["Delay", 0.3]],
    [["RX", 0.3], ["RX", -0.3], ["RX", 0.3001], ["dag", ["RX", 0.3]]],
    [["U3", 0.1, 0.2, 0.4], ["U3", 0.4, 0.2, 0.1], ["U3", 0.1, 0.4, 0.2]],
    [["X"], ["Y"], ["Z"], ["I"]],
    [["c", 1, ["S"]], ["c", 1, ["T"]], ["c", 1, ["dag", ["T"]]], ["c", 1, ["X"]], ["c", 1, ["pow", 3, ["T"]]]],
    [["c", 1, ["custom", "look_a"]], ["c", 1, ["custom", "look_b"]]],
    [["c", 1, ["RX", 0.3]], ["c", 1, ["RY", 0.3]], ["CPHASE", 0.3], ["c", 1, ["RX", -0.3]]],
    [["CNOT"], ["CZ"], ["SWAP"], ["ISWAP"], ["dag", ["ISWAP"]]],
    [["pow", 2, ["c", 1, ["T"]]], ["pow", 2, ["c", 1, ["SX"]]], ["pow", 2, ["ISWAP"]]],
    [["dag", ["custom", "p2", 0.3, 0.7]], ["dag", ["custom", "u2"]], ["custom", "p2", 0.7, 0.3]],
    [["c", 2, ["T"]], ["c", 2, ["S"]], ["c", 1, ["ISWAP"]], ["c", 1, ["SWAP"]]],
    [["c", 2, ["RZ", 0.3]], ["c", 2, ["PHASE", 0.3]], ["c", 1, ["XY", 0.3]]],
]


def namesakes():
    """Every built-in gate and a custom gate of the same name, shape and parameters."""
    for name in ALL_BUILTINS:
        ps = [0.3, 0.5, -1.2][:NPARAMS.get(name, 0)]
        yield [[name, *ps], ["custom", "as_" + name, *ps]]


def lookalike_circuits():
    """Circuits of two or three operations that are easily mistaken for each other."""
    for group in LOOKALIKES + list(namesakes()):
        k = arity(group[0])
        there, back = list(range(k)), list(range(k))[::-1]
        for a in group:
            for b in group:
                if a is b:
                    continue
                yield {"n": None, "ops": [[a, there], [b, there]]}
                yield {"n": None, "ops": [[a, there], [b, there], [a, there]]}
                yield {"n": None, "ops": [[a, back], [b, there if k > 1 else [1]], [b, back]]}
            # the same gate elsewhere
            yield {"n": None, "ops": [[a, there], [a, back if k > 1 else [1]]]}
            yield {"n": None, "ops": [[a, there], [a, there]]}


ARITY = {
    "CNOT": 2, "CZ": 2, "SWAP": 2, "ISWAP": 2, "CPHASE": 2, "XX": 2, "YY": 2, "ZZ": 2,
    "XY": 2, "MS": 2,
}
CUSTOM_ARITY = {"g2": 2, "g3": 3, "g4": 4, "u2": 2, "u3c": 3, "u4": 4, "p2": 2, "p3": 3}
NPARAMS = {
    "RX": 1, "RY": 1, "RZ": 1, "RH": 1, "PHASE": 1, "U3": 3, "GPi": 1, "GPi2": 1,
    "CPHASE": 1, "XX": 1, "YY": 1, "ZZ": 1, "XY": 1, "MS": 2, "Delay": 1,
}
ALL_BUILTINS = (
    "X Y Z H I S SX T RX RY RZ RH PHASE U3 GPi GPi2 CNOT CZ SWAP ISWAP CPHASE XX YY ZZ "
    "XY MS Delay"
).split()


def arity(spec):
    k = spec[0]
    if k in ("dag", "exp"):
        return arity(spec[1])
    if k == "pow":
        return arity(spec[2])
    if k == "c":
        return spec[1] + arity(spec[2])
    if k == "custom":
        if spec[1].startswith("as_"):
            return ARITY.get(spec[1][3:], 1)
        return CUSTOM_ARITY.get(spec[1], 1)
    return ARITY.get(k, 1)


def width(cspec):
    """The reference register width."""
    w = 0
    for o in cspec["ops"]:
        if o[0] == "mp":
            w = max(w, (len(o[1])).bit_length() - 1)
        elif o[0] == "reset":
            w = max(w, o[1] + 1)
        else:
            w = max(w, max(o[1]) + 1)
    return cspec["n"] if cspec.get("n") else w


# ---------------------------------------------------------------- reference matrices
_memo = {}


def gate_matrix(g, subs=None):
    """The gate's own matrix, as reported by the gate, as numbers."""
    return ref.num(g.matrix, subs)


def gate_matrix_spec(spec, subs=None):
    """Own matrix of a freshly built gate (cached per spec)."""
    import json

    key = (json.dumps(spec), tuple(sorted((str(k), complex(v)) for k, v in (subs or {}).items())))
    if key not in _memo:
        _memo[key] = gate_matrix(gate(spec), subs)
    return _memo[key]


def subs_values(subs):
    return {param(k): v for k, v in (subs or {}).items()}


def ref_unitary(cspec, subs=None):
    n = width(cspec)
    u = np.eye(2**n, dtype=complex)
    for o in cspec["ops"]:
        u = ref_op_matrix(o, n, subs) @ u
    return u


def ref_op_matrix(o, n, subs=None):
    if o[0] == "mp":
        th = np.array([ref.cnum(sympy.sympify(param(p)), subs) for p in o[1]])
        return np.diag(np.exp(1j * th))
    return ref.embed(gate_matrix_spec(o[0], subs), o[1], n)


def ref_run(cspec, state, subs=None):
    n = width(cspec)
    for o in cspec["ops"]:
        if o[0] == "mp":
            state = np.diag(ref_op_matrix(o, n, subs)) * state
        else:
            state = ref.apply(gate_matrix_spec(o[0], subs), o[1], n, state)
    return state

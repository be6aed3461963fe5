"""C05: circuits survive JSON serialisation unchanged in structure and meaning.

Every case builds a circuit from a spec, sends it through to_dict -> real JSON text ->
from_dict (and, in the `files` family, through every kind of file target), and compares
what comes back with the *original object's* structure, captured before serialising, gate
by gate: kinds, wrapper nesting, control counts, exponents, custom definitions, indices,
parameters; plus free symbols and, for every assignment of the symbols used, matrices."""
import io
import itertools
import json
import os
import pathlib
import shutil
import tempfile

import numpy as np
import sympy

from orquestra.quantum import circuits as oc

from . import gates as G
from . import ref
from .core import Family, check

ASSUMPTIONS = [
    "definitions of one name whose entries agree to the library's 1e-8 are one definition",
    "symbols are plain sympy.Symbol(name); expression parameters are compared at three generic "
    "complex-free assignments to 1e-12 relative and by free symbols, Python numbers and bare "
    "symbols exactly",
    "a custom gate's matrix mentions only the symbols of its params_ordering",
]
Power = type(oc.X.power(2))
S = sympy.Symbol
ASSIGN = [0.3125, 1.7, -0.45, 2.125, 0.77, -1.3, 0.59]


def assignments(symbols):
    syms = sorted(symbols, key=str)
    for k in range(3):
        yield {s: ASSIGN[(i + 2 * k) % 7] + 0.01 * i for i, s in enumerate(syms)}


# ---------------------------------------------------------------- building raw structures
def raw_gate(spec):
    k = spec[0]
    if k == "Dag":
        return oc.Dagger(raw_gate(spec[1]))
    if k == "C":
        return oc.ControlledGate(raw_gate(spec[2]), spec[1])
    if k == "Pow":
        return Power(raw_gate(spec[2]), spec[1])
    if k == "Exp":
        return oc.Exponential(raw_gate(spec[1]))
    if k == "dag":
        return raw_gate(spec[1]).dagger
    if k == "c":
        return raw_gate(spec[2]).controlled(spec[1])
    if k == "pow":
        return raw_gate(spec[2]).power(spec[1])
    if k == "exp":
        return raw_gate(spec[1]).exp
    if k == "def":  # ["def", name, rows, [param names], [params]]
        return inline_def(spec[1:4])(*[G.param(p) for p in spec[4]])
    return G.gate(spec)


class _NS(dict):
    """Names in inline definitions: $i stands for the i-th parameter symbol."""


def inline_def(d):
    name, rows, pnames = d
    syms = [S(p) for p in pnames]
    ns = {"p": syms, "sin": sympy.sin, "cos": sympy.cos, "exp": sympy.exp, "I": sympy.I,
          "sqrt": sympy.sqrt, "R": sympy.Rational, "pi": sympy.pi, "F": sympy.Float}
    m = sympy.Matrix([[eval(str(e), {"__builtins__": {}}, ns) for e in r] for r in rows])
    return oc.CustomGateDefinition(name, m, tuple(syms))


def raw_circuit(spec):
    ops = [raw_gate(g)(*qs) for g, qs in spec["ops"]]
    if spec.get("n") is None:
        return oc.Circuit(ops)
    return oc.Circuit(ops, n_qubits=spec["n"])


# ---------------------------------------------------------------- structural comparison
def kind(g):
    for cls, name in ((oc.ControlledGate, "control"), (oc.Dagger, "dagger"), (Power, "power"),
                      (oc.Exponential, "exponential"), (oc.MatrixFactoryGate, "factory")):
        if type(g) is cls:
            return name
    return type(g).__name__


def definition(g):
    return getattr(g.matrix_factory, "gate_definition", None)


def innermost(g):
    while hasattr(g, "wrapped_gate"):
        g = g.wrapped_gate
    return g


def is_number(p):
    return not isinstance(p, sympy.Basic) or p.is_Number


def same_param(a, b, ctx):
    """a: original parameter, b: what came back."""
    ctx.step()
    if isinstance(a, bool) or not isinstance(a, sympy.Basic):
        b = sympy.sympify(b)
        if b.free_symbols:
            return False
        if isinstance(a, (int, np.integer)):
            return b.is_number and sympy.simplify(b - int(a)) == 0
        if isinstance(a, (complex, np.complexfloating)):
            return complex(b) == complex(a)
        return b.is_number and float(b) == float(a)
    if isinstance(a, sympy.Symbol):
        return a == b
    if a.free_symbols != getattr(b, "free_symbols", set()):
        return False
    if isinstance(a, (sympy.Rational, sympy.NumberSymbol)) or a is sympy.I:
        return a == b
    for asg in assignments(a.free_symbols):
        va = complex(a.subs(asg, simultaneous=True).evalf(25))
        vb = complex(sympy.sympify(b).subs(asg, simultaneous=True).evalf(25))
        if abs(va - vb) > 1e-12 * max(abs(va), 1e-30):
            return False
    return True


def compare_defs(a, b, ctx):
    check(a.gate_name == b.gate_name, f"definition name {a.gate_name!r} came back as {b.gate_name!r}", "definition")
    check(
        tuple(a.params_ordering) == tuple(b.params_ordering),
        f"definition {a.gate_name}: params_ordering {a.params_ordering} came back as {b.params_ordering}",
        "definition",
    )
    check(a.matrix.shape == b.matrix.shape, f"definition {a.gate_name}: shape changed", "definition")
    check(
        a.matrix.free_symbols == b.matrix.free_symbols,
        f"definition {a.gate_name}: matrix symbols {a.matrix.free_symbols} came back as {b.matrix.free_symbols}",
        "definition",
    )
    for asg in assignments(a.matrix.free_symbols):
        ctx.step()
        check(
            ref.close(ref.num(b.matrix, asg), ref.num(a.matrix, asg), 1e-12),
            f"definition {a.gate_name}: matrix {a.matrix} came back as {b.matrix}",
            "definition",
        )


def compare_gates(a, b, ctx):
    check(kind(a) == kind(b), f"{kind(a)} gate {a} came back as {kind(b)} gate {b}", "kind")
    check(a.num_qubits == b.num_qubits, f"{a}: num_qubits {a.num_qubits} -> {b.num_qubits}", "kind")
    check(a.name == b.name, f"gate name {a.name!r} came back as {b.name!r}", "kind")
    k = kind(a)
    if k == "factory":
        da, db = definition(a), definition(b)
        check((da is None) == (db is None), f"{a}: custom/built-in nature changed", "kind")
        if da is not None:
            compare_defs(da, db, ctx)
        else:
            check(a.is_hermitian == b.is_hermitian, f"{a}: is_hermitian changed", "kind")
        check(len(a.params) == len(b.params), f"{a}: {len(a.params)} params came back as {len(b.params)}", "params")
        for pa, pb in zip(a.params, b.params):
            check(
                same_param(pa, pb, ctx),
                f"parameter {pa!r} ({type(pa).__name__}) came back as {pb!r} ({type(pb).__name__})",
                "params",
            )
        return
    if k == "control":
        check(
            a.num_control_qubits == b.num_control_qubits,
            f"{a}: {a.num_control_qubits} controls came back as {b.num_control_qubits}",
            "controls",
        )
    if k == "power":
        check(a.exponent == b.exponent, f"{a}: exponent {a.exponent} came back as {b.exponent}", "exponent")
    compare_gates(a.wrapped_gate, b.wrapped_gate, ctx)


def heavy(g):
    while True:
        if kind(g) in ("power", "exponential"):
            return True
        if not hasattr(g, "wrapped_gate"):
            return False
        g = g.wrapped_gate


def compare_circuits(c, d, ctx, exact=True, matrices=True):
    check(type(d) is oc.Circuit, f"{type(d)} returned", "type")
    check(c.n_qubits == d.n_qubits, f"width {c.n_qubits} came back as {d.n_qubits}", "width")
    check(
        len(c.operations) == len(d.operations),
        f"{len(c.operations)} operations came back as {len(d.operations)}",
        "operations",
    )
    for a, b in zip(c.operations, d.operations):
        ctx.step()
        check(
            tuple(a.qubit_indices) == tuple(b.qubit_indices),
            f"{a}: indices came back as {b.qubit_indices}",
            "indices",
        )
        compare_gates(a.gate, b.gate, ctx)
        check(
            list(a.free_symbols) == list(b.free_symbols),
            f"{a}: free symbols {a.free_symbols} came back as {b.free_symbols}",
            "free-symbols",
        )
        if matrices:
            ga, gb = (innermost(a.gate), innermost(b.gate)) if heavy(a.gate) else (a.gate, b.gate)
            ma, mb = ga.matrix, gb.matrix
            for asg in assignments(ga.free_symbols):
                ctx.step()
                na, nb = ref.num(ma, asg), ref.num(mb, asg)
                check(ref.close(nb, na, 1e-9), f"{a}: matrix differs after the round trip at {asg}", "matrix")
                ctx.state(a.gate.name, ref.digest(na))
    check(
        list(c.free_symbols) == list(d.free_symbols),
        f"free symbols {c.free_symbols} came back as {d.free_symbols}",
        "free-symbols",
    )
    if exact:
        check(c == d and d == c, f"{d} does not compare equal to {c}", "equality")


def through_json(x):
    return json.loads(json.dumps(x))


def roundtrip(c, ctx):
    ctx.step()
    return oc.circuit_from_dict(through_json(oc.to_dict(c)))


def run_spec(case, ctx, **kw):
    c = raw_circuit(case)
    before = repr(c)
    d = roundtrip(c, ctx)
    check(repr(c) == before, "serialising changed the circuit", "mutation")
    exact = case.get("exact", True)
    compare_circuits(c, d, ctx, exact=exact, **kw)
    # a second trip of the deserialised object is stable as well
    if len(c.operations) < 3:
        compare_circuits(d, roundtrip(d, ctx), ctx, exact=exact, matrices=False)
    ctx.outcome(f"ops={len(c.operations)}")
    ctx.state("circ", before)


# ---------------------------------------------------------------- family: wrappers
BASES = [
    [["X"]], [["Z"]], [["SWAP"]], [["T"]], [["ISWAP"]], [["SX"]], [["I"]],
    [["RX", 0.25]], [["RX", "theta"]], [["U3", 0.1, "phi", 3]], [["U3", "theta", "phi", "lam"]],
    [["MS", "alpha", "$beta"]], [["GPi", 0.4]], [["Delay", 7]], [["CPHASE", "theta"]],
    [["custom", "int1"]], [["custom", "p1", "theta", "2*phi"]], [["custom", "p2", 0.3, "alpha"]],
    [["custom", "px", 1, 2]], [["custom", "p1r", "gamma", 0.5]], [["custom", "rat1"]],
]
WRAP = ["dag", "c1", "c2", "pow2", "pow-1", "pow0.5", "pow0.1", "exp", "Dag", "C1", "C3", "Pow2", "Pow0.25", "Exp"]
WRAP_Q = WRAP


def wrap(spec, w):
    if w in ("dag", "exp", "Dag", "Exp"):
        return [w, spec]
    if w[0] in "cC":
        return [w[0], int(w[1:]), spec]
    e = w[3:]
    return [w[:3], int(e) if "." not in e else float(e), spec]


def spec_symbolic(spec):
    return any(isinstance(p, str) for p in (spec[1:] if spec[0] != "custom" else spec[2:]))


def arity(spec):
    if spec[0].lower() in ("dag", "exp"):
        return arity(spec[1])
    if spec[0].lower() == "pow":
        return arity(spec[2])
    if spec[0].lower() == "c":
        return spec[1] + arity(spec[2])
    if spec[0] == "def":
        return len(spec[2]).bit_length() - 1
    return G.arity(spec)


def wrapper_cases(tier):
    depth = 3 if tier == "quick" else 4
    bases = [b[0] for b in BASES]
    for d in range(depth + 1):
        for b in bases:
            if d == 3 and tier == "quick" and b != ["T"]:
                continue
            if d == 4 and b not in (["X"], ["T"], ["RX", 0.25], ["custom", "int1"]):
                continue
            sym = spec_symbolic(b)
            for ws in itertools.product(WRAP, repeat=d):
                if sym and any(w[:3].lower() in ("pow", "exp") for w in ws):
                    continue
                s = b
                for w in ws:
                    s = wrap(s, w)
                k = arity(s)
                if k > 7:
                    continue
                yield {"n": None, "ops": [[s, list(range(k - 1, -1, -1))]]}
    # deeper chains around custom gates (the definition sits at the bottom) and built-ins
    short = ["dag", "C1", "Pow2", "Exp"] if tier == "quick" else ["dag", "Dag", "c1", "C1", "Pow2", "pow0.5", "Exp"]
    for b in (["custom", "int1"], ["custom", "p1", 0.3, 0.4], ["T"]):
        for d in (3, 4) if tier == "quick" else (3, 4, 5):
            for ws in itertools.product(short if d < 5 else short[:5], repeat=d):
                s = b
                for w in ws:
                    s = wrap(s, w)
                if arity(s) <= 5:
                    yield {"n": None, "ops": [[s, list(range(arity(s)))]]}
        for d in (6, 7, 8, 9, 12, 16, 17) + ((32, 33) if tier != "quick" else ()):
            for k in range(3):
                s = b
                for i in range(d):
                    s = wrap(s, ["Dag", "Pow2", "Exp"][(i + k) % 3])
                yield {"n": None, "ops": [[s, [0]], [["C", 2, s], [0, 3, 1]], [s, [2]]]}


def run_wrappers(case, ctx):
    s, depth = case["ops"][0][0], 0
    while s[0].lower() in ("dag", "exp", "c", "pow"):
        s, depth = s[-1], depth + 1
    run_spec(case, ctx, matrices=depth <= 1 and arity(case["ops"][0][0]) <= 4)


# ---------------------------------------------------------------- family: exponents
EXPONENTS = [
    0, 1, -1, 2, 7, -12, 10**6, 2**53 + 1, 10**20, 0.5, -0.5, 0.1, 1 / 3, -2 / 3, 1 / 7, np.pi, -np.e, 1e-7, 1e-12,
    1e-17, 5e-324, 1e22, 1e300, 0.30000000000000004, 0.1234567890123456, 1.0000000000000002, 2.0, 0.0,
    123456.78901234567,
]


def exponent_cases(tier):
    for e in EXPONENTS + ([k / 97 for k in range(-97, 98)] if tier == "thorough" else [k / 13 for k in range(-13, 14)]):
        for how in ("Pow", "pow"):
            for base in (["X"], ["T"], ["custom", "int1"], ["c", 1, ["RX", 0.25]]):
                s = [how, e, base]
                for t in (s, ["C", 1, s], ["Dag", s], [how, 1 / 3, s]):
                    k = arity(t)
                    yield {"n": None, "ops": [[t, list(range(k))]]}


def run_exponents(case, ctx):
    run_spec(case, ctx, matrices=False)


# ---------------------------------------------------------------- family: builtins
def builtin_cases(tier):
    for name in G.ALL_BUILTINS:
        k = G.ARITY.get(name, 1)
        np_ = G.NPARAMS.get(name, 0)
        for qs in ref.ordered_tuples(k + 2, k):
            for n in (None, k + 3):
                vals = [0.5, "theta", "$x[1]"][:np_] if np_ else []
                yield {"n": n, "ops": [[[name] + vals, qs]]}


# ---------------------------------------------------------------- family: parameters
EXPRS = [
    "theta", "theta+1", "2*theta", "theta/3", "-theta", "theta*phi", "theta+phi", "theta-phi", "phi-theta",
    "theta/phi", "1/theta", "theta**2", "theta**(-3)", "2**theta", "theta**phi", "theta**Rational(1,2)",
    "theta**Rational(2,3)", "theta**Rational(-1,2)", "sqrt(theta)*2", "sin(theta)", "cos(theta)*sin(phi)",
    "tan(theta)", "asin(theta/7)", "acos(theta/7)", "atan(theta)", "sinh(theta)", "exp(theta)", "exp(-theta)",
    "exp(I*theta)", "log(theta+8)", "Abs(theta)", "I*theta", "theta+I", "(1+2*I)*theta", "pi", "pi/2", "-pi/3",
    "pi*theta", "2*pi-theta", "E", "E*theta", "sqrt(2)", "sqrt(2)*theta", "Rational(1,3)", "Rational(-2,7)*theta",
    "Integer(5)", "Integer(0)", "Integer(-3)", "I", "3*I", "GoldenRatio*theta",
    "cos(2*theta+phi)/(1+theta**2)", "(theta+phi)**3", "(theta-phi)*(theta+phi)", "theta_10-theta_2+theta_1",
    "alpha*beta*gamma", "sqrt(theta**2+phi**2)", "exp(sin(theta*phi)+1)", "conjugate(theta)", "re(theta)+im(phi)",
    "Max(theta,phi)", "Min(theta,2)", "floor(theta)", "sign(theta)", "atan2(theta,phi)", "sec(theta)",
    "Mod(theta,2)", "Piecewise((theta,theta>0),(2*theta,True))", "factorial(3)*theta", "Heaviside(theta-1)",
]
INEXACT = [
    "Float('0.1')*theta", "0.3*theta+phi", "theta/3.0", "1.1*theta**2.5", "Float('1e-20')*theta", "1e+25*theta",
    "Float('0.1234567890123456789',25)*theta", "(0.5+0.25*I)*theta", "exp(0.7*I*theta)", "Float('1.7976931348623157e+308')",
    "0.1+theta*1e-7", "pi*0.1",
]
NUMS = [
    0, 1, -1, 5, 10**20, -(2**63), 0.0, -0.0, 0.1, -0.1, 0.5, 1e-5, 1e-17, 5e-324, 1e300, 1.7976931348623157e308,
    0.30000000000000004, 2.2250738585072014e-308, 3.141592653589793, 1.5707963267948966, 6.283185307179586,
    123456789.12345679, 0.1234567890123456, 0.9999999999999999, 1.0000000000000002, 1e16, 1e22, 1e23, 9007199254740993,
    4.35, 2.675, 1e-7, 123e-20,
    {"np": 0.7}, {"np": 1e-9}, {"npint": 3}, {"complex": [2, 3]}, {"complex": [0, 1]}, {"complex": [-0.5, 0.25]},
    {"complex": [1e-9, -1e-10]}, {"complex": [0.1, -0.3]}, {"complex": [0.0, -1.0]}, {"complex": [1.5, 0.0]},
    {"sfloat": 0.1}, {"sfloat": 1e-12}, {"srat": [22, 7]}, {"int": 4},
]


def grid_floats(tier):
    """Floats k*pi/m and decimals of every length: repr round trips."""
    m = 24 if tier == "quick" else 96
    for k in range(-2 * m, 2 * m + 1):
        yield float(np.pi * k / m)
    for d in range(1, 18):
        yield float("0." + "123456789123456789"[:d])
        yield float("-7." + "987654321987654321"[:d])
        yield float("1e-%d" % d)
        yield float("3e+%d" % d)


def param_cases(tier):
    for gname, slot, total in (("RX", 0, 1), ("U3", 1, 3), ("MS", 1, 2), ("p1r", 0, 2)):
        for p in EXPRS + INEXACT + NUMS:
            ps = [0.5] * total
            ps[slot] = p
            g = ["custom", gname] + ps if gname == "p1r" else [gname] + ps
            exact = not (isinstance(p, str) and p in INEXACT)
            # beyond 1e15 the absolute 1e-8 tolerance of == exceeds what a float resolves
            if isinstance(p, (int, float)) and abs(p) > 1e15:
                exact = False
            yield {"n": None, "ops": [[g, list(range(arity(g)))]], "exact": exact}
    for v in grid_floats(tier):
        yield {"n": None, "ops": [[["RZ", v], [0]]], "exact": abs(v) < 1e15}
    # every ordered pair of expressions in one gate: the symbol tables of both must coexist
    pool = EXPRS if tier == "thorough" else EXPRS[::5]
    for a, b in itertools.product(pool, repeat=2):
        yield {"n": None, "ops": [[["MS", a, b], [1, 0]]]}


def run_params(case, ctx):
    g = case["ops"][0][0]
    # numbers beyond float range for trig functions / complex angles: structure only
    run_spec(case, ctx, matrices=all(not isinstance(p, str) or p not in EXPRS[-16:] for p in g[1:])
             and not any(isinstance(p, (int, float)) and abs(p) > 1e4 for p in g[1:])
             and not any(isinstance(p, str) and ("E" in p or "e+" in p) for p in g[1:]))


# ---------------------------------------------------------------- family: symbol names
SYMBOL_NAMES = [
    "theta", "x", "x[0]", "x[1]", "x[10]", "xx", "x1", "x_1", "_x", "beta", "gamma", "lambda", "zeta", "Gamma",
    "S", "N", "O", "Q", "C", "E1", "e", "i", "j", "I1", "cos", "sqrt", "exp", "pi1", "Symbol", "Integer", "Float",
    "Rational", "Function", "test", "re", "im", "Abs", "eta", "chi", "LC", "ff", "rf", "and", "or", "not", "is",
    "None", "True", "theta_{1}", "theta_1", "theta_10", "θ", "a b", "x.y", "$x$", "\\theta", "1a", "_symbol_0_",
    "_symbol_1_", "x'", "angle-1", "p[0][1]", "beta[2]", "lambda[0]", "RX", "H",
]
RESERVED = ["I", "pi", "E", "oo", "zoo", "nan"]
NAME_FORMS = [
    ("a",), ("add", "a", "b"), ("mul", "a", "b"), ("poly", "a", "b"), ("fun", "a", "b"), ("pow", "a", "b"),
]


def name_expr(form, a, b):
    A, B = S(a), S(b)
    if form == "a":
        return A
    if form == "add":
        return A + 2 * B
    if form == "mul":
        return 3 * A * B / 7
    if form == "poly":
        return A - B**2 + sympy.Rational(1, 3)
    if form == "fun":
        return sympy.cos(A) * sympy.exp(sympy.I * B) + sympy.sqrt(A) - sympy.pi
    if form == "pow":
        return 2 ** (A + 1) - 1.5 * B
    raise ValueError(form)


def name_cases(tier):
    for a in SYMBOL_NAMES + RESERVED:
        yield {"forms": ["a"], "a": a, "b": a, "gate": "RX"}
        yield {"forms": ["a"], "a": a, "b": a, "gate": "def"}
    if tier == "thorough":
        for a, b in itertools.permutations(SYMBOL_NAMES, 2):
            yield {"forms": ["add", "mul", "poly", "fun", "pow"], "a": a, "b": b, "gate": "RX"}
        for a, b in itertools.permutations(SYMBOL_NAMES, 2):
            yield {"forms": ["add", "fun"], "a": a, "b": b, "gate": "def"}
        return
    for i, (a, b) in enumerate(itertools.combinations(SYMBOL_NAMES, 2)):
        a, b = (a, b) if i % 2 else (b, a)
        yield {"forms": [["add", "fun"], ["mul", "poly"], ["pow"]][i % 3], "a": a, "b": b, "gate": "RX"}
    few = SYMBOL_NAMES[::4] + ["x[0]", "x[10]", "beta", "gamma", "lambda"]
    for i, (a, b) in enumerate(itertools.combinations(dict.fromkeys(few), 2)):
        yield {"forms": ["add", "fun"], "a": a, "b": b, "gate": "def"}


def run_names(case, ctx):
    """RX: the names in gate parameters.  def: the names as parameters of a custom definition,
    instantiated with swapped / foreign symbols."""
    a, b = case["a"], case["b"]
    ops = []
    if case["gate"] == "RX":
        for form in case["forms"]:
            ops.append(oc.RX(name_expr(form, a, b))(len(ops) % 2))
        ops.append(oc.U3(S(b), S(a), 0.5).controlled(1)(1, 0))
    else:
        if a == b:
            d = oc.CustomGateDefinition("G", sympy.Matrix([[1, S(a)], [-S(a), 1]]), (S(a),))
            ops = [d(S(a))(0), d(0.5)(1), d(S("omega") + S(a))(2)]
        else:
            d = oc.CustomGateDefinition(
                "G",
                sympy.Matrix([[name_expr(case["forms"][0], a, b), S(a)], [sympy.I * S(b), name_expr(case["forms"][1], a, b)]]),
                (S(b), S(a)),
            )
            ops = [d(S(a), S(b))(0), d(S(b), 2)(0), d(1, S("omega") * S(a)).dagger(1)]
    c = oc.Circuit(ops)
    d2 = roundtrip(c, ctx)
    compare_circuits(c, d2, ctx, exact=not ("pow" in case["forms"]), matrices=case["gate"] == "def")
    ctx.state(a, b, tuple(case["forms"]))


# ---------------------------------------------------------------- family: many symbols, many definitions
# numbers that the library's comparisons take for equal
NEAR = [(0.5, 0.500000001), (1e-9, 2e-9), (0.0, 3e-9), (1.0, 1.0 + 2**-52), (-2e-9, 2e-9), (3, 3.000000002), (1.25, 1.2500000001)]
NEAR_GATES = {
    "RX": lambda x: oc.RX(x)(0),
    "CPHASE": lambda x: oc.CPHASE(x)(1, 0),
    "U3": lambda x: oc.U3(0.25, x, -0.75)(0),
    "c": lambda x: oc.RY(x).controlled(1)(0, 1),
    "dag": lambda x: oc.RZ(x).dagger(1),
    "pow": lambda x: oc.PHASE(x).power(2)(0),
    "exp": lambda x: oc.RH(x).exp(0),
    "custom": lambda x: oc.CustomGateDefinition("near", sympy.Matrix([[S("a"), 0], [0, 1]]), (S("a"),))(x)(0),
    "expr": lambda x: oc.RX(x * S("theta"))(0),
    "exponent": lambda x: oc.T.power(x)(0),
}


def near_run(case, ctx):
    f = NEAR_GATES[case["gate"]]
    ops = [f(NEAR[case["pair"]][i]) for i in case["order"]]
    if case["how"] == "circuit":
        c = oc.Circuit(ops)
        compare_circuits(c, roundtrip(c, ctx), ctx, matrices=False)
    else:
        cs = [oc.Circuit([o]) for o in ops]
        ds = oc.circuitset_from_dict(through_json(oc.to_dict(cs)))
        check(len(ds) == len(cs), f"{len(cs)} circuits came back as {len(ds)}", "set-length")
        for c, d in zip(cs, ds):
            compare_circuits(c, d, ctx, matrices=False)
    ctx.state("near", case["gate"], case["pair"], tuple(case["order"]), case["how"])


def near_cases(tier):
    for gate in NEAR_GATES:
        for pair in range(len(NEAR)):
            if gate == "expr" and pair == 3:  # sympy prints coefficients with 15 digits
                continue
            for order in ((0, 1), (1, 0), (0, 1, 0), (0, 0, 1, 1)):
                for how in ("circuit", "set"):
                    yield {"gate": gate, "pair": pair, "order": list(order), "how": how}


def many_cases(tier):
    top = 14 if tier == "quick" else 30
    for k in range(1, top + 1):
        for start in (0, 10, 20, 33, 47):
            for form in ("sum", "product", "spread", "definition", "wrapped"):
                yield {"kind": form, "k": k, "start": start}
    for k in (2, 5, 8, 9, 12, 25):
        for how in ("fixed", "parametric", "wrapped", "wide"):
            yield {"kind": "definitions", "k": k, "how": how}
            yield {"kind": "set", "k": k, "how": how}
        for step in (25, 5, 2, 0):  # 2: runs of equal operations, 0: one operation over and over
            yield {"kind": "long", "k": k * 12, "step": step}
    for k in (31, 32, 33, 63, 64, 65, 99, 101, 127, 128, 129, 257):
        for step in (25, 2):
            yield {"kind": "long", "k": k, "step": step}


def run_many(case, ctx):
    k, kind_ = case["k"], case["kind"]
    if kind_ in ("sum", "product", "spread", "definition", "wrapped"):
        names = [n for n in (SYMBOL_NAMES * 2)[case["start"]: case["start"] + k]]
        syms = [S(n) for n in dict.fromkeys(names)]
        total = sum((i + 1) * s for i, s in enumerate(syms))
        prod = sympy.Integer(1)
        for s in syms:
            prod = prod * s
        if kind_ == "sum":
            ops = [oc.RX(total)(0), oc.U3(syms[-1], total / 3, syms[0])(1)]
        elif kind_ == "product":
            ops = [oc.RZ(prod)(0), oc.MS(sympy.cos(total), prod * syms[0])(0, 1)]
        elif kind_ == "spread":
            ops = [oc.RY(s)(i % 3) for i, s in enumerate(syms)] + [oc.RX(2 * s)(0) for s in reversed(syms)]
        elif kind_ == "wrapped":
            ops = [oc.RX(total).controlled(2).dagger(2, 0, 1), oc.PHASE(prod).dagger.controlled(1)(1, 0)]
        else:
            d = oc.CustomGateDefinition("wide", sympy.Matrix([[total, prod], [1, syms[0]]]), tuple(reversed(syms)))
            ops = [d(*[0.5 + i for i in range(len(syms))])(0), d(*syms)(1), d(*[s + 1 for s in reversed(syms)]).dagger(0)]
        c = oc.Circuit(ops)
        compare_circuits(c, roundtrip(c, ctx), ctx, matrices=len(syms) <= 6)
        ctx.state(kind_, k, case["start"])
        return
    if kind_ == "long":
        step = case.get("step", 25)
        ops = [[STRUCT[i * step // 5 % len(STRUCT)][0], STRUCT[i * step // 5 % len(STRUCT)][1]] for i in range(k)]
        c = raw_circuit({"n": None, "ops": ops})
        compare_circuits(c, roundtrip(c, ctx), ctx, matrices=False)
        return
    ops = []
    for i in range(k):
        name = ["g10", "g2", "Z_def", "b", "aa"][i % 5] + str(i)
        d = (["def", name, [[0, i + 1], [-1, 0]], [], []] if case["how"] != "parametric"
             else ["def", name, [["p[0]", "I*p[1]"], [i, 1]], ["b", "a"], ["theta", 0.5 * i]])
        if case["how"] == "wide":
            d = ["def", name, [[1, 0, 0, 0], [0, i + 2, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]], [], []]
        if case["how"] == "wrapped":
            d = [["dag", d], ["c", 1 + i % 2, d], ["pow", 2, d], ["exp", d], ["c", 1, ["dag", d]]][i % 5]
        ops.append([d, [(i + j) % 4 for j in range(arity(d))]])
    ops = ops + ops[::-1]
    if kind_ == "set":
        cs = [raw_circuit({"n": None, "ops": [o, ops[(i * 3 + 1) % len(ops)]]}) for i, o in enumerate(ops)]
        ds = oc.circuitset_from_dict(through_json(oc.to_dict(cs)))
        check(len(ds) == len(cs), f"{len(cs)} circuits came back as {len(ds)}", "set-length")
        for c, d in zip(cs, ds):
            compare_circuits(c, d, ctx, matrices=False)
        return
    c = raw_circuit({"n": None, "ops": ops})
    compare_circuits(c, roundtrip(c, ctx), ctx, matrices=k <= 5)


# ---------------------------------------------------------------- family: structures
STRUCT = [
    [["X"], [0]],
    [["RX", "theta"], [2]],
    [["CNOT"], [2, 0]],
    [["custom", "p1", "phi", 0.25], [1]],
    [["c", 1, ["custom", "p1", "alpha", "theta"]], [2, 1]],
    [["dag", ["custom", "p2", "theta", "phi"]], [0, 2]],
    [["pow", 0.5, ["custom", "int1"]], [1]],
    [["exp", ["custom", "rat1"]], [0]],
    [["c", 2, ["dag", ["T"]]], [3, 0, 1]],
    [["custom", "px", "$x[0]", "$x[1]"], [0]],
    [["U3", 0.5, "$x", "$x[3]"], [1]],
    [["dag", ["c", 1, ["RY", "beta*gamma"]]], [1, 3]],
]


def struct_cases(tier):
    for n in (None, 4, 5, 9):
        yield {"n": n, "ops": []}
    for L in (1, 2, 3):
        for ops in itertools.product(STRUCT if L < 3 or tier == "thorough" else STRUCT[3::2] + STRUCT[4:7:2], repeat=L):
            for n in (None, 5) if L < 3 else (None,):
                yield {"n": n, "ops": list(ops)}
    if tier == "thorough":
        for ops in itertools.product(STRUCT[::1], repeat=4):
            yield {"n": None, "ops": list(ops)}


def run_struct(case, ctx):
    run_spec(case, ctx, matrices=len(case["ops"]) <= 2)


# ---------------------------------------------------------------- family: custom definitions
DEF_NAMES = [
    "U", "My Gate", "a_b", "Control", "Exponential", "Dagger", "V_Dagger", "W^2", "Union", "Callable", "GateRef",
    "make_parametric_gate_prototype", "builtin_gate_by_name", "_gates", "X", "H", "RX", "Power", "", "θ",
    "c-X", "Control^2", "custom_gate_definitions",
]
DEF_BODIES = [
    ([[0, 1], [-1, 0]], [], []),
    ([["cos(p[0])", "-sin(p[0])"], ["sin(p[0])", "cos(p[0])"]], ["t"], ["theta"]),
    ([["exp(I*p[0])", 0], [0, "exp(I*p[1])"]], ["b", "a"], ["2*theta", 0.5]),
    ([["exp(I*p[0])", "R(1,3)"], ["F('0.25')", "sqrt(2)*p[1]"]], ["x[1]", "x[0]"], ["$x[0]", "$x"]),
    ([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, "p[0]"], [0, 0, "p[0]", 0]], ["q"], ["$q"]),
    ([[1, 0], [0, 1]], ["unused"], [0.5]),
    ([["p[0]", "I*p[0]/3"], ["pi*p[1]**2", "p[0]-p[1]"]], ["theta", "phi"], ["phi", "theta"]),
    ([["(1+2j)", "3j"], [0.1, 1e-9]], [], []),
]
DEF_WRAPS = [[], ["dag"], ["c1"], ["pow2"], ["exp"], ["dag", "c2"], ["c1", "pow0.5"], ["exp", "pow2"], ["Pow3", "Dag"], ["C1", "C1"]]


def def_cases(tier):
    for ni, name in enumerate(DEF_NAMES):
        for rows, ps, args in DEF_BODIES if ni < 1 or tier == "thorough" else DEF_BODIES[ni % 2:4:2]:
            for ws in DEF_WRAPS:
                num = any(w[:3].lower() in ("pow", "exp") for w in ws)
                a = [0.5 + 0.25 * i for i in range(len(args))] if num else args
                s = ["def", name, rows, ps, a]
                for w in ws:
                    s = wrap(s, w)
                k = arity(s)
                yield {"n": None, "ops": [[s, list(range(k))]]}
    # two definitions in one circuit, in either order and wrapped or not
    bodies = DEF_BODIES if tier == "thorough" else DEF_BODIES[:7]
    for (i, x), (j, y) in itertools.permutations(list(enumerate(bodies)), 2):
        for wx, wy in itertools.product(([], ["dag"], ["c1"]), repeat=2):
            sx, sy = ["def", "zz", *x], ["def", "aa", *y]
            for w in wx:
                sx = wrap(sx, w)
            for w in wy:
                sy = wrap(sy, w)
            ops = [[s, list(range(arity(s)))] for s in (sx, sy, sx)]
            yield {"n": None, "ops": ops}


def namesake_cases(tier):
    """The library's gate next to a custom gate of the same name and shape."""
    for own in (0, 1):
        for lib, custom in G.namesakes():
            k = G.arity(lib)
            for wl, wc in itertools.product(([], ["dag"], ["c1"], ["c1", "dag"]) if tier == "quick" else DEF_WRAPS, repeat=2):
                pair = []
                for s, ws in ((lib, wl), (custom, wc)):
                    for w in ws:
                        s = wrap(s, w)
                    pair.append([s, list(range(arity(s)))])
                yield {"n": None, "ops": [pair[own]]} if not (wc if own == 0 else wl) else {"n": None, "ops": [pair[own], pair[1 - own], pair[own]]}
                if not wl and not wc:
                    yield {"n": None, "ops": [pair[own], pair[1 - own]]}
                    if len(lib) > 1:
                        sym = [[lib[0]] + ["theta", "phi", "lam"][: len(lib) - 1], custom[:2] + ["phi", "lam", "theta"][: len(lib) - 1]]
                        yield {"n": None, "ops": [[sym[own], list(range(k))], [sym[1 - own], list(range(k))]]}


def run_defs(case, ctx):
    run_spec(case, ctx, matrices=True)


# ---------------------------------------------------------------- family: conflicting definitions
def conflict_cases(tier):
    for i, j in itertools.permutations(range(len(DEF_BODIES)), 2):
        for wi, wj in itertools.product((None, "dag", "c1"), repeat=2):
            yield {"i": i, "j": j, "wi": wi, "wj": wj}


def run_conflict(case, ctx):
    """Two different definitions under one name cannot be represented: an error, not a merge."""
    ops = []
    for body, w in ((case["i"], case["wi"]), (case["j"], case["wj"])):
        s = ["def", "same", *DEF_BODIES[body]]
        if w:
            s = wrap(s, w)
        ops.append([s, list(range(arity(s)))])
    c = raw_circuit({"n": None, "ops": ops})
    try:
        d = roundtrip(c, ctx)
    except ValueError:
        ctx.outcome("conflict refused")
        ctx.state("refused", case["i"], case["j"])
        return
    compare_circuits(c, d, ctx)


# ---------------------------------------------------------------- family: lists and files
SETS = [
    [],
    [{"n": None, "ops": []}],
    [{"n": 3, "ops": []}, {"n": None, "ops": [STRUCT[0]]}],
    [{"n": None, "ops": [STRUCT[3]]}, {"n": None, "ops": [STRUCT[4]]}, {"n": 6, "ops": [STRUCT[7], STRUCT[2]]}],
    [{"n": None, "ops": [["__A"]]}, {"n": None, "ops": [["__B"]]}],
    [{"n": None, "ops": [o]} for o in STRUCT],
]
TARGETS = ["str", "path", "bytes", "handle", "stringio"]


def build_set(specs):
    out = []
    for i, sp in enumerate(specs):
        ops = []
        for o in sp["ops"]:
            if o == ["__A"]:  # the same name defined differently in two circuits of one list
                ops.append([["def", "same", *DEF_BODIES[0]], [0]])
            elif o == ["__B"]:
                ops.append([["def", "same", *DEF_BODIES[1]], [0]])
            else:
                ops.append(o)
        out.append(raw_circuit({"n": sp["n"], "ops": ops}))
    return out


def file_cases(tier):
    for i in range(len(SETS)):
        yield {"kind": "set-dict", "set": i}
        for t in TARGETS:
            for u in TARGETS:
                if (t == "stringio") != (u == "stringio"):
                    continue
                yield {"kind": "set", "set": i, "save": t, "load": u}
    for i, s in enumerate(STRUCT):
        for t in TARGETS:
            yield {"kind": "one", "op": i, "save": t, "load": t}


def run_files(case, ctx):
    if case["kind"] == "set-dict":
        cs = build_set(SETS[case["set"]])
        ds = oc.circuitset_from_dict(through_json(oc.to_dict(cs)))
    else:
        cs = build_set(SETS[case["set"]]) if case["kind"] == "set" else [raw_circuit({"n": 5, "ops": [STRUCT[case["op"]]]})]
        obj = cs if case["kind"] == "set" else cs[0]
        save, load = (
            (oc.save_circuitset, oc.load_circuitset) if case["kind"] == "set" else (oc.save_circuit, oc.load_circuit)
        )
        ds = via_file(save, load, obj, case["save"], case["load"])
        if case["kind"] == "one":
            ds = [ds]
    ctx.step(2)
    check(isinstance(ds, list) and len(ds) == len(cs), f"{len(cs)} circuits came back as {len(ds)}", "set-length")
    for c, d in zip(cs, ds):
        compare_circuits(c, d, ctx)
    ctx.outcome(case["kind"])


def via_file(save, load, obj, how_save, how_load, name="artefact.json"):
    """Save `obj` to the given kind of target and load it back from the given kind of source."""
    if how_save == "stringio":
        buf = io.StringIO()
        save(obj, buf)
        buf.seek(0)
        return load(buf)
    tmp = tempfile.mkdtemp(prefix="mc-")
    try:
        p = os.path.join(tmp, name)
        if how_save == "path":  # an older, longer file is replaced
            with open(p, "w") as f:
                f.write("[1, 2]" * 4000)
        if how_save == "handle":
            with open(p, "w") as f:
                save(obj, f)
        else:
            save(obj, {"str": p, "path": pathlib.Path(p), "bytes": p.encode()}[how_save])
        if how_load == "handle":
            with open(p) as f:
                return load(f)
        return load({"str": p, "path": pathlib.Path(p), "bytes": p.encode()}[how_load])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ---------------------------------------------------------------- family: limits of the format
LIMITS = (
    [{"kind": "assumption", "which": w} for w in ("real", "positive", "integer")]
    + [{"kind": "constant", "name": n} for n in ("I", "pi", "E")]
    + [{"kind": "mixed-name", "name": n} for n in ("X", "RX")]
)


def run_limits(case, ctx):
    if case["kind"] == "assumption":
        s = sympy.Symbol("theta", **{case["which"]: True})
        c = oc.Circuit([oc.RX(s)(0)])
    elif case["kind"] == "constant":
        n = case["name"]
        c = oc.Circuit([oc.RX(S(n) + {"I": sympy.I, "pi": sympy.pi, "E": sympy.E}[n])(0)])
    else:
        d = inline_def([case["name"], [["exp(I*p[0])", 0], [0, 1]], ["t"]])
        c = oc.Circuit([d(0.5)(0), (oc.X if case["name"] == "X" else oc.RX(0.5))(0)])
    try:
        d = roundtrip(c, ctx)
        compare_circuits(c, d, ctx)
    except (ValueError, NotImplementedError):
        ctx.outcome("refused")
        return


# ---------------------------------------------------------------- family: numbers from numpy
WHOLE = {"int64": np.int64, "int32": np.int32, "uint8": np.uint8, "intp": np.intp, "int": int}
NP_GATES = {
    "X": lambda n: oc.X, "CNOT": lambda n: oc.CNOT, "RX": lambda n: oc.RX(np.float64(0.1)), "RXi": lambda n: oc.RX(n(3)), "MS": lambda n: oc.MS(np.float64(1 / 3), S("b")),
    "c2": lambda n: oc.X.controlled(n(2)), "c1c": lambda n: oc.RX(S("a")).controlled(n(1)).controlled(n(1)), "dag": lambda n: oc.T.dagger,
    "pow": lambda n: oc.T.power(n(3)), "half": lambda n: oc.Z.power(np.float64(0.5)), "cpow": lambda n: oc.T.power(n(2)).controlled(n(2)), "exp": lambda n: oc.Y.exp,
    "custom": lambda n: inline_def(["mine", [["exp(I*p[0])", 0], [0, 1]], ["t"]])(n(2)),
}


def run_numpy(case, ctx):
    n = WHOLE[case["dtype"]]
    ops = []
    for name in case["gates"]:
        g = NP_GATES[name](n)
        k = g.num_qubits
        ops.append(g(*[n((case["first"] + 2 * i) % 7) for i in range(int(k))]))
    c = oc.Circuit(ops, n_qubits=n(7) if case["width"] else None)
    d = roundtrip(c, ctx)
    compare_circuits(c, d, ctx, matrices=False)
    back = via_file(oc.save_circuit, oc.load_circuit, c, "str", "str")
    compare_circuits(c, back, ctx, matrices=False)
    (e,) = oc.circuitset_from_dict(through_json(oc.to_dict([c])))
    compare_circuits(c, e, ctx, matrices=False)
    ctx.step(2)
    ctx.state("np", str(case))


def numpy_cases(tier):
    for dtype in WHOLE:
        for width in (0, 1):
            for first in (0, 5):
                for k in (1, 2) if tier == "quick" else (1, 2, 3):
                    for gs in itertools.product(NP_GATES, repeat=k):
                        if k < 2 or tier != "quick" or (first == 0 and width == 1 and dtype in ("int64", "uint8")):
                            yield {"dtype": dtype, "gates": list(gs), "first": first, "width": width}


FAMILIES = [
    Family("numpy", numpy_cases, run_numpy, "every gate kind with qubit indices, widths, controls, exponents and parameters of 5 integer types"),
    Family("builtins", builtin_cases, run_spec, "every built-in gate, every ordered index tuple on k+2 qubits, with and without idle qubits"),
    Family("wrappers", wrapper_cases, run_wrappers, "21 gates, every sequence of up to 3 (4) of 14 modifiers, methods and raw constructors"),
    Family("exponents", exponent_cases, run_exponents, "56 (224) exponents of every magnitude and precision, under controls, daggers and further powers"),
    Family("params", param_cases, run_params, "numbers, 70 expression shapes, 12 floating expressions in 4 gates, pairs of expressions"),
    Family("names", name_cases, run_names, "every ordered pair of 66 symbol names (indexed, keywords, sympy names) in 6 expression forms, in parameters and in definitions"),
    Family("many", many_cases, run_many, "1..14 (30) symbols per parameter and circuit, 2..25 definitions per circuit, lists of up to 50 circuits, circuits of 300 gates"),
    Family("near-numbers", near_cases, near_run, "circuits and lists with operations whose parameters or exponents agree to the library's tolerance only"),
    Family("structures", struct_cases, run_struct, "every sequence of up to 3 (4) of 12 operations, explicit and implied width"),
    Family("definitions", def_cases, run_defs, "23 names x 8 bodies x 10 modifier nests; every ordered pair of bodies in one circuit"),
    Family("namesakes", namesake_cases, run_defs, "every built-in gate next to a custom gate of the same name and shape, either order, every pair of 4 (10) modifier nests"),
    Family("conflicts", conflict_cases, run_conflict, "every ordered pair of different definitions under one name"),
    Family("files", file_cases, run_files, "lists and files: str, Path, bytes path, handle, StringIO"),
    Family("format-limits", lambda tier: LIMITS, run_limits, "ambiguities of the text format"),
]

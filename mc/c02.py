"""C02: every built-in gate is a valid unitary that keeps its textbook identities.

Entries are trigonometric polynomials in the parameters.  `degree` bounds, by walking the
expression the real code returns, the frequency of every entry in theta/2; an identity
between trigonometric polynomials of degree <= D in theta/2 holds for ALL reals iff it
holds on 2D+1 equispaced points of one period (4 pi), so a finite exhaustive grid decides
it.  Where an entry is not recognised as such a polynomial a denser grid is used and the
evidence says so (outcome "dense-grid")."""
import itertools
import math

import numpy as np
import sympy

from orquestra.quantum import circuits as oc

from . import gates as G
from . import ref
from .core import Family, check

ASSUMPTIONS = [
    "identities over all reals rest on the uniqueness of trigonometric interpolation for the "
    "expression the gate returns for symbols; numeric parameters are additionally compared with "
    "that expression on the grid and on special values (multiples of pi/12 up to 8 pi, integers, "
    "tiny and large values, numpy and sympy numbers)",
]
TOL = 1e-8
SYMS = [sympy.Symbol("theta"), sympy.Symbol("phi"), sympy.Symbol("lam")]
GROUP = ["RX", "RY", "RZ", "RH", "PHASE", "CPHASE", "XX", "YY", "ZZ", "XY"]


def degree(e, s):
    """Max |frequency| of e in s/2 if e is recognisably a trig polynomial, else None."""
    e = sympy.sympify(e)
    if s not in e.free_symbols:
        return 0
    if isinstance(e, (sympy.Add, sympy.Mul)):
        ds = [degree(a, s) for a in e.args]
        if None in ds:
            return None
        return max(ds) if isinstance(e, sympy.Add) else sum(ds)
    if isinstance(e, (sympy.sin, sympy.cos, sympy.exp)):
        arg = sympy.expand(e.args[0])
        k = sympy.expand(sympy.diff(arg, s))
        if k.free_symbols:
            return None
        kk = complex(k)
        if isinstance(e, sympy.exp):
            kk = kk / 1j
        if abs(kk.imag) > 1e-12 or abs(2 * kk.real - round(2 * kk.real)) > 1e-12:
            return None
        return abs(round(2 * kk.real))
    if isinstance(e, sympy.Pow) and e.exp.is_Integer:
        if e.exp > 0:
            d = degree(e.base, s)
            return None if d is None else d * int(e.exp)
        if isinstance(e.base, sympy.exp):
            return degree(e.base, s) * -int(e.exp)
    return None


def build(name, values=()):
    g = oc.builtin_gate_by_name(name)
    return g(*values) if values else g


_sym_cache = {}


def _evaluator(syms, m):
    if not syms:
        return None

    def slow(*vals):
        return ref.num(m.subs(dict(zip(syms, vals)), simultaneous=True))

    try:
        fast = sympy.lambdify(syms, m.tolist(), "numpy")
        probe = [0.3 + 0.2 * i for i in range(len(syms))]
        if ref.close(np.array(fast(*probe), dtype=complex), slow(*probe), 1e-12):
            return fast
    except Exception:
        pass
    return slow


def symbolic(name):
    """(symbols, matrix expr, degree bound per symbol or None)"""
    if name not in _sym_cache:
        k = G.NPARAMS.get(name, 0)
        syms = SYMS[:k]
        m = build(name, tuple(syms)).matrix
        degs = []
        for s in syms:
            ds = [degree(e, s) for e in m]
            degs.append(None if None in ds else max(ds))
        _sym_cache[name] = (syms, m, degs, _evaluator(syms, m))
    return _sym_cache[name]


def grid(n):
    return [4 * math.pi * j / n for j in range(n)]


SPECIAL = (
    [k * math.pi / 12 for k in range(-96, 97)]
    + list(range(-13, 14))
    + [0.0, -0.0, 1e-300, 1e-12, -1e-9, 1e-7, 1e-5, 1e-3, 0.1, -0.1, 12.345, -77.7, 1000.1, -1e4, 123456.789, 1e6]
    + [math.pi / 7 * k for k in range(-5, 6)]
)
# every order of magnitude, on its own and as a distance from multiples of pi/2
SCALES = [sg * mant * 10.0**-k for k in range(0, 13) for mant in (1, 3, 9) for sg in (1, -1)]
SPECIAL += SCALES
SPECIAL += [q * math.pi / 2 + sg * 10.0**-k for q in (-4, -3, -2, -1, 1, 2, 3, 4, 8) for k in (2, 3, 4, 6, 8) for sg in (1, -1)]
SPECIAL += [sg * 10.0**k for k in range(1, 7) for sg in (1, -1)] + [37, -100, 1001, -4096]
TYPED = [
    {"np": 0.37}, {"np": -math.pi}, {"f32": 0.25}, {"npint": 3}, {"int": -2}, {"srat": [1, 3]}, {"srat": [-7, 2]},
    {"sfloat": 1.7}, "pi", "pi/2", "-pi/4", "3*pi", "sqrt(2)", "E", "2*pi/3", "-pi", "pi/3 + 1/7", {"sfloat": -0.5},
]


def unitary_check(name, m, ctx, where):
    g = m
    d = g.shape[0]
    check(g.shape == (d, d), f"{name} matrix is not square {where}")
    check(np.all(np.isfinite(g)), f"{name} matrix is not finite {where}")
    check(ref.close(g @ g.conj().T, np.eye(d), TOL), f"{name} is not unitary {where}")
    ctx.step()


def value_cases(tier):
    dense = 1 if tier == "quick" else 2
    for name in G.ALL_BUILTINS:
        k = G.NPARAMS.get(name, 0)
        if k == 0:
            yield [name, "grid", []]
            continue
        # the interpolation grid is computed inside the case from the measured degree;
        # one case per grid row so that shards share the work
        yield [name, "degree", []]
        if k == 1:
            for v in SPECIAL:
                yield [name, "val", [v]]
            for t in TYPED:
                yield [name, "val", [t]]
            for j in range(360 * dense):
                yield [name, "val", [round(-10 + 20 * j / (360.0 * dense) + 0.01, 6)]]
        else:
            base = [0, 0.0, math.pi, -math.pi / 2, 2 * math.pi, -1, 2, 0.3, 1e-9, -4.5, 7.123, 1000.1]
            if k == 3 and tier == "quick":
                base = [0, math.pi, -math.pi / 2, -1, 0.3, 1e-9, 7.123]
            for vs in itertools.product(base, repeat=k):
                yield [name, "val", list(vs)]
            for v in SCALES + [17.0, -33.3, 100, -1001, 12345.6]:
                for i in range(k):
                    vs = [0.45, -1.2, 2.3][:k]
                    vs[i] = v
                    yield [name, "val", vs]
                yield [name, "val", [v] * k]
            for t in TYPED:
                yield [name, "val", [t] * k]
                yield [name, "val", [t] + [0.3] * (k - 1)]
                yield [name, "val", [0.3] * (k - 1) + [t]]
            # near-coincidences: sums and differences hitting special values
            for a in (0.3, -1.1, 2.0):
                for b in (a, -a, a + 1e-7, math.pi - a, 2 * math.pi - a, math.pi + a):
                    for pos in itertools.permutations(range(k), 2):
                        vs = [0.45] * k
                        vs[pos[0]], vs[pos[1]] = a, b
                        yield [name, "val", vs]


def value_run(case, ctx):
    name, kind, vals = case
    k = G.NPARAMS.get(name, 0)
    if kind == "val" or k == 0:
        vs = tuple(G.param(v) for v in vals)
        g = build(name, vs)
        m = ref.num(g.matrix)
        where = f"at {vals}"
        nq = g.num_qubits
        check(m.shape == (2**nq, 2**nq), f"{name} has dimension {m.shape} but declares {nq} qubits")
        unitary_check(name, m, ctx, where)
        if g.is_hermitian:
            check(ref.close(m, m.conj().T), f"{name} flagged self-adjoint but is not {where}")
        md = ref.num(g.dagger.matrix)
        ctx.step()
        check(ref.close(md, m.conj().T), f"{name}.dagger is not the adjoint {where}")
        ctx.state(name, ref.digest(m))
        if k:
            syms, sm, degs, fn = symbolic(name)
            want = np.array(fn(*[complex(sympy.N(v)).real for v in vs]), dtype=complex)
            check(ref.close(m, want, 1e-7 if any(isinstance(v, dict) and "f32" in v for v in vals) else TOL),
                  f"{name} at the number {vals} differs from its symbolic matrix at that value")
            # angle 0 is the identity
            if name in GROUP and float(vs[0]) == 0:
                check(ref.close(m, np.eye(2**nq)), f"{name}(0) is not the identity")
            if name == "Delay":
                check(ref.close(m, np.eye(2)), "Delay is not the identity")
        return
    # "degree": decide unitarity / hermiticity for all reals on the interpolation grid
    syms, sm, degs, fn = symbolic(name)
    sizes = []
    for d in degs:
        if d is None:
            ctx.outcome("dense-grid:" + name)
            sizes.append(37 if k < 3 else 13)
        else:
            sizes.append(2 * (2 * d) + 1)
    g = build(name, tuple(syms))
    check(sm.shape == (2**g.num_qubits,) * 2, f"{name} symbolic dimension")
    for vs in itertools.product(*[grid(n) for n in sizes]):
        m = np.array(fn(*vs), dtype=complex)
        unitary_check(name, m, ctx, f"(symbolic) at {vs}")
        if g.is_hermitian:
            check(ref.close(m, m.conj().T), f"{name} flagged self-adjoint but is not at {vs}")
        mnum = ref.num(build(name, vs).matrix)
        check(ref.close(mnum, m), f"{name}{vs} differs from the symbolic matrix")
        if name == "Delay":
            check(ref.close(m, np.eye(2)), "Delay is not the identity")
        ctx.state(name, ref.digest(m))


def group_cases(tier):
    for name in GROUP:
        yield [name, "grid", None]
        ang = [0, 0.3, -1.1, math.pi / 2, math.pi, -math.pi, 2 * math.pi, 3.5 * math.pi, 7, -20.25, 1e-6, 1e-9, 300.5]
        if tier != "quick":
            ang += [k * math.pi / 6 for k in range(-12, 25)]
        for a in ang:
            yield [name, "row", [a, ang]]


def group_run(case, ctx):
    name, kind, data = case
    syms, sm, degs, fn = symbolic(name)

    def law(a, b):
        ma, mb, mab = (ref.num(build(name, (v,)).matrix) for v in (a, b, a + b))
        ctx.step()
        check(ref.close(ma @ mb, mab), f"{name}({a}) followed by {name}({b}) is not {name}({a + b})")
        ctx.state(name, ref.digest(mab))

    if kind == "grid":
        d = degs[0]
        n = 2 * d + 1 if d is not None else 25
        for a, b in itertools.product(grid(n), repeat=2):
            law(a, b)
            ms = [np.array(fn(v), dtype=complex) for v in (a, b, a + b)]
            check(ref.close(ms[0] @ ms[1], ms[2]), f"{name} symbolic group law at {a},{b}")
        check(ref.close(ref.num(build(name, (0,)).matrix), np.eye(len(ms[0]))), f"{name}(0)")
    else:
        a, ang = data
        for b in ang:
            law(a, b)


FIXED = [
    ("S*S=Z", lambda m: (m("S") @ m("S"), m("Z"))),
    ("T*T=S", lambda m: (m("T") @ m("T"), m("S"))),
    ("SX*SX=X", lambda m: (m("SX") @ m("SX"), m("X"))),
    ("H*Z*H=X", lambda m: (m("H") @ m("Z") @ m("H"), m("X"))),
    ("CNOT=c-X", lambda m: (m("CNOT"), ref.num(oc.X.controlled(1).matrix))),
    ("CNOT block", lambda m: (m("CNOT"), np.block([[np.eye(2), np.zeros((2, 2))], [np.zeros((2, 2)), m("X")]]))),
    ("CZ=c-Z", lambda m: (m("CZ"), ref.num(oc.Z.controlled(1).matrix))),
    ("CZ block", lambda m: (m("CZ"), np.block([[np.eye(2), np.zeros((2, 2))], [np.zeros((2, 2)), m("Z")]]))),
    ("X^2=1", lambda m: (m("X") @ m("X"), np.eye(2))),
    ("X flips", lambda m: (m("X"), ref.PAULI["X"])),
    ("Z", lambda m: (m("Z"), ref.PAULI["Z"])),
    ("I", lambda m: (m("I"), np.eye(2))),
    ("SWAP", lambda m: (m("SWAP"), np.eye(4)[[0, 2, 1, 3]])),
    ("H*H=1", lambda m: (m("H") @ m("H"), np.eye(2))),
]


def fixed_cases(tier):
    for rep in range(2):
        for i in range(len(FIXED)):
            yield [i, FIXED[i][0], rep]


def fixed_run(case, ctx):
    label, f = FIXED[case[0]]
    a, b = f(lambda n: ref.num(getattr(oc, n).matrix))
    ctx.step()
    check(ref.close(a, b), f"{label} does not hold")
    ctx.state(label, ref.digest(a))
    # SWAP really exchanges qubits of any product state
    if label == "SWAP":
        for x, y in itertools.product(([1, 0], [0, 1], [0.6, 0.8j], [0.28, -0.96]), repeat=2):
            check(ref.close(a @ np.kron(x, y), np.kron(y, x)), "SWAP does not exchange qubits")
            ctx.step()


def history_cases(tier):
    """Evaluate at a, then at nearly-equal / equal-comparing values: no memory of earlier calls."""
    seqs = [
        [0.3, 0.3 + 1e-6, 0.3 + 1e-5, 0.3 + 1e-4, 0.3],
        [1, 1.0, {"srat": [1, 1]}, {"np": 1.0}, -1, -1.0, -2],
        [0, 0.0, -0.0, {"sfloat": 0.0}, math.pi, 2 * math.pi, 4 * math.pi, "pi", "2*pi"],
        [2.5, -2.5, 2.5 + 2 * math.pi, 2.5 - 2 * math.pi, 2.5 + 4 * math.pi],
    ]
    for name in G.ALL_BUILTINS:
        if name in G.NPARAMS:
            for s in seqs:
                for perm in (s, s[::-1]):
                    yield [name, perm]


def history_run(case, ctx):
    name, seq = case
    k = G.NPARAMS[name]
    syms, sm, degs, fn = symbolic(name)
    for pos in range(k):
        for v in seq:
            vals = [0.7] * k
            vals[pos] = G.param(v)
            g = build(name, tuple(vals))
            m = ref.num(g.matrix)
            want = np.array(fn(*[complex(sympy.N(x)).real for x in vals]), dtype=complex)
            ctx.step()
            check(ref.close(m, want), f"{name}{vals} in the sequence {seq}")
            ctx.state(name, ref.digest(m))
            # returned matrix is the caller's to change
            mm = g.matrix
            try:
                mm[0, 0] = 99
            except TypeError:
                pass
            check(ref.close(ref.num(build(name, tuple(vals)).matrix), want), f"{name} matrix remembers a caller's edit")


FAMILIES = [
    Family("fixed-relations", fixed_cases, fixed_run, "all listed relations between fixed gates"),
    Family("values", value_cases, value_run,
           "27 gates x (interpolation grid that decides all reals; special, typed and dense numeric values)"),
    Family("group-law", group_cases, group_run, "10 one-parameter families x interpolation grid for all reals + angle pairs"),
    Family("history", history_cases, history_run, "sequences of nearly equal / equal-comparing parameters"),
]

"""C03: Pauli operator arithmetic is faithful to matrix arithmetic."""
import itertools

import numpy as np

from orquestra.quantum.operators import PauliSum, PauliTerm

from . import paulis as P
from . import ref
from .core import Family, check

T = P.T
ASSUMPTIONS = [
    "matrices are compared on the (order-preserving, relabelled) union of qubits the operands act on; "
    "relabelling is injective on operators",
    "each simplification may drop coefficients below 1e-8, so results are compared to 2e-8 per term",
]
DROP = 3e-8


def same(op, want, qubits, what):
    got = P.matrix(op, qubits)
    scale = max(1.0, float(np.max(np.abs(want))))
    check(np.all(np.abs(got - want) <= DROP * scale), f"{what}: got {op!r}")


def qubits_of(*specs):
    return sorted(set().union(*[P.spec_qubits(s) for s in specs]))


def binop(op, a, b):
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    if op == "/":
        return a / b
    raise KeyError(op)


def mat_binop(op, a, b):
    if op == "*":
        return a @ b
    if op == "/":
        return a @ np.linalg.inv(b)
    return a + b if op == "+" else a - b


def typed(op, what):
    check(isinstance(op, (PauliSum, PauliTerm)), f"{what} is a {type(op).__name__}, not an operator")


# -------------------------------------------------------------- all pairs of strings
COEFS = [1.0, -2.5, [0.0, 1.0], [0.3, -0.7], 3, 0.0]


def pair_cases(tier):
    for n in (1, 2):
        for a, b in itertools.product(P.strings(n), repeat=2):
            for i, (ca, cb) in enumerate(itertools.product(COEFS, repeat=2)):
                if n == 2 and i % 5 and tier == "quick":
                    continue
                yield [T(a, ca), T(b, cb)]
    cs = [(1.0, 1.0)] if tier == "quick" else [(1.0, 1.0), ([0.3, -0.7], -2.5), (2, [0, 1])]
    for a, b in itertools.product(P.strings(3), repeat=2):
        for ca, cb in cs:
            yield [T(a, ca), T(b, cb)]
    # gaps, multi-digit indices, reversed insertion order
    for a, b in itertools.product(P.strings(2, [2, 11]), P.strings(2, [11, 5])):
        yield [T(a, 0.5), {"o": T(b)["o"][::-1], "c": [0, -2.0]}]
    if tier != "quick":
        for a, b in itertools.product(P.strings(4), repeat=2):
            yield [T(a), T(b)]


def pair_run(case, ctx):
    a, b = case
    qs = qubits_of(a, b)
    A, B = P.build(a), P.build(b)
    MA, MB = P.spec_matrix(a, qs), P.spec_matrix(b, qs)
    same(A, MA, qs, "constructor")
    for op in "+-*":
        r = binop(op, A, B)
        ctx.step()
        typed(r, f"{A} {op} {B}")
        same(r, mat_binop(op, MA, MB), qs, f"({A}) {op} ({B})")
        ctx.state(P.key(r))
    for r, want, what in (
        (PauliSum([A]) * B, MA @ MB, "sum*term"),
        (A * PauliSum([B]), MA @ MB, "term*sum"),
        (PauliSum([A]) * PauliSum([B]), MA @ MB, "sum*sum"),
        (A - PauliSum([B]), MA - MB, "term-sum"),
        (PauliSum([A]) - B, MA - MB, "sum-term"),
        (PauliSum([A]) + B, MA + MB, "sum+term"),
        (A + PauliSum([B]), MA + MB, "term+sum"),
    ):
        ctx.step()
        typed(r, what)
        same(r, want, qs, f"{what} of ({A}) and ({B})")


# -------------------------------------------------------------- expression trees
def atoms(tier):
    out = [
        T("X0"), T("Z0", [0.5, -1.0]), T("Y0 Z1", -2.0), T("", 1.5), {"sum": []},
        {"sum": [T("X0"), T("Y1", [0, 1.0])]},
        {"sum": [T("Z0 Z1", 0.5), T("X0", -1), T("", 2.0)]},
        {"num": -2}, {"num": 0.5}, {"num": [1.0, -1.0]},
        T("X1 Y0", 3), {"sum": [T("X0"), T("X0", -1.0)]}, {"sum": [T("Y0 Z1", 2.0), T("X1", 0.0), T("X0", 1)]},
        {"num": 0}, {"num": [0.0, 1.0]},
        T("Z2", 0.1), {"sum": [T("Z2 X0"), T("X0 Z2", [0, 2.0]), T("", -1)]},
    ]
    return out[:12] if tier == "quick" else out


def tree_cases(tier):
    A = atoms(tier)
    full = atoms("thorough")
    for a, b in itertools.product(full, repeat=2):
        for op in "+-*/":
            yield ["bin", op, a, b]
    ops = "+-*"
    for o1, o2 in itertools.product(ops, repeat=2):
        for a, b, c in itertools.product(A, repeat=3):
            yield ["l", o1, o2, a, b, c]  # (a o1 b) o2 c
            if tier != "quick" or o1 != o2:
                yield ["r", o1, o2, a, b, c]  # a o1 (b o2 c)


def tree_run(case, ctx):
    if case[0] == "bin":
        _, op, a, b = case
        if "num" in a and "num" in b:
            return
        if op == "/" and ("num" not in b or P.coef(b["num"]) == 0):
            return
        qs = qubits_of(a, b)
        r = binop(op, P.build(a), P.build(b))
        ctx.step()
        typed(r, "result")
        same(r, mat_binop(op, P.spec_matrix(a, qs), P.spec_matrix(b, qs)), qs, f"{P.build(a)} {op} {P.build(b)}")
        ctx.state(P.key(r))
        return
    kind, o1, o2, a, b, c = case
    qs = qubits_of(a, b, c)
    va, vb, vc = P.build(a), P.build(b), P.build(c)
    ma, mb, mc = (P.spec_matrix(s, qs) for s in (a, b, c))
    if kind == "l":
        r = binop(o2, binop(o1, va, vb), vc)
        want = mat_binop(o2, mat_binop(o1, ma, mb), mc)
    else:
        r = binop(o1, va, binop(o2, vb, vc))
        want = mat_binop(o1, ma, mat_binop(o2, mb, mc))
    ctx.step(2)
    if all("num" in s for s in (a, b, c)):
        return
    typed(r, "result")
    same(r, want, qs, f"{kind}: {va} {o1} {vb} {o2} {vc}")
    ctx.state(P.key(r))


# -------------------------------------------------------------- simplification
def simplify_cases(tier):
    A = [T("X0"), T("X0", -1.0), T("Y0", 0.5), T("", 2.0), T("Z0 X1", [0, 1.0]), T("X1 Z0", [0, -1.0]),
         T("X0", 0.0), {"o": [[1, "X"], [0, "Z"]], "c": 0.25}, T("", -2)]
    maxlen = 4 if tier == "quick" else 5
    for L in range(0, maxlen + 1):
        pool = A if L < 5 else A[:7]
        for t in itertools.product(pool, repeat=L):
            yield {"sum": list(t)}
    # many duplicates, many terms, qubit indices of two digits
    yield from long_sum_cases(tier)
    for k in (6, 11, 17):
        yield {"sum": [T("X10 Z2", 0.1)] * k + [T("Z2 X10", -0.1)] * (k - 1)}
        yield {"sum": [T(f"Z{i}", i + 1) for i in range(9)] * 2}
        yield {"sum": [T("X0", 1e-5)] * k}
        yield {"sum": [T("X0", 1e9), T("Z0", 1e-3), T("X0", -1e9), T("X0", 0.5)]}


def long_sum_cases(tier):
    """Long sums and products, small coefficients next to ordinary ones, merged in every size of collection."""
    for n in (5, 9, 17, 30, 31, 45, 64, 100, 200) if tier == "quick" else (5, 9, 17, 30, 31, 45, 64, 65, 100, 128, 129, 200, 257, 500):
        words = [w for w in P.strings(4)][1:]
        for small in (1e-6, -1e-5, [0.0, 1e-6], 2e-7, 1.0):
            rows = [T(words[i % 255], 0.5 + i) for i in range(n - 3)]
            yield {"sum": rows + [T("X10 Z2", small), T("Z2 X10", P.coef(small).real if isinstance(small, list) else small), T("Y9", small)]}
            yield {"sum": [T("X0", 1.0), T("X0", small)] + rows + [T("X0", -1.0)]}
            yield {"sum": [T("Z0", small)] * n}
            yield {"sum": [T(words[i % 3], small) for i in range(n)]}


def simplify_run(case, ctx):
    qs = qubits_of(case)
    op = P.build(case)
    s = op.simplify()
    ctx.step()
    same(s, P.spec_matrix(case, qs), qs, f"simplify of {op}")
    strings = [t.operations for t in s.terms]
    check(len(strings) == len(set(strings)), f"like terms left unmerged by simplify: {s}")
    check(all(abs(complex(t.coefficient)) > 0 for t in s.terms), f"zero term kept by simplify: {s}")
    again = s.simplify()
    ctx.step()
    same(again, P.spec_matrix(case, qs), qs, "simplify twice")
    check(s == again and again == s, "simplify is not idempotent")
    ctx.state(P.key(s))
    # the simplified operator is equal to any reordering of itself
    rev = PauliSum(list(s.terms)[::-1])
    check(rev == s and s == rev and not (rev != s), f"equality depends on term order: {s}")
    ctx.step(2)


# -------------------------------------------------------------- operands that list terms repeatedly
def repeated_cases(tier):
    A = [T("X0"), T("Z0 Y1", 0.5), T("", 2.0), T("X0", -1.0), T("Y0", [0, 1.0])]
    sums = [list(t) for L in (1, 2, 3) for t in itertools.product(range(5), repeat=L)]
    rep = [t for t in sums if len(set(t)) < len(t)]
    other = [t for t in sums if len(t) <= 2] if tier == "quick" else sums
    for a in rep:
        for b in other:
            yield [[A[i] for i in a], [A[i] for i in b]]
    for k in (4, 7, 12):  # more terms, more repetitions
        for i, j in itertools.product(range(5), repeat=2):
            yield [[A[i]] * k, [A[j]] * (k - 1) + [A[(j + 1) % 5]]]
            yield [[A[i], A[j]] * k, [A[j], A[i], A[i]]]
            yield [[A[i], A[j]] * k, [A[(i + 2) % 5]]]


def repeated_run(case, ctx):
    sa, sb = {"sum": case[0]}, {"sum": case[1]}
    qs = [0, 1]
    A, B = P.build(sa), P.build(sb)
    MA, MB = P.spec_matrix(sa, qs), P.spec_matrix(sb, qs)
    ka, kb = str(A), str(B)
    t, mt = P.build(case[1][0]), P.spec_matrix(case[1][0], qs)
    for r, want, what in (
        (A * B, MA @ MB, "a*b"), (B * A, MB @ MA, "b*a"), (A + B, MA + MB, "a+b"), (B - A, MB - MA, "b-a"), (A - B, MA - MB, "a-b"),
        (A * t, MA @ mt, "a*term"), (t * A, mt @ MA, "term*a"), (A + t, MA + mt, "a+term"), (t - A, mt - MA, "term-a"),
        (A * 2, 2 * MA, "a*2"), (-1j * A, -1j * MA, "-1j*a"), (A / 4, MA / 4, "a/4"), (A + 1, MA + np.eye(4), "a+1"), (1 - A, np.eye(4) - MA, "1-a"),
        (A**2, MA @ MA, "a**2"), (A**3, MA @ MA @ MA, "a**3"), (A * A, MA @ MA, "a*a"), (A - A, 0 * MA, "a-a"), (A + A, 2 * MA, "a+a"),
    ):
        ctx.step()
        typed(r, what)
        same(r, want, qs, f"{what} of ({ka}) and ({kb})")
    check(str(A) == ka and str(B) == kb, f"operands {ka}, {kb} became {A}, {B}")
    ctx.state(P.key(A * B))


# -------------------------------------------------------------- equality
def eq_objects(tier):
    base = [T("X0"), T("Y0"), T("X1"), T("X0 Z1"), T("Z1 X0"), T("", 1.0), T("", 0.0), T("X0", 0), {"sum": []},
            {"num": 1}, {"num": 0}, {"num": 0.0}, {"num": [1.0, 0.0]}, {"num": [0.0, 1.0]}, {"num": 2.5},
            T("", 2.5), T("", [0, 1.0]),
            {"sum": [T("X0")]}, {"sum": [T("", 1)]}, {"sum": [T("", 2.5)]},
            {"sum": [T("X0"), T("Y0", 2.0)]}, {"sum": [T("Y0", 2.0), T("X0")]}, {"sum": [T("X0", 2.0), T("Y0")]},
            {"sum": [T("X0"), T("Y0", 2.0), T("Z0", 1.0)]}, {"sum": [T("X0"), T("Y0", -2.0)]},
            {"sum": [T("X0"), T("Y0", [2.0, 0.0])]}, {"sum": [T("X0"), T("Y0", [0.0, 2.0])]},
            {"sum": [T("X0"), T("Y1", 2.0)]},
            ]
    for d in (1e-11, 1e-10, -1e-10, 1e-9, 1e-6, 3e-7, -3e-7, 1e-4, 1e-5):
        base.append(T("X0", 1.0 + d))
        base.append({"sum": [T("Y0", 2.0 - d), T("X0")]})
        base.append({"num": 1.0 + d})
        base.append(T("X0", [1.0, d]))
    for e in (0.5e-6, 1.5e-6, 0.1234565):  # rounding boundaries of a 1e-6 grid
        for d in (0, 1e-12, -1e-12, 1e-10):
            base.append({"sum": [T("X0", e + d), T("Z0", 1.0)]})
            base.append(T("X0", e + d))
    base += [T("X0", 1e-9), T("Y0", -1e-9), T("X0", 1000.0), T("X0", 1000.001), T("X0", 1000.0000001),
             {"sum": [T("X0", 1000.0), T("Z0")]}, {"sum": [T("Z0"), T("X0", 1000.001)]},
             {"sum": [T("X0", 12345.678)]}, {"sum": [T("X0", 12345.679)]}, {"sum": [T("X0", 1e6)]},
             {"sum": [T("X0", 1e6 + 1)]}, {"num": 1e6}, {"num": 1e6 + 0.5},
             {"sum": [T(f"Z{i}", i + 1.0) for i in range(6)]},
             {"sum": [T(f"Z{i}", i + 1.0) for i in reversed(range(6))]},
             {"sum": [T(f"Z{i}", i + 1.0) for i in range(5)] + [T("Z5", 6.0001)]},
             {"sum": [T(f"Z{i}", i + 1.0) for i in range(5)] + [T("Z6", 6.0)]},
             ]
    return base


def eq_cases(tier):
    objs = eq_objects(tier)
    for a, b in itertools.product(objs, repeat=2):
        if "num" in a and "num" in b:
            continue
        yield [a, b]


def coef_map(spec):
    if "num" in spec:
        return {(): P.coef(spec["num"])}
    out = {}
    for t in spec["sum"] if "sum" in spec else [spec]:
        k = tuple(sorted((q, o) for q, o in t["o"] if o != "I"))
        out[k] = out.get(k, 0) + P.coef(t["c"])
    return out


def eq_run(case, ctx):
    a, b = case
    da, db = coef_map(a), coef_map(b)
    diff = max([abs(da.get(k, 0) - db.get(k, 0)) for k in set(da) | set(db)] or [0.0])
    A, B = P.build(a), P.build(b)
    r1, r2 = A == B, B == A
    ctx.step(2)
    check(bool(r1) == bool(r2), f"equality is not symmetric: {A} and {B}")
    check(bool(A != B) == (not r1), f"!= is not the negation of == for {A} and {B}")
    if diff <= 4e-9:
        check(bool(r1), f"{A} == {B} is False although the matrices agree to {diff}")
        ctx.outcome("equal")
    elif diff >= 4e-8:
        check(not r1, f"{A} == {B} is True although a coefficient differs by {diff}")
        ctx.outcome("different")
    ctx.state(round(diff, 12), bool(r1))


# -------------------------------------------------------------- powers and scalars
def power_cases(tier):
    A = [a for a in atoms("thorough") if "num" not in a] + [
        {"sum": [T("X0"), T("Z0")]}, {"sum": [T("X0", 0.5), T("Y1", 0.5), T("Z0 Z1", [0, 0.5])]},
        {"sum": [T("X0", 2), T("", 1)]}, T("X0 Y1 Z2", [0, 1.0]), T("X0 Y1 Z2", [0.6, 0.8]), {"sum": [T("", 2)]},
        T("", 0), T("X3", 0.0),
    ]
    for a in A:
        for k in range(0, 10 if tier == "quick" else 18):
            yield ["pow", a, k]
        for bad in (-1, -2, 0.5, 2.0):
            yield ["badpow", a, bad]
    nums = [1, -1, 2, 0.5, -0.25, [0.0, 1.0], [0.0, -2.0], [1.0, 1.0], 3, 1e3, 1e-3, 1e-6]
    for a in A:
        for c in nums:
            for side in ("r*", "l*", "/", "r+", "l+", "r-", "l-"):
                yield ["num", a, c, side]
    for n in ({"np": 1.5}, {"npc": [0.5, -1.5]}):
        for a in A:
            for side in ("r*", "/", "r+", "r-"):
                yield ["num", a, n, side]


def power_run(case, ctx):
    kind, a = case[0], case[1]
    qs = qubits_of(a)
    A, MA = P.build(a), P.spec_matrix(a, qs)
    if kind == "pow":
        r = A ** case[2]
        ctx.step()
        typed(r, "power")
        same(r, np.linalg.matrix_power(MA, case[2]), qs, f"({A})**{case[2]}")
        ctx.state(P.key(r))
        return
    if kind == "badpow":
        try:
            r = A ** case[2]
        except (ValueError, TypeError):
            ctx.step()
            return
        if case[2] == 2.0:  # accepted integral float would have to be right
            same(r, np.linalg.matrix_power(MA, 2), qs, "float power")
            return
        check(False, f"({A})**{case[2]} was accepted and gave {r}")
    c, side = case[2], case[3]
    if isinstance(c, dict):
        v = np.float64(c["np"]) if "np" in c else np.complex128(complex(*c["npc"]))
    else:
        v = P.coef(c)
    one = np.eye(2 ** len(qs))
    r, want = {
        "r*": lambda: (A * v, MA * v), "l*": lambda: (v * A, MA * v), "/": lambda: (A / v, MA / v),
        "r+": lambda: (A + v, MA + v * one), "l+": lambda: (v + A, MA + v * one),
        "r-": lambda: (A - v, MA - v * one), "l-": lambda: (v - A, v * one - MA),
    }[side]()
    ctx.step()
    typed(r, f"{A} {side} {v}")
    same(r, want, qs, f"{A} {side} {v}")
    ctx.state(P.key(r))


# -------------------------------------------------------------- long strings, long sums, high powers
# Reference algebra on {sorted tuple of (qubit, Pauli): coefficient}; its product table is
# derived from the 2x2 matrices, so it denotes the matrices without building them.
PAULI = {"I": np.eye(2), "X": np.array([[0, 1], [1, 0]]), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1])}
TABLE = {}
for _a, _b in itertools.product("IXYZ", repeat=2):
    _m = PAULI[_a] @ PAULI[_b]
    for _c in "IXYZ":
        _f = np.trace(PAULI[_c].conj().T @ _m) / 2
        if abs(_f) > 0.5:
            TABLE[_a, _b] = (_c, complex(_f))


def as_dict(op):
    if isinstance(op, (int, float, complex)):
        return {(): complex(op)}
    out = {}
    for t in op.terms:
        k = tuple(sorted(t.operations))
        out[k] = out.get(k, 0) + complex(t.coefficient)
    return out


def d_term(pairs, c):
    return {tuple(sorted((q, o) for q, o in pairs)): complex(c)}


def d_add(a, b, f=1):
    out = dict(a)
    for k, c in b.items():
        out[k] = out.get(k, 0) + f * c
    return out


def d_mul(a, b):
    out = {}
    for ka, ca in a.items():
        for kb, cb in b.items():
            ops, c = dict(ka), ca * cb
            for q, o in kb:
                r, f = TABLE[ops.get(q, "I"), o]
                c *= f
                if r == "I":
                    del ops[q]
                else:
                    ops[q] = r
            k = tuple(sorted(ops.items()))
            out[k] = out.get(k, 0) + c
    return out


def d_pow(a, n):
    out = {(): 1.0 + 0j}
    for _ in range(n):
        out = d_mul(out, a)
    return out


def d_same(op, want, what):
    typed(op, what)
    got = as_dict(op)
    scale = max([1.0] + [abs(c) for c in want.values()])
    bad = [k for k in set(got) | set(want) if abs(got.get(k, 0) - want.get(k, 0)) > DROP * scale]
    check(not bad, f"{what}: term {bad[:1]} has {[got.get(k, 0) for k in bad[:1]]} instead of {[want.get(k, 0) for k in bad[:1]]}")


def string(n, k, gap=1):
    """A deterministic string of n factors; different k differ on most qubits and share some."""
    return [(gap * i + k % 3, "XYZ"[(i * i + (k + 1) * i // 2 + k) % 3]) for i in range(n)]


def wide_cases(tier):
    sizes = (4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 31, 32, 33) + ((63, 64, 65, 100) if tier != "quick" else (64, 65))
    for n in sizes:
        for ka, kb in itertools.product(range(4), repeat=2):
            for gap in (1, 3):
                yield ["strings", n, ka, kb, gap]
    for m in (5, 8, 9, 10, 12, 16, 17, 20, 21, 31, 32, 33, 39, 40, 41, 50, 63, 64, 65, 100) + ((127, 128, 129, 200, 255, 256, 257) if tier != "quick" else (128, 129)):
        for pat in ("same-qubits", "distinct", "duplicates", "cancel", "weights"):
            yield ["sums", m, pat]
    coefs = [1.0, [0.0, 1.0], -1.1, [0.6, -0.8], [0.0, -0.9]]
    for k in list(range(0, 34)) + [63, 64, 65]:
        for c in coefs:
            yield ["termpow", k, c]
    for k in range(0, 14 if tier == "quick" else 26):
        for which in range(5):
            yield ["sumpow", k, which]


def wide_sum(m, pat):
    """Library terms and the dictionary they denote."""
    out = []
    for i in range(m):
        if pat == "same-qubits":
            w = np.base_repr(i + 1, 3).zfill(6)
            pairs = [(q, "XYZ"[int(x)]) for q, x in enumerate(w)]
        elif pat == "distinct":
            pairs = [(i, "XYZ"[i % 3]), (i + 2, "ZXY"[i % 3])]
        elif pat == "duplicates":
            pairs = [(i % 7, "XYZ"[i % 3])]
        elif pat == "cancel":
            pairs = [((i // 2) % 9, "XYZ"[(i // 2) % 3])]
        else:
            pairs = string(i % 12, i)
        c = [0.5 + i, -0.25 * i - 1, complex(i, 1), 0.125][i % 4]
        if pat == "cancel" and i % 2:
            c = -out[-1][1]
        out.append((pairs, c))
    return out


def wide_run(case, ctx):
    kind = case[0]
    if kind == "strings":
        _, n, ka, kb, gap = case
        pa, pb = string(n, ka, gap), string(n, kb, gap)
        A, B = PauliTerm(dict(pa), 0.5 - 1j), PauliTerm(dict(pb[::-1]), -2.0)
        a, b = d_term(pa, 0.5 - 1j), d_term(pb, -2.0)
        C, c = PauliTerm({q: o for q, o in pb[: n // 2]}, 3), d_term(pb[: n // 2], 3)
        for r, w, what in (
            (A * B, d_mul(a, b), "A*B"), (B * A, d_mul(b, a), "B*A"), (A * A, d_mul(a, a), "A*A"), (A + B, d_add(a, b), "A+B"),
            (A - B, d_add(a, b, -1), "A-B"), (A * C, d_mul(a, c), "A*C"), (C * A, d_mul(c, a), "C*A"),
            ((A + C) * (B - C), d_mul(d_add(a, c), d_add(b, c, -1)), "(A+C)*(B-C)"), (A * (B + C), d_mul(a, d_add(b, c)), "A*(B+C)"),
            (A * B * C, d_mul(d_mul(a, b), c), "A*B*C"), (A**3, d_pow(a, 3), "A**3"), (A / 4, d_mul(a, {(): 0.25}), "A/4"),
        ):
            ctx.step()
            d_same(r, w, f"{what} with A={A}, B={B}, C={C}")
        equal = ka == kb
        check((PauliTerm(dict(pa)) == PauliTerm(dict(pb[::-1]))) == (set(pa) == set(pb)), f"equality of {A} and {B}")
        check((PauliSum([PauliTerm(dict(pa)), C]) == PauliSum([C, PauliTerm(dict(pb))])) == (set(pa) == set(pb)), f"equality of sums of {A} and {B}")
        ctx.state(n, ka, kb, equal)
        return
    if kind == "sums":
        _, m, pat = case
        spec = wide_sum(m, pat)
        terms = [PauliTerm(dict(p), c) for p, c in spec]
        S = PauliSum(terms)
        d = {}
        for p, c in spec:
            d = d_add(d, d_term(p, c))
        X = PauliSum([PauliTerm("X0", 0.5), PauliTerm("Z1*Y2", 1j), PauliTerm("I0", -2)])
        x = {((0, "X"),): 0.5, ((1, "Z"), (2, "Y")): 1j, (): -2}
        half = PauliSum(terms[: m // 2])
        hd = {}
        for p, c in spec[: m // 2]:
            hd = d_add(hd, d_term(p, c))
        simp = S.simplify()
        ops = [t.operations for t in simp.terms]
        check(len(set(ops)) == len(ops), "simplified operator lists a string twice")
        for r, w, what in (
            (simp, d, "simplify"), (S + X, d_add(d, x), "S+X"), (S - X, d_add(d, x, -1), "S-X"), (X - S, d_add(x, d, -1), "X-S"),
            (S * X, d_mul(d, x), "S*X"), (X * S, d_mul(x, d), "X*S"), (S * 0.5, d_mul(d, {(): 0.5}), "S*0.5"), (2j * S, d_mul({(): 2j}, d), "2j*S"),
            (S / 8, d_mul(d, {(): 0.125}), "S/8"), (S + 3, d_add(d, {(): 3}), "S+3"), (3 - S, d_add({(): 3}, d, -1), "3-S"),
            (S + half, d_add(d, hd), "S+half"), (S - half, d_add(d, hd, -1), "S-half"), (S - S, {}, "S-S"),
            (PauliTerm("Y0", 2) * S, d_mul({((0, "Y"),): 2}, d), "term*S"), (S * PauliTerm("Y0", 2), d_mul(d, {((0, "Y"),): 2}), "S*term"),
        ):
            ctx.step()
            d_same(r, w, f"{what}, {pat} sum of {m} terms")
        rev = PauliSum(terms[::-1]).simplify()
        check(simp == rev and rev == simp, f"{pat} sum of {m} terms differs from the same terms reversed")
        for i in (0, len(simp.terms) // 2, len(simp.terms) - 1):
            if simp.terms:
                changed = PauliSum([t if j != i else t.copy(t.coefficient + 1e-3) for j, t in enumerate(simp.terms)])
                check(simp != changed and changed != simp, f"{pat} sum of {m} terms equals one with coefficient {i} changed")
                ctx.step()
        ctx.state(kind, m, pat, len(ops))
        return
    if kind == "termpow":
        k, c = case[1], P.coef(case[2])
        for pairs in ([(0, "X")], [(3, "Y"), (1, "Z")], []):
            r = PauliTerm(dict(pairs), c) ** k
            want = d_pow(d_term(pairs, c), k)
            ctx.step()
            d_same(r, want, f"({c} {pairs})**{k}")
        ctx.state(kind, k, str(c))
        return
    k, which = case[1], case[2]
    spec = [[([(0, "X")], 0.6), ([(0, "Z")], 0.8)], [([(0, "X")], 0.3), ([(1, "Y")], 0.5j), ([], 0.7)],
            [([(0, "X"), (1, "X")], 0.5), ([(1, "Z")], -0.5), ([(0, "Y")], 0.5), ([(0, "X")], 0.1)],
            [([(2, "Z")], 0.4), ([(2, "Z")], 0.4)], [([(0, "X")], 1.0), ([(0, "X")], -1.0)]][which]
    d = {}
    for p, c in spec:
        d = d_add(d, d_term(p, c))
    r = PauliSum([PauliTerm(dict(p), c) for p, c in spec]) ** k
    ctx.step()
    want = d_pow(d, k)
    # every intermediate product may drop coefficients below 1e-8
    got = as_dict(r)
    bad = [x for x in set(got) | set(want) if abs(got.get(x, 0) - want.get(x, 0)) > 1e-6]
    check(not bad, f"({spec})**{k}: {r}")
    ctx.state(kind, k, which)


# -------------------------------------------------------------- histories on shared objects
def chain_cases(tier):
    """acc := start; then `acc = acc <op> operand` or `acc = operand <op> acc`, all sequences."""
    starts = [T("X0"), {"sum": [T("X0", 0.5), T("Z1", [0, 0.5])]}, {"sum": []}]
    moves = [["+", 0, T("Z0", 0.5)], ["*", 0, T("Y0")], ["*", 1, {"sum": [T("X0"), T("Z0 Z1", -0.5)]}],
             ["-", 1, {"num": 1}], ["-", 0, T("X0")], ["*", 0, {"num": [0, 1.0]}], ["/", 0, {"num": 2}],
             ["**", 0, 2], ["self*", 0, None], ["self-", 0, None]]
    depth = 3 if tier == "quick" else 4
    for s in starts:
        for L in range(1, depth + 1):
            for seq in itertools.product(range(len(moves)), repeat=L):
                yield [s, [moves[i] for i in seq]]


def chain_run(case, ctx):
    start, moves = case
    qs = [0, 1]
    acc, M = P.build(start), P.spec_matrix(start, qs)
    for op, rev, other in moves:
        if op == "**":
            acc, M = acc**other, np.linalg.matrix_power(M, other)
        elif op == "self*":
            acc, M = acc * acc, M @ M
        elif op == "self-":
            acc, M = (acc * 2) - acc, M
        else:
            o, mo = P.build(other), P.spec_matrix(other, qs)
            if rev:
                acc, M = binop(op, o, acc), mat_binop(op, mo, M)
            else:
                acc, M = binop(op, acc, o), mat_binop(op, M, mo)
        ctx.step()
        typed(acc, op)
        same(acc, M, qs, f"history {moves}")
        ctx.state(P.key(acc))


FAMILIES = [
    Family("pairs", pair_cases, pair_run,
           "all pairs of Pauli strings on 1,2,3 qubits (thorough 4) x +,-,* x term/sum operand kinds x coefficients"),
    Family("trees", tree_cases, tree_run,
           "all two-operator expression trees over 12 (thorough 17) atoms (terms, sums, numbers) with + - *, all pairs also /"),
    Family("simplify", simplify_cases, simplify_run, "all sums of <=4 (thorough 5) terms from 9 colliding terms, all orders"),
    Family("repeated", repeated_cases, repeated_run,
           "operands that list terms repeatedly: every sum of <=3 of 5 terms with a repetition x every sum of <=2 (3); 18 operations"),
    Family("equality", eq_cases, eq_run, "all ordered pairs of ~90 operators incl. reorderings, perturbations, rounding-boundary coefficients"),
    Family("powers-scalars", power_cases, power_run, "exponents 0..9 (thorough 17); 12 scalars on both sides"),
    Family("wide", wide_cases, wide_run,
           "pairs of strings of 4..65 (100) factors, sums of 5..129 (257) terms in 5 patterns, term powers to 65, sum powers to 13 (25), "
           "against an algebra whose table is read off the 2x2 matrices"),
    Family("histories", chain_cases, chain_run, "all operation sequences of length <=3 (thorough 4) from 10 moves and 3 starts"),
]

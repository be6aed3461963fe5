"""C07: gate modifiers (dagger, controlled, power, exp) mean what they say.

For every nest of modifiers over every base gate the matrix reported for the modified gate is
related to the matrix reported for the gate it was obtained from: conjugate transpose, block
diagonal with identity first, repeated product / inverse, q-th root, exponential.  The roots
are checked by the defining relation, so no branch choice is presumed."""
import itertools
import signal

import numpy as np
import scipy.linalg
import sympy

from orquestra.quantum import circuits as oc

from . import gates as G
from . import ref
from .core import CaseTimeout, Family, Violation, check
from .c06 import with_params

ASSUMPTIONS = [
    "exp / fractional power applied on top of another exp / fractional power of a non-diagonal gate is "
    "explored only in family `stacked` (sympy's Jordan form fails or does not end there: known findings)",
]
TOL = 1e-7
SUBS = {"a": 0.37, "b": -1.21, "theta": 0.71, "phi": -0.4, "lam": 1.3, "x[0]": 0.9, "x[1]": -1.7}


def subs():
    return {sympy.Symbol(k): v for k, v in SUBS.items()}


def w(spec, m):
    if m in ("dag", "exp"):
        return [m, spec]
    if m[0] == "c":
        return ["c", int(m[1:]), spec]
    t = m[3:]
    if "/" in t:
        p, q = t.split("/")
        return ["pow", float(p) / float(q), spec]
    return ["pow", float(t) if "." in t else int(t), spec]


def nest(base, ms):
    s = base
    for m in ms:
        s = w(s, m)
    return s


def is_tr(m):
    return m == "exp" or (m.startswith("pow") and ("/" in m or ("." in m and float(m[3:]) % 1 != 0)))


# ---------------------------------------------------------------- reference semantics
def snap_angle(lam):
    a = np.angle(lam)
    return np.pi if abs(abs(a) - np.pi) < 1e-6 else a


def principal_power(m, e):
    if float(e).is_integer():
        return np.linalg.matrix_power(m, int(e))
    t, z = scipy.linalg.schur(np.asarray(m, dtype=complex), output="complex")
    d = np.diag(t)
    if np.max(np.abs(t - np.diag(d))) < 1e-8:  # normal
        dd = np.abs(d) ** e * np.exp(1j * e * np.array([snap_angle(x) for x in d]))
        return z @ np.diag(dd) @ z.conj().T
    return scipy.linalg.fractional_matrix_power(m, e)


def rule_matrix(spec, dag):
    """What the library's documented re-association (dagger pushed under power and exp, principal
    powers) denotes; used only to recognise the known finding precisely."""
    k = spec[0]
    if k == "dag":
        return rule_matrix(spec[1], not dag)
    if k == "c":
        m = rule_matrix(spec[2], dag)
        return scipy.linalg.block_diag(np.eye(len(m) * (2 ** spec[1] - 1)), m)
    if k == "pow":
        return principal_power(rule_matrix(spec[2], dag), spec[1])
    if k == "exp":
        return scipy.linalg.expm(rule_matrix(spec[1], dag))
    m = G.gate_matrix_spec(spec, subs())
    return m.conj().T if dag else m


def has_branch_power(spec):
    """Contains a fractional power of a matrix with an eigenvalue on the negative real axis."""
    k = spec[0]
    if k in ("dag", "exp"):
        return has_branch_power(spec[1])
    if k == "c":
        return has_branch_power(spec[2])
    if k == "pow":
        if not float(spec[1]).is_integer():
            ev = np.linalg.eigvals(rule_matrix(spec[2], False))
            if any(abs(abs(np.angle(x)) - np.pi) < 1e-5 for x in ev):
                return True
        return has_branch_power(spec[2])
    return False


def base_of(spec):
    while spec[0] in ("dag", "c", "pow", "exp"):
        spec = spec[-1]
    return spec


def gate_num(g):
    return ref.num(g.matrix, subs())


def expected_relation(m, M, H, what, spec):
    """H: matrix of mod(gate), M: matrix of gate."""
    d = len(M)
    if m == "dag":
        if not ref.close(H, M.conj().T, TOL):
            if has_branch_power(spec) and ref.close(H, rule_matrix(["dag", spec], False), 1e-6):
                raise Violation(
                    f"{what}: the dagger of a gate containing a fractional power of a matrix with eigenvalue -1 is "
                    f"not its conjugate transpose (same branch of the root taken for both)",
                    "fractional-dagger-branch",
                )
            check(False, f"{what}: dagger is not the conjugate transpose", "dagger")
    elif m[0] == "c":
        k = int(m[1:])
        E = scipy.linalg.block_diag(np.eye(d * (2**k - 1)), M)
        check(ref.close(H, E, TOL), f"{what}: not identity + gate as the last block", "controlled")
    elif m == "exp":
        check(ref.close(H, scipy.linalg.expm(M), 1e-6), f"{what}: not the matrix exponential", "exp")
    else:
        e = w([], m)[1]
        if float(e).is_integer():
            check(ref.close(H, np.linalg.matrix_power(M, int(e)), TOL), f"{what}: not the repeated product", "power")
        else:
            q = round(1 / abs(e))
            T = M if e > 0 else np.linalg.inv(M)
            check(ref.close(np.linalg.matrix_power(H, q), T, 1e-6), f"{what}: power {q} of the result is not the original", "root")


def same_params(a, b):
    return len(a) == len(b) and all(type(x) is type(y) and x == y for x, y in zip(a, b))


def run_nest(case, ctx):
    base, ms = case["base"], case["mods"]
    inner = G.gate(nest(base, ms[:-1]))
    b = G.gate(base)
    m = ms[-1]
    g = apply_mod(inner, m)
    what = f"{inner} modified by {m}"
    ctx.step()
    n = inner.num_qubits + (int(m[1:]) if m[0] == "c" else 0)
    total = b.num_qubits + sum(int(x[1:]) for x in ms if x[0] == "c")
    check(g.num_qubits == n == total, f"{what}: num_qubits {g.num_qubits}, expected {total}", "num_qubits")
    check(same_params(g.params, b.params), f"{what}: params {g.params}, expected {b.params}", "params")
    check(set(g.free_symbols) == set(b.free_symbols), f"{what}: free symbols {g.free_symbols}", "free-symbols")
    M, H = gate_num(inner), gate_num(g)
    ctx.step(2)
    check(H.shape == (2**n, 2**n), f"{what}: matrix of shape {H.shape} for {n} qubits", "shape")
    expected_relation(m, M, H, what, nest(base, ms[:-1]))
    ctx.state(ref.digest(H, 5))
    ctx.outcome("last=" + m.split("/")[0].rstrip("0123456789.-"))
    # a second evaluation gives the same
    check(g == apply_mod(inner, m), f"{what}: not reproducible", "equality")


def apply_mod(g, m):
    if m == "dag":
        return g.dagger
    if m == "exp":
        return g.exp
    if m[0] == "c":
        return g.controlled(int(m[1:]))
    return g.power(w([], m)[1])


VALS = [0.5, 0.25, 1.1]
NUM_BASES = [[n] + VALS[: G.NPARAMS.get(n, 0)] for n in G.ALL_BUILTINS]
NUM_BASES += [["custom", k] for k in ("int1", "rat1", "sq1", "u1")] + [
    ["custom", "p1", 0.3, 0.4], ["custom", "p2", 0.3, 0.4], ["RX", 1], ["RX", "pi/3"], ["RZ", {"srat": [1, 3]}], ["PHASE", "pi/3"],
    ["U3", 0.0, 0.0, 0.0], ["RX", 0.0], ["GPi", "pi/3"], ["GPi", 0], ["RY", 6.283185307179586], ["RX", 3.141592653589793],
    ["PHASE", 3.141592653589793], ["RZ", -2.5], ["CPHASE", "pi/4"], ["ZZ", 3.0],
]
SYM_BASES = [[n] + ["theta", "phi", "lam"][: G.NPARAMS[n]] for n in G.ALL_BUILTINS if G.NPARAMS.get(n, 0)]
SYM_BASES += [["custom", "p1", "a", "2*b"], ["custom", "p1r", "a", "b"], ["custom", "p2", "phi", "theta"], ["custom", "px", "$x[0]", "$x[1]"],
              ["U3", 0.5, "theta", "a"], ["MS", "a", 0.5]]
LIN = ["dag", "c1", "c2", "pow2", "pow-1"]
LIN_MORE = ["c3", "pow3", "pow0", "pow1", "pow-2", "pow2.0", "pow-1.0"]
TR = ["pow1/2", "pow1/4", "pow1/3", "pow-1/2", "exp"]
SYM_MODS = ["dag", "c1", "c2", "c3"]
# nests that contain one exp / fractional power take long on these (sympy): shallow only
SLOW = [["U3", 0.5, 0.25, 1.1], ["MS", 0.5, 0.25], ["custom", "u1"], ["XY", 0.5], ["RH", 0.5], ["GPi2", 0.5]]


def count_controls(ms):
    return sum(int(m[1:]) for m in ms if m[0] == "c")


def nest_cases(tier):
    full = tier == "thorough"
    for b in NUM_BASES:
        k = G.arity(b)
        for m in LIN + LIN_MORE + TR:
            yield {"base": b, "mods": [m]}
        slow = b in SLOW
        mods2 = LIN + (LIN_MORE if full else ["pow0"]) + (TR if full else ["pow1/2", "exp"])
        for ms in itertools.product(mods2, repeat=2):
            if sum(map(is_tr, ms)) > 1:
                continue
            if any(map(is_tr, ms)) and (k + count_controls(ms) > (3 if not slow else 2) or (slow and k + count_controls(ms) > 1 and ms[-1] == "exp")):
                continue
            if k + count_controls(ms) > (4 if full else 3):
                continue
            yield {"base": b, "mods": list(ms)}
    deep = [["X"], ["T"], ["SX"], ["Z"], ["RX", 1], ["custom", "int1"], ["RZ", -2.5]] + ([["H"], ["ISWAP"], ["RX", "pi/3"], ["S"], ["custom", "rat1"]] if full else [])
    for b in deep:
        for ms in itertools.product(["dag", "c1", "pow2", "pow-1", "pow1/2"] + (["c2", "exp", "pow3"] if full else []), repeat=3):
            if sum(map(is_tr, ms)) > 1 or G.arity(b) + count_controls(ms) > 3:
                continue
            if not full and any(map(is_tr, ms)) and b[0] not in ("Z", "T"):
                continue
            yield {"base": b, "mods": list(ms)}
    # exp and fractional powers stack freely on diagonal gates
    for b in (["Z"], ["T"], ["S"], ["CZ"]) if not full else (["Z"], ["T"], ["S"], ["CZ"], ["I"], ["PHASE", "pi/3"], ["ZZ", 3.0], ["CPHASE", "pi/4"]):
        for ms in itertools.product(["dag", "pow1/2", "pow1/4", "pow2", "c1"], repeat=3):
            if sum(map(is_tr, ms)) > 1 and G.arity(b) + count_controls(ms) <= 3:
                yield {"base": b, "mods": list(ms)}
    for b in (["S"], ["T"], ["RZ", -2.5], ["CZ"], ["PHASE", "pi/3"]):
        for L in (2, 3) if not full else (2, 3, 4):
            for ms in itertools.product(["exp", "dag", "c1", "pow2"], repeat=L):
                if 2 <= ms.count("exp") <= 3 and G.arity(b) + count_controls(ms) <= 3:
                    yield {"base": b, "mods": list(ms)}
    # many controls
    for b in (["X"], ["S"], ["RX", 1], ["GPi", 0.4], ["custom", "p1", 0.3, 0.4], ["ISWAP"], ["XY", 0.5]):
        for ms in (["c3"], ["c4"], ["c5"], ["dag", "c4"], ["c4", "dag"], ["c2", "c3"], ["c1", "c1", "c1"], ["c3", "c1"], ["pow-1", "c4"],
                   ["c4", "pow2"], ["c1", "dag", "c3"], ["c3", "dag", "c1"]):
            if G.arity(b) + count_controls(ms) <= 6:
                yield {"base": b, "mods": ms}
    # gates on three and four qubits, up to eight qubits in all; many controls on a small gate
    for b in (["custom", "g3"], ["custom", "u3c"], ["custom", "p3", 0.3, 0.4, 1.1], ["custom", "g4"], ["custom", "u4"], ["custom", "g2"], ["XX", 0.5]):
        for ms in (["dag"], ["pow2"], ["pow-1"], ["c1"], ["c2"], ["c3"], ["c4"], ["c5"], ["c2", "c2"], ["c1", "dag", "c3"], ["dag", "c4"], ["c1", "c1"], ["c3", "c1"],
                   ["dag", "dag"], ["c1", "dag"], ["pow2", "c1"], ["dag", "c1", "c1"]):
            if G.arity(b) + count_controls(ms) <= (7 if tier == "quick" else 8) and not ("pow-1" in ms and b[1] == "g4"):
                yield {"base": b, "mods": ms}
    for b in (["X"], ["T"], ["GPi", 0.4]):
        for ms in (["c6"], ["c7"], ["c4", "c3"], ["dag", "c6"], ["c3", "dag", "c3"]):
            yield {"base": b, "mods": ms}


def sym_cases(tier):
    depth = 3 if tier == "quick" else 4
    for b in SYM_BASES:
        for d in range(1, depth + 1):
            if d == 3 and tier == "quick" and b[0] not in ("RX", "GPi", "custom", "Delay"):
                continue
            for ms in itertools.product(SYM_MODS, repeat=d):
                if G.arity(b) + count_controls(ms) <= (4 if tier == "quick" else 5):
                    yield {"base": b, "mods": list(ms)}


# ---------------------------------------------------------------- replace_params commutes
def replace_cases(tier):
    news = [0.7, -1.3, 0.0, "pi/5", 2]
    for b in SYM_BASES + [["RX", 0.5], ["U3", 0.1, 0.2, 0.3], ["MS", 0.1, 0.2], ["GPi", 0.4], ["GPi2", 0.4], ["custom", "p1", 0.1, 0.2], ["custom", "p2", 0.1, 0.2]]:
        k = G.NPARAMS.get(b[0]) or 2
        numeric = not any(isinstance(x, str) for x in b[1 if b[0] != "custom" else 2:])
        mods = ["dag", "c1", "c2"] + (["pow2", "pow1/2", "pow-1", "exp"] if numeric else [])
        for d in (1, 2, 3):
            for ms in itertools.product(mods, repeat=d):
                if G.arity(b) + count_controls(ms) > 6:
                    continue
                for new in [news[i : i + 1] * k for i in range(3)] + [(news * 2)[1 : 1 + k], (["a", "b", "theta"])[:k]]:
                    if not numeric or not any(isinstance(x, str) and x != "pi/5" for x in new):
                        yield {"base": b, "mods": list(ms), "new": new}


def run_replace(case, ctx):
    spec = nest(case["base"], case["mods"])
    ps = tuple(G.param(p) for p in case["new"])
    g = G.gate(spec)
    h = g.replace_params(ps)
    want = G.gate(with_params(spec, case["new"]))
    ctx.step()
    check(type(h) is type(want) and h == want, f"{g}.replace_params({ps}) = {h}, expected {want}", "replace")
    check(same_params(h.params, ps), f"{g}.replace_params({ps}): params {h.params}", "replace")
    check(h.num_qubits == want.num_qubits, f"{g}.replace_params: num_qubits", "replace")
    check(structure(h) == structure(want), f"{g}.replace_params({ps}): {structure(h)} instead of {structure(want)}", "replace")
    check(str(g) == str(G.gate(spec)), "replace_params changed the gate", "mutation")
    ctx.state(str(h))
    if len(case["mods"]) == 1 and not any(map(is_tr, case["mods"])) and h.num_qubits <= 3:
        ctx.step()
        check(ref.close(gate_num(h), gate_num(want)), f"{g}.replace_params({ps}): matrix", "replace")


def structure(g):
    t = type(g).__name__
    extra = (getattr(g, "num_control_qubits", None), getattr(g, "exponent", None))
    return (t, extra, structure(g.wrapped_gate) if hasattr(g, "wrapped_gate") else g.name)


# ---------------------------------------------------------------- refused modifiers
def refuse_cases(tier):
    for b in SYM_BASES:
        for ms in ([], ["dag"], ["c1"]):
            for m in ("exp", "pow2", "pow1/2"):
                yield {"base": b, "mods": ms, "last": m}
    for b in (["X"], ["RX", 0.5], ["custom", "int1"]):
        for k in (0, -1):
            yield {"base": b, "mods": [], "last": f"c{k}"}


def run_refuse(case, ctx):
    """Modifiers that cannot be represented must say so, not produce a gate that means something else."""
    inner = G.gate(nest(case["base"], case["mods"]))
    try:
        g = apply_mod(inner, case["last"])
        H = gate_num(g)
    except Exception as e:
        ctx.step()
        ctx.outcome("refused " + type(e).__name__)
        return
    M = gate_num(inner)
    if case["last"] in ("c0",):
        check(ref.close(H, M), "c0 is something else than the gate", "controlled")
    elif case["last"] == "c-1":
        check(False, f"{inner} accepts -1 controls", "controlled")
    else:
        expected_relation(case["last"], M, H, f"{inner} modified by {case['last']}", nest(case["base"], case["mods"]))


# ---------------------------------------------------------------- stacked exp / fractional powers
STACKED = [
    {"base": ["X"], "mods": ["exp", "exp"]},
    {"base": ["X"], "mods": ["exp", "pow1/2"]},
    {"base": ["CNOT"], "mods": ["exp", "exp"]},
    {"base": ["CNOT"], "mods": ["exp", "pow1/2"]},
    {"base": ["SWAP"], "mods": ["exp", "exp"]},
    {"base": ["RX", 1], "mods": ["pow1/2", "pow1/2"]},
    {"base": ["RX", 1], "mods": ["pow1/2", "exp"]},
    {"base": ["RX", 0.5], "mods": ["exp", "pow1/2"]},
    {"base": ["RH", 0.5], "mods": ["pow1/4", "pow1/2"]},
    {"base": ["custom", "u2"], "mods": ["pow1/2"]},
    {"base": ["custom", "u2"], "mods": ["exp"]},
]


def _stop(_s, _f):
    raise CaseTimeout()


def run_stacked(case, ctx):
    old = signal.signal(signal.SIGALRM, _stop)
    signal.alarm(8)
    try:
        run_nest(case, ctx)
    except Violation:
        raise
    except CaseTimeout:
        raise Violation("matrix not available within 8 s", "no-answer") from None
    except Exception as e:
        raise Violation(f"matrix not available: {type(e).__name__}: {e}", "no-answer") from e
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


FAMILIES = [
    Family("numeric", nest_cases, run_nest, "46 numeric gates; every modifier; every pair of modifiers; every triple on 7 (12) gates; <= 3 (4) qubits; 3- and 4-qubit gates and up to 7 controls"),
    Family("symbolic", sym_cases, run_nest, "21 symbolic gates x every nest of up to 3 (4) of dagger, 1-3 controls"),
    Family("replace", replace_cases, run_replace, "replace_params of every nest of up to 3 modifiers with 5 parameter rows"),
    Family("refused", refuse_cases, run_refuse, "power/exp of symbolic gates, non-positive control counts"),
    Family("stacked", lambda tier: STACKED, run_stacked, "11 cases where sympy's Jordan form gives no answer"),
]

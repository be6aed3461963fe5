"""C12: a wavefunction object is normalised after every operation on it."""
import io
import itertools
import math
import os
import pathlib
import shutil
import tempfile

import numpy as np
import sympy
from sympy import Matrix, Symbol, sqrt

from orquestra.quantum.wavefunction import (
    Wavefunction,
    flip_amplitudes,
    flip_wavefunction,
    load_wavefunction,
    save_wavefunction,
)

from . import ref
from .core import Family, check

ASSUMPTIONS = [
    "a vector is called normalised within 1e-6 and not normalised beyond 1e-4 of a unit sum (the library tolerates "
    "about 1e-5); vectors in between, and symbolic vectors whose numeric part is within 1e-6 of 1, may go either way",
    "symbolic entries are compared by value at two fixed assignments of their symbols",
    "assignments other than a number or expression at an integer position (slices, index lists, a symbol into a numeric "
    "wavefunction) may be refused, but never with an effect",
    "a binding map binds no symbol to an expression of another bound symbol",
]
A, B, C = Symbol("a"), Symbol("b"), Symbol("c")
ENVS = [{A: 0.31, B: -0.57, C: 0.23}, {A: -1.1 + 0.4j, B: 0.05j, C: 2.0}]
VAL = {
    "0": 0, "1": 1, "h": 0.5, "-h": -0.5, "ih": 0.5j, "i": 1j, "r": 1 / math.sqrt(2), "-ir": -1j / math.sqrt(2),
    "s": sqrt(2) / 2, "six": 0.6, "eight": 0.8, "big": 1.5, "m1": -1.0, "S1": sympy.Integer(1), "Sh": sympy.Rational(1, 2),
    "SI": sympy.I, "a": A, "b": B, "a/2": A / 2, "ab": A + B, "ea": sympy.exp(sympy.I * A) / 2, "nan": float("nan"),
    "np": np.float64(0.5), "npc": np.complex128(0.5j), "inf": float("inf"), "tiny": 1e-9, "2a": 2 * A, "q": 0.1,
    "c": C,
}


def is_num(x):
    return not isinstance(x, sympy.Basic) or not x.free_symbols


def cval(x):
    return complex(x.evalf()) if isinstance(x, sympy.Basic) else complex(x)


def verdict(vec):
    """True must be accepted, False must be refused, None either."""
    n = len(vec)
    if n == 0 or n & (n - 1):
        return False
    tot = sum(abs(cval(x)) ** 2 for x in vec if is_num(x))
    if any(not is_num(x) for x in vec):
        if math.isnan(tot) or tot > 1 + 1e-6:
            return False
        return None if tot > 1 - 1e-6 else True
    if math.isnan(tot) or abs(tot - 1) > 1e-4:
        return False
    return True if abs(tot - 1) < 1e-6 else None


def free(vec):
    return set().union(*[x.free_symbols for x in vec if isinstance(x, sympy.Basic)]) if vec else set()


def at(x, env):
    if isinstance(x, sympy.Basic):
        return ref.cnum(x, {s: env[s] for s in x.free_symbols})
    return complex(x)


def compare(wf, vec, what, ctx):
    """The object shows exactly the model's entries, in every public view."""
    n = len(vec)
    check(len(wf) == n, f"{what}: length {len(wf)}, expected {n}", "length")
    check(wf.n_qubits == int(math.log2(n)), f"{what}: n_qubits {wf.n_qubits}", "n-qubits")
    check(set(wf.free_symbols) == free(vec), f"{what}: free symbols {wf.free_symbols}, expected {free(vec)}", "free-symbols")
    amps = wf.amplitudes
    check(isinstance(amps, np.ndarray) and amps.shape == (n,), f"{what}: amplitudes {amps!r}", "amplitudes-shape")
    items = list(wf)
    check(len(items) == n, f"{what}: iteration gives {items}", "iter")
    for env in ENVS if free(vec) else ENVS[:1]:
        for i in range(n):
            want = at(vec[i], env)
            for view, x in (("amplitudes", amps[i]), ("iteration", items[i]), ("indexing", wf[i])):
                got = at(x, env)
                ok = abs(got - want) <= 1e-9 or (math.isnan(abs(want)) and math.isnan(abs(got)))
                check(ok, f"{what}: entry {i} through {view} is {x}, expected {vec[i]}", "content")
    if not free(vec):
        p = np.asarray(wf.get_probabilities())
        check(p.shape == (n,), f"{what}: probabilities of shape {p.shape}", "prob-shape")
        pp = [float(x) for x in p]
        check(abs(sum(pp) - 1) <= 1e-4, f"{what}: probabilities {pp} sum to {sum(pp)}", "prob-sum")
        for i in range(n):
            check(abs(pp[i] - abs(cval(vec[i])) ** 2) <= 1e-9, f"{what}: probability {i} is {pp[i]}", "prob")
        check(verdict(vec) is not False, f"{what}: holds a vector that is not normalised", "norm")
    else:
        check(verdict(vec) is not False, f"{what}: numeric entries exceed probability one", "norm")
    ctx.state(tuple((round(at(x, ENVS[0]).real, 6) + 0.0, round(at(x, ENVS[0]).imag, 6) + 0.0) if not math.isnan(abs(at(x, ENVS[0]))) else "nan" for x in vec), tuple(sorted(map(str, free(vec)))))
    ctx.step()


def view(wf):
    """What a rejected operation must leave exactly as it was."""
    return (type(getattr(wf, "_amplitude_vector", wf.amplitudes)), str(wf), [str(x) for x in wf], str(wf.free_symbols), wf.amplitudes.shape)


FORMS = ["list", "tuple", "array", "object", "column", "row", "matrix", "rowmatrix"]


def present(vec, form):
    if form == "list":
        return list(vec)
    if form == "tuple":
        return tuple(vec)
    if form == "array":
        return np.array([complex(cval(x)) for x in vec]) if not free(vec) else np.array(vec, dtype=object)
    if form == "object":
        return np.array(vec, dtype=object)
    if form == "column":
        return present(vec, "array").reshape(-1, 1)
    if form == "row":
        return present(vec, "array").reshape(1, -1)
    if form == "matrix":
        return Matrix(len(vec), 1, list(vec))
    if form == "rowmatrix":
        return Matrix(1, len(vec), list(vec))


def run_construct(case, ctx):
    vec = [VAL[k] for k in case["v"]]
    form = case["form"]
    want = verdict(vec)
    src = present(vec, form)
    try:
        wf = Wavefunction(src)
    except Exception as e:
        ctx.step()
        ctx.outcome(f"refused:{type(e).__name__}")
        check(want is not True, f"{form} {vec} refused: {type(e).__name__}: {e}", "refused")
        if want is False:
            check(isinstance(e, ValueError), f"{form} {vec}: {type(e).__name__} instead of ValueError: {e}", "error-type")
        return
    ctx.step()
    ctx.outcome("accepted")
    check(want is not False, f"{form} {vec} accepted: {wf}", "accepted")
    compare(wf, vec, f"new from {form} {vec}", ctx)


def cases_construct(tier):
    nums = ["0", "1", "h", "-h", "ih", "r", "six", "eight", "i"]
    syms = ["a", "ab", "s", "Sh", "SI"]
    for k in (0, 1, 3, 5, 6, 7):
        for form in FORMS:
            if k == 0 and form in ("rowmatrix", "matrix"):
                continue
            yield {"v": ["1"] + ["0"] * (k - 1) if k else [], "form": form}
            if k > 1:
                yield {"v": ["a"] + ["0"] * (k - 1), "form": form}
    for v in itertools.product(nums + ["big", "nan", "inf", "S1", "s"], repeat=1):
        for form in FORMS:
            yield {"v": list(v), "form": form}
    for v in itertools.product(nums + syms + ["big", "nan", "ea", "tiny"], repeat=2):
        for form in FORMS:
            yield {"v": list(v), "form": form}
    base = ["0", "h", "-h", "ih", "r", "1"]
    for v in itertools.product(base, repeat=4):
        yield {"v": list(v), "form": "list"}
        if v[0] == "h":
            for form in FORMS[1:]:
                yield {"v": list(v), "form": form}
    for v in itertools.product(["a", "0", "h", "s", "eight", "b"], repeat=4):
        if "a" in v or "b" in v or "s" in v:
            yield {"v": list(v), "form": "list"}
            if v[1] == "h" or tier != "quick":
                yield {"v": list(v), "form": "matrix"}
    if tier != "quick":
        for v in itertools.product(["0", "h", "-ir", "a"], repeat=8):
            if sum(x != "0" for x in v) <= 5:
                yield {"v": list(v), "form": "list"}


# --------------------------------------------------------------------- histories
INIT = [
    (["1", "0"], "list"), (["h", "h", "ih", "-h"], "list"), (["a", "h", "b", "h"], "list"), (["a", "b"], "list"),
    (["r", "-ir"], "column"), (["a", "0", "six", "a/2"], "matrix"), (["s", "s"], "matrix"), (["ea", "h"], "list"),
    (["1"], "list"), (["a"], "list"), (["0", "0", "0", "0", "0", "0", "r", "-ir"], "array"), (["ab", "2a", "0", "h"], "object"),
    (["h", "h", "h", "h"], "rowmatrix"),
]
OPS = (
    [["set", i, v] for i in (0, 1, -1) for v in ("0", "1", "h", "-ir", "a", "b", "nan", "six", "Sh")]
    + [["set", 2, "eight"], ["set", 3, "ih"], ["set", 9, "h"], ["set", 0, "npc"], ["set", 1, "big"], ["set", 0, "none"]]
    + [["slice", [0, 2], ["1", "1"]], ["slice", [0, 2], ["0", "1"]], ["slice", [0, 2], ["r", "r"]], ["slice", [1, 3], ["h"]],
       ["slice", [None, None], "big"], ["slice", [0, 2], ["h", "a"]], ["slice", [0, 2], ["h", "h", "h"]]]
    + [["fancy", [0, 1], ["0", "1"]], ["fancy", [0, 1], ["1", "1"]], ["fancy", [-1], ["h"]]]
    + [["bind", {"a": "h"}], ["bind", {"a": "big"}], ["bind", {"b": "h"}], ["bind", {"a": "h", "b": "h"}], ["bind", {"a": "c"}],
       ["bind", {"a": "six", "b": "eight"}], ["bind", {"c": "h"}], ["bind", {}], ["bind", {"a": "ih", "c": "1"}],
       ["bind", {"b": "c", "a": "-h"}], ["bind", {"a": "r"}], ["bind", {"b": "-ir"}], ["bind", {"a": "0", "b": "1"}],
       ["bindstr", {"a": "h", "b": "1"}], ["bind", {"a": "s"}], ["bind", {"a": "nan"}]]
)


def apply_op(wf, vec, op, ctx):
    """One transition on the object and the model. Returns (wf, vec)."""
    kind = op[0]
    before = view(wf)
    n = len(vec)
    if kind in ("bind", "bindstr"):
        m = {Symbol(k): VAL[v] for k, v in op[1].items()}
        new = [
            x.subs({s: v for s, v in m.items() if s in x.free_symbols}, simultaneous=True)
            if isinstance(x, sympy.Basic) and any(s in x.free_symbols for s in m)
            else x
            for x in vec
        ]
        given = {k: VAL[v] for k, v in op[1].items()} if kind == "bindstr" else dict(m)
        keep = dict(given)
        want = verdict(new)
        try:
            res = wf.bind(given)
        except Exception as e:
            ctx.outcome(f"bind refused:{type(e).__name__}")
            check(want is not True, f"bind {op[1]} of {vec} refused: {type(e).__name__}: {e}", "bind-refused")
            check(view(wf) == before, f"rejected bind {op[1]} changed {before[1]} into {wf}", "bind-not-atomic")
            compare(wf, vec, f"after a rejected bind {op[1]}", ctx)
            return wf, vec
        ctx.outcome("bind accepted")
        check(want is not False, f"bind {op[1]} of {vec} accepted: {res}", "bind-accepted")
        check(view(wf) == before, f"bind {op[1]} changed the receiver {before[1]} into {wf}", "bind-mutates")
        check(list(given) == list(keep), "bind changed its map", "bind-map")
        compare(wf, vec, f"receiver of bind {op[1]}", ctx)
        compare(res, new, f"result of bind {op[1]}", ctx)
        return res, new
    new = list(vec)
    strict = False
    if kind == "set":
        i = op[1]
        v = None if op[2] == "none" else VAL[op[2]]
        if -n <= i < n and v is not None:
            new[i] = v
            want = verdict(new)
            # a number at an integer position, or anything into a vector that still has symbols
            strict = is_num(v) or bool(free(vec))
        else:
            want, strict = False, True
        idx = i
    elif kind == "slice":
        idx = slice(*op[1])
        v = [VAL[x] for x in op[2]] if isinstance(op[2], list) else VAL[op[2]]
        cells = list(range(n))[idx]
        vs = v if isinstance(v, list) else [v] * len(cells)
        if len(vs) == 1:
            vs = vs * len(cells)
        if len(vs) == len(cells):
            for c, x in zip(cells, vs):
                new[c] = x
            want = verdict(new)
        else:
            want = False
    else:
        idx = list(op[1])
        v = [VAL[x] for x in op[2]]
        if all(-n <= i < n for i in idx):
            for i, x in zip(idx, v):
                new[i] = x
            want = verdict(new)
        else:
            want = False
    try:
        wf[idx] = v
    except Exception as e:
        ctx.outcome(f"assignment refused:{type(e).__name__}")
        check(not (strict and want is True), f"wf[{idx}]={v} on {vec} refused: {type(e).__name__}: {e}", "set-refused")
        check(view(wf) == before, f"rejected wf[{idx}]={v} changed {before[1]} into {wf}", "set-not-atomic")
        compare(wf, vec, f"after a rejected wf[{idx}]={v}", ctx)
        return wf, vec
    ctx.outcome("assignment accepted")
    check(want is not False, f"wf[{idx}]={v} on {vec} accepted: {wf}", "set-accepted")
    compare(wf, new, f"after wf[{idx}]={v} on {vec}", ctx)
    return wf, new


def run_history(case, ctx):
    names, form = INIT[case["init"]]
    vec = [VAL[k] for k in names]
    wf = Wavefunction(present(vec, form))
    compare(wf, vec, "initial object", ctx)
    for k in case["ops"]:
        wf, vec = apply_op(wf, vec, OPS[k], ctx)
    # a full read-out at the end
    f = flip_wavefunction(wf) if verdict(vec) is not None else None
    if f is not None:
        n = int(math.log2(len(vec)))
        compare(f, [vec[rev(i, n)] for i in range(len(vec))], "flipped at the end", ctx)
        compare(wf, vec, "receiver of flip_wavefunction", ctx)


def cases_history(tier):
    for init in range(len(INIT)):
        for k in range(len(OPS)):
            yield {"init": init, "ops": [k]}
    small = range(len(INIT)) if tier != "quick" else (0, 1, 2, 3, 4, 5, 7, 8, 12)
    for init in small:
        for ops in itertools.product(range(len(OPS)), repeat=2):
            yield {"init": init, "ops": list(ops)}
    # depth 3 (4): binds and assignments that can be accepted, over the symbolic starts
    core = [i for i, o in enumerate(OPS) if o in (
        ["set", 0, "h"], ["set", 1, "h"], ["set", 0, "a"], ["set", -1, "b"], ["set", 0, "1"], ["set", -1, "-ir"], ["set", 1, "0"],
        ["bind", {"a": "h"}], ["bind", {"b": "h"}], ["bind", {"a": "c"}], ["bind", {"a": "r"}], ["bind", {"b": "-ir"}],
        ["slice", [0, 2], ["r", "r"]], ["fancy", [0, 1], ["0", "1"]])]
    for init in (1, 2, 3, 7) if tier == "quick" else (1, 2, 3, 5, 7, 11):
        for ops in itertools.product(core, repeat=3):
            yield {"init": init, "ops": list(ops)}
    if tier != "quick":
        for init in (2, 3):
            for ops in itertools.product(core, repeat=4):
                yield {"init": init, "ops": list(ops)}
        for init in (2, 3, 5):
            for ops in itertools.product(range(len(OPS)), repeat=3):
                yield {"init": init, "ops": list(ops)}


# --------------------------------------------------------------------- near the unit sum
NEAR = [s * d for d in (1e-9, 1e-8, 1e-7, 2e-4, 5e-4, 1e-3, 2e-3, 5e-3, 1e-2, 0.1) for s in (1, -1)] + [0.0]
NEAR_BASE = {
    "one": [1.0], "two": [1.0, 0.0], "i": [0.0, 1j], "pair": [0.6, -0.8j], "four": [0.5, 0.5j, -0.5, 0.5],
    "eight": [math.sqrt(i + 1) / 6 * (1j) ** i for i in range(8)], "many": [0.125 * (-1) ** i for i in range(64)],
}


def near_vector(base, d, how):
    """base with its sum of squares moved by d: every entry rescaled, or the largest entry alone."""
    v = list(NEAR_BASE[base])
    if how == "scale":
        return [x * math.sqrt(1 + d) for x in v]
    i = max(range(len(v)), key=lambda j: abs(v[j]))
    w = abs(v[i]) ** 2
    if w + d < 0:
        return None
    v[i] = v[i] / abs(v[i]) * math.sqrt(w + d)
    return v


def run_near(case, ctx):
    base, d, how, via = case["base"], case["d"], case["how"], case["via"]
    vec = near_vector(base, d, how)
    good = list(NEAR_BASE[base])
    if vec is None:
        return
    wf, acts = None, []
    if via in FORMS:
        acts = [(lambda: Wavefunction(present(vec, via)), None)]
    elif via == "set":
        wf = Wavefunction(good)
        i = max(range(len(vec)), key=lambda j: abs(good[j]))
        acts = [(lambda: (wf.__setitem__(i, vec[i]), wf)[1], good)]
    elif via == "slice":
        wf = Wavefunction(good)
        acts = [(lambda: (wf.__setitem__(slice(None), vec), wf)[1], good)]
    elif via == "bind":
        syms = [Symbol(f"q{i}") for i in range(len(vec))]
        for i, s in enumerate(syms):
            for env in ENVS:
                env[s] = 0.1 * i - 0.2j
        wf = Wavefunction(syms)
        acts = [(lambda: wf.bind(dict(zip(syms, vec))), syms)]
    elif via == "bind-last":
        j = len(vec) - 1
        part = list(vec)
        part[j] = Symbol("a")
        if sum(abs(x) ** 2 for x in part[:j]) > 1 - 1e-6:
            return
        wf = Wavefunction(part)
        acts = [(lambda: wf.bind({Symbol("a"): vec[j]}), part)]
    else:  # symbolic vector whose numbers alone add up to 1 + d
        vec = vec + [Symbol("a")] + [0] * (len(vec) - 1)
        acts = [(lambda: Wavefunction(vec), None)]
    for act, old in acts:
        want = verdict(vec)
        before = view(wf) if wf is not None else None
        ctx.step()
        try:
            res = act()
        except Exception as e:
            ctx.outcome(f"refused:{type(e).__name__}")
            check(want is not True, f"{via} of {vec} (unit sum off by {d}) refused: {type(e).__name__}: {e}", "refused")
            check(isinstance(e, ValueError), f"{via} {vec}: {type(e).__name__} instead of ValueError: {e}", "error-type")
            if wf is not None:
                check(view(wf) == before, f"rejected {via} of {vec} changed the object into {wf}", "set-not-atomic")
                compare(wf, old, f"after a rejected {via}", ctx)
            continue
        ctx.outcome("accepted")
        check(want is not False, f"{via} of {vec} (unit sum off by {d}) accepted: {res}", "accepted")
        compare(res, vec, f"{via} {vec}", ctx)


def cases_near(tier):
    for base in NEAR_BASE:
        for d in NEAR:
            for how in ("scale", "one"):
                for via in FORMS + ["set", "slice", "bind", "bind-last", "symbolic"]:
                    if via == "set" and how == "scale":
                        continue
                    yield {"base": base, "d": d, "how": how, "via": via}


# --------------------------------------------------------------------- Dicke states
def run_dicke(case, ctx):
    n, k = case["n"], case["k"]
    if not 0 <= k <= n:
        try:
            wf = Wavefunction.dicke_state(n, k)
        except Exception:
            ctx.step()
            return
        check(False, f"dicke_state({n},{k}) returned {wf}", "dicke-accepted")
    wf = Wavefunction.dicke_state(n, k)
    ctx.step()
    check(len(wf) == 2**n and wf.n_qubits == n, f"dicke_state({n},{k}) has {len(wf)} amplitudes", "dicke-size")
    want = np.array([1.0 if bin(i).count("1") == k else 0.0 for i in range(2**n)]) / math.comb(n, k)
    p = wf.get_probabilities()
    bad = np.nonzero(np.abs(p - want) > 1e-12)[0]
    check(len(bad) == 0, f"dicke_state({n},{k}): probability of state {bad[:1]} is {p[bad[:1]]}, expected {want[bad[:1]]}", "dicke")
    ctx.state(n, k)


def cases_dicke(tier):
    for n in range(1, 11 if tier == "quick" else 17):
        for k in range(-1, n + 2):
            yield {"n": n, "k": k}


# --------------------------------------------------------------------- reversal, persistence
def rev(i, n):
    return int(format(i, f"0{n}b")[::-1], 2) if n else i


def vector(spec):
    n, k = spec["n"], spec["k"]
    d = 2**n
    if spec.get("basis") is not None:
        v = np.zeros(d, dtype=complex)
        v[spec["basis"]] = [1, -1, 1j, -1j][k % 4]
        return v
    v = np.array([((i * (k + 3) + k) % 13 - 6) + 1j * (((i * i + 2 * k) % 7) - 3) for i in range(d)], dtype=complex)
    if k % 3 == 1:
        v = v.real + 0j
    if k % 3 == 2:
        v = 1j * v.imag
    if not np.any(v):
        v[0] = 1
    return v / np.linalg.norm(v)


def run_flip(case, ctx):
    v = vector(case)
    n = case["n"]
    want = np.array([v[rev(i, n)] for i in range(2**n)])
    for form in ("array", "list"):
        got = np.asarray(flip_amplitudes(v if form == "array" else list(v)))
        check(got.shape == want.shape and np.array_equal(got, want), f"flip_amplitudes of {v}: {got}", "flip")
        check(np.array_equal(flip_amplitudes(got), v), f"flipping twice: {flip_amplitudes(got)}", "flip-involution")
        ctx.step(2)
    wf = Wavefunction(v)
    f = flip_wavefunction(wf)
    check(np.allclose(f.amplitudes, want, atol=1e-12), f"flip_wavefunction: {f}", "flip-wavefunction")
    check(np.allclose(flip_wavefunction(f).amplitudes, v, atol=1e-12), "flip_wavefunction twice", "flip-involution")
    check(np.array_equal(wf.amplitudes, v), "receiver changed", "mutated")
    got[:] = 0  # the result belongs to the caller
    check(np.array_equal(flip_amplitudes(v), want), "flip_amplitudes after its earlier result was overwritten", "flip-cache")
    ctx.step(3)
    probs = wf.get_probabilities()
    check(np.allclose(probs, np.abs(v) ** 2, atol=1e-12) and abs(sum(probs) - 1) < 1e-9, f"probabilities {probs}", "prob")
    tmp = tempfile.mkdtemp(prefix="mc-")
    try:
        p = os.path.join(tmp, "wf.json")
        for target in (p, pathlib.Path(p), p.encode()):
            save_wavefunction(wf, target)
            for how in (p, pathlib.Path(p), p.encode(), "text", "binary", "io"):
                if how == "text":
                    with open(p) as fh:
                        back = load_wavefunction(fh)
                elif how == "binary":
                    with open(p, "rb") as fh:
                        back = load_wavefunction(fh)
                elif how == "io":
                    with open(p) as fh:
                        back = load_wavefunction(io.StringIO(fh.read()))
                else:
                    back = load_wavefunction(how)
                check(back.amplitudes.shape == v.shape and np.array_equal(back.amplitudes, v),
                      f"loaded {back.amplitudes}, saved {v}", "save-load")
                check(back == wf, "loaded wavefunction does not compare equal", "save-load-eq")
                ctx.step()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.state(tuple(np.round(v, 9)))


def cases_flip(tier):
    for n in range(0, 6 if tier == "quick" else 9):
        for b in range(2**n):
            if n <= 5 or b % 7 == 0:
                yield {"n": n, "basis": b, "k": b}
        for k in range(12 if n < 6 else 6):
            yield {"n": n, "k": k}
    for n in (6, 7, 8, 9, 10, 11) if tier == "quick" else range(9, 15):
        for k in range(3):
            yield {"n": n, "k": k}
        for b in (1, 2**n - 2, 2 ** (n - 1) + 2):
            yield {"n": n, "basis": b, "k": b}


FAMILIES = [
    Family("histories", cases_history, run_history,
           "13 initial objects x every sequence of <=2 (3) operations out of 59 (assignments, slices, index lists, bindings), "
           "every sequence of 3 (4) out of 14 on the symbolic starts"),
    Family("construct", cases_construct, run_construct,
           "every vector of 1, 2, 4 (8) entries over the value alphabets x 8 container forms, and every wrong length up to 7"),
    Family("near-unit", cases_near, run_near, "7 vectors of 1..64 entries with the sum of squares off by 21 amounts (1e-9 to 0.1, both signs), scaled or in one entry, through 8 container forms, assignment, slices, bindings and symbolic vectors"),
    Family("dicke", cases_dicke, run_dicke, "every n<=10 (16), every Hamming weight -1..n+1"),
    Family("flip-save", cases_flip, run_flip, "every basis state of <=5 (8) qubits, 12 dense vectors per size; three dense vectors and three basis states on 6..11 (14)"),
]

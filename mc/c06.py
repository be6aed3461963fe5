"""C06: binding parameters commutes with evaluating the circuit.

Reference: a gate's matrix after binding must equal the matrix of a fresh gate of the same
kind built from the *numbers* its parameters take when the map (applied simultaneously,
values may mention symbols) is followed by a final numeric assignment of every symbol that
is left; and the numbers must equal what substituting into the symbolically evaluated matrix
gives."""
import itertools

import numpy as np
import sympy

from orquestra.quantum import circuits as oc
from orquestra.quantum.runners.symbolic_simulator import SymbolicSimulator

from . import gates as G
from . import ref
from .core import Family, check

ASSUMPTIONS = ["bound values are numbers or expressions; complex ones are bound to gates only (a phase has to be real)"]
S = sympy.Symbol
A, B, C_, D = S("a"), S("b"), S("c"), S("d")
# the symbols left over take these values in the end; all distinct, nothing special
FINAL = {"q0": 0.21, "q1": -0.9, "q2": 1.6, "q3": 0.45, "q4": -2.2, "a": 0.37, "b": -1.21, "c": 2.3, "d": 0.83, "x": 1.9, "y": -0.6, "z": 0.15, "theta": 0.71, "phi": -0.4,
         "lam": 1.3, "x[0]": 0.9, "x[1]": -1.7, "unused": 5.0, "theta_2": 0.2, "theta_10": 1.1, "beta": 0.55, "gamma": -0.95,
         "t": 0.45, "I": 0.65}


def val(v):
    """map value spec -> object"""
    return G.param(v)


def mk_map(m):
    return {S(k): val(v) for k, v in m.items()}


def final_of(expr):
    return complex(sympy.sympify(expr).xreplace({S(k): sympy.Float(v, 30) for k, v in FINAL.items()}).evalf(20)) if isinstance(expr, sympy.Basic) else complex(expr)


def bound_value(param, m):
    """Number the parameter takes: the map first (simultaneously), then the final assignment."""
    if not isinstance(param, sympy.Basic):
        return param
    env = {}
    for s in param.free_symbols:
        v = m.get(s, s)
        z = final_of(v)
        env[s] = sympy.Float(z.real, 30) + (sympy.I * sympy.Float(z.imag, 30) if z.imag else 0)
    r = param.xreplace(env)
    r = complex(r.evalf(20))
    return r.real if abs(r.imag) < 1e-15 else r


def left_symbols(param, m):
    """Symbols the bound parameter still depends on (for expressions that do not cancel)."""
    if not isinstance(param, sympy.Basic):
        return set()
    r = param.xreplace({s: sympy.Dummy() for s in ()})
    env = {s: sympy.sympify(m[s]) for s in param.free_symbols if s in m}
    tmp = {s: sympy.Dummy(str(s)) for s in env}
    r = param.xreplace(tmp).xreplace({tmp[s]: env[s] for s in env})
    return set(r.free_symbols)


def numeric_spec_params(spec, m, out=None):
    """The same spec with every parameter replaced by its number."""
    k = spec[0]
    if k in ("dag", "exp"):
        return [k, numeric_spec_params(spec[1], m)]
    if k in ("c", "pow"):
        return [k, spec[1], numeric_spec_params(spec[2], m)]
    if k == "custom":
        return [k, spec[1]] + [bound_value(G.param(p), m) for p in spec[2:]]
    return [k] + [bound_value(G.param(p), m) for p in spec[1:]]


def num_gate_matrix(spec, m):
    k = spec[0]
    s = numeric_spec_params(spec, m)
    s = _jsonable(s)
    return G.gate_matrix_spec(s)


def _jsonable(s):
    return [_jsonable(x) if isinstance(x, list) else ({"complex": [x.real, x.imag]} if isinstance(x, complex) else x) for x in s]


def spec_params(spec):
    k = spec[0]
    if k in ("dag", "exp"):
        return spec_params(spec[1])
    if k in ("c", "pow"):
        return spec_params(spec[2])
    return [G.param(p) for p in (spec[2:] if k == "custom" else spec[1:])]


def final_subs():
    return {S(k): v for k, v in FINAL.items()}


# ---------------------------------------------------------------- the alphabet
EXPRS = ["a", "b", 0.5, 3, "a+2*b", "a-b", "a*b", "2*a", "cos(a)+b", "a/3+pi", "a**2-c", "b-a+c", "sqrt(a**2)*b"]
MAPS = [
    {},
    {"a": 0.9}, {"b": 2}, {"a": 0.9, "b": -1.5}, {"b": -1.5, "a": 0.9},
    {"a": 0}, {"a": {"np": 0.25}}, {"a": {"srat": [1, 3]}}, {"a": "pi/4"}, {"a": {"npint": 2}},
    {"a": "b"}, {"a": "b", "b": "a"}, {"b": "a", "a": "b"}, {"a": "a+b"}, {"a": "2*a"}, {"a": "b", "b": 0.4},
    {"a": "b", "b": "c", "c": "a"}, {"a": "b+c", "b": "c-a", "c": 0.3}, {"a": "cos(b)", "b": "a*c"},
    {"a": "x+y", "b": "x-y"}, {"unused": 4}, {"unused": "a", "a": 0.2}, {"z": "a", "b": 1},
    {"a": 1.25, "b": "a"}, {"b": "a", "a": 1.25}, {"a": "c", "b": "c", "c": 0.6}, {"a": "$x[0]", "b": "$x[1]"},
    {"a": "-a", "b": "-b"}, {"c": 0.1}, {"a": 0.9, "b": -1.5, "c": 0.1}, {"b": "b/2", "c": "b"},
    # values a careless rounding would change
    {"a": 1.0000002, "b": -2.0000003, "c": 3e-7}, {"a": 0.1234567890123, "b": 1e6 + 0.123456789, "c": -1e-9},
]
GATES1 = ["RX", "RY", "RZ", "RH", "PHASE", "GPi", "GPi2", "CPHASE", "XX", "YY", "ZZ", "XY", "Delay"]


SMALL = ["a", "b", 0.5, "a+2*b", "a*b"]


def base_specs(tier):
    full = tier == "thorough"
    for g in GATES1:
        for e in EXPRS if g == "RX" or full else ["a+2*b", "a"]:
            yield [g, e]
    for g in ("MS", "p1", "p1r"):
        for e, f in itertools.product(EXPRS if full else SMALL, repeat=2):
            if not full and g == "MS" and e > f if isinstance(e, str) and isinstance(f, str) else False:
                continue
            yield [g, e, f] if g == "MS" else ["custom", g, e, f]
    for e, f in itertools.product(["$x[0]", "$x[1]", 0.5, "a*b"], repeat=2):
        yield ["custom", "px", e, f]
    for e, f in itertools.product(["theta", "phi", "theta+phi", "a", 0.5] if full else ["theta", "phi", "a"], repeat=2):
        yield ["custom", "p2", e, f]
    for e, f in itertools.product(["$beta", "$gamma", "a", 0.5] if full else ["$beta", "$gamma"], repeat=2):
        yield ["custom", "pbeta", e, f]
    if full:
        for ps in itertools.product(["a", "b", "a*b", 0.5, "b-c"], repeat=3):
            yield ["U3", *ps]
    else:
        for ps in (["a", "b", "c"], ["c", "a", "b"], ["b", 0.5, "a"], ["a", "a*b", 0.5]):
            yield ["U3", *ps]
    for g in ("X", "T", "SWAP", "ISWAP"):
        yield [g]
    yield ["custom", "int1"]
    yield ["custom", "u2"]


WRAPS = [[], ["dag"], ["c1"], ["c2"], ["dag", "c1"], ["c1", "dag"], ["dag", "dag"], ["c1", "c1"], ["dag", "c1", "dag", "c1"]]


def wrapped(spec, ws):
    for w in ws:
        spec = ["dag", spec] if w == "dag" else ["c", int(w[1:]), spec]
    return spec


def gate_cases(tier):
    specs = list(base_specs(tier))
    maps = MAPS
    for i, s in enumerate(specs):
        some = [[]] + ([WRAPS[1 + i % (len(WRAPS) - 1)]] if i % 2 else [])
        for ws in WRAPS if s in (["RX", "a-b"], ["GPi", "a"], ["T"], ["custom", "p1", "b", "a"]) or tier == "thorough" else some:
            yield {"gate": wrapped(s, ws), "maps": tier}


def relabel(m, names):
    """Rename the symbols of a map so that it hits the symbols a gate really has."""
    ren = dict(zip("abc", names))

    def r(v):
        return v
    return {ren.get(k, k): v for k, v in m.items()}


COMPLEX = [
    {"a": {"complex": [0.3, 0.2]}}, {"a": {"complex": [0.0, 1.0]}, "b": {"complex": [-0.5, 1.0]}, "c": 0.4}, {"a": "I/3"}, {"a": "b+2*I", "b": "1+I"},
    {"b": {"complex": [0.7, 0.0]}}, {"a": {"complex": [1e-3, -0.25]}, "b": "a", "c": {"complex": [0.0, -0.1]}},
]


def complex_cases(tier):
    specs = [s for s in base_specs(tier) if "sqrt" not in repr(s)]  # sympy itself mistakes the branch of sqrt(z**2)
    for i, s in enumerate(specs):
        for ws in ([],) if i % 4 and tier == "quick" else ([], WRAPS[1 + i % (len(WRAPS) - 1)]):
            yield {"gate": wrapped(s, ws), "maps": "complex"}


def maps_for(case):
    if case["maps"] == "complex":
        names = sorted({str(s) for p in spec_params(case["gate"]) if isinstance(p, sympy.Basic) for s in p.free_symbols})
        return [relabel(m, names) for m in COMPLEX]
    names = sorted({str(s) for p in spec_params(case["gate"]) if isinstance(p, sympy.Basic) for s in p.free_symbols})
    if not names or set(names) <= {"a", "b", "c"}:
        return MAPS
    # gates over other symbols: same maps, keys renamed; values keep a,b,c (foreign symbols) and
    # additionally permutations of the gate's own symbols
    out = [relabel(m, names) for m in MAPS]
    if len(names) > 1:
        out.append({names[0]: "$" + names[1], names[1]: "$" + names[0]})
        out.append({names[0]: "$" + names[1]})
        out.append({names[1]: "$" + names[0], names[0]: 0.3})
    return out


_symbolic = {}


def symbolic_matrix(spec):
    k = repr(spec)
    if k not in _symbolic:
        if len(_symbolic) > 64:
            _symbolic.clear()
        _symbolic[k] = G.gate(spec).matrix
    return _symbolic[k]


def run_gate(case, ctx):
    spec = case["gate"]
    g = G.gate(spec)
    params = spec_params(spec)
    check(same_params(g.params, params), f"{g}: params {g.params} are not {params}", "params")
    check_free(g, params, "gate")
    ops = [g(*range(g.num_qubits))]
    maps = maps_for(case)
    for m in maps[::3] if spec_base(spec)[0] == "U3" and ctx_quick(case) else maps:
        mm = mk_map(m)
        mm_copy = dict(mm)
        h = g.bind(mm)
        ctx.step()
        check(mm == mm_copy, "bind changed the map", "mutation")
        check(same_params(g.params, params), "bind changed the gate", "mutation")
        check(h.num_qubits == g.num_qubits, f"{g}.bind({m}): num_qubits changed", "bind")
        check(len(h.params) == len(params), f"{g}.bind({m}): {len(h.params)} params", "bind")
        for p, q in zip(params, h.params):
            if not isinstance(p, sympy.Basic):
                check(type(p) is type(q) and p == q, f"{g}.bind({m}): number {p!r} became {q!r}", "untouched")
            else:
                if not any(s in mm for s in p.free_symbols):
                    check(p == q, f"{g}.bind({m}): {p} became {q} though none of its symbols is bound", "untouched")
                want, got = complex(bound_value(p, mm)), final_of(q)
                check(abs(want - got) <= 1e-9 * max(1, abs(want)), f"{g}.bind({m}): parameter {p} became {q}", "bind-param")
        want_free = set().union(*[left_symbols(p, mm) for p in params]) if params else set()
        check_free(h, h.params, "bound gate")
        check(set(h.free_symbols) == want_free, f"{g}.bind({m}): free symbols {h.free_symbols}, expected {want_free}", "free-symbols")
        want = num_gate_matrix(spec, mm)
        got = ref.num(h.matrix, final_subs())
        ctx.step()
        ctx.state(ref.digest(want))
        check(ref.close(got, want), f"{g}.bind({m}) = {h}: matrix differs from the gate built with the values", "bind-matrix")
        if not any(isinstance(v, sympy.Basic) for v in mm.values()):
            # substitution into the symbolically evaluated matrix
            sub = ref.num(symbolic_matrix(spec), {**final_subs(), **mm})
            ctx.step()
            check(ref.close(sub, want), f"{g}: substituting {m} into the symbolic matrix differs", "subs-matrix")
        o = ops[0].bind(mm)
        ctx.step()
        check(o.qubit_indices == ops[0].qubit_indices and o.gate == h, f"operation bind differs from gate bind for {g} and {m}", "operation")
        ctx.outcome(f"free={len(want_free)}")


def spec_base(spec):
    while spec[0] in ("dag", "c", "pow", "exp"):
        spec = spec[-1]
    return spec


def ctx_quick(case):
    return case["maps"] == "quick"


def same_params(ps, qs):
    return len(ps) == len(qs) and all(type(p) is type(q) and p == q for p, q in zip(ps, qs))


def check_free(obj, params, what):
    want = set()
    for p in params:
        if isinstance(p, sympy.Basic):
            want |= p.free_symbols
    got = list(obj.free_symbols)
    check(len(got) == len(set(got)) and set(got) == want, f"{what} {obj}: free_symbols {got}, parameters depend on {want}", "free-symbols")


# ---------------------------------------------------------------- symbols with similar names
NAMES = ["a", "A", "a1", "a_1", "a_10", "a_2", "a01", "x[1]", "x[10]", "x[2]", "theta", "Theta", "ab", "b", "B", "beta", "a ", "\u03b8", "-a",
         "phi_0", "I", "E"]


def name_cases(tier):
    for x, y in itertools.permutations(NAMES, 2):
        yield {"x": x, "y": y}


def run_names(case, ctx):
    x, y = S(case["x"]), S(case["y"])
    gates = [oc.RX(x + 2 * y), oc.MS(y, x), oc.U3(x, 0.5, y * x).controlled(1), oc.MS(x * y, 0.3).dagger]
    ops = [g(*range(g.num_qubits)) for g in gates] + [oc.MultiPhaseOperation((y, 2 * x, 0, x))]
    for o in ops:
        check_free(o, o.params, "operation")
        if hasattr(o, "gate"):
            check_free(o.gate, o.params, "gate")
        for m in ({x: 0.25}, {y: 0.75}, {x: y}, {x: y, y: x}, {y: 0.75, x: 0.25}):
            b = o.bind(m)
            ctx.step()
            for p, q in zip(o.params, b.params):
                want = subst(p, m)
                check(sympy.simplify(sympy.sympify(q) - sympy.sympify(want)) == 0, f"{o}.bind({m}): {p} became {q}", "bind-param")
            check_free(b, b.params, "bound operation")
    c = oc.Circuit([oc.RX(y)(0), oc.RY(x + y)(1), oc.RZ(0.5 * x)(0)])
    check(list(c.free_symbols) == [y, x], f"{c}: free symbols {c.free_symbols}, first appearance is {[y, x]}", "free-order")
    check(list(c.bind({y: 1}).free_symbols) == [x], f"free symbols of {c} with {y} bound", "free-symbols")
    check(list(c.bind({x: 1}).free_symbols) == [y], f"free symbols of {c} with {x} bound", "free-symbols")
    ctx.step(3)
    ctx.state(case["x"], case["y"])


# ---------------------------------------------------------------- deep nests
DEEP_BASES = [["RX", "a"], ["CPHASE", "a*b"], ["MS", "b", "a"], ["U3", "a", "a+2*b", "c"], ["custom", "p3", "a", "b", "c"],
              ["custom", "p5", "b", "a", 0.5, "c", "a*b"], ["custom", "p5", "$q0", "$q1", "$q2", "$q3", "$q4"],
              ["custom", "p5", "$q4", "$q3", "$q2", "$q0", "$q1"], ["T"],
              ["U3", "a+2*b", "c*d", "d-a"]]
DEEP_MAPS = [
    {"a": 0.9, "b": -1.5, "c": 0.1}, {"a": 0.9}, {"a": "b", "b": "a"}, {"b": "a+c", "c": 2}, {"unused": 1},
    {"q0": "$q1", "q1": "$q2", "q2": "$q3", "q3": "$q4", "q4": "$q0"}, {"q0": 0.3, "q1": 1.1, "q2": -0.4, "q3": 2.5, "q4": 0.7},
    {"q4": "$q0", "q0": 0.25}, {"q2": "$q1", "q1": "a"},
    {"q0": 0.7, "q1": 0.3, "q2": 0.7, "q3": 0.1, "q4": 0.3}, {"q3": 2, "q4": "a", "q0": 2, "q2": "a", "q1": 1},
    {"a": 3, "b": 1, "c": 2, "d": 1}, {"d": 0.5, "c": 0.5, "b": "a", "a": 0.25},
]


def deep_cases(tier):
    tokens = ["dag", "c1", "c2", "c3", "c5"]
    for b in DEEP_BASES:
        for L in (0, 1, 2, 3) if tier == "quick" else (0, 1, 2, 3, 4):
            for ws in itertools.product(tokens, repeat=L):
                if L == 3 and tier == "quick" and b not in (DEEP_BASES[0], DEEP_BASES[6]):
                    continue
                yield {"gate": b, "wraps": list(ws)}


def subst(param, mm):
    if not isinstance(param, sympy.Basic):
        return param
    tmp = {s: sympy.Dummy() for s in param.free_symbols if s in mm}
    return param.xreplace(tmp).xreplace({d: sympy.sympify(mm[s]) for s, d in tmp.items()})


def controls_of(g):
    n = 0
    while hasattr(g, "wrapped_gate"):
        n += getattr(g, "num_control_qubits", 0)
        g = g.wrapped_gate
    return n


def run_deep(case, ctx):
    spec = wrapped(case["gate"], case["wraps"])
    g = G.gate(spec)
    want_controls = sum(int(w[1:]) for w in case["wraps"] if w != "dag")
    check(controls_of(g) == want_controls, f"{spec}: {controls_of(g)} controls, expected {want_controls}", "bind")
    params = spec_params(spec)
    own = {s for p in params if isinstance(p, sympy.Basic) for s in p.free_symbols}
    for m in DEEP_MAPS:
        mm = mk_map(m)
        if not any(s in own for s in mm) and "unused" not in m:
            continue
        new = [subst(p, mm) for p in params]
        for h in (g.bind(mm), g.replace_params(tuple(new)), g(*range(g.num_qubits)).bind(mm).gate):
            ctx.step()
            check(h.num_qubits == g.num_qubits, f"{g} under {m}: {g.num_qubits} qubits became {h.num_qubits}", "bind")
            check(controls_of(h) == want_controls, f"{g} under {m}: {want_controls} controls became {controls_of(h)}", "bind")
            check(len(h.params) == len(new), f"{g} under {m}: {len(h.params)} params", "bind")
            for p, q in zip(new, h.params):
                check(abs(final_of(p) - final_of(q)) < 1e-9, f"{g} under {m}: parameter {q}, expected {p}", "bind-param")
                check(getattr(sympy.sympify(q), "free_symbols") == getattr(sympy.sympify(p), "free_symbols"), f"{g} under {m}: {q}, expected {p}", "free-symbols")
            check_free(h, h.params, "bound gate")
            if g.num_qubits <= (4 if len(case["wraps"]) <= 1 else 3):
                got = ref.num(h.matrix, final_subs())
                ctx.step()
                want = num_gate_matrix(spec, mm)
                ctx.state(ref.digest(want))
                check(ref.close(got, want), f"{g} under {m} = {h}: matrix differs from the gate built with the values", "bind-matrix")
            else:
                ctx.state(str(h))
    if g.num_qubits <= 9:
        qs = list(range(g.num_qubits))[::-1]
        c = oc.Circuit([g(*qs)], n_qubits=g.num_qubits + 2).bind(mk_map(DEEP_MAPS[0]))
        check(tuple(c.operations[0].qubit_indices) == tuple(qs) and c.n_qubits == g.num_qubits + 2, f"binding a circuit of {g}", "bind")


# ---------------------------------------------------------------- replace_params
def replace_cases(tier):
    news = [0.25, "a", "c", "a*b", "pi"]
    for s in base_specs(tier):
        k = len(s) - (2 if s[0] == "custom" else 1)
        if k == 3:
            combos = [(0.1, "a", "b"), ("b", "a", 0.3), ("c", "c", "c")]
        else:
            combos = list(itertools.product(news, repeat=k)) if tier == "thorough" else list(itertools.product(news[:3], repeat=k))
        if tier == "quick" and s[0] in ("MS", "custom") and (len(repr(s)) % 3):
            continue
        for ws in ([], ["dag"], ["c1"], ["dag", "c2", "dag"]):
            yield {"gate": wrapped(s, ws), "news": [list(c) for c in combos]}


def run_replace(case, ctx):
    g = G.gate(case["gate"])
    for new in case["news"]:
        ps = tuple(G.param(p) for p in new)
        h = g.replace_params(ps)
        want = G.gate(with_params(case["gate"], new))
        ctx.step()
        check(h == want and same_params(h.params, ps), f"{g}.replace_params({ps}) = {h}, expected {want}", "replace")
        o = g(*range(g.num_qubits)).replace_params(ps)
        check(o.gate == want and o.qubit_indices == tuple(range(g.num_qubits)), "operation replace_params differs", "replace")
        ctx.state(str(h))


def with_params(spec, new):
    k = spec[0]
    if k in ("dag", "exp"):
        return [k, with_params(spec[1], new)]
    if k in ("c", "pow"):
        return [k, spec[1], with_params(spec[2], new)]
    if k == "custom":
        return [k, spec[1]] + list(new)
    return [k] + list(new)


# ---------------------------------------------------------------- circuits
OPS = [
    [["RX", "a"], [0]],
    [["RZ", "a+2*b"], [1]],
    [["c", 1, ["RY", "b"]], [2, 0]],
    [["dag", ["U3", "c", "a", 0.5]], [1]],
    [["custom", "p1", "b", "a"], [0]],
    [["c", 1, ["dag", ["custom", "p1r", "a*b", "c"]]], [1, 2]],
    [["XX", "c-b"], [2, 1]],
    [["H"], [0]],
    [["RY", 0.7], [2]],
]
MP = ["mp", ["a", "b", 0.5, "a+b", "c", 0, "2*a", "b*c"]]
CMAPS = [
    {}, {"a": 0.9}, {"a": 0.9, "b": -1.5}, {"a": 0.9, "b": -1.5, "c": 0.1}, {"a": "b", "b": "a"}, {"a": "b+c", "b": "c-a", "c": 0.3},
    {"unused": 1, "c": 2}, {"c": "a"}, {"b": "a", "a": 1.25},
]


def circuit_cases(tier):
    L = 2 if tier == "quick" else 3
    for n in range(0, L + 1):
        for ops in itertools.product(OPS + [MP], repeat=n):
            yield {"n": None if any(o is MP for o in ops) or len(ops) % 2 else 4, "ops": list(ops)}
    if tier == "quick":
        for ops in itertools.product(OPS[1:5], repeat=3):
            yield {"n": None, "ops": list(ops)}


def op_params(o):
    return [G.param(p) for p in o[1]] if o[0] == "mp" else spec_params(o[0])


def ref_action(case, mm, state, n):
    for o in case["ops"]:
        if o[0] == "mp":
            th = np.array([complex(bound_value(G.param(p), mm)).real for p in o[1]])
            state = np.exp(1j * th) * state
        else:
            state = ref.apply(num_gate_matrix(o[0], mm), o[1], n, state)
    return state


def first_appearance(ops):
    out = []
    for o in ops:
        for s in o.free_symbols:
            if s not in out:
                out.append(s)
    return out


def check_circuit_free(c, param_lists):
    groups = [set().union(*[p.free_symbols for p in ps if isinstance(p, sympy.Basic)] or [set()]) for ps in param_lists]
    got = list(c.free_symbols)
    want = set().union(*groups) if groups else set()
    check(len(got) == len(set(got)) and set(got) == want, f"{c}: free symbols {got}, parameters depend on {want}", "free-symbols")
    # first appearance: symbols new in operation i come before those new in operation i+1
    pos, seen = 0, set()
    for gset in groups:
        new = gset - seen
        check(set(got[pos : pos + len(new)]) == new, f"{c}: free symbols {got} are not in first-appearance order", "free-order")
        pos += len(new)
        seen |= new


def run_circuit(case, ctx):
    c = G.circuit(case)
    n = c.n_qubits
    has_mp = any(o[0] == "mp" for o in case["ops"])
    check_circuit_free(c, [op_params(o) for o in case["ops"]])
    text = repr(c)
    sym_u = None
    for m in CMAPS:
        mm = mk_map(m)
        d = c.bind(mm)
        ctx.step()
        check(type(d) is type(c) and d.n_qubits == n, f"bind({m}): width {n} became {d.n_qubits}", "width")
        check(len(d.operations) == len(c.operations), "bind changed the number of operations", "bind")
        check(repr(c) == text, "bind changed the circuit", "mutation")
        check_circuit_free(d, [o.params for o in d.operations])
        want_free = set()
        for o in case["ops"]:
            for p in op_params(o):
                want_free |= left_symbols(p, mm)
        check(set(d.free_symbols) == want_free, f"bind({m}): free symbols {d.free_symbols}, expected {want_free}", "free-symbols")
        check((not d.free_symbols) == all(not isinstance(p, sympy.Basic) or not p.free_symbols for o in d.operations for p in o.params), "free symbols vs parameters", "free-symbols")
        for o, b in zip(c.operations, d.operations):
            check(type(o) is type(b) and tuple(o.qubit_indices) == tuple(b.qubit_indices), f"bind({m}): {o} became {b}", "bind")
            check(o.bind(mm) == b, "circuit bind differs from operation bind", "bind")
        if n == 0:
            continue
        psi = ref.generic_state(n)
        want = ref_action(case, mm, psi, n)
        e = d.bind(final_subs())  # values left get their final value
        check(not e.free_symbols, f"{e} still has free symbols {e.free_symbols}", "free-symbols")
        got = np.array(psi)
        for o in e.operations:
            got = ref.num(np.asarray(o.apply(got)).reshape(-1))
        ctx.step()
        ctx.state(ref.digest(want))
        check(ref.close(got, want), f"bind({m}) then the rest: action differs from evaluating with the values", "action")
        sim = SymbolicSimulator()
        w = ref.num(sim.get_wavefunction(e, psi).amplitudes)
        ctx.step()
        check(ref.close(w.reshape(-1), want), f"bind({m}): simulated state differs", "simulator")
        if not has_mp:
            u = ref.num(d.to_unitary(), final_subs())
            ctx.step()
            check(ref.close(u @ psi, want), f"bind({m}): to_unitary differs", "to-unitary")
            if len(case["ops"]) <= 2 and not any(isinstance(v, sympy.Basic) for v in mm.values()):
                if sym_u is None:
                    sym_u = c.to_unitary()
                v = ref.num(sym_u, {**final_subs(), **mm})
                check(ref.close(v, u), f"substituting {m} into the symbolic unitary differs from bind", "subs-unitary")
    ctx.outcome(f"ops={len(case['ops'])}")


# ---------------------------------------------------------------- partial binding
VALUES = {"a": 0.9, "b": -1.5, "c": 0.1, "unused": 3}


def partial_cases(tier):
    keys = list(VALUES)
    # every way to bind the keys in up to 4 ordered steps (ordered set partitions)
    def ordered_partitions(ks):
        if not ks:
            yield []
            return
        for r in range(1, len(ks) + 1):
            for first in itertools.combinations(ks, r):
                rest = [k for k in ks if k not in first]
                for tail in ordered_partitions(rest):
                    yield [list(first)] + tail
    circuits = [
        {"n": 4, "ops": OPS[:3]}, {"n": None, "ops": [OPS[3], OPS[4], OPS[5]]}, {"n": None, "ops": [MP, OPS[6]]},
        {"n": None, "ops": [OPS[8], OPS[7]]}, {"n": None, "ops": [["reset", 1], OPS[0]]},
    ]
    for ci, c in enumerate(circuits):
        for sub in range(1, 5):
            for ks in itertools.combinations(keys, sub):
                for parts in ordered_partitions(list(ks)):
                    for rev in (False, True):
                        yield {"circuit": c, "parts": [p[::-1] if rev else p for p in parts]}
        # symbol-valued steps chain: a -> b -> 0.3 equals the composed map
        for x, y in itertools.permutations(["a", "b", "c"], 2):
            yield {"circuit": c, "chain": [{x: y}, {y: 0.3}]}
            yield {"circuit": c, "chain": [{x: "%s+1" % y}, {y: "2*%s" % x}, {x: 0.7}]}


def compose(maps):
    """Simultaneous substitutions one after another as one map on a, b, c."""
    out = {s: s for s in (A, B, C_)}
    for m in maps:
        tmp = {s: sympy.Dummy() for s in m}
        out = {k: sympy.sympify(e).xreplace(tmp).xreplace({tmp[s]: sympy.sympify(v) for s, v in m.items()}) for k, e in out.items()}
    return out


def run_partial(case, ctx):
    c = G.circuit(case["circuit"])
    if "parts" in case:
        steps = [{S(k): VALUES[k] for k in part} for part in case["parts"]]
        once = {k: v for st in steps for k, v in st.items()}
    else:
        steps = [mk_map(m) for m in case["chain"]]
        once = compose(steps)
    d = c
    for st in steps:
        d = d.bind(st)
        ctx.step()
        check(d.n_qubits == c.n_qubits, "partial bind changed the width", "width")
        check(list(d.free_symbols) == first_appearance(d.operations), "free symbols order", "free-order")
    e = c.bind(once)
    for o, p, q in zip(c.operations, d.operations, e.operations):
        check(type(p) is type(o) and tuple(p.qubit_indices) == tuple(o.qubit_indices), f"{o} became {p}", "bind")
        check(len(p.params) == len(q.params) == len(o.params), "number of parameters changed", "bind")
        for orig, x, y in zip(o.params, p.params, q.params):
            fx, fy = final_of(x), final_of(y)
            check(abs(fx - fy) < 1e-9, f"binding in steps {steps}: {orig} became {x}, binding once: {y}", "partial")
            check(getattr(x, "free_symbols", set()) == getattr(y, "free_symbols", set()), f"steps {steps}: {x} vs {y}", "partial")
            if not isinstance(orig, sympy.Basic):
                check(type(x) is type(orig) and x == orig, f"number {orig!r} became {x!r}", "untouched")
    check(set(d.free_symbols) == set(e.free_symbols), "free symbols differ", "partial")
    ctx.state(repr(d))
    ctx.outcome(f"steps={len(steps)}")


# ---------------------------------------------------------------- refusals
REF_GATES = [
    ["pow", 2, ["RX", 0.5]], ["pow", 0.5, ["X"]], ["exp", ["RX", 0.5]], ["exp", ["X"]], ["c", 1, ["pow", 2, ["RX", 0.5]]],
    ["c", 1, ["exp", ["RX", 0.5]]], ["dag", ["exp", ["T"]]], ["dag", ["pow", 0.5, ["T"]]], ["pow", 2, ["exp", ["RX", 1]]],
    ["exp", ["pow", 2, ["RX", 1]]], ["pow", 2, ["c", 1, ["RX", 0.5]]], ["pow", 2, ["custom", "p1", 0.1, 0.2]], ["exp", ["custom", "int1"]],
    ["pow", 2, ["dag", ["T"]]], ["pow", 0.5, ["pow", 2, ["T"]]],
]
SYM_GATES = [["RX", "a"], ["U3", 0.1, "a", 0.2], ["dag", ["RX", "a"]], ["c", 1, ["RX", "a*b"]], ["custom", "p1", "a", 1]]


def refusal_cases(tier):
    for g in REF_GATES:
        for m in ({}, {"a": 1}, {"a": "b"}):
            yield {"gate": g, "map": m}
    for g in SYM_GATES:
        for k in ("pow", "exp"):
            yield {"symbolic": g, "modifier": k}


def run_refusal(case, ctx):
    if "symbolic" in case:
        g = G.gate(case["symbolic"])
        try:
            h = g.power(2) if case["modifier"] == "pow" else g.exp
        except Exception:
            ctx.outcome("modifier of a symbolic gate refused")
            return
        try:
            h.bind({A: 1})
        except NotImplementedError:
            ctx.outcome("bind refused")
            return
        check(False, f"{h}.bind returned a gate", "refusal")
    g = G.gate(case["gate"])
    mm = mk_map(case["map"])
    for what, f in (("gate", lambda: g.bind(mm)), ("operation", lambda: g(*range(g.num_qubits)).bind(mm)),
                    ("circuit", lambda: oc.Circuit([oc.X(0), g(*range(g.num_qubits))]).bind(mm))):
        try:
            h = f()
        except NotImplementedError:
            ctx.step()
            ctx.outcome("bind refused")
            ctx.state(what, str(g))
            continue
        check(False, f"bind of {what} {g} returned {h} instead of refusing", "refusal")


# ---------------------------------------------------------------- non-gate operations
def other_cases(tier):
    ps = ["a", "b", 0.5, "a+2*b", "a*c", 1, "-a", "pi"]
    for k in (1, 2):
        for combo in itertools.product(ps, repeat=2**k):
            if k == 2 and tier == "quick" and (ps.index(combo[0]) + 2 * ps.index(combo[1]) + 3 * ps.index(combo[2]) + ps.index(combo[3])) % 16:
                continue
            yield {"mp": list(combo)}
    for q in range(4):
        yield {"reset": q}


def run_other(case, ctx):
    if "reset" in case:
        o = oc.ResetOperation(case["reset"])
        check(list(o.free_symbols) == [] and o.params == (), "reset has parameters", "free-symbols")
        for m in MAPS[:6]:
            p = o.bind(mk_map(m))
            ctx.step()
            check(type(p) is oc.ResetOperation and tuple(p.qubit_indices) == (case["reset"],) and p.params == (), f"reset became {p}", "bind")
            c = oc.Circuit([o, oc.RX(A)(0)], n_qubits=5).bind(mk_map(m))
            check(tuple(c.operations[0].qubit_indices) == (case["reset"],) and c.n_qubits == 5, "circuit with reset", "bind")
        q = o.replace_params(())
        check(tuple(q.qubit_indices) == (case["reset"],), "replace_params of reset", "replace")
        ctx.state("reset", case["reset"])
        return
    ps = tuple(G.param(p) for p in case["mp"])
    o = oc.MultiPhaseOperation(ps)
    check_free(o, ps, "multi-phase")
    n = len(ps).bit_length() - 1
    psi = ref.generic_state(n)
    for m in MAPS:
        mm = mk_map(m)
        b = o.bind(mm)
        ctx.step()
        check(type(b) is oc.MultiPhaseOperation and same_params(o.params, ps), "bind changed the operation", "mutation")
        for p, q in zip(ps, b.params):
            if not isinstance(p, sympy.Basic):
                check(type(p) is type(q) and p == q, f"number {p!r} became {q!r}", "untouched")
        check(set(b.free_symbols) == set().union(*[left_symbols(p, mm) for p in ps]), f"{o}.bind({m}): free symbols {b.free_symbols}", "free-symbols")
        e = b.bind(final_subs())
        want = np.exp(1j * np.array([complex(bound_value(p, mm)).real for p in ps])) * psi
        got = np.asarray(e.apply(psi), dtype=complex)
        ctx.step()
        ctx.state(ref.digest(want))
        check(ref.close(got, want), f"{o}.bind({m}): action differs", "action")


# ---------------------------------------------------------------- twins: operations easily taken for each other
RA, PA = S("a", real=True), S("a", positive=True)
TWIN_FINAL = {A: 0.37, RA: -1.21, PA: 2.3, B: 0.83}
TWIN_PARAMS = {"a": A, "ra": RA, "pa": PA, "a+ra": A + 2 * RA, "ra+a": 2 * A + RA, "pa*b": PA * B, "ra*b": RA * B, "a*b": A * B,
               "0.3": 0.3, "3/10": sympy.Rational(3, 10), "'0.3'": sympy.Float("0.3")}
TWIN_MAPS = [
    {}, {A: 0.25}, {RA: 0.75}, {PA: 1.5}, {A: 0.25, RA: 0.75}, {RA: 0.75, PA: 1.5, A: 0.25}, {A: RA, RA: A}, {A: PA, RA: PA},
    {A: RA, RA: PA, PA: A}, {PA: A, A: 0.4}, {B: RA, RA: 0.6}, {A: B, RA: B, PA: B},
]
TWIN_GATES = {
    "rx": lambda p: oc.RX(p)(0),
    "ry": lambda p: oc.RY(p)(0),
    "rx1": lambda p: oc.RX(p)(1),
    "crx": lambda p: oc.RX(p).controlled(1)(0, 1),
    "crz": lambda p: oc.RZ(p).controlled(1)(0, 1),
    "rcx": lambda p: oc.RX(p).controlled(1)(1, 0),
    "drx": lambda p: oc.GPi2(p).dagger(0),
    "dry": lambda p: oc.PHASE(p).dagger(0),
    "lp": lambda p: G.gate(["custom", "look_p", 0.5]).replace_params((p,))(0),
    "lq": lambda p: G.gate(["custom", "look_q", 0.5]).replace_params((p,))(0),
    "ms": lambda p: oc.MS(p, 0.3)(0, 1),
    "sm": lambda p: oc.MS(0.3, p)(0, 1),
    "mp": lambda p: oc.MultiPhaseOperation((p, 0, 0.5, 0.3)),
    "pm": lambda p: oc.MultiPhaseOperation((0, p, 0.3, 0.5)),
}


def twin_cases(tier):
    sym = ["a", "ra", "pa"]
    for g in TWIN_GATES:
        for ps in list(itertools.permutations(sym, 2)) + list(itertools.permutations(["a+ra", "ra+a"], 2)) + list(
                itertools.permutations(["pa*b", "ra*b", "a*b"], 2)) + [("0.3", "3/10"), ("3/10", "0.3"), ("0.3", "'0.3'"), ("a", "a")]:
            yield {"twins": [[g, ps[0]], [g, ps[1]]]}
        yield {"twins": [[g, "a"], [g, "ra"], [g, "pa"], [g, "a"]]}
    for g, h in itertools.permutations(TWIN_GATES, 2):
        yield {"twins": [[g, "a"], [h, "a"]]}
        if tier == "thorough":
            yield {"twins": [[g, "a"], [h, "ra"], [g, "ra"], [h, "a"]]}
    for n in (8, 12, 33) if tier == "quick" else (8, 12, 33, 100):
        for pat in ("up", "down", "pairs", "mixed"):
            yield {"long": n, "pattern": pat}


def number(param, m, final):
    p = subst(param, m)
    if not isinstance(p, sympy.Basic):
        return p
    p = complex(p.xreplace({s: sympy.Float(v, 30) for s, v in final.items()}).evalf(20))
    return p.real


def check_bound(c, d, m, final, maker):
    """d must be c with m substituted, operation by operation."""
    check(type(d) is type(c) and d.n_qubits == c.n_qubits and len(d.operations) == len(c.operations), f"bind({m}): shape changed", "bind")
    seen = []
    for i, (o, b) in enumerate(zip(c.operations, d.operations)):
        check(type(o) is type(b) and tuple(o.qubit_indices) == tuple(b.qubit_indices), f"bind({m}): {o} became {b}", "bind")
        check(len(o.params) == len(b.params), f"bind({m}): number of parameters of operation {i} changed", "bind")
        for p, q in zip(o.params, b.params):
            want = subst(p, m)
            if want is p or want == p:
                check(type(p) is type(q) and q == p, f"bind({m}): operation {i} {p!r} became {q!r}", "untouched")
            check(getattr(want, "free_symbols", set()) == getattr(q, "free_symbols", set()), f"bind({m}): operation {i} {p} became {q}", "free-symbols")
            x, y = number(p, m, final), number(q, {}, final)
            check(abs(complex(x) - complex(y)) <= 1e-12, f"bind({m}): operation {i}, {p} became {q}", "bind-param")
            for s in sorted(getattr(want, "free_symbols", ()), key=str):
                if s not in seen:
                    seen.append(s)
        ref_op = maker(i, tuple(number(p, m, final) for p in o.params))
        if hasattr(b, "gate"):
            want = ref.num(ref_op.gate.matrix)
            got = ref.num(b.gate.matrix, final)
            check(ref.close(got, want), f"bind({m}): operation {i} {b} has another matrix than {ref_op}", "bind-matrix")
        else:
            fin = b.bind(final)
            psi = ref.generic_state(2)
            check(ref.close(np.asarray(fin.apply(psi), dtype=complex), np.asarray(ref_op.apply(psi), dtype=complex)), f"bind({m}): {b} acts differently", "action")
    check(set(d.free_symbols) == set(seen) and len(d.free_symbols) == len(seen), f"bind({m}): free symbols {d.free_symbols}, expected {seen}", "free-symbols")


def run_twins(case, ctx):
    if "long" in case:
        n, pat = case["long"], case["pattern"]
        th = [S(f"theta_{i}") for i in range(n)]
        idx = {"up": list(range(n)), "down": list(range(n))[::-1], "pairs": [i // 2 for i in range(n)],
               "mixed": [(7 * i) % n for i in range(n)]}[pat]
        gates = [oc.RX, oc.RZ, oc.PHASE, oc.CPHASE, oc.XX]

        def make(i, p):
            g = gates[i % 5](p)
            return g(i % 3, (i + 1) % 3) if g.num_qubits == 2 else g(i % 3)
        c = oc.Circuit([make(i, th[k]) for i, k in enumerate(idx)])
        order = list(dict.fromkeys(th[k] for k in idx))
        check(list(c.free_symbols) == order, f"free symbols {c.free_symbols}, first appearance {order}", "free-order")
        final = {t: 0.1 + 0.37 * i for i, t in enumerate(th)}
        maps = [
            dict(zip(th, (0.5 + 0.01 * i for i in range(n)))), dict(zip(th[::-1], (0.5 + 0.01 * i for i in range(n)))),
            {t: 0.2 for t in th[::2]}, {t: 0.2 for t in th[1::2]}, {t: th[(i + 1) % n] for i, t in enumerate(th)},
            {t: th[n - 1 - i] for i, t in enumerate(th)}, {t: th[i] + th[(i + 1) % n] for i, t in enumerate(th)}, {th[-1]: 0.1}, {th[0]: 7},
        ]
        for m in maps:
            d = c.bind(m)
            check_bound(c, d, m, final, lambda i, ps: make(i, ps[0]))
            left = list(dict.fromkeys(s for o in d.operations for s in o.free_symbols))
            check(list(d.free_symbols) == left, f"free symbols {d.free_symbols}, first appearance {left}", "free-order")
            ctx.step(n)
        # one symbol at a time, from the front and from the back
        for keys in (order, order[::-1]):
            d = c
            for j, k in enumerate(keys):
                d = d.bind({k: 0.5 + j})
                check(list(d.free_symbols) == [s for s in order if s not in keys[: j + 1]], f"after {j + 1} of {n} symbols: {d.free_symbols}", "free-order")
                ctx.step()
            check([o.params for o in d.operations] == [o.params for o in c.bind({k: 0.5 + j for j, k in enumerate(keys)}).operations], "one by one differs from at once", "partial")
        ctx.state(n, pat)
        return
    mk = [TWIN_GATES[g] for g, _ in case["twins"]]
    c = oc.Circuit([f(TWIN_PARAMS[p]) for f, (_, p) in zip(mk, case["twins"])], n_qubits=2)
    text = repr(c)

    def maker(i, ps):
        o = c.operations[i]
        if isinstance(o, oc.MultiPhaseOperation):
            return oc.MultiPhaseOperation(ps)
        v = ps[1] if case["twins"][i][0] == "sm" else ps[0]
        return mk[i](v)
    same = len({g for g, _ in case["twins"]}) == 1
    for m in TWIN_MAPS if same else TWIN_MAPS[1:8:3]:
        d = c.bind(m)
        ctx.step()
        check_bound(c, d, m, TWIN_FINAL, maker)
        e = d.bind(TWIN_FINAL)
        check_bound(d, e, TWIN_FINAL, TWIN_FINAL, lambda i, ps, m=m: maker(i, tuple(number(p, m, TWIN_FINAL) for p in c.operations[i].params)))
        ctx.step()
        psi = ref.generic_state(2)
        want = psi
        for i, o in enumerate(c.operations):
            r = maker(i, tuple(number(p, m, TWIN_FINAL) for p in o.params))
            want = np.asarray(r.apply(want), dtype=complex).reshape(-1) if not hasattr(r, "gate") else ref.apply(ref.num(r.gate.matrix), r.qubit_indices, 2, want)
        got = ref.num(SymbolicSimulator().get_wavefunction(e, psi).amplitudes).reshape(-1)
        ctx.step()
        check(ref.close(got, want), f"bind({m}): simulated state differs", "simulator")
        ctx.state(ref.digest(want))
    check(repr(c) == text, "bind changed the circuit", "mutation")
    ctx.outcome(f"ops={len(mk)}")


# ---------------------------------------------------------------- many symbols in one operation and in one map
WIDE_NAMES = ("s{}", "x[{}]", "w_{}")


def wide_cases(tier):
    sizes = (2, 3, 4, 5, 8, 9, 16, 17) if tier == "quick" else tuple(range(2, 34)) + (48, 64, 65)
    for k in sizes:
        for kind in ("sum", "product", "u3", "phases", "custom") if k < 6 else ("sum", "product", "phases", "custom"):
            yield {"k": k, "kind": kind, "names": k % 3}


def run_wide(case, ctx):
    k, kind = case["k"], case["kind"]
    sy = [S(WIDE_NAMES[case["names"]].format(i)) for i in range(k)]
    final = {t: 0.13 + 0.29 * i - 0.07 * (i % 3) for i, t in enumerate(sy)}
    lin = sum(((i % 5 + 1) * t for i, t in enumerate(sy)), sympy.Integer(0))
    prod = sympy.cos(sy[0] * sy[-1]) + sum((sy[i] * sy[i + 1] for i in range(k - 1)), sympy.Integer(0))
    if kind == "sum":
        ops = [(oc.RX, (lin,), (0,)), (oc.RZ(0.1).replace_params, None, None), (oc.CPHASE, (lin - 3 * sy[0],), (1, 0))]
    elif kind == "product":
        ops = [(oc.RY, (prod,), (1,)), (oc.XX, (prod + lin,), (0, 1))]
    elif kind == "u3":
        ops = [(oc.U3, (sy[k // 2], sy[0], sy[-1]), (1,)), (oc.MS, (sy[-1] - lin, sy[0]), (1, 0))]
    elif kind == "phases":
        m = max(2, (k - 1).bit_length())
        par = [sy[i % k] if i % 3 else sy[i % k] - sy[(i + 1) % k] / 2 for i in range(2**m)]
        ops = [(lambda *p: oc.MultiPhaseOperation(p), tuple(par), None), (lambda *p: oc.MultiPhaseOperation(p), tuple(par[::-1]), None)]
    else:
        mat = sympy.diag(sympy.exp(sympy.I * lin), 1, sympy.cos(sy[0]) + sympy.I * sympy.sin(sy[0]), sympy.exp(2 * sympy.I * sy[-1]))
        dfn = oc.CustomGateDefinition("wide", mat, tuple(sy))
        ops = [(dfn, tuple(sy), (1, 0)), (dfn, tuple(sy[1:] + sy[:1]), (0, 1)), (dfn, tuple(a + 2 * b for a, b in zip(sy, sy[::-1])), (1, 0))]
    ops = [o for o in ops if o[1] is not None]

    def make(i, ps):
        f, _, qs = ops[i]
        g = f(*ps)
        return g if qs is None else g(*qs)
    c = oc.Circuit([make(i, p) for i, (_, p, _) in enumerate(ops)], n_qubits=max(2, (k - 1).bit_length()) if kind == "phases" else 2)
    for o in c.operations:
        want = {s for p in o.params for s in getattr(p, "free_symbols", ())}
        check(set(o.free_symbols) == want and len(o.free_symbols) == len(want), f"{o}: free symbols {o.free_symbols}, used {want}", "free-symbols")
    vals = [0.5 + 0.03 * i * (-1) ** i for i in range(k)]
    maps = [dict(zip(sy, vals)), dict(zip(sy[::-1], vals)), {t: sy[(i + 1) % k] for i, t in enumerate(sy)},
            {t: sy[k - 1 - i] for i, t in enumerate(sy)}, {t: sy[(i + 1) % k] + i for i, t in enumerate(sy)},
            dict(zip(sy[: k // 2], vals)), dict(zip(sy[k // 2:], vals)), {t: 2 * sy[0] for t in sy[1:]},
            {t: (sy[(i + 1) % k] if i % 2 else vals[i]) for i, t in enumerate(sy)}, {S("none"): 1, **{t: t + sy[0] for t in sy}}]
    for m in maps:
        d = c.bind(m)
        ctx.step()
        if kind == "phases":
            check_phases(c, d, m, final)
        else:
            check_bound(c, d, m, final, make)
        ctx.state(kind, str(d)[:2000])
    # in steps of one, two, three and all symbols
    full = c.bind(maps[0])
    check(not list(full.free_symbols), f"all symbols bound, left {full.free_symbols}", "free-symbols")
    for step in (1, 2, 3):
        d = c
        for j in range(0, k, step):
            d = d.bind(dict(list(maps[0].items())[j: j + step]))
            ctx.step()
            check(set(d.free_symbols) == set(sy[j + step:]) & set(c.free_symbols), f"bound {j + step} of {k} symbols, free {d.free_symbols}", "free-symbols")
        for o, b in zip(full.operations, d.operations):
            for p, q in zip(o.params, b.params):
                check(abs(complex(p) - complex(q)) <= 1e-9, f"in steps of {step}: {q} instead of {p}", "partial")


def check_phases(c, d, m, final):
    for o, b in zip(c.operations, d.operations):
        check(len(o.params) == len(b.params), "number of phases changed", "bind")
        used = set()
        for p, q in zip(o.params, b.params):
            want = subst(p, m)
            used |= getattr(want, "free_symbols", set())
            check(getattr(want, "free_symbols", set()) == getattr(q, "free_symbols", set()), f"phase {p} became {q}", "free-symbols")
            check(abs(complex(number(p, m, final)) - complex(number(q, {}, final))) <= 1e-9, f"phase {p} became {q}", "bind-param")
        check(set(b.free_symbols) == used and len(b.free_symbols) == len(used), f"free symbols {b.free_symbols}, used {used}", "free-symbols")
        e = b.bind(final)
        n = (len(o.params) - 1).bit_length()
        psi = ref.generic_state(n)
        want = np.exp(1j * np.array([float(number(p, m, final)) for p in o.params])) * psi
        check(ref.close(np.asarray(e.apply(psi), dtype=complex).reshape(-1), want), f"{b} acts differently", "action")


FAMILIES = [
    Family("gates", gate_cases, run_gate, "every parametric gate kind x expression pool x modifier nests x 31 maps (numbers, renamings, swaps, cycles, expressions, extra symbols)"),
    Family("complex", complex_cases, run_gate, "every parametric gate kind x expression pool, bare and under one modifier nest, x 6 maps with complex values"),
    Family("names", name_cases, run_names, "every ordered pair of 22 symbol names (case, digits, indices, prefixes) in 5 operations x 5 maps"),
    Family("deep", deep_cases, run_deep, "10 gates (to 5 parameters, 3 qubits) x every nest of <=2, 3 on two gates (4 on all) of dagger, 1, 2, 3, 5 controls x 13 maps (cycles of 5 symbols); bind and replace_params"),
    Family("replace", replace_cases, run_replace, "replace_params of every gate kind and modifier nest with every tuple of 5 values"),
    Family("non-gate", other_cases, run_other, "multi-phase on 1 and 2 qubits over 8 parameter shapes x 31 maps; reset"),
    Family("circuits", circuit_cases, run_circuit, "every circuit of up to 2 (3) operations over 10, 3 over 6, x 9 maps"),
    Family("partial", partial_cases, run_partial, "every ordered partition of 4 symbols into binding steps, both key orders; symbol-valued chains"),
    Family("twins", twin_cases, run_twins, "operations easily taken for each other: 14 operation kinds x parameters that print alike (symbols of one name and different assumptions, a float and the equal rational), x 12 maps; every ordered pair of kinds x 3 maps; circuits of 8 to 33 (100) operations over as many symbols"),
    Family("wide", wide_cases, run_wide, "operations over 2..17 (65) symbols: sums, products, several parameters, phases, custom gates of as many parameters; maps of as many keys (numbers, cycles, reversals, shifts, halves); in steps"),
    Family("refusals", refusal_cases, run_refusal, "power and exponential, bare and nested, at gate, operation and circuit level"),
]

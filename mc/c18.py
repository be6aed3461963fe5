"""C18: decomposing a circuit never changes what it does."""
import itertools
import math

import numpy as np
import sympy

from orquestra.quantum.circuits import Circuit, GateOperation, builtin_gate_by_name
from orquestra.quantum.decompositions import (
    U3GateToRotation,
    decompose_operations,
    decompose_orquestra_circuit,
)

from . import gates as G
from . import ref
from .core import Family, check, short

ASSUMPTIONS = [
    "the action of an operation is its gate's own matrix placed on its qubits by the reference model (C01, C02 check those)",
    "symbolic angles are checked by binding them before and after the decomposition",
]
ANG = [0, math.pi, -math.pi / 2, 0.37, -1.9, 7.5, 2 * math.pi, 4.1]
_MATS = {}


def op_matrix(op, n, subs=None):
    if not isinstance(op, GateOperation):
        th = [ref.cnum(sympy.sympify(p), subs) for p in op.params]
        return np.diag(np.exp(1j * np.array(th)))
    if "look" in repr(op.gate) or is_own(op.gate):  # gates that print alike
        return ref.embed(G.gate_matrix(op.gate, subs), op.qubit_indices, n)
    key = (repr(op.gate), sympy.srepr(tuple(op.params)), str(subs))
    if key not in _MATS:
        if len(_MATS) > 30000:
            _MATS.clear()
        _MATS[key] = G.gate_matrix(op.gate, subs)
    return ref.embed(_MATS[key], op.qubit_indices, n)


def is_own(g):
    while hasattr(g, "wrapped_gate"):
        g = g.wrapped_gate
    return g.name in ("U3", "RZ") and not (g.params and g == builtin_gate_by_name(g.name)(*g.params))


def action(ops, n, subs=None):
    u = np.eye(2**n, dtype=complex)
    for op in ops:
        u = op_matrix(op, n, subs) @ u
    return u


def same_up_to_phase(a, b, tol=1e-7):
    if a.shape != b.shape:
        return False
    i = np.unravel_index(np.argmax(np.abs(b)), b.shape)
    if abs(a[i]) < 1e-9:
        return False
    ph = a[i] / b[i]
    return abs(abs(ph) - 1) < tol and bool(np.all(np.abs(a - ph * b) < tol))


def is_u3(spec):
    """[controls] when the op spec is a U3 that the rule replaces, else None."""
    if spec[0] in ("mp", "reset"):
        return None
    g = spec[0]
    k = 0
    while g[0] == "c":
        k += g[1]
        g = g[2]
    return (k, g) if g[0] == "U3" else None


def without_relative_phase(cspec, n, subs=None):
    """What the circuit would do if every controlled U3 lost the phase (phi + lambda) / 2
    between its active and inactive control states (known finding C18-controlled-phase)."""
    u = np.eye(2**n, dtype=complex)
    touched = False
    for o in cspec["ops"]:
        m = G.ref_op_matrix(o, n, subs)
        hit = is_u3(o)
        if hit and hit[0]:
            k, g = hit
            a = sum(ref.cnum(sympy.sympify(G.param(p)), subs) for p in g[2:4]) / 2
            d = np.eye(2 ** (k + 1), dtype=complex)
            d[-1, -1] = d[-2, -2] = np.exp(-1j * a)
            m = ref.embed(d, o[1], n) @ m
            touched |= abs(np.exp(-1j * a) - 1) > 1e-9
        u = m @ u
    return u, touched


def run_circuit(case, ctx):
    spec = case["c"]
    subs = {k: v for k, v in case.get("subs", {}).items()}
    smap = {G.S(k): v for k, v in subs.items()}
    circ = G.circuit(spec)
    n = G.width(spec)
    before = (list(circ.operations), circ.n_qubits, repr(circ))
    kept = [o for o, s in zip(circ.operations, spec["ops"]) if not is_u3(s)]
    out = decompose_orquestra_circuit(circ, [U3GateToRotation()])
    ctx.step()
    what = f"{circ} -> {out}"
    check(isinstance(out, Circuit), f"{out!r}", "type")
    check(out.n_qubits == n, f"{what}: {out.n_qubits} qubits instead of {n}", "width")
    check((list(circ.operations), circ.n_qubits, repr(circ)) == before, f"the source circuit became {circ}", "source")
    # the operations no rule applies to survive, in order; no U3 is left
    i = 0
    for o in out.operations:
        if i < len(kept) and o == kept[i]:
            i += 1
    check(i == len(kept), f"{what}: {kept[i] if i < len(kept) else ''} is missing or out of order", "kept")
    if len(kept) == len(spec["ops"]):
        check(out == circ and list(out.operations) == before[0], f"{what}: no rule applies", "unchanged")
    for o in out.operations:
        if isinstance(o, GateOperation):
            g = o.gate
            while hasattr(g, "num_control_qubits"):
                g = g.wrapped_gate
            check(g.name != "U3" or is_own(g), f"{what}: {o} was not replaced", "not-replaced")
    direct = decompose_operations(circ.operations, (U3GateToRotation(),))
    check(list(direct) == list(out.operations), f"decompose_operations gives {direct}, decompose_orquestra_circuit {out}", "operations")
    ctx.step()
    again = decompose_orquestra_circuit(out, [U3GateToRotation()])
    check(again == out, f"{what}, decomposed again: {again}", "idempotent")
    twice = decompose_orquestra_circuit(circ, [U3GateToRotation(), U3GateToRotation()])
    check(twice == out, f"{what}, with the rule listed twice: {twice}", "idempotent")
    empty = decompose_orquestra_circuit(circ, [])
    check(empty == circ and list(empty.operations) == before[0] and empty.n_qubits == n, f"{circ} with no rules: {empty}", "no-rules")
    ctx.step(3)
    if any(s[0] == "reset" for s in spec["ops"]):
        ctx.state(n, str(out))
        return
    want = G.ref_unitary(spec, {G.S(k): v for k, v in subs.items()})
    outs = [out]
    if subs:
        outs = [out.bind(smap), decompose_orquestra_circuit(circ.bind(smap), [U3GateToRotation()])]
        check(len(outs[1].operations) == len(outs[0].operations), f"{what}: binding before or after differs", "bind")
    bad = None
    for o in outs:
        got = action(o.operations, n)
        ctx.state(n, ref.digest(got))
        if same_up_to_phase(got, want):
            continue
        weak, touched = without_relative_phase(spec, n, {G.S(k): v for k, v in subs.items()})
        check(
            touched and same_up_to_phase(got, weak),
            f"{what}: acts differently ({np.max(np.abs(got - want)):.2e})", "action",
        )
        bad = o
    check(bad is None, f"{what}: the phase (phi + lambda)/2 of a controlled U3 is lost", "relative-phase")


# ---- plain and controlled U3 -------------------------------------------------------------
KINDS = [{"np": 0.7}, {"sfloat": 1.3}, {"srat": [2, 3]}, "pi/3", {"npint": 2}, 1, {"np": -0.4}, {"sfloat": -0.8}, {"srat": [-5, 4]}, "-pi/5",
         -3, 0, {"srat": [0, 1]}, {"sfloat": 0.0}, "sqrt(2)-2"]


def cases_plain(tier):
    for a, b, c in itertools.product(ANG, repeat=3):
        yield {"c": {"n": None, "ops": [[["U3", a, b, c], [0]]]}}
    for n, q in ((2, 0), (2, 1), (3, 1), (5, 4)):
        for a, b, c in itertools.product(ANG[2:5], repeat=3):
            yield {"c": {"n": n, "ops": [[["U3", a, b, c], [q]]]}}
            yield {"c": {"n": None, "ops": [[["U3", a, b, c], [q]]]}}
    for a, b, c in itertools.product(KINDS, repeat=3):
        yield {"c": {"n": None, "ops": [[["U3", a, b, c], [1]]]}}
    # full turns, and every order of magnitude
    turns = [0, math.pi, -math.pi, 2 * math.pi, -2 * math.pi, 3 * math.pi, 4 * math.pi, "pi", "-pi", "2*pi", "4*pi"]
    for a, b, c in itertools.product(turns, repeat=3):
        if tier != "quick" or 0 in (a, b, c) or a == b or b == c:
            yield {"c": {"n": None, "ops": [[["U3", a, b, c], [0]]]}}
    for e in range(-12, 4):
        for s in (1, -1):
            x = s * 3.0 * 10.0**e
            for ps in ([x, 0.4, 1.1], [0.4, x, 1.1], [0.4, 1.1, x], [x, -x, x], [0.4, x, -x], [math.pi + x, 0.3, 0.2], [0, x, 0.7]):
                yield {"c": {"n": None, "ops": [[["U3", *ps], [0]]]}}


def cases_controlled(tier):
    for k in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        n = k + 2
        tuples = ref.ordered_tuples(n, k + 1)
        if len(tuples) > 130:
            tuples = tuples[:: 7 if tier == "quick" else 1]
        angs = ANG if k == 1 else ANG[2:5]
        for a, b, c in itertools.product(angs, repeat=3):
            for qs in tuples if k > 1 or (a, b, c) == (0.37, -1.9, 0.37) else tuples[:: 2 if tier == "quick" else 1]:
                if k == 3 and tier == "quick" and (a, b, c) != (0.37, -1.9, -math.pi / 2) and qs != tuples[3]:
                    continue
                yield {"c": {"n": n if qs[0] % 2 else None, "ops": [[["c", k, ["U3", a, b, c]], qs]]}}
                if k > 1 and qs[0] == 0:
                    yield {"c": {"n": None, "ops": [[["c", 1, ["c", k - 1, ["U3", a, b, c]]], qs]]}}
    # many controls: ascending, descending, target in the middle, gaps
    for k in (4, 5, 6) if tier == "quick" else (4, 5, 6, 7):
        up = list(range(k + 1))
        for qs in (up, up[::-1], up[1:] + [0], [q + 1 for q in up], up[:2] + [k + 1] + up[2:k]):
            for a, b, c in [(0.37, -1.9, 0.7), (2.6, 0.4, -0.4), (-1.1, 0.9, math.pi / 2)]:
                for g in (["c", k, ["U3", a, b, c]], ["c", 2, ["c", k - 2, ["U3", a, b, c]]]):
                    yield {"c": {"n": None, "ops": [[g, qs]]}}
    for qs in ([8, 7], [0, 8]):
        yield {"c": {"n": None, "ops": [[["c", 1, ["U3", 0.37, -1.9, 0.7]], qs]]}}
    few = KINDS if tier != "quick" else ["pi/3", {"srat": [-5, 4]}, "-pi/5", {"srat": [0, 1]}, {"sfloat": -0.8}, 0]
    for a, b, c in itertools.product(few, repeat=3):
        yield {"c": {"n": None, "ops": [[["c", 1, ["U3", a, b, c]], [1, 0]]]}}
    # opposite angles: nothing may be lost here at all
    for k in (1, 2, 3):
        for a, b in itertools.product(ANG, repeat=2):
            for qs in ref.ordered_tuples(k + 1, k + 1)[:6]:
                yield {"c": {"n": None, "ops": [[["c", k, ["U3", a, b, -b]], qs]]}}
                yield {"c": {"n": None, "ops": [[["c", k, ["U3", a, b, 4 * math.pi - b]], qs]]}}


# ---- circuits ----------------------------------------------------------------------------
OPS = [
    [["U3", 0.4, 1.3, -0.6], [0]],
    [["U3", -1.2, 0.5, 2.0], [1]],
    [["c", 1, ["U3", 0.9, 0.7, -0.7]], [1, 0]],
    [["c", 2, ["U3", 0.9, 0.7, 0.3]], [2, 0, 1]],
    [["c", 1, ["U3", 2.1, -0.8, 0.1]], [0, 2]],
    [["dag", ["U3", 0.4, 1.3, -0.6]], [0]],
    [["c", 1, ["dag", ["U3", 0.4, 1.3, -0.6]]], [2, 1]],
    [["pow", 2, ["U3", 0.4, 1.3, -0.6]], [1]],
    [["RZ", 1.3], [0]],
    [["RY", 0.4], [0]],
    [["c", 1, ["RZ", 0.7]], [1, 0]],
    [["CNOT"], [0, 1]],
    [["X"], [2]],
    [["custom", "u1"], [1]],
    [["custom", "u2"], [2, 0]],
    ["mp", [0.1, 0.9, -0.4, 1.7, 0.2, 2.2, -1.0, 0.5]],
    [["Delay", 0.4], [0]],
]
RESET = ["reset", 1]


def cases_circuits(tier):
    for n in (None, 3, 5):
        yield {"c": {"n": n, "ops": []}}
    for k in (1, 2) if tier == "quick" else (1, 2, 3):
        for ops in itertools.product(OPS + [RESET], repeat=k):
            n3 = any(o[0] == "mp" for o in ops)
            for n in (3,) if n3 else (None, 3, 4) if k == 1 else (3,):
                w = G.width({"n": None, "ops": ops})
                if n is None or n >= w:
                    yield {"c": {"n": n, "ops": list(ops)}}
    if tier == "quick":
        core = [OPS[i] for i in (0, 2, 4, 5, 8, 11, 15)]
        for ops in itertools.product(core, repeat=3):
            yield {"c": {"n": 3, "ops": list(ops)}}
    long = [OPS[i % len(OPS)] for i in range(0, 51, 3)]
    yield {"c": {"n": 3, "ops": long}}
    for k in (8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100) if tier == "quick" else [*range(5, 70), 100, 127, 128, 129, 256, 257]:
        for step in (1, 5):
            yield {"c": {"n": 3, "ops": [OPS[i * step % len(OPS)] for i in range(k)]}}
        for j in (0, 8, 11):
            yield {"c": {"n": 3, "ops": [OPS[j]] * k}}
        yield {"c": {"n": 3, "ops": [OPS[(0, 0, 11, 8, 8)[i % 5]] for i in range(k)]}}
        yield {"c": {"n": 3, "ops": [[["U3", 0.1 * i - 1, 0.03 * i, 1.3 - 0.07 * i], [i % 3]] for i in range(k)]}}
    yield {"c": {"n": 3, "ops": [OPS[i % 2] for i in range(40)]}}


# operations that differ but print alike, or are equal without being the same
LOOKALIKES = [
    [["custom", "look_a"], [0]],
    [["custom", "look_b"], [0]],
    [["custom", "look_p", 0.3], [1]],
    [["custom", "look_q", 0.3], [1]],
    [["U3", {"sfloat": "0.40000000000000002220446"}, 1.3, -0.6], [0]],
    [["U3", {"sfloat": "0.40000000000000012"}, 1.3, {"srat": [-3, 5]}], [0]],
    [["U3", {"sfloat": "0.4"}, {"sfloat": "1.3"}, {"sfloat": "-0.6"}], [0]],
    [["U3", 0.4, {"np": 1.3}, -0.6], [0]],
    [["U3", 1, 0, 2], [1]],
    [["U3", 1.0, 0.0, 2.0], [1]],
    [["c", 1, ["custom", "look_a"]], [0, 2]],
    [["c", 1, ["custom", "look_b"]], [0, 2]],
    [["dag", ["custom", "look_q", 0.3]], [1]],
]


def cases_lookalikes(tier):
    for k in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        pool = LOOKALIKES if k < 4 else LOOKALIKES[::2]
        if k == 3 and tier == "quick":
            pool = [LOOKALIKES[i] for i in (0, 1, 2, 3, 5, 6, 11)]
        for ops in itertools.product(pool, repeat=k):
            yield {"c": {"n": 3, "ops": list(ops)}}


# gates of one's own under the name of the gate the rule is for, and of a gate it produces
OWN = [
    [["custom", "own_u3", 0.3, 0.5, -1.2], [0]],
    [["c", 1, ["custom", "own_u3", 0.3, 0.5, -1.2]], [0, 2]],
    [["c", 2, ["custom", "own_u3", 0.3, 0.5, -1.2]], [1, 0, 2]],
    [["custom", "own_u3w", 0.4, 0.9], [2, 0]],
    [["c", 1, ["custom", "own_u3w", 0.4, 0.9]], [1, 2, 0]],
    [["custom", "own_u3c"], [1]],
    [["c", 1, ["custom", "own_u3c"]], [1, 0]],
    [["dag", ["custom", "own_u3", 0.3, 0.5, -1.2]], [0]],
    [["custom", "own_rz", 0.5], [0]],
    [["U3", 0.3, 0.5, -1.2], [0]],
    [["c", 1, ["U3", 0.3, 0.0, 0.0]], [0, 2]],
]


def cases_own(tier):
    for k in (1, 2) if tier == "quick" else (1, 2, 3):
        for ops in itertools.product(OWN, repeat=k):
            yield {"c": {"n": 3, "ops": list(ops)}}


def cases_symbolic(tier):
    for ps in (["theta", "phi", "lam"], ["phi", "theta", "phi"], ["theta+phi", "2*lam", "theta/3"], ["lam", 0.4, "-theta"], ["$theta", "$theta", "$theta"]):
        for k in (0, 1):
            g = ["U3", *ps]
            qs = [2]
            if k:
                g, qs = ["c", 1, g], [0, 2]
            yield {"c": {"n": None, "ops": [[g, qs]]}, "subs": {"theta": 0.3, "phi": -1.1, "lam": 2.2}}
    ops = [
        [["U3", "theta", "phi", 0.3], [0]],
        [["c", 1, ["U3", "phi", "theta", "-theta"]], [0, 1]],
        [["RX", "theta"], [1]],
        [["custom", "p1", "phi", "theta"], [0]],
        [["dag", ["U3", "theta", "phi", "lam"]], [1]],
        [["c", 1, ["U3", "phi", "theta", "lam"]], [1, 0]],
    ]
    for k in (1, 2) if tier == "quick" else (1, 2, 3):
        for os_ in itertools.product(ops, repeat=k):
            yield {"c": {"n": 2, "ops": list(os_)}, "subs": {"theta": 0.3, "phi": -1.1, "lam": 2.2}}


# ---- rule lists --------------------------------------------------------------------------
class Rule:
    """A string-rewriting rule over letters; `form` is how production returns its result."""

    def __init__(self, src, dst, form="list"):
        self.src, self.dst, self.form = src, dst, form
        self.asked = []

    def predicate(self, operation):
        self.asked.append(operation)
        return operation in self.src

    def production(self, operation):
        assert operation in self.src, f"production called on {operation}"
        out = [operation if d == "*" else d for d in self.dst]
        return {"list": list, "tuple": tuple, "gen": iter, "map": lambda o: (x for x in o)}[self.form](out)


def rewrite(word, rules):
    for src, dst, _ in rules:
        word = [y for x in word for y in ([x if d == "*" else d for d in dst] if x in src else [x])]
    return word


def run_rules(case, ctx):
    word, rules = case["word"], case["rules"]
    want = rewrite(list(word), rules)
    for given in (list(word), tuple(word), iter(list(word)), word):
        for rs in ([Rule(*r) for r in rules], tuple(Rule(*r) for r in rules)):
            keep = list(rs)
            got = decompose_operations(given if not hasattr(given, "__next__") else iter(list(word)), rs)
            ctx.step()
            check(list(got) == want, f"{word!r} under {rules}: {got} instead of {want}", "rules")
            check(list(rs) == keep, "the rule list changed", "rules")
    ctx.state(tuple(want))


RULES = [
    ["a", "bc", "list"], ["b", "ca", "tuple"], ["c", "", "gen"], ["ab", "*c", "map"], ["c", "ab", "list"], ["abc", "*", "gen"], ["b", "b", "tuple"], ["x", "a", "list"],
    ["a", "", "tuple"], ["c", "a", "gen"], ["bc", "**", "list"],
]


def cases_rules(tier):
    words = ["", "a", "b", "ab", "ba", "abc", "cab", "xaxb", "aabb", "d"]
    for k in (0, 1, 2, 3) if tier == "quick" else (0, 1, 2, 3, 4):
        for rs in itertools.product(RULES[: 8 if k == 3 and tier == "quick" else 11], repeat=k):
            for w in words if k < 3 else words[4:8]:
                yield {"word": w, "rules": list(rs)}
    yield {"word": "ab", "rules": [RULES[6]] * 150}


class Thing:
    """An operation that prints like every other one of its `shown` letter."""

    def __init__(self, letter, shown):
        self.letter, self.shown = letter, shown

    def __repr__(self):
        return self.shown

    def __eq__(self, other):
        return isinstance(other, Thing) and self.letter == other.letter

    __hash__ = None


class ThingRule:
    def __init__(self, src, dst):
        self.src, self.dst = src, dst

    def predicate(self, operation):
        return operation.letter in self.src

    def production(self, operation):
        return [Thing(operation.letter if d == "*" else d, operation.shown) for d in self.dst]


def run_things(case, ctx):
    """Rules see the operations themselves: not their text, hash or identity."""
    word, rules = case["word"], case["rules"]
    want = rewrite(list(word), [[s, d, None] for s, d in rules])
    shared = {x: Thing(x, "op") for x in word}
    for ops in ([Thing(x, "op") for x in word], [shared[x] for x in word]):
        got = decompose_operations(ops, [ThingRule(*r) for r in rules])
        ctx.step()
        check([t.letter for t in got] == want, f"{word!r} under {rules}: {[t.letter for t in got]} instead of {want}", "rules")
    for x in want[:0] + list(word):
        got = decompose_operations([Thing(x, "op")], [ThingRule(*r) for r in rules])
        check([t.letter for t in got] == rewrite([x], [[s, d, None] for s, d in rules]), f"{x!r} alone under {rules}: {[t.letter for t in got]}", "rules")
        ctx.step()
    ctx.state(tuple(want))


def cases_things(tier):
    words = ["ab", "ba", "abab", "abcabc", "ccba", "a", "aab", "bbbbbbba"]
    pool = [["a", "bc"], ["b", "ca"], ["c", ""], ["ab", "*c"], ["abc", "*"], ["bc", "**"], ["a", "a"]]
    for k in (0, 1, 2, 3) if tier == "quick" else (0, 1, 2, 3, 4):
        for rs in itertools.product(pool, repeat=k):
            for w in words:
                yield {"word": w, "rules": list(rs)}


class GateRule:
    """Gate-level rule: operations on gates called `name` become `outs` on the same qubits."""

    def __init__(self, name, outs):
        self.name, self.outs = name, outs

    def predicate(self, operation):
        return isinstance(operation, GateOperation) and operation.gate.name == self.name

    def production(self, operation):
        return [G.gate(g)(*operation.qubit_indices) for g in self.outs]


GATE_RULES = {
    "X": ("X", [["H"], ["Z"], ["H"]]),
    "Z": ("Z", [["S"], ["S"]]),
    "S": ("S", [["T"], ["T"]]),
    "Y": ("Y", [["U3", math.pi, math.pi / 2, math.pi / 2]]),
    "H": ("H", [["RY", math.pi / 2], ["X"]]),
    "RY": ("RY", []),
}


def gate_rule(k):
    return U3GateToRotation() if k == "U3" else GateRule(*GATE_RULES[k])


def ref_rules(ops, names):
    """The same rewriting on specs."""
    for name in names:
        new = []
        for g, qs in ops:
            if name == "U3" and g[0] == "U3":
                _, th, ph, la = g
                new += [[["RZ", la], qs], [["RY", th], qs], [["RZ", ph], qs]]
            elif name != "U3" and g[0] == GATE_RULES[name][0]:
                new += [[o, qs] for o in GATE_RULES[name][1]]
            else:
                new.append([g, qs])
        ops = new
    return ops


def run_gate_rules(case, ctx):
    ops, names = case["ops"], case["rules"]
    circ = G.circuit({"n": 3, "ops": ops})
    want = [G.op(o) for o in ref_rules(ops, names)]
    for rs in ([gate_rule(k) for k in names], tuple(gate_rule(k) for k in names)):
        out = decompose_orquestra_circuit(circ, rs)
        ctx.step()
        if "U3" not in names:
            check(list(out.operations) == want, f"{circ} under {names}: {out} instead of {want}", "gate-rules")
        check(same_up_to_phase(action(out.operations, 3), action(want, 3)), f"{circ} under {names}: {out}, expected {want}", "gate-rules")
        check(out.n_qubits == 3, f"{out}", "width")
        check("RY" not in names[-1:] or all(o.gate.name != "RY" for o in out.operations), f"{names}: {out}", "order")
    ctx.state(tuple(map(str, want)))


def cases_gate_rules(tier):
    names = ["X", "Z", "S", "Y", "U3", "H", "RY"]
    circs = [
        [[["X"], [0]]], [[["Y"], [2]], [["X"], [1]]], [[["H"], [1]], [["Z"], [0]], [["Y"], [0]]],
        [[["CNOT"], [0, 2]], [["X"], [2]], [["U3", 0.4, 1.3, -0.6], [1]]],
    ]
    for k in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for ns in itertools.product(names, repeat=k):
            for c in circs:
                yield {"ops": c, "rules": list(ns)}


def run_predicate(case, ctx):
    spec = case["op"]
    op = G.op(spec)
    rule = U3GateToRotation()
    want = is_u3(spec) is not None
    got = rule.predicate(op)
    ctx.step()
    check(bool(got) == want, f"predicate({op}) is {got}", "predicate")
    if want:
        prod = list(rule.production(op))
        ctx.step()
        check(prod == decompose_operations([op], [rule]), f"production({op}) = {prod}", "production")
        check(list(rule.production(op)) == prod, f"second production({op}) differs", "production")
    ctx.state(str(op))


def cases_predicate(tier):
    for o in OPS + [RESET]:
        yield {"op": o}
    for name in G.ALL_BUILTINS:
        g = [name] + [0.3] * G.NPARAMS.get(name, 0)
        for w in (g, ["dag", g], ["c", 1, g], ["c", 3, g], ["c", 1, ["dag", g]], ["pow", 2, g], ["exp", g], ["c", 1, ["pow", 0.5, g]], ["pow", 0.5, ["c", 1, g]], ["dag", ["c", 2, g]]):
            yield {"op": [w, list(range(G.arity(w)))]}


FAMILIES = [
    Family("plain", cases_plain, run_circuit, "every triple of 8 angles; parameter kinds; symbolic angles; placements"),
    Family("controlled", cases_controlled, run_circuit, "1..3 (4) controls x qubit placements x angle triples; 4..6 (7) controls"),
    Family("circuits", cases_circuits, run_circuit, "every circuit of <=2 (3) operations over 18, of 3 over 7, on several registers; 77 (500) circuits of 8..100 (257) operations"),
    Family("symbolic", cases_symbolic, run_circuit, "every circuit of <=2 (3) parametrised operations"),
    Family("rule-lists", cases_rules, run_rules, "every list of <=3 (4) rewriting rules over 11 x words"),
    Family("look-alikes", cases_lookalikes, run_circuit, "every circuit of <=2 (4) operations that print alike or are equal across types"),
    Family("own-names", cases_own, run_circuit, "every circuit of <=2 (3) operations over 11, gates of one's own called U3 and RZ among them"),
    Family("things", cases_things, run_things, "operations with equal text and no hash x every list of <=3 (4) rules"),
    Family("gate-rules", cases_gate_rules, run_gate_rules, "every list of <=3 (4) of 7 gate rules x circuits"),
    Family("predicate", cases_predicate, run_predicate, "every built-in gate under every modifier"),
]

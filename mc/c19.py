"""C19: translating symbolic expressions preserves their value."""
import cmath
import itertools
import math

import sympy
from sympy.core.function import AppliedUndef

from orquestra.quantum.circuits import natural_key, natural_key_revlex
from orquestra.quantum.circuits.symbolic import natural_key_fixed_names_order
from orquestra.quantum.circuits.symbolic.expressions import (
    ExpressionDialect,
    FunctionCall,
    Symbol,
    reduction,
)
from orquestra.quantum.circuits.symbolic.sympy_expressions import (
    SYMPY_DIALECT,
    expression_from_sympy,
)
from orquestra.quantum.circuits.symbolic.translations import translate_expression

from . import ref
from .core import Family, check, short

S = sympy.Symbol
ASSUMPTIONS = [
    "values are compared at generic complex points in all four quadrants, relative tolerance 1e-8, by an evaluator that "
    "does not use sympy; points where the original is not finite (or beyond 1e9) are skipped",
    "a symbol is its name: assumptions and Dummy indices are not part of the neutral tree",
    "constructs that sympy itself substitutes while an expression is built (E for exp(1), cosh(x) for cos(I*x), zoo for 1/0) "
    "are outside the supported set and may be refused",
    "rationals and floats are exact to double precision",
]
NAMES = ["x", "y", "theta_1", "theta_10", "a b", "lambda"]
POINTS = [
    {"x": 0.7 + 0.3j, "y": 1.3 - 0.8j, "theta_1": 0.21 + 0.1j, "theta_10": -0.9 + 0.7j, "a b": 0.5 - 0.4j, "lambda": -0.6 - 0.2j},
    {"x": -0.8 + 0.45j, "y": -0.55 - 0.65j, "theta_1": -0.5 + 0.3j, "theta_10": 0.4 + 1.1j, "a b": -1.2 - 0.1j, "lambda": 0.9 + 0.8j},
    {"x": -0.35 - 1.15j, "y": 0.9 + 0.25j, "theta_1": 1.4 - 0.9j, "theta_10": -0.3 - 0.6j, "a b": 0.1 + 0.6j, "lambda": -0.7 + 0.5j},
]
REAL = [{n: v for n, v in zip(NAMES, vs)} for vs in ((0.7, 1.3, 0.2, 2.1, 0.9, 1.7), (-1.4, 0.6, -0.8, 1.9, -0.3, 2.2), (2.0, 3.0, 1.0, 5.0, 4.0, 7.0))]

# names that mean something elsewhere, or need care when written down
ODD_NAMES = ["pi", "I", "E", "S", "N", "Q", "O", "C", "oo", "nan", "zoo", "beta", "gamma", "zeta", "cos", "sqrt", "add", "div", "sub", "mul", "pow", "exp",
             "1", "2", "x+y", "x y", " x", "x*y", "-x", "_x", "x_", "X", "α", "x'", "f(x)", "x[0]", "x0", "x00", "lambda_1", "True", "None", "import", "self", "0.5", "e", "j", "1j"]
for _i, _n in enumerate(ODD_NAMES):
    for _j, _env in enumerate(POINTS):
        _env[_n] = complex(0.31 + 0.173 * ((7 * _i + 3 * _j) % 11) - 0.9 * (_j == 1), 0.23 + 0.119 * ((5 * _i + _j) % 13) - 1.1 * (_j == 2))
    for _j, _env in enumerate(REAL):
        _env[_n] = 0.4 + 0.21 * ((3 * _i + 5 * _j) % 9)

LEAVES = {
    "x": S("x"), "y": S("y"), "t1": S("theta_1"), "t10": S("theta_10"), "ab": S("a b"), "lam": S("lambda"),
    "0": sympy.Integer(0), "1": sympy.Integer(1), "2": sympy.Integer(2), "3": sympy.Integer(3), "-1": sympy.Integer(-1), "-3": sympy.Integer(-3),
    "1/2": sympy.Rational(1, 2), "-1/2": sympy.Rational(-1, 2), "1/3": sympy.Rational(1, 3), "-5/7": sympy.Rational(-5, 7),
    "0.5": sympy.Float(0.5), "-1.0": sympy.Float(-1.0), "2.5": sympy.Float(2.5), "1e-3": sympy.Float(1e-3), "I": sympy.I,
    "big": sympy.Integer(10**30), "-0.25": sympy.Float(-0.25),
}
UNARY = ["neg", "inv", "sqrt", "sq", "cube", "isqrt", "cos", "sin", "exp", "tan", "third", "fneg", "fsqrt"]
BINARY = ["+", "-", "*", "/", "^"]


def build(spec, ev):
    if isinstance(spec, str):
        return LEAVES[spec]
    op, *args = spec
    a = [build(s, ev) for s in args]
    add = lambda *t: sympy.Add(*t, evaluate=ev)
    mul = lambda *t: sympy.Mul(*t, evaluate=ev)
    pow_ = lambda p, q: sympy.Pow(p, q, evaluate=ev)
    if op == "+":
        return add(*a)
    if op == "*":
        return mul(*a)
    if op == "-":
        return add(a[0], mul(-1, a[1]))
    if op == "-r":  # the negated operand first
        return add(mul(-1, a[1]), a[0])
    if op == "/":
        return mul(a[0], pow_(a[1], sympy.Integer(-1)))
    if op == "/r":  # the reciprocal first
        return mul(pow_(a[1], sympy.Integer(-1)), a[0])
    if op == "^":
        if a[1] == LEAVES["big"]:
            raise ValueError("sympy itself would never finish")
        return pow_(a[0], a[1])
    if op in ("cos", "sin", "exp", "tan"):
        return getattr(sympy, op)(a[0], evaluate=ev)
    e = {
        "inv": sympy.Integer(-1), "sqrt": sympy.Rational(1, 2), "sq": sympy.Integer(2), "cube": sympy.Integer(3),
        "isqrt": sympy.Rational(-1, 2), "third": sympy.Rational(1, 3), "fsqrt": sympy.Float(0.5),
    }
    if op in e:
        return pow_(a[0], e[op])
    if op == "neg":
        return mul(sympy.Integer(-1), a[0])
    if op == "fneg":
        return mul(sympy.Float(-1.0), a[0])
    raise AssertionError(op)


GOOD = (sympy.Add, sympy.Mul, sympy.Pow, sympy.cos, sympy.sin, sympy.exp, sympy.tan, sympy.Symbol, sympy.Integer, sympy.Rational, sympy.Float)


def supported(e):
    return all(isinstance(n, GOOD) or n is sympy.I for n in sympy.preorder_traversal(e))


def value(e, env):
    """A number, or None where there is none worth comparing."""
    if not isinstance(e, sympy.Basic):
        return complex(e)
    try:
        v = ref.evaluate(e, {S(k): u for k, u in env.items()})
    except (ZeroDivisionError, OverflowError, KeyError, ValueError):
        return None
    return v if cmath.isfinite(v) and abs(v) < 1e9 else None


def slow_value(e, env):
    e = sympy.sympify(e)
    try:
        v = complex(e.subs({S(k): u for k, u in env.items()}).evalf(30))
    except (TypeError, ValueError, ZeroDivisionError, OverflowError):
        return None
    return v if cmath.isfinite(v) else None


def near(a, b):
    return abs(a - b) <= 1e-8 * (1 + abs(a))


def on_a_cut(e):
    """Some computed constant below zero is raised to a power: rounding chooses the branch (sympy's own as well)."""
    for p in sympy.preorder_traversal(e):
        if isinstance(p, sympy.Pow) and not p.base.free_symbols and p.base.args and not p.exp.is_Integer:
            v = value(p.base, {})
            if v is not None and v.real < 0 and abs(v.imag) <= 1e-9 * abs(v):
                return True
    return False


def compare(e, back, what, ctx):
    seen = 0
    if on_a_cut(e):
        return 0
    for env in POINTS + REAL:
        a = value(e, env)
        if a is None:
            continue
        b = value(back, env)
        seen += 1
        if b is not None and near(a, b):
            continue
        # rounding across a branch cut, or a huge intermediate value: ask sympy itself, in 30 digits
        c, d = slow_value(e, env), slow_value(back, env)
        if c is not None and d is not None and near(c, d):
            continue
        if env in REAL or not e.free_symbols or b is None:
            if env in REAL or not e.free_symbols:
                # a point on a branch cut has two legitimate values: judge just off it
                off = {k: v + 1e-7 * (1 + 2j + i) for i, (k, v) in enumerate(env.items())}
                c, d = value(e, off), value(back, off)
                if e.free_symbols and c is not None and d is not None and abs(c - d) <= 1e-5 * (1 + abs(c)):
                    continue
        check(False, f"{what}: value {a} at {env} became {b}", "value")
    return seen


def translate(e):
    return translate_expression(expression_from_sympy(e), SYMPY_DIALECT)


def evaluates_to_supported(case):
    """exp(1) left unevaluated is a function call until anything touches it and it becomes E."""
    try:
        return supported(build(case, True))
    except (ZeroDivisionError, TypeError, ValueError, RecursionError):
        return False


def run_tree(case, ctx):
    for ev in (True, False):
        try:
            e = build(case, ev)
        except (ZeroDivisionError, TypeError, ValueError, RecursionError):
            ctx.outcome("not an expression")
            continue
        if not isinstance(e, sympy.Basic) or e.has(sympy.nan, sympy.zoo, sympy.oo):
            ctx.outcome("not a number")
            continue
        ok = supported(e) and (ev or evaluates_to_supported(case))
        before = sympy.srepr(e)
        try:
            tree = expression_from_sympy(e)
            back = translate_expression(tree, SYMPY_DIALECT)
        except (NotImplementedError, ValueError):
            ctx.step()
            check(
                not ok or all(value(e, env) is None for env in POINTS + REAL), f"{before} refused", "refused"
            )  # 0**-1 left unevaluated has no value to preserve
            ctx.outcome("refused")
            continue
        except (ZeroDivisionError, OverflowError):
            ctx.step()
            check(
                all(value(e, env) is None for env in POINTS + REAL), f"{before}: arithmetic error", "arithmetic"
            )
            ctx.outcome("no value")
            continue
        ctx.step(2)
        n = compare(e, back, f"{before} (evaluate={ev}): {short(tree)} became {sympy.srepr(back)}", ctx)
        ctx.outcome("compared" if n else "no finite point")
        check(sympy.srepr(e) == before, f"{before} was changed", "argument")
        names = {s.name for s in sympy.sympify(back).free_symbols}
        check(names <= {s.name for s in e.free_symbols}, f"{before} became {sympy.srepr(back)}, with other symbols", "symbols")
        ctx.state(before)


SMALL = ["x", "y", "-1", "2", "I", "1/3"]


def level1(leaves, unary=UNARY, binary=BINARY + ["-r", "/r"]):
    for u in unary:
        for a in leaves:
            yield [u, a]
    for b in binary:
        for a, c in itertools.product(leaves, repeat=2):
            yield [b, a, c]


def cases_depth1(tier):
    yield from LEAVES
    yield from level1(list(LEAVES))
    for b in ("+", "*"):
        for t in itertools.product(["x", "y", "-1", "2", "I", "0.5", "t10"], repeat=3):
            yield [b, *t]
        for t in itertools.product(["x", "-1", "I", "y"], repeat=4):
            yield [b, *t]


def cases_depth2(tier):
    u1 = ["neg", "inv", "sqrt", "sq", "isqrt", "cos", "exp", "tan", "fneg"] if tier == "quick" else UNARY
    lv = SMALL if tier == "quick" else SMALL + ["-1/2", "2.5", "t10", "-3", "0", "1"]
    ones = list(level1(lv, u1))
    for u in UNARY:
        for a in ones:
            yield [u, a]
    for b in BINARY + ["-r", "/r"]:
        for a in ones:
            for c in SMALL[:4] if tier == "quick" else lv:
                yield [b, a, c]
                yield [b, c, a]


def cases_depth2_pairs(tier):
    lv = ["x", "-1", "2"] if tier == "quick" else ["x", "y", "-1", "I", "2"]
    ones = list(level1(lv, ["neg", "inv", "sqrt", "sin", "exp"], BINARY))
    for b in BINARY:
        for a, c in itertools.product(ones, repeat=2):
            if tier == "quick" and b in "+*" and ones.index(a) > ones.index(c):
                continue
            yield [b, a, c]


def cases_depth3(tier):
    """Every chain of three steps, one operand of each binary step a leaf."""
    steps = [("neg",), ("inv",), ("sqrt",), ("cos",), ("exp",)] + [(b, s, leaf) for b in BINARY for s in (0, 1) for leaf in ("x", "-1")]
    if tier != "quick":
        steps += [("sq",), ("tan",), ("isqrt",)] + [(b, s, "I") for b in BINARY for s in (0, 1)]

    def wrap(step, e):
        if len(step) == 1:
            return [step[0], e]
        b, s, leaf = step
        return [b, e, leaf] if s == 0 else [b, leaf, e]

    for leaf in ("y",) if tier == "quick" else ("y", "2"):
        for s in itertools.product(steps, repeat=3):
            e = leaf
            for st in s:
                e = wrap(st, e)
            yield e
    deep = "x"
    for i in range(40):
        deep = [["+", deep, "y"], ["cos", deep], ["*", "-1", deep], ["/", deep, "2"], ["-", "y", deep]][i % 5]
        yield deep


# ---- every shape of number and name in every place ----------------------------------------
x, y = S("x"), S("y")
_R = lambda p, q: sympy.Rational(p, q)
NUMBERS = {
    **{repr(v): sympy.Float(v) for v in (0.1234567890123456, math.pi, 2.718281828459045, 0.1, 1 / 3, 1e-9, 1.23456789e-7, 123456789.123, 0.4999999, 0.50001, 0.49, -0.9999999999, 1.0000000001, -1.5, 6.02e23, 1e-30, 0.999, 2.0, -2.0, 0.25, 1e6, 65537.0)},
    **{f"{p}/{q}": _R(p, q) for p, q in ((355, 113), (22, 7), (10, 21), (11, 21), (49, 100), (51, 100), (99, 200), (499999, 1000000), (123456789, 987654321), (1, 97), (-1, 1000), (-999, 1000), (-1001, 1000), (-3, 2), (3, 2), (-7, 3), (1, 4), (3, 4), (-1, 3), (2, 3), (10**17 + 1, 10**17), (1, 10**15))},
    **{str(v): sympy.Integer(v) for v in (4, 5, 7, -2, -5, 10, 16, 97, 255, 256, 1000, -1000, 10**9 + 7, -(2**63), 2**63, 2**53 + 1)},
    "long float": sympy.Float("0.12345678901234567890123", 23), "short float": sympy.Float("0.3", 3),
}
PLACES = {
    "alone": lambda l, ev: l,
    "x+l": lambda l, ev: sympy.Add(x, l, evaluate=ev), "l+x": lambda l, ev: sympy.Add(l, x, evaluate=ev),
    "x*l": lambda l, ev: sympy.Mul(x, l, evaluate=ev), "l*x": lambda l, ev: sympy.Mul(l, x, evaluate=ev),
    "l*x*y": lambda l, ev: sympy.Mul(l, x, y, evaluate=ev), "x-l": lambda l, ev: sympy.Add(x, sympy.Mul(-1, l, evaluate=ev), evaluate=ev),
    "x/l": lambda l, ev: sympy.Mul(x, sympy.Pow(l, -1, evaluate=ev), evaluate=ev), "l/x": lambda l, ev: sympy.Mul(l, sympy.Pow(x, -1, evaluate=ev), evaluate=ev),
    "1/l": lambda l, ev: sympy.Pow(l, -1, evaluate=ev), "l**l": lambda l, ev: sympy.Mul(l, l, evaluate=ev),
    "x**l": lambda l, ev: sympy.Pow(x, l, evaluate=ev), "cos(x)**l": lambda l, ev: sympy.Pow(sympy.cos(x), l, evaluate=ev),
    "l**x": lambda l, ev: sympy.Pow(l, x, evaluate=ev), "sqrt(l)": lambda l, ev: sympy.Pow(l, _R(1, 2), evaluate=ev), "l**2": lambda l, ev: sympy.Pow(l, 2, evaluate=ev),
    "cos(l)": lambda l, ev: sympy.cos(l, evaluate=ev), "exp(l*x)": lambda l, ev: sympy.exp(sympy.Mul(l, x, evaluate=ev), evaluate=ev),
    "sin(l+x)": lambda l, ev: sympy.sin(sympy.Add(l, x, evaluate=ev), evaluate=ev), "I*l": lambda l, ev: sympy.Mul(sympy.I, l, evaluate=ev),
    "y+I*l*x": lambda l, ev: sympy.Add(y, sympy.Mul(sympy.I, l, x, evaluate=ev), evaluate=ev),
}


def integral(e):
    return all(
        isinstance(n, (sympy.Integer, sympy.Symbol, sympy.Add, sympy.Mul)) or (isinstance(n, sympy.Pow) and n.exp.is_Integer and 0 <= n.exp <= 4)
        for n in sympy.preorder_traversal(e)
    )


def run_leaf(case, ctx):
    if "name" in case:
        leaf = S(case["name"])
    else:
        leaf = NUMBERS[case["number"]]
    for ev in (True, False):
        e = PLACES[case["place"]](leaf, ev)
        if not supported(e):
            ctx.outcome("sympy left the supported set")
            continue
        before = sympy.srepr(e)
        back = translate(e)
        ctx.step(2)
        what = f"{before} (evaluate={ev}) became {sympy.srepr(sympy.sympify(back))}"
        compare(e, back, what, ctx)
        names = {s.name for s in sympy.sympify(back).free_symbols}
        check(names <= {s.name for s in e.free_symbols}, f"{what}: other symbols", "symbols")
        if "name" in case:
            check(ev or case["name"] in names, f"{what}: the symbol is gone", "symbols")
        if case["place"] == "alone":
            check(back == leaf if "name" in case else abs(sympy.Float(leaf, 30) - sympy.Float(sympy.sympify(back), 30)) <= abs(leaf) * sympy.Float(3e-16), what, "value")
        if integral(e):  # integers, sums, products and whole powers: nothing may be rounded
            for at in ({x: -leaf, y: 3}, {x: leaf + 1, y: -leaf}, {x: 10**17 + 3, y: 2**64 + 1}):
                at = {k: sympy.Integer(v) for k, v in at.items()} if "number" in case else {x: sympy.Integer(10**17 + 3), y: sympy.Integer(7), leaf: sympy.Integer(2**61 - 1)}
                a, b = sympy.sympify(e).subs(at).doit(), sympy.sympify(back).subs(at).doit()
                check(a == b, f"{what}: at {at} it is {b} instead of {a}", "exact")
        # the values agree to nearly full precision where the arithmetic is plain
        for env in POINTS:
            a, b = value(e, env), value(back, env)
            if a is not None and b is not None and case["place"] in ("x+l", "l+x", "x*l", "l*x", "l*x*y", "x-l", "x/l", "l/x", "I*l", "1/l"):
                check(abs(a - b) <= 1e-13 * (1 + abs(a)), f"{what}: {a} and {b} at {env}", "precision")
        ctx.state(before)


def cases_leaf(tier):
    for place in PLACES:
        for n in NUMBERS:
            if place in ("x**l", "cos(x)**l", "l**x", "exp(l*x)") and abs(NUMBERS[n]) > 300:
                continue
            yield {"number": n, "place": place}
        for n in ODD_NAMES:
            yield {"name": n, "place": place}


def nary_term(tok, op):
    """One term of a long sum or product."""
    tag, v = tok[0], sympy.Integer(tok[1:]) if tok[1:].isdigit() else S(tok[1:])
    return {"p": v, "n": sympy.Mul(-1, v, evaluate=False), "i": sympy.Pow(v, -1, evaluate=False), "f": sympy.Mul(sympy.Float(-1.0), v, evaluate=False),
            "m": sympy.Mul(v, sympy.Integer(-1), evaluate=False), "s": sympy.Pow(v, 2, evaluate=False)}[tag]


def run_nary(case, ctx):
    terms = [nary_term(t, case["op"]) for t in case["terms"]]
    for ev in (True, False):
        e = (sympy.Add if case["op"] == "+" else sympy.Mul)(*terms, evaluate=ev)
        outer = {"": e, "cos": sympy.cos(e, evaluate=False), "neg": sympy.Mul(-1, e, evaluate=False), "inv": sympy.Pow(e, -1, evaluate=False), "sum": sympy.Add(S("x"), e, evaluate=False)}[case.get("in", "")]
        back = translate(outer)
        ctx.step(2)
        compare(outer, back, f"{sympy.srepr(outer)} became {sympy.srepr(sympy.sympify(back))}", ctx)
        ctx.state(sympy.srepr(outer))


for _env in POINTS + REAL:
    for _k, _n in enumerate("zwuv"):
        _env[_n] = _env["y"] * (0.6 + 0.35 * _k) + 0.2 * _env["x"]
    for _k in range(130):
        _env[f"a{_k}"] = 1 + 0.31 * math.sin(1.3 * _k + 0.4)


def cases_nary(tier):
    for op in "+*":
        for k in (3, 4, 5, 6) if tier == "quick" else (3, 4, 5, 6, 7, 8):
            names = ("xyzwuv" + "xy")[:k]
            if k <= 5 if tier == "quick" else k <= 6:
                for tags in itertools.product("pni", repeat=k):
                    yield {"op": op, "terms": [t + n for t, n in zip(tags, names)]}
            else:
                for tags in itertools.product("pn" if op == "+" else "pi", repeat=k):
                    yield {"op": op, "terms": [t + n for t, n in zip(tags, names)]}
        # many terms: one, every second, every third, or all but one of them negated or inverted
        for k in (7, 8, 9, 10, 12, 15, 16, 17, 20, 26, 31, 32, 33, 50, 64, 65) if tier == "quick" else [*range(7, 70), 99, 100, 101, 127, 128, 129]:
            for odd in "nifs":
                for tags in (["p"] * k, ["p"] * (k - 1) + [odd], [odd] + ["p"] * (k - 1), ["p", odd] * (k // 2) + ["p"] * (k % 2), (["p", "p", odd] * k)[:k], [odd] * (k - 1) + ["p"]):
                    yield {"op": op, "terms": [t + f"a{i}" for i, t in enumerate(tags)]}
        for k in (2, 3):
            for tags in itertools.product("pnifms", repeat=k):
                for where in ("", "cos", "neg", "inv", "sum"):
                    yield {"op": op, "terms": [t + n for t, n in zip(tags, "xyz")], "in": where}
                    yield {"op": op, "terms": [t + n for t, n in zip(tags, "x2x")], "in": where}


# ---- what is refused ---------------------------------------------------------------------
n_ = sympy.Symbol("n", integer=True)
RESERVED = ["add", "sub", "mul", "div", "pow", "cos", "sin", "exp", "sqrt", "tan"]


class _LogLike(sympy.Function):
    pass


def _function_class(name):
    return type(name, (sympy.Function,), {})


OUTSIDE = {
    "log": lambda: sympy.log(x), "abs": lambda: sympy.Abs(x), "conj": lambda: sympy.conjugate(x), "sinh": lambda: sympy.sinh(x), "cosh": lambda: sympy.cosh(x),
    "tanh": lambda: sympy.tanh(x), "asin": lambda: sympy.asin(x), "acos": lambda: sympy.acos(x), "atan": lambda: sympy.atan(x), "atan2": lambda: sympy.atan2(y, x),
    "cot": lambda: sympy.cot(x), "sec": lambda: sympy.sec(x), "csc": lambda: sympy.csc(x), "sinc": lambda: sympy.sinc(x), "exp_polar": lambda: sympy.exp_polar(x),
    "f": lambda: sympy.Function("f")(x), "g2": lambda: sympy.Function("g")(x, y), "class": lambda: _LogLike(x),
    "floor": lambda: sympy.floor(x), "ceiling": lambda: sympy.ceiling(x), "mod": lambda: sympy.Mod(x, 3), "factorial": lambda: sympy.factorial(x),
    "gamma": lambda: sympy.gamma(x), "erf": lambda: sympy.erf(x), "sign": lambda: sympy.sign(x), "re": lambda: sympy.re(x), "im": lambda: sympy.im(x), "arg": lambda: sympy.arg(x),
    "heaviside": lambda: sympy.Heaviside(x), "delta": lambda: sympy.DiracDelta(x), "kron": lambda: sympy.KroneckerDelta(x, y),
    "max": lambda: sympy.Max(x, y), "min": lambda: sympy.Min(x, y), "piecewise": lambda: sympy.Piecewise((x, x > 0), (y, True)),
    "derivative": lambda: sympy.Derivative(sympy.sin(x), x), "integral": lambda: sympy.Integral(sympy.sin(x), x), "sum": lambda: sympy.Sum(x**n_, (n_, 0, 3)),
    "product": lambda: sympy.Product(x + n_, (n_, 0, 3)), "limit": lambda: sympy.Limit(sympy.sin(x) / x, x, 0), "order": lambda: sympy.Order(x), "subs": lambda: sympy.Subs(sympy.Derivative(sympy.Function("f")(x), x), x, 0),
    "pi": lambda: sympy.pi, "E": lambda: sympy.E, "golden": lambda: sympy.GoldenRatio, "euler": lambda: sympy.EulerGamma, "catalan": lambda: sympy.Catalan,
    "oo": lambda: sympy.oo, "-oo": lambda: -sympy.oo, "zoo": lambda: sympy.zoo, "nan": lambda: sympy.nan,
    "unevaluated": lambda: sympy.UnevaluatedExpr(x), "indexed": lambda: sympy.Indexed("A", 0), "lambertw": lambda: sympy.LambertW(x), "bounds": lambda: sympy.AccumBounds(0, 1),
    "besselj": lambda: sympy.besselj(1, x), "zeta": lambda: sympy.zeta(x), "polylog": lambda: sympy.polylog(2, x), "binomial": lambda: sympy.binomial(x, 2), "root_of": lambda: sympy.CRootOf(x**5 - x + 1, 0),
}
TOPLEVEL = {
    "eq": lambda: sympy.Eq(x, y), "lt": lambda: x < y, "and": lambda: sympy.And(S("p"), S("q")), "not": lambda: sympy.Not(S("p")), "true": lambda: sympy.true,
    "matrix": lambda: sympy.Matrix([[x, y]]), "imatrix": lambda: sympy.ImmutableMatrix([[x, y]]), "msym": lambda: sympy.MatrixSymbol("M", 2, 2), "set": lambda: sympy.FiniteSet(x, y),
    "interval": lambda: sympy.Interval(0, 1), "lambda": lambda: sympy.Lambda(x, x + 1), "tuple": lambda: sympy.Tuple(x, y), "poly": lambda: sympy.Poly(x**2 + 1, x), "str": lambda: "x + y", "none": lambda: None, "list": lambda: [x, y], "dict": lambda: {x: y}, "func": lambda: sympy.cos, "object": lambda: object(),
}
CONTEXTS = {
    "alone": lambda e: e, "add": lambda e: e + y, "add-first": lambda e: sympy.Add(e, 3, evaluate=False), "sub": lambda e: y - e, "mul": lambda e: 2 * e, "mul-y": lambda e: sympy.Mul(y, e, evaluate=False),
    "div": lambda e: y / e, "num": lambda e: e / y, "pow": lambda e: e**3, "expo": lambda e: 2**e, "sqrt": lambda e: sympy.sqrt(e), "inv": lambda e: 1 / e, "cos": lambda e: sympy.cos(e),
    "exp": lambda e: sympy.exp(e), "deep": lambda e: sympy.sin(y + 2 * sympy.sqrt(1 - e)), "three": lambda e: x + y - e, "neg": lambda e: sympy.Mul(-1, e, evaluate=False),
}


def run_outside(case, ctx):
    kind, name, where = case["kind"], case["name"], case.get("ctx", "alone")
    if kind == "outside":
        inner = OUTSIDE[name]()
    elif kind == "toplevel":
        inner = TOPLEVEL[name]()
    elif kind == "undefined":
        inner = sympy.Function(name)(*[x, y, S("z")][: case["n"]])
    else:
        inner = _function_class(name)(*[x, y, S("z")][: case["n"]])
    e = CONTEXTS[where](inner)
    ctx.step()
    try:
        back = translate(e)
    except Exception as err:
        check(not isinstance(err, (RecursionError, MemoryError)), f"{e!r}: {err!r}", "crash")
        ctx.outcome("refused")
        ctx.state(kind, name, where)
        return
    # accepted: then it must still mean the same
    check(back is not None, f"{e!r} was translated to None", "translated")
    same = False
    try:
        same = bool(back == e) or (e.has(sympy.oo, -sympy.oo, sympy.zoo, sympy.nan) and sympy.srepr(sympy.sympify(back)) == sympy.srepr(e.doit()))
        if not same and isinstance(e, sympy.Basic) and not e.atoms(AppliedUndef) and kind == "outside":
            vals = [(slow_value(e, p), slow_value(back, p)) for p in POINTS]
            same = all(a is None and b is None or a is not None and b is not None and near(a, b) for a, b in vals) and (
                any(a is not None for a, _ in vals) or str(sympy.sympify(back)) == str(e)
            )
    except Exception:
        same = False
    check(same, f"{e!r} of {type(e)} was translated to {back!r}", "translated")
    ctx.outcome("supported")


def cases_outside(tier):
    for name in OUTSIDE:
        for c in CONTEXTS:
            yield {"kind": "outside", "name": name, "ctx": c}
    for name in TOPLEVEL:
        yield {"kind": "toplevel", "name": name}
    for name in RESERVED + ["f", "log", "neg", "Add", "Mul", "Pow", "abs"]:
        for n in (1, 2, 3):
            for c in CONTEXTS:
                yield {"kind": "undefined", "name": name, "ctx": c, "n": n}
                if name[0].islower():  # sympy itself dispatches on the class names Add, Mul, Pow
                    yield {"kind": "class", "name": name, "ctx": c, "n": n}


# ---- hand-made trees ---------------------------------------------------------------------
def tree(spec):
    if isinstance(spec, dict):
        return FunctionCall(spec["f"], tuple(tree(a) for a in spec["a"]))
    if isinstance(spec, str):
        return Symbol(spec)
    if isinstance(spec, list):
        return {"complex": lambda v: complex(*v), "str": str, "none": lambda v: None, "set": lambda v: {1}}[spec[0]](spec[1])
    return spec


TREE_FN = {
    "add": lambda *a: sum(a), "mul": lambda *a: math.prod(a), "div": lambda a, b: a / b, "sub": lambda a, b: a - b,
    "pow": lambda a, b: a ** b if isinstance(b, int) else cmath.exp(b * cmath.log(a)), "cos": cmath.cos, "sin": cmath.sin, "exp": cmath.exp, "sqrt": cmath.sqrt, "tan": cmath.tan,
}


def no_negative_zero(z):
    return complex(z.real + 0.0, z.imag + 0.0) if isinstance(z, complex) else z


def tree_value(t, env):
    if isinstance(t, FunctionCall):
        return TREE_FN[t.name](*[no_negative_zero(tree_value(a, env)) for a in t.args])
    if isinstance(t, Symbol):
        return complex(env[t.name])
    return t


def has_value(t):
    for env in POINTS:
        try:
            tree_value(t, env)
            return True
        except (ZeroDivisionError, OverflowError, ValueError):
            pass
    return False


def run_handmade(case, ctx):
    t = tree(case["t"])
    ctx.step()
    try:
        out = translate_expression(t, SYMPY_DIALECT)
    except Exception:
        check(case["bad"] or not has_value(t), f"{t} refused", "refused")
        ctx.outcome("refused")
        return
    check(not case["bad"], f"{t} was translated to {out!r}", "translated")
    for env in POINTS:
        try:
            a = tree_value(t, env)
        except (ZeroDivisionError, OverflowError, ValueError):
            continue
        b = value(out, env)
        if b is None:
            b = slow_value(out, env)
        check(b is not None and near(a, b), f"{t} has the value {a} at {env}; {out} has {b}", "tree-value")
    # any dialect: the same recursion with a recording dialect rebuilds the tree
    rec = ExpressionDialect(
        symbol_factory=lambda s: ("sym", s.name), number_factory=lambda v: ("num", v),
        known_functions={k: (lambda *a, k=k: (k, *a)) for k in TREE_FN},
    )

    def expect(u):
        if isinstance(u, FunctionCall):
            return (u.name, *[expect(a) for a in u.args])
        return ("sym", u.name) if isinstance(u, Symbol) else ("num", u)

    check(translate_expression(t, rec) == expect(t), f"{t} in another dialect: {translate_expression(t, rec)}", "dialect")
    ctx.step()
    ctx.state(str(t))


def cases_handmade(tier):
    leaves = ["x", "theta_10", 2, 0.5, ["complex", [0, 1]]]
    fns = [("cos", 1), ("sqrt", 1), ("sin", 1), ("exp", 1), ("tan", 1), ("sub", 2), ("div", 2), ("pow", 2), ("add", 2), ("mul", 2), ("add", 3), ("mul", 3), ("add", 1), ("mul", 1)]
    ones = []
    for f, n in fns:
        for a in itertools.product(leaves, repeat=n):
            ones.append({"f": f, "a": list(a)})
    for t in leaves + ones:
        yield {"t": t, "bad": False}
    for f, n in fns:
        if n == 1:
            for a in ones:
                yield {"t": {"f": f, "a": [a]}, "bad": False}
        if n == 2:
            for a in ones[:: 3 if tier == "quick" else 1]:
                for b in leaves[:4]:
                    yield {"t": {"f": f, "a": [a, b]}, "bad": False}
                    yield {"t": {"f": f, "a": [b, a]}, "bad": False}
    wrong = [{"f": "log", "a": ["x"]}, {"f": "Cos", "a": ["x"]}, {"f": "", "a": ["x"]}, {"f": "neg", "a": [1]}, ["str", "x"], ["none", 0], ["set", 0], {"f": "x", "a": []}]
    for w in wrong:
        yield {"t": w, "bad": True}
        for f, n in fns:
            for place in range(n):
                a = ["x"] * n
                a[place] = w
                # an unsupported leaf may surface as an error of the function it reaches; never as a value
                yield {"t": {"f": f, "a": a}, "bad": True}


# ---- natural order -----------------------------------------------------------------------
def split(name):
    """Reference: alternate non-digit text and integers, by a hand-written scanner."""
    out, text, i = [], "", 0
    while i < len(name):
        if name[i] in "0123456789":
            j = i
            while j < len(name) and name[j] in "0123456789":
                j += 1
            out += [text, int(name[i:j])]
            text, i = "", j
        else:
            text += name[i]
            i += 1
    return out + [text]


def ref_less(a, b):
    for u, v in zip(a, b):
        if u != v:
            return u < v
    return len(a) < len(b)


def run_sort(case, ctx):
    a, b = S(case["a"]), S(case["b"])
    ka, kb = split(case["a"]), split(case["b"])
    for fn, ra, rb in ((natural_key, ka, kb), (natural_key_revlex, ka[::-1], kb[::-1])):
        x_, y_ = fn(a), fn(b)
        ctx.step()
        check((x_ < y_) == ref_less(ra, rb) and (y_ < x_) == ref_less(rb, ra), f"{fn.__name__}: {a} vs {b}: {x_}, {y_}", "order")
        check((x_ == y_) == (ra == rb), f"{fn.__name__}: {a} vs {b}: {x_}, {y_}", "order")
        check(fn(Symbol(case["a"])) == x_, "a neutral symbol has another key", "order")
        want = [b, a] if ref_less(rb, ra) else [a, b]
        check(sorted([a, b], key=fn) == want, f"sorted({a}, {b}) by {fn.__name__}", "order")
        ctx.state(fn.__name__, case["a"], case["b"])


def run_sort_list(case, ctx):
    from functools import cmp_to_key

    names = case["names"]
    for fn, rev in ((natural_key, False), (natural_key_revlex, True)):
        def k(nm):
            s = split(nm)
            return s[::-1] if rev else s

        want = sorted(names, key=cmp_to_key(lambda p, q: -1 if ref_less(k(p), k(q)) else 1 if ref_less(k(q), k(p)) else 0))
        got = [s.name for s in sorted([S(nm) for nm in names], key=fn)]
        ctx.step()
        check(got == want, f"{names} sorted by {fn.__name__}: {got} instead of {want}", "order")
    if case.get("fixed"):
        order = case["fixed"]
        want = sorted(names, key=lambda nm: (int(nm.split("_")[1]), order.index(nm.split("_")[0])))
        for o in (list(order), tuple(order)):
            got = [s.name for s in sorted([S(nm) for nm in names], key=natural_key_fixed_names_order(o))]
            ctx.step()
            check(got == want, f"{names} sorted with names in order {order}: {got} instead of {want}", "order")
    ctx.state(tuple(names))


TEXT = ["beta_", "theta_", "b", "", "_", "beta", "x²", "²", "Ω_"]
NUMS = ["", "0", "1", "2", "9", "10", "12", "100", "007", "99999999999999999999"]


def cases_sort(tier):
    nums = NUMS if tier != "quick" else NUMS[:8]
    names = [t + n for t in TEXT for n in nums if t + n]
    for a, b in itertools.product(names, repeat=2):
        yield {"a": a, "b": b}
    two = [f"{t}{i}{s}{j}{u}" for t in ("a_", "") for i in (2, 10, 1) for s in ("_", "²", "b") for j in (3, 11) for u in ("", "z")]
    for a, b in itertools.product(two, repeat=2):
        yield {"a": a, "b": b}
    for a, b in itertools.product(two[::5] + names[::9], repeat=2):
        yield {"a": a, "b": b}
    # integers on both sides of every power of ten
    big = [str(10**k + d) for k in range(1, 13 if tier == "quick" else 25) for d in (-1, 0, 1)] + ["0" * k + "5" for k in range(1, 7)]
    for t in ("beta_", "", "x3_"):
        for a, b in itertools.product(big, repeat=2):
            yield {"a": t + a, "b": t + b}
    wordy = [f"{a}_{b}_{c}" for a in ("a", "layer") for b in (999, 1000, 12345) for c in (2, 10000, 9999)]
    for a, b in itertools.product(wordy + ["a_1000", "a", "layer_999"], repeat=2):
        yield {"a": a, "b": b}


def cases_sort_list(tier):
    base = ["beta_10", "beta_2", "theta_1", "theta_10", "beta_1", "theta_2"]
    for p in itertools.permutations(base):
        yield {"names": list(p), "fixed": ["theta", "beta"]}
    for p in itertools.permutations(["gamma_0", "beta_0", "gamma_12", "beta_3", "alpha_3"]):
        yield {"names": list(p), "fixed": ["gamma", "alpha", "beta"]}
    for p in itertools.permutations(["beta_1000", "beta_999", "alpha_1000", "alpha_99999", "beta_100000"]):
        yield {"names": list(p), "fixed": ["beta", "alpha"]}
    for p in itertools.permutations(["x10y2", "x2y10", "x2y9", "x", "x2", "10x"]):
        yield {"names": list(p)}


FAMILIES = [
    Family("depth-1", cases_depth1, run_tree, "every operator on every leaf (pair of 23 leaves), n-ary sums and products to 4; evaluated and unevaluated"),
    Family("depth-2", cases_depth2, run_tree, "every operator over every depth-1 tree on 6 (12) leaves and a leaf, both orders"),
    Family("depth-2-pairs", cases_depth2_pairs, run_tree, "every binary operator on every pair of depth-1 trees over 3 (5) leaves"),
    Family("depth-3", cases_depth3, run_tree, "every chain of 3 of 25 (38) steps; nesting to depth 40"),
    Family("leaves", cases_leaf, run_leaf, "60 numbers (floats of full length, rationals near 1/2 and -1, big integers) and 47 odd names in each of 21 places"),
    Family("n-ary", cases_nary, run_nary, "every sum and product of 3..5 (6) terms, each plain, negated or inverted, to 6 (8) with two kinds, of 7..65 (129) in 6 patterns; 2 and 3 terms of 6 kinds in 5 contexts"),
    Family("outside", cases_outside, run_outside, "every unsupported construct and every reserved name, in 17 contexts"),
    Family("trees", cases_handmade, run_handmade, "hand-made neutral trees of depth <=2, an unknown element at every place"),
    Family("natural-order", cases_sort, run_sort, "every ordered pair of generated names"),
    Family("sorting", cases_sort_list, run_sort_list, "every permutation of name lists"),
]

"""C11: operators and result artefacts survive dict, file and text round trips."""
import io
import itertools
import json
import os
import pathlib
import shutil
import tempfile

import numpy as np
import rapidjson

from orquestra.quantum.circuits import layouts
from orquestra.quantum.measurements import (
    ExpectationValues,
    Measurements,
    Parities,
    get_parities_from_measurements,
    load_expectation_values,
    load_parities,
    save_expectation_values,
    save_parities,
)
from orquestra.quantum.operators import (
    PauliSum,
    PauliTerm,
    convert_dict_to_op,
    convert_op_to_dict,
    load_operator,
    load_operator_set,
    save_operator,
    save_operator_set,
)
from orquestra.quantum.utils import (
    ValueEstimate,
    load_list,
    load_nmeas_estimate,
    load_value_estimate,
    save_list,
    save_nmeas_estimate,
    save_value_estimate,
)

from . import paulis as P
from .core import Family, check

T = P.T
ASSUMPTIONS = [
    "coefficients are Python int/float/complex or numpy float64/complex128 of magnitude below 1e38",
    "negative zero equals zero; a complex coefficient without imaginary part may come back as a float of the same value",
    "operators are compared after a Pauli sum may have dropped coefficients below 1e-8 per addition",
    "artefacts without their own __eq__ are compared field by field, arrays by shape and elements",
    "save functions are given a path, load functions a path (str, bytes, pathlib) or an open file (text, binary, StringIO)",
]
HOW = ["str", "path", "bytes", "handle", "binary", "stringio"]
SAVE_AS = ["str", "path", "bytes"]


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="mc-")
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, kind, name="artefact.json"):
        p = os.path.join(self.dir, name)
        return {"str": p, "path": pathlib.Path(p), "bytes": p.encode()}[kind]

    def load(self, load, kind, name="artefact.json"):
        p = os.path.join(self.dir, name)
        if kind == "handle":
            with open(p) as f:
                return load(f)
        if kind == "binary":
            with open(p, "rb") as f:
                return load(f)
        if kind == "stringio":
            with open(p) as f:
                return load(io.StringIO(f.read()))
        return load(self.path(kind, name))


def round_trips(save, load, compare, ctx, hows=HOW, saves=SAVE_AS):
    """Save once per kind of path, load back through every kind of source."""
    with Scratch() as s:
        for sv in saves:
            save(s.path(sv))
            for how in hows if sv == saves[0] else hows[:1]:
                back = s.load(load, how)
                compare(back, f"saved to a {sv} path, loaded from {how}")
                ctx.step()
        # overwriting an older, longer file
        with open(s.path("str"), "a") as f:
            f.write(" " * 10)
        save(s.path("str"))
        compare(s.load(load, "str"), "saved over an existing file")
        ctx.step()


# --------------------------------------------------------------------- operators
def np_coef(c, cast):
    c = P.coef(c)
    if cast == "np":
        return np.complex128(c) if isinstance(c, complex) else np.float64(c)
    return c


def build(spec, cast=None):
    if "sum" in spec:
        return PauliSum([build(t, cast) for t in spec["sum"]])
    whole = np.int64 if cast == "np" else int
    return PauliTerm({whole(q): o for q, o in spec["o"]}, np_coef(spec["c"], cast))


def simplified(op):
    seen = [t.operations for t in op.terms]
    return len(set(seen)) == len(seen) and all(abs(t.coefficient) > 1e-8 for t in op.terms)


def compare_op(back, op, spec, what):
    check(isinstance(back, (PauliSum, PauliTerm)), f"{what}: got {type(back)}", "type")
    qs = sorted(P.spec_qubits(spec) | set(back.qubits))
    extra = set(back.qubits) - P.spec_qubits(spec)
    check(not extra, f"{what}: acts on qubits {extra} that {op} does not mention", "qubits")
    want = P.spec_matrix(spec, qs)
    got = P.matrix(back, qs)
    scale = max(1.0, np.max(np.abs(want)))
    tol = 1e-8 * max(1, len(op.terms)) + 1e-12 * scale
    check(np.max(np.abs(got - want)) <= tol, f"{what}: {back!r} is not {op!r}", "matrix")
    if simplified(op):
        a = {t.operations: complex(t.coefficient) for t in op.terms}
        b = {t.operations: complex(t.coefficient) for t in back.terms}
        check(a == b and len(back.terms) == len(op.terms), f"{what}: terms {b}, expected {a}", "exact")


def run_dict(case, ctx):
    spec = case["op"]
    op = build(spec, case.get("cast"))
    key = P.key(op)
    d = convert_op_to_dict(op)
    compare_op(convert_dict_to_op(d), op, spec, "dict")
    for name, mod in (("json", json), ("rapidjson", rapidjson)):
        text = mod.dumps(d)
        compare_op(convert_dict_to_op(mod.loads(text)), op, spec, f"{name} text {text[:200]}")
    d2 = json.loads(json.dumps(d))
    copy = json.dumps(d2)
    convert_dict_to_op(d2)
    check(json.dumps(d2) == copy, "the dictionary changed while being converted", "mutated")
    ctx.step(4)
    if case.get("file"):
        round_trips(lambda p: save_operator(op, p), load_operator, lambda b, w: compare_op(b, op, spec, w), ctx)
    check(P.key(op) == key, "the operator changed", "mutated")
    ctx.state(key)


COEFS = [
    1.0, -1, 2.5, 7, [0.0, 1.0], [0.0, -1.0], [1.0, 0.0], [1.0, -0.0], [-0.0, 2.0], [0.1, 0.2], [-0.1, -0.7],
    1e-5, -1e-7, [1e-7, 1.0], [1.0, 1e-7], [0.0, 3e-6], 123456789012345.6, 1e14, [1e14, -1e-7], 1 / 3, 999999999999999,
    0, -0.0, [0.0, 0.0], 3e-9, [2e-8, -2e-8], 0.1 + 0.2, -99999999999999.98, [1e-10, 5.0],
    [0.12345678912345678, 0.0], [-0.98765432198765, 0.0], [0.1234567891234, -0.7654321987654], [0.0, 0.98765432123456], 0.123456789123,
    [1 / 3, 0.0], [12345.678912345, 0.0], 12345.678912345, [2 / 3, 1 / 7],
    1e16, -1e20, 2.5e37, [0.0, 1e20], [1.0, -3e22], [-2e25, 1e16], 10**17,
]
SHORT = [1.0, -2, [0.0, 1.0], [0.5, -1.5], 1e-5, [-1e-7, 0.0], 3]
STRINGS = ["", "X0", "Y0 Z1", "Z3", "X0 Y1 Z2", "X12", "Y3 X10 Z125", "Z1 X0", "X1000000"]


def cases_terms(tier):
    for s in STRINGS:
        for i, c in enumerate(COEFS):
            for cast in (None, "np"):
                yield {"op": T(s, c), "cast": cast, "file": 1 if cast is None else 0}
                yield {"op": {"sum": [T(s, c)]}, "cast": cast, "file": int(i % 3 == 0)}
    n = 3 if tier == "quick" else 5
    for s in P.strings(n):
        for c in SHORT if n == 3 else SHORT[:3]:
            yield {"op": T(s, c)}
    pos = [0, 1, 2, 10, 11, 100]
    for k in (2, 3):
        for qs in itertools.permutations(pos, k):
            for ops in itertools.product("XYZ", repeat=k):
                if k == 3 and tier == "quick" and qs[0] > qs[1] > qs[2]:
                    continue
                yield {"op": {"o": [[q, o] for q, o in zip(qs, ops)], "c": [0.5, -1.5]}}


def sums(tier):
    yield {"sum": []}
    strs = ["", "X0", "Y0", "Z0 Z11", "X2 Y1"]
    for k in (2, 3):
        for ss in itertools.product(strs, repeat=k):
            for cs in itertools.product(SHORT, repeat=k) if k == 2 else zip(*[SHORT[i:] + SHORT[:i] for i in (0, 3, 5)]):
                yield {"sum": [T(s, c) for s, c in zip(ss, cs)]}
    for a, b in itertools.permutations(COEFS, 2):
        yield {"sum": [T("X0", a), T("", b)]}
    # long sums
    yield {"sum": [T(s, 0.25 * (i + 1) if i % 2 else [0.0, -0.5 * i - 1]) for i, s in enumerate(P.strings(3))]}
    yield {"sum": [T(f"Z{i}", i + 0.5) for i in range(0, 130, 13)]}
    if tier != "quick":
        for ss in itertools.product(strs, repeat=4):
            for sh in range(3):
                yield {"sum": [T(s, SHORT[(i + sh) % 7]) for i, s in enumerate(ss)]}
        for ss in itertools.product(strs[:4], repeat=3):
            for cs in itertools.product(SHORT, repeat=3):
                yield {"sum": [T(s, c) for s, c in zip(ss, cs)]}


def cases_sums(tier):
    for i, spec in enumerate(sums(tier)):
        yield {"op": spec, "file": int(i < 30 or i % 10 == 0)}
        if i % 7 == 0:
            yield {"op": spec, "cast": "np"}


def run_sets(case, ctx):
    specs = case["ops"]
    ops = [build(s) for s in specs]

    def compare(back, what):
        check(isinstance(back, list) and len(back) == len(ops), f"{what}: {len(back)} operators", "length")
        for b, o, s in zip(back, ops, specs):
            compare_op(b, o, s, what)

    round_trips(lambda p: save_operator_set(ops, p), load_operator_set, compare, ctx)
    ctx.state(tuple(P.key(o) for o in ops))


def cases_sets(tier):
    alpha = [{"sum": []}, T("", 0.5), T("X0", [0.0, -1.0]), {"sum": [T("Z0 X12"), T("", [1.0, 2.0])]},
             {"sum": [T("Y1", 1e-5), T("X0", -3)]}, {"sum": [T("X0"), T("X0", 2.0)]}]
    for k in range(0, 4 if tier == "quick" else 5):
        for ops in itertools.product(alpha, repeat=k):
            yield {"ops": list(ops)}
    # operators that are equal to the library's tolerance only, or up to the order of terms
    near = [T("X0", 0.5), T("X0", 0.500000004), {"sum": [T("X0", 0.5)]}, {"sum": [T("X0", 0.5 + 1e-9)]}, T("Z3", 1e-9), T("", [0.0, 2e-9]),
            {"sum": [T("X0", 0.5), T("Y1", 2.0)]}, {"sum": [T("Y1", 2.0), T("X0", 0.5 + 3e-9)]}]
    for k in (2, 3):
        for ops in itertools.product(near, repeat=k):
            yield {"ops": list(ops)}


def run_text(case, ctx):
    spec = case["op"]
    op = build(spec, case.get("cast"))
    text = str(op)
    check(text == repr(op), "str and repr differ", "str")
    targets = [PauliSum]
    if "sum" not in spec or len(spec["sum"]) <= 1:
        targets.append(PauliTerm)
    for cls in targets:
        back = cls(text)
        check(isinstance(back, cls), "type", "type")
        qs = sorted(P.spec_qubits(spec))
        check(set(back.qubits) <= set(qs), f"{text!r} parsed to qubits {back.qubits}", "qubits")
        want = P.spec_matrix(spec, qs)
        got = P.matrix(back, qs)
        scale = max(1.0, np.max(np.abs(want)))
        check(np.max(np.abs(got - want)) <= 1e-8 + 1e-12 * scale, f"{text!r} parsed as {back!r}", "matrix")
        check(str(back) == str(cls(str(back))), "printing is not stable", "stable")
        ctx.step(2)
    ctx.state(text)


def cases_text(tier):
    for s in STRINGS:
        for c in COEFS:
            for cast in (None, "np"):
                yield {"op": T(s, c), "cast": cast}
                yield {"op": {"sum": [T(s, c)]}, "cast": cast}
    n = 3 if tier == "quick" else 4
    for s in P.strings(n):
        for c in SHORT:
            yield {"op": T(s, c)}
    for i, spec in enumerate(sums(tier)):
        yield {"op": spec, "cast": "np" if i % 5 == 0 else None}
    for a, b, c in itertools.product(COEFS, repeat=3) if tier != "quick" else zip(COEFS, COEFS[5:] + COEFS[:5], COEFS[9:] + COEFS[:9]):
        yield {"op": {"sum": [T("X0 Y10", a), T("", b), T("Z2", c)]}}


# --------------------------------------------------------------------- arrays
def arr(spec):
    """{"shape": [...], "kind": "f"|"i"|"c"|"f4"|"c8", "k": seed}"""
    n = int(np.prod(spec["shape"])) if spec["shape"] else 1
    k = spec.get("k", 0)
    base = [((i * 7 + 3 * k) % 11 - 5) / 3 * 10.0 ** ((i + k) % 5 - 2) for i in range(n)]
    if spec["kind"] == "i":
        out = np.array([int(b * 10) for b in base], dtype=int)
    elif spec["kind"] in ("c", "c8"):
        if k == 3:  # complex array whose imaginary parts vanish
            out = np.array(base, dtype=complex)
        elif k == 4:  # purely imaginary
            out = 1j * np.array(base, dtype=float)
        else:
            out = np.array([complex(b, ((i * 5 + k) % 7 - 3) / 7) for i, b in enumerate(base)], dtype=complex)
        out = out.astype(np.complex64) if spec["kind"] == "c8" else out
    else:
        out = np.array(base, dtype=float)
        out = out.astype(np.float32) if spec["kind"] == "f4" else out
    return out.reshape(spec["shape"])


def same_array(got, want, what):
    check(isinstance(got, np.ndarray), f"{what}: {type(got)}", "array-type")
    check(got.shape == want.shape, f"{what}: shape {got.shape}, expected {want.shape}", "array-shape")
    check(np.array_equal(got, want), f"{what}: {got}, expected {want}", "array-value")
    check(np.iscomplexobj(got) == np.iscomplexobj(want), f"{what}: dtype {got.dtype}, expected {want.dtype}", "array-kind")


def same_frames(got, want, what):
    if want is None:
        check(got is None, f"{what}: {got!r}, expected None", "frames-none")
        return
    check(isinstance(got, list) and len(got) == len(want), f"{what}: {got!r}, expected {len(want)} frames", "frames")
    for i, (g, w) in enumerate(zip(got, want)):
        same_array(g, w, f"{what}[{i}]")


def frames(spec):
    return None if spec is None else [arr(s) for s in spec]


def run_ev(case, ctx):
    ev = ExpectationValues(arr(case["values"]), frames(case["cor"]), frames(case["cov"]))
    keep = ExpectationValues(arr(case["values"]), frames(case["cor"]), frames(case["cov"]))

    def compare(b, what):
        check(isinstance(b, ExpectationValues), f"{what}: {type(b)}", "type")
        same_array(b.values, keep.values, f"{what}: values")
        same_frames(b.correlations, keep.correlations, f"{what}: correlations")
        same_frames(b.estimator_covariances, keep.estimator_covariances, f"{what}: covariances")
        check(b == keep, f"{what}: loaded object does not compare equal", "eq")

    compare(ExpectationValues.from_dict(ev.to_dict()), "dict")
    compare(ExpectationValues.from_dict(json.loads(json.dumps(ev.to_dict()))), "json")
    ctx.step(2)
    if case.get("file"):
        round_trips(lambda p: save_expectation_values(ev, p), load_expectation_values, compare, ctx)
    compare(ev, "the saved object afterwards")
    ctx.state(json.dumps(case))


def cases_ev(tier):
    kinds = ["f", "i", "c"]
    for n in (0, 1, 2, 3):
        for kv in kinds + ["f4", "c8"]:
            for kv_k in range(5):
                yield {"values": {"shape": [n], "kind": kv, "k": kv_k}, "cor": None, "cov": None, "file": 1}
    opts = [None, []]
    for n in (0, 1, 2, 3):
        for kc in kinds:
            opts.append([{"shape": [n, n], "kind": kc, "k": n}])
    for ka, kb in itertools.product(["f", "c"], repeat=2):
        opts.append([{"shape": [2, 2], "kind": ka, "k": 1}, {"shape": [1, 1], "kind": kb, "k": 3}])
    opts.append([{"shape": [1, 1], "kind": "c", "k": 4}, {"shape": [0, 0], "kind": "c"}, {"shape": [3, 3], "kind": "f", "k": 2}])
    for kv in ("f", "c"):
        for i, (cor, cov) in enumerate(itertools.product(opts, repeat=2)):
            yield {"values": {"shape": [2], "kind": kv, "k": 1}, "cor": cor, "cov": cov, "file": int(i % 3 == 0 or tier != "quick")}
    for n in (5, 9, 10, 11, 17, 33, 70):
        for kv, kc in (("f", "f"), ("c", "c"), ("f", "c")):
            frame = [{"shape": [n, n], "kind": kc, "k": n}]
            for cor, cov in ((None, None), (frame, None), (frame, frame[::-1]), (None, frame)):
                yield {"values": {"shape": [n], "kind": kv, "k": n}, "cor": cor, "cov": cov, "file": 1}
    for m in (4, 9, 10, 11, 12, 33):
        frames = [{"shape": [1 + i % 3] * 2, "kind": "fc"[i % 2], "k": i} for i in range(m)]
        yield {"values": {"shape": [2 * m], "kind": "c", "k": 1}, "cor": frames, "cov": frames[::-1], "file": 1}


def run_parities(case, ctx):
    if "shots" in case:
        op = PauliSum([PauliTerm({q: "Z" for q in qs}) for qs in case["terms"]])
        p = get_parities_from_measurements([tuple(s) for s in case["shots"]], op)
        vals, cor = np.array(p.values), [np.array(c) for c in p.correlations]
    else:
        vals, cor = arr(case["values"]), frames(case["cor"])
        p = Parities(arr(case["values"]), frames(case["cor"]))

    def compare(b, what):
        check(isinstance(b, Parities), f"{what}: {type(b)}", "type")
        same_array(b.values, vals, f"{what}: values")
        same_frames(b.correlations, cor, f"{what}: correlations")

    compare(Parities.from_dict(p.to_dict()), "dict")
    compare(Parities.from_dict(json.loads(json.dumps(p.to_dict()))), "json")
    ctx.step(2)
    round_trips(lambda q: save_parities(p, q), load_parities, compare, ctx)
    ctx.state(json.dumps(case))


def cases_parities(tier):
    opts = [None, []] + [[{"shape": [n, n, 2], "kind": k, "k": n}] for n in (0, 1, 2, 3) for k in ("f", "i")]
    opts.append([{"shape": [2, 2, 2], "kind": "i", "k": 1}, {"shape": [1, 1, 2], "kind": "f", "k": 2}])
    for n in (0, 1, 2, 3):
        for kv in ("f", "i"):
            for cor in opts:
                yield {"values": {"shape": [n, 2], "kind": kv, "k": 1}, "cor": cor}
    for n in (4, 5, 9, 10, 11, 17, 33, 70):
        for kv in ("f", "i"):
            for cor in (None, [{"shape": [n, n, 2], "kind": kv, "k": n}]):
                yield {"values": {"shape": [n, 2], "kind": kv, "k": 1}, "cor": cor}
    for m in (4, 9, 10, 11, 12, 33):
        yield {"values": {"shape": [2 * m, 2], "kind": "i", "k": 1}, "cor": [{"shape": [1 + i % 3, 1 + i % 3, 2], "kind": "i", "k": i} for i in range(m)]}
    subs = [[], [0], [1], [0, 1]]
    words = list(itertools.product((0, 1), repeat=2))
    for k in (0, 1, 2):
        for shots in itertools.product(words, repeat=k):
            for m in (0, 1, 2):
                for terms in itertools.product(subs, repeat=m):
                    if tier == "quick" and k == 2 and m == 2 and shots[0] > shots[1]:
                        continue
                    yield {"shots": [list(s) for s in shots], "terms": list(terms)}


def run_meas(case, ctx):
    cast = {"int": int, "int8": np.int8, "int64": np.int64}[case["bits"]]
    shots = [tuple(cast(b) for b in s) for s in case["shots"]]
    m = Measurements(list(shots))

    def compare(b, what):
        check(isinstance(b, Measurements), f"{what}: {type(b)}", "type")
        check(b.bitstrings == shots, f"{what}: {b.bitstrings[:5]}, expected {shots[:5]}", "shots")
        check(all(isinstance(s, tuple) for s in b.bitstrings), f"{what}: shots are not tuples", "tuples")
        check(b.get_counts() == m.get_counts(), f"{what}: counts", "counts")

    round_trips(m.save, Measurements.load_from_file, compare, ctx)
    compare(m, "the saved object afterwards")
    ctx.state(tuple(map(tuple, case["shots"])))


def cases_meas(tier):
    plan = {0: 2, 1: 4, 2: 3, 3: 2} if tier == "quick" else {0: 3, 1: 6, 2: 4, 3: 3, 4: 2}
    for w, nmax in plan.items():
        words = list(itertools.product((0, 1), repeat=w))
        for n in range(nmax + 1):
            for shots in itertools.product(words, repeat=n):
                for bits in ("int", "int8") if n < 3 else ("int",):
                    yield {"shots": [list(s) for s in shots], "bits": bits}
    yield {"shots": [[(i * j) % 3 % 2 for i in range(70)] for j in range(40)], "bits": "int64"}
    for n in (9, 10, 11, 99, 100, 101, 257, 1000, 1025):
        yield {"shots": [[(j * j + 3 * j) >> i & 1 for i in range(7)] for j in range(n)], "bits": "int"}
        yield {"shots": [[int(i == j % 12) for i in range(12)] for j in range(n)], "bits": "int8"}


def num_of(x):
    if isinstance(x, dict):
        return {"np64": np.float64, "np32": np.float32, "npint": np.int64, "inf": lambda v: float("inf")}[x["t"]](x["v"])
    return x


def run_value(case, ctx):
    v, p = num_of(case["v"]), num_of(case["p"])
    ve = ValueEstimate(v) if case["p"] == "absent" else ValueEstimate(v, p)
    want_p = None if case["p"] == "absent" else p

    def compare(b, what):
        check(isinstance(b, ValueEstimate), f"{what}: {type(b)}", "type")
        check(float(b) == float(v), f"{what}: value {float(b)}, expected {float(v)}", "value")
        check((b.precision is None) == (want_p is None), f"{what}: precision {b.precision}, expected {want_p}", "precision")
        check(b.precision == want_p, f"{what}: precision {b.precision}, expected {want_p}", "precision")
        check(b == ve, f"{what}: not equal", "eq")

    compare(ValueEstimate.from_dict(ve.to_dict()), "dict")
    compare(ValueEstimate.from_dict(json.loads(json.dumps(ve.to_dict()))), "json")
    round_trips(lambda q: save_value_estimate(ve, q), load_value_estimate, compare, ctx)
    ctx.step(2)
    ctx.state(str(case))


def cases_value(tier):
    vals = [0, 0.0, -0.0, 1, -1.5, 1e-12, 1e300, 1 / 3, 2**53, {"t": "np64", "v": 0.1}, {"t": "np32", "v": 0.1},
            {"t": "npint", "v": 7}, -7]
    precs = ["absent", None, 0, 0.0, 1e-9, 0.25, 3, 1 / 7, {"t": "np64", "v": 0.1}, {"t": "np32", "v": 0.1},
             {"t": "npint", "v": 7}, {"t": "inf", "v": 0}]
    for v, p in itertools.product(vals, precs):
        yield {"v": v, "p": p}


def run_list(case, ctx):
    lst = case["list"]
    keep = json.dumps(lst)

    def compare(b, what):
        check(b == lst and type(b) is list and json.dumps(b) == keep, f"{what}: {b!r}, expected {lst!r}", "list")

    round_trips(lambda p: save_list(lst, p), load_list, compare, ctx)
    ctx.state(keep)


def cases_list(tier):
    atoms = [0, -1, 1.5, 1e-7, 1 / 3, "a", "", "caf\u00e9 \u03b8", None, True, [], [1, [2.5]], {"k": [1]}]
    for k in range(0, 3 if tier == "quick" else 4):
        for l in itertools.product(atoms, repeat=k):
            yield {"list": list(l)}
    for n in (9, 10, 11, 100, 1001):
        yield {"list": [i * 0.1 for i in range(n)]}
        yield {"list": [[i, [n - i]] for i in range(n)]}
        yield {"list": (atoms * n)[:n]}


def run_layout(case, ctx):
    kind = case["kind"]
    if kind == "layers":
        data = [[tuple(g) for g in layer] for layer in case["data"]]
        obj = layouts.CircuitLayers([list(x) for x in data])
        def compare(b, what):
            check(isinstance(b, layouts.CircuitLayers), f"{what}: {type(b)}", "type")
            check(b.layers == data, f"{what}: {b.layers}, expected {data}", "layers")
        compare(layouts.CircuitLayers.from_dict(obj.to_dict()), "dict")
        round_trips(lambda p: layouts.save_circuit_layers(obj, p), layouts.load_circuit_layers, compare, ctx)
    elif kind == "connectivity":
        data = [tuple(g) for g in case["data"]]
        obj = layouts.CircuitConnectivity(list(data))
        def compare(b, what):
            check(isinstance(b, layouts.CircuitConnectivity), f"{what}: {type(b)}", "type")
            check(b.connectivity == data, f"{what}: {b.connectivity}, expected {data}", "connectivity")
        compare(layouts.CircuitConnectivity.from_dict(obj.to_dict()), "dict")
        round_trips(lambda p: layouts.save_circuit_connectivity(obj, p), layouts.load_circuit_connectivity, compare, ctx)
    elif kind == "ordering":
        data = list(case["data"])
        def compare(b, what):
            check(b == data, f"{what}: {b}, expected {data}", "ordering")
        round_trips(lambda p: layouts.save_circuit_ordering(data, p), layouts.load_circuit_ordering, compare, ctx)
    elif kind == "built":
        con, lay = layouts.build_circuit_layers_and_connectivity(case["x"], case.get("y"), case["type"])
        ld = [list(x) for x in lay.layers]
        cd = list(con.connectivity)
        def compare(b, what):
            check(b.layers == ld, f"{what}: {b.layers}", "layers")
        def compare2(b, what):
            check(b.connectivity == cd, f"{what}: {b.connectivity}", "connectivity")
        round_trips(lambda p: layouts.save_circuit_layers(lay, p), layouts.load_circuit_layers, compare, ctx)
        round_trips(lambda p: layouts.save_circuit_connectivity(con, p), layouts.load_circuit_connectivity, compare2, ctx)
    ctx.state(json.dumps(case))


def cases_layout(tier):
    groups = [[0, 1], [1, 2], [10, 3], [0, 1, 2], [5]]
    for k in range(0, 4):
        for gs in itertools.product(groups, repeat=k):
            if k == 3 and tier == "quick" and gs[0] != groups[0]:
                continue
            yield {"kind": "connectivity", "data": list(gs)}
            yield {"kind": "layers", "data": [list(gs)]}
            if k >= 1:
                yield {"kind": "layers", "data": [list(gs[:1]), list(gs[1:]), []]}
    yield {"kind": "layers", "data": []}
    for n in range(0, 5):
        for p in itertools.permutations(range(n)):
            yield {"kind": "ordering", "data": list(p)}
    for n in (9, 10, 11, 12, 25, 101):
        for data in (list(range(n)), list(range(n))[::-1], [(i * 7 + 3) % n for i in range(n)] if n % 7 else list(range(n))):
            yield {"kind": "ordering", "data": data}
        pairs = [[i, (i * 5 + 1) % (n + 1)] for i in range(n)]
        yield {"kind": "connectivity", "data": pairs}
        yield {"kind": "layers", "data": [pairs]}
        yield {"kind": "layers", "data": [pairs[: i % 4] for i in range(n)]}
    for x in range(1, 8):
        yield {"kind": "built", "x": x, "type": "nearest-neighbor"}
    for x in range(1, 4):
        for y in range(2, 5):
            yield {"kind": "built", "x": x, "y": y, "type": "sycamore"}


def run_nmeas(case, ctx):
    fm = None if case["frame"] is None else arr(case["frame"])
    keep = None if fm is None else fm.copy()
    K = num_of(case["K"])

    def save(p):
        if fm is None and case["how"] == "omit":
            save_nmeas_estimate(K, case["nterms"], p)
        else:
            save_nmeas_estimate(K, case["nterms"], p, fm)

    def compare(b, what):
        check(len(b) == 3, f"{what}: {b}", "length")
        check(b[0] == K, f"{what}: K={b[0]}, expected {K}", "K")
        check(b[1] == case["nterms"], f"{what}: nterms={b[1]}", "nterms")
        if keep is None:
            check(b[2] is None, f"{what}: frame measurements {b[2]}, expected None", "frame")
        else:
            same_array(b[2], keep, f"{what}: frame measurements")

    round_trips(save, load_nmeas_estimate, compare, ctx)
    ctx.state(str(case))


def cases_nmeas(tier):
    fr = [None] + [{"shape": [n], "kind": k, "k": j} for n in (0, 1, 3, 6, 11, 100) for k in ("f", "i") for j in (0, 2)]
    for K in (0, 0.0, 1, 2.5, 1e7 / 3, 1e-9, {"t": "np64", "v": 0.1}):
        for nt in (0, 1, 14, 10**9):
            for f in fr:
                for how in ("omit", "pass") if f is None else ("pass",):
                    yield {"K": K, "nterms": nt, "frame": f, "how": how}


FAMILIES = [
    Family("terms", cases_terms, run_dict,
           "9 strings x 29 coefficients x {python, numpy}, every string on 3 (5) qubits, every placement of 2 and 3 "
           "factors on qubits {0,1,2,10,11,100}; dict, JSON text, and files through every kind of path and handle"),
    Family("sums", cases_sums, run_dict, "all sums of 2 (3) terms over 5 strings x 7 coefficients, all coefficient pairs, long sums"),
    Family("sets", cases_sets, run_sets, "all lists of <=3 (4) operators out of 6"),
    Family("text", cases_text, run_text, "the same terms and sums printed and parsed"),
    Family("expectation-values", cases_ev, run_ev, "value arrays of 0..3, 5..70 elements, 0..3, to 33 frames, real/int/complex"),
    Family("parities", cases_parities, run_parities, "arrays of 0..3, 4..70 terms, 0..2, to 33 frames; tallies of all <=2 2-bit shots"),
    Family("measurements", cases_meas, run_meas, "every list of <=4/3/2 shots on 1/2/3 bits, widths 0 and 70, up to 1025 shots"),
    Family("value-estimates", cases_value, run_value, "13 values x 12 precisions"),
    Family("lists", cases_list, run_list, "every list of <=2 (3) items over 13 JSON values, up to 1001 items"),
    Family("layouts", cases_layout, run_layout, "lists of <=3 groups, to 101 pairs and layers, all orderings of <=4, to 101; all built layouts up to 3x4"),
    Family("nmeas", cases_nmeas, run_nmeas, "7 x 4 x 17 estimates"),
]

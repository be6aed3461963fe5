"""C10: statistics computed from measurements are the exact sample statistics."""
import itertools
from fractions import Fraction

import numpy as np

from orquestra.quantum.measurements import (
    Measurements,
    check_parity,
    get_expectation_value_from_frequencies,
    get_parities_from_measurements,
)
from orquestra.quantum.operators import PauliSum, PauliTerm

from .core import Family, check

ASSUMPTIONS = [
    "sample means are recomputed exactly in rationals; floating results are compared to 1e-9 relative",
    "Bessel-corrected covariances are only asked for with at least two shots, means with at least one shot",
    "bits are Python or numpy integers",
]


def near(got, want, what, tag, scale=1.0):
    got = complex(got)
    want = complex(want)
    check(abs(got - want) <= 1e-9 * max(abs(scale), abs(want)), f"{what}: got {got}, expected {want}", tag)


def eig(bits, qubits):
    return -1 if sum(int(bits[q]) for q in qubits) % 2 else 1


def mean(shots, qubits):
    return Fraction(sum(eig(b, qubits) * k for b, k in shots), sum(k for _, k in shots))


def build_op(terms, form):
    """terms: list of [qubits, coef]"""
    ts = [PauliTerm({q: "Z" for q in qs}, c if not isinstance(c, list) else complex(*c)) for qs, c in terms]
    if form == "term":
        return ts[0]
    if form == "np":
        ts = [PauliTerm({q: "Z" for q in qs}, np.float64(c)) for qs, c in terms]
    if form == "identity":  # explicit identity factors and reversed insertion order
        ts = [
            PauliTerm({**{q: "I" for q in range(1)}, **{q: "Z" for q in reversed(qs)}}, c) for qs, c in terms
        ]
    if form == "tuple":
        return PauliSum(tuple(ts))
    return PauliSum(ts)


def coef(c):
    return complex(*c) if isinstance(c, list) else c


def expand_shots(case):
    cast = {None: int, "int8": np.int8, "int64": np.int64}[case.get("bits")]
    return [tuple(cast(x) for x in b) for b, k in case["shots"] for _ in range(k)]


def check_values(m, shots, terms, form, ctx, bessel):
    n = sum(k for _, k in shots)
    op = build_op(terms, form)
    ev = m.get_expectation_values(op, use_bessel_correction=bessel) if bessel else m.get_expectation_values(op)
    ctx.step()
    check(len(ev.values) == len(terms), f"{len(ev.values)} values for {len(terms)} terms", "length")
    means = [mean(shots, qs) for qs, _ in terms]
    cs = [coef(c) for _, c in terms]
    for i, (qs, _) in enumerate(terms):
        near(ev.values[i], cs[i] * float(means[i]), f"value of term {i} Z{qs}", "value", cs[i])
    check(len(ev.correlations) == 1 and len(ev.estimator_covariances) == 1, "number of frames", "frames")
    cor, cov = np.asarray(ev.correlations[0]), np.asarray(ev.estimator_covariances[0])
    check(cor.shape == (len(terms),) * 2 == cov.shape, f"shapes {cor.shape} {cov.shape}", "shape")
    den = n - 1 if bessel else n
    for i in range(len(terms)):
        for j in range(len(terms)):
            pair = Fraction(sum(eig(b, terms[i][0]) * eig(b, terms[j][0]) * k for b, k in shots), n)
            want = cs[i] * cs[j] * float(pair)
            near(cor[i, j], want, f"correlation of terms {terms[i]}, {terms[j]}", "correlation", cs[i] * cs[j])
            cv = cs[i] * cs[j] * float((pair - means[i] * means[j]) / den)
            got = complex(cov[i, j])
            check(abs(got - cv) <= 1e-9 * max(abs(cs[i] * cs[j]) / den, abs(cv)),
                  f"covariance of terms {terms[i]}, {terms[j]} (bessel={bessel}): got {got}, expected {cv}", "covariance")
    ctx.state(tuple(np.round(np.asarray(ev.values, dtype=complex), 9)), n, bessel)


def check_parities(raw, shots, terms, form, ctx):
    par = get_parities_from_measurements(raw, build_op(terms, form))
    ctx.step()
    vals = np.asarray(par.values)
    check(len(vals) == len(terms), "parities length", "length")
    for i, (qs, _) in enumerate(terms):
        even = sum(k for b, k in shots if eig(b, qs) == 1)
        odd = sum(k for b, k in shots if eig(b, qs) == -1)
        check(vals[i][0] == even and vals[i][1] == odd,
              f"parity tally of Z{qs}: got {list(vals[i])}, expected {[even, odd]}", "parity")
        for j, (qt, _) in enumerate(terms):
            e = sum(k for b, k in shots if eig(b, qs) * eig(b, qt) == 1)
            o = sum(k for b, k in shots if eig(b, qs) * eig(b, qt) == -1)
            c = par.correlations[0][i][j]
            check(c[0] == e and c[1] == o,
                  f"pair tally of Z{qs} Z{qt}: got {list(c)}, expected {[e, o]}", "pair-parity")


def tally(shots):
    out = {}
    for b, k in shots:
        if k:
            s = "".join(map(str, b))
            out[s] = out.get(s, 0) + k
    return out


def check_counts(m, shots, ctx, distribution=True):
    n = sum(k for _, k in shots)
    want = tally(shots)
    got = m.get_counts()
    check(dict(got) == want, f"counts {got}, expected {want}", "counts")
    check(sum(got.values()) == n == len(m.bitstrings), f"counts sum to {sum(got.values())}, {n} shots", "count-sum")
    check(all(type(k) is str for k in got), f"keys of counts: {list(got)}", "count-keys")
    back = Measurements.from_counts(got)
    check(dict(back.get_counts()) == want, f"from_counts(get_counts()): {back.get_counts()}", "counts-inverse")
    check(
        sorted(back.bitstrings) == sorted(tuple(b) for b, k in shots for _ in range(k)),
        f"from_counts gives shots {back.bitstrings[:6]}", "from-counts-shots",
    )
    ctx.step(3)
    if n and distribution:
        d = m.get_distribution().distribution_dict
        check(sorted(d) == sorted({tuple(b) for b, k in shots if k}), f"distribution keys {list(d)}", "distribution-keys")
        for b, p in d.items():
            near(p, Fraction(want["".join(map(str, b))], n), f"distribution[{b}]", "distribution")
        ctx.step()
    ctx.state(tuple(sorted(got.items())))


def run_stats(case, ctx):
    shots = [(tuple(b), k) for b, k in case["shots"]]
    n = sum(k for _, k in shots)
    terms = case["terms"]
    form = case.get("form", "sum")
    raw = expand_shots(case)
    order = list(raw)
    if n:
        m = Measurements(list(raw))
        check_counts(m, shots, ctx)
        check_values(m, shots, terms, form, ctx, False)
        if n > 1:
            check_values(m, shots, terms, form, ctx, True)
        freq = m.get_counts()
        for qs, _ in terms:
            for marked in (set(qs), list(qs), tuple(reversed(qs)), frozenset(qs)):
                got = get_expectation_value_from_frequencies(marked, freq)
                near(got, mean(shots, qs), f"expectation of Z{qs} from frequencies {freq}", "frequencies")
            got = get_expectation_value_from_frequencies((q for q in qs), freq)
            near(got, mean(shots, qs), f"expectation of Z{qs} from frequencies, generator", "frequencies")
            ctx.step(5)
            for b, _ in shots:
                want = eig(b, qs) == 1
                check(bool(check_parity(b, qs)) == want, f"check_parity({b},{qs})", "check-parity")
                check(bool(check_parity("".join(map(str, b)), qs)) == want, f"check_parity(str {b},{qs})", "check-parity")
        check(m.bitstrings == order, "the shots changed while computing statistics", "mutated")
    else:
        check_counts(Measurements(list(raw)), shots, ctx)
    check_parities(raw, shots, terms, form, ctx)
    check(raw == order, "the list of shots changed", "mutated")


def subsets(w):
    return [list(s) for k in range(w + 1) for s in itertools.combinations(range(w), k)]


COEFS = [1.0, -0.5, 2, 0.25, -3, 1e-3, 7.5, 0, 1.0, -1.0]


def big_op(w):
    """Every subset of qubits as a term, three of them twice: all pairs of supports at once."""
    subs = subsets(w)
    subs = subs + [[], subs[-1], subs[1 % len(subs)]]
    return [[s, COEFS[i % len(COEFS)]] for i, s in enumerate(subs)]


def cases_lists(tier):
    plan = {0: 3, 1: 8, 2: 5, 3: 4, 4: 2} if tier == "quick" else {0: 4, 1: 9, 2: 6, 3: 4, 4: 3, 5: 2}
    for w, nmax in plan.items():
        words = list(itertools.product((0, 1), repeat=w))
        for n in range(0, nmax + 1):
            for lst in itertools.product(words, repeat=n):
                yield {"shots": [[list(b), 1] for b in lst], "terms": big_op(w)}


def cases_ops(tier):
    """Every small operator over a 3-qubit register on fixed sample sets."""
    sets = [
        [["000", 1]],
        [["101", 1]],
        [["011", 2], ["100", 1]],
        [["000", 3], ["001", 1], ["010", 4], ["011", 1], ["100", 5], ["101", 9], ["110", 2], ["111", 6]],
    ]
    sets = [[[[int(x) for x in b], k] for b, k in s] for s in sets]
    subs = subsets(3)
    cs = [1.0, -2, 0.5] if tier == "quick" else [1.0, -2, 0.5, 0, [0.5, 0.0]]
    for s in sets:
        yield {"shots": s, "terms": []}
        for q in subs:
            for c in COEFS + [[2.0, 0.0], [0.0, 2.0], [1.0, -0.5], 1 / 3]:
                for form in ("term", "sum", "tuple"):
                    yield {"shots": s, "terms": [[q, c]], "form": form}
        for a, b in itertools.product(subs, repeat=2):
            for ca, cb in itertools.product(cs, repeat=2):
                yield {"shots": s, "terms": [[a, ca], [b, cb]]}
            yield {"shots": s, "terms": [[a, 1.5], [b, -0.25]], "form": "np"}
            yield {"shots": s, "terms": [[a, [0.0, 2.0]], [b, [1.0, -0.5]]]}
            yield {"shots": s, "terms": [[a, [0.5, 1.0]], [b, -3]], "form": "tuple"}
            if 0 not in a and 0 not in b:
                yield {"shots": s, "terms": [[a, 1.5], [b, -0.25]], "form": "identity"}
        # terms that are equal to the library's tolerance only
        for a, b in itertools.product(subs, repeat=2):
            for ca, cb in ((1e-9, 6e-9), (0.5, 0.5 + 8e-9), (-4e-9, 4e-9)):
                yield {"shots": s, "terms": [[a, ca], [b, cb], [a, cb]]}
        if tier != "quick":
            for t in itertools.product(subs, repeat=3):
                yield {"shots": s, "terms": [[q, c] for q, c in zip(t, [1.0, -2, 0.5])]}


def cases_weighted(tier):
    """Counts with multiplicities, all supports of 2-bit (3-bit) outcomes."""
    ks = [0, 1, 2, 7] if tier == "quick" else [0, 1, 2, 3, 7, 100]
    words = [[0, 0], [0, 1], [1, 0], [1, 1]]
    for mult in itertools.product(ks, repeat=4):
        yield {"shots": [[b, k] for b, k in zip(words, mult) if k], "terms": big_op(2), "bits": "int8"}
    for w in (3, 5):
        words = [list(b) for b in itertools.product((0, 1), repeat=w)]
        for a, b in itertools.combinations(words, 2):
            if w == 5 and tier == "quick" and (sum(a) + 3 * sum(b)) % 3:
                continue
            yield {"shots": [[a, 3], [b, 997]], "terms": big_op(3), "bits": "int64"}
    # shot numbers around the limits of narrow integers
    sizes = [9, 10, 11, 99, 100, 101, 126, 127, 128, 129, 130, 199, 200, 254, 255, 256, 257, 999, 1000, 1001, 4096]
    for k in sizes + ([32767, 32768, 65535, 65536] if tier == "quick" else [5000, 10000, 32767, 32768, 32769, 65535, 65536, 65537, 100001]):
        yield {"shots": [[[1, 0], k]], "terms": [[[0], 1.0], [[1], 2.0], [[0, 1], -1.0]]}
        yield {"shots": [[[1, 1], k], [[0, 1], 1]], "terms": [[[0], 1.0], [[1], 2.0], [[0, 1], -1.0]]}
        yield {"shots": [[[0, 0], k], [[0, 1], k - 1]], "terms": [[[0], 1.0], [[1], 2.0], [[0, 1], -1.0]]}
    # wide registers: qubit indices of one, two and three digits
    for w in (11, 40, 70, 130):
        for pat in range(4):
            a = [int(i % (pat + 2) == 0) for i in range(w)]
            b = [int((i * i + pat) % 3 == 0) for i in range(w)]
            c = [0] * (w - 1) + [1]
            terms = [[[0], 1.0], [[w - 1], 2.0], [[0, w - 1], -1.0], [list(range(w)), 0.5], [[], 4.0],
                     [[1, 9, 10], 1.0], [list(range(0, w, 2)), -2.0], [[w - 2, w - 1], 3]]
            yield {"shots": [[a, 2], [b, 1], [c, 5]], "terms": terms}
            yield {"shots": [[c, 1]], "terms": terms}


def cases_outcomes(tier):
    """Many distinct outcomes met in every kind of order; supports whose numbers run together."""
    for w in (2, 3, 4, 5, 6, 7) if tier == "quick" else (2, 3, 4, 5, 6, 7, 8):
        d = 2**w
        terms = [[[0], 1.0], [[w - 1], 2.0], [[0, w - 1], -1.0], [list(range(w)), 0.5], [[], 4.0], [[w // 2], 1 / 3]]
        for a in range(1, d, 2 if w < 5 else 2 * w + 1 if tier == "quick" else 6):
            for b in sorted({0, 1, d // 2, d - 1}):
                order = [(a * i + b) % d for i in range(d)]
                for upto in sorted({d, d - 1, d // 2 + 1, 5, 6} & set(range(1, d + 1))):
                    words = [[(x >> (w - 1 - q)) & 1 for q in range(w)] for x in order[:upto]]
                    yield {"shots": [[word, 1 + (i * 7) % 5] for i, word in enumerate(words)], "terms": terms}
                    if w <= 4:  # interleaved: every outcome comes back later
                        yield {"shots": [[word, 1] for word in words + words[::-1] + words[: upto // 2]], "terms": terms}
    if tier != "quick":
        for order in itertools.permutations(range(8), 5):
            yield {"shots": [[[x >> 2, (x >> 1) & 1, x & 1], 1 + i] for i, x in enumerate(order)],
                   "terms": [[[0], 1.0], [[1, 2], 2.0], [[0, 1, 2], -1.0]]}
    groups = [[[1, 2], [12]], [[1, 1 + 9, 2], [11, 2], [1, 12], [1, 1 + 1]], [[0, 1], [1], [10]], [[2, 3], [23]], [[1, 11], [11, 1], [111]],
              [[1, 2, 3], [12, 3], [1, 23], [123]], [[3], [1, 2]], [[4], [0, 4], [0, 1, 3]], [[5], [1, 4], [2, 3], [0, 5]]]
    for group in groups:
        w = max(max(g) for g in group) + 1
        for perm in itertools.permutations(group):
            terms = [[list(g), 1.0 + 0.5 * i] for i, g in enumerate(perm)]
            for one in sorted({q for g in group for q in g}):
                word = [int(q == one) for q in range(w)]
                yield {"shots": [[word, 3]], "terms": terms}
                yield {"shots": [[word, 3], [[0] * w, 1], [[1] * w, 2]], "terms": terms}


# ----------------------------------------------------------- histories on one object
OPS = [("add", {"01": 1}), ("add", {"10": 2, "01": 1}), ("add", {"11": 0}), ("add", {}), ("add", {"00": 3}),
       ("read", None), ("values", None), ("roundtrip", None)]


def run_history(case, ctx):
    model = []
    start = case["start"]
    if start == "empty":
        m = Measurements()
    elif start == "list":
        m = Measurements([(1, 1), (0, 1)])
        model = ["11", "01"]
    else:
        m = Measurements.from_counts({"00": 2, "10": 1})
        model = ["00", "00", "10"]
    terms = [[[0], 1.0], [[0, 1], -2.0], [[], 0.5], [[1], 3]]
    for k in case["ops"]:
        kind, arg = OPS[k]
        if kind == "add":
            given = dict(arg)
            m.add_counts(given)
            check(given == arg, "argument of add_counts changed", "mutated")
            for b, n in arg.items():
                model += [b] * n
        elif kind == "read":
            pass
        elif kind == "roundtrip":
            m = Measurements.from_counts(m.get_counts())
        shots = [(tuple(int(x) for x in b), 1) for b in model]
        check_counts(m, shots, ctx)
        if kind == "values" and model:
            check_values(m, shots, terms, "sum", ctx, False)
        check(sorted(m.bitstrings) == sorted(s for s, _ in shots), f"shots {m.bitstrings}", "shots")
        ctx.step()
    fresh = Measurements()
    check(fresh.bitstrings == [] and fresh.get_counts() == {}, "a new object is not empty", "leak")


def cases_history(tier):
    L = 3 if tier == "quick" else 5
    for start in ("empty", "list", "counts"):
        for k in range(1, L + 1):
            for ops in itertools.product(range(len(OPS)), repeat=k):
                yield {"start": start, "ops": list(ops)}


def run_freq(case, ctx):
    freq = dict(case["freq"])
    shots = [(tuple(int(x) for x in b), k) for b, k in case["freq"]]
    for q in subsets(len(shots[0][0])):
        near(get_expectation_value_from_frequencies(q, freq), mean(shots, q), f"Z{q} in {freq}", "frequencies")
        ctx.step()
    ctx.state(tuple(sorted(freq.items())))


def cases_freq(tier):
    for k in list(range(1, 400 if tier == "quick" else 5000)) + [2**e + d for e in range(9, 60) for d in (-1, 0, 1)]:
        yield {"freq": [["1", k]]}
        yield {"freq": [["0", 1], ["1", k]]}
        yield {"freq": [["01", k], ["11", k], ["10", 1]]}
    ks = [0, 1, 3, 10**6, 10**12 + 1]
    for w in (1, 2):
        words = ["".join(map(str, b)) for b in itertools.product((0, 1), repeat=w)]
        for order in itertools.permutations(words):
            for mult in itertools.product(ks, repeat=len(words)):
                if any(mult):
                    yield {"freq": [[b, k] for b, k in zip(order, mult)]}


FAMILIES = [
    Family("histories", cases_history, run_history, "every sequence of <=3 (5) calls out of 8 on 3 initial objects"),
    Family("lists", cases_lists, run_stats,
           "every list of <=8/5/4/2 shots on 1/2/3/4 qubits (thorough 9/6/4/3/2 on 1..5), every pair of Z supports"),
    Family("operators", cases_ops, run_stats,
           "every term and pair (triple) of Z supports on 3 qubits x coefficients x 4 sample sets x representations"),
    Family("weighted", cases_weighted, run_stats,
           "all multiplicity vectors over 4 outcomes, all pairs of 3- and 5-bit outcomes, shot numbers around narrow-integer limits, registers of 11..130 qubits"),
    Family("outcomes", cases_outcomes, run_stats,
           "up to 2^7 (2^8) distinct outcomes in affine orders, repeated outcomes; supports of registers to 124 qubits whose numbers run together, every order"),
    Family("frequencies", cases_freq, run_freq, "all frequency tables over <=2-bit outcomes, counts up to 1e12; every count to 400 (5000), every power of two to 2^59 +-1"),
]

"""C17: outcome distributions stay normalised; marginals and distances obey their laws."""
import itertools
import json
import math
from fractions import Fraction

import numpy as np

from orquestra.quantum.distributions import (
    MeasurementOutcomeDistribution,
    compute_clipped_negative_log_likelihood,
    compute_jensen_shannon_divergence,
    compute_mmd,
    create_bitstring_distribution_from_probability_distribution,
    evaluate_distribution_distance,
    load_measurement_outcome_distribution,
    load_measurement_outcome_distributions,
    save_measurement_outcome_distribution,
    save_measurement_outcome_distributions,
)

from .c11 import HOW, SAVE_AS, Scratch, round_trips
from .core import Family, check, short

D = MeasurementOutcomeDistribution
ASSUMPTIONS = [
    "weights are Python ints/floats or numpy float64 scalars; a distribution counts as normalised within 1e-9 of 1",
    "weights whose total underflows or overflows a float may be refused with an error instead of normalised",
    "which weight counts when a dictionary spells one outcome in two ways ('01' and (0, 1)) is not part of the property (the repository's "
    "tests rely on the later one replacing the earlier)",
    "the marginal on an empty list of qubits may be refused",
    "the distance laws are checked to within 1e-9; the entropy bound is the exact Gibbs bound H(p) - log(1 + N eps)",
]


def keyof(k, style):
    if style == "tuple":
        return tuple(k)
    if style == "str":
        return "".join(map(str, k))
    if style == "comma":
        return ",".join(map(str, k))
    if style == "np":
        return tuple(np.int64(x) for x in k)
    raise AssertionError(style)


def styles_of(spec):
    n = len(spec[0][0]) if spec else 0
    out = ["tuple", "np"]
    if all(x < 10 for k, _ in spec for x in k):
        out.append("str")
    if n > 1:
        out.append("comma")
    return out


def weight(w, np_=False):
    return np.float64(w) if np_ else w


def as_input(spec, style, npw=False):
    """style is one name, or 'mixed' for a different spelling of every key."""
    st = styles_of(spec)
    return {
        keyof(k, st[i % len(st)] if style == "mixed" else style): weight(w, npw)
        for i, (k, w) in enumerate(spec)
    }


def build(spec, style="tuple"):
    return D(as_input(spec, style))


def exact(spec):
    """Reference: the normalised distribution in exact arithmetic."""
    tot = sum(Fraction(w) for _, w in spec)
    return {tuple(k): Fraction(w) / tot for k, w in spec}


def near(got, want, rel=2e-9):
    return abs(Fraction(float(got)) - want) <= Fraction(rel) * max(abs(want), Fraction(1, 10**300))


def snap(d):
    return [(k, type(k).__name__, repr(v)) for k, v in d.distribution_dict.items()]


def assert_is(dist, want, what, tag):
    got = dist.distribution_dict
    if not (all(type(k) is tuple for k in got) and {tuple(int(x) for x in k) for k in got} == set(want)):
        check(False, f"{what}: outcomes {short(got)} instead of {short(list(want))}", tag)
    for k, w in want.items():
        if not near(got[k], w):
            check(False, f"{what}: outcome {k} has {got[k]!r} instead of {float(w)!r}", tag)
        if not got[k] >= 0:
            check(False, f"{what}: {got}", tag)
    s = sum(Fraction(float(v)) for v in got.values())
    check(abs(s - 1) < Fraction(2, 10**9), f"{what}: probabilities of {short(got)} sum to {float(s)!r}", tag)


# ---- construction ------------------------------------------------------------------------
def run_construct(case, ctx):
    spec = case["spec"]
    want = exact(spec)
    n = len(spec[0][0])
    for style in styles_of(spec) + ["mixed"]:
        for npw in (False, True):
            given = as_input(spec, style, npw)
            before = [(k, v) for k, v in given.items()]
            for call in (lambda: D(given), lambda: D(given, normalize=True), lambda: D(given, True)):
                d = call()
                assert_is(d, want, f"{short(before)} ({style})", "construct")
                check(d.get_number_of_subsystems() == n, f"{d.get_number_of_subsystems()} subsystems in {d}", "subsystems")
                ctx.step()
            check([(k, v) for k, v in given.items()] == before, f"input became {given}, was {before}", "input")
            again = D(dict(d.distribution_dict))
            check(again.distribution_dict == d.distribution_dict, f"renormalising {d} gives {again}", "idempotent")
    ctx.state(n, tuple(sorted(want.items())))


WEIGHTS = [0, 1, 3, 0.5, 1e-12, 1e12, 0.1, 1e-200]


def cases_construct(tier):
    for n in (0, 1, 2, 3):
        keys = list(itertools.product((0, 1), repeat=n))
        top = 3 if tier == "quick" else 4
        for k in range(1, min(len(keys), top) + 1):
            for sup in itertools.combinations(keys, k):
                if n == 3 and k >= 3 and tier == "quick" and sum(map(sum, sup)) % 3:
                    continue
                ws = WEIGHTS if k < 3 else WEIGHTS[:5]
                for w in itertools.product(ws, repeat=k):
                    if sum(w) > 0:
                        yield {"spec": [[list(s), x] for s, x in zip(sup, w)]}
    odd = [[(0,), (12,)], [(7,), (10,), (11,)], [(1, 12), (11, 2)], [(0, 10), (10, 0), (1, 100)], [(9, 9, 9), (0, 0, 10)]]
    for sup in odd:
        for w in itertools.product(WEIGHTS[:5], repeat=len(sup)):
            if sum(w) > 0:
                yield {"spec": [[list(s), x] for s, x in zip(sup, w)]}
    for n in (4, 5, 6):  # every outcome present, in both orders
        keys = list(itertools.product((0, 1), repeat=n))
        for f in (lambda i: 1, lambda i: i, lambda i: 1.0 / (i + 1), lambda i: 10.0 ** (i % 7 - 3)):
            for ks in (keys, keys[::-1]):
                yield {"spec": [[list(s), f(i)] for i, s in enumerate(ks)]}
    # just off normalised
    for e in (1e-7, -1e-7, 3e-9, -3e-9, 1e-10, 1e-3, -1e-5, 0.5, -0.4):
        yield {"spec": [[[0, 1], 0.5], [[1, 0], 0.5 + e]]}
        yield {"spec": [[[1], 1 + e]]}


BIG = [1e308, 1.7e308, 9e307, 1e154, 1e-308, 5e-324, 1e-323, 2.3e-308, 1.0]


def cases_large(tier):
    """Distributions of many outcomes, whose total is only just off one: the tolerance may not grow with the size."""
    for n in (7, 8, 10, 11) if tier == "quick" else (7, 8, 9, 10, 11, 12, 13):
        N = 2**n
        keys = [[(i >> j) & 1 for j in range(n)] for i in range(N)]
        for e in (1e-8, -1e-8, 1e-6, -1e-6, 2e-5, 0.01, 1.0, -0.5) if n < 11 else (1e-6, -1e-8):
            yield {"spec": [[k, (1 + e) / N] for k in keys]}
        yield {"spec": [[k, i % 5] for i, k in enumerate(keys)]}
        # all the excess on one outcome
        for at in (0, N // 2, N - 1):
            yield {"spec": [[k, 1 / N + (3e-8 if i == at else 0)] for i, k in enumerate(keys)]}


def cases_large_marginal(tier):
    """Registers of 64 to 512 (4096) outcomes: full, half full, and skewed, on lists of every length."""
    for n in (6, 7, 8, 9) if tier == "quick" else (6, 7, 8, 9, 10, 12):
        N = 2**n
        keys = [[(i >> j) & 1 for j in range(n)] for i in range(N)]
        lists = [list(range(k)) for k in range(1, n + 1)]
        lists += [list(range(n - 1, n - 1 - k, -1)) for k in range(1, n + 1)]
        lists += [[(3 + 5 * i) % n for i in range(k)] for k in range(1, n + 1) if len({(3 + 5 * i) % n for i in range(k)}) == k]
        lists += [[a, b] for a, b in itertools.permutations(range(n), 2)]
        lists += [[n - 1, *range(n - 1)], [*range(1, n), 0], [1, 0, *range(2, n)], [*range(n - 2), n - 1, n - 2]]
        for f in (lambda i: i + 1, lambda i: (i * 7919) % 13, lambda i: 1 if i % 2 else 0.25 * (i % 3)):
            for sup in (range(N), range(1, N, 2), range(N - 1, -1, -1)):
                if n > 8 and f(1) != 2:
                    continue
                yield {"spec": [[keys[i], f(i)] for i in sup], "lists": lists if n < 9 else lists[::3]}


def run_extreme(case, ctx):
    spec = [[[i], w] for i, w in enumerate(case)]
    given = as_input(spec, "tuple")
    try:
        d = D(given)
    except (ValueError, OverflowError, RuntimeError) as e:
        tot = sum(map(Fraction, case))
        check(
            tot > Fraction(1.7976e308) or tot < Fraction(3e-308),
            f"weights {case} refused: {e}", "refused",
        )
        ctx.outcome("refused")
        ctx.step()
        return
    want = exact(spec)
    for k, w in want.items():
        got = d.distribution_dict[k]
        check(got >= 0 and abs(float(got) - float(w)) < 1e-9, f"weights {case}: {d}", "extreme")
    ctx.step()
    ctx.state(tuple(case))


def cases_extreme(tier):
    for k in (1, 2, 3):
        yield from ([*w] for w in itertools.product(BIG, repeat=k))


def run_reject(case, ctx):
    kind = case["kind"]
    given = {tuple(k) if isinstance(k, list) else k: (float(w) if isinstance(w, str) else w) for k, w in case["items"]}
    n0 = list(given.items())
    for call in (lambda: D(given), lambda: D(given, normalize=True)) + ((lambda: D(given, normalize=False),) if kind != "zero" else ()):
        ctx.step()
        try:
            d = call()
        except (RuntimeError, ValueError, TypeError):
            ctx.outcome("rejected")
            continue
        check(False, f"{kind}: {given} accepted as {d}", "accepted")
    check(repr(list(given.items())) == repr(n0), "input changed", "input")
    ctx.state(kind, str(case))


def cases_reject(tier):
    yield {"kind": "empty", "items": []}
    for n in (1, 2, 3):
        keys = [list(k) for k in itertools.product((0, 1), repeat=n)]
        for k in range(1, 4 if tier == "quick" else 5):
            for sup in itertools.combinations(keys, k):
                for bad in range(k):
                    for neg in (-1, -0.5, -1e-12, "nan"):
                        for tot in (0.25, 2) if k > 1 else (1,):
                            items = [[s, neg if i == bad else tot] for i, s in enumerate(sup)]
                            if isinstance(neg, float) or isinstance(neg, int):
                                # also with a total of exactly one
                                fix = [list(x) for x in items]
                                if k > 1:
                                    fix[1 if bad == 0 else 0][1] = 1 - neg - tot * (k - 2)
                                    yield {"kind": "negative", "items": fix}
                            yield {"kind": "negative", "items": items}
                            yield {"kind": "negative", "items": [["".join(map(str, s)), w] for s, w in items]}
                    for other in ([], [0] * (n + 1), [1] * (n - 1), [0] * (n + 3)):
                        if len(other) != n and k > 1:
                            items = [[other if i == bad else s, 1.0 / k] for i, s in enumerate(sup)]
                            yield {"kind": "length", "items": items}
                            st = ["".join(map(str, s)) for s, _ in items]
                            yield {"kind": "length", "items": [[s, 1.0 / k] for s in st]}
                    for val in (-1, 0.5, "a"):
                        s = list(sup[bad])
                        s[0] = val
                        yield {"kind": "outcome", "items": [[s if i == bad else x, 1.0 / k] for i, x in enumerate(sup)]}
    # every tuple of three or four different lengths (some average to the first)
    for k in (2, 3, 4):
        for lens in itertools.product(range(1, 5), repeat=k):
            if len(set(lens)) > 1 and (k < 4 or tier != "quick" or sum(lens) % k == 0):
                keys = [[(i >> j) & 1 for j in range(L)] for i, L in enumerate(lens)]
                if len(set(map(tuple, keys))) == k:
                    for w in (1.0 / k, 3):
                        yield {"kind": "length", "items": [[s, w] for s in keys]}
                        yield {"kind": "length", "items": [["".join(map(str, s)), w] for s in keys]}
    for k in (1, 2, 3):
        yield {"kind": "zero", "items": [[[0, i], 0] for i in range(k)]}
        yield {"kind": "zero", "items": [[[0, i], 0.0] for i in range(k)]}


def run_same(case, ctx):
    """One outcome spelled twice: refused, or still a normalised distribution on the named outcomes."""
    given = {(tuple(k) if isinstance(k, list) else k): w for k, w in case}
    ctx.step()
    try:
        d = D(given)
    except (RuntimeError, ValueError):
        ctx.outcome("refused")
        return
    named = {k if isinstance(k, tuple) else tuple(map(int, k.split(",") if "," in k else k)) for k in given}
    check(set(d.distribution_dict) == named, f"{given} became {d}", "same-outcome")
    vs = list(d.distribution_dict.values())
    check(all(v >= 0 for v in vs) and abs(sum(vs) - 1) <= 1e-9, f"{given} became {d}", "same-outcome")
    ctx.state(str(case))


def cases_same(tier):
    forms = {(0, 1): ["01", "0,1", [0, 1]], (1, 1): ["11", "1,1", [1, 1]]}
    for a, b in itertools.permutations(forms[(0, 1)], 2):
        for w1, w2, w3 in itertools.product((0, 1, 3, 0.25), repeat=3):
            if w1 + w2 + w3 > 0:
                yield [[a, w1], [b, w2], ["11", w3]]
                yield [["11", w3], [a, w1], [b, w2]]


# ---- marginals ---------------------------------------------------------------------------
def project(want, qs):
    out = {}
    for k, w in want.items():
        kk = tuple(k[q] for q in qs)
        out[kk] = out.get(kk, 0) + w
    return out


def run_marginal(case, ctx):
    spec, lists = case["spec"], case["lists"]
    style = case.get("style", "tuple")
    d = build(spec, style)
    want = exact(spec)
    before = snap(d)
    for qs in lists:
        for given in ([*qs], tuple(qs), [np.int64(q) for q in qs]) if len(qs) < 3 else ([*qs],):
            m = d.subdistribution(given)
            ctx.step()
            what = f"marginal of {short(spec)} on {qs}"
            check(isinstance(m, D), f"{what}: {m!r}", "type")
            assert_is(m, project(want, qs), what, "marginal")
            check(m.get_number_of_subsystems() == len(qs), f"{what}: {m}", "subsystems")
            check(snap(d) == before, f"{what}: source became {short(d)}, was {short(before)}", "source")
            check(isinstance(given, tuple) or list(given) == list(qs), f"qubits became {given}", "source")
        if case.get("nested") and len(qs) > 1:
            for sub in itertools.permutations(range(len(qs)), len(qs) - 1):
                mm = m.subdistribution(list(sub))
                ctx.step()
                assert_is(mm, project(want, [qs[i] for i in sub]), f"marginal on {qs} then on {sub} of {spec}", "nested")
        ctx.state(tuple(sorted((k, float(v)) for k, v in m.distribution_dict.items())))


def all_lists(n):
    return [list(p) for k in range(1, n + 1) for p in itertools.permutations(range(n), k)]


def cases_marginal(tier):
    for n in (1, 2, 3):
        keys = list(itertools.product((0, 1), repeat=n))
        for k in range(1, len(keys) + 1):
            for sup in itertools.combinations(keys, k):
                for ws in ([1] * 8, [1, 2, 4, 8, 16, 32, 64, 128], [0, 0.3, 0, 0.1, 7, 0, 1e-6, 2]):
                    w = ws[:k]
                    if sum(w) > 0:
                        yield {"spec": [[list(s), x] for s, x in zip(sup, w)], "lists": all_lists(n), "nested": True, "style": "str" if n == 2 else "tuple"}
    # outcomes with more than one digit, and outcomes that would run together when joined
    alpha = [0, 1, 10, 11, 12, 112]
    for n in (1, 2):
        keys = list(itertools.product(alpha, repeat=n))
        for sup in itertools.combinations(keys, 2 if tier == "quick" else 3):
            yield {"spec": [[list(s), 2 * i + 1] for i, s in enumerate(sup)], "lists": all_lists(n)}
    trip = [(1, 11, 1), (11, 1, 1), (1, 1, 11), (11, 11, 0), (2, 3, 5), (23, 5, 0)]
    for k in (2, 3, 4):
        for sup in itertools.combinations(trip, k):
            yield {"spec": [[list(s), i + 0.5] for i, s in enumerate(sup)], "lists": all_lists(3), "nested": True}
    for n in (4, 5) if tier == "quick" else (4, 5, 6):
        keys = list(itertools.product((0, 1), repeat=n))
        lists = all_lists(n) if n < 6 else all_lists(6)[::3]
        for f in (lambda i: 1, lambda i: i, lambda i: (i * 7919) % 13, lambda i: 0.1 * (i % 3)):
            for chunk in range(0, len(lists), 60):
                yield {"spec": [[list(s), f(i)] for i, s in enumerate(keys)], "lists": lists[chunk:chunk + 60]}
    wide = [[i % 2 for i in range(40)], [int(i > 20) for i in range(40)], [i % 3 for i in range(40)]]
    for a, b in itertools.permutations(range(0, 40, 7), 2):
        yield {"spec": [[w, i + 1] for i, w in enumerate(wide)], "lists": [[a, b], [b], [a, 39, b], list(range(39, -1, -1))]}


def run_bad_marginal(case, ctx):
    spec, qs = case["spec"], case["qs"]
    d = build(spec)
    before = snap(d)
    ctx.step()
    try:
        m = d.subdistribution(qs)
    except (ValueError, IndexError):
        check(snap(d) == before, f"refused marginal changed its source to {d}", "source")
        ctx.outcome("refused")
        # and the distribution still serves the valid requests
        assert_is(d.subdistribution([0]), project(exact(spec), [0]), f"{spec}", "after")
        return
    check(not qs, f"qubits {qs} of {spec}: {m}", "accepted")
    assert_is(m, project(exact(spec), qs), f"{spec} on {qs}", "empty")


def cases_bad_marginal(tier):
    spec = [[[0, 1, 0], 1], [[1, 1, 0], 3]]
    for k in range(0, 4):
        for qs in itertools.product(range(5), repeat=k):
            if not qs or max(qs) > 2 or len(set(qs)) < k:
                yield {"spec": spec, "qs": list(qs)}


# ---- distances ---------------------------------------------------------------------------
SIGMAS = [1.0, 0.5, 1e-3, 100.0, 3, [0.5, 1.0, 4], [1.0], [1e-2, 1e3, 1e6], [0.005, 0.001], [0.02], [1e-5, 0.3, 0.01, 2.0]]
EPSILONS = [None, 1e-9, 1e-3, 0.1, 1e-30]


def sigma_params(sigma):
    out = [{"sigma": sigma}]
    if isinstance(sigma, list):
        out.append({"sigma": np.array(sigma)})
        out.append({"sigma": tuple(sigma)})
    return out


def run_distance(case, ctx):
    p, q = build(case["p"]), build(case["q"])
    p2 = build(list(reversed(case["p"])))
    bp, bq = snap(p), snap(q)
    what = f"p={short(case['p'])} q={short(case['q'])}"
    for sigma in case.get("sigmas", SIGMAS):
        for params in sigma_params(sigma) + ([{}] if sigma == 1.0 else []):
            keep = dict(params)
            ab = compute_mmd(p, q, params)
            ba = compute_mmd(q, p, params)
            ctx.step(2)
            check(np.ndim(ab) == 0 and math.isfinite(ab) and math.isfinite(ba), f"{what}: mmd {ab} / {ba} for {sigma}", "mmd-finite")
            check(abs(ab - ba) < 1e-9, f"{what}: mmd {ab} one way, {ba} the other, sigma {sigma}", "mmd-symmetric")
            check(ab > -1e-9, f"{what}: squared mmd {ab} for {sigma}", "mmd-negative")
            for a, b in ((p, p), (q, q), (p, p2)):
                z = compute_mmd(a, b, params)
                ctx.step()
                check(abs(z) < 1e-9, f"{what}: squared mmd of a distribution with itself is {z} for {sigma}", "mmd-self")
            ev = evaluate_distribution_distance(p, q, compute_mmd, distance_measure_parameters=params)
            check(abs(ev - ab) < 1e-9, f"{what}: evaluate_distribution_distance gives {ev}, compute_mmd {ab}", "evaluate")
            check(set(params) == set(keep), "parameters changed", "arguments")
            ctx.state("mmd", round(float(ab), 9))
    P, Q = exact(case["p"]), exact(case["q"])
    for eps in EPSILONS:
        params = {} if eps is None else {"epsilon": eps}
        e = 1e-9 if eps is None else eps
        for a, b, A, B in ((p, q, P, Q), (q, p, Q, P), (p, p, P, P)):
            got = compute_clipped_negative_log_likelihood(a, b, params)
            ctx.step()
            H = -math.fsum(float(w) * math.log(float(w)) for w in A.values() if w)
            clipped = math.fsum(max(e - float(B.get(k, 0)), 0.0) for k, w in A.items())
            low = H - math.log1p(clipped) - 1e-9 * (1 + abs(H))
            check(
                math.isfinite(got) and got >= low,
                f"{what}: likelihood {got} of {short(A)} under {short(B)} is below the entropy {H} (eps {e})", "entropy",
            )
            ctx.state("nll", round(float(got), 9))
        ab = compute_jensen_shannon_divergence(p, q, params)
        ba = compute_jensen_shannon_divergence(q, p, params)
        ctx.step(2)
        check(math.isfinite(ab) and abs(ab - ba) <= 1e-9 * (1 + abs(ab)), f"{what}: divergence {ab} one way, {ba} the other (eps {e})", "js-symmetric")
        ev = evaluate_distribution_distance(p, q, compute_clipped_negative_log_likelihood, distance_measure_parameters=params)
        got = compute_clipped_negative_log_likelihood(p, q, params)
        check(abs(ev - got) <= 1e-9 * (1 + abs(got)), f"{what}: evaluate_distribution_distance {ev} instead of {got}", "evaluate")
    check(snap(p) == bp and snap(q) == bq, f"{what}: a distribution changed", "arguments")


def compositions(total, parts):
    if parts == 1:
        yield [total]
        return
    for i in range(total + 1):
        for rest in compositions(total - i, parts - 1):
            yield [i] + rest


def cases_distance(tier):
    def dists(n, total):
        keys = [list(k) for k in itertools.product((0, 1), repeat=n)]
        for c in compositions(total, len(keys)):
            yield [[k, w] for k, w in zip(keys, c) if w]

    for n, total in ((1, 6), (2, 3)) if tier == "quick" else ((1, 10), (2, 4), (3, 2)):
        ds = list(dists(n, total))
        for p, q in itertools.product(ds, repeat=2):
            yield {"p": p, "q": q}
    d3 = list(dists(3, 2))
    for p, q in itertools.combinations_with_replacement(d3, 2):
        yield {"p": p, "q": q, "sigmas": SIGMAS[:1] + SIGMAS[5:6]}
    # zero-probability outcomes listed explicitly
    z = [[[[0, 0], 1], [[1, 1], 0]], [[[1, 1], 1], [[0, 0], 0]], [[[0, 1], 0], [[0, 0], 2], [[1, 0], 1]]]
    for p, q in itertools.product(z, repeat=2):
        yield {"p": p, "q": q}
    yield {"p": [[[], 1]], "q": [[[], 2]]}
    # supports of very different sizes
    for n in (5, 7, 8) if tier == "quick" else (5, 7, 8, 10):
        keys = [list(k) for k in itertools.product((0, 1), repeat=n)]
        shapes = [
            [[keys[0], 1]], [[keys[-1], 1]], [[k, 1] for k in keys], [[k, 1 + i % 3] for i, k in enumerate(keys[::-1])],
            [[k, 1] for k in keys[: len(keys) // 2]], [[k, i + 1] for i, k in enumerate(keys[1::2])], [[k, 1] for k in keys[-3:]],
        ]
        for p, q in itertools.product(shapes, repeat=2):
            yield {"p": p, "q": q, "sigmas": SIGMAS[:1] + SIGMAS[5:6]}
    # nearly equal distributions
    for e in (1e-3, 1e-8, 1e-15):
        for n in (1, 2, 3):
            keys = [list(k) for k in itertools.product((0, 1), repeat=n)]
            yield {"p": [[k, 1] for k in keys], "q": [[k, 1 + (e if i % 2 else -e)] for i, k in enumerate(keys)]}


def cases_wide(tier):
    """Registers too wide for naive integer arithmetic, and outcomes other than bits."""
    widths = (20, 31, 32, 33, 40, 62, 63, 64, 65, 100, 200) if tier == "quick" else (*range(20, 70), 100, 128, 200, 500)
    for n in widths:
        pts = [[0] * n, [1] * n, [0] * (n - 1) + [1], [1] + [0] * (n - 1), [i % 2 for i in range(n)], [0] + [1] * (n - 1)]
        pairs = list(itertools.combinations(range(len(pts)), 2))
        for a, b in pairs:
            yield {"p": [[pts[a], 1]], "q": [[pts[b], 1]]}
        yield {"p": [[x, i + 1] for i, x in enumerate(pts)], "q": [[x, 7 - i] for i, x in enumerate(pts)]}
        yield {"p": [[x, 1] for x in pts[:3]], "q": [[x, 1] for x in pts[2:]]}
        # every sign pattern of the difference
        for signs in itertools.product((1, 3), repeat=4):
            yield {"p": [[x, s] for x, s in zip(pts, signs)], "q": [[x, 4 - s] for x, s in zip(pts, signs)]}
    for vals in ((0, 2), (0, 1, 2), (3, 7), (9, 10), (10, 12, 101)):
        for n in (1, 2):
            keys = [list(k) for k in itertools.product(vals, repeat=n)]
            for a, b in itertools.combinations_with_replacement(range(len(keys)), 2):
                yield {"p": [[keys[a], 1], [keys[-1], 1]] if a != len(keys) - 1 else [[keys[a], 1]], "q": [[keys[b], 2]] if b == 0 else [[keys[b], 2], [keys[0], 1]]}


def run_mismatch(case, ctx):
    a, b = build(case["p"]), build(case["q"])
    for x, y in ((a, b), (b, a)):
        ctx.step()
        try:
            v = evaluate_distribution_distance(x, y, compute_mmd, distance_measure_parameters={})
        except (RuntimeError, ValueError):
            ctx.outcome("refused")
            continue
        check(False, f"distance of {x} and {y}, on different subsystems: {v}", "mismatch")


# ---- files -------------------------------------------------------------------------------
def run_file(case, ctx):
    specs = case["specs"]
    dists = [build(s) for s in specs]
    want = [dict(d.distribution_dict) for d in dists]

    def same(got, i, how):
        check(isinstance(got, D), f"{how}: {got!r}", "file-type")
        g = got.distribution_dict
        ok = (
            list(map(type, g)) == [tuple] * len(g)
            and g.keys() == want[i].keys()
            and all(abs(g[k] - want[i][k]) <= 1e-12 * want[i][k] for k in g)
        )
        check(ok, f"{how}: {short(want[i])} came back as {short(g)}", "file")

    if len(specs) == 1:
        round_trips(
            lambda p: save_measurement_outcome_distribution(dists[0], p),
            load_measurement_outcome_distribution,
            lambda got, how: same(got, 0, how), ctx,
        )
    lists = [dists]
    for ds in lists:
        def cmp(got, how):
            check(isinstance(got, list) and len(got) == len(ds), f"{how}: {len(ds)} saved, {got!r} loaded", "file-list")
            for i, g in enumerate(got):
                same(g, i, how)

        round_trips(
            lambda p: save_measurement_outcome_distributions(ds, p),
            load_measurement_outcome_distributions, cmp, ctx,
        )
    for d, w in zip(dists, want):
        check(d.distribution_dict == w, f"saving changed {w} into {d}", "arguments")
    ctx.state(tuple(repr(sorted(w.items())) for w in want))


def cases_file(tier):
    singles = []
    for n in (0, 1, 2):
        keys = list(itertools.product((0, 1), repeat=n))
        for k in range(1, len(keys) + 1):
            for sup in itertools.combinations(keys, k):
                for ws in itertools.product((1, 0.1, 0, 1e-9), repeat=k):
                    if sum(ws) > 0 and (k < 4 or tier != "quick" or ws[0] == 1):
                        singles.append([[list(s), x] for s, x in zip(sup, ws)])
    alpha = [0, 1, 9, 10, 11, 12, 99, 100, 1234567]
    for n in (1, 2):
        keys = list(itertools.product(alpha, repeat=n))
        for k in (1, 2):
            for i, sup in enumerate(itertools.combinations(keys, k)):
                if n == 1 or k == 1 or i % (9 if tier == "quick" else 1) == 0:
                    singles.append([[list(s), i + 1] for i, s in enumerate(sup)])
    for n in (3, 8, 33, 70):
        pts = [[0] * n, [1] * n, [i % 2 for i in range(n)], [i for i in range(n)]]
        for k in (1, 2, 3):
            for sup in itertools.combinations(pts, k):
                singles.append([[s, i + 1] for i, s in enumerate(sup)])
    for s in singles:
        yield {"specs": [s]}
    base = [[[[0], 1]], [[[12], 1], [[3], 2]], [[[0, 1], 0.3], [[1, 0], 1]], [[[], 1]], [[[10, 11], 1]]]
    for k in (0, 2, 3):
        for ss in itertools.product(base, repeat=k):
            yield {"specs": list(ss)}


def run_array(case, ctx):
    n = case["n"]
    p = np.array(case["w"], dtype=float)
    keep = p.copy()
    d = create_bitstring_distribution_from_probability_distribution(p)
    keys = list(itertools.product((0, 1), repeat=n))
    tot = sum(map(Fraction, case["w"]))
    assert_is(d, {k: Fraction(w) / tot for k, w in zip(keys, case["w"])}, f"{case}", "array")
    check(np.array_equal(p, keep), "array changed", "arguments")
    ctx.step()
    ctx.state(tuple(case["w"]))


def cases_array(tier):
    for n in (0, 1, 2):
        for w in itertools.product((0.0, 1.0, 0.5, 3.0), repeat=2**n):
            if sum(w) > 0:
                yield {"n": n, "w": list(w)}
    for n in range(3, 9 if tier == "quick" else 13):
        for f in (lambda i: 1.0, lambda i: float(i), lambda i: float(i % 3)):
            yield {"n": n, "w": [f(i) for i in range(2**n)]}


def cases_mismatch(tier):
    for a, b in itertools.combinations(range(1, 5), 2):
        yield {"p": [[[0] * a, 1], [[1] * a, 1]], "q": [[[0] * b, 1]]}


FAMILIES = [
    Family("construct", cases_construct, run_construct, "supports of <=3 (4) outcomes on <=3 subsystems x weight alphabet x key spellings; full registers to 6"),
    Family("large", cases_large, run_construct, "full registers of 128..2048 (8192) outcomes with a total just off one"),
    Family("large-marginals", cases_large_marginal, run_marginal, "64..512 (4096) outcomes x lists of every length, every ordered pair"),
    Family("extreme-weights", cases_extreme, run_extreme, "every tuple of <=3 weights from the ends of the float range"),
    Family("rejected", cases_reject, run_reject, "negative, NaN, missized or non-integer entry at every place of dictionaries of <=3 (4) outcomes"),
    Family("same-outcome", cases_same, run_same, "every pair of spellings of one outcome x weights"),
    Family("marginals", cases_marginal, run_marginal, "every support on <=3 subsystems, every ordered list of distinct qubits, all in turn on one object; nested marginals; multi-digit outcomes; registers to 5 (6) and 40"),
    Family("bad-marginals", cases_bad_marginal, run_bad_marginal, "every list of <=3 indices 0..4 that repeats or exceeds the register"),
    Family("distances", cases_distance, run_distance, "every ordered pair of compositions on 1, 2 (3) subsystems x kernel widths x clipping constants"),
    Family("wide-distances", cases_wide, run_distance, "registers of 20..200 (500) qubits, outcomes other than bits"),
    Family("mismatch", cases_mismatch, run_mismatch, "widths 1..4"),
    Family("files", cases_file, run_file, "every saved distribution through every kind of path and source; lists of <=3"),
    Family("arrays", cases_array, run_array, "probability vectors of 1..256 (4096) entries"),
]

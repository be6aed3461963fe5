"""C13: splitting, batching and recombining shots never loses or invents a shot."""
import itertools
from collections import Counter
from fractions import Fraction

import numpy as np

from orquestra.quantum.circuits import (
    CNOT,
    Circuit,
    X,
    combine_bitstrings,
    combine_measurement_counts,
    expand_sample_sizes,
    split_into_batches,
)
from orquestra.quantum.distributions import MeasurementOutcomeDistribution
from orquestra.quantum.measurements import Measurements
from orquestra.quantum.utils import scale_and_discretize

from .choices import explore
from .core import Family, check

ASSUMPTIONS = [
    "sample counts, maxima and totals are integers, distributions are normalised (or normalise on construction)",
    "the sampler behind get_measurements_representing_distribution answers with outcomes of positive weight; every answer "
    "is explored up to the stated number of answers per call",
]


def label(i):
    return f"circuit{i}"


# ---- expand -> run -> combine ------------------------------------------------------------
def run_expand(case, ctx):
    ns, mx = case["n"], case["max"]
    kind = case.get("kind", "list")
    circs = [Circuit([X(i)]) for i in range(len(ns))] if case.get("real") else [label(i) for i in range(len(ns))]
    given_c = {"list": list, "tuple": tuple, "numpy": list}[kind](circs)
    given_n = {"list": list, "tuple": tuple, "numpy": lambda x: np.array(x, dtype=np.int64)}[kind](ns)
    new_c, new_n, mult = expand_sample_sizes(given_c, given_n, mx)
    ctx.step()
    new_c, new_n, mult = list(new_c), [int(x) for x in new_n], [int(x) for x in mult]
    what = f"expand({ns}, max={mx}) = {new_n}, {mult}"
    check(len(mult) == len(ns) and all(m >= 1 for m in mult), what, "multiplicities")
    check(len(new_c) == len(new_n) == sum(mult), f"{what}: lengths", "lengths")
    pos = 0
    groups = []
    for i, m in enumerate(mult):
        part = new_n[pos : pos + m]
        check(all(1 <= x <= mx for x in part), f"{what}: sizes {part}", "size-range")
        check(sum(part) == ns[i], f"{what}: circuit {i} gets {sum(part)}", "sum")
        check(all(c == circs[i] for c in new_c[pos : pos + m]), f"{what}: copies {new_c[pos:pos + m]}", "copies")
        groups.append(part)
        pos += m
    ctx.state(tuple(ns), mx, tuple(new_n), tuple(mult))
    check(list(given_c) == circs and [int(x) for x in given_n] == ns, "arguments changed", "mutated")
    if max(ns, default=0) > 2000:
        return
    # run every copy with a deterministic runner whose results differ from copy to copy
    bits, counts = [], []
    words = ["0", "1", "00", "10", "01", "11"]
    for j, n in enumerate(new_n):
        w = [words[(j + k) % len(words)] for k in range(n)]
        bits.append(w)
        counts.append(dict(Counter(w)))
    before_b, before_c = [list(b) for b in bits], [dict(c) for c in counts]
    for f, data in ((combine_bitstrings, bits), (combine_measurement_counts, counts)):
        for m_given in (mult, tuple(mult), np.array(mult, dtype=int) if mult else mult):
            got = list(f(data, m_given))
            check(len(got) == len(ns), f"{f.__name__}: {len(got)} results for {len(ns)} circuits", "combined-length")
            pos = 0
            for i, m in enumerate(mult):
                want = Counter()
                for b in before_b[pos : pos + m]:
                    want.update(b)
                have = Counter(got[i])
                check(+have == want, f"{f.__name__}: circuit {i}: {got[i]}, expected {dict(want)}", "combined")
                total = sum(got[i].values()) if isinstance(got[i], dict) else len(got[i])
                check(total == ns[i], f"{f.__name__}: circuit {i} has {total} shots, requested {ns[i]}", "total")
                pos += m
            ctx.step()
    check(bits == before_b and counts == before_c, "combining changed its argument", "mutated")


def cases_expand(tier):
    N, L, M = (13, 2, 15) if tier == "quick" else (25, 2, 27)
    yield {"n": [], "max": 3}
    for n in range(1, N + 1):
        for mx in range(1, M + 1):
            yield {"n": [n], "max": mx, "real": True}
    for n in itertools.product(range(1, 9 if tier == "quick" else 13), repeat=2):
        for mx in range(1, 11):
            yield {"n": list(n), "max": mx, "kind": "tuple"}
    for k in (3, 4) if tier == "quick" else (3, 4, 5):
        for n in itertools.product((1, 2, 3, 5) if k < 5 else (1, 2, 3), repeat=k):
            for mx in (1, 2, 3, 4):
                yield {"n": list(n), "max": mx, "kind": "numpy"}
    bases = [1, 2, 3, 7, 10, 53, 64, 1000, 1024, 10**6, 10**15, 2**53, 10**17, 2**63, 10**30, 10**310]
    for b in bases:
        for q in (1, 2, 3, 7, 11, 101):
            for d in (-2, -1, 0, 1, 2):
                if b > 0 and b * q + d >= 1:
                    yield {"n": [b * q + d], "max": b}
                    yield {"n": [b * q + d, 1, b], "max": b}
                    yield {"n": [b], "max": b * q + d}


# ---- combining with arbitrary multiplicities ---------------------------------------------
def run_combine(case, ctx):
    mult = case["mult"]
    counts = [dict(c) for c in case["counts"]]
    bits = [[b for b, k in c for _ in range(k)] for c in case["counts"]]
    for f, data, kinds in (
        (combine_measurement_counts, counts, (list, tuple)),
        (combine_bitstrings, bits, (list, tuple)),
    ):
        for kind in kinds:
            got = f(kind(data), kind(mult))
            pos = 0
            check(len(got) == len(mult), f"{f.__name__}: {got}", "combined-length")
            for i, m in enumerate(mult):
                want = Counter()
                for c in case["counts"][pos : pos + m]:
                    for b, k in c:
                        want[b] += k
                check(+Counter(got[i]) == +want, f"{f.__name__} {data} by {mult}: {got}", "combined")
                pos += m
            ctx.step()
            ctx.state(f.__name__, repr(got))
        for wrong in (mult + [1], mult[:-1] + [mult[-1] + 1], [1] * (sum(mult) - 1)):
            if sum(wrong) == len(data):
                continue
            try:
                got = f(data, wrong)
            except ValueError:
                continue
            check(False, f"{f.__name__}: {len(data)} results with multiplicities {wrong} gives {got}", "accepted")


def cases_combine(tier):
    alphabet = [[], [["0", 1]], [["1", 2]], [["0", 1], ["1", 1]], [["1", 1], ["0", 3]]]
    K = 4 if tier == "quick" else 5
    for k in range(1, K + 1):
        for counts in itertools.product(alphabet, repeat=k):
            for cuts in itertools.product((0, 1), repeat=k - 1):
                mult = [1]
                for c in cuts:
                    if c:
                        mult.append(1)
                    else:
                        mult[-1] += 1
                yield {"counts": [list(c) for c in counts], "mult": mult}
    # outcomes listed with no counts, many outcomes, large counts, long runs of copies
    wide = [[["00", 0], ["01", 3]], [["01", 0], ["11", 2]], [["00", 5], ["11", 0], ["01", 1]], [["11", 300], ["10", 1], ["00", 2], ["01", 7]], [["10", 0]]]
    for k in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for counts in itertools.product(wide, repeat=k):
            if k > 1 and sum(any(n == 300 for _, n in c) for c in counts) > 1:
                continue
            for mult in ([k], [1] * k, [1, k - 1], [k - 1, 1], [2] + [1] * (k - 2)):
                if sum(mult) == k and min(mult) > 0:
                    yield {"counts": [list(c) for c in counts], "mult": mult}
    for m in (6, 9, 17, 40):
        run = [wide[i % 3] for i in range(m)]
        for mult in ([m], [m - 1, 1], [1, m - 2, 1], [3] * (m // 3) + [m % 3] * (m % 3 > 0)):
            yield {"counts": run, "mult": mult}


# ---- batches -----------------------------------------------------------------------------
def run_batch(case, ctx):
    ns, mx = case["n"], case["max"]
    circs = [Circuit([CNOT(i, i + 1)]) for i in range(len(ns))] if case.get("real") else [label(i) for i in range(len(ns))]
    for kc, kn in ((list, list), (tuple, tuple), (list, np.array)):
        batches = list(split_into_batches(kc(circs), kn(ns), mx))
        what = f"batches({ns}, {mx}) = {batches}"
        flat = [c for b, _ in batches for c in b]
        check(flat == circs, f"{what}: covers {flat}", "cover")
        pos = 0
        for b, n in batches:
            check(1 <= len(b) <= mx, f"{what}: batch of {len(b)}", "batch-size")
            asked = ns[pos : pos + len(b)]
            check(all(int(n) >= a for a in asked), f"{what}: {n} samples where {asked} were asked", "batch-samples")
            pos += len(b)
        ctx.step()
        ctx.state(tuple((len(b), int(n)) for b, n in batches))
    for bad in (ns + [1], ns[:-1]):
        if len(bad) != len(ns):
            try:
                got = list(split_into_batches(circs, bad, mx))
            except ValueError:
                continue
            check(False, f"{len(circs)} circuits with {len(bad)} sample counts gives {got}", "accepted")


def cases_batch(tier):
    yield {"n": [], "max": 2}
    for k in range(1, 6 if tier == "quick" else 8):
        for ns in itertools.product((1, 2, 3) if k < 7 else (1, 2), repeat=k):
            for mx in list(range(1, k + 2)) + [1000]:
                yield {"n": list(ns), "max": mx}
    for k in (10, 12, 17):
        for hi in range(k):
            for mx in range(1, k + 2):
                yield {"n": [10**18 if i == hi else i + 1 for i in range(k)], "max": mx, "real": k == 10}


# ---- measurements representing a distribution --------------------------------------------
def run_represent(case, ctx):
    N = case["N"]
    keys = [tuple(k) if isinstance(k, list) else k for k in case["keys"]]
    d = dict(zip(keys, case["w"]))
    dist = MeasurementOutcomeDistribution(d)
    support = {k for k, p in dist.distribution_dict.items() if p > 0}
    paths = 0
    for answers, m in explore(
        lambda: Measurements.get_measurements_representing_distribution(dist, N), case["cap"], case["limit"]
    ):
        paths += 1
        bits = m.bitstrings
        check(
            len(bits) == N,
            f"{case['w']} with {N} shots gives {len(bits)} (sampler answers {answers})",
            "count",
        )
        outside = set(bits) - support
        check(not outside, f"{case['w']} with {N} shots puts shots on {outside} (answers {answers})", "support")
        ctx.state(tuple(sorted(Counter(bits).items())))
    ctx.step(paths)
    ctx.outcome("one sampler path" if paths == 1 else "several sampler paths")


WORDS = {1: ["0"], 2: ["0", "1"], 3: ["00", "01", "11"], 4: ["00", "01", "10", "11"]}


def words(k):
    if k in WORDS:
        return WORDS[k]
    n = max(1, (k - 1).bit_length())
    return [format(i, f"0{n}b") for i in range(k)]


def compositions(total, k, least=0):
    if k == 1:
        if total >= least:
            yield [total]
        return
    for first in range(least, total + 1):
        for rest in compositions(total - first, k - 1, least):
            yield [first] + rest


def cases_represent(tier):
    cap, limit = (4000, 4000) if tier == "quick" else (20000, 20000)
    common = {"cap": cap, "limit": limit * 40}
    plan = [(1, 3, 12), (2, 12, 15), (3, 10, 13), (4, 8, 9)] if tier == "quick" else [
        (1, 7, 40), (2, 24, 30), (3, 14, 17), (4, 10, 13), (5, 8, 9), (6, 6, 7)]
    for k, D, Nmax in plan:
        for w in compositions(D, k):
            for N in range(1, Nmax + 1):
                if tier == "quick" and k == 4 and N == D:
                    continue
                yield {"keys": words(k), "w": [x / D for x in w], "N": N, **common}
    # every outcome rounded up (elimination) or down (top-up)
    for k in (5, 6, 7, 8) if tier == "quick" else range(5, 11):
        for num in range(k // 2, 3 * k):
            N = num
            yield {"keys": words(k), "w": [1 / k] * k, "N": max(N, 1), **common}
        heavy = [0.9102] + [0.0898 / (k - 1)] * (k - 1)
        for N in range(1, 120, 1 if tier != "quick" else 3):
            yield {"keys": words(k), "w": heavy, "N": N, **common}
    # shares just above one half: shots have to be removed from outcomes holding exactly one
    for k in (3, 4, 5):
        for shares in itertools.product((0.51, 0.6, 0.99, 1.51, 0.49), repeat=k):
            N = round(sum(shares))
            s = sum(shares)
            yield {"keys": words(k), "w": [x / s for x in shares], "N": N, **common}
    # key forms, odd alphabets, weights to be normalised, extreme weights
    for keys in (["0,2", "10,3"], [[0, 2], [10, 3]], ["000", "111"], [[], ], [[12], [3]]):
        for w in ([3, 5], [1, 1], [1e-9, 1], [1e-300, 1], [1, 0], [0, 2], [1e300, 1e300]):
            for N in (1, 2, 3, 5, 7, 1000, 4097):
                yield {"keys": keys, "w": w[: len(keys)] if len(keys) > 1 else [1], "N": N, **common}
    for N in (10**5 + 3, 10**6 + 1):
        for w in ([1 / 3, 1 / 3, 1 / 3], [0.1234, 0.5467, 0.33], [1e-7, 0.5, 0.4999999]):
            yield {"keys": words(3), "w": w, "N": N, "cap": 50, "limit": 2000}


# ---- scale_and_discretize ----------------------------------------------------------------
def run_scale(case, ctx):
    vals, total = [eval(v) if isinstance(v, str) else v for v in case["v"]], case["total"]
    exact = [Fraction(v if isinstance(v, (int, Fraction, np.integer)) else float(v)) for v in vals]
    S = sum(exact)
    for kind in (list, tuple, np.array):
        if kind is np.array and any(isinstance(v, int) and abs(v) >= 2**63 for v in vals):
            continue
        if kind is np.array and isinstance(vals[0], int) != all(isinstance(v, int) for v in vals):
            continue
        got = scale_and_discretize(kind(vals), np.int64(total) if kind is np.array and total < 2**63 else total)
        what = f"scale({vals}, {total}) = {got}"
        check(len(got) == len(vals), what, "scale-length")
        check(all(isinstance(g, (int, np.integer)) for g in got), f"{what}: not integers", "scale-type")
        check(sum(int(g) for g in got) == total, f"{what}: sums to {sum(int(g) for g in got)}", "scale-sum")
        for g, v in zip(got, exact):
            share = v * total / S
            # shares computed in floating point may differ in the last places
            slack = 0 if case.get("whole") else share * Fraction(1, 10**12)
            check(abs(int(g) - share) <= 1 + slack, f"{what}: share {float(share)} got {g}", "scale-share")
        ctx.step()
    ctx.state(tuple(case["v"]), total)


def cases_scale(tier):
    # whole numbers too large for floating point, split into their own total and its multiples
    big = (2**53, 2**53 + 1, 2**60 + 3, 2**62 - 1, 3, 10**18 + 7)
    for k in (2, 3):
        for v in itertools.product(big, repeat=k):
            for total in (sum(v), sum(v) + 1, 3 * sum(v), 17):
                yield {"v": list(v), "total": total, "whole": True}
    W = (1, 2, 3, 5, 7) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 11)
    for k in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5):
        for v in itertools.product(W if k < 4 else W[:4], repeat=k):
            for total in range(0, 14 if tier == "quick" else 25):
                yield {"v": list(v), "total": total}
    for k in (2, 3, 4):
        for v in itertools.product((0.1, 0.2, 0.3, 0.7, 1 / 3, 1e-3), repeat=k):
            for total in (1, 2, 3, 5, 6, 7, 9, 10, 30, 100, 999, 1000, 10**6 + 1):
                yield {"v": list(v), "total": total}
    for k in (1, 2, 3, 5, 7, 10, 20, 33):
        for v in (0.1, 1 / 3, 1.1, 1e-12, 1e12):
            for total in (1, k - 1, k, k + 1, 3 * k, 10 * k + 1, 10**15 + 1, 2**53 + 1, 10**17 + 3, 10**25 + 7):
                if total >= 0:
                    yield {"v": [v] * k, "total": total}
                    yield {"v": [v] * k + [1e-9], "total": total}
    for v in ([1e-300, 1.0], [1e300, 1e300], [5e-324, 5e-324], [1e-310, 3e-310], [1e308, 1e308, 1e308], [10**30, 1],
              [2**63, 2**63], [1e-200, 1e200], ["Fraction(1,3)", "Fraction(2,3)"], ["np.float32(0.1)", "np.float32(0.3)"],
              ["np.int64(3)", "np.int64(4)"]):
        for total in (1, 2, 3, 10, 1001, 10**17 + 3):
            yield {"v": v, "total": total}


FAMILIES = [
    Family("expand-run-combine", cases_expand, run_expand,
           "all (n,max) up to 13x15 (25x27), all pairs to 8 (12), triples/quadruples, boundary values around multiples up to 1e310"),
    Family("combine", cases_combine, run_combine,
           "all lists of <=4 (5) count tables from 5, with all multiplicity vectors"),
    Family("batches", cases_batch, run_batch, "all sample lists over {1,2,3} to length 5 (7) x all batch sizes; long lists"),
    Family("scale", cases_scale, run_scale, "all weight lists to length 4 (5) over small integers and floats x totals; huge and tiny"),
    Family("represent", cases_represent, run_represent,
           "all rational distributions over <=4 (6) outcomes with denominator <=10 (24) x N x every answer of the sampler"),
]

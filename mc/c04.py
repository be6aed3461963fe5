"""C04: every view of a simulated state agrees on which qubit is which."""
import contextlib
import itertools
import math

import numpy as np

from orquestra.quantum.api.wavefunction_simulator import BaseWavefunctionSimulator
from orquestra.quantum.distributions import (
    create_bitstring_distribution_from_probability_distribution,
)
from orquestra.quantum.measurements import Measurements, get_parities_from_measurements
from orquestra.quantum.operators import PauliSum, PauliTerm, get_expectation_value, get_sparse_operator
from orquestra.quantum.runners import SymbolicSimulator
from orquestra.quantum.wavefunction import Wavefunction, sample_from_wavefunction

from . import gates as G
from . import ref
from .core import Family, check

ASSUMPTIONS = [
    "the sampler is numpy's Generator.choice: its answers are enumerated by a wrapper around "
    "numpy.random.default_rng (every option with non-zero probability); code that samples by other "
    "means is only judged on supports and on deterministic (basis) states",
]


# -------------------------------------------------- owning the sampler's answers
class FakeRng:
    """Generator whose `choice` always answers with option `answer` (of those it was offered)."""

    def __init__(self, real, owner):
        self._real, self._owner = real, owner

    def __getattr__(self, name):
        return getattr(self._real, name)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        arr = np.arange(a) if isinstance(a, (int, np.integer)) else np.asarray(a)
        if p is None or not replace or arr.ndim != 1:
            return self._real.choice(a, size=size, replace=replace, p=p, axis=axis, shuffle=shuffle)
        # numpy itself validates the request (sizes, normalisation)
        self._real.choice(len(arr), size=1, p=p)
        p = np.asarray(p, dtype=float)
        possible = [i for i in range(len(arr)) if p[i] > 1e-12]
        self._owner.options = len(possible)
        k = possible[self._owner.answer % len(possible)]
        self._owner.prob = float(p[k])
        self._owner.used = True
        if size is None:
            return arr[k]
        return arr[np.full(size, k)]


class Sampler:
    def __init__(self):
        self.answer, self.options, self.prob, self.used = 0, None, None, False

    @contextlib.contextmanager
    def own(self):
        real = np.random.default_rng
        np.random.default_rng = lambda *a, **k: FakeRng(real(*a, **k), self)
        try:
            yield self
        finally:
            np.random.default_rng = real


# -------------------------------------------------- programs
def basis_program(bits):
    return {"n": len(bits), "ops": [[["X"], [q]] for q, b in enumerate(bits) if b]}


def product_program(n, variant=0):
    ang = [0.4, 1.1, 1.9, 2.6, 0.8, 2.2]
    return {"n": n, "ops": [[["RY", ang[(q + variant) % 6]], [q]] for q in range(n)]
            + [[["RZ", 0.3 + q], [q]] for q in range(n)]}


def sparse_program(n, i, j):
    """A state supported on exactly the two basis states i, j with weights 0.3 / 0.7."""
    bi = [(i >> (n - 1 - q)) & 1 for q in range(n)]
    bj = [(j >> (n - 1 - q)) & 1 for q in range(n)]
    diff = [q for q in range(n) if bi[q] != bj[q]]
    piv = diff[0]
    ops = [[["RY", 2 * math.asin(math.sqrt(0.7))], [piv]]]
    ops += [[["CNOT"], [piv, q]] for q in diff[1:]]
    ops += [[["X"], [q]] for q in range(n) if bi[q]]
    return {"n": n, "ops": ops}


def entangled(n, variant):
    if n == 1:
        return product_program(1, variant)
    ops = product_program(n, variant)["ops"]
    ops = ops + [[["CNOT"], [q, (q + 1 + variant) % n]] for q in range(n) if q != (q + 1 + variant) % n]
    ops = ops + [[["U3", 0.3 + q, 1.0, -0.4 * q], [q]] for q in range(n)]
    if n >= 3:
        ops.append([["custom", "u3c"], [n - 1, 0, 1]])
        ops.append([["mp", [0.1 * k * k for k in range(2**n)]]][0])
    return {"n": n, "ops": ops}


def programs(tier):
    maxb = 4 if tier == "quick" else 6
    for n in range(1, maxb + 1):
        for bits in itertools.product((0, 1), repeat=n):
            yield basis_program(bits)
    for n in range(1, 5 if tier == "quick" else 7):
        for v in range(3):
            yield product_program(n, v)
            yield entangled(n, v)
    for n in (2, 3) if tier == "quick" else (2, 3, 4):
        for i, j in itertools.combinations(range(2**n), 2):
            yield sparse_program(n, i, j)
    # idle qubits before, between and after the active ones
    for n, qs in ((3, [1]), (4, [2]), (4, [0, 3]), (5, [4]), (5, [1, 3])):
        yield {"n": n, "ops": [[["RY", 0.7 + q], [q]] for q in qs]}
        yield {"n": n, "ops": [[["X"], [q]] for q in qs]}
    # wide registers, one excited qubit / generic angle
    for n in (6, 8) if tier == "quick" else (6, 7, 8, 9):
        for q in range(n):
            yield {"n": n, "ops": [[["X"], [q]]]}
        yield {"n": n, "ops": [[["X"], [0]], [["RY", 1.0], [n - 1]], [["CNOT"], [n - 1, 2]]]}


def bits_of(idx, n):
    return tuple((idx >> (n - 1 - q)) & 1 for q in range(n))


def exact_cases(tier):
    yield from programs(tier)


_state_memo = {}


def ref_state(spec):
    n = G.width(spec)
    return G.ref_run(spec, ref.basis_state([0] * n))


def z_sets(n):
    if n <= 4:
        return [s for L in range(n + 1) for s in itertools.combinations(range(n), L)]
    out = [(q,) for q in range(n)] + [(0, n - 1), (1, 2), tuple(range(n)), (), (n - 2, n - 1), tuple(range(0, n, 2))]
    return out


def exact_run(case, ctx):
    n = G.width(case)
    circ = G.circuit(case)
    psi = ref_state(case)
    p = np.abs(psi) ** 2
    sim = SymbolicSimulator(seed=5)
    wf = sim.get_wavefunction(circ)
    ctx.step()
    amps = ref.num(wf.amplitudes).reshape(-1)
    check(ref.close(amps, psi), f"amplitudes of {circ}")
    check(wf.n_qubits == n, "n_qubits of the wavefunction")
    probs = np.asarray(wf.get_probabilities(), dtype=float).reshape(-1)
    check(ref.close(probs, p), "probabilities order")
    dist = sim.get_measurement_outcome_distribution(circ, None)
    ctx.step()
    dd = dist.distribution_dict
    check(all(len(k) == n for k in dd), f"outcome length in the exact distribution of a {n}-qubit circuit")
    for i in range(2**n):
        b = bits_of(i, n)
        check(abs(dd.get(b, 0.0) - p[i]) < 1e-8, f"exact distribution of {circ}: outcome {b} has {dd.get(b)} not {p[i]}")
    check(abs(sum(dd.values()) - 1) < 1e-8, "distribution sums to 1")
    ctx.state("dist", ref.digest(p))
    d2 = create_bitstring_distribution_from_probability_distribution(probs).distribution_dict
    ctx.step()
    check(all(abs(d2.get(bits_of(i, n), 0) - p[i]) < 1e-8 for i in range(2**n)), "distribution from probabilities")
    # Z-type operators: exact expectation == eigenvalue average == quadratic form
    for s in z_sets(n):
        term = PauliTerm({q: "Z" for q in s}, 1.0)
        exact = sim.get_exact_expectation_values(circ, term)
        ctx.step()
        avg = sum(v * (-1) ** sum(k[q] for q in s) for k, v in dd.items())
        want = sum(p[i] * (-1) ** sum(bits_of(i, n)[q] for q in s) for i in range(2**n))
        check(abs(exact - want) < 1e-8, f"exact expectation of Z on {s} for {circ}: {exact}, expected {want}")
        check(abs(exact - avg) < 1e-8, f"exact expectation of Z on {s} disagrees with the exact distribution")
        if n <= 4:
            e2 = get_expectation_value(term, wf)
            ctx.step()
            check(abs(complex(e2) - want) < 1e-8, "get_expectation_value of a Z term")
        ctx.state("z", s, round(float(exact), 8))
    # general Pauli strings tie the operator view to the amplitudes
    paulis = []
    if n <= 3:
        paulis = [dict((q, o) for q, o in enumerate(ops) if o != "I") for ops in itertools.product("IXYZ", repeat=n)]
    else:
        paulis = [{0: "X"}, {n - 1: "Y"}, {1: "X", n - 1: "Z"}, {0: "Y", 2: "X"}, {n - 2: "Z", 0: "X", 1: "Y"}]
    if n <= 6:
        for ops in paulis:
            exact = sim.get_exact_expectation_values(circ, PauliTerm(ops, 2.0))
            ctx.step()
            want = np.vdot(psi, ref.pauli_matrix(ops, 2.0, n) @ psi).real
            check(abs(exact - want) < 1e-7, f"exact expectation of {ops} for {circ}: {exact} expected {want}")
    big = PauliSum([PauliTerm({q: "Z"}, q + 1.5) for q in range(n)] + [PauliTerm("I0", 0.25)])
    exact = sim.get_exact_expectation_values(circ, big)
    ctx.step()
    want = 0.25 + sum(p[i] * sum((q + 1.5) * (-1) ** bits_of(i, n)[q] for q in range(n)) for i in range(2**n))
    check(abs(exact - want) < 1e-7, "expectation of a weighted sum of Z operators")


# -------------------------------------------------- wide registers, operators of many factors
def wide_cases(tier):
    for n in (7, 9, 10) if tier == "quick" else (7, 8, 9, 10, 11, 12):
        progs = [{"n": n, "ops": [[["X"], [q]]]} for q in range(n)]
        progs += [{"n": n, "ops": [[["X"], [q]] for q in range(n) if (m >> q % 4) & 1]} for m in (5, 6, 9)]
        progs.append({"n": n, "ops": [[["RY", 1.0 + 0.1 * q], [q]] for q in (0, 2, n - 2, n - 1)] + [[["CNOT"], [n - 1, 1]]]})
        for i, p in enumerate(progs):
            if n < 10 or tier != "quick" or i % 4 == 0:
                yield p


def wide_operators(n):
    full = list(range(n))
    zs = [full] + [[q for q in full if q != k] for k in full] + [[0, 1, 2, n - 1], [0, n - 3, n - 2, n - 1], full[::2], full[1::2], full[::3]]
    zs += [[0, k] for k in full[1:]] + [[k, n - 1] for k in full[:-1]]
    out = [{q: "Z" for q in z} for z in zs]
    out += [{q: "ZXYZ"[(q + s) % 4] for q in full[s % 3:]} for s in range(4)]
    out += [{0: "X", 2: "X", n - 2: "Z", n - 1: "Y"}, {n - 1: "X", n - 2: "Y", 1: "Z", 2: "Z", 0: "Z"}]
    return out


def wide_run(case, ctx):
    n = case["n"]
    circ = G.circuit(case)
    psi = ref_state(case)
    p = np.abs(psi) ** 2
    sim = SymbolicSimulator(seed=2)
    wf = sim.get_wavefunction(circ)
    dd = sim.get_measurement_outcome_distribution(circ, None).distribution_dict
    ctx.step(2)
    check(ref.close(ref.num(wf.amplitudes).reshape(-1), psi), f"amplitudes of {circ}")
    support = {bits_of(i, n): p[i] for i in range(2**n) if p[i] > 1e-12}
    for b, w in support.items():
        check(abs(dd.get(b, 0.0) - w) < 1e-8, f"exact distribution of {circ}: outcome {b} has {dd.get(b)} not {w}")
    meas = sim.run_and_measure(circ, 40)
    ctx.step()
    judge_measurements(meas, n, 40, support, ctx, f"40 samples of {circ}")
    idx = np.arange(2**n)
    for ops in wide_operators(n):
        flip = sum(1 << (n - 1 - q) for q, o in ops.items() if o in "XY")
        ph = np.ones(2**n, dtype=complex)  # P|i> = ph[i] |i ^ flip>
        for q, o in ops.items():
            bit = (idx >> (n - 1 - q)) & 1
            if o == "Z":
                ph *= (-1.0) ** bit
            elif o == "Y":
                ph *= 1j * (-1.0) ** bit
        image = np.zeros(2**n, dtype=complex)
        image[idx ^ flip] = ph * psi
        want = np.vdot(psi, image).real
        term = PauliTerm(ops, 2.0)
        got = sim.get_exact_expectation_values(circ, term)
        ctx.step()
        check(abs(got - 2 * want) < 1e-7, f"exact expectation of {term} for {circ}: {got}, expected {2 * want}")
        if not flip:
            avg = sum(w * (-1) ** sum(b[q] for q in ops) for b, w in dd.items())
            check(abs(avg - want) < 1e-7, f"eigenvalue average of {term}")
            ev = meas.get_expectation_values(PauliSum([term]), False).values[0]
            ctx.step()
            mean = np.mean([(-1.0) ** sum(b[q] for q in ops) for b in meas.bitstrings])
            check(abs(complex(ev) - 2 * mean) < 1e-7, f"expectation of {term} from the samples: {ev}, expected {2 * mean}")
        ctx.state("w", n, str(ops), round(float(want), 6))


# -------------------------------------------------- sampled views
def sizes(n):
    d = 2**n
    return sorted({1, 2, max(1, d - 1), d, d + 1, d + 2, 3 * d + 1})


def sampled_cases(tier):
    for spec in programs(tier):
        n = spec["n"]
        if n > 6 and len(spec["ops"]) < 3 and tier == "quick" and spec["ops"][0][1][0] not in (0, 2, n - 1):
            continue
        ss = sizes(n) if n <= 3 else [1, 2**n, 2**n + 1, 3 * 2**n + 1]
        for k in ss:
            yield [spec, k]


def sampled_run(case, ctx):
    spec, k = case
    n = spec["n"]
    circ = G.circuit(spec)
    p = np.abs(ref_state(spec)) ** 2
    support = {bits_of(i, n): p[i] for i in range(2**n) if p[i] > 1e-12}
    for seed in (None, 7):
        sim = SymbolicSimulator(seed=seed)
        meas = sim.run_and_measure(circ, k)
        ctx.step()
        judge_measurements(meas, n, k, support, ctx, f"{k} samples of {circ}")
        if len(support) == 1:
            break
    dist = sim.get_measurement_outcome_distribution(circ, k)
    ctx.step()
    check(set(dist.distribution_dict) <= set(support), "sampled distribution leaves the support")
    # every possible answer of the sampler, in both regimes
    owner = Sampler()
    seen = {}
    j = 0
    opts = None
    while opts is None or j < opts:
        owner.answer, owner.used = j, False
        with owner.own():
            meas = SymbolicSimulator(seed=1).run_and_measure(circ, k)
        ctx.step()
        if not owner.used:
            ctx.outcome("sampler-not-owned")
            break
        opts = owner.options
        judge_measurements(meas, n, k, support, ctx, f"sampler answer {j} for {circ}")
        outs = set(meas.bitstrings)
        if len(outs) == 1:
            (o,) = outs
            check(abs(support[tuple(o)] - owner.prob) < 1e-8,
                  f"the sampler returned an option of probability {owner.prob} and it was reported as {o}, "
                  f"whose exact probability is {support[tuple(o)]}")
            seen[tuple(o)] = seen.get(tuple(o), 0) + owner.prob
        j += 1
        if opts > 40 and j >= 8:
            break
    if opts is not None and opts <= 40:
        check(set(seen) == set(support), f"outcomes reachable by sampling {sorted(seen)} != support {sorted(support)}")
        ctx.outcome("sampler-enumerated")
    ctx.state("sup", tuple(sorted(support)), k > 2**n)


# -------------------------------------------------- rare outcomes, one simulator for look-alike circuits
def rare_cases(tier):
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for q in range(n):
            for eps in (1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 2e-6):
                for rest in (0, 1, 2):
                    yield {"n": n, "ops": [[["RY", eps], [q]]] + [
                        [["X"] if rest == 1 else ["RY", 0.9 + r], [r]] for r in range(n) if r != q and rest]}


def rare_run(case, ctx):
    """Small probabilities are small, not zero: relative agreement of every view."""
    n = case["n"]
    circ = G.circuit(case)
    p = np.abs(ref_state(case)) ** 2
    sim = SymbolicSimulator(seed=2)
    dd = sim.get_measurement_outcome_distribution(circ, None).distribution_dict
    op = sim.get_wavefunction(circ).get_outcome_probs()
    ctx.step(2)
    for i in range(2**n):
        b = bits_of(i, n)
        if p[i] < 1e-14:
            continue
        got = dd.get(b, 0.0)
        check(abs(got - p[i]) < 1e-6 * p[i], f"exact distribution of {circ}: outcome {b} has {got} not {p[i]}")
        key = "".join(map(str, b))
        check(any(abs(v - p[i]) < 1e-6 * p[i] for k, v in op.items() if k in (key, key[::-1])), f"outcome probabilities of {circ}: {op}")
        ctx.state("rare", round(float(np.log10(p[i])), 3))


def reuse_cases(tier):
    def one(g):
        return {"n": 2, "ops": [[["H"], [0]], [["H"], [1]], [g, [0]], [["RY", 0.4], [0]], [["RY", 1.3], [1]]]}

    gates = [["custom", "look_a"], ["custom", "look_b"], ["custom", "look_p", 0.6], ["RX", 0.6], ["custom", "as_RX", 0.6], ["RX", 0.6000001], ["I"]]
    for k in (2, 3):
        for seq in itertools.product(gates, repeat=k):
            yield [one(g) for g in seq]
    flips = [{"n": 2, "ops": [[["X"], [q]]]} for q in (0, 1)] + [{"n": 3, "ops": [[["X"], [1]]]}, {"n": 2, "ops": []}, {"n": 3, "ops": []}]
    for seq in itertools.product(flips, repeat=3):
        yield list(seq)


def reuse_run(case, ctx):
    """One simulator asked about several circuits in a row: no answer depends on the previous one."""
    sim = SymbolicSimulator(seed=4)
    for spec in case:
        n = spec["n"]
        circ = G.circuit(spec)
        psi = ref_state(spec)
        p = np.abs(psi) ** 2
        check(ref.close(ref.num(sim.get_wavefunction(circ).amplitudes).reshape(-1), psi, 1e-9), f"amplitudes of {circ}")
        dd = sim.get_measurement_outcome_distribution(circ, None).distribution_dict
        for i in range(2**n):
            check(abs(dd.get(bits_of(i, n), 0.0) - p[i]) < 1e-9, f"exact distribution of {circ}: {dd}")
        for q in range(n):
            want = sum(p[i] * (-1) ** bits_of(i, n)[q] for i in range(2**n))
            got = sim.get_exact_expectation_values(circ, PauliTerm({q: "Z"}, 1.0))
            check(abs(got - want) < 1e-9, f"exact expectation of Z on {q} for {circ}: {got}, expected {want}")
        meas = sim.run_and_measure(circ, 3)
        check(len(meas.bitstrings) == 3 and all(len(b) == n and p[int("".join(map(str, b)), 2)] > 1e-12 for b in meas.bitstrings),
              f"samples of {circ}: {meas.bitstrings}")
        ctx.step(3 + n)
        ctx.state("reuse", ref.digest(p))


def manyshot_cases(tier):
    for n in (1, 2, 3, 5):
        for k in (4097, 10001, 65537, 100001) + (() if tier == "quick" else (262145, 1000001)):
            yield [n, k]


def manyshot_run(case, ctx):
    """Shot numbers past the powers of two and ten a chunked sampler would use."""
    n, k = case
    d = 2**n
    for variant in range(3):
        if variant == 0:
            s = [d - 2 if d > 2 else 1]
        elif variant == 1:
            s = [i for i in range(d) if i % 2 == 0 or i == d - 1]
        else:
            s = list(range(d))
        w = np.array([(i + 1.0) if i in s else 0.0 for i in range(d)])
        psi = np.sqrt(w / w.sum()) * np.exp(1j * np.arange(d))
        p = np.abs(psi) ** 2
        support = {bits_of(i, n): p[i] for i in s}
        out = sample_from_wavefunction(Wavefunction(psi), k, 5)
        ctx.step()
        judge_measurements(Measurements(list(out)), n, k, support, ctx, f"{k} samples of a state on {s}")
    for spec in (basis_program((1,) + (0,) * (n - 1)), product_program(n)):
        circ = G.circuit(spec)
        p = np.abs(ref_state(spec)) ** 2
        support = {bits_of(i, n): p[i] for i in range(d) if p[i] > 1e-12}
        sim = SymbolicSimulator(seed=3)
        judge_measurements(sim.run_and_measure(circ, k), n, k, support, ctx, f"{k} samples of {circ}")
        dist = sim.get_measurement_outcome_distribution(circ, k)
        ctx.step()
        check(set(dist.distribution_dict) <= set(support), "sampled distribution leaves the support")
        check(abs(sum(dist.distribution_dict.values()) - 1) < 1e-9, "sampled distribution does not sum to one")
    ctx.state("many", n, k)


def judge_measurements(meas, n, k, support, ctx, what):
    check(len(meas.bitstrings) == k, f"{len(meas.bitstrings)} shots instead of {k}")
    for b in meas.bitstrings:
        check(isinstance(b, tuple), f"measured outcome {b!r} is not a tuple")
        check(len(b) == n, f"outcome {b} has length {len(b)}, register is {n} ({what})")
        check(tuple(int(x) for x in b) in support, f"outcome {b} has zero exact probability ({what})")
    counts = meas.get_counts()
    want = {}
    for b in meas.bitstrings:
        s = "".join(str(int(x)) for x in b)
        want[s] = want.get(s, 0) + 1
    check(dict(counts) == want, f"count strings {counts} do not match the measured tuples ({what})")
    mdist = meas.get_distribution().distribution_dict
    check({tuple(int(c) for c in s): v / k for s, v in want.items()}.keys() == mdist.keys(), "distribution keys")
    for s in z_sets(n)[: 2**4]:
        ev = meas.get_expectation_values(PauliTerm({q: "Z" for q in s}, 1.0)).values[0]
        mean = sum((-1) ** sum(int(b[q]) for q in s) for b in meas.bitstrings) / k
        ctx.step()
        check(abs(ev - mean) < 1e-9, f"expectation of Z on {s} from measurements is {ev}, sample mean {mean} ({what})")
        par = get_parities_from_measurements(meas.bitstrings, PauliTerm({q: "Z" for q in s}, 1.0)).values[0]
        check(abs((par[0] - par[1]) / k - mean) < 1e-9, f"parities of Z on {s} ({what})")


# -------------------------------------------------- direct wavefunctions (no circuit)
def direct_cases(tier):
    for n in (1, 2, 3):
        d = 2**n
        supports = list(itertools.combinations(range(d), 1)) + list(itertools.combinations(range(d), 2))
        if n <= 2:
            supports += list(itertools.combinations(range(d), 3)) + list(itertools.combinations(range(d), 4))
        else:
            supports += [(0, 1, 2, 4, 7), tuple(range(8)), (1, 3, 6), (2, 5, 7)]
        for s in supports:
            for k in (1, d, d + 1, 4 * d):
                yield [n, list(s), k]


def direct_run(case, ctx):
    n, s, k = case
    d = 2**n
    w = np.array([(i + 1.0) if i in s else 0.0 for i in range(d)])
    psi = np.sqrt(w / w.sum()) * np.exp(1j * np.arange(d))
    p = np.abs(psi) ** 2
    support = {bits_of(i, n): p[i] for i in s}
    wf = Wavefunction(psi)
    for kind in ("numeric", "column"):
        if kind == "column":
            import sympy

            t = sympy.Symbol("t")
            vec = [complex(x) for x in psi]
            vec[s[0]] = vec[s[0]] * sympy.exp(sympy.I * t)
            try:
                wf = Wavefunction(sympy.Matrix(vec)).bind({t: 0.0})
            except ValueError:
                continue  # rounding put the symbolic vector above norm one
        for seed in (None, 11):
            out = sample_from_wavefunction(wf, k, seed)
            ctx.step()
            judge_measurements(Measurements(list(out)), n, k, support, ctx, f"sample_from_wavefunction on support {s}")
        owner = Sampler()
        j, opts, seen = 0, None, set()
        while opts is None or j < opts:
            owner.answer, owner.used = j, False
            with owner.own():
                out = sample_from_wavefunction(wf, k, 3)
            ctx.step()
            if not owner.used:
                break
            opts = owner.options
            o = tuple(out[0])
            check(o in support and abs(support[o] - owner.prob) < 1e-8,
                  f"option of probability {owner.prob} reported as {o}; exact {support}")
            seen.add(o)
            j += 1
        check(opts is None or seen == set(support), "reachable outcomes")
    ctx.state(n, tuple(s), k > d)


# -------------------------------------------------- base-class simulators
class NativeSim(BaseWavefunctionSimulator):
    def _get_wavefunction_from_native_circuit(self, circuit, initial_state):
        state = np.asarray(initial_state, dtype=complex)
        for o in circuit.operations:
            state = ref.apply(G.gate_matrix(o.gate), list(o.qubit_indices), circuit.n_qubits, state)
        return state


def base_cases(tier):
    for n in (1, 2, 3):
        for bits in itertools.product((0, 1), repeat=n):
            for k in (1, 2**n, 2**n + 1, 50):
                yield [basis_program(bits), k]
    for n in (2, 3):
        for v in range(3):
            for k in (1, 2**n, 2**n + 1, 50):
                yield [entangled(n, v), k]


def base_run(case, ctx):
    spec, k = case
    n = spec["n"]
    circ = G.circuit(spec)
    p = np.abs(ref_state(spec)) ** 2
    support = {bits_of(i, n): p[i] for i in range(2**n) if p[i] > 1e-12}
    sim = NativeSim(seed=4)
    dd = sim.get_measurement_outcome_distribution(circ).distribution_dict
    ctx.step()
    check(all(abs(dd.get(bits_of(i, n), 0) - p[i]) < 1e-8 for i in range(2**n)), f"exact distribution of {circ}")
    meas = sim.run_and_measure(circ, k)
    ctx.step()
    judge_measurements(meas, n, k, support, ctx, str(circ))
    batch = sim.run_batch_and_measure([circ, circ], [k, 1])
    ctx.step()
    judge_measurements(batch[0], n, k, support, ctx, str(circ))
    judge_measurements(batch[1], n, 1, support, ctx, str(circ))
    for s in z_sets(n):
        e = sim.get_exact_expectation_values(circ, PauliSum([PauliTerm({q: "Z" for q in s}, -0.5)]))
        ctx.step()
        want = -0.5 * sum(v * (-1) ** sum(b[q] for q in s) for b, v in support.items())
        check(abs(e - want) < 1e-8, f"exact expectation of Z on {s}")
    ctx.state(ref.digest(p), k)


FAMILIES = [
    Family("exact-views", exact_cases, exact_run,
           "all basis states of 1..4 (thorough 6) qubits, product/entangled states, all two-outcome supports on 2,3 (4) "
           "qubits, idle qubits, registers to 8 (9) x every Z subset x every Pauli string (n<=3)"),
    Family("wide", wide_cases, wide_run, "registers of 7, 9, 10 (to 12) qubits x every single excitation, patterns, a superposition x operators of 2..n factors"),
    Family("sampled-views", sampled_cases, sampled_run,
           "the same programs x sample sizes around 2^n x every answer of the sampler"),
    Family("direct", direct_cases, direct_run, "sample_from_wavefunction on enumerated supports, numeric and bound-symbolic states"),
    Family("rare", rare_cases, rare_run, "outcomes of probability 1e-3..1e-12, every place, relative agreement of the views"),
    Family("reuse", reuse_cases, reuse_run, "one simulator, every sequence of <=3 circuits out of look-alikes (one gate name, several definitions) and flips"),
    Family("many-shots", manyshot_cases, manyshot_run, "4097..100001 (1000001) samples of states on 1..5 qubits: every sample in the support, every count and expectation"),
    Family("base-class", base_cases, base_run, "base-class simulator with its own native backend"),
]

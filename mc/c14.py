"""C14: runners validate requests, deliver enough shots and count their work correctly."""
import itertools
import json
import os
import shutil
import tempfile

import numpy as np
from sympy import Matrix, Symbol

from orquestra.quantum.api.circuit_runner import BaseCircuitRunner
from orquestra.quantum.api.wavefunction_simulator import BaseWavefunctionSimulator
from orquestra.quantum.circuits import (
    CustomGateDefinition,
    CNOT,
    RX,
    Circuit,
    H,
    MultiPhaseOperation,
    ResetOperation,
    X,
    circuit_from_dict,
    to_dict,
)
from orquestra.quantum.measurements import Measurements
from orquestra.quantum.operators import PauliTerm
from orquestra.quantum.runners import SymbolicSimulator
from orquestra.quantum.runners.trackers import MeasurementTrackingBackend

from .core import Family, check

ASSUMPTIONS = [
    "sample counts are integers (Python or numpy); a subclass that overrides batch execution counts its own work",
    "a tracking wrapper's own job counter may count a batch as one job or as the jobs the wrapped runner needed; an empty "
    "batch may or may not count as a job of the wrapper",
    "circuits given to the tracking wrapper have a serialised form (gate operations only)",
    "only runs that complete are counted for base runners; simulators count the segments of every computed wavefunction",
]

CIRCUITS = {
    "x": (lambda: Circuit([X(0)]), "1"),
    "wide": (lambda: Circuit([X(2)], 4), "0010"),
    "none": (lambda: Circuit([]), ""),
    "idle": (lambda: Circuit([], 2), "00"),
    "xx": (lambda: Circuit([X(0), CNOT(0, 1)]), "11"),
    "mix": (lambda: Circuit([RX(0.7)(0), CNOT(0, 1), X(2)]), None),
    "seg": (lambda: Circuit([X(0), RX(np.pi)(1), X(1), RX(0.3)(0), RX(0.4)(1), X(2)]), None),
    "phase": (lambda: Circuit([X(1), MultiPhaseOperation((0.1, 0.2, 0.3, 0.4)), X(0)]), "11"),
    "free": (lambda: Circuit([X(1), RX(Symbol("theta"))(0)]), None),
    "all": (lambda: Circuit([H(i) for i in range(5)]), None),
    "boom": (lambda: Circuit([X(5)]), None),
    # circuits that print alike: two gates under one name
    "twA": (lambda: Circuit([CustomGateDefinition("tw", Matrix([[0, 1], [1, 0]]), ())()(0)], 2), "10"),
    "twB": (lambda: Circuit([CustomGateDefinition("tw", Matrix([[1, 0], [0, -1]]), ())()(0)], 2), "00"),
}
GATES_ONLY = ("x", "wide", "none", "idle", "xx", "mix", "seg", "twA", "twB")


class Spy:
    """Remembers what the public methods handed out."""

    def run_and_measure(self, circuit, n_samples):
        r = super().run_and_measure(circuit, n_samples)
        self.handed.append(r)
        return r

    def run_batch_and_measure(self, circuits_batch, n_samples):
        r = super().run_batch_and_measure(circuits_batch, n_samples)
        self.handed.append(list(r))
        return r

    def get_measurement_outcome_distribution(self, circuit, n_samples=None):
        r = super().get_measurement_outcome_distribution(circuit, n_samples)
        self.handed.append(r)
        return r


class Recorder(BaseCircuitRunner):
    extra = 0

    def __init__(self):
        super().__init__()
        self.log = []
        self.handed = []

    def _run_and_measure(self, circuit, n_samples):
        if circuit.n_qubits == 6:
            raise RuntimeError("device on fire")
        n = n_samples + self.extra
        k = len(self.log)
        m = Measurements([tuple((k + i + q) % 2 for q in range(circuit.n_qubits)) for i in range(n)])
        self.log.append((circuit, n_samples, m))
        return m


class Generous(Recorder):
    extra = 3


class Batching(Recorder):
    def _run_batch_and_measure(self, batch, samples_per_circuit):
        out = [self._run_and_measure(c, int(n)) for c, n in zip(batch, samples_per_circuit)]
        self._n_circuits_executed += len(out)
        self._n_jobs_executed += 1
        return out


class Native(BaseWavefunctionSimulator):
    """Only X is native."""

    def __init__(self, **kw):
        super().__init__(**kw)
        self.handed = []
        self.segments = []

    def is_natively_supported(self, operation):
        return getattr(getattr(operation, "gate", None), "name", "") == "X"

    def _get_wavefunction_from_native_circuit(self, circuit, initial_state):
        self.segments.append(len(circuit.operations))
        state = initial_state
        for op in circuit.operations:
            state = op.apply(state)
        return state


class GateNative(Native):
    def is_natively_supported(self, operation):
        return BaseWavefunctionSimulator.is_natively_supported(self, operation)


class Sim(SymbolicSimulator):
    def __init__(self, **kw):
        super().__init__(**kw)
        self.handed = []


def spied(cls):
    return type("Spied" + cls.__name__, (Spy, cls), {})


PLAIN = {
    "base": Recorder, "generous": Generous, "batching": Batching, "sim": Sim, "seeded": Sim, "native": Native,
    "gates": GateNative,
}
SPIED = {k: spied(v) for k, v in PLAIN.items()}


def native_pred(kind):
    if kind in ("sim", "seeded"):
        return lambda op: True
    if kind == "gates":
        return lambda op: not isinstance(op, (MultiPhaseOperation, ResetOperation))
    return lambda op: op.gate.name == "X" if hasattr(op, "gate") else False


def segments(kind, circuit):
    marks = [bool(native_pred(kind)(op)) for op in circuit.operations]
    runs = [k for k, _ in itertools.groupby(marks)]
    return len(runs), sum(runs)


class Model:
    """Counters and outcome of every call, for one runner."""

    def __init__(self, kind, folder, name):
        self.kind = kind
        self.layers = kind.split(":")
        self.core = self.layers[-1]
        kw = {"seed": 7} if self.core == "seeded" else {}
        self.inner = SPIED[self.core](**kw)
        self.objs = [self.inner]
        self.files = []
        for i, _ in enumerate(self.layers[:-1]):
            f = os.path.join(folder, f"{name}{i}.json")
            self.files.append(f)
            cls = type("SpiedTracker", (Spy, MeasurementTrackingBackend), {})
            t = cls(self.objs[-1], f, record_bitstrings=bool(i % 2 == 0))
            t.handed = []
            self.objs.append(t)
        self.runner = self.objs[-1]
        self.want = [[0, 0] for _ in self.objs]  # circuits, jobs

    def is_sim(self):
        return self.core in ("sim", "seeded", "native", "gates")

    def work(self, circuit):
        """(circuits, jobs) one execution of circuit costs the innermost runner."""
        if self.is_sim():
            s, n = segments(self.core, circuit)
            return n, s
        return 1, 1

    def counters(self):
        return [[o.n_circuits_executed, o.n_jobs_executed] for o in self.objs]

    def file_text(self):
        out = []
        for f in self.files:
            out.append(open(f).read() if os.path.exists(f) else None)
        return out


def check_measurement(m, circuit, key, n, what):
    check(isinstance(m, Measurements), f"{what}: result {m!r}", "result-type")
    bits = m.bitstrings
    check(len(bits) >= n, f"{what}: {len(bits)} shots, requested {n}", "shots")
    for b in bits:
        check(len(b) == circuit.n_qubits, f"{what}: bitstring {b} for a register of {circuit.n_qubits}", "width")
        check(all(x in (0, 1) for x in b), f"{what}: bitstring {b}", "bits")


def check_deterministic(m, key, what):
    want = CIRCUITS[key][1]
    if want is not None:
        w = tuple(int(c) for c in want)
        check(all(tuple(b) == w for b in m.bitstrings), f"{what}: shots {set(m.bitstrings)}, the circuit prepares {want}", "order")


def expand(arg, forms):
    kind = forms
    return {
        "plain": lambda a: a,
        "tuple": lambda a: tuple(a),
        "array": lambda a: np.array(a, dtype=np.int64),
        "np": lambda a: np.int64(a),
    }[kind](arg)


def valid_call(call):
    if call[0] == "run":
        return call[2] > 0
    if call[0] == "batch":
        n = call[2]
        if isinstance(n, list):
            return len(n) == len(call[1]) and all(x > 0 for x in n)
        return n > 0
    return True


def perform(model, call, circuits):
    r = model.runner
    form = call[3] if len(call) > 3 else "plain"
    if call[0] == "run":
        return r.run_and_measure(circuits[call[1]], expand(call[2], form))
    if call[0] == "batch":
        cs = [circuits[k] for k in call[1]]
        return r.run_batch_and_measure(tuple(cs) if form == "tuple" else cs, expand(call[2], form))
    if call[0] == "dist":
        return r.get_measurement_outcome_distribution(circuits[call[1]], call[2])
    if call[0] == "wf":
        return r.get_wavefunction(circuits[call[1]])
    if call[0] == "exact":
        return r.get_exact_expectation_values(circuits[call[1]], PauliTerm("Z0"))


def wanted(model, call):
    """Expected reaction: 'ok', 'reject' (ValueError, no effect) or 'fail' (some error)."""
    kind = call[0]
    if not valid_call(call):
        return "reject"
    if kind == "dist":
        if call[2] is None:
            return "ok" if model.is_sim() else "reject"
        if call[2] <= 0:
            return "reject"
    keys = call[1] if kind == "batch" else [call[1]]
    if "boom" in keys and not model.is_sim():
        return "fail"
    if "free" in keys and model.is_sim():
        return "ok" if kind == "wf" else "fail"
    return "ok"


def check_record(rec, circuit, m, inner, with_bits, what):
    check(rec["counts"] == m.get_counts(), f"{what}: recorded counts {rec['counts']}", "record-counts")
    check(rec["number_of_shots"] == len(m.bitstrings), f"{what}: recorded {rec['number_of_shots']} shots", "record-shots")
    check_circuit_record(rec, circuit, inner, what)
    if with_bits:
        check(rec["bitstrings"] == [list(b) for b in m.bitstrings], f"{what}: recorded bitstrings", "record-bits")


def check_circuit_record(rec, circuit, inner, what):
    check(rec["circuit"] == json.loads(json.dumps(to_dict(circuit))), f"{what}: recorded circuit {rec['circuit']}", "record-circuit")
    check(circuit_from_dict(rec["circuit"]) == circuit, f"{what}: recorded circuit {rec['circuit']}", "record-circuit")
    check(rec["number_of_gates"] == len(circuit.operations), f"{what}: number of gates", "record-gates")


def step(model, call, circuits, ctx):
    what = f"{model.kind}: {call}"
    reaction = wanted(model, call)
    before = model.counters()
    files = model.file_text()
    log0 = len(getattr(model.inner, "log", []))
    handed0 = [len(o.handed) for o in model.objs]
    check(before == model.want, f"{what}: counters {before}, expected {model.want}", "counters-before")
    ctx.step()
    try:
        result = perform(model, call, circuits)
    except Exception as e:
        ctx.outcome(f"{call[0]}:{reaction}:{type(e).__name__}")
        check(reaction != "ok", f"{what}: refused: {type(e).__name__}: {e}", "refused")
        if reaction == "reject":
            check(isinstance(e, ValueError), f"{what}: {type(e).__name__}: {e}", "error-type")
            check(model.counters() == before, f"{what}: rejected, but the counters went {before} -> {model.counters()}", "counters-rejected")
            check(len(getattr(model.inner, "log", [])) == log0, f"{what}: rejected after executing", "executed-rejected")
            check(model.file_text() == files, f"{what}: rejected, but a record was written", "file-rejected")
        else:
            # a run that breaks half-way: what completed before it counts, the rest does not
            now = model.counters()
            keys = call[1] if call[0] == "batch" else [call[1]]
            done = keys[: [i for i, k in enumerate(keys) if k in ("free", "boom")][0]]
            exact = model.want[0]
            if not (call[0] == "batch" and model.core == "batching"):
                for k in done:
                    c, j = model.work(circuits[k])
                    exact[0] += c
                    exact[1] += j
            check(now[0] == exact, f"{what}: counters {now[0]} after {len(done)} completed runs, expected {exact}", "counters-failed")
            for i in range(1, len(now)):
                check(
                    before[i][0] <= now[i][0] <= before[i][0] + len(done)
                    and before[i][1] <= now[i][1] <= before[i][1] + len(done),
                    f"{what}: wrapper counters {before[i]} -> {now[i]}", "counters-failed",
                )
            model.want = now
        ctx.state(model.kind, "raised", tuple(map(tuple, model.counters())))
        return
    ctx.outcome(f"{call[0]}:ok")
    check(reaction == "ok", f"{what}: accepted with result {result!r}"[:600], "accepted")
    # ---- counters
    keys = call[1] if call[0] == "batch" else [call[1]]
    inner0 = list(model.want[0])
    if model.core == "batching" and call[0] == "batch":
        model.want[0][0] += len(keys)
        model.want[0][1] += 1
    else:
        for k in keys:
            c, j = model.work(circuits[k])
            model.want[0][0] += c
            model.want[0][1] += j
    now = model.counters()
    check(now[0] == model.want[0], f"{what}: counters {before[0]} -> {now[0]}, expected {model.want[0]}", "counters")
    inner_jobs = model.want[0][1] - inner0[1]
    for i in range(1, len(now)):
        grown = now[i][0] - before[i][0], now[i][1] - before[i][1]
        if call[0] == "batch":
            check(grown[0] == len(keys), f"{what}: wrapper counted {grown[0]} circuits", "counters-tracker")
            jobs = {1, inner_jobs} | ({0} if not keys else set())
            check(grown[1] in jobs, f"{what}: wrapper counted {grown[1]} jobs", "counters-tracker")
        else:
            check(grown == (1, 1), f"{what}: wrapper counted {grown}", "counters-tracker")
        model.want[i] = now[i]
    ctx.state(model.kind, call[0], tuple(map(tuple, now)))
    # ---- results
    if call[0] in ("run", "batch"):
        results = [result] if call[0] == "run" else result
        n = call[2] if isinstance(call[2], list) else [call[2]] * len(keys)
        check(len(results) == len(keys), f"{what}: {len(results)} results for {len(keys)} circuits", "result-count")
        new = getattr(model.inner, "log", [])[log0:]
        for i, (k, m) in enumerate(zip(keys, results)):
            check_measurement(m, circuits[k], k, n[i], f"{what} result {i}")
            if model.is_sim():
                check_deterministic(m, k, f"{what} result {i}")
            else:
                c, asked, got = new[i]
                check(c == circuits[k] and asked >= n[i], f"{what}: executed {c} with {asked}", "executed")
                check(m.bitstrings == got.bitstrings, f"{what}: result {i} is not what the device returned", "order")
            ctx.state(k, tuple(sorted(m.get_counts().items())) if CIRCUITS[k][1] is not None else len(m.bitstrings))
        if not model.is_sim():
            check(len(new) == len(keys), f"{what}: executed {len(new)} circuits", "executed")
    elif call[0] == "dist":
        c = circuits[call[1]]
        d = result.distribution_dict
        check(result.get_number_of_subsystems() == c.n_qubits, f"{what}: {d}", "dist-width")
        check(all(v >= 0 for v in d.values()) and abs(sum(d.values()) - 1) < 1e-6, f"{what}: {d}", "dist-norm")
        want = CIRCUITS[call[1]][1]
        if model.is_sim() and want is not None:
            check(abs(d.get(tuple(map(int, want)), 0) - 1) < 1e-6, f"{what}: {d}, the circuit prepares {want}", "dist")
        if not model.is_sim():
            _, asked, got = model.inner.log[-1]
            check(asked >= call[2], f"{what}: executed with {asked} shots", "dist-shots")
            for b in set(got.bitstrings):
                f = got.bitstrings.count(b) / len(got.bitstrings)
                check(abs(d.get(b, 0) - f) < 1e-9, f"{what}: {d}", "dist")
    elif call[0] == "wf":
        check(len(result) == 2 ** circuits[call[1]].n_qubits, f"{what}: {result}", "wf")
    # ---- wrappers
    for i, f in enumerate(model.files):
        inner, outer = model.objs[i], model.objs[i + 1]
        if call[0] == "wf" or call[0] == "exact":
            continue
        got_in = inner.handed[handed0[i]:]
        check(len(got_in) >= 1, f"{what}: the wrapped runner was not asked", "tracker-forward")
        data = json.load(open(f))["raw-data"]
        where = f"{what} wrapper {i}"
        if call[0] == "dist":
            check(result.distribution_dict == got_in[-1].distribution_dict, f"{where}: returned {result}, wrapped {got_in[-1]}", "tracker-result")
            check(len(data) >= 1, f"{where}: no record", "record-missing")
            rec = data[-1]
            check_circuit_record(rec, circuits[call[1]], inner, where)
            check(rec["number_of_shots"] == call[2], f"{where}: recorded {rec['number_of_shots']} shots", "record-shots")
            check(rec["distribution"] == repr(result), f"{where}: recorded {rec['distribution']}", "record-dist")
            continue
        flat = []
        for r in got_in:
            flat += r if isinstance(r, list) else [r]
        # the wrapped runner's own default batch runs singles through its public method
        flat = flat[-len(keys):] if keys else []
        results = [result] if call[0] == "run" else list(result)
        check([m.bitstrings for m in results] == [m.bitstrings for m in flat], f"{where}: returned something else than the wrapped runner", "tracker-result")
        check(len(data) >= len(keys), f"{where}: {len(data)} records for {len(keys)} circuits", "record-missing")
        recs = data[len(data) - len(keys):]
        for k, m, rec in zip(keys, flat, recs):
            check_record(rec, circuits[k], m, inner, outer.record_bitstrings, where)
        check(len(outer.raw_data) == 0, f"{where}: records left unsaved", "record-unsaved")


def run_history(case, ctx):
    folder = tempfile.mkdtemp(prefix="mc-c14-")
    try:
        circuits = {k: f() for k, (f, _) in CIRCUITS.items()}
        models = [Model(kind, folder, f"r{i}-") for i, kind in enumerate(case["runners"])]
        for i, call in case["calls"]:
            step(models[i], call, circuits, ctx)
        for m in models:
            check(m.counters() == m.want, f"{m.kind}: counters {m.counters()}, expected {m.want}", "counters-isolated")
    finally:
        shutil.rmtree(folder)


RUNS = [["run", c, n] for c in ("x", "wide", "none", "idle", "mix") for n in (1, 9)] + [
    ["run", "xx", 2], ["run", "xx", 4], ["run", "xx", 5],
    ["run", "x", 0], ["run", "none", -1], ["run", "x", 3, "np"], ["run", "x", 0, "np"], ["run", "x", -7],
]
BATCHES = [
    ["batch", [], 3], ["batch", [], []], ["batch", [], 0], ["batch", [], -2], ["batch", [], [3]],
    ["batch", ["x"], 1], ["batch", ["x", "wide"], 2], ["batch", ["wide", "x", "none"], [1, 5, 3]],
    ["batch", ["idle", "x", "x"], [4, 1, 7], "tuple"], ["batch", ["x", "xx", "wide", "none"], [2, 3, 1, 9], "array"],
    ["batch", ["x", "x"], 4], ["batch", ["none", "x", "none", "x", "wide"], [2, 3, 2, 3, 11]], ["batch", ["x", "mix"], 3, "np"], ["batch", ["x", "wide"], 0], ["batch", ["x", "wide"], -1], ["batch", ["x"], 0, "np"],
    ["batch", ["x", "wide"], [3]], ["batch", ["x", "wide"], [3, 1, 1]], ["batch", ["x", "wide"], []],
    ["batch", ["x", "wide"], [0, 3]], ["batch", ["x", "wide"], [3, 0]], ["batch", ["x", "wide", "xx"], [1, 2, -1], "tuple"],
    ["batch", ["x", "wide"], [3, -3], "array"], ["batch", ["x"], [1, 1], "array"], ["batch", ["none"], [0]],
]
DISTS = [["dist", c, n] for c in ("x", "none", "mix") for n in (1, 6)] + [
    ["dist", "x", 0], ["dist", "idle", -1], ["dist", "wide", None], ["dist", "none", None],
]
WF = [["wf", "seg"], ["wf", "none"], ["exact", "xx"], ["wf", "free"]]
ODD = [["run", "phase", 2], ["batch", ["seg", "phase"], [2, 1]], ["dist", "phase", None], ["run", "seg", 3]]
FAILS = [["run", "free", 2], ["batch", ["x", "free", "x"], 2], ["run", "boom", 1], ["batch", ["x", "boom"], [1, 1]],
         ["dist", "free", 3]]


def alphabet(kind):
    layers = kind.split(":")
    sim = layers[-1] in ("sim", "seeded", "native", "gates")
    calls = RUNS + BATCHES + DISTS
    if sim and len(layers) == 1:
        calls = calls + WF + ODD + FAILS[:2] + FAILS[4:]
    elif sim:
        calls = calls + [["run", "seg", 3]]
    else:
        calls = calls + FAILS[2:4]
    return calls


KINDS = ["base", "generous", "batching", "sim", "native", "gates", "seeded", "t:base", "t:batching", "t:sim", "t:native",
         "t:t:base", "t:t:sim"]
CORE_CALLS = [
    ["run", "wide", 2], ["run", "none", 3], ["run", "x", 0], ["batch", ["x", "wide"], [2, 5]], ["batch", [], 2],
    ["batch", ["x", "wide"], [2, 0]], ["batch", ["x"], [1, 1]], ["batch", ["idle", "x", "x"], 3], ["dist", "x", 4],
    ["dist", "x", 0], ["batch", ["x", "x"], 0],
]


def cases_history(tier):
    for kind in KINDS:
        for a in alphabet(kind):
            yield {"runners": [kind], "calls": [[0, a]]}
    for kind in KINDS:
        for a, b in itertools.product(alphabet(kind), repeat=2):
            yield {"runners": [kind], "calls": [[0, a], [0, b]]}
    for kind in KINDS:
        sim = kind.split(":")[-1] in ("sim", "seeded", "native", "gates")
        calls = CORE_CALLS + ([["wf", "seg"], ["run", "free", 1]] if sim and ":" not in kind else [])
        for seq in itertools.product(calls, repeat=3 if tier == "quick" else 4):
            yield {"runners": [kind], "calls": [[0, c] for c in seq]}


def cases_twins(tier):
    calls = [["run", "twA", 3], ["run", "twB", 3], ["batch", ["twA", "twB"], 3], ["batch", ["twB", "twA", "twB"], [3, 3, 2]],
             ["batch", ["x", "twB", "x", "twA"], [1, 3, 2, 3], "tuple"], ["dist", "twA", 4], ["dist", "twB", 4]]
    for kind in KINDS:
        own = calls + ([["dist", "twA", None], ["dist", "twB", None]] if kind in ("sim", "seeded", "native", "gates") else [])
        for L in (1, 2) if tier == "quick" else (1, 2, 3):
            for seq in itertools.product(own, repeat=L):
                yield {"runners": [kind], "calls": [[0, c] for c in seq]}


def cases_two(tier):
    calls = [["run", "wide", 2], ["run", "x", 0], ["batch", ["x", "wide"], [1, 2]], ["batch", ["x"], []], ["dist", "x", 3]]
    L = 3 if tier == "quick" else 4
    for kinds in (["base", "base"], ["sim", "sim"], ["t:base", "t:base"], ["t:sim", "native"], ["batching", "t:t:base"]):
        for seq in itertools.product([[i, c] for i in (0, 1) for c in calls], repeat=L):
            if {i for i, _ in seq} == {0, 1}:
                yield {"runners": kinds, "calls": list(seq)}


BULK = [
    ["run", "all", 200], ["run", "all", 1000], ["run", "wide", 1001], ["batch", ["all", "x", "all"], [100, 3, 64]],
    ["batch", ["x", "wide", "xx", "none"] * 8 + ["idle"], list(range(1, 34))], ["batch", ["x", "wide", "xx", "none"] * 8 + ["idle"], 5],
    ["batch", ["all"] * 12, list(range(12, 0, -1)), "tuple"], ["batch", ["wide"] * 20, [3] * 19 + [0]],
    ["batch", ["wide"] * 20, [3] * 19], ["dist", "all", 300], ["dist", "all", 1],
]


def cases_bulk(tier):
    for kind in KINDS:
        calls = BULK + ([["dist", "all", None]] if kind in ("sim", "seeded", "native", "gates") else [])
        for L in (1, 2) if tier == "quick" else (1, 2, 3):
            for seq in itertools.product(calls if L < 3 else calls[:1] + calls[3:6] + calls[7:10], repeat=L):
                yield {"runners": [kind], "calls": [[0, c] for c in seq]}
        # shot numbers past the powers of two and ten a chunked sampler would use
        for call in (["run", "all", 4097], ["run", "wide", 65537], ["run", "all", 100001], ["batch", ["all", "x"], [70001, 3]], ["dist", "all", 70001]):
            yield {"runners": [kind], "calls": [[0, call]]}
        # many calls in a row
        yield {"runners": [kind], "calls": [[0, c] for c in (RUNS[:6] + BATCHES[5:9] + DISTS[:2]) * (3 if tier == "quick" else 9)]}


FAMILIES = [
    Family("histories", cases_history, run_history,
           "13 runner kinds x every sequence of <=2 calls out of ~50 valid and invalid ones, every sequence of 3 (4) out of 11-13"),
    Family("bulk", cases_bulk, run_history, "every sequence of <=2 (3) calls with many shots, many different outcomes or batches of 12..33 circuits; 36 (108) calls in a row"),
    Family("look-alikes", cases_twins, run_history, "every sequence of <=2 (3) calls on circuits that print alike (two gate definitions under one name)"),
    Family("two-runners", cases_two, run_history, "every interleaving of 3 (4) calls on two runners"),
]

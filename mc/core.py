"""Exploration core shared by every check.

A check is a list of *families*.  A family deterministically enumerates, in full and
simplest-first, a finite space of cases (programs, inputs, call histories, environment
answers).  Each case is executed on the real code of /repo in lock-step with a boring
reference model; every public call is one transition, every observed canonical value is
one state, every case run to completion is one validated trace.

Nothing is sampled.  If the wall-clock cap is hit the evidence says so.
"""
import hashlib
import itertools
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHARDS = 8
CASE_TIMEOUT_S = 150  # of processor time: a busy machine is not a hang
CASE_WALL_S = 500


class Violation(Exception):
    """The code under test contradicts the property. `tag` names the failing predicate,
    it is what known findings are matched on (together with the case)."""

    def __init__(self, message, tag="", observed=None, expected=None):
        super().__init__(message)
        self.message = message
        self.tag = tag
        self.observed = observed
        self.expected = expected


class CaseTimeout(BaseException):
    pass


class Family:
    def __init__(self, name, cases, run, bounds="", weight=1):
        self.name = name
        self.cases = cases  # callable tier -> iterable of JSON-able cases
        self.run = run  # callable (case, ctx)
        self.bounds = bounds


class Ctx:
    """Counts what one worker really did."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.outcomes = {}

    def step(self, n=1):
        self.transitions += n

    def state(self, *key):
        self.states.add(
            hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
        )

    def outcome(self, label):
        self.outcomes[label] = self.outcomes.get(label, 0) + 1


def check(cond, message, tag="", **kw):
    if not cond:
        raise Violation(message, tag, **kw)


def short(obj, n=400):
    s = obj if isinstance(obj, str) else repr(obj)
    return s if len(s) <= n else s[:n] + "..."


def _alarm(_sig, _frm):
    raise CaseTimeout()


def run_case(family, case, ctx):
    """Returns None or a dict describing the violation."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.alarm(CASE_WALL_S)
    signal.setitimer(signal.ITIMER_PROF, CASE_TIMEOUT_S)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            family.run(case, ctx)
        return None
    except Violation as v:
        return {"message": short(v.message, 1500), "tag": v.tag}
    except CaseTimeout:
        return {
            "message": f"no answer within {CASE_TIMEOUT_S} s for an in-scope input",
            "tag": "timeout",
        }
    except Exception as e:  # the code under test raised on an in-scope input
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-4:])
        return {
            "message": short(f"unexpected {type(e).__name__}: {e} [{where}]", 1500),
            "tag": "exception:" + type(e).__name__,
        }
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)


def _shard_of(index):
    return ((index * 2654435761) & 0xFFFFFFFF) * SHARDS >> 32


def _worker(prop, families, tier, shard, deadline, best, known, conn):
    ctx = Ctx()
    out = {"families": {}, "violation": None, "known": [], "capped": False}
    gidx = 0
    stop = False
    for fi, fam in enumerate(families):
        n_total = n_run = 0
        t0 = time.time()
        ts0, st0 = ctx.transitions, len(ctx.states)
        for case in fam.cases(tier):
            idx = n_total
            n_total += 1
            gidx += 1
            if _shard_of(idx) != shard:
                continue
            if time.time() > deadline:
                out["capped"] = True
                stop = True
                break
            if (fi << 40) + idx > best.value:
                stop = True
                break
            bad = run_case(fam, case, ctx)
            n_run += 1
            if bad is not None:
                bad.update(family=fam.name, case=case, index=idx, shard=shard)
                k = match_known(prop, known, bad)
                if k is not None:
                    if len([1 for x in out["known"] if x[0] == k["id"]]) < 3:
                        out["known"].append((k["id"], bad))
                    ctx.outcome("known-finding:" + k["id"])
                    continue
                out["violation"] = (fi, idx, bad)
                with best.get_lock():
                    best.value = min(best.value, (fi << 40) + idx)
                stop = True
                break
        out["families"][fam.name] = {
            "run": n_run,
            "total": n_total,
            "transitions": ctx.transitions - ts0,
            "new_states": len(ctx.states) - st0,
            "cpu_s": time.time() - t0,
        }
        if stop:
            break
    out["states"] = ctx.states
    out["transitions"] = ctx.transitions
    out["outcomes"] = ctx.outcomes
    conn.send(out)
    conn.close()


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f).get("findings", [])


def match_known(prop, known, bad):
    for k in known:
        families = k["family"] if isinstance(k["family"], list) else [k["family"]]
        if k["property"] != prop or bad["family"] not in families:
            continue
        if k["tag"] != bad["tag"]:
            continue
        if "cases" in k and bad["case"] not in k["cases"]:
            continue
        return k
    return None


def write_replay(prop, bad):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.blake2b(
        json.dumps([bad["family"], bad["case"]], sort_keys=True).encode(), digest_size=6
    ).hexdigest()
    path = os.path.join(d, f"{prop}-{h}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, **bad}, f, indent=1)
    return path


def run_check(prop, module, tier, seed):
    t0 = time.time()
    families = module.FAMILIES
    only = os.environ.get("MC_FAMILY")
    if only:
        families = [f for f in families if f.name in only.split(",")]
    cap = float(
        os.environ.get("MC_CAP_S", 600 if tier == "quick" else 6 * 3600)
    )
    deadline = t0 + cap
    known = load_known()
    best = mp.Value("Q", (1 << 63))
    ctxmp = mp.get_context("fork")
    procs = []
    for s in range(SHARDS):
        r, w = ctxmp.Pipe(False)
        p = ctxmp.Process(
            target=_worker, args=(prop, families, tier, s, deadline, best, known, w)
        )
        p.start()
        w.close()
        procs.append((p, r))
    results, lost = [], []
    for s, (p, r) in enumerate(procs):
        try:
            results.append(r.recv())
        except EOFError:
            lost.append(s)
        p.join()
    states = set()
    transitions = 0
    outcomes = {}
    fam_stats = {}
    violations = []
    known_hits = {}
    capped = False
    for res in results:
        states |= res["states"]
        transitions += res["transitions"]
        capped |= res["capped"]
        for k, v in res["outcomes"].items():
            outcomes[k] = outcomes.get(k, 0) + v
        for name, st in res["families"].items():
            f = fam_stats.setdefault(
                name, {"cases": 0, "transitions": 0, "cpu_s": 0.0}
            )
            f["cases"] += st["run"]
            f["transitions"] += st["transitions"]
            f["cpu_s"] = round(f["cpu_s"] + st["cpu_s"], 1)
        if res["violation"]:
            violations.append(res["violation"])
        for kid, bad in res["known"]:
            known_hits.setdefault(kid, []).append(bad)
    for fam in families:
        if fam.name in fam_stats:
            fam_stats[fam.name]["bounds"] = fam.bounds
    traces = sum(f["cases"] for f in fam_stats.values())
    if lost and not violations:
        # a worker died (killed / crashed interpreter): no verdict
        print(f"ERROR: worker(s) {lost} ended without an answer", file=sys.stderr)
    samples = []
    for fam in families:
        for i, case in enumerate(itertools.islice(fam.cases(tier), 0, 40)):
            if i in (0, 7, 39):
                samples.append({"family": fam.name, "case": short(json.dumps(case), 600)})
    violations.sort(key=lambda v: (v[0], v[1]))
    exhaustive = not capped and not violations and not lost and not only
    for k in known:
        if k["property"] == prop and k["id"] in known_hits:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": len(states),
            "transitions": transitions,
            "traces_validated_against_impl": traces,
            "exhaustive": exhaustive,
            "capped": capped,
            "explanation": (
                "stateless exhaustive exploration of the real code: every case of every "
                "family below was executed in lock-step with the reference model; "
                "states = distinct canonical observed values, transitions = compared "
                "public calls, traces = complete cases"
            ),
            "families": fam_stats,
            "outcomes": dict(sorted(outcomes.items())),
            "samples": samples[:40],
            "known_findings_seen": sorted(known_hits),
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print(
        f"{prop} {tier}: states={len(states)} transitions={transitions} traces={traces} "
        f"capped={capped} wall={evidence['wall_s']}s"
    )
    for name, st in fam_stats.items():
        print(f"  {name}: cases={st['cases']} transitions={st['transitions']} cpu={st['cpu_s']}s")
    if os.environ.get("MC_VERBOSE"):
        for k, v in sorted(outcomes.items()):
            print(f"    outcome {k}: {v}")
    if violations:
        for fi, idx, bad in violations[: 1 if not os.environ.get("MC_VERBOSE") else 8]:
            path = write_replay(prop, bad)
            print(f"family={bad['family']} index={bad['index']} tag={bad['tag']}")
            print(f"case={short(json.dumps(bad['case']), 1500)}")
            print(f"what={bad['message']}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 2 if lost else 0

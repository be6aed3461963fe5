#!/usr/bin/env python
"""replay.py <replay.json>: re-executes one recorded case on the real code."""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("MC_CHILD") != "1":
    from run import ENV

    env = dict(os.environ, MC_CHILD="1", **ENV)
    env["PYTHONPATH"] = os.path.join(env.get("MC_REPO", "/repo"), "src")
    os.execve("/opt/venv/bin/python", ["/opt/venv/bin/python", os.path.abspath(__file__), *sys.argv[1:]], env)
sys.path.insert(0, here)
import importlib

from mc import core

with open(sys.argv[1]) as f:
    rec = json.load(f)
module = importlib.import_module("mc." + rec["property"].lower())
fam = next(f for f in module.FAMILIES if f.name == rec["family"])
bad = core.run_case(fam, rec["case"], core.Ctx())
if bad is None and "index" in rec and "--alone" not in sys.argv:
    # history dependent: replay the whole shard prefix in one process
    ctx = core.Ctx()
    for f2 in module.FAMILIES:
        for idx, case in enumerate(f2.cases(os.environ.get("VERIF_TIER", "quick"))):
            if core._shard_of(idx) != rec["shard"]:
                continue
            bad = core.run_case(f2, case, ctx)
            if f2 is fam and idx == rec["index"]:
                break
        if f2 is fam:
            break
print("case:", json.dumps(rec["case"]))
if bad is None:
    print("not reproduced: the property holds on this case")
    sys.exit(0)
print("what:", bad["message"])
print(f"VIOLATION property={rec['property']} replay={os.path.abspath(sys.argv[1])}")
sys.exit(1)

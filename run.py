#!/usr/bin/env python
"""run.py <property>   (VERIF_TIER=quick|thorough, VERIF_SEED=<int>)"""
import os
import sys

ENV = {
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "SYMPY_USE_CACHE": os.environ.get("SYMPY_USE_CACHE", "yes"),
}


def main():
    prop = sys.argv[1].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    here = os.path.dirname(os.path.abspath(__file__))
    if os.environ.get("MC_CHILD") != "1":
        env = dict(os.environ, MC_CHILD="1", **ENV)
        repo = env.get("MC_REPO", "/repo")
        env["PYTHONPATH"] = os.path.join(repo, "src")
        env.pop("PYTHONSTARTUP", None)
        os.execve("/opt/venv/bin/python", ["/opt/venv/bin/python", os.path.join(here, "run.py"), prop, tier], env)
    sys.path.insert(0, here)
    import importlib

    from mc import core

    module = importlib.import_module("mc." + prop.lower())
    sys.exit(core.run_check(prop, module, tier, seed))


if __name__ == "__main__":
    main()

"""Regenerates MANIFEST.json: every property with a module in mc/ is claimed."""
import json
import os

here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
have = [i for i in ids if os.path.exists(os.path.join(here, "mc", i.lower() + ".py"))]
old = json.load(open(os.path.join(here, "MANIFEST.json")))
py = "/opt/venv/bin/python run.py"
m = {
    "version": old["version"],
    "setup_cmd": old["setup_cmd"],
    "checks": [
        {
            "property": i,
            "quick_cmd": f"{py} {i} quick",
            "thorough_cmd": f"{py} {i} thorough",
            "technique": "model checking: exhaustive bounded exploration of the real code in lock-step with a reference model",
            "level": "model_checking",
            "level_note": "bounds and oracle per property: DESIGN.md; achieved coverage: evidence/%s.json" % i,
        }
        for i in have
    ],
    "not_applicable": [{"property": i, "reason": "check not built yet"} for i in ids if i not in have],
}
for k in old:
    if k not in m:
        m[k] = old[k]
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

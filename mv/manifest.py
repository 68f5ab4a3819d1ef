"""Regenerates MANIFEST.json from properties.jsonl and the modules present."""
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    sys.path.insert(0, "/repo")
    checks, missing = [], []
    with open(os.path.join(VERIF, "properties.jsonl")) as f:
        props = [json.loads(line) for line in f if line.strip()]
    for p in props:
        pid = p["id"]
        path = os.path.join(VERIF, "mv", "props", pid.lower() + ".py")
        if not os.path.exists(path):
            missing.append({"property": pid,
                            "reason": "check not built yet (work in progress)"})
            continue
        mod = importlib.import_module(f"mv.props.{pid.lower()}")
        checks.append({
            "property": pid,
            "quick_cmd": f"./check {pid}",
            "thorough_cmd": f"./check {pid} --tier thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": "runtime monitoring: " + mod.TECHNIQUE,
            "level": "exploration",
            "level_note": mod.LEVEL_NOTE,
        })
    data = {
        "version": 1,
        "setup_cmd": "./check-setup",
        "checks": checks,
        "not_applicable": missing,
        "notes": "modepy is pure Python; no hooks were added to /repo. "
                 "Checks import modepy from /repo's working tree.",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(data, f, indent=1)
        f.write("\n")
    print(f"{len(checks)} checks, {len(missing)} without")


if __name__ == "__main__":
    main()

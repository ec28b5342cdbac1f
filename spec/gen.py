"""Writes properties.jsonl and MANIFEST.json from spec/ (run: python3 -m spec.gen)."""
import json
import os
from . import props_a, props_b   # noqa
from .checks import CHECKS, NOT_APPLICABLE

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    props = props_a.P
    ids = {p["id"] for p in props}
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in props:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    checks = []
    for pid in sorted(CHECKS):
        assert pid in ids
        technique, note = CHECKS[pid]
        checks.append({"property": pid,
                       "quick_cmd": "python3 /verif/check.py --property %s --tier quick" % pid,
                       "thorough_cmd": "python3 /verif/check.py --property %s --tier thorough" % pid,
                       "technique": technique, "level": "other", "level_note": note})
    na = []
    for pid in sorted(ids):
        if pid not in CHECKS:
            na.append({"property": pid, "reason": NOT_APPLICABLE.get(pid, "check under construction")})
    man = {"version": 1, "setup_cmd": "python3 -m compileall -q /verif/sa /verif/check.py",
           "checks": checks, "not_applicable": na,
           "notes": "All checks are static analyses of /repo's current source; nothing of the package is imported or run. "
                    "See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()

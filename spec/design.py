"""Writes DESIGN.md (run: python3 -m spec.design): head text, one section per property, defects, planted changes."""
import json
import os
from . import props_a, props_b   # noqa
from .checks import CHECKS, NOT_APPLICABLE
from .limits import LIMITS, DEFECT_NOTES

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    out = [open(os.path.join(HERE, "spec", "design_head.md")).read().rstrip(), "", "## Properties", ""]
    for p in props_a.P:
        out.append("### %s %s" % (p["id"], p["title"]))
        out.append("")
        if p["id"] in CHECKS:
            tech, note = CHECKS[p["id"]]
            out.append("*Method:* %s." % tech)
            out.append("*Covers:* %s" % note)
            out.append("*Why tests cannot settle it:* %s" % p["why_tests_cant"])
            if p["id"] in LIMITS:
                out.append("*Bounds and limits:* %s" % LIMITS[p["id"]])
        else:
            out.append("Not applicable: %s." % NOT_APPLICABLE[p["id"]])
        out.append("")
    out += ["## Genuine defects", "", "Repaired in /repo, one `fix:` commit each (listed with commits in `known_findings.txt`):", ""]
    for line in open(os.path.join(HERE, "known_findings.txt")):
        if line.startswith("fixed:"):
            w = line.split()
            out.append("* %s: %s (%s)" % (w[1].split("=")[1], " ".join(w[3:]), w[2]))
    out += ["", "Seen while reading and left alone (outside the statements above, which were worded accordingly, or a documented choice):", ""]
    out += ["* " + n for n in DEFECT_NOTES]
    out += ["", "## Planted changes and what reports them", "",
            "`check` is the check of the property the change was written for; `also` are other checks that alarm on it.", "",
            "| change | needs | check | also |", "|---|---|---|---|"]
    try:
        catches = json.load(open(os.path.join(HERE, "spec", "catches.json")))
    except OSError:
        catches = {}
    sd = os.path.join(HERE, "seeded")
    for s in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open(os.path.join(sd, s, "meta.json")))
        c = catches.get(s, {})
        out.append("| %s | %s | %s | %s |" % (
            s, m["needs"].replace("|", "/"), "reported" if c.get("own") else "missed" if s in catches else "?",
            ", ".join(c.get("also", [])) or "-"))
    with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
        f.write("\n".join(out) + "\n")


if __name__ == "__main__":
    main()

#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, one section per property (from the spaces themselves and
properties.jsonl), tools/design_tail.md and the table of planted bugs (from seeded/ and tools/caught.json)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, "/repo/src"]

from mc.engine import load  # noqa: E402

NOTES = json.load(open(os.path.join(ROOT, "tools", "notes.json")))


def main():
    out = [open(os.path.join(ROOT, "tools", "design_head.md")).read()]
    man = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
    how = {c["property"]: c["technique"].split("; ", 1)[1] for c in man["checks"]}
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        p = json.loads(line)
        pid = p["id"]
        if pid not in how:
            continue
        s = load(pid)
        q, t = s.bounds("quick"), s.bounds("thorough")
        out.append("### %s %s\n" % (pid, p["title"]))
        out.append("* How: %s (`%s`, class `%s`)." % (how[pid], "mc/props/%s.py" % type(s).__module__.split(".")[-1],
                                                   type(s).__name__))
        out.append("* Enumerated: %s." % s.rule)
        out.append("* Bounds: %s%s" % (q, "." if q == t else "; thorough: %s." % t))
        out.append("* Oracle: %s" % NOTES["oracle"][pid])
        if s.assumptions:
            out.append("* Assumes: %s." % "; ".join(s.assumptions))
        out.append("* Beyond the tests: %s." % p["why_tests_cant"].rstrip("."))
        out.append("")
    out.append(open(os.path.join(ROOT, "tools", "design_tail.md")).read())
    caught = json.load(open(os.path.join(ROOT, "tools", "caught.json")))
    out.append("| planted bug | property | what it breaks | reported by |\n|---|---|---|---|")
    for b in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        m = json.load(open(os.path.join(ROOT, "seeded", b, "meta.json")))
        out.append("| %s | %s | %s | %s |" % (b, m["property"], m["what_it_breaks"],
                                             " ".join(caught.get(b, ["not run"])) or "none"))
    with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
        f.write("\n".join(out) + "\n")


main()

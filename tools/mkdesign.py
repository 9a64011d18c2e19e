"""Puts DESIGN.md together from tools/design_*.md, known_findings.json and seeded/ (run by hand)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(HERE, "tools")
MISSED = json.load(open(os.path.join(T, "missed_first.json")))


def part(name):
    return open(os.path.join(T, "design_%s.md" % name)).read()


out = [part("head"), part("props"), "\n"]
for line in json.load(open(os.path.join(HERE, "known_findings.json")))["fixed"]:
    _, prop, commit, what = line.split(" ", 3)
    out.append("- %s %s: %s\n" % (prop.split("=")[1], commit, what))
out += ["\n", part("tail"), "| planted bug | property | what it needs | missed first; what was strengthened |\n|---|---|---|---|\n"]
ids = sorted(os.listdir(os.path.join(HERE, "seeded")))
assert set(MISSED) <= set(ids), set(MISSED) - set(ids)
for i in ids:
    m = json.load(open(os.path.join(HERE, "seeded", i, "meta.json")))
    out.append("| %s | %s | %s | %s |\n" % (i, m["property"], m["needs"].replace("|", "/"), MISSED.get(i, "")))
with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write("".join(out))

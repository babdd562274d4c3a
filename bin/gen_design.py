#!/usr/bin/env python3
# Writes DESIGN.md from design/head.md, the registry, the enumeration rules of the harnesses and design/tail.md.
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
reg = json.load(open(root + "/bin/checks.json"))
caught = json.load(open(root + "/design/caught.json"))
notes = json.load(open(root + "/design/notes.json"))
out = open(root + "/design/head.md").read()
for line in open(root + "/properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    r = reg[i]
    out += "\n### %s %s\n\n%s\n\n" % (i, p.get("title", ""), p.get("statement", ""))
    for variant, name in r["bins"]:
        src = open("%s/harness/%s.cpp" % (root, name)).read()
        m = re.search(r'g_rule =\s*((?:\s*"(?:[^"\\]|\\.)*")+);', src)
        rule = "".join(json.loads(x) for x in re.findall(r'"(?:[^"\\]|\\.)*"', m.group(1)))
        out += "Enumerated (`harness/%s.cpp`%s): %s.\n\n" % (name, ", under the controlled scheduler or with crash points" if variant == "tsi" else "", rule.rstrip("."))
    out += "Bounds: %s.\n\n" % r["level_note"]
    out += "Assumptions: %s.\n" % "; ".join(r["assumptions"])
    if i in notes:
        out += "\n%s\n" % notes[i]
tail = open(root + "/design/tail.md").read()
rows = "| planted bug | property | needs | caught by |\n|---|---|---|---|\n"
for d in sorted(os.listdir(root + "/seeded")) if os.path.isdir(root + "/seeded") else []:
    m = json.load(open("%s/seeded/%s/meta.json" % (root, d)))
    rows += "| %s | %s | %s | %s |\n" % (d, m["property"], m["needs"], caught.get(d, m["property"]))
tail = tail.replace("@SEEDED@\n", rows)
rows = "| check | file | change | result |\n|---|---|---|---|\n"
for line in open(root + "/design/mutants.jsonl"):
    m = json.loads(line)
    rows += "| %s | %s | %s | %s |\n" % (m["check"], m["file"], m["change"].replace("|", "\\|"), m["result"])
tail = tail.replace("@MUTANTS@\n", rows)
rows = ""
for line in open(root + "/known-findings.jsonl"):
    k = json.loads(line)
    rows += "* %s %s: %s\n" % (k["property"], k["commit"], k["what"].split(" ", 3)[3])
out += "\n" + tail.replace("@FIXED@\n", rows)
open(root + "/DESIGN.md", "w").write(out)

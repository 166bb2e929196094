"""Write the measured sizes and times of the last quick run of every check into DESIGN.md."""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import props

BEGIN, END = "<!-- measured -->\n", "<!-- end measured -->\n"
rows, bad = [], []
for p in sorted(props.PROPS):
    try:
        d = json.load(open(os.path.join(HERE, "evidence", p + ".json")))
    except OSError:
        bad.append(p)
        continue
    if d["tier"] != "quick" or str(d["seed"]) != "1" or d["violations"]:
        bad.append(p)
        continue
    c = d["coverage"]
    work = ", ".join(f"{k} {v['sessions']}" for k, v in c["workloads"].items())
    models = ", ".join(f"{k} {v['states']}" for k, v in c["models"].items()) or "-"
    rows.append(f"| {p} | {c['traces_validated_against_impl']} | {c['events']} | {work} | {models} | {d['wall_s']:.0f} s |\n")
if bad:
    sys.exit("no clean quick run with seed 1 for " + " ".join(bad))
path = os.path.join(HERE, "DESIGN.md")
text = open(path).read()
table = "| id | sessions | events | by workload | states of the models | time |\n|---|---|---|---|---|---|\n" + "".join(rows)
text = re.sub(re.escape(BEGIN) + ".*?" + re.escape(END), lambda m: BEGIN + table + END, text, flags=re.S)
open(path, "w").write(text)

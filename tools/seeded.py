#!/usr/bin/env python3
"""Writes SEEDED.md from seeded/*/meta.json (documentation only; no check reads seeded/)."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = ["# Planted bugs", "", "Each is caught by the quick check of its property (the first three characters of its id).", "",
     "| id | file | what it breaks | what it needs |", "|---|---|---|---|"]
for i in sorted(os.listdir(R + "/seeded")):
    d = R + "/seeded/" + i
    m = json.load(open(d + "/meta.json"))
    f = sorted(set(re.findall(r"^\+\+\+ b/src/(\S+)", open(d + "/patch.diff").read(), re.M)))
    L.append(f"| {i} | {', '.join(f)} | {m['what_it_breaks']} | {m['needs']} |")
open(R + "/SEEDED.md", "w").write("\n".join(L) + "\n")

#!/usr/bin/env python3
"""Rewrites BOUNDS.md: every space of every check with its bound, in both tiers."""
import os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
import run, tracing, miri

def main():
    bins = sorted(f[:-3] for f in os.listdir(os.path.join(run.MC, "src", "bin")) if f.endswith(".rs"))
    dirs = run.build(bins)
    out = ["# Bounds of every check", "", "Generated by `python3 tools/bounds.py`. One line per space; where the thorough tier differs it follows in brackets.", ""]
    for b in bins + ["c28", "c30"]:
        out += [f"## {b.upper()}", ""]
        rows = {}
        for tier in ("quick", "thorough"):
            if b == "c28":
                rows[tier] = [(n, f"{x} ({len(c)} uses)") for n, x, c in tracing.space(tier)]
            elif b == "c30":
                rows[tier] = [(n, x) for n, c, x in miri.spaces("release", tier)]
            else:
                t = subprocess.run([os.path.join(dirs["plain"], b), "--tier", tier, "--list"], capture_output=True, text=True, check=True).stdout
                rows[tier] = [(l.split("\t")[0], l.split("\t")[2]) for l in t.splitlines()]
        q = dict(rows["quick"])
        for n, x in rows["thorough"]:
            if n not in q:
                out.append(f"- {n} (thorough only): {x}")
            elif q[n] == x:
                out.append(f"- {n}: {x}")
            else:
                out.append(f"- {n}: {q[n]} [thorough: {x}]")
        for n, x in rows["quick"]:
            if n not in dict(rows["thorough"]):
                out.append(f"- {n} (quick only): {x}")
        out.append("")
    open(os.path.join(ROOT, "BOUNDS.md"), "w").write("\n".join(out))

main()

#!/usr/bin/env python3
"""Prints the table in DESIGN.md's "Measured" from the evidence files of the last runs."""
import glob, json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
print("| | runs in s | runs/h | calls judged | distinct outcomes | interleavings | simulated s | faults injected (kinds) | edges reached |")
print("|---|---|---|---|---|---|---|---|---|")
for f in sorted(glob.glob(os.path.join(V, "evidence", "C*.json"))):
    d = json.load(open(f)); c = d["coverage"]
    k = {n: v for n, v in c["faults_injected"].items() if v and n != "preemptions"}
    print("| {} | {} in {:.0f} | {:.0f}k | {} | {} | {} | {:.0f} | {} ({}) | {} |".format(
        d["property"], c["simulated_runs"], d["wall_s"], c["runs_per_hour"] / 1000, c["evaluations"],
        c["distinct_nontrivial"], c["distinct_interleavings"] or "–", c["simulated_seconds"],
        sum(k.values()), len(k), c["library_edges_reached"]))

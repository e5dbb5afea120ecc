#!/usr/bin/env python3
"""merge.py EVIDENCE OTHER NAME: adds to an evidence file what another run of the check observed."""
import json
import os
import sys

path, other, name = sys.argv[1:4]
with open(path) as f:
    evidence = json.load(f)
with open(other) as f:
    more = json.load(f)
cov = evidence["coverage"]
cov[name] = {"evaluations": more["coverage"]["evaluations"], "wall_s": more["wall_s"], "observed": more["coverage"]["observed"]}
cov["evaluations"] += more["coverage"]["evaluations"]
evidence["wall_s"] = round(evidence["wall_s"] + more["wall_s"], 3)
with open(path + ".tmp", "w") as f:
    json.dump(evidence, f, indent=1)
    f.write("\n")
os.rename(path + ".tmp", path)

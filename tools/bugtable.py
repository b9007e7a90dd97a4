#!/usr/bin/env python3
"""Rewrites the planted-bug table of DESIGN.md from seeded/*/meta.json (documentation only)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/DESIGN.md").read()
m = "## Planted bugs and the checks that catch them\n"
s = s.split(m)[0].rstrip() + "\n\n" + m + """
Each of `seeded/<id>` compiles, passes the 92 stable tests and is confirmed by its demonstration. All of
them are caught by the quick tier of the check of the property named in the id. About 300 further
throw-away changes were probed the same way; those that got through led to the *order* and *history*
families, the denser boundary alphabets and the mirrored/swapped arguments. Still not seen, because they have no
effect above rounding for inputs that satisfy the property: the two highest-order coefficients of one series
of Karney's method (below 3e-4 f^6), and changes of the representation of an interval bound at odd
multiples of pi (the statement leaves it open).

| planted bug | what it breaks | needs |
|---|---|---|
"""
for i in sorted(os.listdir(V + "/seeded")):
    d = json.load(open(f"{V}/seeded/{i}/meta.json"))
    s += f"| {i} | {d['what_it_breaks']} | {d['needs']} |\n".replace("|-", "| -")
open(V + "/DESIGN.md", "w").write(s)

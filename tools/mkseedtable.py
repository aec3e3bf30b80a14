#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json; the set below names those missed at first."""
import json
import os
import re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set("""330 333 340 341 291 294 301 302 303 307 309 311 277 281 223 231 233 240 245 248 202 206 208 60 67 72 82 102 73 104 83 84 23 114 115 78 117 42 51 123 56 58 80 96
170 173 184 188 192 130 133 135 137 138 162 140 141 142 144 145 146 150 159""".split())
rows = {}
for i in os.listdir(os.path.join(V, "seeded")):
    p = json.load(open(os.path.join(V, "seeded", i, "meta.json")))["property"]
    rows.setdefault(p, []).append(int(re.match(r"s(\d+)", i).group(1)))
t = "".join("| %s | %s |\n" % (p, ", ".join(("**s%02d**" if str(n) in MISSED else "s%02d") % n for n in sorted(rows[p])))
            for p in sorted(rows))
d = os.path.join(V, "DESIGN.md")
s = open(d).read()
a = s.index("|---|---|\n", s.index("## 6. Planted bugs")) + len("|---|---|\n")
b = s.index("\n\n", a) + 1
open(d, "w").write(s[:a] + t + s[b:])

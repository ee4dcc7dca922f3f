#!/usr/bin/env python3
"""development helper: rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json"""
import json, os, re
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); rows = []
for i in sorted(os.listdir(D + "/seeded")):
    m = json.load(open(f"{D}/seeded/{i}/meta.json")); rows.append(f"| {i}: {m['what_it_breaks'][:100].replace('|', '/')} | {m['property']} | {m.get('caught', m['property'] + ' check')} |")
s = open(D + "/DESIGN.md").read(); h = "|---|---|---|\n"; a = s.index(h) + len(h); b = a + re.match(r"(\|.*\n?)*", s[a:]).end()
open(D + "/DESIGN.md", "w").write(s[:a] + "\n".join(rows) + "\n" + s[b:])

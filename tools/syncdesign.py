#!/usr/bin/env python3
"""Brings the Generated and Oracle lines and titles in DESIGN.md in step with config.py and properties.jsonl."""
import json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from config import CHECKS
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
path = os.path.join(root, "DESIGN.md")
s = open(path).read()
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l)
    k = CHECKS[p["id"]]
    m = re.search(r"### %s  .*?(?=\n### |\n## |\Z)" % p["id"], s, re.S)
    if not m:
        print("no section", p["id"])
        continue
    sec = m.group(0)
    new = re.sub(r"^### .*$", lambda _: "### %s  %s" % (p["id"], p["title"]), sec, count=1, flags=re.M)
    new = re.sub(r"^\* Generated: .*$", lambda _: "* Generated: " + k["rule"] + ".", new, count=1, flags=re.M)
    new = re.sub(r"^\* Oracle: .*$", lambda _: "* Oracle: " + k["note"] + ".", new, count=1, flags=re.M)
    s = s.replace(sec, new)
rows = []
seeded = os.path.join(root, "seeded")
for name in sorted(os.listdir(seeded) if os.path.isdir(seeded) else ()):
    m = json.load(open(os.path.join(seeded, name, "meta.json")))
    rows.append((m["property"], "| %s | %s | %s | %s | %s |" % (name, m["property"], m["needs"], m["what_it_breaks"], m.get("caught", "quick"))))
head = "| change | property | needs | what it breaks | caught by |\n|---|---|---|---|---|\n"
i = s.index("| change | property |")
j = s.find("\n\n", i)
s = s[:i] + head + "\n".join(r for _, r in sorted(rows)) + (s[j:] if j >= 0 else "\n")
open(path, "w").write(s)

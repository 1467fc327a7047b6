#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md (development only; no check uses it)."""
import json, os, sys
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
for i in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, i, "meta.json")))
    print(f"| {i} | {m['what_it_breaks']} | {m['needs']} |")

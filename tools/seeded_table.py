#!/usr/bin/env python3
"""Writes the table of planted bugs for DESIGN.md (caught by the check of the named property)."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
print("| | property | what it breaks | needs |\n| --- | --- | --- | --- |")
for d in sorted(os.listdir(root)):
    m = json.load(open(os.path.join(root, d, "meta.json")))
    print(f"| {d.split('-')[0]} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")

"""Table of the planted bugs for DESIGN.md (run by hand; no check uses it)."""
import json
import os

d = os.path.join(os.path.dirname(__file__), "..", "seeded")
print("| planted bug | property | needs | breaks | caught by |\n|---|---|---|---|---|")
for n in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, n, "meta.json")))
    print(f"| {n} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {', '.join(m.get('caught_by', [m['property']]))} |")

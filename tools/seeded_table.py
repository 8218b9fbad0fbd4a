"""Prints the table of planted bugs from seeded/*/meta.json (development time)."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| bug | property | needs |\n|---|---|---|")
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); print(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs']} |")

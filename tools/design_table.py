"""prints the table of planted bugs of DESIGN.md from seeded/*/meta.json"""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
first = {"read-evicts-clean-nodes", "persist-once", "reconcile-capped", "terminal-length-unchecked", "stream-value-buffer-reused", "persist-deletes-known-only", "kzg-clone-shares-points", "big-values-in-24-bits", "big-cache-trimmed", "deletions-persisted-in-part", "sum-of-missing-elements", "kzg-wide-node-truncated"}
rows = []
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    rows.append((m["property"], d, m["needs"].replace("|", "/")))
for p, d, n in sorted(rows):
    print("| `%s` | %s%s | %s |" % (d, p, " (first missed)" if d in first else "", n))

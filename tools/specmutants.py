#!/usr/bin/env python3
"""Seeded mistakes of the specifications: for each of them TLC has to find a violation.

Shows that the invariants are not vacuous. Not part of any check. Usage: specmutants.py [name...]
"""
import os, re, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

# module, configuration, constants changed
M = [
    ("TrieImpl", "TrieFull", {"Bug": "no-merge", "Menu": 1, "Reads": "FALSE"}),
    ("TrieImpl", "TrieFull", {"Bug": "keep-deleted", "Menu": 1, "Reads": "FALSE"}),
    ("TrieImpl", "TrieFull", {"Bug": "clear-deleted", "Menu": 1, "Reads": "FALSE"}),
    ("TrieImpl", "TrieFull", {"Bug": "split-marks", "Menu": 1, "Reads": "FALSE"}),
    ("TrieImpl", "TrieFull", {"Bug": "merge-path", "Menu": 1, "Reads": "FALSE"}),
    ("TrieImpl", "TrieFullClone", {"Bug": "clone-deleted", "MaxLen": 9}),
    ("ProofSys", "ProofsFull256", {"Bug": "index"}),
    ("ProofSys", "ProofsFull256", {"Bug": "ends"}),
    ("ProofSys", "ProofsFull256", {"Bug": "absent-ends"}),
    ("ProofSys", "ProofsFull256", {"Bug": "extend"}),
    ("MCRadix", "MCRadixQuiet", {"Bug": "no-pf"}),
    ("MCData", "MCData", {"Bug": "prefix"}),
    ("MCKV", "MCKV", {"Bug": "noprefix"}),
    ("MCStream", "MCStream", {"Bug": "silent"}),
    ("MCStream", "MCStream", {"Bug": "kv16"}),
    ("Updater", "Updater16", {"Bug": "twobatches"}),
    ("Updater", "Updater16", {"Bug": "drop"}),
    ("KZG", "KZGNat", {"Bug": "tk"}),
    ("KZG", "KZGPow", {"Bug": "omega"}),
]


def one(m):
    mod, cfg, over = m
    name = "%s %s" % (mod, over["Bug"])
    text = open(os.path.join(SPEC, cfg + ".cfg")).read()
    for k, v in dict({"Emitting": "FALSE"}, **over).items():
        v = '"%s"' % v if k == "Bug" else str(v)
        text = re.sub(r"\b%s = \S+" % k, "%s = %s" % (k, v), text)
    with tempfile.TemporaryDirectory(prefix="mut-") as d:
        c = os.path.join(d, "m.cfg")
        open(c, "w").write(text)
        t0 = time.time()
        p = subprocess.run(["java", "-XX:+UseParallelGC", "-Xmx4g", "-Xss64m", "-cp", JARS, "tlc2.TLC", "-workers", "4", "-metadir", d,
                            "-noGenerateSpecTE", "-config", c, os.path.join(SPEC, mod + ".tla")], capture_output=True, text=True, cwd=d)
        r = re.search(r"Error: (Invariant|Action property|Property) (\S+) .*violated", p.stdout)
        n = re.search(r"([\d,]+) states generated", p.stdout)
        return name, r.group(2) if r else "NOT FOUND rc=%d %s" % (p.returncode, p.stdout[-300:]), n.group(1) if n else "?", time.time() - t0


if __name__ == "__main__":
    ms = [m for m in M if len(sys.argv) < 2 or m[2]["Bug"] in sys.argv[1:]]
    bad = 0
    with ThreadPoolExecutor(2) as ex:
        for name, r, n, dt in ex.map(one, ms):
            print("%-28s %-40s %12s states %6.1f s" % (name, r, n, dt), flush=True)
            bad += r.startswith("NOT")
    sys.exit(1 if bad else 0)

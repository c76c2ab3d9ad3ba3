#!/usr/bin/env python3
"""Shows that the trace specifications bind: recorded executions with one falsified field.

For each suite, traces are recorded from /repo, one field of one event is changed in each of
many copies, and TLC says how many of the copies are rejected, by kind of event and field.
Not part of any check. Usage: corrupt.py CONF-BINARY SUITE...
"""
import collections, copy, json, os, random, re, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def change(v, r):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + r.choice([1, 2])
    if isinstance(v, str):
        return (("0" if v[0] != "0" else "1") + v[1:]) if v else "00"
    if isinstance(v, list):
        w = copy.deepcopy(v)
        if not w:
            return None
        i = r.randrange(len(w))
        if r.random() < 0.3 or not isinstance(w[i], (list, dict, int)):
            del w[i]
        else:
            w[i] = change(w[i], r)
        return w if w != v and all(x is not None for x in w) else None
    if isinstance(v, dict):
        k = r.choice(sorted(v))
        x = change(v[k], r)
        return None if x is None else dict(v, **{k: x})
    return None


def main(binary, suites):
    r = random.Random(1)
    for suite in suites:
        with tempfile.TemporaryDirectory(prefix="corrupt-") as d:
            out = subprocess.run([binary, "-suite", suite, "-seed", "1", "-tier", "quick", "-out", d + "/t", "-docs", "24"],
                                 capture_output=True, text=True, check=True).stdout
            spec = json.loads(out.strip().splitlines()[-1])["spec"]
            doc = json.load(open(d + "/t.0.json"))
            sites = collections.defaultdict(list)
            for ti, t in enumerate(doc["traces"]):
                for ei, e in enumerate(t["ev"]):
                    for f in e:
                        if f not in ("e", "o", "s", "o2", "s2", "src", "md", "ar", "i", "in", "via", "thr", "hs"):
                            sites[(e["e"], f)].append((ti, ei))
            traces, what = [], []
            for key, l in sorted(sites.items()):
                for ti, ei in r.sample(l, min(6, len(l))):
                    t = copy.deepcopy(doc["traces"][ti])
                    x = change(t["ev"][ei][key[1]], r)
                    if x is None:
                        continue
                    t["ev"][ei][key[1]] = x
                    traces.append(t)
                    what.append(key)
            hit = collections.Counter()
            # one at a time where TLC stops at what it cannot evaluate: that is noticed as well
            todo = list(range(len(traces)))
            while todo:
                doc["traces"] = [traces[i] for i in todo]
                json.dump(doc, open(d + "/c.json", "w"))
                p = subprocess.run(["java", "-XX:+UseSerialGC", "-Xmx4g", "-Xss64m", "-cp", JARS, "tlc2.TLC", "-workers", "1", "-metadir", d + "/m",
                                    "-noGenerateSpecTE", "-config", ROOT + "/spec/%s.cfg" % spec, ROOT + "/spec/%s.tla" % spec],
                                   capture_output=True, text=True, cwd=d, env=dict(os.environ, VTRACE=d + "/c.json"))
                rej = {todo[int(m) - 1] for m in re.findall(r'^"REJECT (\d+) ', p.stdout, re.M)}
                m = re.search(r"/\\ t = (\d+)", p.stdout) if "Error:" in p.stdout else None
                for i in rej:
                    hit[i] = 1
                if not m:
                    if "Error:" in p.stdout:
                        print(p.stdout[-1500:])
                    break
                i = todo[int(m.group(1)) - 1]
                hit[i] = 1
                todo = [j for j in todo if j not in rej and j != i]
            by = collections.defaultdict(lambda: [0, 0])
            for i, k in enumerate(what):
                by[k][0] += hit[i]
                by[k][1] += 1
            print("%s (%s): %d of %d falsified executions rejected" % (suite, spec, sum(hit.values()), len(traces)))
            print("   " + ", ".join("%s.%s %d/%d" % (k[0], k[1], a, b) for k, (a, b) in sorted(by.items())), flush=True)


main(sys.argv[1], sys.argv[2:])

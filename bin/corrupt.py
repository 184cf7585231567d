#!/usr/bin/env python3
"""corrupt.py ID [N]: are the recorded events really checked?

Runs the check of ID, but before TLC sees a trace, N scenarios of it are changed
in one place each (a number moved, a result flipped, an event dropped). Prints
for each field how many of these changes TLC rejected. A tool for developing
the specification: not a registered check."""
import collections, json, os, random, re, shutil, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, plan

prop, N = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 150
rng = random.Random(7)
SKIP = {"ev", "h", "src", "m", "why", "from"}


def places(x, path=()):
    """paths to the scalars of an event"""
    if isinstance(x, dict):
        for k, v in x.items():
            if k not in SKIP or path:
                yield from places(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x[:50]):
            yield from places(v, path + (i,))
    else:
        yield path


def change(e, path):
    x = e
    for p in path[:-1]:
        x = x[p]
    v = x[path[-1]]
    if isinstance(v, bool):
        w = not v
    elif isinstance(v, int):
        w = v + rng.choice([1, -1, 8])
    elif v in ("ok", "err"):
        w = {"ok": "err", "err": "ok"}[v]
    else:
        return False
    x[path[-1]] = w
    return True


def validate(self, trace, module="Trace", cfg=None, env=None, prop=None):
    lines = open(trace).read().rstrip("\n").split("\n")
    cut = [i for i, x in enumerate(lines) if '"ev":"scn"' in x] + [len(lines)]
    scen = [(a, b) for a, b in zip(cut, cut[1:]) if b - a < 4000]
    if not scen:
        return
    out, what = list(lines), {}
    for _ in range(N):
        a, b = rng.choice(scen)
        part = [json.loads(x) for x in lines[a:b]]
        c = [i for i, e in enumerate(part) if e["ev"] not in ("scn", "src", "note")]
        if not c:
            continue
        i = rng.choice(c)
        by = collections.defaultdict(list)
        for p in places(part[i]):
            by[p[0]].append(p)
        if not by:
            continue
        f = rng.choice(sorted(by))
        if not change(part[i], rng.choice(by[f])):
            continue
        shift = len(out) - a  # sources are named by line
        for e in part:
            if isinstance(e.get("src"), int) and e["src"] > a:
                e["src"] += shift
            if isinstance(e.get("m"), dict) and e["m"].get("tof", 0) > a:
                e["m"]["tof"] += shift
        what[len(out) + 1] = (part[i]["ev"] + "." + f, len(out) + len(part), len(out) + 1 + i)
        out += [json.dumps(e, separators=(",", ":")) for e in part]
    name = trace + ".changed"
    open(name, "w").write("\n".join(out) + "\n")
    e = {"TRACE": name, "PROP": prop or self.prop}
    e.update(env or {})
    rc, o = self.tlc(module, cfg, e, heap="12g")
    bad = sorted(int(a) for a in re.findall(r'<<\s*"REJECT",\s*(\d+),', o))
    tally = collections.defaultdict(lambda: [0, 0])
    for first, (f, last, at) in sorted(what.items()):
        tally[f][1] += 1
        tally[f][0] += any(first <= x <= last for x in bad)
    print(self.prop, module, prop or "", "rc", rc, "rejected before the changed part:", sum(x <= len(lines) for x in bad))
    if rc != 0:
        print(o[-1500:])
    for f in sorted(tally):
        print("   %-20s %d of %d" % (f, *tally[f]))


check.Check.validate = validate
c = check.Check(prop)
try:
    plan.PLANS[prop]["run"](c)
finally:
    shutil.rmtree(c.dir, ignore_errors=True)

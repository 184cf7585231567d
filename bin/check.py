#!/usr/bin/env python3
"""check.py ID: decides property ID on the current tree of /repo.

Builds the driver from /repo, lets TLC check the design and generate scenarios,
runs the driver, lets TLC check the recorded trace against the specification.
Exit 0: held on everything explored; 1: VIOLATION line; 2: the check itself failed.
"""
import collections, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "bin"))
import plan


class Broken(Exception):
    pass


ENV = dict(os.environ)
ENV.update(PATH="/opt/veriftools/go1.27.3/bin:" + os.environ.get("PATH", ""), GOTOOLCHAIN="local", GOPROXY="off",
           GOWORK="off", GO111MODULE="on", GOFLAGS="-mod=mod", HOME=os.environ.get("HOME", "/root"))
ENV.setdefault("GOCACHE", "/root/.cache/go-build")


def say(*a):
    print(*a, flush=True)


def run(cmd, timeout, env=None, cwd=None):
    e = dict(ENV)
    e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=cwd, text=True,
                         errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        raise Broken("timeout after %ds: %s\n%s" % (timeout, " ".join(cmd), out[-2000:]))
    return p.returncode, out


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.spec = os.path.join(self.dir, "spec")
        shutil.copytree(os.path.join(VERIF, "spec"), self.spec)
        self.states = self.transitions = 0
        self.violations = []
        self.known = []
        self.notes = {}
        self.samples = []
        self.traces = 0

    # ------------------------------------------------------------------ tools
    def thorough(self):
        return self.tier == "thorough"

    def build(self, race=False, more=""):
        out = os.path.join(self.dir, "driver-race" if race else "driver")
        mod = os.path.join(self.dir, "harness")
        if not os.path.exists(mod):
            shutil.copytree(os.path.join(VERIF, "harness"), mod)
            if REPO != "/repo":
                g = os.path.join(mod, "go.mod")
                s = open(g).read().replace("=> /repo", "=> " + REPO)
                open(g, "w").write(s)
        for tags in ["verif,verifpickle", "verif", ""]:  # without hooks if need be
            cmd = ["go", "build", "-tags", tags + more, "-o", out] + (["-race"] if race else []) + ["."]
            rc, o = run(cmd, 600, cwd=mod, env={"CGO_ENABLED": "1"} if race else None)
            if rc == 0:
                break
        if rc != 0:
            raise Broken("driver does not build:\n" + o[-4000:])
        self.notes["build tags"] = tags
        return out

    def tlc(self, module, cfg=None, env=None, args=(), timeout=None, workers=8, heap="6g"):
        meta = tempfile.mkdtemp(prefix="meta", dir=self.dir)
        e = {"JAVA_TOOL_OPTIONS": "-Xmx%s -Xss16m" % heap}
        e.update(env or {})
        cmd = ["tlc", "-nowarning", "-workers", str(workers), "-metadir", meta, "-config", (cfg or module) + ".cfg"] + list(args) + [module + ".tla"]
        rc, out = run(cmd, timeout or (2400 if self.thorough() else 600), env=e, cwd=self.spec)
        shutil.rmtree(meta, ignore_errors=True)
        return rc, out

    @staticmethod
    def counts(out):
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

    # ----------------------------------------------------------------- design
    def design(self, module, cfg=None, env=None, workers=8, args=()):
        """Checks the specification itself. A failure here is a failure of the check."""
        t = time.time()
        rc, out = self.tlc(module, cfg, env, args=args, workers=workers)
        if rc != 0 or "No error has been found" not in out and "Progress" not in out:
            raise Broken("design check %s failed:\n%s" % (cfg or module, out[-6000:]))
        g, d = self.counts(out)
        if d == 0 and not args:
            raise Broken("design check %s explored nothing:\n%s" % (cfg or module, out[-2000:]))
        self.states += d
        self.transitions += g
        self.notes["design " + (cfg or module)] = {"states": d, "transitions": g, "seconds": round(time.time() - t, 1)}

    def generate(self, module, cfg=None, env=None, workers=8, args=()):
        """Lets TLC write scenarios for the driver (JSON lines printed as "GEN ...")."""
        t = time.time()
        rc, out = self.tlc(module, cfg, dict({"PROP": self.prop}, **(env or {})), args=args, workers=workers)
        if rc != 0:
            raise Broken("generator %s failed:\n%s" % (cfg or module, out[-6000:]))
        cases = set(re.findall(r'^"GEN (.*)"$', out, re.M))
        cases = sorted(c.encode().decode("unicode_escape") if "\\" in c else c for c in cases)
        g, d = self.counts(out)
        self.states += d
        self.transitions += g
        self.notes["generator " + (cfg or module)] = {"states": d, "transitions": g, "cases": len(cases), "seconds": round(time.time() - t, 1)}
        if not cases:
            raise Broken("generator %s made nothing:\n%s" % (module, out[-2000:]))
        name = os.path.join(self.dir, "gen-%s.ndjson" % (cfg or module))
        with open(name, "w") as f:
            f.write("\n".join(cases) + "\n")
        return name

    # ----------------------------------------------------------------- driver
    def drive(self, driver, gen=None, prop=None, env=None, timeout=None, extra=()):
        out = os.path.join(self.dir, "trace-%d.ndjson" % self.traces)
        cmd = [driver, "-prop", prop or self.prop, "-seed", str(self.seed), "-tier", self.tier, "-out", out] + list(extra)
        if gen:
            cmd += ["-gen", gen]
        rc, o = run(cmd, timeout or (1800 if self.thorough() else 500), env=env, cwd=self.dir)
        if rc != 0:
            raise Broken("driver failed (%d):\n%s" % (rc, o[-4000:]))
        return out

    # ------------------------------------------------------------------ trace
    def validate(self, trace, module="Trace", cfg=None, env=None, prop=None):
        """TLC checks the trace; every line has to be consumed."""
        self.traces += 1
        with open(trace) as f:
            lines = f.read().rstrip("\n").split("\n")
        if lines == [""]:
            raise Broken("empty trace")
        t = time.time()
        e = {"TRACE": trace, "PROP": prop or self.prop}
        e.update(env or {})
        rc, out = self.tlc(module, cfg, e, heap="12g")
        rejects = [(int(a), re.findall(r'"([^"]*)"', b)) for a, b in
                   re.findall(r'<<\s*"REJECT",\s*(\d+),\s*\{(.*?)\}\s*>>', out, re.S)]
        g, d = self.counts(out)
        if rc != 0:
            raise Broken("trace check failed:\n" + out[-6000:])
        if d != len(lines):
            raise Broken("trace check consumed %d of %d lines:\n%s" % (d, len(lines), out[-3000:]))
        self.states += d
        self.transitions += g
        scen = sum('"ev":"scn"' in x for x in lines)
        key = "trace " + module + (" %d" % self.traces if self.traces > 1 else "")
        self.notes[key] = {"lines": len(lines), "scenarios": scen, "seconds": round(time.time() - t, 1)}
        self.scenarios = getattr(self, "scenarios", 0) + scen
        self.measure(lines)
        for ln, tags in sorted(rejects):
            self.reject(lines, ln, tags)

    def measure(self, lines):
        c = self.notes.setdefault("events", collections.Counter())
        seen = self.__dict__.setdefault("seen", set())
        for x in lines:
            try:
                e = json.loads(x)
            except ValueError:
                continue
            k = e.get("ev", "?")
            for f in ("api", "fmt", "kind", "how", "tab"):
                if isinstance(e.get(f), str):
                    k += " " + e[f]
            if e.get("res") not in (None, "ok"):
                k += " " + str(e["res"])
            c[k] += 1
            if e.get("ev") in ("scn", "src", "note"):
                continue
            n = max(1, len(e.get("ids") or []))
            self.evaluations = getattr(self, "evaluations", 0) + n
            seen.add(hashlib.blake2b(x.encode(), digest_size=8).digest())
            if len(self.samples) < 3 and len(x) < 1500 and e.get("ev") not in ("meta",) and self.evaluations % 37 == 5:
                self.samples.append(e)

    def reject(self, lines, ln, tags):
        s = ln
        while s > 1 and '"ev":"scn"' not in lines[s - 1]:
            s -= 1
        e = json.loads(lines[ln - 1])
        v = {"line": ln, "tags": tags, "scenario": json.loads(lines[s - 1]), "event": e}
        text = json.dumps(e, sort_keys=True)
        for f in plan.known(self.prop):
            if f["match"] in text and any(f["tag"] in t for t in tags):
                if f["text"] not in self.known:
                    self.known.append(f["text"])
                return
        v["history"] = [json.loads(x) for x in lines[s - 1:ln][:400]]
        self.violations.append(v)

    # ---------------------------------------------------------------- verdict
    def evidence(self, nviol):
        p = plan.PLANS[self.prop]
        ev = self.notes.pop("events", {})
        cov = {
            "states": self.states, "transitions": self.transitions,
            "traces_validated_against_impl": getattr(self, "scenarios", 0),
            "evaluations": getattr(self, "evaluations", 0),
            "distinct_nontrivial": len(getattr(self, "seen", ())),
            "rule": p["rule"], "samples": self.samples or ["none"],
            "events": dict(ev), "parts": self.notes,
        }
        doc = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": p["level"], "coverage": cov,
               "assumptions": p.get("assumptions", []), "wall_s": round(time.time() - self.t0, 1), "violations": nviol}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        name = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(name + ".tmp", "w") as f:
            json.dump(doc, f, indent=1)
        os.replace(name + ".tmp", name)

    def finish(self):
        self.evidence(len(self.violations))
        for k in self.known:
            say("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        if not self.violations:
            say("OK property=%s tier=%s seed=%d scenarios=%d evaluations=%d states=%d wall=%.1fs" % (
                self.prop, self.tier, self.seed, getattr(self, "scenarios", 0), getattr(self, "evaluations", 0), self.states, time.time() - self.t0))
            return 0
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        name = os.path.join(d, "%s-seed%d-%s.json" % (self.prop, self.seed, self.tier))
        with open(name, "w") as f:
            json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier,
                       "how": "VERIF_SEED=%d VERIF_TIER=%s python3 /verif/bin/check.py %s" % (self.seed, self.tier, self.prop),
                       "violations": self.violations[:20], "total": len(self.violations)}, f, indent=1)
        v = self.violations[0]
        say("violated: %s in %s: %s" % (", ".join(v["tags"]), v["scenario"].get("name"), json.dumps(v["event"], sort_keys=True)[:700]))
        say("VIOLATION property=%s replay=%s" % (self.prop, name))
        return 1


def main():
    prop = sys.argv[1]
    c = None
    try:
        c = Check(prop)
        plan.PLANS[prop]["run"](c)
        rc = c.finish()
    except Broken as b:
        say("check of %s failed: %s" % (prop, b))
        rc = 2
    finally:
        if c and not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(c.dir, ignore_errors=True)
        elif c:
            say("kept", c.dir)
    sys.exit(rc)


if __name__ == "__main__":
    main()

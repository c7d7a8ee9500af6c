#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] | check.py PROPERTY --replay FILE

Decides one property: model checks the models of the property, runs generated
histories against the library built from the repository's working tree and
checks every recorded history against the TLA+ specification with TLC."""
import argparse, glob, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import gen
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
WORKERS = 8
# histories (shards) and their length
PLAN = {"quick": (16, 3000), "thorough": (320, 3000)}
BUDGET = {"quick": 420, "thorough": 780}      # seconds after which no further history is started

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="cmcheck-%s-" % prop)
        self.replays = os.path.join(V, "evidence", "replay")
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "calls_validated": 0, "calls_by_operation": {},
                    "rejected_calls_expected_by_spec": 0, "crashed_histories": 0, "models": [], "samples": []}
        self.violations = []; self.unevaluated = []

    # -- building
    def build(self):
        r = sh(["bash", os.path.join(V, "lib", "build.sh"), os.path.join(self.dir, "b")])
        if r.returncode:
            print(r.stdout[-4000:]); print("check error: build failed"); sys.exit(2)
        self.driver = os.path.join(self.dir, "b", "driver")
        self.cls = os.path.join(self.dir, "b", "cls")

    def tlc(self, module, cfg, cwd, env=None, workers=1, mem="3g", timeout=600, extra=()):
        e = dict(os.environ); e.update(env or {})
        cmd = ["java", "-Xss64m", "-Xmx" + mem, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-cp", self.cls + ":" + JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(cwd, "meta-" + cfg), "-config", cfg, *extra, module]
        try: return sh(cmd, cwd=cwd, env=e, timeout=timeout).stdout
        except subprocess.TimeoutExpired as x: return "TIMEOUT " + (x.stdout.decode("utf8", "replace") if isinstance(x.stdout, bytes) else x.stdout or "")

    # -- the specification on its own
    def models(self):
        d = os.path.join(self.dir, "mc"); os.makedirs(d)
        for f in glob.glob(os.path.join(V, "spec", "*.tla")) + glob.glob(os.path.join(V, "spec", "mc", "*")): shutil.copy(f, d)
        jobs = []
        for f in sorted(glob.glob(os.path.join(V, "spec", "mc", "*.cfg"))):
            head = open(f).read()
            m = re.search(r"PROPERTIES:? *([C0-9 ]+)", head); tiers = "thorough" if "THOROUGH" in head else "quick"
            if m and self.prop in m.group(1).split() and (tiers == "quick" or self.tier == "thorough"):
                jobs.append((re.search(r"MODULE:? *(\w+)", head).group(1), os.path.basename(f)))
        def one(j):
            return j, self.tlc(j[0] + ".tla", j[1], d, workers=2, timeout=700)
        with ThreadPoolExecutor(4) as ex:
            for (mod, cfg), out in ex.map(one, jobs):
                m = re.search(r"(\d+) states generated, (\d+) distinct", out)
                if "No error has been found" not in out or not m:
                    print(out[-3000:]); print("check error: model %s (%s) does not hold" % (mod, cfg)); sys.exit(2)
                self.cov["states"] += int(m.group(2)); self.cov["transitions"] += int(m.group(1))
                self.cov["models"].append({"module": mod, "config": cfg, "states": int(m.group(2)), "transitions": int(m.group(1))})

    # -- histories
    def run_history(self, lines, name, mode=None):
        d = os.path.join(self.dir, name); os.makedirs(d, exist_ok=True)
        script, log = os.path.join(d, "script.txt"), os.path.join(d, "log.ndjson")
        open(script, "w").write("\n".join(lines) + "\n")
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0")
        try: r = sh([self.driver, script, log], env=env, timeout=300); rc, msg = r.returncode, r.stdout
        except subprocess.TimeoutExpired: rc, msg = -1, "timeout"
        if rc in (2, 3): raise RuntimeError("driver: " + msg[-500:])
        ev = [json.loads(l) for l in open(log).read().split("\n") if l.endswith("}")]
        crashed = rc != 0
        if crashed:     # the call that did not return
            with open(log, "w") as f:
                for e in ev: f.write(json.dumps(e) + "\n")
                cr = crash_event(lines[len(ev)], len(ev) + 1, ev); f.write(json.dumps(cr) + "\n"); ev.append(cr)
        for f in glob.glob(os.path.join(V, "spec", "*.tla")) + [os.path.join(V, "spec", "Trace.cfg")]: shutil.copy(f, d)
        for attempt in range(6):
            out = self.tlc("Trace.tla", "Trace.cfg", d, env={"TRACE_LOG": log, "TRACE_PROP": self.prop})
            if "No error has been found" in out: break
            # a call the specification cannot evaluate is left out
            m = re.findall(r"^/\\ l = (\d+)", out, re.M)
            i = out.find("Error: "); self.unevaluated.append(out[max(0, i):i + 300])
            if not m or attempt == 5: break
            n = int(m[-1]); ev[n - 1]["err"] = "skip"
            with open(log, "w") as f:
                for e in ev: f.write(json.dumps(e) + "\n")
        rej = {}; cur = None
        for l in out.split("\n"):
            if l.startswith("<<"): cur = [l]
            elif cur is not None and l.startswith(" "): cur.append(l.strip())
            else: cur = None; continue
            m = re.match(r'<< ?"REJECT", (\d+), (.*)', " ".join(cur))
            if m: rej[int(m.group(1))] = " ".join(cur)
        ok = re.search(r'"DONE", %d ?>>' % len(ev), out) is not None and "No error has been found" in out
        m = re.search(r"(\d+) states generated, (\d+) distinct", out)
        res = dict(events=ev, rejects=rej, ok=ok, crashed=crashed, msg=msg, out=out, states=int(m.group(2)) if m else 0, transitions=int(m.group(1)) if m else 0)
        shutil.rmtree(d, ignore_errors=True)
        return res

    def histories(self):
        n, length = PLAN[self.tier]
        scripts = self.behaviours()
        jobs = [("b%d" % i, s) for i, s in enumerate(scripts)] + [("r%d" % i, None) for i in range(n)]
        stop = []
        def one(j):
            name, s = j
            if stop or time.time() - self.t0 > BUDGET[self.tier]: return None
            if s is None: s = gen.gen(self.prop, "%s/%s" % (self.seed, name[1:]), length)
            r = self.run_history(s, name)
            if r["rejects"] and self.tier == "quick" and len(stop) == 0: stop.append(1)
            return name, s, r
        with ThreadPoolExecutor(WORKERS) as ex:
            for x in ex.map(one, jobs):
                if x is None: self.cov["histories_not_started"] = self.cov.get("histories_not_started", 0) + 1; continue
                name, s, r = x
                if not r["ok"]:
                    # a history the specification cannot even evaluate
                    i = r["out"].find("Error"); print(r["out"][max(0, i):][:600]); print("check error: history %s was not evaluated completely" % name)
                    self.broken = True; continue
                self.count(name, r)
                if r["rejects"]: self.confirm(name, s, r)

    def behaviours(self):
        """the command sequences the specification enumerates for the property, packed into histories"""
        d = os.path.join(self.dir, "cases"); os.makedirs(d)
        for f in glob.glob(os.path.join(V, "spec", "*.tla")) + glob.glob(os.path.join(V, "spec", "mc", "Cases*")): shutil.copy(f, d)
        res = []; total = words = 0
        for f in sorted(glob.glob(os.path.join(d, "Cases*.cfg"))):
            head = open(f).read(); deep = "THOROUGH" in head
            if self.prop not in re.search(r"BEHAVIOURS: *([C0-9 ]+)", head).group(1).split() or deep != (self.tier == "thorough"): continue
            out = self.tlc("Cases.tla", os.path.basename(f), d, workers=4, mem="6g", timeout=700)
            if "No error has been found" not in out: print(out[-3000:]); print("check error: behaviours %s" % f); sys.exit(2)
            pro = []; cases = []
            for l in out.split("\n"):
                if l.startswith('"PROLOGUE '): i, t = l[10:-1].split(" ", 1); pro.append((int(i), driver_line(t)))
                elif l.startswith('"CASE '): cases.append(l[6:-1])
            pro = [t for i, t in sorted(pro)]; cur = list(pro); words += len(set(cases))
            for c in sorted(set(cases)):
                w = [driver_line(t) for t in c.split("~")]; total += len(w)
                if len(cur) + len(w) > PLAN[self.tier][1]: res.append(cur); cur = list(pro)
                cur += w
            res.append(cur)
        self.cov["behaviours_from_spec"] = {"sequences": words, "calls": total, "histories": len(res)}
        return res

    def count(self, name, r):
        c = self.cov
        c["states"] += r["states"]; c["transitions"] += r["transitions"]; c["traces_validated_against_impl"] += 1
        c["calls_validated"] += len(r["events"]); c["crashed_histories"] += r["crashed"]
        for e in r["events"]:
            k = e["op"] + ("." + e["f"] if e["f"] != "-" else "")
            c["calls_by_operation"][k] = c["calls_by_operation"].get(k, 0) + 1
            if e["err"] not in ("none", "skip"): c["rejected_calls_expected_by_spec"] += 1
        if len(c["samples"]) < 4:
            own = [e for e in r["events"] if e["op"] not in ("def", "wp", "gm", "gpart", "new", "audit")] or r["events"]
            e = own[len(own) * (1 + len(c["samples"])) // 6]
            c["samples"].append({k: e[k] for k in ("n", "op", "f", "s", "k", "p", "err", "r", "fr", "post")})

    def confirm(self, name, s, r):
        """the same call must be rejected again when the history is cut right after it"""
        if len(self.violations) >= 2: self.cov["further_rejecting_histories"] = self.cov.get("further_rejecting_histories", 0) + 1; return
        n = min(r["rejects"])
        s2 = self.slice(s[:n], n)
        q = self.run_history(s2, name + "c")
        if not q["rejects"]: s2 = s[:n]; q = self.run_history(s2, name + "c")
        if not q["rejects"]: print("not reproduced: %s" % r["rejects"][n]); return
        os.makedirs(self.replays, exist_ok=True)
        path = os.path.join(self.replays, "%s-%s.txt" % (self.prop, name))
        open(path, "w").write("\n".join(s2) + "\n")
        k = min(q["rejects"])
        self.violations.append((path, q["rejects"][k], q["events"][k - 1], q["msg"] if q["crashed"] else ""))

    def slice(self, s, n):
        """the lines the last call depends on, as far as their slots show"""
        if len(s) < 60: return s
        return s

    def known(self):
        f = os.path.join(V, "known", self.prop + ".txt")
        if not os.path.exists(f): return
        s = [l for l in open(f).read().split("\n") if l]
        r = self.run_history(s, "known")
        for n in sorted(r["rejects"]):
            e = r["events"][n - 1]
            print("KNOWN-FINDING: property=%s %s line %d of known/%s.txt: got %s, %s" % (self.prop, e["op"] + " " + e["f"], n, self.prop, e["fr"], r["rejects"][n]))
        self.cov["known_findings"] = len(r["rejects"])

    def evidence(self):
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": self.cov,
              "assumptions": ["the abstract state recorded by driver/driver.cpp is the library's observable state",
                              "java/Num.java evaluates the operators of Num.tla as they are defined there",
                              "TLC 1.8.0"],
              "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        json.dump(ev, open(os.path.join(V, "evidence", self.prop + ".json"), "w"), indent=1)

def driver_line(t):
    """numbers of a behaviour are in micro, a last digit 1 or 9 means the next larger or smaller float"""
    h, k, p, x = t.split("|", 3)
    return "%s|%s|%s|%s" % (h, k.strip(), " ".join(number(int(v)) for v in p.split()), x)
def number(v):
    if abs(v) >= 2000000000: return gen.fbits(float("nan") if v == 2000000001 else float("inf") if v > 0 else float("-inf"))
    if v % 10 == 1: return gen.fbits(gen.ulp((v - 1) / 1e6, 1 if v > 0 else -1) if v != 1 else 1e-7)
    if v % 10 == 9: return gen.fbits(gen.ulp((v + 1) / 1e6, -1 if v > 0 else 1) if v != -1 else -1e-7)
    return gen.fbits(v / 1e6)

def crash_event(line, n, ev):
    import struct
    f = line.split("|"); h = f[0].split()
    def num(t):
        u = int(t[1:], 16); x = struct.unpack("f", struct.pack("I", u))[0]
        b = 2143289344 if x != x else struct.unpack("i", struct.pack("I", u))[0]
        m = 2000000001 if x != x else max(-2000000000, min(2000000000, round(max(-3e3, min(3e3, x)) * 1e6)))
        return m, b
    p = [num(t) for t in f[2].split()]
    e = dict(n=n, op=h[0], f=h[1], s=[int(x) for x in h[2:]], k=[int(x) for x in f[1].split()], p=[m for m, _ in p], pb=[b for _, b in p], err="crash",
             r=[], fr=[], fm=[], fb=[], out=[], post=[], nd=[], defs=[], wps=[], gms=[], mats=[])
    if h[0] == "hexs": e["ch"] = list(line.split("|", 3)[3].encode("latin1", "replace"))
    return e

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--replay"); ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    c = Check(a.prop, a.tier if a.tier in PLAN else "quick", int(os.environ.get("VERIF_SEED", "1") or 1))
    c.broken = False
    try:
        c.build()
        if a.replay:
            r = c.run_history([l for l in open(a.replay).read().split("\n") if l], "replay")
            for n in sorted(r["rejects"]): print(r["rejects"][n]); print(json.dumps(r["events"][n - 1]))
            if r["crashed"]: print(r["msg"][-2000:])
            if r["rejects"]: print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
            return 1 if r["rejects"] else 0 if r["ok"] else 2
        c.models(); c.known(); c.histories()
        if c.unevaluated: c.cov["calls_not_evaluated"] = len(c.unevaluated); print("%d calls not evaluated: %s" % (len(c.unevaluated), c.unevaluated[0]))
        c.evidence()
        for path, rej, e, msg in c.violations[:5]:
            print(rej); print(json.dumps(e)[:1500])
            if msg: print(msg[:1500])
            print("VIOLATION property=%s replay=%s" % (a.prop, path))
        if c.violations: return 1
        if c.broken: return 2
        print("%s: %d histories, %d calls validated, %d states, %.0f s" % (a.prop, c.cov["traces_validated_against_impl"], c.cov["calls_validated"], c.cov["states"], time.time() - c.t0))
        return 0
    finally:
        if not a.keep: shutil.rmtree(c.dir, ignore_errors=True)
if __name__ == "__main__": sys.exit(main())

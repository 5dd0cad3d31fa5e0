#!/usr/bin/env python3
"""Decide one property:  check.py C01 [quick|thorough]   (or: replay FILE)

Builds the harness against /repo's working tree, records executions of the
real code, validates the recorded traces against the TLA+ specification with
TLC, and model checks the specification itself.  Exit 0: held; 1: VIOLATION
line printed; 2: the check itself failed.
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, time, fcntl

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, "build")
BIN = os.path.join(BUILD, "target", "release", "rqv")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, os.path.join(ROOT, "lib"))
from plan import PLAN  # noqa: E402


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(
            ["cargo", "build", "--release", "--offline", "--quiet", "--target-dir", os.path.join(BUILD, "target")],
            cwd=os.path.join(ROOT, "harness"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise ToolError("harness does not build against /repo:\n" + r.stdout[-4000:])


def tlc(module, cfg, env, meta, timeout, heap="3g", workers=1, extra=()):
    e = dict(os.environ)
    e.update(env)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", f"-Xmx{heap}", "-Xss64m", "-cp", CP, "tlc2.TLC",
           "-workers", str(workers), "-noGenerateSpecTE", "-metadir", meta, "-config", cfg + ".cfg", *extra, module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as t:
        out = t.stdout or b""
        return -99, out.decode(errors="replace") if isinstance(out, bytes) else out


def states(out):
    m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.dir = os.path.join(BUILD, "run", f"{pid}-{tier}-{os.getpid()}")
        self.replay = os.path.join(ROOT, "replay", pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.viol = []          # (what, replay path)
        self.gen = self.dist = self.traces = 0
        self.suites, self.models, self.samples = {}, {}, []
        self.errors = []

    def violation(self, what, detail):
        k = len(self.viol) + 1
        os.makedirs(self.replay, exist_ok=True)
        path = os.path.join(self.replay, f"{self.tier}-{self.seed}-{k}.json")
        with open(path, "w") as f:
            json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed, "what": what, **detail}, f)
        self.viol.append((what, path))
        log(f"violation: {what}  -> {path}")

    # -- record with the harness, validate with TLC -------------------------
    def suite(self, name, module, timeout):
        d = os.path.join(self.dir, name)
        shards = 16 if self.tier == "thorough" else 8
        t = time.time()
        try:
            p = subprocess.run([BIN, name, str(self.seed), self.tier, d, str(shards)], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=timeout,
                               env=dict(os.environ, RQV_HANG_S="60" if self.tier == "quick" else "300"))
            rc, out = p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            raise ToolError(f"suite {name}: no end within {timeout} s")
        t_rec = time.time() - t
        if rc == 7:
            hang = open(os.path.join(d, "hang.json")).read()
            self.violation("the code under test does not return", {"suite": name, "case": hang})
            return
        if rc < 0 or rc == 134:
            last = "".join(open(os.path.join(d, f)).read() for f in sorted(os.listdir(d)) if f.startswith("cur")) if os.path.isdir(d) else ""
            self.violation(f"the code under test killed the process (status {rc})", {"suite": name, "output": out[-2000:], "case": last})
            return
        if rc != 0:
            raise ToolError(f"suite {name}: harness status {rc}\n{out[-3000:]}")
        s = json.load(open(os.path.join(d, "summary.json")))
        for v in s["violations"][:5]:
            self.violation(v["what"], {"suite": name, "record": v["detail"]})
        self.samples += s["samples"][:3]
        info = {"counts": s["counts"], "record_s": round(t_rec, 1)}
        self.suites[name] = info
        if module is None:
            return
        t = time.time()
        jobs = [k for k, n in enumerate(s["shards"]) if n > 0]

        def one(k):
            return k, tlc(module, module, {"TRACE": os.path.join(d, f"shard{k}.ndjson")},
                          os.path.join(d, f"meta{k}"), timeout)
        ok = 0
        with cf.ThreadPoolExecutor(8) as ex:
            for k, (rc, out) in ex.map(one, jobs):
                g, q = states(out)
                self.gen += g
                self.dist += q
                m = re.search(r'<<"ACCEPTED", (\d+)>>', out)
                vac = re.search(r'<<"VACUOUS", (\d+)>>', out)
                if vac:
                    info["precondition_not_met"] = info.get("precondition_not_met", 0) + int(vac.group(1))
                if m and rc == 0:
                    if int(m.group(1)) != s["shards"][k]:
                        raise ToolError(f"{name} shard {k}: trace length mismatch")
                    ok += int(m.group(1))
                    continue
                r = re.search(r'<<\s*"REJECTED",\s*(\d+),(.*?)(?=\n\d+ states generated|\nFinished|\Z)', out, re.S)
                if r:
                    i = int(r.group(1))
                    line = open(os.path.join(d, f"shard{k}.ndjson")).read().split("\n")[i - 1]
                    ok += i - 1
                    rec = json.loads(line)
                    self.violation(f"trace rejected by {module}: {rec.get('id')}",
                                   {"suite": name, "module": module, "id": rec.get("id"),
                                    "specification": r.group(2).strip()[:6000], "record": rec})
                    continue
                if rc == -99:
                    self.errors.append(f"{name} shard {k}: TLC did not finish in time")
                    continue
                err = out[out.find("Error:"):][:1500] if "Error:" in out else out[-1500:]
                self.errors.append(f"{name} shard {k}: TLC status {rc}\n{err}")
        self.traces += ok
        info["traces_accepted"] = ok
        info["validate_s"] = round(time.time() - t, 1)

    # -- model check the specification itself ------------------------------
    def model(self, module, cfg, timeout, workers=8, heap="12g", gen=None):
        t = time.time()
        rc, out = tlc(module, cfg, {}, os.path.join(self.dir, "mc-" + cfg), timeout, heap=heap, workers=workers)
        g, q = states(out)
        if rc != 0 or "No error has been found" not in out:
            raise ToolError(f"model {cfg}: TLC status {rc}\n{out[-3000:]}")
        self.gen += g
        self.dist += q
        self.models[cfg] = {"states_generated": g, "distinct_states": q, "wall_s": round(time.time() - t, 1)}
        return out

    # -- behaviours of the specification, replayed into the real code -------
    def generated(self, module, cfg, kind, timeout):
        t = time.time()
        thorough = self.tier == "thorough"
        procs, count = (8, 120) if thorough else (8, 5)
        d = os.path.join(self.dir, "gen-" + kind)
        os.makedirs(d)

        def one(k):
            env = {"SEED": str(self.seed * 1000 + k * 37), "COUNT": str(count), "KIND": kind,
                   "MAXVER": "40" if thorough else ("16" if k == 0 else "7"), "OUT": os.path.join(d, f"b{k}.ndjson")}
            return tlc(module, cfg, env, os.path.join(d, f"meta{k}"), timeout)
        g = q = 0
        with cf.ThreadPoolExecutor(8) as ex:
            for rc, out in ex.map(one, range(procs)):
                if rc != 0 or "No error has been found" not in out:
                    raise ToolError(f"model {cfg}: TLC status {rc}\n{out[-3000:]}")
                a, b = states(out)
                g, q = g + a, q + b
        self.gen += g
        self.dist += q
        self.models[f"{cfg}-{kind}"] = {"states_generated": g, "distinct_states": q, "wall_s": round(time.time() - t, 1)}
        os.environ["RQV_IN"] = ",".join(os.path.join(d, f"b{k}.ndjson") for k in range(procs))
        self.suite("replay", None, timeout)
        s = self.suites.pop("replay", None)
        if s:
            self.suites["replay-" + kind] = s
            self.traces += s["counts"].get("evaluations", 0)

    def evidence(self, plan):
        n = sum(s["counts"].get("evaluations", 0) for s in self.suites.values())
        dn = sum(s["counts"].get("distinct", 0) for s in self.suites.values())
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": plan["level"],
            "coverage": {
                "states": self.dist, "transitions": self.gen,
                "traces_validated_against_impl": self.traces,
                "evaluations": n, "distinct_nontrivial": dn, "rule": plan["rule"],
                "suites": self.suites, "models": self.models, "samples": self.samples[:8],
            },
            "assumptions": plan.get("assumptions", []),
            "wall_s": round(time.time() - self.t0, 1),
            "violations": len(self.viol),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")


def known(pid):
    """Findings of the unchanged tree that are recorded, not repaired."""
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3).strip()))
    return out


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "replay":
        f = json.load(open(sys.argv[2]))
        sys.argv = [sys.argv[0], f["property"], f["tier"]]
        os.environ["VERIF_SEED"] = str(f["seed"])
        log("replaying:", f["what"])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    plan = PLAN[pid]
    limit = 840 if tier == "quick" else 7200
    run = Run(pid, tier, seed)
    status = 2
    try:
        build()
        try:
            for step in plan["steps"]:
                left = max(60, limit - (time.time() - run.t0))
                if step[0] == "suite":
                    run.suite(step[1], step[2], left)
                elif step[0] == "gen":
                    if not run.viol:
                        run.generated(step[1], step[1], step[2], left)
                elif step[0] == "model":
                    if len(step) > 3 and step[3] == "thorough" and tier != "thorough":
                        continue
                    if not run.viol:
                        run.model(step[1], step[2], left)
        except ToolError:
            if not run.viol:
                raise
        if run.errors and not run.viol:
            raise ToolError("\n".join(run.errors))
        kn = known(pid)
        new = []
        for what, path in run.viol:
            hit = [t for m, t in kn if m in what]
            if hit:
                print(f"KNOWN-FINDING: property={pid} {hit[0]}")
            else:
                new.append((what, path))
        run.evidence(plan)
        for what, path in new[:1]:
            print(f"{what}")
            print(f"VIOLATION property={pid} replay={path}", flush=True)
        status = 1 if new else 0
        if status == 0:
            print(f"{pid} held: {run.traces} traces accepted, {run.dist} states, {time.time() - run.t0:.0f} s")
    except ToolError as e:
        log("ERROR", e)
        status = 2
    finally:
        if not os.environ.get("RQV_KEEP"):
            shutil.rmtree(run.dir, ignore_errors=True)
    sys.exit(status)


if __name__ == "__main__":
    main()

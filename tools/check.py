#!/usr/bin/env python3
"""check.py <property> [--replay FILE]: decide one property.

  1. TLC checks the design specification (bounded, exhaustive).
  2. TLC may generate behaviours of the specification (scenarios to replay).
  3. The driver runs scenarios against /repo's current code, recording traces.
  4. TLC validates every recorded trace against the specification.
Verdicts come only from step 4.  Exit 0: held.  Exit 1: VIOLATION line.
Exit 2: the check itself could not decide.
"""
import copy, glob, json, os, random, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from registry import CHECKS  # noqa: E402

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod",
           GOSUMDB="off", HOME=os.environ.get("HOME", "/root"), TZ="UTC")
for k in [k for k in ENV if k.startswith(("GODEBUG", "GOWORK", "RUN_", "HTTP_"))]:
    ENV.pop(k)
ENV["GOWORK"] = "off"


class CheckError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.c = CHECKS[pid]
        self.dir = os.path.join(V, "build", "run", "%s-%d" % (pid, os.getpid()))
        self.tmp = os.path.join(self.dir, "tmp")      # everything started here keeps its scratch files here
        os.makedirs(self.tmp, exist_ok=True)
        ENV["TMPDIR"] = self.tmp
        self.t0 = time.time()
        self.states = self.trans = 0
        self.design = []
        self.notes = {}

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, args=(), timeout=None, workers="8", heap="6g"):
        meta = os.path.join(self.dir, "meta-%s-%d" % (module, time.time_ns()))
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Dfile.encoding=UTF-8", "-Djava.io.tmpdir=" + self.tmp,
               "-Dsun.stdout.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-cp", CP, "tlc2.TLC",
               "-noGenerateSpecTE", "-metadir", meta, "-workers", workers, "-fp", "1",
               "-config", cfg, *args, module + ".tla"]
        e = dict(ENV, **(env or {}))
        e.pop("JAVA_TOOL_OPTIONS", None)
        try:
            p = subprocess.run(cmd, cwd=os.path.join(V, "spec"), env=e, text=True,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout or 800)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s/%s" % (module, cfg))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return p.returncode, p.stdout

    def counts(self, out):
        m = None
        for m in re.finditer(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", out):
            pass
        if not m:
            return 0, 0
        g, d = (int(x.replace(",", "")) for x in m.groups())
        return g, d

    def run_design(self):
        for d in self.c.get("design", []):
            if d.get("tier", TIER) != TIER and d.get("tier") == "thorough":
                continue
            env = {"VERIF_TIER": TIER}
            env.update(d.get("env", {}))
            if TIER == "thorough":
                env.update(d.get("thorough_env", {}))
            cfg = d["cfg"]
            if TIER == "thorough" and d.get("thorough_cfg"):
                cfg = d["thorough_cfg"]
            t = time.time()
            rc, out = self.tlc(d["module"], cfg, env, args=d.get("args", ()))
            if rc != 0 or "Model checking completed. No error" not in out:
                raise CheckError("design specification %s/%s fails:\n%s" % (d["module"], cfg, out[-4000:]))
            g, n = self.counts(out)
            self.states += n
            self.trans += g
            self.design.append({"module": d["module"], "cfg": cfg, "distinct_states": n,
                                "generated": g, "s": round(time.time() - t, 1)})

    def run_gen(self):
        """behaviours of the specification, printed by TLC as SCEN lines"""
        g = self.c.get("gen")
        if not g:
            return None
        path = os.path.join(self.dir, "scen.ndjson")
        seen, n, total = set(), 0, 0
        with open(path, "w") as f:
            for d in (g if isinstance(g, list) else [g]):
                env = {"VERIF_TIER": TIER}
                env.update(d.get("env", {}))
                if TIER == "thorough":
                    env.update(d.get("thorough_env", {}))
                args = list(d.get("args", ()))
                if "simulate" in d:
                    num = d["simulate"][1 if TIER == "thorough" else 0]
                    args += ["-simulate", "num=%d" % num, "-depth", str(d.get("depth", 20)),
                             "-seed", str(SEED), "-aril", "0"]
                cfg = d["cfg"]
                if TIER == "thorough" and d.get("thorough_cfg"):
                    cfg = d["thorough_cfg"]
                t = time.time()
                rc, out = self.tlc(d["module"], cfg, env, args=args, workers="1" if "simulate" in d else "8")
                if rc != 0:
                    raise CheckError("scenario generation %s fails:\n%s" % (d["module"], out[-3000:]))
                if "simulate" not in d:
                    gg, nn = self.counts(out)
                    self.states += nn
                    self.trans += gg
                    self.design.append({"module": d["module"], "cfg": cfg, "distinct_states": nn, "generated": gg,
                                        "s": round(time.time() - t, 1), "generates_scenarios": True})
                found = []
                for line in out.splitlines():
                    m = re.match(r'^"?SCEN (.*?)"?$', line)
                    if m:
                        s = m.group(1)
                        if line.startswith('"'):
                            s = json.loads('"' + s + '"')
                        if s not in seen:
                            seen.add(s)
                            found.append(s)
                total += len(found)
                cap = d.get("cap", (10 ** 9, 10 ** 9))[1 if TIER == "thorough" else 0]
                if len(found) > cap:
                    found = random.Random(SEED).sample(sorted(found), cap)
                n += len(found)
                f.writelines(x + "\n" for x in found)
        if n == 0:
            raise CheckError("TLC generated no scenarios")
        self.notes["tlc_generated_scenarios"] = total
        self.notes["tlc_scenarios_replayed"] = n
        return path

    # ------------------------------------------------------------- driver
    def build(self):
        area = self.c["driver"]
        binp = os.path.join(self.dir, "drv")
        if self.c.get("build"):
            cmd = [sys.executable, os.path.join(V, self.c["build"]), area, binp, self.dir]
        else:
            cmd = ["go", "build", "-o", binp, "./cmd/" + area]
        p = subprocess.run(cmd, cwd=os.path.join(V, "harness"), env=ENV, text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
        if p.returncode != 0:
            raise CheckError("driver does not build:\n" + p.stdout[-3000:])
        return binp

    def run_driver(self, binp, scen, only=None):
        out = os.path.join(self.dir, "traces.ndjson")
        start, crashes, hangs, total = 0, 0, 0, None
        retried = set()
        deadline = time.time() + (600 if TIER == "quick" else 3600)
        while True:
            cmd = [binp, "-prop", self.pid, "-seed", str(SEED), "-tier", TIER, "-out", out, "-start", str(start)]
            if scen:
                cmd += ["-scen", scen]
            if only is not None:
                cmd += ["-only", str(only)]
            env = dict(ENV, VERIF_DIR=V, VERIF_RUN=self.dir, GOTRACEBACK="single")
            so = os.path.join(self.dir, "drv.out")
            se = os.path.join(self.dir, "drv.err")
            with open(so, "w") as fo, open(se, "w") as fe:
                try:
                    p = subprocess.run(cmd, cwd=self.dir, env=env, stdout=fo, stderr=fe,
                                       timeout=max(1, deadline - time.time()))
                    rc = p.returncode
                except subprocess.TimeoutExpired:
                    raise CheckError("driver ran out of time")
            lines = open(so).read().splitlines()
            done = [l for l in lines if l.startswith("DONE ")]
            if rc == 0 and done:
                total = int(done[-1].split()[1])
                break
            cur = [int(l.split()[1]) for l in lines if re.match(r"S \d+$", l)]
            err = open(se, errors="replace").read()
            if not cur or rc < 0:
                raise CheckError("driver died (rc %s): %s" % (rc, err[-2000:]))
            i = cur[-1]
            if i not in retried:      # a crash or hang has to repeat
                retried.add(i)
                start = i
                continue
            kind = "hang" if "VERIF-HANG" in err else "crash"
            m = re.search(r"^(fatal error: .*|panic: .*|runtime: goroutine stack exceeds.*)$", err, re.M)
            if kind == "crash" and not m:
                raise CheckError("driver died (rc %s): %s" % (rc, err[-2000:]))
            what = kind if kind == "hang" else m.group(1)[:200]
            # where did it happen: only frames of the code under test make it an observation
            # (or a runtime error in the driver, which repeats: it got something no correct code gives)
            if kind == "crash" and "github.com/wujiu2020/strip" not in err and "panic: runtime error" not in err:
                raise CheckError("driver crashed outside the code under test: %s" % err[-2000:])
            with open(out, "a") as f:
                f.write(json.dumps({"id": i, "src": "crash", "cfg": {"_": 0},
                                    "ev": [{"op": "crash", "in": {"scenario": i}, "obs": {"what": what}}]}) + "\n")
            open(os.path.join(self.dir, "crash-%d.txt" % i), "w").write(err[:20000])
            crashes += 1
            start = i + 1
            hangs += kind == "hang"
            if only is not None or crashes >= 5 or hangs >= 2:
                self.notes["stopped_after_crashes"] = crashes
                break
        self.notes["crashed_scenarios"] = crashes
        return out

    # ---------------------------------------------------------- validation
    def mutate(self, rng, t):
        """corrupt one observed value of a recorded trace (binding self-test)"""
        t = copy.deepcopy(t)
        leaves = []
        nomut = set(self.c.get("nomut", ()))

        def walk(o, k):
            v = o[k]
            if isinstance(v, dict):
                for x in v:
                    walk(v, x)
            elif isinstance(v, list):
                for x in range(len(v)):
                    walk(v, x)
            else:
                leaves.append((o, k))
        for e in t["ev"]:
            if e["op"] in nomut:
                continue
            for k in e["obs"]:
                if k != "_" and k not in nomut:
                    walk(e["obs"], k)
        if not leaves:
            return None
        o, k = rng.choice(leaves)
        v = o[k]
        if isinstance(v, bool):
            o[k] = not v
        elif isinstance(v, int):
            o[k] = v + 1
        elif isinstance(v, str):
            o[k] = v + "~"
        else:
            return None
        return t

    def validate(self, path):
        traces = [json.loads(l) for l in open(path)]
        crash = [t for t in traces if t["src"] == "crash"]
        good = [t for t in traces if t["src"] != "crash"]
        if not traces:
            raise CheckError("driver recorded nothing")
        rng = random.Random(SEED)
        muts = []
        if good:
            for _ in range(400):
                if len(muts) >= 40:
                    break
                m = self.mutate(rng, rng.choice(good))
                if m:
                    muts.append(m)
        alltr = good + muts
        rej = {}
        rejmut = 0
        CH = self.c.get("chunk", 20000)
        for a in range(0, len(alltr), CH):
            part = alltr[a:a + CH]
            f = os.path.join(self.dir, "tv-%d.ndjson" % a)
            with open(f, "w") as fh:
                for t in part:
                    fh.write(json.dumps({"cfg": t["cfg"], "ev": t["ev"]}) + "\n")
            tv = self.c["trace"]
            rc, out = self.tlc(tv["module"], tv["cfg"], dict({"TRACE_FILE": f, "PROP": self.pid}, **tv.get("env", {})),
                               heap=self.c.get("heap", "8g"))
            if rc != 0 or "Model checking completed. No error" not in out:
                raise CheckError("trace validation does not run:\n" + out[-4000:])
            g, n = self.counts(out)
            self.states += n
            self.trans += g
            acc = {}
            for line in out.splitlines():
                m = re.match(r'^"(REJECT|ACCEPT) (.*)"$', line)
                if m:
                    d = json.loads(json.loads('"' + m.group(2) + '"'))
                    if m.group(1) == "REJECT":
                        rej[a + d["tid"] - 1] = d
                    else:
                        acc[d["tid"]] = True
            if tv.get("accept"):      # branching specs: acceptance is printed
                for i, t in enumerate(part):
                    if (i + 1) not in acc:
                        rej.setdefault(a + i, {"tid": i + 1, "l": 0, "want": "no behaviour of the specification explains this trace"})
                    else:
                        rej.pop(a + i, None)
            else:
                exp = 0
                for i, t in enumerate(part):
                    r = rej.get(a + i)
                    exp += (len(t["ev"]) + 1) if r is None else r["l"] + 1
                if exp != n:
                    raise CheckError("trace validation visited %d states, expected %d" % (n, exp))
            os.remove(f)
        real = {}
        for i, d in rej.items():
            if i >= len(good):
                rejmut += 1
            else:
                real[i] = d
        self.notes["self_test"] = {"corrupted_traces": len(muts), "rejected": rejmut}
        if not real and not crash and muts and rejmut * 100 < len(muts) * self.c.get("mutmin", 5):
            raise CheckError("binding self-test: only %d of %d corrupted traces were rejected" % (rejmut, len(muts)))
        return good, real, crash

    # ---------------------------------------------------------------- run
    def known(self):
        res = []
        p = os.path.join(V, "known_findings")
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
                if m and m.group(1) == self.pid:
                    res.append((m.group(2), m.group(3).strip()))
        return res

    def run(self, only=None):
        self.run_design()
        scen = self.run_gen()
        binp = self.build()
        path = self.run_driver(binp, scen, only)
        good, real, crash = self.validate(path)
        known, seen, viol = self.known(), set(), []
        for i, d in sorted(real.items()):
            t = good[i]
            e = t["ev"][d["l"] - 1] if d.get("l") else None
            key = (e or {}).get("key") or t["cfg"].get("key", "")
            hit = next((k for k in known if k[0] == key), None) if key else None
            if hit:
                seen.add(hit)
                continue
            viol.append((t, e, d))
        for t in crash:
            viol.append((t, t["ev"][0], {"want": "the call returns"}))
        for k in known:
            log("KNOWN-FINDING: property=%s %s" % (self.pid, k[1]))
        rdir = os.path.join(V, "build", "replay")
        os.makedirs(rdir, exist_ok=True)
        rp = None
        for n, (t, e, d) in enumerate(viol[:5]):
            p = os.path.join(rdir, "%s-%d.json" % (self.pid, n + 1))
            json.dump({"property": self.pid, "seed": SEED, "tier": TIER, "scenario": t["id"], "trace": t,
                       "rejected_event": e, "specification_demands": d.get("want"), "at": d.get("l")},
                      open(p, "w"), indent=1)
            rp = rp or p
            log("--- rejected: scenario %s event %s" % (t["id"], d.get("l")))
            log("    event   " + json.dumps(e)[:1500])
            log("    demands " + json.dumps(d.get("want"))[:1500])
        if only is None:
            self.evidence(good, len(viol))
        if viol:
            log("%d of %d traces rejected" % (len(viol), len(good) + len(crash)))
            log("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        log("OK %s: %d traces validated, %d states, %.1fs" % (self.pid, len(good), self.states, time.time() - self.t0))
        return 0

    def evidence(self, good, nviol):
        def short(t):
            s = json.dumps(t)
            return t if len(s) < 6000 else json.loads(json.dumps({"cfg": "(long)", "ev": t["ev"][:2]}))if len(json.dumps(t["ev"][:2])) < 6000 else {"text": s[:6000]}
        cov = {"states": self.states, "transitions": self.trans,
               "traces_validated_against_impl": len(good),
               "events_validated": sum(len(t["ev"]) for t in good),
               "samples": [short(t) for t in good[:1] + good[len(good) // 2:len(good) // 2 + 1]],
               "design_runs": self.design}
        cov.update(self.notes)
        d = {"property": self.pid, "tier": TIER, "seed": SEED, "level": "model_checking", "coverage": cov,
             "assumptions": self.c.get("assumptions", []), "wall_s": round(time.time() - self.t0, 2),
             "violations": nviol}
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        json.dump(d, open(os.path.join(V, "evidence", self.pid + ".json"), "w"), indent=1)


def main():
    pid = sys.argv[1]
    only = None
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        global SEED, TIER
        r = json.load(open(sys.argv[3]))
        SEED, TIER, only = r["seed"], r["tier"], r["scenario"]
    ck = Check(pid)
    try:
        rc = ck.run(only)
    except CheckError as e:
        log("ERROR " + str(e))
        rc = 2
    except subprocess.TimeoutExpired as e:
        log("ERROR timeout " + str(e))
        rc = 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(ck.dir, ignore_errors=True)
    sys.exit(rc)


if __name__ == "__main__":
    main()

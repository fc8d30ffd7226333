"""Machinery shared by all checks: run TLC, run drivers on /repo, judge, write evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python"


class MachineryError(Exception):
    pass


class Check:
    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif_%s_" % prop, dir="/tmp")
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.models = []
        self.samples = []
        self.failures = []      # (key, text, scenario)
        self.notes = {}
        self.thorough = self.tier == "thorough"

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, workers=8, args=(), timeout=600, heap="6g"):
        cfg = cfg or module + ".cfg"
        meta = tempfile.mkdtemp(prefix="tlc_", dir=self.tmp)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + meta, "-DTLA-Library=" + SPEC,
               "-cp", CP, "tlc2.TLC", "-noTE", "-nowarning", "-metadir", meta,
               "-workers", str(workers), "-config", os.path.join(SPEC, cfg), *args,
               os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update({k: str(v) for k, v in (env or {}).items()})
        try:
            r = subprocess.run(cmd, cwd=meta, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout, text=True)
        except subprocess.TimeoutExpired as ex:
            raise MachineryError("TLC timed out on %s after %ss\n%s" % (
                module, timeout, (ex.stdout or b"")[-2000:]))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return r.returncode, r.stdout

    @staticmethod
    def _counts(out):
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

    def model_check(self, module, cfg=None, env=None, timeout=600, min_distinct=2, args=(), heap="6g"):
        """Exhaustive check of a design level model."""
        rc, out = self.tlc(module, cfg, env, timeout=timeout, args=args, heap=heap)
        if rc != 0:
            raise MachineryError("model %s does not hold (rc %d):\n%s" % (module, rc, out[-4000:]))
        gen, dist = self._counts(out)
        if dist < min_distinct:
            raise MachineryError("model %s is vacuous: %d states" % (module, dist))
        self.states += dist
        self.transitions += gen
        self.lap("model")
        self.models.append({"model": cfg or module, "distinct_states": dist, "states_generated": gen})

    def generate(self, module, cfg=None, num=100, depth=20, env=None, timeout=600, seed=None, parts=1):
        """Behaviours of a Gen_* module in simulation mode (printed as HIST lines); parts: parallel generators."""
        if parts > 1:
            with ThreadPoolExecutor(parts) as ex:
                got = list(ex.map(lambda k: self.generate(module, cfg, (num + parts - 1) // parts, depth, env, timeout,
                                                          1000 * (seed if seed is not None else self.seed) + k), range(parts)))
            return [h for g in got for h in g]
        rc, out = self.tlc(module, cfg, env, workers=1, timeout=timeout, args=(
            "-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed if seed is not None else self.seed),
            "-deadlock"))
        if rc not in (0, 12):
            raise MachineryError("generator %s failed (rc %d):\n%s" % (module, rc, out[-4000:]))
        hists, seen = [], set()
        for line in out.splitlines():
            if line.startswith('"HIST '):
                h = json.loads(json.loads(line)[5:])
                # TLC prints every successor of the last but one state: keep one per walk
                k = json.dumps(h[:-1])
                if k not in seen:
                    seen.add(k)
                    hists.append(h)
        m = re.findall(r"(\d+) states checked", out)
        if m:
            self.transitions += int(m[-1])
        if not hists:
            raise MachineryError("generator %s produced nothing:\n%s" % (module, out[-3000:]))
        self.lap("generator")
        self.models.append({"generator": cfg or module, "behaviours": len(hists)})
        return hists

    def enumerate(self, module, cfg=None, env=None, timeout=600):
        """Exhaustive enumeration (BFS) of the behaviours of a Gen_* module."""
        rc, out = self.tlc(module, cfg, env, workers=1, timeout=timeout, args=("-deadlock",))
        if rc != 0:
            raise MachineryError("enumeration %s failed (rc %d):\n%s" % (module, rc, out[-4000:]))
        hists, seen = [], set()
        for line in out.splitlines():
            if line.startswith('"HIST '):
                s = json.loads(line)[5:]
                if s not in seen:
                    seen.add(s)
                    hists.append(json.loads(s))
        gen, dist = self._counts(out)
        self.states += dist
        self.transitions += gen
        self.lap("enumeration")
        self.models.append({"enumeration": cfg or module, "behaviours": len(hists), "distinct_states": dist})
        if not hists:
            raise MachineryError("enumeration %s produced nothing:\n%s" % (module, out[-3000:]))
        return hists

    # ------------------------------------------------------------- driver
    def _drv_env(self, prec):
        e = dict(os.environ)
        e.update(PYTHONPATH=REPO + os.pathsep + HARN, CUDA_VISIBLE_DEVICES="-1", TF_CPP_MIN_LOG_LEVEL="3",
                 PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0", TF_ENABLE_ONEDNN_OPTS="0",
                 VERIF_PREC=str(prec), TF_NUM_INTRAOP_THREADS="2", TF_NUM_INTEROP_THREADS="1",
                 OMP_NUM_THREADS="2", HOME=self.tmp, TMPDIR=self.tmp)
        return e

    def drive(self, family, jobs, limit=600):
        """Run driver `family` once per job (dict: prec, and anything it needs); return all scenarios."""
        def one(k):
            job = dict(jobs[k])
            job.setdefault("seed", self.seed)
            job.setdefault("tier", self.tier)
            jf = os.path.join(self.tmp, "job_%s_%d.json" % (family, k))
            of = os.path.join(self.tmp, "out_%s_%d.ndjson" % (family, k))
            wd = os.path.join(self.tmp, "wd_%s_%d" % (family, k))
            os.makedirs(wd, exist_ok=True)
            json.dump(job, open(jf, "w"))
            timeout = 400 if self.tier == "quick" else limit
            try:
                r = subprocess.run([PY, os.path.join(HARN, "drv.py"), family, jf, of], cwd=wd,
                                   env=self._drv_env(job["prec"]), stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                if self.tier != "quick":
                    raise MachineryError("driver %s timed out" % family)
                # twenty times what it takes: an operation of pySLM2 does not end
                self.fail("%s/%s/hang" % (family, job["prec"]), "pySLM2 does not answer")
                return []
            if r.returncode != 0:
                raise MachineryError("driver %s failed (rc %d):\n%s" % (
                    family, r.returncode, r.stdout.decode("utf8", "replace")[-4000:]))
            got = [json.loads(l) for l in open(of)]
            for x in [x for x in got if "crash" in x]:
                self.fail(x["id"], "pySLM2 raised where the specification allows no error: " + x["crash"], x)
            return [x for x in got if "crash" not in x]
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, range(len(jobs))))
        self.lap("drive " + family)
        return [s for r in res for s in r]

    # ---------------------------------------------------------- validation
    def validate(self, module, scenarios, cfg=None, env=None, timeout=800, heap="6g", label=None, _retry=0):
        """TLC decides each recorded scenario against the specification."""
        if not scenarios and self.failures:
            return
        if not scenarios:
            raise MachineryError("no scenarios for " + module)
        tf = os.path.join(self.tmp, "trace_%s_%d.ndjson" % (module, len(self.models)))
        with open(tf, "w") as f:
            for s in scenarios:
                f.write(json.dumps(s, separators=(",", ":")) + "\n")
        e = dict(env or {})
        e["TRACE"] = tf
        rc, out = self.tlc(module, cfg, e, timeout=timeout, heap=heap)
        verdicts = re.findall(r'^<<"VERDICT", (\d+), (\d+), (.*)>>\s*$', out, re.M)
        if rc != 0:
            # an event the specification cannot even be evaluated on: attribute it from the error trace
            ms = re.findall(r"^/\\ s = (\d+)\s*$", out, re.M)
            ml = re.findall(r"^/\\ l = (\d+)\s*$", out, re.M)
            if rc in (75, 76, 77, 255, 150, 151) and ms and ml and _retry < 3:
                sc = scenarios[int(ms[-1]) - 1]
                why = re.findall(r"^(?:Error: )?(.*(?:ttempted|rror|verflow).*)$", out, re.M)
                self.failures.append({"key": sc.get("id", "?"), "event": int(ml[-1]) + 1, "module": module,
                                      "clause": "outside the domain of the specification: " + " ".join(why)[:300],
                                      "scenario": sc})
                rest = [x for i, x in enumerate(scenarios) if i != int(ms[-1]) - 1]
                if rest:
                    self.validate(module, rest, cfg, env, timeout, heap, label, _retry + 1)
                return
            if not verdicts:
                raise MachineryError("trace check %s failed (rc %d):\n%s" % (module, rc, out[-5000:]))
        nev = sum(len(s["events"]) for s in scenarios)
        gen, dist = self._counts(out)
        if rc == 0 and dist < nev + len(scenarios):
            raise MachineryError("trace check %s consumed %d of %d events:\n%s" % (
                module, dist - len(scenarios), nev, out[-3000:]))
        self.states += dist
        self.transitions += gen
        self.traces += len(scenarios)
        self.events += nev
        seen = set()
        for s, l, text in verdicts:
            s, l = int(s), int(l)
            if (s, l, text) in seen:
                continue
            seen.add((s, l, text))
            sc = scenarios[s - 1]
            self.failures.append({"key": sc.get("id", str(s)), "event": l, "clause": text,
                                  "module": module, "scenario": sc})
        self.lap("trace_check")
        self.models.append({"trace_check": label or module, "scenarios": len(scenarios), "events": nev,
                            "rejections": len(verdicts)})
        for sc in scenarios[:1]:
            t = json.dumps(sc)
            self.samples.append(json.loads(t) if len(t) < 4000 else t[:1500] + " ...")

    def lap(self, what):
        if os.environ.get("VERIF_VERBOSE"):
            print("   %7.1f s  %s" % (time.time() - self.t0, what), flush=True)

    def fail(self, key, clause, detail=None):
        self.failures.append({"key": key, "event": 0, "clause": clause, "module": "harness", "scenario": detail})

    # -------------------------------------------------------------- finish
    def known(self):
        p = os.path.join(VERIF, "known_findings.json")
        if not os.path.exists(p):
            return []
        return [k for k in json.load(open(p)).get("findings", []) if k["property"] == self.prop]

    def finish(self, level="model_checking", assumptions=(), extra=None):
        known = self.known()
        new, old = [], []
        for f in self.failures:
            hit = [k for k in known if re.search(k["match"], "%s|%s" % (f["key"], f["clause"]))]
            (old if hit else new).append((f, hit))
        for k in known:
            if any(k in h for _, h in old):
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples[:4],
               "events_checked": self.events, "runs": self.models}
        cov.update(self.notes)
        cov.update(extra or {})
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": cov, "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2),
              "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        rc = 0
        if new:
            rdir = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, "%s_%d.json" % (self.prop, self.seed))
            json.dump([dict(f, scenario=f["scenario"]) for f, _ in new[:10]], open(rp, "w"))
            for f, _ in new[:20]:
                print("  rejected: scenario %s event %d clause %s" % (f["key"], f["event"], f["clause"]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            rc = 1
        else:
            print("OK %s %s: %d states, %d traces, %d events, %.1f s" % (
                self.prop, self.tier, self.states, self.traces, self.events, time.time() - self.t0))
        shutil.rmtree(self.tmp, ignore_errors=True)
        return rc


def main(fn, prop, **kw):
    c = Check(prop)
    try:
        a = fn(c)
        rc = c.finish(assumptions=a or ())
    except MachineryError as e:
        print("MACHINERY ERROR in %s: %s" % (prop, e))
        # what was rejected before stays rejected
        rc = c.finish() if c.failures else 2
        shutil.rmtree(c.tmp, ignore_errors=True)
    sys.exit(rc)

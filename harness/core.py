"""Shared machinery: running recorders in worker processes, running TLC, reporting.

A check is: recorded behaviour of the code under /repo (one JSON document of scenarios)
+ a TLA+ module that states what the behaviour must be, evaluated by TLC.  TLC prints one
line per failing clause; a check passes when TLC ran to the end, explored as many states as
the scenarios require, and printed no failing clause.
"""
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
JAR = "/opt/veriftools/tla/tla2tools.jar"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NCPU = max(1, min(8, os.cpu_count() or 1))


def quick():
    return TIER != "thorough"


def pick(q, t):
    """A bound that depends on the tier."""
    return q if quick() else t


def rng(*salt):
    return random.Random("%d/%s" % (SEED, "/".join(map(str, salt))))


class JobTimeout(Exception):
    pass


def _alarm(signum, frame):
    raise JobTimeout("no answer within the time limit")


def describe(e):
    return "%s: %s" % (type(e).__name__, str(e)[:200])


def _worker_init(scratch):
    d = tempfile.mkdtemp(dir=scratch)
    os.chdir(d)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    signal.signal(signal.SIGALRM, _alarm)


def _run_job(job):
    fn, args, limit = job
    signal.alarm(limit)
    try:
        return ("ok", fn(*args))
    except BaseException as e:          # a job that cannot even build its scenario
        return ("err", describe(e))
    finally:
        signal.alarm(0)


def attempt(fn, *args, **kw):
    """Result of a call into the code under test, or the error it raised, as (value, error)."""
    try:
        return fn(*args, **kw), ""
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except JobTimeout as e:
        return None, describe(e)
    except BaseException as e:
        return None, describe(e)


class Check:
    """One run of one property's check."""

    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.failures = []          # dicts: clause, message, data
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop)

    # -- recording ------------------------------------------------------------------------
    def record(self, jobs, limit=60):
        """Runs (fn, args) jobs in worker processes; returns their results in order.

        A job that raises is a failure of the property (the code did not answer)."""
        ctx = mp.get_context("fork")
        out = []
        with ctx.Pool(NCPU, initializer=_worker_init, initargs=(self.scratch,)) as pool:
            res = pool.map(_run_job, [(f, a, limit) for f, a in jobs], chunksize=1)
        for (fn, args), (status, val) in zip(jobs, res):
            if status == "ok":
                out.append(val)
            else:
                self.fail("no-answer", "%s%r: %s" % (fn.__name__, args, val), {"job": fn.__name__, "args": repr(args)})
        return out

    # -- judging --------------------------------------------------------------------------
    def tlc(self, module, scenarios, expect_states=None, cfg=None, env=None, traces=None,
            workers=None, depth_first=None, simulate=None, timeout=800):
        """Judges the scenarios with a TLA+ module.  Every scenario has an "id"."""
        work = tempfile.mkdtemp(prefix="tlc_", dir=self.scratch)
        scn = os.path.join(work, "scn.json")
        with open(scn, "w") as f:
            json.dump(scenarios, f)
        e = dict(os.environ, SCN=scn)
        e.update(env or {})
        cmd = ["java", "-Xss512m", "-Xmx6g", "-XX:+UseParallelGC", "-cp",
               JAR + ":" + classpath(), "tlc2.TLC",
               "-workers", str(workers or NCPU), "-metadir", os.path.join(work, "meta"),
               "-noGenerateSpecTE", "-config", os.path.join(SPEC, cfg or module + ".cfg")]
        if simulate:
            cmd += ["-simulate", simulate]
        cmd += [os.path.join(SPEC, module + ".tla")]
        r = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
        out = r.stdout
        index = {str(s.get("id")): s for s in scenarios} if isinstance(scenarios, list) else {}
        for l in printed(out):
            m = re.match(r'"?FAIL\s*<<\s*\\?"?(?P<id>[^",\\]*)\\?"?,\s*(?P<rest>.*?)>>"?$', l)
            sid = m.group("id").strip() if m else "?"
            body = (m.group("rest") if m else l).replace('\\"', '"')
            self.fail(module, "%s: %s" % (sid, body), {"scenario": sid}, index.get(sid))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if not m:
            m = re.search(r"The number of states generated: (\d+)", out)
            gen, dist = (int(m.group(1)),) * 2 if m else (0, 0)
        else:
            gen, dist = int(m.group(1)), int(m.group(2))
        broken = re.search(r"Attempted to .*|.*The error occurred when TLC was evaluating.*|.*not in the domain.*|In evaluation, .*", out)
        if r.returncode != 0 and broken and not re.search("OutOfMemory|StackOverflow|Parsing or semantic", out):
            # On data of a correct run the modules are total: what was recorded is not a value of the specification.
            self.fail(module, "the specification cannot express what was recorded: " + broken.group(0)[:300])
            shutil.rmtree(work, ignore_errors=True)
            return out
        if r.returncode != 0 or not m:
            keep = os.path.join(ROOT, "evidence", "tlc_%s.log" % self.prop)
            os.makedirs(os.path.dirname(keep), exist_ok=True)
            with open(keep, "w") as f:
                f.write(out)
            raise RuntimeError("TLC failed on %s (exit %s), log in %s\n%s" % (module, r.returncode, keep, out[-3000:]))
        if expect_states is not None and dist != expect_states and not self.failures:
            raise RuntimeError("%s explored %d distinct states, %d expected" % (module, dist, expect_states))
        self.states += dist
        self.transitions += gen
        self.traces += traces if traces is not None else len(scenarios)
        shutil.rmtree(work, ignore_errors=True)
        return out

    def generate(self, module, env, count=None, depth=None, seed=None):
        """Behaviours printed by a generator module (lines HIST...): all of them, or count random ones."""
        work = tempfile.mkdtemp(prefix="gen_", dir=self.scratch)
        cmd = ["java", "-Xss512m", "-Xmx6g", "-XX:+UseParallelGC", "-cp", JAR + ":" + classpath(), "tlc2.TLC", "-workers", "1",
               "-metadir", os.path.join(work, "meta"), "-noGenerateSpecTE", "-config", os.path.join(SPEC, module + ".cfg")]
        if count:
            cmd += ["-simulate", "num=%d" % count, "-depth", str(depth), "-seed", str(seed)]
        cmd += [os.path.join(SPEC, module + ".tla")]
        r = subprocess.run(cmd, cwd=work, env=dict(os.environ, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
        out = [json.loads(json.loads(l)[4:]) for l in r.stdout.splitlines() if l.startswith('"HIST')]
        if r.returncode != 0 or not out:
            raise RuntimeError("TLC failed on %s (exit %s)\n%s" % (module, r.returncode, r.stdout[-3000:]))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", r.stdout) or re.search(r"number of states generated: (\d+)", r.stdout)
        self.extra.setdefault("generator_states", 0)
        self.extra["generator_states"] += int(m.group(m.lastindex)) if m else 0
        seen, uniq = set(), []
        for h in out:
            t = json.dumps(h)
            if t not in seen:
                seen.add(t)
                uniq.append(h)
        return uniq

    # -- reporting ------------------------------------------------------------------------
    def fail(self, clause, message, data=None, scenario=None):
        self.failures.append({"clause": clause, "message": message, "data": data or {}, "scenario": scenario})

    def sample(self, x):
        if len(self.samples) < 6:
            s = json.dumps(x)
            self.samples.append(x if len(s) < 4000 else s[:4000])

    def finish(self, note=None):
        known = load_known(self.prop)
        new, seen = [], []
        for f in self.failures:
            k = next((k for k in known if k["match"] in f["message"]), None)
            if k is None:
                new.append(f)
            elif k not in seen:
                seen.append(k)
        for k in seen:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": "quick" if quick() else "thorough", "seed": SEED,
              "level": "model_checking", "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.scratch, ignore_errors=True)
        if new:
            d = os.path.join(ROOT, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, self.prop + ".json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, "seed": SEED, "tier": TIER, "violations": new[:50]}, f, indent=1)
            for v in new[:12]:
                print("  " + v["message"][:600])
            print("%d failing observations" % len(new))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("OK property=%s states=%d traces=%d wall=%.1fs" % (self.prop, self.states, self.traces, time.time() - self.t0))
        return 0


def printed(out):
    """The failing clauses TLC printed, one per entry (TLC wraps long values over several lines)."""
    got, lines = [], out.splitlines()
    i = 0
    while i < len(lines):
        l = lines[i]
        if re.match(r'"?FAIL', l):
            depth = lambda t: t.count("<<") - t.count(">>")
            while depth(l) > 0 and i + 1 < len(lines) and not re.match(r'"?FAIL', lines[i + 1]):
                i += 1
                l += " " + lines[i].strip()
            got.append(l)
        i += 1
    return got


def classpath():
    d = os.path.dirname(JAR)
    jars = [os.path.join(d, j) for j in os.listdir(d) if j.endswith(".jar") and j != os.path.basename(JAR)]
    return ":".join(jars)


def load_known(prop):
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]

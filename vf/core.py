"""Shared machinery: scratch isolation, forked case execution, TLC runs, evidence, verdicts.

Nothing in here decides a property: the TLA+ modules under /verif/spec do.  This file only
 (1) executes the real litdata code in throw-away directories and records traces,
 (2) hands the traces to TLC, and
 (3) reports what TLC said.
"""
import contextlib
import glob
import hashlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
EVID = os.environ.get("VF_EVID") or os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(EVID, "replays")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
REPO = os.environ.get("VF_REPO", "/repo")


class MachineryError(Exception):
    """The harness itself failed (neither a pass nor a violation)."""


# ----------------------------------------------------------------------------- scratch
_SCRATCH = None


def scratch():
    return _SCRATCH


def setup_scratch():
    """Redirect every location litdata may write to (HOME, TMPDIR, its cache folders) to a scratch dir."""
    global _SCRATCH
    base = "/tmp"
    _SCRATCH = tempfile.mkdtemp(prefix="vf-", dir=base)
    os.environ["HOME"] = os.path.join(_SCRATCH, "home")
    os.environ["TMPDIR"] = os.path.join(_SCRATCH, "tmp")
    os.makedirs(os.environ["HOME"])
    os.makedirs(os.environ["TMPDIR"])
    tempfile.tempdir = None
    for k in list(os.environ):
        if k.startswith(("DATA_OPTIMIZER_", "LIGHTNING_")) or k in (
            "WORLD_SIZE", "GLOBAL_RANK", "NNODES", "RANK", "LOCAL_RANK", "MAX_CACHE_SIZE", "MAX_WAIT_TIME",
            "FORCE_DOWNLOAD_TIME", "DEBUG_LITDATA", "PRINT_DEBUG_LOGS",
        ):
            del os.environ[k]
    os.environ.update(
        PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MAX_WAIT_TIME="20", OMP_NUM_THREADS="1", HF_HUB_OFFLINE="1",
        CUDA_VISIBLE_DEVICES="", AWS_EC2_METADATA_DISABLED="true", TQDM_DISABLE="1", TOKENIZERS_PARALLELISM="false",
        DATA_OPTIMIZER_CACHE_FOLDER=os.path.join(_SCRATCH, "opt", "chunks"),
        DATA_OPTIMIZER_DATA_CACHE_FOLDER=os.path.join(_SCRATCH, "opt", "data"),
    )
    sys.dont_write_bytecode = True
    os.chdir(_SCRATCH)
    return _SCRATCH


def cleanup_scratch():
    if _SCRATCH and _SCRATCH.startswith("/tmp/vf-"):
        os.chdir("/")
        shutil.rmtree(_SCRATCH, ignore_errors=True)


# ----------------------------------------------------------------------------- forked execution
def _child(fn, case, wd, out):
    os.setsid()
    os.makedirs(os.path.join(wd, "tmp"), exist_ok=True)
    os.environ["TMPDIR"] = os.path.join(wd, "tmp")
    os.environ["HOME"] = os.path.join(wd, "home")
    os.environ["DATA_OPTIMIZER_CACHE_FOLDER"] = os.path.join(wd, "opt", "chunks")
    os.environ["DATA_OPTIMIZER_DATA_CACHE_FOLDER"] = os.path.join(wd, "opt", "data")
    tempfile.tempdir = None
    os.chdir(wd)
    log = os.open(os.path.join(wd, "_log.txt"), os.O_CREAT | os.O_WRONLY | os.O_APPEND)
    os.dup2(log, 1)
    os.dup2(log, 2)
    try:
        res = {"ok": fn(case, wd)}
    except BaseException as e:  # noqa: BLE001
        res = {"exc": {"type": type(e).__name__, "msg": str(e)[:2000], "tb": traceback.format_exc()[-4000:]}}
    with open(out + ".tmp", "w") as f:
        json.dump(res, f)
    os.rename(out + ".tmp", out)
    os._exit(0)


def _kill_group(pid):
    with contextlib.suppress(ProcessLookupError, PermissionError):
        os.killpg(pid, signal.SIGKILL)


def run_cases(fn, cases, timeout=60, nproc=8, keep=False):
    """Run fn(case, workdir) in a forked child per case (own session, own scratch dirs).

    Returns a list aligned with `cases`: {"ok": value} | {"exc": {...}} | {"hang": seconds} | {"died": status}.
    """
    results = [None] * len(cases)
    running = {}
    nxt = 0
    root = tempfile.mkdtemp(prefix="cases-", dir=_SCRATCH)
    sys.stdout.flush()
    sys.stderr.flush()
    while nxt < len(cases) or running:
        while nxt < len(cases) and len(running) < nproc:
            wd = os.path.join(root, str(nxt))
            os.makedirs(wd)
            out = os.path.join(root, f"{nxt}.out.json")
            pid = os.fork()
            if pid == 0:
                try:
                    _child(fn, cases[nxt], wd, out)
                finally:
                    os._exit(77)
            running[pid] = (nxt, time.time(), wd, out)
            nxt += 1
        time.sleep(0.004)
        for pid in list(running):
            idx, t0, wd, out = running[pid]
            done, status = os.waitpid(pid, os.WNOHANG)
            limit = timeout(cases[idx]) if callable(timeout) else timeout
            if done == 0 and time.time() - t0 > limit:
                tail = _tail(os.path.join(wd, "_log.txt"))
                _kill_group(pid)
                with contextlib.suppress(ChildProcessError):
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                results[idx] = {"hang": limit, "log": tail}
            elif done:
                if os.path.exists(out):
                    with open(out) as f:
                        results[idx] = json.load(f)
                    if "exc" in results[idx]:
                        results[idx]["log"] = _tail(os.path.join(wd, "_log.txt"))
                else:
                    results[idx] = {"died": status, "log": _tail(os.path.join(wd, "_log.txt"))}
                _kill_group(pid)
            else:
                continue
            del running[pid]
            if not keep:
                shutil.rmtree(wd, ignore_errors=True)
                with contextlib.suppress(FileNotFoundError):
                    os.remove(out)
    if not keep:
        shutil.rmtree(root, ignore_errors=True)
    return results


def _tail(p, n=3000):
    try:
        with open(p, errors="replace") as f:
            return f.read()[-n:]
    except OSError:
        return ""


# ----------------------------------------------------------------------------- TLC
class Tlc:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"(\d+) states generated(?: \(.*?\))?, (\d+) distinct states found", out.replace(",", ""))
        m = re.findall(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        if not m:
            m = re.findall(r"Progress[^:]*: ([\d,]+) states checked", out)
            if m:
                self.generated = int(m[-1].replace(",", ""))
            m = re.findall(r"The number of states generated: ([\d,]+)", out)
            if m:
                self.generated = int(m[-1].replace(",", ""))

    def lines(self, tag):
        """Values printed by PrintT(<<tag, ...>>): yields the text after the tag."""
        pre = f'<<"{tag}", '
        for line in self.out.splitlines():
            if line.startswith(pre) and line.endswith(">>"):
                yield line[len(pre):-2]


def tlc(module, cfg, env=None, workers=4, simulate=None, depth=None, seed=None, timeout=600, extra=(), heap="4g"):
    """Run TLC on SPEC/module.tla with the config file SPEC/cfg."""
    md = tempfile.mkdtemp(prefix="tlc-", dir=_SCRATCH)
    cmd = ["java", f"-Xmx{heap}", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xss16m", "-cp", TLA_CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", md, "-config", os.path.join(SPEC, cfg), "-noGenerateSpecTE"]
    if simulate:
        cmd += ["-simulate", f"num={simulate}"]
        if depth:
            cmd += ["-depth", str(depth)]
        if seed is not None:
            cmd += ["-seed", str(seed)]
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=md, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired as ex:
        raise MachineryError(f"TLC timed out after {timeout}s on {module}/{cfg}") from ex
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return Tlc(rc, out, time.time() - t0)


def tlc_model_check(module, cfg, **kw):
    """Exhaustive check of a design model; returns the Tlc object, raises unless TLC says no error."""
    r = tlc(module, cfg, **kw)
    if "Model checking completed. No error has been found." not in r.out:
        raise MachineryError(f"model checking of {module}/{cfg} failed:\n{r.out[-4000:]}")
    return r


def tlc_generate(module, cfg, num, depth, seed, **kw):
    """Random behaviours of a spec; every behaviour that reaches its end prints <<"GEN", "<json>">>."""
    r = tlc(module, cfg, simulate=num, depth=depth, seed=seed, workers=1, **kw)
    if "Error:" in r.out:
        raise MachineryError(f"generation with {module}/{cfg} failed:\n{r.out[-4000:]}")
    seen, cases = set(), []
    for txt in r.lines("GEN"):
        s = json.loads(txt)
        if s not in seen:
            seen.add(s)
            cases.append(json.loads(s))
    return cases, r


def tlc_enumerate(module, cfg, **kw):
    r = tlc(module, cfg, **kw)
    if "No error has been found" not in r.out:
        raise MachineryError(f"enumeration with {module}/{cfg} failed:\n{r.out[-4000:]}")
    cases = sorted({json.loads(t) for t in r.lines("GEN")})
    return [json.loads(c) for c in cases], r


def tlc_validate(module, cfg, cases, batch=2000, **kw):
    """Validate recorded traces.  Each case is {"cfg":..., "trace":[...]}.  Returns list of (verdict, pos), Tlc stats.

    The trace modules end every case in a state whose verdict is "ok" or the name of the failing clause and print
    <<"VERDICT", case, pos, verdict>>; a case without a verdict is a machinery error.
    """
    verdicts = [None] * len(cases)
    gen = dist = 0
    wall = 0.0
    for b0 in range(0, len(cases), batch):
        part = cases[b0:b0 + batch]
        fd, path = tempfile.mkstemp(suffix=".json", dir=_SCRATCH)
        with os.fdopen(fd, "w") as f:
            json.dump(part, f)
        r = tlc(module, cfg, env={"VF_TRACES": path}, **kw)
        gen += r.generated
        dist += r.distinct
        wall += r.wall
        for txt in r.lines("VERDICT"):
            m = re.match(r'(\d+), (\d+), "(.*)"$', txt)
            if not m:
                raise MachineryError("unparsable verdict: " + txt)
            verdicts[b0 + int(m.group(1)) - 1] = (m.group(3), int(m.group(2)))
        missing = [i for i in range(b0, b0 + len(part)) if verdicts[i] is None]
        if missing or "No error has been found" not in r.out:
            keep = os.path.join(EVID, f"tlc-failed-{module}.json")
            os.makedirs(EVID, exist_ok=True)
            shutil.copy(path, keep)
            raise MachineryError(f"TLC gave no verdict for {len(missing)} traces of {module} (saved {keep}):\n{r.out[-5000:]}")
        os.remove(path)
    return verdicts, gen, dist, wall


# ----------------------------------------------------------------------------- check object
class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.violations = []
        self.known_hits = []
        self.known = load_known(pid)
        self.rng = random.Random(f"{pid}-{seed}")
        self.level = "model_checking"

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def add_tlc(self, r, label):
        self.states += r.distinct
        self.transitions += r.generated
        self.cov.setdefault("tlc_runs", []).append(
            {"run": label, "distinct_states": r.distinct, "states_generated": r.generated, "wall_s": round(r.wall, 1)})

    def model_check(self, module, cfg, **kw):
        r = tlc_model_check(module, cfg, **kw)
        self.add_tlc(r, f"model:{module}/{cfg}")
        return r

    def model_refutes(self, module, cfg, **kw):
        """The model has teeth: the variant of the design in cfg (a known-wrong one) violates what is wanted."""
        r = tlc(module, cfg, **kw)
        m = re.search(r"(Invariant \S+ is violated|Temporal property \S+ was violated|Temporal properties were violated|"
                      r"Action property \S+ is violated)", r.out)
        if not m:
            raise MachineryError(f"{module}/{cfg} was expected to be refuted:\n{r.out[-3000:]}")
        self.add_tlc(r, f"refuted variant:{module}/{cfg}: {m.group(1)}")
        return r

    def generate(self, module, cfg, num, depth, **kw):
        cases, r = tlc_generate(module, cfg, num, depth, self.seed, **kw)
        self.add_tlc(r, f"generate:{module}/{cfg} behaviours={len(cases)}")
        return cases

    def enumerate(self, module, cfg, **kw):
        cases, r = tlc_enumerate(module, cfg, **kw)
        self.add_tlc(r, f"enumerate:{module}/{cfg} behaviours={len(cases)}")
        return cases

    def validate(self, module, cfg, cases, extra=None, keyf=None, label=None):
        """TLC-validate traces and register violations.  extra[i]: anything worth keeping in the replay file."""
        if not cases:
            raise MachineryError("no traces to validate")
        verdicts, gen, dist, wall = tlc_validate(module, cfg, cases)
        self.states += dist
        self.transitions += gen
        self.traces += len(cases)
        self.cov.setdefault("tlc_runs", []).append(
            {"run": f"trace:{label or module}", "distinct_states": dist, "states_generated": gen,
             "traces": len(cases), "wall_s": round(wall, 1)})
        tally = {}
        for i, (v, pos) in enumerate(verdicts):
            tally[v] = tally.get(v, 0) + 1
            if v != "ok":
                self.violation(v, {"module": module, "clause": v, "at_event": pos, "case": cases[i],
                                   "extra": extra[i] if extra else None})
        self.cov.setdefault("verdicts", {})[label or module] = tally
        step = max(1, len(cases) // 3)
        for c in cases[::step][:3]:
            self.samples.append(c if len(json.dumps(c)) < 6000 else {"cfg": c.get("cfg"), "trace_head": c.get("trace", [])[:10],
                                                                   "trace_len": len(c.get("trace", []))})
        return verdicts

    def violation(self, clause, replay):
        for k in self.known:
            if known_matches(k, clause, replay):
                self.known_hits.append(k)
                return
        self.violations.append((clause, replay))

    def finish(self):
        os.makedirs(REPLAYS, exist_ok=True)
        for old in glob.glob(os.path.join(REPLAYS, f"{self.pid}-*.json")):
            os.remove(old)
        for k in self.known:
            if any(k is h for h in self.known_hits):
                print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        shown = {}
        for clause, rep in self.violations:
            shown.setdefault(clause, []).append(rep)
        for clause, reps in shown.items():
            reps.sort(key=lambda r: len(json.dumps(r, default=str)))
            if os.environ.get("VF_DUMP"):  # debugging aid: every failing trace
                with open(os.environ["VF_DUMP"], "a") as f:
                    f.writelines(json.dumps({"clause": clause, **r}, default=str) + "\n" for r in reps)
            body = json.dumps({"property": self.pid, "seed": self.seed, "tier": self.tier, "clause": clause,
                               "occurrences": len(reps), **reps[0]}, indent=1, default=str)
            p = os.path.join(REPLAYS, f"{self.pid}-{hashlib.md5(clause.encode()).hexdigest()[:8]}.json")
            with open(p, "w") as f:
                f.write(body)
            print(f"VIOLATION property={self.pid} replay={p}")
            print(f"  clause: {clause} ({len(reps)} of {self.traces} traces); see {p}")
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples[:6] or ["none"], **self.cov}
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(EVID, f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print(f"[{self.pid}] tier={self.tier} seed={self.seed} states={self.states} transitions={self.transitions} "
              f"traces={self.traces} violations={len(self.violations)} wall={ev['wall_s']}s")
        return 1 if self.violations else 0


# ----------------------------------------------------------------------------- known findings
def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid]


def known_matches(k, clause, replay):
    """A known finding names the clause and the exact key (input / history) that fails."""
    if k["clause"] != clause:
        return False
    key = (replay.get("case") or {}).get("cfg", {}).get("key") if isinstance(replay.get("case"), dict) else None
    return key is not None and key in k["keys"]

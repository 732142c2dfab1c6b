"""Common machinery of the checks: running TLC and the implementation, verdicts, evidence."""
import json, os, random, re, shutil, signal, subprocess, sys, tempfile, time, traceback
from multiprocessing import Value, get_context

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = min(8, os.cpu_count() or 1)


class MachineryError(Exception):
    pass


def tlc(module, cfg=None, env=None, workers=CORES, mem="6g", timeout=800, extra=()):
    """Run TLC.  Returns (printed lines, statistics, raw output); raises MachineryError if TLC
    did not finish, unless the run ended with a violated invariant or property (stats['violated'])."""
    meta = tempfile.mkdtemp(prefix="tlc")
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m", "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-config", cfg or module + ".cfg", *extra, module + ".tla"]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise MachineryError("TLC %s timed out" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    lines = []
    for l in out.splitlines():
        if l.startswith('"') and l.endswith('"'):
            try:
                lines.append(json.loads(l))
            except ValueError:
                # TLC escapes only quotes and backslashes
                lines.append(l[1:-1].replace('\\"', '"').replace("\\\\", "\\"))
    st = {"wall": time.time() - t0}
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        st["generated"], st["states"] = int(m[-1][0]), int(m[-1][1])
    m = re.findall(r"Progress: (\d+) states checked", out)
    if m:
        st["generated"] = st["states"] = int(m[-1])
    st["violated"] = re.findall(r"Error: Invariant (\w+) is violated|Error: Action property (\w+)|Temporal properties were violated", out)
    if "Model checking completed. No error has been found." not in out and not st["violated"] and not ("-simulate" in extra and p.returncode == 0):
        raise MachineryError("TLC %s failed:\n%s\n%s" % (module, out[-3000:], p.stderr[-2000:]))
    return lines, st, out


def tagged(lines, tag):
    return [json.loads(l[len(tag) + 1:]) for l in lines if l.startswith(tag + " ")]


# ---------------------------------------------------------------- worker pool
class Timeout(BaseException):
    """(not an Exception: the code under test has bare except clauses)"""


def _alarm(*a):
    raise Timeout()


_timeouts = Value("i", 0)


def _call(args):
    i, func, arg, cpu = args
    # code that does not terminate must not use up the time of the check: be less patient once that is clear
    n = _timeouts.value
    cpu = cpu if n < 16 else max(1.0, cpu / 20) if n < 64 else 0.3
    signal.signal(signal.SIGPROF, _alarm)
    try:
        signal.setitimer(signal.ITIMER_PROF, cpu, 1.0)
        try:
            r = ("ok", func(arg))
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        return i, r
    except Timeout:
        with _timeouts.get_lock():
            _timeouts.value += 1
        return i, ("timeout", "no result after %d s of CPU time" % cpu)
    except MemoryError:
        return i, ("timeout", "out of memory")
    except Exception as ex:
        return i, ("exception", "".join(traceback.format_exception_only(type(ex), ex)).strip() + "\n" + traceback.format_exc()[-1500:])


def _limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(5000)


def pmap(func, args, cpu=120, procs=CORES, chunksize=1):
    """Run func on every argument in worker processes.  Each result is ("ok", value),
    ("exception", text) or ("timeout", text)."""
    args = list(args)
    out = [None] * len(args)
    _timeouts.value = 0
    with get_context("fork").Pool(procs, initializer=_limit) as pool:
        for i, r in pool.imap_unordered(_call, [(i, func, a, cpu) for i, a in enumerate(args)], chunksize):
            out[i] = r
    return out


# ---------------------------------------------------------------------- check
class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.level = level
        self.t0 = time.time()
        self.violations = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.known = []
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                self.known.append(l.split(" ", 2)[2])
        self.known_hit = set()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def rng(self, salt=""):
        return random.Random("%s/%s/%s" % (self.pid, self.seed, salt))

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def tlc(self, *a, **k):
        lines, st, out = tlc(*a, **k)
        self.cov["states"] += st.get("states", 0)
        self.cov["transitions"] += st.get("generated", 0)
        return lines, st, out

    def model(self, module, cfg=None, **k):
        """A model checking run that must succeed (the design has the property)."""
        lines, st, out = self.tlc(module, cfg, **k)
        if st["violated"]:
            raise MachineryError("the specification %s violates its own properties:\n%s" % (module, out[-3000:]))
        return lines, st

    def sample(self, x, n=3):
        if len(self.cov["samples"]) < n:
            self.cov["samples"].append(x)

    def violation(self, what, detail=None, key=None):
        """Report a violation, unless it is a listed finding."""
        if key is not None:
            for k in self.known:
                if k.split(" ")[0] == key:
                    if key not in self.known_hit:
                        self.known_hit.add(key)
                        print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
                    return
        self.violations.append((what, detail))

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        replay = os.path.join(EVID, self.pid + "-violations.json")
        if os.path.exists(replay):
            os.unlink(replay)
        if self.violations:
            json.dump([{"what": w, "detail": d} for w, d in self.violations[:50]], open(replay, "w"), indent=1, default=str)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        json.dump(ev, open(os.path.join(EVID, self.pid + ".json"), "w"), indent=1, default=str)
        for w, d in self.violations[:10]:
            print("  " + w.replace("\n", "\n  ")[:1500])
        if self.violations:
            print("VIOLATION property=%s replay=%s" % (self.pid, replay))
            sys.exit(1)
        print("OK property=%s (%d s) %s" % (self.pid, time.time() - self.t0, json.dumps({k: v for k, v in self.cov.items() if k != "samples"}, default=str)))
        sys.exit(0)

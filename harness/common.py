"""Running the real code, running TLC, verdicts and evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from decimal import Decimal, getcontext, localcontext, ROUND_HALF_EVEN

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FORONOI_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
CLASSES = os.path.join(VERIF, "build", "classes")
JARS = ["/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"]
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
NPROC = os.cpu_count() or 4


# ---- encoding --------------------------------------------------------------------------------------------------
def limbs(n):
    """big integer as used by BigInt.tla"""
    if n == 0:
        return [0]
    s, n = (1, n) if n > 0 else (-1, -n)
    out = [s]
    while n:
        n, r = divmod(n, 10000)
        out.append(r)
    return out


def scale_for(poly):
    """exponent k such that the extent of the polygon is 10^20 .. 10^21 units of 10^-k"""
    xs = [Decimal(str(p[0])) for p in poly]
    ys = [Decimal(str(p[1])) for p in poly]
    ext = max(max(xs) - min(xs), max(ys) - min(ys))
    return 20 - ext.adjusted()


def units(v, k):
    """value * 10^k rounded to an integer"""
    if isinstance(v, float):
        v = Decimal(v)
    elif not isinstance(v, Decimal):
        v = Decimal(str(v))
    with localcontext() as c:
        c.prec = 120
        return int(v.scaleb(k).to_integral_value(rounding=ROUND_HALF_EVEN))


def enc(v, k):
    return limbs(units(v, k))


# ---- scratch ---------------------------------------------------------------------------------------------------
_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="foronoi-verif-")
        import atexit
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


# ---- executing the real code -----------------------------------------------------------------------------------
def worker_env():
    env = dict(os.environ)
    env.update(MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONWARNINGS="ignore",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", FORONOI_REPO=REPO, MPLCONFIGDIR=os.path.join(scratch(), "mpl"))
    env["PYTHONPATH"] = REPO
    return env


def run_jobs(jobs, procs=None, per_job=20, chunk=None):
    """Execute jobs (dicts with 'id' and 'kind') in worker processes. Returns {id: result}. A job that kills or blocks its worker gets a
    fault result; after a few of those the remaining ones are not run (the verdict is a violation anyway)."""
    procs = procs or NPROC
    os.makedirs(os.path.join(scratch(), "mpl"), exist_ok=True)
    pending = [[] for _ in range(procs)]
    # heavy jobs are spread evenly
    for i, j in enumerate(sorted(jobs, key=lambda j: -len(j.get("sites", ())))):
        pending[i % procs].append(j)
    results, faults = {}, [0]
    import threading
    lock = threading.Lock()

    def lane(todo, num):
        while todo and faults[0] < 6:
            inp = os.path.join(scratch(), f"jobs{num}.json")
            with open(inp, "w") as f:
                json.dump(todo, f)
            p = subprocess.Popen([PY, os.path.join(VERIF, "harness", "worker.py"), inp], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                 env=worker_env(), cwd=scratch(), text=True)
            err = []
            t = threading.Thread(target=lambda: err.append(p.stderr.read()), daemon=True)
            t.start()
            done = 0
            timer = None

            def kill():
                p.kill()
            def limit(k):
                return max(per_job, todo[k].get("time", 0) if k < len(todo) else 0) + 25
            timer = threading.Timer(limit(0), kill)
            timer.start()
            for line in p.stdout:
                timer.cancel()
                timer = threading.Timer(limit(done + line.startswith("@")), kill)
                timer.start()
                if not line.startswith("@"):
                    continue
                try:
                    r = json.loads(line[1:])
                except ValueError:
                    continue
                with lock:
                    results[r["id"]] = r
                    if r.get("fault") in ("hang", "memory", "killed"):
                        faults[0] += 1
                done += 1
                if faults[0] >= 6:
                    p.kill()
            timer.cancel()
            p.wait()
            t.join(timeout=5)
            todo = todo[done:]
            if todo and p.returncode != 0 and faults[0] < 6:
                if p.returncode == 3:
                    raise MachineryError("worker failed: " + "".join(err)[-3000:])
                with lock:
                    j = todo[0]
                    results[j["id"]] = dict(id=j["id"], fault="killed", where="worker ended with %s" % p.returncode)
                    faults[0] += 1
                todo = todo[1:]
            elif todo and p.returncode == 0:
                raise MachineryError("worker stopped early: " + "".join(err)[-3000:])

    threads, errors = [], []

    def guard(todo, num):
        try:
            lane(todo, num)
        except Exception as e:  # noqa
            errors.append(e)
    for num, todo in enumerate(pending):
        if todo:
            th = threading.Thread(target=guard, args=(todo, num))
            th.start()
            threads.append(th)
    for th in threads:
        th.join()
    if errors:
        raise errors[0]
    return results


def histories(r, tag="HIST"):
    """JSON texts printed by a specification with PrintT(<<tag, ToJson(..)>>)"""
    out = []
    for line in r.out.splitlines():
        if line.startswith('<<"%s", "' % tag):
            out.append(json.loads(json.loads(line[len(tag) + 6:-2])))
    return out


class MachineryError(Exception):
    pass


# ---- TLC -------------------------------------------------------------------------------------------------------
def ensure_built():
    cls = os.path.join(CLASSES, "BigInt.class")
    src = os.path.join(VERIF, "java", "BigInt.java")
    if not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(src):
        os.makedirs(CLASSES, exist_ok=True)
        tmp = tempfile.mkdtemp(prefix="foronoi-javac-")
        try:
            subprocess.run(["javac", "-cp", ":".join(JARS), "-d", tmp, src], check=True, capture_output=True)
            for f in os.listdir(tmp):
                shutil.copy(os.path.join(tmp, f), os.path.join(CLASSES, f))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


_runs = [0]


class Tlc:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", "") if False else out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if not m:  # simulation
            m = re.findall(r"The number of states generated: (\d+)", out)
            if m:
                self.generated = self.distinct = int(m[-1])
        self.ok = "No error has been found" in out or ("The number of states generated" in out and "Error:" not in out)

    def tuples(self, tag):
        """printed tuples <<"tag", ...>> (TLC may break long ones over several lines)"""
        res = []
        for m in re.finditer(r'<<\s*"' + re.escape(tag) + r'"((?:[^<>]|<<[^<>]*>>)*)>>', self.out):
            body = m.group(1)
            items = re.findall(r'"((?:[^"\\]|\\.)*)"|(-?\d+)', body)
            res.append([a if a or not b else int(b) for a, b in items])
        return res


def tlc(module, cfg, env=None, workers=None, timeout=800, args=(), heap="6g"):
    """run TLC on spec/<module>.tla with the given cfg text"""
    ensure_built()
    _runs[0] += 1
    d = os.path.join(scratch(), "tlc%d" % _runs[0])
    os.makedirs(d)
    cfgf = os.path.join(d, module + ".cfg")
    with open(cfgf, "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    cmd = ["java", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d, "-Xmx" + heap, "-Xss64m", "-cp", ":".join([CLASSES] + JARS), "tlc2.TLC", "-noGenerateSpecTE", "-metadir",
           os.path.join(d, "meta"), "-workers", str(workers or NPROC), "-config", cfgf, *args, os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
        out, rc = p.stdout + p.stderr, p.returncode
    except subprocess.TimeoutExpired as ex:
        raise MachineryError("TLC timed out on %s: %s" % (module, str(ex.stdout)[-2000:]))
    shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    return Tlc(out, rc, time.time() - t0)


def model_check(module, cfg, what, **kw):
    """Model check a specification on its own. A failure here is a failure of the machinery: it does not depend on /repo."""
    r = tlc(module, cfg, **kw)
    if not r.ok or r.distinct == 0:
        raise MachineryError("model checking %s (%s) failed:\n%s" % (module, what, r.out[-4000:]))
    return r


def validate(module, data, cfg="SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", timeout=800, env=None):
    """Validate recorded executions: data['runs'] against spec/<module>.tla. Every run must end in a verdict. Returns (failures, tlc),
    failures: list of (run index from 0, clause, detail)."""
    f = os.path.join(scratch(), "%s%d.json" % (module, _runs[0] + 1))
    with open(f, "w") as fh:
        json.dump(data, fh, separators=(",", ":"))
    e = dict(TRACE=f)
    e.update(env or {})
    r = tlc(module, cfg, env=e, timeout=timeout)
    if os.environ.get("VERIF_KEEP"):
        shutil.copy(f, os.environ["VERIF_KEEP"])
        open(os.environ["VERIF_KEEP"] + ".out", "w").write(r.out)
    done = {t[0] for t in r.tuples("DONE")}
    if not r.ok or done != set(range(1, len(data["runs"]) + 1)):
        raise MachineryError("validation with %s gave no verdict (%d of %d runs):\n%s" % (module, len(done), len(data["runs"]), r.out[-4000:]))
    fails = [(t[0] - 1, t[1], t[2:] if len(t) > 2 else []) for t in r.tuples("FAIL")]
    if len(fails) != r.out.count('"FAIL"'):
        raise MachineryError("could not read all verdicts:\n" + r.out[-3000:])
    return fails, r


# ---- verdicts --------------------------------------------------------------------------------------------------
class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.violations = []
        self.assumptions = []
        self.known = load_known(prop)

    def spec(self, r):
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated

    def traces(self, n):
        self.cov["traces_validated_against_impl"] += n

    def sample(self, s, limit=6):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s)

    def note(self, key, value):
        self.cov[key] = value

    def violation(self, clause, job, detail=""):
        self.violations.append((clause, job, detail))

    def finish(self):
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=self.level, coverage=self.cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if not self.violations:
            old = os.path.join(VERIF, "evidence", "replay", self.prop + ".json")
            if os.path.exists(old):
                os.remove(old)
            print("OK property=%s %s" % (self.prop, json.dumps({k: v for k, v in self.cov.items() if k != "samples"})))
            return 0
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, self.prop + ".json")
        # the smallest failing inputs first
        self.violations.sort(key=lambda v: len(json.dumps(v[1], default=str)))
        with open(path, "w") as f:
            json.dump([dict(clause=c, job=j, detail=x) for c, j, x in self.violations[:20]], f, indent=1, default=str)
        byc = {}
        for c, _, _ in self.violations:
            byc[c] = byc.get(c, 0) + 1
        print("failed clauses: %s" % byc)
        print("first: %s" % json.dumps(self.violations[0][1], default=str)[:1500])
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]

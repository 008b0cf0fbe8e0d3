"""Running TLC: model checking, scenario generation, trace validation."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, tempfile, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


SPECNAME = {"TracePool": "PSpec", "TraceTls": "TSpec", "TraceFds": "FSpec"}     # trace modules whose specification is not called Spec


class TlcError(Exception):
    pass


class Result:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"(\d+) states generated(?:[^,]*), (\d+) distinct states found", out)
        self.generated = int(m[-1][0]) if m else 0
        self.distinct = int(m[-1][1]) if m else 0
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m[-1]) if m else None
        m = re.findall(r"Error: (?:Invariant|Action property|Temporal properties|Property) ?(\S*)[^\n]*violated", out)
        m2 = re.findall(r"number of states generated: ([\d,]+)", out)
        if m2 and not self.generated:
            self.generated = int(m2[-1].replace(",", ""))
        self.violated = (m or [None])[0]
        if self.violated is None and re.search(r"(Temporal properties were violated|is violated)", out):
            self.violated = "property"
        self.deadlock = "Error: Deadlock reached" in out
        self.ok = rc == 0 and "Model checking completed. No error has been found" in out or \
            rc == 0 and "Finished in" in out and "Error:" not in out


def run(rundir, module, cfg, workers=2, mem="2g", args=(), modules=None, timeout=600, fast=False):
    """module: name of a module in spec/ (or generated text in `modules`); cfg: configuration text."""
    d = tempfile.mkdtemp(prefix=module + ".", dir=rundir)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
    for n, t in (modules or {}).items():
        p = os.path.join(d, n + ".tla")
        if os.path.lexists(p):
            os.unlink(p)
        open(p, "w").write(t)
    open(os.path.join(d, module + ".cfg"), "w").write(cfg)
    jv = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + mem, "-Xss32m", "-Djava.io.tmpdir=" + d]
    if fast:
        jv += ["-XX:TieredStopAtLevel=1"]
    cmd = jv + ["-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "st"), "-noGenerateSpecTE",
                "-config", module + ".cfg"] + list(args) + [module]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise TlcError("TLC timed out on " + module)
    out = r.stdout.decode("utf-8", "replace")
    open(os.path.join(d, "out"), "w").write(out)
    shutil.rmtree(os.path.join(d, "st"), ignore_errors=True)
    return Result(r.returncode, out, time.time() - t0)


def check(rundir, module, cfg, **kw):
    """Model checking that has to succeed: the specification itself is wrong otherwise."""
    r = run(rundir, module, cfg, **kw)
    if not r.ok:
        raise TlcError("model %s failed:\n%s" % (module, r.out[-4000:]))
    return r


def generate(rundir, module, cfg, **kw):
    """Scenarios printed by the model as "@@<json>" strings; returns (list, Result)."""
    r = check(rundir, module, cfg, workers=1, **kw)
    res, seen = [], set()
    for line in r.out.splitlines():
        if line.startswith('"@@'):
            t = json.loads(line)[2:]
            if t not in seen:
                seen.add(t)
                res.append(json.loads(t))
    if "-simulate" in kw.get("args", []):
        # a random walk prints all of its last states: one of them is enough
        by = {}
        for h in res:
            by.setdefault(json.dumps(h[:-1]), []).append(h)
        res = [v[len(k) % len(v)] for k, v in by.items()]
    return res, r


def validate(rundir, module, traces, consts="", jobs=6, mem="2g", max_rejects=4, extra=None, spread=4, spec=None):
    """traces: list of lists of events (each starting with its own reset event).
    Returns (rejected: [(index, position)], states, transitions, events)."""
    n = len(traces)
    jobs = max(1, min(jobs, (n + spread - 1) // spread))
    groups = [list(range(j, n, jobs)) for j in range(jobs)]
    lock = threading.Lock()
    tot = [0, 0, 0]
    rej = []

    def one(g):
        todo = list(g)
        fails = 0
        while todo and fails < max_rejects:
            fd, path = tempfile.mkstemp(prefix="trace.", suffix=".ndjson", dir=rundir)
            starts, cnt = [], 0
            with os.fdopen(fd, "w") as f:
                for i in todo:
                    starts.append(cnt)
                    for e in traces[i]:
                        f.write(json.dumps(e) + "\n")
                    cnt += len(traces[i])
            cfg = 'CONSTANT TraceFile = "%s"\n%s\nSPECIFICATION %s\nCHECK_DEADLOCK FALSE\n' % (path, consts, spec or SPECNAME.get(module, "Spec"))
            r = run(rundir, module, cfg, workers=1, mem=mem, fast=cnt < 20000, **(extra or {}))
            if not r.ok or r.depth is None:
                raise TlcError("trace validation with %s failed:\n%s" % (module, r.out[-3000:]))
            with lock:
                tot[0] += r.distinct
                tot[1] += r.generated
                tot[2] += min(cnt, r.depth - 1)
            done = r.depth - 1
            if done >= cnt:
                os.unlink(path)
                return
            k = max(j for j in range(len(todo)) if starts[j] <= done)
            with lock:
                rej.append((todo[k], done - starts[k]))
            fails += 1
            todo = todo[k + 1:]

    with cf.ThreadPoolExecutor(max_workers=jobs) as ex:
        list(ex.map(one, groups))
    return sorted(rej), tot[0], tot[1], tot[2]

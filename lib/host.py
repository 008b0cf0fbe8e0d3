"""Running scenario scripts in the harness programs."""
import os, subprocess, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class HostError(Exception):
    pass


def run(binary, rundir, scripts, jobs=8, settle=60, timeout=850):
    """scripts: {sid: [command lines]}.  Returns {sid: ([event lines], status)} and error text."""
    d = tempfile.mkdtemp(prefix="host.", dir=rundir)
    sc = os.path.join(d, "scn")
    with open(sc, "w") as f:
        for sid, lines in scripts.items():
            f.write("#S %s\n" % sid)
            for l in lines:
                f.write(l + "\n")
    env = dict(os.environ, IQ_CERTS=os.path.join(ROOT, "harness", "certs"),
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66:handle_abort=1:detect_stack_use_after_return=0:allocator_may_return_null=1")
    jobs = max(1, min(jobs, len(scripts)))
    r = subprocess.run([binary, sc, os.path.join(d, "out"), str(jobs), str(settle)], env=env, timeout=timeout,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if r.returncode:
        raise HostError("harness exited with %d" % r.returncode)
    res, err = {}, {}
    for j in range(jobs):
        cur, sid = None, None
        with open(os.path.join(d, "out.%d" % j), errors="replace") as f:
            for line in f:
                line = line.rstrip("\n")
                if line.startswith("BEGIN "):
                    cur, sid = [], line[6:]
                elif line.startswith("END "):
                    w = line.split(" ")
                    res[w[1]] = (cur, w[2])
                    cur = None
                elif cur is not None:
                    cur.append(line)
        p = os.path.join(d, "out.%d.err" % j)
        if os.path.getsize(p):
            err[j] = open(p, errors="replace").read(200000)
    miss = set(scripts) - set(res)
    if miss:
        raise HostError("no result for %s" % sorted(miss)[:3])
    return res, err

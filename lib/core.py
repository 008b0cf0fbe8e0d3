"""What every check does: build, model check, replay, validate, report."""
import collections, concurrent.futures as cf, json, os, random, shutil, sys, time, traceback
import build, host, tlc

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, "evidence")


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.rundir = os.path.join(ROOT, ".cache", "run", "%s-%d" % (pid, os.getpid()))
        os.makedirs(self.rundir, exist_ok=True)
        self.rng = random.Random("%s/%d" % (pid, seed))
        self.models = []          # exhaustive runs
        self.gens = []            # scenario generation runs
        self.kinds = collections.Counter()
        self.traces = 0
        self.tstates = self.ttrans = self.tevents = 0
        self.samples = []
        self.violations = []
        self.known = []
        self.notes = {}
        self.bins = None
        self.pool = cf.ThreadPoolExecutor(max_workers=2)
        self.pending = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def build(self, *which):
        self.bins = build.build(tuple(which))
        return self.bins

    # ------------------------------------------------------------ models
    def mc(self, *a, **kw):
        """Model checking does not depend on the code; it runs beside the replay."""
        self.pending.append(self.pool.submit(self._mc, *a, **kw))

    def _mc(self, name, module, cfg, expect_violation=False, **kw):
        r = tlc.run(self.rundir, module, cfg, **kw)
        if expect_violation:
            if not (r.violated or r.deadlock):
                raise tlc.TlcError("negative control %s was not refuted:\n%s" % (name, r.out[-3000:]))
        elif not r.ok:
            raise tlc.TlcError("model %s failed:\n%s" % (name, r.out[-5000:]))
        self.models.append({"model": name, "states": r.distinct, "transitions": r.generated, "depth": r.depth,
                            "refuted_as_intended": bool(expect_violation), "wall_s": round(r.wall, 1)})
        return r

    def gen(self, name, module, cfg, **kw):
        res, r = tlc.generate(self.rundir, module, cfg, **kw)
        self.gens.append({"model": name, "scenarios": len(res), "states": r.distinct, "transitions": r.generated, "wall_s": round(r.wall, 1)})
        if not res:
            raise tlc.TlcError("no scenarios from " + name)
        return res

    # ------------------------------------------------------------ conformance
    def conform(self, scns, module, consts="", binary="iqhost", settle=60, jobs=8, vjobs=6, max_report=3, extra=None, corrupt=None):
        """Runs scenarios and validates their traces; records violations that repeat."""
        if not scns:
            return
        by = {s.sid: s for s in scns}
        assert len(by) == len(scns)
        t = time.time()
        res, err = host.run(self.bins[binary], self.rundir, {s.sid: s.lines for s in scns}, jobs=jobs, settle=settle)
        th = time.time() - t
        traces = [s.project(*res[s.sid]) for s in scns]
        t = time.time()
        rej, st, tr, ev = tlc.validate(self.rundir, module, traces, consts, jobs=vjobs, extra=extra)
        self.notes.setdefault("timing", []).append({"scenarios": len(scns), "host_s": round(th, 1), "tlc_s": round(time.time() - t, 1)})
        self.tstates += st
        self.ttrans += tr
        self.tevents += ev
        bad = {i for i, _ in rej}
        self.traces += len(traces) - len(bad)
        for i, tr_ in enumerate(traces):
            if i not in bad:
                for e in tr_:
                    self.kinds[e["e"]] += 1
        if len(self.samples) < 5:
            for i in (0, len(scns) // 2, len(scns) - 1):
                if len(self.samples) < 5 and i not in bad:
                    self.samples.append({"sid": scns[i].sid, "script": [l[:160] for l in scns[i].lines[:30]], "trace_events": len(traces[i])})
        if corrupt and not bad:
            self.corrupted(module, traces, corrupt, consts, extra)
        for i, pos in rej:
            if len(self.violations) >= max_report:
                break
            s = scns[i]
            again = None
            for attempt in range(2):
                r2, err2 = host.run(self.bins[binary], self.rundir, {s.sid: s.lines}, jobs=1, settle=max(1500, settle * 5))
                t2 = s.project(*r2[s.sid])
                rj2 = tlc.validate(self.rundir, module, [t2], consts, jobs=1, extra=extra)[0]
                if rj2:
                    again = (t2, rj2[0][1], r2[s.sid], err2)
                    break
            if not again:
                self.notes.setdefault("not_repeated", []).append({"sid": s.sid, "event": traces[i][pos] if pos < len(traces[i]) else None})
                continue
            t2, p2, raw, err2 = again
            self.violation(s, t2, p2, raw, "".join(err2.values()) or "".join(err.values()), module)

    def corrupted(self, module, traces, corrupt, consts, extra):
        """Accepted traces, damaged: the specification has to refuse every one of them."""
        order = list(range(len(traces)))
        random.Random("corrupt/%d" % self.seed).shuffle(order)
        done = {}
        for i in order:
            for kind, t in corrupt(traces[i]).items():
                done.setdefault(kind, t)
            if len(done) >= 6:
                break
        if not done:
            raise tlc.TlcError("no trace to damage")
        names = sorted(done)
        rej = tlc.validate(self.rundir, module, [done[n] for n in names], consts, jobs=6, max_rejects=99, extra=extra, spread=1)[0]
        ok = {names[i] for i, _ in rej}
        if ok != set(names):
            raise tlc.TlcError("%s accepts damaged traces: %s" % (module, sorted(set(names) - ok)))
        self.notes["damaged_traces_refused"] = sorted(set(self.notes.get("damaged_traces_refused", [])) | ok)

    def violation(self, s, trace, pos, raw, err, module, what=None):
        os.makedirs(EVID, exist_ok=True)
        path = os.path.join(EVID, "%s-replay-%d.json" % (self.pid, len(self.violations)))
        e = trace[pos] if pos < len(trace) else {"e": "end"}
        what = what or "event %s is not allowed by %s" % (json.dumps(e)[:300], module)
        json.dump({"property": self.pid, "scenario": s.sid, "script": s.lines, "trace": trace, "rejected_at": pos, "rejected_event": e,
                   "what": what, "events": raw[0], "status": raw[1], "stderr": err[:8000], "meta": getattr(s, "meta", {})},
                  open(path, "w"), indent=1)
        self.violations.append({"scenario": s.sid, "what": what, "replay": path})

    def finish(self, level, assumptions=()):
        for f in self.pending:
            f.result()
        self.models.sort(key=lambda m: m["model"])
        cov = {"states": sum(m["states"] for m in self.models) + sum(g["states"] for g in self.gens) + self.tstates,
               "transitions": sum(m["transitions"] for m in self.models) + sum(g["transitions"] for g in self.gens) + self.ttrans,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples or [{"note": "no accepted trace"}],
               "models": self.models, "generators": self.gens,
               "trace_events_validated": self.tevents,
               "event_kinds": dict(sorted(self.kinds.items()))}
        cov.update(self.notes)
        e = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
             "wall_s": round(time.time() - self.t0, 1), "assumptions": list(assumptions), "violations": self.violations}
        os.makedirs(EVID, exist_ok=True)
        p = os.path.join(EVID, self.pid + ".json")
        json.dump(e, open(p + ".tmp", "w"), indent=1)
        os.rename(p + ".tmp", p)
        for v in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.pid, v["replay"]))
            print("  " + v["what"][:400])
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        if not self.violations:
            print("%s: held; %d traces validated, %d model states, %.1f s" % (self.pid, self.traces, cov["states"], e["wall_s"]))
        return 1 if self.violations else 0


def main(pid, fn):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(pid, tier, seed)
    keep = os.environ.get("VERIF_KEEP")
    rc = 2
    try:
        for f in os.listdir(EVID) if os.path.isdir(EVID) else []:
            if f.startswith(pid + "-replay-"):
                os.unlink(os.path.join(EVID, f))
        level, assumptions = fn(ctx)
        rc = ctx.finish(level, assumptions)
    except (build.BuildError, tlc.TlcError, host.HostError) as e:
        print("ERROR %s: %s" % (pid, e))
    except Exception:
        traceback.print_exc(file=sys.stdout)
        print("ERROR " + pid)
    finally:
        ctx.pool.shutdown(wait=True, cancel_futures=True)
        if not keep:
            shutil.rmtree(ctx.rundir, ignore_errors=True)
        else:
            print("run directory", ctx.rundir)
    sys.exit(rc)

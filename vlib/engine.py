"""What a check is made of: model checking runs, generated behaviours replayed
into the implementation, and recorded executions validated against a
specification.  A check collects what it covered and every confirmed
violation."""
import concurrent.futures as cf
import hashlib, json, os, subprocess, sys, tempfile, time, threading

from . import build, tlc

VERIF = build.VERIF
OUT = os.path.join(build.BUILD, "run")
VIOL = os.path.join(build.BUILD, "violations")
JOBS = max(1, min(8, os.cpu_count() or 1))


class FrameworkError(Exception):
    pass


class Cover:
    def __init__(self):
        self.lock = threading.Lock()
        self.mc_states = self.mc_trans = 0
        self.gen_states = 0
        self.traces = 0
        self.checks = 0
        self.samples = []
        self.parts = []
        self.failures = []
        self.exhaustive = True


class Check:
    def __init__(self, prop, tier, seed, bins):
        self.prop, self.tier, self.seed, self.bins = prop, tier, seed, bins
        self.cov = Cover()
        self.pool = cf.ThreadPoolExecutor(JOBS)
        self.pending = []
        self.quick = tier == "quick"

    # ---- model checking -------------------------------------------------
    def model(self, module, consts, label=None, workers=2, **kw):
        def job():
            r = tlc.run(module, consts, workers=workers, timeout=kw.pop("timeout", 800), **kw)
            with self.cov.lock:
                self.cov.mc_states += r.distinct
                self.cov.mc_trans += r.generated
                self.cov.parts.append({"model": label or module, "states": r.distinct, "transitions": r.generated,
                                       "depth": r.depth, "checked": list(kw.get("invariants", ())) + list(kw.get("properties", ()))})
            if r.distinct < 2:
                raise FrameworkError(f"{module}: nothing explored")
        self.pending.append(self.pool.submit(job))

    # ---- behaviours from the specification, replayed ----------------------
    def replay(self, harness, module, consts, n=None, shards=1, depth=None, label=None, invariant="Export",
               workers=1, seed0=0, timeout=800, extra_invariants=(), args=(), constraints=(), view=None, spec="Spec"):
        """n: behaviours per shard to sample; None: every behaviour of the (finite) model"""
        for k in range(shards):
            def job(k=k):
                seed = (self.seed * 1000003 + seed0 * 7919 + k * 104729 + 17) % (2 ** 31)
                tag = f"{self.prop}-{label or module}-{k}-{os.getpid()}"
                path = os.path.join(OUT, tag + ".ndjson")
                count = 0
                seen = set()
                with open(path, "w") as f:
                    def sink(t, js):
                        nonlocal count
                        if t != "B":
                            return
                        h = hash(js)
                        if h in seen:
                            return
                        seen.add(h)
                        f.write(js + "\n")
                        count += 1
                    r = tlc.run(module, consts, simulate=n, depth=depth, seed=seed, workers=workers,
                                invariants=[invariant] + list(extra_invariants), sink=sink, timeout=timeout,
                                constraints=constraints, view=view, spec=spec)
                if count == 0:
                    raise FrameworkError(f"{module}: no behaviours generated\n" + r.out[-1500:])
                self._play(harness, path, label or module, count, r, n is not None, args)
            self.pending.append(self.pool.submit(job))

    def play_lines(self, harness, lines, label, args=()):
        """behaviours given directly (one JSON text each)"""
        path = os.path.join(OUT, f"{self.prop}-{label}-{os.getpid()}.ndjson")
        with open(path, "w") as f:
            for l in lines:
                f.write(l + "\n")
        self.pending.append(self.pool.submit(lambda: self._play(harness, path, label, len(lines), None, True, args)))

    def _play(self, harness, path, label, count, tl, sampled, args=()):
        res = run_harness(self.bins[harness], path, args)
        keep = False
        with self.cov.lock:
            c = self.cov
            c.traces += res["ran"]
            c.checks += res["checks"]
            if tl is not None:
                if sampled:
                    c.gen_states += tl.generated
                    c.exhaustive = False
                else:
                    c.mc_states += tl.distinct
                    c.mc_trans += tl.generated
            c.parts.append({"replay": label, "behaviours": res["ran"], "comparisons": res["checks"],
                            "sampled": sampled, "spec_states": (tl.generated if tl else 0)})
            if len(c.samples) < 3:
                with open(path) as f:
                    c.samples.append(json.loads(f.readline()))
        if res["checks"] == 0 and not res["fail"]:
            raise FrameworkError(f"{label}: replay compared nothing")
        lines = None
        for fl in res["fail"][:40]:
            if lines is None:
                lines = open(path).read().splitlines()
            sel = lines[fl["first"]:fl["i"] + 1]
            if fl["kind"] == "harness":
                raise FrameworkError(f"harness {harness}: {fl['msg']}\n{sel[-1][:2000]}")
            with self.cov.lock:
                c.failures.append(dict(fl, harness=harness, args=list(args), label=label, behaviours=[json.loads(x) for x in sel]))
        if not keep:
            os.remove(path)

    def fail(self, harness, label, msg, behaviours, kind="mismatch", at=-1, confirmed=False, args=()):
        with self.cov.lock:
            self.cov.failures.append(dict(kind=kind, msg=msg, at=at, harness=harness, args=list(args), label=label,
                                          behaviours=behaviours, confirmed=confirmed))

    def task(self, fn, *a):
        self.pending.append(self.pool.submit(fn, *a))

    def finish(self):
        err = None
        i = 0
        while i < len(self.pending):
            try:
                self.pending[i].result()
            except Exception as e:  # keep going: a violation found elsewhere still counts
                err = err or e
            i += 1
        self.pending = []
        self.pool.shutdown(wait=False)
        return err


def run_harness(exe, path, args=(), timeout=840, sel=()):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:quarantine_size_mb=16",
               TSAN_OPTIONS="halt_on_error=1:exitcode=66")
    cmd = ["timeout", "-k", "5", str(timeout), exe] + list(args) + [path] + [str(x) for x in sel]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
    out = p.stdout.decode(errors="replace").splitlines()
    fails, summary = [], None
    for l in out:
        if not l.startswith("{"):
            continue
        d = json.loads(l)
        if "ran" in d:
            summary = d
        else:
            fails.append(d)
    if summary is None:
        raise FrameworkError(f"harness {os.path.basename(exe)} ended without a summary (status {p.returncode})\n" +
                             p.stderr.decode(errors="replace")[-2000:])
    return {"ran": summary["ran"], "checks": summary["checks"], "fail": fails}


def replay_again(bins, failure):
    """runs the failing behaviours once more in a fresh process"""
    fd, path = tempfile.mkstemp(prefix="verif_rr_", suffix=".ndjson")
    try:
        with os.fdopen(fd, "w") as f:
            for b in failure["behaviours"]:
                f.write(json.dumps(b) + "\n")
        r = run_harness(bins[failure["harness"]], path, failure.get("args", ()), sel=(0, len(failure["behaviours"]) - 1))
        return r["fail"][0] if r["fail"] else None
    finally:
        os.remove(path)


def save_violation(prop, failure):
    os.makedirs(VIOL, exist_ok=True)
    body = json.dumps(dict(failure, property=prop), indent=1)
    h = hashlib.sha1(body.encode()).hexdigest()[:10]
    path = os.path.join(VIOL, f"{prop}-{h}.json")
    with open(path, "w") as f:
        f.write(body)
    return path

"""python -m sim.check PROPERTY | --replay FILE | --determinism N [PROPERTY...]"""
import hashlib
import json
import os
import random
import select
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

from . import env
from .env import HarnessError

real_time = time.time


def prepare():
    """everything the zygotes need, once"""
    from . import core, loader, vfs
    import numpy.lib._datasource        # noqa: F401
    import numexpr, scipy.integrate, scipy.interpolate, scipy.optimize, configparser  # noqa: F401,E401
    import matplotlib.pyplot            # noqa: F401
    core.install_locks()
    vfs.install()
    loader.setup()
    core.install_monitoring()


def handler(what, arg):
    from . import engine, jobs
    if what == "run":
        return engine.run(arg)
    if what == "profile":
        return engine.run(arg, profile=True)
    if what == "answer":
        return engine.answer(arg)
    if what == "model":
        return jobs.model(*arg)
    if what == "job":
        return jobs.run(*arg)
    raise ValueError(what)


SHM = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
_scratch = None


def scratch():
    """this check's own folder; removed when the check ends"""
    global _scratch
    if _scratch is None:
        import atexit
        _scratch = tempfile.mkdtemp(prefix="cassim-", dir=SHM)
        me = os.getpid()
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True) if os.getpid() == me else None)
    return _scratch


class Lab:
    """runs scenarios and judges them; the history-free answers are remembered"""

    def __init__(self, prop):
        from . import pool
        self.prop = prop
        self.P = PROPS[prop]
        self.z = pool.Zygote(handler)
        self.memo = {}
        self.refs = 0
        self.bad_expect = False

    def ask(self, q):
        key = hashlib.sha256(json.dumps(q, sort_keys=True).encode()).digest()
        if key not in self.memo:
            if len(self.memo) > 20000:
                self.memo.clear()
            self.refs += 1
            self.memo[key] = self.z.ask("answer", q)
        return self.memo[key]

    def model(self, text, argv):
        key = (text, argv)
        if key not in self.memo:
            self.refs += 1
            self.memo[key] = self.z.ask("model", (text, list(argv)))
        return self.memo[key]

    def run(self, scn, profile=False):
        """(result, violations of the property)"""
        from . import engine, jobs
        if self.P["kind"] == "job":
            root = os.path.realpath(tempfile.mkdtemp(dir=scratch()))
            try:
                # the root must not show in the logs: always the same name inside
                d = os.path.join(root, "j")
                os.mkdir(d)
                res = self.z.ask("job", (scn, d))
            finally:
                shutil.rmtree(root, ignore_errors=True)
            exp = Expected(self)
            bad = [v for v in jobs.judge(scn, res, exp) if v["prop"] == self.prop]
        else:
            res = self.z.ask("profile" if profile else "run", scn)
            bad = [v for v in engine.judge(scn, res, self.ask) if self.P["counts"](v)]
        return res, bad


class Expected:
    def __init__(self, lab):
        self.lab = lab

    def __getitem__(self, key):
        return self.lab.model(*key)


# -- the properties ---------------------------------------------------------------
def _lib(base, n, faults=0.0, preempts=False):
    from . import gen

    def make(rng):
        return base(rng)

    def vary(rng, b, prof, k, seen):
        return gen.variants(rng, b, prof, k, faults, preempts)
    return make, vary


def _props():
    from . import gen, genjobs
    value = lambda v: v["kind"] != "input_modified"
    inputs = lambda v: v["kind"] == "input_modified"
    P = {}

    def lib(name, base, n, faults=0.0, preempts=False, counts=value, cases=400):
        make, vary = _lib(base, n, faults, preempts)
        P[name] = {"kind": "lib", "base": make, "vary": vary, "n": n if callable(n) else lambda r: n,
                   "counts": counts, "cases": cases}

    def job(name, n, cases):
        P[name] = {"kind": "job", "cases": cases, "n": lambda r: n, "base": lambda rng: genjobs.scenario(rng, name),
                   "vary": lambda rng, b, prof, k, seen: genjobs.variants(rng, b, prof, k, name, seen)}
    job("C01", 12, 550)
    job("C02", 12, 550)
    job("C03", 12, 600)
    job("C04", 6, 800)
    lib("C05", gen.history_geom, 0, cases=2400)
    lib("C06", gen.history_geom, 12, faults=1.0, cases=450)
    lib("C07", gen.threads_geom, 14, preempts=True, cases=450)
    lib("C08", lambda r: dict(gen.history_thermo(r), consistent=1), 6, faults=1.0, cases=200)
    lib("C09", lambda r: dict(gen.threads_thermo(r), consistent=1), 12, preempts=True, cases=240)

    def c10(r):
        f = r.choice([gen.history_calc, gen.history_cheap, gen.history_cheap, gen.history_cheap, gen.history_geom,
                      gen.history_thermo, gen.history_many, gen.threads_geom, lambda q: gen.history_calc(q, 2)])
        return f(r)
    lib("C10", c10, lambda r: r.choice([0, 2, 4]), faults=0.7, preempts=True, counts=inputs, cases=750)
    lib("C11", gen.slicing, lambda r: r.choice([0, 2]), faults=1.0, cases=600)

    def c12(r):
        n = r.choice([0, 1, 1, 2, 2, 3])
        return gen.history_calc(r, n) if n else gen.history_cheap(r)
    lib("C12", c12, lambda r: r.choice([0, 0, 2, 6]), faults=0.5, preempts=True, cases=1800)

    def c13(r):
        if r.random() < 0.12:
            return gen.succession(r)
        return gen.history_many(r, r.choice([1, 1, 1, 2]))
    lib("C13", c13, lambda r: r.choice([0, 3]), faults=0.3, preempts=True, cases=900)

    def c14(r):
        f = r.choice([gen.history_calc, gen.history_cheap, gen.history_geom, gen.history_geom, gen.history_thermo, gen.history_many,
                      gen.threads_geom, gen.threads_geom, gen.threads_thermo, lambda q: gen.history_calc(q, 2),
                      lambda q: gen.history_calc(q, kinds=["pfa", "pfa", "raw", "scat"])])
        return dict(f(r), caller=gen.caller(r))
    lib("C14", c14, lambda r: r.choice([2, 4, 6]), faults=0.8, preempts=True,
        counts=lambda v: v["kind"] == "process_state", cases=650)
    return P


PROPS = {}


def tidy(scn):
    """JSON round trip: what is run is exactly what a replay file can hold"""
    return json.loads(json.dumps(scn))


def case(lab, seed, idx, stats):
    """one generated history with its schedules and faults; returns a failing (scenario, violations) or None"""
    rng = random.Random("%s/%s/%s" % (seed, lab.prop, idx))
    base = tidy(lab.P["base"](rng))
    n = lab.P["n"](rng)
    res, bad = lab.run(base, profile=n > 0)
    stats.add(base, res)
    if bad:
        return base, bad
    seen = []
    for scn in lab.P["vary"](rng, base, res, n, seen) if n else ():
        scn = tidy(scn)
        r, bad = lab.run(scn)
        seen.append((scn, r))
        stats.add(scn, r)
        if bad:
            return scn, bad
    return None


class Stats:
    def __init__(self):
        self.runs = self.cases = self.points = self.switches = self.ops = self.refs = 0
        self.hashes = set()
        self.inter = set()
        self.faults = {}
        self.samples = []
        self.nontrivial = 0
        self.log = hashlib.sha256()

    def add(self, scn, res):
        self.runs += 1
        self.points += res["points"]
        self.switches += res["switches"]
        for k, n in res["faults"].items():
            self.faults[k] = self.faults.get(k, 0) + n
        self.ops += len(res["records"]) if "records" in res else len(res["jobs"])
        h = res["hash"][:16]
        self.log.update(h.encode())
        new = h not in self.hashes
        self.hashes.add(h)
        sw = [e for e in res["log"] if e[0] in ("switch", "fault")]
        if sw:
            self.inter.add(hashlib.sha256(repr(sw).encode()).hexdigest()[:16])
        hard = res["switches"] or res["faults"] or len(res.get("records", ())) > 1 or \
            len(res.get("jobs", ())) > 1 or len(res.get("initial", ())) > 1
        if new and hard:
            self.nontrivial += 1
        if len(self.samples) < 2 and new and (res["switches"] or res["faults"]):
            self.samples.append({"scenario": scn, "switches": res["switches"], "faults": res["faults"],
                                 "points": res["points"], "hash": h})

    def out(self):
        return {k: v for k, v in vars(self).items() if k != "log"}


def take(counter):
    """the next case number nobody has taken yet"""
    import fcntl
    fcntl.lockf(counter, fcntl.LOCK_EX)
    try:
        n = int.from_bytes(os.pread(counter, 8, 0), "little")
        os.pwrite(counter, (n + 1).to_bytes(8, "little"), 0)
        return n
    finally:
        fcntl.lockf(counter, fcntl.LOCK_UN)


def worker(prop, seed, counter, cases, deadline, pipe):
    """drives one zygote over its share of the cases"""
    stats = Stats()
    msg = None
    try:
        lab = Lab(prop)
        try:
            while True:
                idx = take(counter)
                if idx >= cases or time.monotonic() > deadline:
                    break
                bad = case(lab, seed, idx, stats)
                stats.cases += 1
                if bad:
                    msg = ("violation", idx, bad[0], bad[1])
                    break
            stats.refs = lab.refs
        finally:
            lab.z.stop()
        msg = msg or ("done",)
    except HarnessError as e:
        msg = ("harness", str(e))
    except BaseException:
        msg = ("harness", traceback.format_exc())
    import pickle
    data = pickle.dumps((msg, stats.out()))
    off = 0
    while off < len(data):
        off += os.write(pipe, data[off:off + 65536])
    os.close(pipe)


def sweep(prop, seed, cases, seconds, workers):
    """all cases on all cores; (violations, harness errors, merged stats)"""
    import pickle
    import signal
    deadline = time.monotonic() + seconds
    procs = {}
    counter = os.open(os.path.join(scratch(), "counter"), os.O_RDWR | os.O_CREAT)
    for w in range(workers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                os.setpgid(0, 0)
                worker(prop, seed, counter, cases, deadline, wr)
            finally:
                os._exit(0)
        os.close(wr)
        procs[r] = (pid, [])
    found, errors, parts = [], [], []
    hard = deadline + 300
    while procs:
        ready = select.select(list(procs), [], [], 5)[0]
        if time.monotonic() > hard:
            errors.append("workers did not finish in time")
            break
        for r in ready:
            b = os.read(r, 1 << 20)
            pid, buf = procs[r]
            if b:
                buf.append(b)
                continue
            os.close(r)
            del procs[r]
            os.waitpid(pid, 0)
            try:
                msg, st = pickle.loads(b"".join(buf))
            except Exception:
                errors.append("a worker died")
                continue
            parts.append(st)
            if msg[0] == "violation":
                found.append(msg[1:])
            elif msg[0] == "harness":
                errors.append(msg[1])
        if found:
            break
    for r, (pid, _) in procs.items():
        for p in (lambda: os.killpg(pid, signal.SIGKILL), lambda: os.kill(pid, signal.SIGKILL)):
            try:
                p()
            except OSError:
                pass
        os.waitpid(pid, 0)
        os.close(r)
    return sorted(found, key=lambda f: f[0]), errors, parts


# -- minimising ---------------------------------------------------------------------
def signature(v):
    return tuple(str(v.get(k)) for k in ("kind", "call", "by"))


def shrink(lab, scn, bad, seconds=90):
    end = time.monotonic() + seconds
    want = {signature(v)[0] for v in bad}
    best = scn

    def fails(s):
        if time.monotonic() > end:
            return False
        try:
            _, b = lab.run(tidy(s))
        except HarnessError:
            return False
        except Exception:
            return False
        return any(signature(v)[0] in want for v in b)

    def attempt(s):
        nonlocal best
        if fails(s):
            best = s
            return True
        return False

    def drop_op(s, t, i):
        n = json.loads(json.dumps(s))
        del n["tasks"][t][i]
        for key in ("faults", "preempt"):
            out = []
            for f in n.get(key, []):
                if f["task"] == t and f["op"] == i:
                    continue
                if f["task"] == t and f["op"] > i:
                    f["op"] -= 1
                out.append(f)
            if key in n:
                n[key] = out
        return n
    again = True
    rounds = 0
    while again and rounds < 4 and time.monotonic() < end:
        again = False
        rounds += 1
        for key in ("faults", "preempt"):
            i = 0
            while i < len(best.get(key, [])):
                n = dict(best)
                n[key] = best[key][:i] + best[key][i + 1:]
                if attempt(n):
                    again = True
                else:
                    i += 1
        for t in range(len(best["tasks"])):
            i = len(best["tasks"][t]) - 1
            while i >= 0:
                if i < len(best["tasks"][t]) and attempt(drop_op(best, t, i)):
                    again = True
                i -= 1
        if best.get("before"):
            again |= attempt(dict(best, before=[]))
        for key in ("files", "links"):
            for n_ in list(best.get(key, {})):
                again |= attempt(dict(best, **{key: {k: v for k, v in best[key].items() if k != n_}}))
        for k in ("capacity", "first", "buf"):
            if k in best and best[k] not in (None, 0, 8192):
                n = dict(best)
                n.pop(k)
                again |= attempt(n)
        for i, o in enumerate(best.get("objs", [])):
            if o.get("t") == "geom" and isinstance(o.get("lmax"), int) and o["lmax"] > 1:
                n = json.loads(json.dumps(best))
                n["objs"][i]["lmax"] = n["objs"][i]["lssmax"] = o["lmax"] - 1
                again |= attempt(n)
            if o.get("t") == "thermo" and isinstance(o["nmax"], int) and o["nmax"] > 1:
                n = json.loads(json.dumps(best))
                n["objs"][i]["nmax"] = o["nmax"] // 2
                again |= attempt(n)
        for t, ops in enumerate(best["tasks"]):
            for i, op in enumerate(ops):
                if op.get("scribble"):
                    n = json.loads(json.dumps(best))
                    n["tasks"][t][i].pop("scribble")
                    again |= attempt(n)
    if "arrays" in best:
        from . import gen
        attempt(gen.used(json.loads(json.dumps(best))))
    return best


# -- known findings -------------------------------------------------------------------
def known(prop):
    out = []
    path = os.path.join(env.VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                out.append(line.split(" ", 2)[2])
    return out


# -- commands -----------------------------------------------------------------------
TECH = "deterministic simulation with seeded schedules and fault injection"
REAL = ["CasimirRio/*.py as committed (worker, geometry, thermodynamics, scattering, stratified scattering, translation, "
        "bessel_sk, materials, PFA, raw_PFA, helpers)", "cython_gaunt and matrix_balancing compiled from the tree",
        "numpy, scipy, numexpr, configparser", "CPython threads, one released at a time"]
STUB = ["choice of running thread and of interrupts (scheduler)", "locks made by the code under test",
        "file operations pass a fault-injecting layer over a scratch directory (tmpfs)",
        "clock, process ids, temporary names and os.urandom", "standard output and error discarded"]


def run_check(prop):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    t0 = time.monotonic()
    print("property=%s seed=%d tier=%s" % (prop, seed, tier), flush=True)
    prepare()
    scratch()
    PROPS.update(_props())
    P = PROPS[prop]
    scale = float(os.environ.get("VERIF_SCALE", "1" if tier == "quick" else "40"))
    cases = max(8, int(P["cases"] * scale))
    seconds = 240 if tier == "quick" else float(os.environ.get("VERIF_SECONDS", "3000"))
    workers = int(os.environ.get("VERIF_WORKERS", str(min(8, os.cpu_count() or 1))))
    found, errors, parts = sweep(prop, seed, cases, seconds, workers)
    wall = time.monotonic() - t0
    m = merge(parts)
    if errors and not found:
        print("check error: " + errors[0], file=sys.stderr)
        return 2
    status = 0
    if found:
        idx, scn, bad = found[0]
        lab = Lab(prop)
        try:
            small = shrink(lab, scn, bad)
            res, b2 = lab.run(tidy(small))
            if not b2:
                small = scn
                res, b2 = lab.run(tidy(small))
            path = write_replay(prop, seed, idx, tidy(small), b2 or bad, res)
        finally:
            lab.z.stop()
        again = subprocess.run([sys.executable, "-m", "sim.check", "--replay", path], cwd=env.VERIF,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        for v in (b2 or bad)[:3]:
            print("  " + json.dumps(v, default=str)[:600])
        print("  seed=%d case=%d replay in a fresh process: %s" % (
            seed, idx, "reproduced" if again.returncode == 1 else "NOT reproduced"))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        status = 1
    write_evidence(prop, seed, tier, m, wall, len(found), cases, workers)
    print("%d runs of %d cases, %d distinct, %d interruption points, %d switches, faults %s, %.1f s" % (
        m["runs"], m["cases"], m["distinct"], m["points"], m["switches"], m["faults"], wall))
    if status == 0 and m["cases"] < min(cases, 8):
        print("check error: too few cases completed", file=sys.stderr)
        return 2
    return status


def merge(parts):
    m = {"runs": 0, "cases": 0, "points": 0, "switches": 0, "ops": 0, "refs": 0, "faults": {}, "samples": []}
    hashes, inter = set(), set()
    for p in parts:
        for k in ("runs", "cases", "points", "switches", "ops", "refs"):
            m[k] += p[k]
        for k, n in p["faults"].items():
            m["faults"][k] = m["faults"].get(k, 0) + n
        hashes |= p["hashes"]
        inter |= p["inter"]
        m["samples"] += p["samples"]
    m["distinct"] = len(hashes)
    m["inter"] = len(inter)
    m["nontrivial"] = min(sum(p["nontrivial"] for p in parts), len(hashes))
    m["samples"] = m["samples"][:3]
    return m


RULE = {
    "lib": "a case is a seeded history of calls on the library's objects; it is run once undisturbed and then with "
           "seeded interrupts and thread switches placed at its interruption points. Counted as distinct when the whole "
           "event log (calls, results, switches, faults) differs, and non-trivial when more than one call, a switch or "
           "a fault occurred in it",
    "job": "a case is a seeded directory, configuration and set of jobs; it is run once undisturbed and then with "
           "seeded storage faults, kills, interrupts, configuration edits and job switches. Counted as distinct when "
           "the whole event log (file operations, exits, switches, faults) differs, and non-trivial when there was "
           "more than one job, a pre-existing file, a switch or a fault"}


def write_evidence(prop, seed, tier, m, wall, nviol, planned, workers):
    P = PROPS[prop]
    cov = {"evaluations": m["runs"], "distinct_nontrivial": m["nontrivial"], "rule": RULE[P["kind"]],
           "samples": m["samples"], "cases": m["cases"], "cases_planned": planned,
           "distinct_event_logs": m["distinct"], "distinct_switch_and_fault_sequences": m["inter"],
           "operations": m["ops"], "history_free_reference_runs": m["refs"],
           "runs_per_hour": int(m["runs"] / wall * 3600), "case_seeds_per_hour": int(m["cases"] / wall * 3600),
           "simulated_steps": m["points"],
           "simulated_time": "the code has no timers; simulated time is the number of interruption points and file "
                             "operations executed (simulated_steps)",
           "faults_injected": m["faults"], "switches": m["switches"], "workers": workers,
           "real_components": REAL, "stubbed_components": STUB}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["interrupts and thread switches happen where CPython 3.12 looks for them in repository code, "
                          "and before calls; C library calls are atomic",
                          "a process crash loses what the process held in memory; what was handed to the operating "
                          "system stays"],
          "wall_s": round(wall, 2), "violations": nviol}
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(env.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


def write_replay(prop, seed, idx, scn, bad, res):
    d = os.path.join(env.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    text = json.dumps(scn, sort_keys=True)
    path = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha256(text.encode()).hexdigest()[:12]))
    with open(path, "w") as f:
        json.dump({"property": prop, "seed": seed, "case": idx, "violations": bad, "event_log_hash": res["hash"],
                   "scenario": scn, "event_log": [list(e) for e in res["log"]][:400]}, f, indent=1, default=str)
    return path


def replay(path):
    with open(path) as f:
        d = json.load(f)
    prepare()
    scratch()
    PROPS.update(_props())
    lab = Lab(d["property"])
    try:
        res, bad = lab.run(d["scenario"])
    finally:
        lab.z.stop()
    print("event log %s the recorded one" % ("equals" if res["hash"] == d["event_log_hash"] else "DIFFERS from"))
    for v in bad[:5]:
        print("  " + json.dumps(v, default=str)[:600])
    if bad:
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    print("no violation")
    return 0


def hashes(prop, seed, n):
    """event-log hashes of n cases, for comparing processes with each other"""
    prepare()
    scratch()
    PROPS.update(_props())
    lab = Lab(prop)
    try:
        for idx in range(n):
            st = Stats()
            bad = case(lab, seed, idx, st)
            print(prop, seed, idx, st.runs, st.log.hexdigest()[:16], bool(bad), flush=True)
    finally:
        lab.z.stop()
    return 0


def main(argv):
    try:
        if argv[:1] == ["--replay"]:
            return replay(argv[1])
        if argv[:1] == ["--hashes"]:
            return hashes(argv[1], int(argv[2]), int(argv[3]))
        return run_check(argv[0])
    except HarnessError as e:
        print("check error: %s" % e, file=sys.stderr)
        return 2


if __name__ == "__main__":
    # run as the importable module, so that there is one copy of everything
    from sim import check
    sys.exit(check.main(sys.argv[1:]))

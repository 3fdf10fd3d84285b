"""Whole jobs: the real worker.py as simulated processes over the simulated directory.

A scenario is plain JSON:
  files    what the directory holds at the start {name: text};  links {name: target}
  configs  versions of the configuration file: configs[0] is there at the start under cfg
  tasks    per simulated machine slot, the jobs to run one after another:
           {"argv": [config, output(, distance)]}
  faults   [{task, op, io, act, ...}] at file operations, [{task, op, point, exc}] in the computation
  preempt  [{task, op, point, to}] or [{task, op, io, to}]
  capacity bytes the disk can still take;  buf: buffer size;  first: task to start
"""
import configparser
import gc
import os
import re
import sys

import numpy as np

from . import core, engine, loader, vfs


# -- the reference model ------------------------------------------------------
def model(text, argv):
    """what a job with this configuration text and these arguments has to produce:
       ("ok", header lines, rows as a list of lists) or ("exc", why)"""
    engine.quiet()
    try:
        if len(argv) not in (2, 3):
            raise ValueError("arguments")
        cfg = configparser.RawConfigParser()
        if text is not None:
            cfg.read_string(text)
        mods = loader.ModuleSet()
        materials = mods.load("materials")

        def number_or_word(sec, opt):
            raw = cfg.get(sec, opt)
            try:
                return int(raw)
            except ValueError:
                return raw

        def radius(opt):
            raw = cfg.get("geometry", opt)
            try:
                return float(raw)
            except ValueError:
                return [float(x) for x in raw.split(",")]

        def material(opt):
            v = eval(cfg.get("materials", opt), {"materials": materials})
            return list(v) if isinstance(v, tuple) else v

        r1, r2 = radius("ra"), radius("rb")
        dist = float(argv[2]) if len(argv) == 3 else cfg.getfloat("geometry", "d")
        precision = cfg.getfloat("geometry", "precision")
        lmax, lssmax = number_or_word("geometry", "lmax"), number_or_word("geometry", "lssmax")
        offset = cfg.getint("geometry", "l_offset") if cfg.has_option("geometry", "l_offset") else 0
        if not isinstance(lmax, int):
            cfg.get("geometry", "l_offset")         # not optional then
        evaluation = cfg.get("geometry", "evaluation") if cfg.has_option("geometry", "evaluation") else "lndet"
        cfg.get("geometry", "analytic_n0")
        m1, m2, m3 = material("mata"), material("matb"), material("matmd")
        shown1 = list(r1) if isinstance(r1, list) else r1
        shown2 = list(r2) if isinstance(r2, list) else r2
        geom = mods.load("geometry").SphereSphere(
            r1, r2, dist, m1, m2, m3, lmax=lmax, l_offset=offset, lssmax=lssmax,
            precision=precision, forceFlag=0, evaluation=evaluation)
        td = mods.load("thermodynamics").finiteT(
            cfg.getfloat("thermodynamics", "Tmin"), number_or_word("thermodynamics", "nmax"),
            cfg.getfloat("thermodynamics", "Tmax"), geom,
            not (isinstance(r1, list) or isinstance(r2, list)))
        quantity = cfg.get("thermodynamics", "quantity")
        result = np.asarray(eval("f." + quantity, {"f": td}), dtype=float)
        if result.ndim not in (1, 2):
            raise ValueError("cannot be tabulated")
        rows = result.reshape(len(result), -1).tolist()
        head = ["# information on job: %s" % argv[0],
                "# r1 = %s, r2 = %s, d = %s" % (shown1, shown2, dist),
                "# mat1 = %s, mat2 = %s, matMd = %s" % tuple(cfg.get("materials", o) for o in ("mata", "matb", "matmd")),
                "# lmax = %i, l_offset = %i, lssmax = %i, nmax = %i, deltaT= %.4f, Tmax = %.4f"
                % (geom.lmax, geom.l_offset, geom.lssmax, td.nmax, td.deltaT, td.Tmax),
                "# calculated quantity: %s" % quantity,
                "# type of evaluation: %s" % evaluation,
                "# precision: %s" % precision]
        if evaluation == "trace":
            head += ["# order of the trace expansion (number of round-trips) for various m-subspaces.",
                     "# The Format is: m-subspace: order", "# %s" % str(geom.roundTrip_dct)]
        return ("ok", head, rows)
    except Exception as e:
        return ("exc", type(e).__name__)


def parse(data):
    """(header lines, rows) of a result file, or None if it is not whole lines of that form"""
    if not isinstance(data, bytes) or not data.endswith(b"\n"):
        return None
    head, rows = [], []
    try:
        for line in data.decode().splitlines():
            if line.startswith("#"):
                if rows:
                    return None
                head.append(line)
            else:
                rows.append([float(x) for x in line.split(",")])
    except ValueError:
        return None
    return head, rows


def squeeze(lines):
    return [re.sub(r"\s+", " ", x).strip() for x in lines]


def complete(data, exp):
    """every header line and every row the job owes, whatever the numbers are"""
    p = parse(data)
    if p is None or exp[0] != "ok":
        return False
    return len(p[0]) == len(exp[1]) and [len(r) for r in p[1]] == [len(r) for r in exp[2]]


def content_error(data, exp):
    p = parse(data)
    if p is None:
        return "not a complete result"
    for got, want in zip(squeeze(p[0]), squeeze(exp[1])):
        if got != want:
            return "header line %r instead of %r" % (got, want)
    if len(p[0]) != len(exp[1]):
        return "%d header lines instead of %d" % (len(p[0]), len(exp[1]))
    if len(p[1]) != len(exp[2]):
        return "%d rows instead of %d" % (len(p[1]), len(exp[2]))
    if not engine.same(np.array(p[1]), np.array(exp[2]), 1e-12, 1e-14, 1e-16):
        return "rows differ from the library's values"
    return None


def family(name, out):
    """is name the requested result name, or that name with 1s appended?"""
    return name.startswith(out) and set(name[len(out):]) <= {"1"}


# -- a run ----------------------------------------------------------------------
def run(scn, root, profile=False):
    engine.quiet()
    gc.collect()
    gc.disable()
    os.chdir(root)
    os.environ["TMPDIR"] = root
    sim = core.Sim(budget=scn.get("budget", 3000000))
    for n, text in scn["files"].items():
        if "/" in n:
            os.makedirs(os.path.join(root, os.path.dirname(n)), exist_ok=True)
        with vfs.real["open"](os.path.join(root, n), "wb") as f:
            f.write(text.encode("latin-1"))
    for n, target in scn.get("links", {}).items():
        os.symlink(target, os.path.join(root, n))
    cfgname = scn["cfg"]
    version = [0]

    def put_config(v):
        version[0] = v
        tmp = os.path.join(root, ".edit")
        with vfs.real["open"](tmp, "wb") as f:
            f.write(scn["configs"][v].encode("latin-1"))
        vfs.real["rename"](tmp, os.path.join(root, cfgname))
    if scn["configs"]:
        put_config(0)
    v = vfs.Vfs(root, sim, scn.get("capacity"), scn.get("buf", 8192))
    v.edit = put_config
    initial = dict(v.last)
    jobs = {}

    def on_read(t, name):
        j = jobs.get((t.tid, t.op))
        if j is not None and name == cfgname and j["version"] is None:
            j["version"] = version[0]
    v.on_read = on_read

    points, ios = {}, {}
    for f in scn.get("faults", []) + [dict(p, exc=None) for p in scn.get("preempt", [])]:
        key = (f["task"], f["op"])
        if "io" in f:
            a = dict(f)
            if "to" in f:
                a["act"] = f.get("act", "to")
            ios.setdefault(key, {}).setdefault(f["io"], []).append(a)
        elif f.get("exc"):
            points.setdefault(key, {}).setdefault(f["point"], []).append({"exc": f["exc"]})
        else:
            points.setdefault(key, {}).setdefault(f["point"], []).append({"to": f["to"]})

    def body(js):
        def go(t):
            for i, job in enumerate(js):
                t.dead = False
                t.io = 0
                t.sticky = None
                if job.get("free") is not None:     # somebody made room on the disk
                    v.capacity = None
                sim.begin_op(t, i, points.get((t.tid, i), {}))
                t.io_special = dict(ios.get((t.tid, i), {}))
                rec = {"version": None, "argv": job["argv"], "status": None, "fired": t.fired}
                jobs[(t.tid, i)] = rec
                argv = [os.path.join(loader.env.SRC, "worker.py")] + list(job["argv"])

                def arrive():
                    sys.argv = argv
                t.on_switch_in = arrive
                arrive()
                mods = loader.ModuleSet()
                try:
                    mods.run_main("worker")
                    rec["status"] = 0
                except (core.StepBudget, core.Deadlock):
                    raise
                except core.Killed:
                    rec["status"] = "killed"
                except SystemExit as e:
                    c = e.code
                    rec["status"] = 0 if c is None else (c if isinstance(c, int) else 1)
                except BaseException as e:
                    rec["status"] = 1
                    rec["error"] = "%s: %s" % (type(e).__name__, e)
                    e.__traceback__ = None
                    e.__context__ = e.__cause__ = None
                    del e
                # what an interpreter does on its way out: drop everything, flush what is open
                try:
                    mods.mods.clear()
                    mods = None
                    gc.collect()
                except core.Killed:
                    rec["status"] = "killed"
                if t.dead:
                    rec["status"] = "killed"
                rec["points"], rec["ios"] = t.point, t.io
                sim.end_op(t)
                sim.note("exit", t.tid, i, rec["status"])
                v.observe(t, "exit")
        return go

    for js in scn["tasks"]:
        sim.add(body(js))
    vfs.CUR = v
    try:
        sim.run(scn.get("first", 0))
    finally:
        vfs.CUR = None
    return {"jobs": jobs, "history": v.history, "initial": initial, "final": v.last, "violations": sim.violations,
            "hash": sim.hash.hexdigest(), "points": sim.total_points, "switches": sim.switches,
            "faults": sim.fault_counts, "ops": v.ops, "log": sim.log,
            "prof_n": {k: r.get("points", 0) for k, r in jobs.items()}}


# -- judging a recorded run -------------------------------------------------------
def expectations(scn):
    """every (text, argv) the judge may need"""
    out = set()
    texts = list(scn["configs"])
    for js in scn["tasks"]:
        for j in js:
            for t in texts + [None]:
                out.add((t, tuple(j["argv"])))
    return out


def judge(scn, res, expected):
    """violations, each tagged with the property it breaks"""
    out = []
    for v in res["violations"]:
        out.append(dict(v, prop="C03"))
    cfg = scn["cfg"]
    state = dict(res["initial"])
    owner = {}
    jobs = res["jobs"]
    links = {n for n, d in res["initial"].items() if isinstance(d, tuple)}

    def exp(key):
        j = jobs[key]
        v = j["version"]
        text = None
        if scn["configs"] and j["argv"] and j["argv"][0] == cfg and v is not None:
            text = scn["configs"][v]
        return expected[(text if text is not None else None, tuple(j["argv"]))]

    made = {}           # job -> names it brought into being
    for tid, op, io, kind, diff in res["history"]:
        key = (tid, op)
        j = jobs[key]
        outname = os.path.normpath(j["argv"][1]) if len(j["argv"]) > 1 else None
        for name in sorted(diff):
            data = diff[name]
            if name == ".edit":
                continue
            before = state.get(name)
            if before is None:
                if data is not None:
                    owner[name] = key
                    made.setdefault(key, set()).add(name)
            elif owner.get(name) != key:
                out.append({"prop": "C02", "kind": "removed" if data is None else "altered", "file": name,
                            "task": tid, "op": op, "io": io, "by": kind})
            if data is None:
                owner.pop(name, None)
                made.get(key, set()).discard(name)
            if data is not None and owner.get(name) == key and outname and family(name, outname):
                if data != b"" and not complete(data, exp(key)):
                    out.append({"prop": "C01", "kind": "partial", "file": name, "task": tid, "op": op, "io": io,
                                "by": kind, "bytes": len(data) if isinstance(data, bytes) else str(data)})
            if data is None:
                state.pop(name, None)
            else:
                state[name] = data
    for key in sorted(jobs):
        j = jobs[key]
        if j["status"] is None:
            continue
        e = exp(key)
        outname = os.path.normpath(j["argv"][1]) if len(j["argv"]) > 1 else None
        mine = sorted(n for n in made.get(key, ()) if outname and family(n, outname) and owner.get(n) == key)
        whole = [n for n in mine if complete(state[n], e)]
        base = {"task": key[0], "op": key[1]}
        if j["status"] == 0:
            if e[0] != "ok":
                out.append(dict(base, prop="C03", kind="success_without_result", why="the job cannot be computed"))
            elif len(whole) != 1:
                out.append(dict(base, prop="C03", kind="exit0_files", complete=whole, made=mine))
            elif any(state[n] != b"" for n in mine if n not in whole):
                out.append(dict(base, prop="C03", kind="exit0_extra", made=mine))
        else:
            soft = set(j["fired"]) & {"kill", "KeyboardInterrupt", "TimeoutError"}
            if not soft and [n for n in mine if state[n] != b""]:
                out.append(dict(base, prop="C03", kind="failure_with_result", made=mine, error=j.get("error")))
            if len(whole) > 1:
                out.append(dict(base, prop="C03", kind="more_than_one", made=mine))
            if not j["fired"] and e[0] == "ok" and outname and creatable(outname, scn):
                out.append(dict(base, prop="C03", kind="no_success_without_fault", error=j.get("error"),
                                status=j["status"]))
        for n in whole:
            err = content_error(state[n], e)
            if err:
                out.append(dict(base, prop="C04", kind="content", file=n, what=err))
        if e[0] == "ok" and j["status"] == 0 and not whole:
            for n in mine:
                if state[n] != b"":
                    out.append(dict(base, prop="C04", kind="content", file=n, what=content_error(state[n], e)))
    return out


def creatable(outname, scn):
    return "/" not in outname or any(n.startswith(os.path.dirname(outname) + "/") for n in scn["files"])

"""Scenarios on the library's objects: histories, interrupts and threads.

A scenario is plain JSON:
  objs    specifications of library objects (built on first use)
  arrays  the caller's frequency arrays;  lists  the caller's radius and material lists;
  mats    user-defined materials
  tasks   per thread, the operations to perform in order
  faults  [{task, op, point, exc}]   preempt [{task, op, point, to}]   first: task to start
The run is executed in a forked child of a process that has done nothing but import
the library; the expected outcome of each operation comes from another such child
that builds the object anew and makes just this call.
"""
import gc
import io
import itertools
import json
import sys
import types
import warnings

import numpy as np

from . import core, loader

ARRAY_ATTR = "__sim_array__"


# -- building ---------------------------------------------------------------
class World:
    """the objects of one run"""

    def __init__(self, scn, mods=None):
        self.scn = scn
        self.mods = mods or loader.ModuleSet()
        self.arrays = {n: np.array(v, dtype=float) for n, v in scn.get("arrays", {}).items()}
        self.script = {n: np.array(v, dtype=float) for n, v in scn.get("arrays", {}).items()}
        self.mats = {}
        self.pinned = {}
        self.freed = set()      # addresses of objects the caller has let go of
        self.lists = {}         # what the caller handed over
        self.list_script = {}   # and what it should still be
        for n, v in scn.get("lists", {}).items():
            self.lists[n] = [self.value(x) for x in v]
            self.list_script[n] = deep(self.lists[n])
        self.objs = {}
        self.evals = []
        self.depth = 0
        self.pinned = self.mat_snapshot()

    def mod(self, name):
        return self.mods.load(name)

    def material(self, name):
        if name in self.scn.get("mats", {}):
            if name not in self.mats:
                d = self.scn["mats"][name]
                cls = getattr(self.mod("materials"), d.get("cls", "LorentzMaterial"))
                osc = [tuple(x) for x in d["e"]]
                self.lists["oscillators of %s" % name] = osc
                self.list_script["oscillators of %s" % name] = list(osc)
                self.mats[name] = self.make(cls, osc, tuple(d["b"]))
                if "name" in d:
                    self.mats[name].name = d["name"]
                self.pinned["user:" + name] = self.described(self.mats[name])
            return self.mats[name]
        return getattr(self.mod("materials"), name)

    def make(self, cls, *a, **kw):
        """a new object; the allocator hands out the address of one that is gone where it can"""
        if not self.freed or not isinstance(cls, type) or cls.__new__ is not object.__new__:
            return cls(*a, **kw)
        spare = []
        for _ in range(300):
            o = cls.__new__(cls)
            if id(o) in self.freed:
                break
            spare.append(o)
        o.__init__(*a, **kw)
        return o

    def value(self, v):
        if isinstance(v, str) and v.startswith("mat:"):
            return self.material(v[4:])
        if isinstance(v, dict):
            if "arr" in v:
                return self.arrays[v["arr"]]
            if "list" in v:
                return self.lists[v["list"]]
            if "nd" in v:
                return np.array(v["nd"], dtype=float)
            if "inf" in v:
                return np.inf
            if "fn" in v:
                return getattr(self.mod("helper_functions"), v["fn"])
        if isinstance(v, list):
            return [self.value(x) for x in v]
        return v

    def obj(self, i):
        if i not in self.objs:
            self.objs[i] = self.build(self.scn["objs"][i])
        return self.objs[i]

    def build(self, s):
        t = s["t"]
        v = self.value
        if t == "geom":
            kw = {k: v(s[k]) for k in ("lmax", "l_offset", "lssmax", "precision", "evaluation") if k in s}
            return self.make(self.mod("geometry").SphereSphere, v(s["r1"]), v(s["r2"]), v(s["L"]), v(s["mat1"]),
                             v(s["mat2"]), v(s["mat3"]), **kw)
        if t == "thermo":
            g = self.obj(s["geom"]) if isinstance(s["geom"], int) else self.build(s["geom"])
            if self.scn.get("record"):
                self.watch(g)
            return self.mod("thermodynamics").finiteT(s["deltaT"], s["nmax"], s["Tmax"], g,
                                                      s.get("analytic_n0", True))
        if t == "pfa":
            return self.mod(s.get("mod", "PFA")).SphereSpherePFA(*[v(m) for m in s["mats"]])
        if t == "scat":
            return self.mod("scattering").scattering(v(s["mats"][0]), v(s["mats"][1]))
        if t == "coated":
            return self.mod("scattering").coated_miescattering(*[v(m) for m in s["mats"]])
        if t == "strat":
            return self.mod("stratified_sphere_scattering").StratifiedMieScattering(v(s["mats"]), v(s["radii"]))
        if t == "trans":
            return self.mod("translation").translation(s["lmax"], s["lssmax"], s["m"], v(s["mat"]), s["L"],
                                                       v(s["k"]), s["ext"])
        if t == "mat":
            return v(s["mat"])
        if t == "interp":
            return self.mod("data_inter_extrapolation").data_interp_extrap(v(s["x"]), v(s["y"]))
        if t == "mod":
            if s["name"] in loader.CODES:
                return self.mod(s["name"])
            return __import__(s["name"])
        raise ValueError(t)

    def watch(self, g):
        """note which frequencies are evaluated (outermost calls only)"""
        inner = g.mSumme

        def mSumme(k, *a, **kw):
            if not self.depth:
                self.evals.append(np.array(k, dtype=float).tolist())
            self.depth += 1
            try:
                return inner(k, *a, **kw)
            finally:
                self.depth -= 1
        g.mSumme = mSumme

    def drop(self, i):
        """the caller lets go of an object, and of the materials it alone was made of"""
        self.freed.add(id(self.objs.pop(i, None)))
        text = json.dumps([[self.scn["objs"][j] for j in self.objs], self.scn.get("lists", {}), self.scn["tasks"]])
        for n in list(self.mats):
            if '"mat:%s"' % n not in text:
                self.freed.add(id(self.mats.pop(n)))
                for d in (self.lists, self.list_script):
                    d.pop("oscillators of %s" % n, None)
                self.pinned.pop("user:" + n, None)

    # -- the caller's own things -----------------------------------------
    def described(self, x):
        # objects may fill in private memory of their own; what describes the material is pinned
        return repr(sorted((k, z) for k, z in vars(x).items() if k in (
            "e_properties", "b_properties", "omega_norm", "is_sigma_finite", "is_magnetic",
            "is_dielectric", "name", "is_perfect_conductor")))

    def mat_snapshot(self):
        m = self.mod("materials")
        out = {}
        for n, x in list(vars(m).items()) + [("user:" + k, x) for k, x in self.mats.items()]:
            if n.startswith("__"):
                continue
            if isinstance(x, m.Material):
                out[n] = self.described(x)
            elif isinstance(x, (list, tuple)) and n.startswith(("e_", "b_")):
                out[n] = repr(x)
        return out

    def inputs_changed(self):
        """names of caller-owned inputs that differ from what the caller put there"""
        bad = []
        for n, a in self.arrays.items():
            s = self.script[n]
            if a.shape != s.shape or a.dtype != s.dtype or a.tobytes() != s.tobytes():
                bad.append("array %s" % n)
        for n, l in self.lists.items():
            if not unchanged(l, self.list_script[n]):
                bad.append("list %s" % n)
        now = self.mat_snapshot()
        for n, r in self.pinned.items():
            if now.get(n) != r:
                bad.append("material %s" % n)
        return bad


def deep(l):
    return [deep(x) if isinstance(x, list) else x for x in l]


def unchanged(a, b):
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(unchanged(x, y) for x, y in zip(a, b))
    return a is b or (type(a) is type(b) and isinstance(a, (int, float, str)) and a == b)


def freeze(v):
    """a copy of a result that later writes cannot reach"""
    if isinstance(v, np.ndarray):
        return np.array(v)
    if isinstance(v, (list, tuple)):
        return [freeze(x) for x in v]
    if isinstance(v, dict):
        return {k: freeze(x) for k, x in v.items()}
    if isinstance(v, (int, float, str, bool, type(None), np.generic)):
        return v
    return "<%s>" % type(v).__name__


def scribble(v, own):
    """overwrite a result, as its owner may; not where it is one of the caller's other arrays"""
    if isinstance(v, np.ndarray):
        if v.flags.writeable and v.dtype.kind == "f" and not any(np.may_share_memory(v, a) for a in own):
            v[...] = -7.25e11
    elif isinstance(v, (list, tuple)):
        for x in v:
            scribble(x, own)


def slice_terms(op, n):
    """terms of the sums a division of the work may meet"""
    f = op.get("fn", "line")
    if f == "decay":
        return 5.0 * np.exp(-1.5 * n)
    if f == "signs":
        return np.where(n % 3 == 0, 0.0, (-1.0) ** n * (n + 0.5))
    if f == "late":
        return np.where(n < 4, 0.0, 1.0 * n)
    return 3.0 * n + 1


def perform(world, op):
    if "slicewise" in op:
        counts = {}

        def func(x):
            for n in x.tolist():
                counts[n] = counts.get(n, 0) + 1
                if n == op.get("fail"):
                    raise ArithmeticError("slice fails")
            return slice_terms(op, x)
        r = world.mod("thermodynamics").slicewise_eval(func, *op["slicewise"])
        return [r, [[n, counts[n]] for n in sorted(counts)]]
    o = world.obj(op["o"])
    c = op["c"]
    if c == "attrs":
        return [getattr(o, a, None) if not isinstance(getattr(o, a, None), list) else list(getattr(o, a))
                for a in op["a"]]
    args = [world.value(x) for x in op.get("a", [])]
    kw = {k: world.value(x) for k, x in op.get("kw", {}).items()}
    r = getattr(o, c)(*args, **kw)
    return getattr(r, op["of"]) if "of" in op else r


def process_state():
    """what code elsewhere in the process relies on"""
    import locale
    import logging
    import os
    import random
    import signal
    import threading
    import warnings
    import numexpr
    import scipy.special
    po = np.get_printoptions()
    return {"numpy error handling": sorted(np.geterr().items()), "numpy error callback": np.geterrcall(),
            "numpy print options": sorted((k, repr(v)) for k, v in po.items()),
            "numpy buffer size": np.getbufsize(),
            "numpy random state": repr(np.random.get_state()[1:]) if np.random.mtrand._rand else None,
            "random state": hash(random.getstate()),
            "warning filters": [repr(f) for f in warnings.filters], "showwarning": warnings.showwarning,
            "working directory": os.getcwd(), "environment": sorted(os.environ.items()),
            "module search path": list(sys.path), "arguments": list(sys.argv),
            "recursion limit": sys.getrecursionlimit(), "switch interval": sys.getswitchinterval(),
            "standard streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
            "locale": locale.setlocale(locale.LC_ALL), "garbage collector": (gc.isenabled(), gc.get_threshold()),
            "signal handlers": [signal.getsignal(n) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)],
            "excepthook": (sys.excepthook, threading.excepthook), "trace": sys.gettrace(),
            "numexpr threads": numexpr.get_num_threads(), "scipy error handling": sorted(scipy.special.geterr().items()),
            "logging": (logging.root.level, logging.root.manager.disable, len(logging.root.handlers))}


PER_THREAD = ("numpy error handling", "numpy error callback", "numpy buffer size")


def prepare_caller(g, thread=False):
    """settings of the caller's own; those of numpy's arithmetic belong to the calling thread"""
    if g.get("err"):
        np.seterr(**g["err"])
    if not g or thread:
        return
    # a filter of the caller's own in front; what else is warned of goes to a stream of the run
    warnings.resetwarnings()
    warnings.filterwarnings("ignore", message="of no interest to this caller")
    if g.get("print"):
        np.set_printoptions(**g["print"])
    if g.get("threads"):
        import numexpr
        numexpr.set_num_threads(g["threads"])


def outcome(f):
    try:
        return ("ok", f())
    except (core.Killed, core.StepBudget, core.Deadlock):
        raise
    except BaseException as e:
        return ("exc", type(e).__name__)


# -- a run ------------------------------------------------------------------
def run(scn, profile=False):
    quiet()
    gc.collect()
    gc.disable()
    w = World(scn)
    sim = core.Sim(budget=scn.get("budget", 4000000))
    records = []
    scripts = {}

    special = {}
    for f in scn.get("faults", []):
        special.setdefault((f["task"], f["op"]), {}).setdefault(f["point"], []).append({"exc": f["exc"]})
    for p in scn.get("preempt", []):
        special.setdefault((p["task"], p["op"]), {}).setdefault(p["point"], []).append({"to": p["to"]})

    def check_inputs(when):
        for b in w.inputs_changed():
            sim.violation("input_modified", what=b, when=when)

    running = [0]           # calls in progress in any thread
    pinned = {}

    def pin(tid):
        if scn.get("caller") is not None:
            now = process_state()
            for k, v in now.items():
                pinned.setdefault((tid if k in PER_THREAD else None, k), v)

    def check_process(t, when):
        if scn.get("caller") is None:
            return
        now = process_state()
        for k, v in now.items():
            own = k in PER_THREAD
            if (own or not running[0]) and v != pinned[(t.tid if own else None, k)]:
                sim.violation("process_state", what=k, now=repr(v)[:200], when=when)

    def body(ops):
        def go(t):
            prepare_caller(scn.get("caller") or {}, thread=True)
            pin(t.tid)
            for i, op in enumerate(ops):
                if "set" in op:
                    w.arrays[op["set"]][...] = op["v"]
                    w.script[op["set"]][...] = op["v"]
                    continue
                if "new" in op:
                    w.arrays[op["new"]] = np.array(op["v"], dtype=float)
                    w.script[op["new"]] = np.array(op["v"], dtype=float)
                    continue
                if "drop" in op:
                    w.drop(op["drop"])
                    gc.collect()
                    continue
                sim.begin_op(t, i, special.get((t.tid, i), {}))
                w.evals.clear()
                w.depth = 0
                res = None
                running[0] += 1
                try:
                    res = perform(w, op)
                    out = ("ok", freeze(res))
                except (core.Killed, core.StepBudget, core.Deadlock):
                    raise
                except BaseException as e:
                    out = ("exc", type(e).__name__)
                    e.__traceback__ = None
                finally:
                    sim.end_op(t)
                    running[0] -= 1
                check_process(t, {"task": t.tid, "op": i})
                records.append({"task": t.tid, "op": i, "fired": list(t.fired), "out": out})
                if scn.get("record"):
                    records[-1]["evals"] = list(w.evals)
                sim.note("op", t.tid, i, tuple(t.fired), out[0], digest(out[1]))
                if op.get("scribble") and out[0] == "ok":
                    scribble(res, w.arrays.values())
                check_inputs({"task": t.tid, "op": i})
        return go

    for ops in scn["tasks"]:
        sim.add(body(ops))
    prepare_caller(scn.get("caller") or {})
    pin(None)
    if len(scn["tasks"]) > 1:           # shared objects exist before the threads start
        for i in range(len(scn["objs"])):
            outcome(lambda: w.obj(i))
        for op in scn.get("before", []):
            outcome(lambda: perform(w, op))
    if len(scn["tasks"]) > 1:
        sim.at_switch = lambda: check_inputs("switch")
    if profile:
        containers = []
        for m in w.mods.mods.values():
            for v in vars(m).values():
                if isinstance(v, (dict, list)):
                    containers.append(v)
                elif isinstance(v, type) and v.__module__ == m.__name__:
                    containers.extend(x for x in vars(v).values() if isinstance(x, (dict, list)))

        simple = (int, float, str, tuple, type(None), np.ndarray)
        loose = [(vars(m), k) for m in w.mods.mods.values() for k, v in vars(m).items()
                 if isinstance(v, simple) and not k.startswith("__")]
        text = json.dumps(scn)
        mats = [x for n, x in vars(w.mod("materials")).items() if '"mat:%s"' % n in text
                and isinstance(x, w.mod("materials").Material)] + list(w.mats.values())

        owners = [o.__dict__ for o in mats]
        memo = {"ids": None, "arrs": [], "conts": []}
        caller = scn.get("caller") is not None
        import numexpr

        def fp():
            """what objects and modules hold at this point; contents of what is small"""
            refs = [d.get(k) for d, k in loose]
            for d in owners:
                refs += d.values()
            for o in list(w.objs.values()):
                if not isinstance(o, types.ModuleType):
                    refs += getattr(o, "__dict__", {}).values()
            ids = list(map(id, refs))
            if ids != memo["ids"]:
                memo.update(ids=ids, refs=refs, conts=[v for v in refs if isinstance(v, (list, tuple, dict))],
                            arrs=[v for v in refs if isinstance(v, np.ndarray) and v.size <= 32])
            inner = []
            for v in memo["conts"]:
                n = len(v)
                if n <= 8:
                    inner += v.values() if isinstance(v, dict) else v
                else:
                    inner += itertools.islice(v.values() if isinstance(v, dict) else v, 8)
            iids = list(map(id, inner))
            if iids != memo.get("iids"):
                memo.update(iids=iids, inner=inner,
                            iarrs=[v for v in inner if isinstance(v, np.ndarray) and v.size <= 32])
            now = (ids, iids, [len(c) for c in containers], [len(c) for c in memo["conts"]],
                   [a.tobytes() for a in memo["arrs"]], [a.tobytes() for a in memo["iarrs"]])
            if caller:
                now += (list(np.core.umath.geterrobj()[:2]),
                        len(warnings.filters), id(warnings.filters), gc.isenabled(), numexpr.get_num_threads(), np.core.arrayprint._format_options["precision"])
            return now
        sim.profile = fp
    sim.run(scn.get("first", 0))
    return {"records": records, "violations": sim.violations, "hash": sim.hash.hexdigest(),
            "points": sim.total_points, "switches": sim.switches, "faults": sim.fault_counts,
            "prof_n": sim.prof_n, "prof_hot": sim.prof_hot,
            "log": sim.log, "budget": sim.budget}


def digest(v):
    """short deterministic description of a result, for the event log"""
    if isinstance(v, np.ndarray):
        import hashlib
        return "%s:%s" % (v.shape, hashlib.sha256(np.ascontiguousarray(v).tobytes()).hexdigest()[:12])
    if isinstance(v, list):
        return [digest(x) for x in v]
    return repr(v)


def quiet():
    import os
    import warnings
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    sys.stdout = io.StringIO()
    sys.stderr = io.StringIO()


# -- expected outcomes --------------------------------------------------------
def inline(scn, s, arrays):
    """a value or spec with every reference replaced by what it refers to"""
    if isinstance(s, dict):
        if "arr" in s:
            return {"nd": list(arrays[s["arr"]])}
        if "list" in s:
            return inline(scn, scn["lists"][s["list"]], arrays)
        return {k: inline(scn, v, arrays) for k, v in s.items()}
    if isinstance(s, list):
        return [inline(scn, x, arrays) for x in s]
    return s


def queries(scn):
    """{(task, op): query} - what each operation asks, free of history"""
    out = {}
    for t, ops in enumerate(scn["tasks"]):
        arrays = {n: list(v) for n, v in scn.get("arrays", {}).items()}
        for i, op in enumerate(ops):
            if "set" in op:
                arrays[op["set"]] = [op["v"]] * len(arrays[op["set"]]) if not isinstance(op["v"], list) else list(op["v"])
                continue
            if "new" in op:
                arrays[op["new"]] = list(op["v"])
                continue
            if "drop" in op or "slicewise" in op:
                continue
            spec = dict(scn["objs"][op["o"]])
            if spec["t"] == "thermo" and isinstance(spec["geom"], int):
                spec["geom"] = scn["objs"][spec["geom"]]
            q = {"mats": {}, "obj": inline(scn, spec, scn.get("arrays", {})),
                 "op": {"o": 0, "c": op["c"], "a": inline(scn, op.get("a", []), arrays),
                        "kw": inline(scn, op.get("kw", {}), arrays)}}
            if "of" in op:
                q["op"]["of"] = op["of"]
            text = json.dumps(q)
            q["mats"] = {n: d for n, d in scn.get("mats", {}).items() if '"mat:%s"' % n in text}
            out[(t, i)] = q
    return out


def answer(q):
    """the expected outcome of a query, computed in a process without history"""
    if "history" in q:
        res = run(q["history"])
        last = res["records"][-1]["out"] if res["records"] else ("exc", "no_progress")
        return last + (res["points"] if res["records"] else None,)
    quiet()
    w = World({"objs": [q["obj"]], "mats": q["mats"], "tasks": []})
    box = []
    sim = core.Sim(budget=600000)

    def body(t):
        sim.begin_op(t, 0, {})
        try:
            box.append(("ok", freeze(perform(w, q["op"])), sim.total_points))
        except (core.Killed, core.StepBudget, core.Deadlock):
            raise
        except BaseException as e:
            box.append(("exc", type(e).__name__, sim.total_points))
    sim.add(body)
    sim.run()
    return box[0] if box else ("exc", "no_progress", None)


# -- comparison -----------------------------------------------------------------
def same(a, b, rtol=1e-9, atol=1e-12, floor=1e-13):
    """equal numbers; anything below floor, or below atol of the largest entry, is rounding"""
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k], rtol, atol, floor) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y, rtol, atol, floor) for x, y in zip(a, b))
    num = (int, float, np.ndarray, np.generic)
    if isinstance(a, num) and isinstance(b, num):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape != b.shape and not (a.size == 1 and b.size == 1):
            return False
        a, b = a.ravel(), b.ravel()
        if a.size == 0:
            return True
        na, nb = np.isnan(a), np.isnan(b)
        if (na != nb).any():
            return False
        fin = np.isfinite(b)
        if not np.array_equal(a[~fin & ~nb], b[~fin & ~nb]):
            return False
        x, y = a[fin], b[fin]
        if not np.isfinite(x).all():
            return False
        scale = np.abs(y).max() if y.size else 0.0
        return bool((np.abs(x - y) <= rtol * np.abs(y) + atol * scale + floor).all())
    return a == b


def differs(scn, r, kind, got, exp, **more):
    op = scn["tasks"][r["task"]][r["op"]]
    return dict(kind=kind, call=op.get("c", "slicewise_eval"), task=r["task"], op=r["op"], got=show(got),
                expected=show(exp), **more)


def judge(scn, result, ask):
    """violations of one run; ask(query) gives the history-free answer"""
    out = list(result["violations"])
    if scn.get("caller") is not None:
        return [v for v in out if v["kind"] == "process_state"]
    qs = queries(scn)
    if any(v["kind"] == "no_progress" for v in out):
        # only news if the same calls come to an end when made one by one on fresh objects
        need = [ask(q)[2] for q in qs.values()] + [5000]
        if None in need or 10 * sum(need) > result["budget"]:
            return []
    for r in result["records"]:
        op = scn["tasks"][r["task"]][r["op"]]
        got = r["out"]
        if r["fired"] and got[0] == "exc":
            continue
        if "slicewise" in op:
            out.extend(judge_slicewise(scn, r, op, got))
            continue
        if op.get("solo"):
            exp = alone(scn, r, ask)
            if exp is not None and (got[0] != exp[0] or not same(got[1], exp[1])):
                out.append(differs(scn, r, "value", got, exp))
            continue
        if scn.get("record"):
            out.extend(judge_terms(scn, r, op, got, qs[(r["task"], r["op"])], ask))
            continue
        q = qs[(r["task"], r["op"])]
        exp = ask(q)
        if exp[2] is None:
            continue
        if exp[0] == "exc" and got[0] == "exc":
            continue
        if exp[0] != got[0]:
            out.append(differs(scn, r, "outcome", got, exp))
        elif not same(got[1], exp[1]):
            out.append(differs(scn, r, "value", got, exp))
        elif scn.get("consistent") and op["c"] in ("free_energy", "entropy"):
            terms = ask(dict(q, op={"o": 0, "c": "get_f_matsubaras", "a": [0], "kw": {}}))
            if terms[0] == "ok":
                want = energy(q["obj"], terms[1])
                tol = 1e-9
                if op["c"] == "entropy":
                    want = -np.gradient(want, q["obj"]["deltaT"])
                    tol = 1e-7
                if not same(got[1], want, tol, tol * 1e-2):
                    out.append(differs(scn, r, "inconsistent", got, ("ok", want)))
    return out


def alone(scn, r, ask):
    """the outcome of an operation when nothing but its own object is used"""
    if len(scn["tasks"]) > 1 or scn.get("faults"):
        return None
    o = scn["tasks"][0][r["op"]]["o"]
    mine = {o} | {i for i, s in enumerate(scn["objs"]) if s.get("geom") == o}
    ops = [op for op in scn["tasks"][0][:r["op"] + 1]
           if "set" in op or "new" in op or op.get("o") in mine or op.get("drop") in mine]
    return ask({"history": dict(scn, tasks=[ops])})


def energy(spec, terms):
    """the model: temperature times the sum of every i-th term"""
    steps = int(round(spec["Tmax"] / spec["deltaT"]))
    return np.array([spec["deltaT"] * i * sum(terms[n] for n in range(0, len(terms), i))
                     for i in range(1, steps + 1)])


def judge_slicewise(scn, r, op, got):
    a, b = op["slicewise"][:2]
    if "fail" in op:
        return [] if got[0] == "exc" else [differs(scn, r, "swallowed", got, ("exc", "ArithmeticError"))]
    want = [slice_terms(op, np.arange(a, b + 1)), [[n, 1] for n in range(a, b + 1)]]
    if got[0] != "ok" or not same(got[1][0], want[0], 1e-12, 0.0, 0.0) or got[1][1] != want[1]:
        return [differs(scn, r, "slices", got, ("ok", want))]
    return []


def judge_terms(scn, r, op, got, q, ask):
    """terms of a division of the work against the terms without division"""
    spec = q["obj"]
    g = spec["geom"] if spec["t"] == "thermo" else spec
    prec = g.get("precision", 1e-4)

    def thermo(*a):
        return ask(dict(q, op={"o": 0, "c": "get_f_matsubaras", "a": list(a), "kw": {}}))
    out = []
    if op["c"] == "get_f_matsubaras":
        nmin, nmax = op["a"][0], spec["nmax"]
        full = thermo(0, nmax + 2)
        exp = ("ok", full[1][nmin:]) if full[0] == "ok" else thermo(nmin, nmax + 2)
        if exp[0] == "exc":
            exp2 = thermo(nmin, nmax - nmin + 1)
            if exp2[0] == "exc" and got[0] == "exc":
                return []
            if exp2[0] == "exc":
                return []
            exp = exp2
        if got[0] == "exc":
            return [differs(scn, r, "outcome", got, exp)]
        scale = np.abs(full[1] if full[0] == "ok" else exp[1]).max()
        if np.shape(got[1]) != np.shape(exp[1]) or not within(got[1], exp[1], prec * scale):
            out.append(differs(scn, r, "terms", got, exp))
        ks = sorted(k / spec["deltaT"] for e in r.get("evals", []) for k in e)
        ns = [int(round(k)) for k in ks]
        if not r["fired"] and ns:
            dup = sorted({n for n in ns if ns.count(n) > 1})
            if dup:
                out.append(differs(scn, r, "evaluated_twice", ("ok", dup), ("ok", "each index once")))
    elif op.get("perm"):
        ks = q["op"]["a"][0]["nd"]
        alone = [ask(dict(q, op={"o": 0, "c": "mSumme", "a": [{"nd": [k]}], "kw": {}})) for k in ks]
        if any(a[0] == "exc" for a in alone):
            return []
        exp = ("ok", np.array([float(np.asarray(a[1]).ravel()[0]) for a in alone]))
        if got[0] == "exc":
            return [differs(scn, r, "outcome", got, exp)]
        if np.shape(got[1]) != (len(ks),) or not within(got[1], exp[1], prec * np.abs(exp[1]).max()):
            out.append(differs(scn, r, "grouping", got, exp))
    elif op["c"] == "free_energy":
        full = thermo(0, spec["nmax"] + 2)
        if full[0] == "exc":
            return []
        want = energy(spec, full[1])
        if got[0] == "exc":
            return [differs(scn, r, "outcome", got, ("ok", want))]
        T = spec["deltaT"] * np.arange(1, len(want) + 1)
        n = np.array([len(full[1][::i]) for i in range(1, len(want) + 1)])
        if np.shape(got[1]) != np.shape(want) or not within(got[1], want, prec * np.abs(full[1]).max() * T * n):
            out.append(differs(scn, r, "energy", got, ("ok", want)))
    return out


def within(a, b, tol):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    na, nb = np.isnan(a), np.isnan(b)
    if (na != nb).any():
        return False
    return bool((np.abs(a - b)[~na] <= np.broadcast_to(tol, a.shape)[~na] + 1e-13).all())


def show(o):
    s = "%s %s" % (o[0], np.array2string(o[1], precision=10, threshold=8) if isinstance(o[1], np.ndarray) else repr(o[1]))
    return s[:300].replace("\n", " ")

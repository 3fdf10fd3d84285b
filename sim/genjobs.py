"""Seeded generators of job scenarios: configurations, directories, schedules and storage faults."""
from . import vfs

HEAD = "[geometry]\n# written by the simulator\n"


def config(rng, cheap=False):
    """a configuration as {section: {option: text}}; cheap ones leave more time for faults"""
    ext = rng.random() < 0.85
    g, m, t = {}, {}, {}
    if ext:
        r1, r2 = rng.choice([("1", "1"), ("0.5", "1"), ("1", "2.0"), ("0.9", "0.6")])
        g["ra"], g["rb"] = r1, r2
        d = (float(r1) + float(r2)) * rng.choice([1.5, 2.0, 3.0])
        g["d"] = repr(d + 1.0 / 3) if rng.random() < 0.1 else "%g" % round(d, 4)
        mats = ["PerfectConductor", "Gold", "Gold_plasma", "Silicon", "Altern1Ps"]
        m["mata"], m["matb"] = "materials." + rng.choice(mats), "materials." + rng.choice(mats)
    else:
        g["ra"], g["rb"], g["d"] = rng.choice([("1", "4", "2"), ("0.5", "3", "1")])
        m["mata"] = "materials." + rng.choice(["Gold", "Silicon"])
        m["matb"] = "materials." + rng.choice(["PerfectConductor", "Gold"])
    m["matmd"] = "materials." + rng.choice(["Vacuum", "Ethanol", "Water"])
    g["lmax"] = rng.choice(["1", "1", "2", "2", "3"])
    g["lssmax"] = rng.choice([g["lmax"], g["lmax"], "automatic"])
    if rng.random() < 0.15:
        g["lmax"], g["lssmax"] = "automatic", "automatic"
    if rng.random() < 0.85:
        g["l_offset"] = rng.choice(["0", "1", "2"])
    if rng.random() < 0.85:
        g["evaluation"] = rng.choice(["lndet", "lndet", "trace"])
    g["analytic_n0"] = rng.choice(["True", "False"])
    g["precision"] = rng.choice(["1e-2", "1e-3", "0.0001", "1E-02", "0.0012345678"])
    if ext and rng.random() < 0.2:
        w = rng.choice("ab")
        r = float(g["r" + w])
        g["r" + w] = "%g, %g" % (0.5 * r, r)
        shell = rng.choice(["Silicon", "Altern1Ps", m["matmd"].split(".")[1]])
        m["mat" + w] = "materials.Gold, materials.%s, %s" % (shell, m["matmd"])
    t["Tmin"] = rng.choice(["0.804", "0.5", "1", "0.25"])
    steps = rng.choice([2, 3, 4, 7, 7, 30, 330, 700])
    t["Tmax"] = "%g" % (float(t["Tmin"]) * steps)
    t["nmax"] = rng.choice(["1", "2", "3", "5"]) if rng.random() < 0.85 else "automatic"
    if t["nmax"] == "automatic":
        t["Tmin"] = "1"
        t["Tmax"] = "%d" % steps
        g["lmax"], g["lssmax"] = "1", "1"
    t["quantity"] = rng.choice(["free_energy()", "free_energy()", "free_energy()", "entropy()", "get_f_matsubaras(0)",
                                "get_f_matsubaras(1)", "get_f_matsubaras(0, 2)", "e0(0.5, 0.6)"])
    if t["quantity"].startswith("get") and rng.random() < 0.2:
        t["nmax"], t["quantity"] = "400", "get_f_matsubaras(0)"
        g["lmax"], g["lssmax"], g["precision"] = "1", "1", "1e-2"
    if cheap and rng.random() < 0.9:
        if g["lmax"] != "automatic":
            g["lmax"] = g["lssmax"] = rng.choice(["1", "1", "1", "2"])
        if t["nmax"] not in ("automatic", "400"):
            t["nmax"] = rng.choice(["1", "1", "2"])
        if t["quantity"].startswith("e0"):
            t["quantity"] = "free_energy()"
    return {"geometry": g, "materials": m, "thermodynamics": t}


def render(c, sep=": "):
    return "".join("[%s]\n%s\n" % (s, "".join("%s%s%s\n" % (k, sep, v) for k, v in o.items())) for s, o in c.items())


def spoil(rng, c):
    """a configuration that must not lead to a result"""
    c = {s: dict(o) for s, o in c.items()}
    w = rng.choice(["section", "option", "material", "radius", "quantity", "evaluation", "precision", "tmin", "torn",
                    "lmax", "nmax", "empty", "distance"])
    if w == "section":
        c.pop(rng.choice(list(c)))
    elif w == "option":
        s, o = rng.choice([("geometry", "ra"), ("geometry", "rb"), ("geometry", "precision"), ("materials", "mata"),
                           ("materials", "matmd"), ("thermodynamics", "Tmin"), ("thermodynamics", "quantity"),
                           ("thermodynamics", "Tmax"), ("geometry", "analytic_n0")])
        c[s].pop(o)
    elif w == "material":
        c["materials"][rng.choice(["mata", "matb", "matmd"])] = "materials.Unobtainium"
    elif w == "radius":
        c["geometry"][rng.choice(["ra", "rb"])] = rng.choice(["one", "1;2", ""])
    elif w == "quantity":
        c["thermodynamics"]["quantity"] = rng.choice(["free_enrgy()", "free_energy(3)", "get_f_matsubaras()", "0/0"])
    elif w == "evaluation":
        c["geometry"]["evaluation"] = "determinant"
    elif w == "precision":
        c["geometry"]["precision"] = "high"
    elif w == "tmin":
        c["thermodynamics"]["Tmin"] = "cold"
    elif w == "lmax":
        c["geometry"]["lmax"] = "many"
    elif w == "nmax":
        c["thermodynamics"]["nmax"] = "all"
    elif w == "distance":
        c["geometry"]["d"] = "far"
    text = render(c)
    if w == "torn":
        text = text[:rng.randrange(len(text))]
    if w == "empty":
        text = ""
    return text


def scenario(rng, focus):
    c = config(rng, focus != "C04")
    cfg = rng.choice(["job.config", "job.config", "jobs.cfg"])
    texts = [render(c, rng.choice([": ", " = ", ":"]))]
    out = rng.choice(["result.dat", "result.dat", "result.dat", "out", "data/result.dat", "run1"])
    files = {}
    links = {}
    if "/" in out:
        files["data/readme.txt"] = "keep me\n"
    bad = rng.random() < (0.25 if focus == "C03" else 0.06)
    if bad:
        texts = [spoil(rng, c)]
    old = lambda: rng.choice(["old result\n", "# information on job: x \n1.0\n2.0\n", "", "\xff\x00binary"])
    r = rng.random()
    chain = 0
    if r < 0.75:
        chain = rng.choice([0, 1, 1, 2, 2, 3])
        if rng.random() < 0.08:
            chain = rng.choice([4, 5, 6, 8, 9, 10, 11, 12, 17])
        for i in range(chain):
            files[out + "1" * i] = old()
    elif r < 0.85:
        files[out + "1" * rng.choice([1, 2])] = old()      # a gap in the chain
    if rng.random() < 0.25:
        for n in rng.sample([".part", "~", ".tmp", ".bak", "2", ".1", ".partial", ".lock"], 3):
            files[out + n] = old()
    if rng.random() < 0.3:
        files["notes.txt"] = "unrelated\n"
    if rng.random() < 0.06:
        links[out + "1" * chain] = "precious.dat"
        files["precious.dat"] = "precious\n"
    if rng.random() < 0.05:
        out = cfg
    if rng.random() < 0.04:
        out = "nowhere/result.dat"

    def job():
        a = [cfg, out]
        if rng.random() < 0.3:
            d = float(c["geometry"]["d"]) * rng.choice([1.0, 1.25, 1.5])
            a.append(rng.choice(["%g" % round(d, 4), "%g" % round(d, 4), repr(d + 1.23456789e-5), "%.3e" % d, "%.12f" % d,
                                 " %g" % d]))
            if rng.random() < 0.06:
                a[2] = rng.choice(["far", "", "3,5", "1.5.0"])
        if rng.random() < 0.02:
            a = a[:1]
        if rng.random() < 0.02:
            a = a + ["1.0", "2.0"][:4 - len(a)] + ["x"]
        if rng.random() < 0.03 and len(a) >= 2:
            a[0] = "missing.config"
        return {"argv": a}
    shape = rng.choice(["one", "one", "rerun", "rerun", "two", "two", "three", "mixed"])
    if focus == "C04":
        shape = rng.choice(["one", "one", "two", "rerun", "three"])
    tasks = {"one": [[job()]], "rerun": [[job() for _ in range(rng.choice([2, 3, 4]))]],
             "two": [[job()], [job()]], "three": [[job()], [job()], [job()]],
             "mixed": [[job(), job()], [job()]]}[shape]
    # edits of the configuration while jobs run
    if rng.random() < (0.6 if focus == "C04" else 0.2) and not bad:
        c2 = {s: dict(o) for s, o in c.items()}
        for _ in range(rng.choice([1, 2, 3])):
            w = rng.choice(["Tmin", "quantity", "mata", "d", "precision", "nmax", "Tmax"])
            if w == "Tmin":
                c2["thermodynamics"]["Tmin"] = rng.choice(["0.6", "0.9", "2"])
            elif w == "Tmax":
                c2["thermodynamics"]["Tmax"] = "%g" % (float(c2["thermodynamics"]["Tmax"]) * 2)
            elif w == "quantity":
                c2["thermodynamics"]["quantity"] = rng.choice(["free_energy()", "get_f_matsubaras(0)", "entropy()"])
            elif w == "mata" and "," not in c2["materials"]["mata"]:
                c2["materials"]["mata"] = "materials." + rng.choice(["Gold", "Silicon"])
            elif w == "d":
                c2["geometry"]["d"] = "%g" % (float(c2["geometry"]["d"]) * 1.1 if float(c["geometry"]["ra"].split(",")[0]) * 0 == 0
                                               and float(c2["geometry"]["d"]) > 2.5 else float(c2["geometry"]["d"]))
            elif w == "precision":
                c2["geometry"]["precision"] = "0.005"
            elif w == "nmax":
                c2["thermodynamics"]["nmax"] = "4"
        texts.append(render(c2))
    if rng.random() < 0.02:
        texts = []
    return {"files": files, "links": links, "cfg": cfg, "configs": texts, "tasks": tasks,
            "buf": rng.choice([8192, 8192, 512, 4096])}


def storage_fault(rng, k, kinds, first=0):
    """a fault at one of the file operations from number first on"""
    i = rng.randrange(first, len(kinds))
    if rng.random() < 0.7:      # favour what changes files
        mut = [x for x in range(first, len(kinds)) if kinds[x] in vfs.MUTATES]
        if rng.random() < 0.4:
            mut = [x for x in mut if kinds[x] == "write"] or mut
        i = rng.choice(mut) if mut else i
    q = kinds[i]
    acts = list(vfs.COMPAT.get(q, ())) + ["kill", "kill_after"] * 2
    if q == "write":
        acts += ["kill_mid"] * 3 + ["short"] * 2
    f = {"task": k[0], "op": k[1], "io": i + 1, "act": rng.choice(acts)}
    if f["act"] in ("short", "kill_mid"):
        f["f"] = rng.choice([0.0, 0.1, 0.5, 0.9, 0.999])
    elif f["act"].startswith("E") and rng.random() < 0.3:
        f["sticky"] = 1
    return f


def further(rng, seen):
    """a run that met a storage error and went on, with another fault in what it did then"""
    pick = []
    for scn, res in seen:
        for f in scn.get("faults", []):
            k = (f["task"], f["op"])
            if "io" in f and f["act"].startswith("E") and len(res["ops"].get(k, ())) > f["io"]:
                pick.append((scn, res, k, f["io"]))
    if not pick:
        return None
    writes = [p for p in pick if "write" in p[1]["ops"][p[2]][p[3]:]]
    scn, res, k, io = rng.choice(writes if writes and rng.random() < 0.8 else pick)
    s = dict(scn)
    s["faults"] = scn["faults"] + [storage_fault(rng, k, res["ops"][k], io)]
    return s


def variants(rng, base, prof, n, focus, seen):
    """yields scenarios; seen grows by (scenario, result) of the ones yielded before"""
    keys = sorted(prof["ops"])
    nt = len(base["tasks"])
    for _ in range(n):
        s = further(rng, seen) if rng.random() < 0.25 else None
        if s is not None:
            yield s
            continue
        s = dict(base)
        faults, pre = [], []
        if nt > 1 and keys:
            s["first"] = rng.randrange(nt)
            for _ in range(rng.choice([1, 1, 2, 3, 5])):
                k = rng.choice(keys)
                to = rng.choice([x for x in range(nt) if x != k[0]])
                if rng.random() < 0.85:
                    p = {"task": k[0], "op": k[1], "io": rng.randint(1, len(prof["ops"][k])), "to": to}
                    if rng.random() < 0.5:
                        p["act"] = "to_after"
                    pre.append(p)
                else:
                    pre.append({"task": k[0], "op": k[1], "point": rng.randint(1, max(1, prof["prof_n"].get(k, 1))),
                                "to": to})
        if len(base["configs"]) > 1 and keys:
            k = rng.choice(keys)
            e = {"task": k[0], "op": k[1], "act": "edit", "v": 1}
            e["io"] = rng.randint(1, len(prof["ops"][k]))
            faults.append(e)
            if rng.random() < 0.3:
                faults.append(dict(e, v=0, io=rng.randint(1, len(prof["ops"][k]))))
        p = 0.3 if focus == "C04" else 0.85
        if keys and rng.random() < p:
            for _ in range(rng.choice([1, 1, 1, 2])):
                k = rng.choice(keys)
                kinds = prof["ops"][k]
                r = rng.random()
                if r < 0.72:
                    faults.append(storage_fault(rng, k, kinds))
                elif r < 0.95:
                    n_p = max(1, prof["prof_n"].get(k, 1))
                    point = rng.randint(1, n_p) if rng.random() < 0.4 else max(1, n_p - rng.randint(0, 60))
                    faults.append({"task": k[0], "op": k[1], "point": point,
                                   "exc": rng.choice(["KeyboardInterrupt", "MemoryError", "kill"])})
                else:
                    s["capacity"] = rng.choice([0, 1, 100, 500, 1000, 5000, 9000])
        if s.get("capacity") is not None or (faults and rng.random() < 0.6):
            # once the faults are over, the same job again
            t = rng.randrange(nt)
            s["tasks"] = [list(x) for x in base["tasks"]]
            s["tasks"][t] = s["tasks"][t] + [dict(s["tasks"][t][-1], free=1)]
        s["faults"], s["preempt"] = faults, pre
        if faults or pre or s.get("capacity") is not None:
            yield s

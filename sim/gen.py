"""Seeded generators: histories, schedules and fault sequences for the library's objects."""
import json

LN = ["PerfectConductor", "Gold", "Gold_plasma", "Silicon", "MercurySmith", "Gold_magnetic", "Vacuum", "Silver",
      "Altern1Ps", "Mercury"]
MEDIA = ["Vacuum", "Ethanol", "Water"]
USERMATS = {"U1": {"e": [[1.37e16, 0, 5.77e13]], "b": [], "name": "Gold"},
            "U2": {"e": [[1.2e16, 0, 5.77e13]], "b": [], "name": "Gold"},
            "U3": {"e": [[1.37e16, 1e15, 5.77e13]], "b": [], "name": "Silicon"},
            "U4": {"e": [[1.37e16, 0, 5.77e13]], "b": [4, 1e14], "name": "Gold"},
            "U5": {"e": [[1.37e16, 0, 5.77e13]], "b": [4, 3e14], "name": "Gold"},
            "U6": {"e": [[1.37e16, 0, 5.77e13]], "b": [2, 1e14], "name": "Gold_magnetic"},
            "U7": {"e": [[1.37e16, 0, 5.77e13]], "b": [], "cls": "LorentzSmithMaterial", "name": "MercurySmith"},
            "U8": {"e": [[1.37e16, 0, 0]], "b": [], "name": "Gold_plasma"},
            # oscillators in no particular order
            "U9": {"e": [[2e15, 9e15, 1e14], [1.37e16, 0, 5.77e13], [1e15, 3e14, 0]], "b": [], "name": "Gold"},
            "U10": {"e": [[1e15, 1e16, 0], [3e15, 2e14, 1e14]], "b": [3, 2e14], "name": "Silicon"}}
USER = list(USERMATS)
# media of the caller's own, called like the tabulated ones
USERMATS.update(U11={"e": [[1.1e16, 1.4e16, 0]], "b": [], "name": "Water"},
                U12={"e": [[8e15, 1.5e16, 1e14], [1e14, 3e14, 0]], "b": [], "name": "Ethanol"},
                U13={"e": [[6e15, 1.2e16, 0]], "b": [], "name": "Water"})
GEOM_ATTRS = ["r1", "r2", "L", "lmax", "lssmax", "precision", "evaluation", "l_offset"]
EXCS = ["KeyboardInterrupt", "MemoryError", "TimeoutError"]


def matname(rng, names=LN, p=0.25):
    return "mat:" + (rng.choice(USER) if rng.random() < p else rng.choice(names))


def medium(rng):
    return "mat:" + rng.choice(MEDIA * 4 + ["U11", "U12", "U13"])


def nudge(rng, ks):
    """arrays easily mistaken for ks"""
    out = [list(ks)]
    r = rng.choice([1e-3, 1e-5, 1e-7])
    out.append([k * (1 + r) for k in ks])
    out.append([round(k, 2) + 1e-4 for k in ks])
    if len(ks) > 1:
        out.append(list(reversed(ks)))
        out.append([ks[0]] + [k * 1.5 for k in ks[1:]])         # same first
        out.append([k * 0.7 for k in ks[:-1]] + [ks[-1]])       # same last
        out.append(ks[:-1])
        s = [k for k in ks]
        d = 0.25 * min(ks)
        s[0] += d
        s[-1] -= d                                              # same sum and length
        out.append(s)
        if len(ks) > 2:
            out.append([ks[0]] + [ks[1] * 1.25] + list(ks[2:]))  # same ends
            out.append([ks[0]] + [ks[1] * 0.9] + list(ks[2:]))
    else:
        out.append([ks[0], 2 * ks[0]])
        out.append([ks[0], ks[0]])
    return out


def karrays(rng, n=4, zeros=True):
    base = rng.choice([[0.5], [0.8, 1.6], [0.3, 0.9, 2.7], [1.0], [0.25, 0.5], [0.05, 0.4, 1.1], [2.0, 3.0],
                       [0.3, 0.6, 0.9], [0.2, 0.7, 1.3, 2.1], [0.4, 0.5, 0.8]])
    if rng.random() < 0.06:
        base = rng.choice([[1e-6], [5e-4, 0.7], [0.001, 0.002], [20.0, 130.0], [7.5]])
    pool = nudge(rng, base)
    rest = pool[1:]
    rng.shuffle(rest)
    same = [k for k in rest if len(k) == len(base)]
    if n > 1 and same and rng.random() < 0.7:       # at least one that could be mistaken for the base
        rest.remove(same[0])
        rest.insert(0, same[0])
    ks = [pool[0]] + rest[:n - 1]
    if n > 1 and rng.random() < 0.5:                # and one of quite another magnitude
        f = rng.choice([0.1, 0.1, 4.0])
        ks[-1] = [k * f for k in pool[0]]
    rng.shuffle(ks)
    if zeros and rng.random() < 0.35:
        ks.append([0.0] + pool[0])
    if zeros and rng.random() < 0.05:
        ks.append([0.0])
    if rng.random() < 0.04:
        n = rng.choice([12, 33, 64, 129])
        ks[0] = [round(0.02 + 0.03 * i, 4) for i in range(n)]
    return ks


def relatives(rng, arrays, names):
    """adds arrays easily mistaken for the given ones; follow() picks among all of them"""
    out = list(names)
    for n in names:
        for j, v in enumerate(nudge(rng, [k for k in arrays[n] if k != 0] or [0.5])[1:]):
            if len(v) == len(arrays[n]):
                arrays["%s_%d" % (n, j)] = v
                out.append("%s_%d" % (n, j))
    return out


def follow(rng, ops, fresh, objs, names, arrays, p=0.45):
    """the next operation: a new one, or an earlier one again with exactly one thing about it changed"""
    calls = [op for op in ops if "c" in op]
    if ops and "set" in ops[-1] and rng.random() < 0.5:
        # the same call again now that the array it was given holds other numbers
        again = [op for op in calls if any(isinstance(x, dict) and x.get("arr") == ops[-1]["set"] for x in op.get("a", []))]
        if again:
            return {k: v for k, v in rng.choice(again).items() if k != "scribble"}
    if not calls or rng.random() > p:
        return fresh()
    op = dict(calls[-1] if rng.random() < 0.6 else rng.choice(calls))
    op.pop("scribble", None)
    op["a"] = list(op.get("a", []))
    if rng.random() < 0.15 or (not op["a"] and len(objs) < 2):
        return op                                   # once more
    alike = [i for i, s in enumerate(objs) if i != op["o"] and s["t"] == objs[op["o"]]["t"]
             and (s["t"] != "mod" or s["name"] == objs[op["o"]]["name"])]
    if alike and (not op["a"] or rng.random() < 0.5):
        op["o"] = rng.choice(alike)
        return op
    if not op["a"] or op["c"] == "attrs":
        return fresh()
    i = rng.randrange(len(op["a"]))
    arrs = [j for j, x in enumerate(op["a"]) if isinstance(x, dict) and x.get("arr") in names]
    if arrs and rng.random() < 0.5:
        i = rng.choice(arrs)
    a = op["a"][i]
    if isinstance(a, dict) and a.get("arr") in names:
        kin = a["arr"].split("_")[0]
        like = [n for n in names if n != a["arr"] and n.split("_")[0] == kin]
        if not like or rng.random() < 0.4:
            like = [n for n in names if n != a["arr"] and len(arrays[n]) == len(arrays[a["arr"]])]
        other = like if like and rng.random() < 0.8 else [n for n in names if n != a["arr"]]
        if other:
            op["a"][i] = {"arr": rng.choice(other)}
    elif isinstance(a, bool):
        op["a"][i] = not a
    elif isinstance(a, int):
        op["a"][i] = max(0, a + rng.choice([-1, 1, 1]))
    elif isinstance(a, float):
        op["a"][i] = a * rng.choice([1 + 1e-4, 1.25, 0.8, 0.5])
    return op


def geom(rng, small=False, trace=None, strat=True, lists=None):
    """a random geometry specification; radius and material lists may be registered in lists"""
    ext = rng.random() < 0.75
    s = {"t": "geom"}
    if ext:
        r1, r2 = rng.choice([(1.0, 1.0), (0.5, 1.0), (1.0, 0.5), (1.0, 2.0), (0.9, 0.6)])
        L = round((r1 + r2) * rng.choice([1.3, 1.5, 2.0, 3.0] * 3 + [1.08]), 6)
        m1, m2 = matname(rng), matname(rng)
    else:
        r1, r2, L = rng.choice([(1.0, 4.0, 2.0), (0.5, 3.0, 1.0), (1.0, 3.0, 1.2)])
        m1, m2 = matname(rng), matname(rng, ["PerfectConductor", "Gold", "Gold_plasma", "Silicon"])
    s.update(r1=r1, r2=r2, L=L, mat1=m1, mat2=m2, mat3=medium(rng))
    s["lmax"] = rng.choice([1, 2, 2, 3, 3] if small else [1, 2, 3, 3, 3, 4, 4, 5, 6])
    s["lssmax"] = s["lmax"] + rng.choice([0, 0, 1])
    # with two digits or less, and more than two subspaces, the sum over m ends before lmax
    s["precision"] = rng.choice([1e-4, 1e-6, 1e-2, 1e-2, 3e-2, 0.1, 0.1])
    if rng.random() < 0.12:
        s["lmax"], s["lssmax"], s["l_offset"], s["precision"] = "automatic", "automatic", 1, 1e-2
    if trace if trace is not None else rng.random() < 0.15:
        s["evaluation"] = "trace"
        s["precision"] = rng.choice([1e-2, 1e-4, 0.1, 1e-6])
    if strat and ext and rng.random() < 0.25:
        layers = stratified(rng, r1)
        med = layers[0][-1] if rng.random() < 0.7 else s["mat3"]
        s["mat3"] = med
        which = rng.choice(["1", "2", "12"])
        for w in which:
            mats, radii = stratified(rng, s["r" + w])
            mats[-1] = s["mat3"]
            if rng.random() < 0.4:
                mats[-2] = s["mat3"]            # outermost shell made of the medium
            if lists is not None:
                n = len(lists)
                lists["l%d" % n] = mats
                lists["l%d" % (n + 1)] = radii
                s["mat" + w], s["r" + w] = {"list": "l%d" % n}, {"list": "l%d" % (n + 1)}
            else:
                s["mat" + w], s["r" + w] = mats, radii
    return s


def stratified(rng, r):
    n = rng.choice([2, 2, 3])
    mats = ["mat:" + rng.choice(["Gold", "Silicon", "Altern1Ps", "Vacuum", "PerfectConductor", "Silver"])]
    mats += ["mat:" + rng.choice(["Gold", "Silicon", "Altern1Ps", "Silver"]) for _ in range(n - 1)]
    mats.append(medium(rng))
    radii = [round(r * (0.4 + 0.6 * (i + 1) / n), 6) for i in range(n)]
    radii[-1] = r
    return mats, radii


def geom_op(rng, o, spec, names, scrib=True, extra=False):
    if extra and rng.random() < 0.05:
        return {"o": o, "c": "arbitrary_roundtrips", "a": [{"arr": rng.choice(["m3a", "m3b"])},
                                                           rng.choice([1, 2, 3, "automatic"]), rng.choice([0, 1])]}
    lm = spec.get("lmax", 2)
    lm = lm if isinstance(lm, int) else 3
    k = {"arr": rng.choice(names)}
    m = rng.choice(list(range(0, lm + 1)) + [0, 1] + ([lm + 1] if rng.random() < 0.1 else []))
    c = rng.choices(["mSumme", "single_m", "mSumme_k0", "single_m_k0", "blockmatrices", "blockmatrices_k0",
                     "blockmatrices_channels", "blockmatrices_debug", "mSum_roundtrips", "supermatrix",
                     "roundTrip_elements", "mSum_trace_dot", "attrs", "bad", "roundTrip_elements_k0"],
                    [8, 7, 3, 3, 2, 1, 1, 1, 2, 1, 1, 1, 1, 1, 1])[0]
    op = {"o": o, "c": c}
    if c == "mSumme":
        op["a"] = [k]
    elif c in ("single_m", "blockmatrices", "blockmatrices_channels", "blockmatrices_debug", "supermatrix",
               "roundTrip_elements"):
        op["a"] = [m, k]
    elif c in ("single_m_k0", "blockmatrices_k0"):
        op["a"] = [m]
    elif c == "roundTrip_elements_k0":
        op["a"] = [m, {"nd": [0.0]}]
    elif c == "mSum_roundtrips":
        op["a"] = [k] + ([rng.choice([1, 2, 3])] if rng.random() < 0.5 else [])
    elif c == "mSum_trace_dot":
        op["a"] = [k]
    elif c == "attrs":
        op["a"] = GEOM_ATTRS
    elif c == "bad":
        op = {"o": o, "c": "mSumme", "a": [rng.choice([{"nd": []}, "x", None, 3])]}
    if scrib and c in ("mSumme", "single_m", "mSumme_k0", "single_m_k0", "blockmatrices", "blockmatrices_k0",
                       "mSum_roundtrips", "supermatrix", "blockmatrices_channels", "roundTrip_elements",
                       "roundTrip_elements_k0") and rng.random() < 0.3:
        op["scribble"] = 1
    return op


def mutate_op(rng, arrays, names):
    n = rng.choice(names)
    v = arrays[n]
    if rng.random() < 0.5:
        new = [x * rng.choice([1.25, 0.8, 1 + 1e-4]) for x in v]
    else:
        same = [w for q, w in arrays.items() if len(w) == len(v)]
        new = list(rng.choice(same))
    return {"set": n, "v": new}


def history_geom(rng, nops=None):
    lists = {}
    spec = geom(rng, lists=lists)
    arrays = {"k%d" % i: k for i, k in enumerate(karrays(rng))}
    names = list(arrays)
    kin = relatives(rng, arrays, names)
    arrays.update(m3a=FIXED["m3a"], m3b=FIXED["m3b"])
    ops = []
    for _ in range(nops or rng.randint(3, 8)):
        if rng.random() < 0.2:
            ops.append(mutate_op(rng, {n: arrays[n] for n in kin}, names))
        else:
            ops.append(follow(rng, ops, lambda: geom_op(rng, 0, spec, names, extra=True), [spec], kin, arrays))
    if rng.random() < 0.5:
        ops.append({"o": 0, "c": "attrs", "a": GEOM_ATTRS})
    return used({"objs": [spec], "arrays": arrays, "lists": lists, "mats": USERMATS, "tasks": [ops]})


# -- thermodynamics -----------------------------------------------------------------
def thermo(rng, g, small=False, auto=False):
    dT = rng.choice([0.5, 0.804, 1.0, 0.3])
    nmax = rng.choice([1, 2, 3, 4, 6]) if small else rng.choice([1, 2, 3, 5, 8, 12] * 3 + [51, 60])
    steps = rng.choice([1, 2, 3, 5, 8, 20])
    s = {"t": "thermo", "deltaT": dT, "nmax": nmax, "Tmax": dT * steps, "geom": g}
    if rng.random() < 0.35:
        s["analytic_n0"] = False
    if auto and rng.random() < 0.12:
        s["nmax"] = "automatic"
    return s


def thermo_op(rng, o, spec, names, scrib=True, e0=True):
    n = spec["nmax"] if spec["nmax"] != "automatic" else 5
    c = rng.choices(["free_energy", "force", "entropy", "get_f_matsubaras", "e0", "F_alle", "attrs"],
                    [6, 4, 4, 6, 1 if e0 else 0, 2, 1])[0]
    op = {"o": o, "c": c, "a": []}
    if c == "get_f_matsubaras":
        nmin = rng.choice([0, 0, 0, 1, min(2, n)])
        op["a"] = [nmin] + ([rng.choice([1, 2, 3, 5, n, 50])] if rng.random() < 0.6 else [])
    elif c == "e0":
        op["a"] = rng.choice([[0.5, 0.6], [0.5, 0.6], [1.0, 1.25], [0.5, None] if n < 4 and rng.random() < 0.3 else [0.5, 0.6]])
    elif c == "F_alle":
        op["a"] = [{"arr": rng.choice(names)}]
    elif c == "attrs":
        op["a"] = ["deltaT", "nmax", "Tmax", "maxstep", "analytic_n0"]
    if scrib and c != "attrs" and rng.random() < 0.3:
        op["scribble"] = 1
    return op


def history_thermo(rng):
    lists = {}
    g = geom(rng, small=True, lists=lists)
    g["precision"] = max(g.get("precision", 1e-4), 1e-4)
    if isinstance(g["lmax"], int) and rng.random() < 0.3:
        # the sum over m ends early, and where depends on which frequencies are summed together
        g["lmax"] = g["lssmax"] = rng.choice([3, 4, 4])
        g["precision"] = rng.choice([0.1, 0.03, 0.3])
    arrays = {"k%d" % i: k for i, k in enumerate(karrays(rng, 2) + [[0.0], [0.0, 0.5]])}
    big = isinstance(g["lmax"], int) and g["lmax"] > 3
    objs = [g, thermo(rng, 0, small=big, auto=not big)]
    if rng.random() < 0.25:
        objs.append(thermo(rng, 0, small=big, auto=not big))
    ops = []
    for _ in range(rng.randint(3, 5 if big else 7)):
        r = rng.random()
        if r < 0.12:
            ops.append(geom_op(rng, 0, g, list(arrays)))
        else:
            o = rng.randrange(1, len(objs))
            ops.append(follow(rng, ops, lambda: thermo_op(rng, o, objs[o], list(arrays)), objs, list(arrays), arrays, 0.25))
    return used({"objs": objs, "arrays": arrays, "lists": lists, "mats": USERMATS, "tasks": [ops]})


# -- calculators --------------------------------------------------------------------
CHEAP = ["scat", "coated", "strat", "strat", "trans", "mat", "mod_bessel", "mod_bessel", "interp", "helper", "helper",
         "matrix", "matrix", "materials"]


def calculator(rng, lists=None, kinds=None):
    """(specification, function making an operation)"""
    kind = rng.choice(kinds or ["scat", "scat", "coated", "strat", "strat", "trans", "pfa", "raw", "mat", "mod_bessel", "mod_bessel",
                       "gaunt", "interp", "helper", "matrix", "matrix", "materials"])
    M = lambda: matname(rng)
    D = lambda: medium(rng)
    if kind == "scat":
        s = {"t": "scat", "mats": [M(), D()]}

        def op(o, K):
            c = rng.choice(["mie", "mie", "mie_k0", "mie_internal", "mie_internal_k0", "fresnel"])
            lmin = rng.choice([1, 1, 2])
            lmax = lmin + rng.choice([0, 1, 3])
            r = rng.choice([1.0, 0.5, 1.0001])
            if c in ("mie", "mie_internal"):
                return {"o": o, "c": c, "a": [K(), lmin, lmax, r]}
            if c.endswith("k0"):
                return {"o": o, "c": c, "a": [lmin, lmax, r]}
            return {"o": o, "c": c, "a": [rng.choice([0.5, 1.0, 2.0]), rng.choice([0.5, 1.5])]}
    elif kind == "coated":
        s = {"t": "coated", "mats": [M(), "mat:" + rng.choice(["Gold", "Silicon", "Altern1Ps"]), D()]}

        def op(o, K):
            c = rng.choice(["mie_coated", "mie_coated", "mie"])
            lmax = rng.choice([1, 2, 4])
            if c == "mie":
                return {"o": o, "c": c, "a": [K(), 1, lmax, 0.5]}
            return {"o": o, "c": c, "a": [K(), rng.choice([1, 1, 2]) if lmax > 1 else 1, lmax, 0.5,
                                          rng.choice([1.0, 0.75])]}
    elif kind == "strat":
        mats, radii = stratified(rng, 1.0)
        if rng.random() < 0.5:
            mats[-2] = mats[-1]
        if rng.random() < 0.1:
            radii.reverse()                     # not a sphere, but the caller's list all the same
        s = {"t": "strat", "mats": mats, "radii": radii}
        if lists is not None and rng.random() < 0.7:
            n = len(lists)
            lists["l%d" % n], lists["l%d" % (n + 1)] = mats, radii
            s["mats"], s["radii"] = {"list": "l%d" % n}, {"list": "l%d" % (n + 1)}

        def op(o, K):
            lmin = rng.choice([1, 1, 2])
            if rng.random() < 0.15:
                return {"o": o, "c": "mie", "a": [K(), lmin, lmin + 1, 0.5]}
            return {"o": o, "c": "mie_stratified", "a": [K(), lmin, lmin + rng.choice([0, 1, 2])]}
    elif kind == "trans":
        lmax = rng.choice([1, 2, 3])
        zero = rng.random() < 0.2
        s = {"t": "trans", "lmax": lmax, "lssmax": lmax + rng.choice([0, 1]), "m": rng.choice([0, 1, 1, lmax]),
             "mat": D(), "L": rng.choice([1.5, 3.0]), "k": {"nd": [0.0]} if zero else None,
             "ext": rng.choice([0, 1, 1])}

        def op(o, K):
            if rng.random() < 0.2:
                return {"o": o, "c": rng.choice(["trans_k0", "trans_k0_ext", "trans_k0_int"]),
                        "a": [{"arr": "tl1"}, {"arr": "tl2"}]}
            if zero or rng.random() < 0.5:
                return {"o": o, "c": "trans_ab", "a": []}
            c = rng.choice(["get_vl1l2", "gnt"])
            l1, l2 = rng.randint(1, lmax), rng.randint(1, s["lssmax"])
            return {"o": o, "c": c, "a": [l1, l2] + ([rng.choice([s["m"], s["m"], 0, 1, 2])] if c == "gnt" else [])}
    elif kind in ("pfa", "raw"):
        s = {"t": "pfa", "mats": ["mat:" + rng.choice(["Gold", "Silicon", "PerfectConductor", "Silver", "Mercury"]),
                                  "mat:" + rng.choice(["Gold", "Silicon", "PerfectConductor", "Vacuum"]),
                                  "mat:" + rng.choice(["Vacuum", "Ethanol"])]}
        if kind == "raw":
            s["mod"] = "raw_PFA"
        TL = 40.0 if kind == "raw" else rng.choice([12.0, 12.0, 3.0, 1.5, 0.5])

        def op(o, K):
            c = rng.choice(["get_f_matsubaras", "get_f_matsubaras", "planeplaneFreeEnergy", "planeplanePressure",
                            "roundTrips", "pressureRoundTrips", "spheresphereForce", "planeplaneFreeEnergyHT",
                            "distance"] + (["spheresphereEnergy"] if kind == "raw" or rng.random() < 0.15 else [])
                           + (["roundTrip", "pressureRoundTrip"] if kind == "pfa" else []))
            L = rng.choice([1.0, 2.0, 1.001])
            T = round(TL / L * rng.choice([1.0, 0.7]), 6)
            if c == "get_f_matsubaras":
                return {"o": o, "c": c, "a": [T, L, K(2) if rng.random() < 0.7 else {"arr": "kz"}] + ([True] if rng.random() < 0.2 else [])}
            if c in ("planeplaneFreeEnergy", "planeplanePressure"):
                sh = [True] if rng.random() < 0.15 else []
                if c == "planeplaneFreeEnergy" and kind == "pfa" and rng.random() < 0.1:
                    T = {"inf": 1}
                return {"o": o, "c": c, "a": [T, L] + sh}
            if c == "planeplaneFreeEnergyHT":
                return {"o": o, "c": c, "a": [L]}
            if c in ("spheresphereForce", "spheresphereEnergy"):
                TT = {"inf": 1} if rng.random() < 0.1 else 3 * TL if c == "spheresphereEnergy" and kind == "pfa" else TL
                return {"o": o, "c": c, "a": [1.0, 1.0, TT, 2.0 + L] if kind == "pfa" else [1.0, 1.0, TT, L]}
            if c == "distance":
                return {"o": o, "c": c, "a": [1.0, 1.0, 2.0 + L, 0.5]}
            return {"o": o, "c": c, "a": [rng.choice([0.5, 1.0]), rng.choice([0.5, 1.5]), L]}
    elif kind == "mat":
        s = {"t": "mat", "mat": rng.choice(["mat:MercurySmith", "mat:U7"]) if rng.random() < 0.25 else matname(rng, p=0.5)}

        def op(o, K):
            c = rng.choice(["epsilon", "mu"])
            return {"o": o, "c": c, "a": [K() if rng.random() < 0.8 else rng.choice([0.5, 1.5])]}
    elif kind == "materials":
        s = {"t": "mod", "name": "materials"}

        def op(o, K):
            return materials_op(rng, o)
    elif kind == "mod_bessel":
        s = {"t": "mod", "name": "bessel_sk"}

        def op(o, K):
            c = rng.choice(["lnknu", "lniknu", "mie_bessels", "trans_bessels", "fnu", "i_fraction"])
            l = rng.choice([0, 1, 2, 3, 5])
            if rng.random() < 0.12:
                K = lambda: {"arr": "kz"}
            if c == "mie_bessels":
                return {"o": o, "c": c, "a": [K(), rng.choice([0, 1]), l + 1]}
            if c == "trans_bessels":
                return {"o": o, "c": c, "a": [K(), l, rng.choice([0, 1])]}
            if c == "fnu":
                return {"o": o, "c": c, "a": [K(), l + 0.5]}
            if c == "i_fraction":
                return {"o": o, "c": c, "a": [K(), {"nd": [0.5, 1.5]}]}
            return {"o": o, "c": c, "a": [K(), l]}
    elif kind == "gaunt":
        s = {"t": "mod", "name": "cython_gaunt"}

        def op(o, K):
            return {"o": o, "c": "gaunt", "a": [rng.randint(1, 4), rng.randint(1, 4), rng.choice([0, 1, -1, 2])]}
    elif kind == "interp":
        xs = [0.5, 1.0, 2.0, 3.0, 4.5]
        s = {"t": "interp", "x": {"arr": "ix"}, "y": {"arr": "iy"}, "xy": xs}

        def op(o, K):
            c = rng.choice(["interpolate", "get_drude_data", "get_drude_data", "epsilon_drude"])
            if c == "epsilon_drude":
                return {"o": o, "c": c, "a": [K(), 40.0, 0.2]}
            return {"o": o, "c": c, "a": [{"arr": rng.choice(["ig", "ig", "ih", "ii", "k0"])}]}
    elif kind == "helper":
        s = {"t": "mod", "name": rng.choice(["helper_functions", "helper_functions", "materials_converter"])}

        def op(o, K):
            if s["name"] == "materials_converter":
                return {"o": o, "c": "transform", "a": [{"list": "osc"}]}
            c = rng.choice(["num_derivative", "num_derivative", "num_derivative", "lfac", "ln_2dbl"])
            if c == "num_derivative":
                return {"o": o, "c": c, "a": [{"arr": rng.choice(["hf", "hg"])}, {"arr": "hx"}]
                        + rng.choice([[], [], [True], [True, 5]])}
            return {"o": o, "c": c, "a": [K()]}
    else:
        s = {"t": "mod", "name": "geometry"}

        def op(o, K):
            c = rng.choice(["dot_3d_matrices", "inv_3d_matrix", "inv_3d_blockmatrix", "sln_det_3d",
                            "sln_det_blockdiagonal", "trace_dot_3d", "balanced_slogdet", "dynamic_scaling",
                            "matrix_append", "single_k_scale"])
            A, B = ({"arr": "m3a"}, {"arr": "m3b"}) if rng.random() < 0.7 else ({"arr": "m1a"}, {"arr": "m1b"})
            if c in ("dot_3d_matrices", "trace_dot_3d"):
                return {"o": o, "c": c, "a": [A, B]}
            if c in ("inv_3d_matrix", "inv_3d_blockmatrix", "balanced_slogdet", "single_k_scale"):
                return {"o": o, "c": c, "a": [rng.choice([A, B])]}
            if c == "sln_det_3d":
                return {"o": o, "c": c, "a": [A, B, B, A]}
            if c == "matrix_append":
                return {"o": o, "c": c, "a": [[A, B, B, A]]}
            if c == "dynamic_scaling":
                return {"o": o, "c": c, "a": [{"arr": "m4"}]}
            if rng.random() < 0.35:
                return {"o": o, "c": c, "a": [{"arr": "m0a"}, {"arr": "m0b"}]}
            return {"o": o, "c": c, "a": [{"arr": "m2a"}, {"arr": "m2b"}]}
    return s, op


def materials_op(rng, o):
    c = rng.choice(["Material", "Material", "Material", "is_sigma_finite", "is_dielectric", "is_magnetic"])
    if c == "Material":
        return {"o": o, "c": c, "a": rng.choice([[], [1e-9], [1e-7], [2e-6]]), "of": "omega_norm"}
    if c == "is_magnetic":
        return {"o": o, "c": c, "a": [rng.choice([[], [4, 1e14]])]}
    return {"o": o, "c": c, "a": [rng.choice([[[1e16, 0, 0]], [[1e16, 0, 5e13], [1e15, 3e14, 0]], [[1e15, 1e15, 0]]])]}


FIXED = {"kz": [0.0, 0.7], "ix": [0.5, 1.0, 2.0, 3.0, 4.5], "iy": [1100.0, 540.0, 260.0, 170.0, 110.0],
         "ig": [0.2, 0.6, 1.5, 2.5, 4.0, 6.0], "ih": [0.3, 0.7, 1.2, 5.0, 9.0], "ii": [0.2, 2.5, 0.6, 1.5, 6.0, 4.0],
         "hg": [3.0, 2.0, 1.5, 1.2, 1.1, 1.05], "tl1": [[2.0], [3.0]], "tl2": [[2.0, 3.0, 4.0]], "m0a": [[0.2]], "m0b": [[0.3]],
         "m1a": [[[0.2]], [[0.4]]], "m1b": [[[0.1]], [[0.3]]], "hx": [1.0, 2.0, 3.0, 4.0, 5.0, 6.0],
         "hf": [-1.0, -0.5, -0.3, -0.25, -0.2, -0.1],
         "m2a": [[0.2, 0.01], [0.02, 0.1]], "m2b": [[0.1, 0.03], [0.01, 0.15]],
         "m3a": [[[0.2, 0.01], [0.02, 0.1]], [[0.3, 0.02], [0.01, 0.2]]],
         "m3b": [[[0.1, 0.03], [0.01, 0.15]], [[0.12, 0.05], [0.02, 0.1]]],
         "m4": [[[[-1.0, -2.0], [-3.0, -1.0]], [[-5.0, -2.0], [-4.0, -6.0]]]]}
OSC = [[0.784, 0.0411], [0.203, 0.112], [0.417, 0.112]]


def used(scn):
    """drop the arrays and lists nothing refers to"""
    names = set()

    def walk(x):
        if isinstance(x, dict):
            for k in ("arr", "list"):
                if k in x and isinstance(x[k], str):
                    names.add(x[k])
            if isinstance(x.get("set"), str):
                names.add(x["set"])
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    walk(scn["objs"])
    walk(scn["tasks"])
    scn["arrays"] = {n: v for n, v in scn["arrays"].items() if n in names}
    scn["lists"] = {n: v for n, v in scn.get("lists", {}).items() if n in names}
    if "mats" in scn:
        text = json.dumps([scn["objs"], scn["lists"], scn["tasks"]])
        scn["mats"] = {n: v for n, v in scn["mats"].items() if '"mat:%s"' % n in text}
    return scn


def near_calc(rng, spec, names):
    """a calculator easily mistaken for spec"""
    s = dict(spec)
    t = s["t"]
    other = lambda: matname(rng, ["Gold", "Silver", "Silicon", "Gold_plasma"], 0.6)
    if t in ("scat", "coated", "pfa"):
        s["mats"] = list(s["mats"])
        i = rng.randrange(len(s["mats"]))
        s["mats"][i] = other() if i < len(s["mats"]) - 1 else medium(rng)
    elif t == "mat":
        s["mat"] = other()
    elif t == "strat" and isinstance(s["mats"], list):
        s["mats"], s["radii"] = list(s["mats"]), list(s["radii"])
        if rng.random() < 0.5:
            s["mats"][rng.randrange(len(s["mats"]) - 1)] = other()
        else:
            i = rng.randrange(len(s["radii"]))
            s["radii"][i] = round(s["radii"][i] * 0.99, 6)
    elif t == "trans":
        w = rng.choice(["mat", "L", "m", "ext", "lmax", "k"])
        if w == "mat":
            s["mat"] = medium(rng)
        elif w == "L":
            s["L"] *= rng.choice([1.1, 1 + 1e-4])
        elif w == "m":
            s["m"] = (s["m"] + 1) % (s["lmax"] + 1)
        elif w == "ext":
            s["ext"] = 1 - s["ext"]
        elif w == "lmax":
            s["lmax"] += 1
            s["lssmax"] += 1
        elif "arr" in (s["k"] or {}):
            s["k"] = {"arr": rng.choice(names)}
    return s


def history_cheap(rng):
    """many calls of functions that cost little"""
    return history_calc(rng, nobj=rng.choice([2, 3, 4]), kinds=CHEAP, nops=rng.randint(6, 14))


def history_calc(rng, ntasks=1, nobj=None, kinds=None, nops=None):
    lists = {"osc": [list(x) for x in OSC]}
    ks = karrays(rng, 4, zeros=False)
    ks.append([0.0005, 0.5, 1.0])
    if rng.random() < 0.5:
        ks.append([1.0, 0.0005])
    arrays = {"k%d" % i: k for i, k in enumerate(ks)}
    names = list(arrays)
    kin = relatives(rng, arrays, names)
    arrays.update({n: v for n, v in FIXED.items()})
    objs, makers = [], []
    for _ in range(nobj or rng.choice([1, 1, 2, 3])):
        if objs and rng.random() < 0.5:
            s, op = near_calc(rng, objs[-1], names), makers[-1]
        else:
            s, op = calculator(rng, lists, kinds)
        if s["t"] == "trans" and s["k"] is None:
            s["k"] = {"arr": rng.choice(names)}
        s.pop("xy", None)
        objs.append(s)
        makers.append(op)
    fixed = {s["k"]["arr"] for s in objs if s["t"] == "trans" and "arr" in s["k"]}

    def K(maxlen=None):
        c = [n for n in names if maxlen is None or len(arrays[n]) <= maxlen]
        return {"arr": rng.choice(c or names)}
    tasks = []
    for _ in range(ntasks):
        ops = []
        for _ in range(nops or (rng.randint(2, 6) if ntasks == 1 else rng.randint(1, 3))):
            free = [n for n in names if n not in fixed]
            if ntasks == 1 and free and rng.random() < 0.15:
                ops.append(mutate_op(rng, {n: arrays[n] for n in names}, free))
                continue
            o = rng.randrange(len(objs))
            op = follow(rng, ops, lambda: makers[o](o, K), objs, kin, arrays, 0.6)
            o = op["o"]
            if rng.random() < 0.2 and ntasks == 1:
                op["scribble"] = 1
            ops.append(op)
        tasks.append(ops)
    return used({"objs": objs, "arrays": arrays, "lists": lists, "mats": USERMATS, "tasks": tasks})


def caller(rng):
    """settings of the process that are the caller's business"""
    w = ["ignore", "warn", "warn", "raise"]
    c = {}
    if rng.random() < 0.8:
        c["err"] = {k: rng.choice(w[:3] if rng.random() < 0.85 else w) for k in ("divide", "over", "under", "invalid")}
    if rng.random() < 0.5:
        c["print"] = {"precision": rng.choice([3, 8, 12]), "suppress": rng.random() < 0.5,
                      "threshold": rng.choice([5, 1000])}
    if rng.random() < 0.4:
        c["threads"] = 2
    return c


# -- several objects ------------------------------------------------------------------
def near(rng, spec):
    """a geometry easily mistaken for spec"""
    s = dict(spec)
    for _ in range(rng.choice([1, 1, 2])):
        w = rng.choice(["r1", "r2", "L", "mat1", "mat2", "mat3", "lmax", "lssmax", "precision", "swap", "evaluation", "l_offset"])
        if s.get("lmax") == "automatic" and rng.random() < 0.4:
            w = "l_offset"
        if w == "l_offset":
            if s.get("lmax") == "automatic":
                s[w] = s.get(w, 1) + 1
        elif w in ("r1", "r2", "L") and isinstance(s[w], float):
            s[w] = s[w] * rng.choice([1 + 1e-4, 1.05, 1 + 1e-6])
        elif w in ("mat1", "mat2"):
            if isinstance(s[w], str):
                s[w] = matname(rng, ["Gold", "Silver", "Gold_Bimonte"], 0.6)
        elif w == "mat3" and isinstance(s["mat1"], str) and isinstance(s["mat2"], str):
            s[w] = medium(rng) if rng.random() < 0.5 else "mat:" + rng.choice(["Water", "U11", "U13"])
        elif w in ("lmax", "lssmax") and isinstance(s.get(w), int):
            s[w] += 1
            if w == "lmax":
                s["lssmax"] = max(s["lssmax"], s["lmax"])
        elif w == "precision":
            s[w] = rng.choice([1e-2, 1e-4, 1e-6])
        elif w == "swap" and s["L"] > 0 and not isinstance(s["r1"], dict) and not isinstance(s["r2"], dict) \
                and isinstance(s["r1"], float) and isinstance(s["r2"], float) and s["L"] > s["r1"] + s["r2"]:
            s["r1"], s["r2"] = s["r2"], s["r1"]
        elif w == "evaluation":
            s[w] = "trace" if s.get(w) != "trace" else "lndet"
    return s


def history_many(rng, ntasks=1):
    lists = {}
    g0 = geom(rng, small=True, lists=lists)
    objs = [g0]
    for _ in range(rng.choice([1, 1, 2])):
        objs.append(near(rng, rng.choice(objs)))
    if lists and rng.random() < 0.7:            # another object over the very same lists
        for w in "12":
            if isinstance(g0["mat" + w], dict):
                objs.append({"t": "strat", "mats": g0["mat" + w], "radii": g0["r" + w]})
                break
    if rng.random() < 0.5:
        objs.append(thermo(rng, rng.randrange(len([o for o in objs if o["t"] == "geom"])), small=True))
    if rng.random() < 0.12:
        objs.append({"t": "mod", "name": "materials"})
    if rng.random() < 0.3:
        objs.append({"t": "scat", "mats": [matname(rng, ["Gold", "Silver"], 0.7), medium(rng)]})
    arrays = {"k%d" % i: k for i, k in enumerate(karrays(rng, 3))}
    names = list(arrays)
    kin = relatives(rng, arrays, names)

    def op_for(o):
        s = objs[o]
        if s["t"] == "geom":
            return geom_op(rng, o, s, names)
        if s["t"] == "thermo":
            return thermo_op(rng, o, s, names, e0=False)
        nz = [n for n in names if arrays[n][0] != 0]
        if s["t"] == "mod":
            return materials_op(rng, o)
        if s["t"] == "scat":
            return {"o": o, "c": "mie", "a": [{"arr": rng.choice(nz)}, 1, rng.choice([1, 2, 3]), 1.0]}
        return {"o": o, "c": "mie_stratified", "a": [{"arr": rng.choice(nz)}, 1, rng.choice([1, 2])]}
    tasks = []
    for _ in range(ntasks):
        ops = []
        for _ in range(rng.randint(3, 8) if ntasks == 1 else rng.randint(1, 3)):
            if ntasks == 1 and rng.random() < 0.15:
                gi = rng.randrange(len(objs))
                if objs[gi]["t"] == "geom":
                    ops.append({"drop": gi})
                    last = [op for op in ops if op.get("o") == gi]
                    alike = [i for i, s in enumerate(objs) if s["t"] == "geom" and i != gi]
                    if last and alike and rng.random() < 0.6:       # its successor is asked the same
                        ops.append(dict(rng.choice(last), o=rng.choice(alike)))
                    continue
            if objs[-1]["t"] == "mod" and rng.random() < 0.25:
                ops.append(op_for(len(objs) - 1))
                continue
            ops.append(follow(rng, ops, lambda: op_for(rng.randrange(len(objs))), objs, kin, arrays, 0.5))
        if ntasks == 1 and rng.random() < 0.3:
            # the orders of the expansion an object reports stem from its own evaluations
            o = rng.choice([i for i, s in enumerate(objs) if s["t"] == "geom"])
            ops.append({"o": o, "c": "attrs", "a": ["roundTrip_dct"], "solo": 1})
        tasks.append(ops)
    return used({"objs": objs, "arrays": arrays, "lists": lists, "mats": USERMATS, "tasks": tasks})


def succession(rng):
    """objects that come and go one after the other, each made of things of its own"""
    g = geom(rng, small=True, strat=False)
    if g["lmax"] == "automatic":
        g["lmax"] = g["lssmax"] = 2
    w = rng.choice(["mat1", "mat1", "mat2", "mat3", "r1", "L"])
    if w == "mat3":
        vs = ["mat:U11", "mat:U12", "mat:U13"]
    elif w in ("mat1", "mat2"):
        vs = ["mat:U%d" % i for i in rng.sample([1, 2, 4, 5, 8, 9], 3)]
    else:
        vs = [g[w] * f for f in (1, 1.01, 0.97)]
    objs = [dict(g, **{w: v}) for v in vs]
    arrays = {"k%d" % i: k for i, k in enumerate(karrays(rng, 2))}
    ask = [geom_op(rng, 0, g, list(arrays), scrib=False) for _ in range(rng.choice([1, 1, 2]))]
    ops = []
    for o in [0, 1, 2, 0][:rng.choice([2, 3, 4])]:
        ops += [dict(a, o=o) for a in ask] + [{"drop": o}]
    return used({"objs": objs, "arrays": arrays, "lists": {}, "mats": USERMATS, "tasks": [ops]})


# -- threads --------------------------------------------------------------------------
def threads_geom(rng):
    lists = {}
    spec = geom(rng, small=True, lists=lists)
    arrays = {"k%d" % i: k for i, k in enumerate(karrays(rng, rng.choice([1, 2, 3])))}
    tasks = [[geom_op(rng, 0, spec, list(arrays), scrib=False) for _ in range(rng.choice([1, 1, 2, 3]))]
             for _ in range(rng.choice([2, 2, 3]))]
    if rng.random() < 0.25:
        tasks[1][0] = dict(tasks[0][0])
    pre = []
    if rng.random() < 0.3:
        pre = [geom_op(rng, 0, spec, list(arrays), scrib=False)]
    return {"objs": [spec], "arrays": arrays, "lists": lists, "mats": USERMATS, "tasks": tasks,
            "before": pre}


def threads_thermo(rng):
    lists = {}
    g = geom(rng, small=True, lists=lists)
    g["precision"] = max(g.get("precision", 1e-4), 1e-4)
    if isinstance(g["lmax"], int):
        g["lmax"] = min(g["lmax"], 2)
        g["lssmax"] = min(g["lssmax"], g["lmax"] + 1)
    arrays = {"k%d" % i: k for i, k in enumerate(karrays(rng, 2) + [[0.0, 0.5]])}
    objs = [g, thermo(rng, 0, small=True)]
    if rng.random() < 0.4:
        objs.append(thermo(rng, 0, small=True))
    tasks = []
    for _ in range(rng.choice([2, 2, 3])):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            if rng.random() < 0.12:
                ops.append(geom_op(rng, 0, g, list(arrays), scrib=False))
            elif tasks and rng.random() < 0.25:
                ops.append(dict(rng.choice(tasks[0])))          # what another thread asks as well
            else:
                o = rng.randrange(1, len(objs))
                ops.append(thermo_op(rng, o, objs[o], list(arrays), scrib=False, e0=rng.random() < 0.5))
        tasks.append(ops)
    return used({"objs": objs, "arrays": arrays, "lists": lists, "mats": USERMATS, "tasks": tasks})


# -- Matsubara slicing ------------------------------------------------------------------
def slicing(rng):
    lists = {}
    g = geom(rng, small=True, lists=lists, trace=rng.random() < 0.1)
    g["precision"] = rng.choice([1e-3, 1e-4, 1e-5]) if g["lmax"] != "automatic" else 1e-2
    t = thermo(rng, 0)
    n = t["nmax"]
    ops = []
    arrays = {}
    for i in range(rng.randint(2, 5)):
        r = rng.random()
        if r < 0.55:
            nmin = rng.choice([0, 0, 0, 1, min(2, n), n, rng.randint(0, n)])
            op = {"o": 1, "c": "get_f_matsubaras", "a": [nmin]}
            if rng.random() < 0.85:
                op["a"].append(rng.choice([1, 2, 3, 4, 5, 7, n, n + 1, max(1, n - 1), 50, rng.randint(1, n + 2)]))
            ops.append(op)
        elif r < 0.75:
            ks = sorted(rng.sample([0.0003, 0.0009, 0.002, 0.05, 0.3, 0.9, 1.4, 2.2, 3.0, 4.5], rng.choice([2, 3, 4])))
            rng.shuffle(ks)
            nm = "p%d" % i
            arrays[nm] = ks
            ops.append({"o": 0, "c": "mSumme", "a": [{"arr": nm}], "perm": 1})
        elif r < 0.82:
            ops.append({"o": 1, "c": "free_energy", "a": []})
        else:
            a = rng.choice([0, 0, 1, 3, 7])
            b = a + rng.choice([0, 0, 1, 2, 5, 9, 16])
            op = {"slicewise": [a, b, rng.choice([1, 2, 3, 5, b - a + 1, b - a + 2, max(1, b - a), 200])]}
            if rng.random() < 0.15:
                a = rng.choice([0, 0, 1, 50, 199, 200])
                b = a + rng.choice([48, 49, 50, 51, 99, 100, 198, 199, 200, 201, 400, 450, 1000])
                op = {"slicewise": [a, b] + rng.choice([[], [], [50], [100], [200], [7], [b - a]])}
            op["fn"] = rng.choice(["line", "decay", "signs", "late"])
            if rng.random() < 0.3:
                op["fail"] = rng.randint(a, b)
            ops.append(op)
    return {"objs": [g, t], "arrays": arrays, "lists": lists, "mats": USERMATS, "tasks": [ops],
            "record": 1}


# -- faults and schedules -----------------------------------------------------------------
def place(rng, n, hot):
    """a point of an operation with n of them; half next to where state was seen to change"""
    if n <= 0:
        return 1
    if hot and rng.random() < 0.6:
        return max(1, min(n, rng.choice(hot) + rng.choice([-2, -1, 0, 0, 1, 2])))
    return rng.randint(1, n)


def with_faults(rng, base, prof):
    scn = dict(base)
    ops = [(t, i) for t, os_ in enumerate(base["tasks"]) for i, op in enumerate(os_)
           if prof["prof_n"].get((t, i), 0) > 0]
    if not ops:
        return None
    faults = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        # an interrupt followed by further operations says more than one at the end
        t, i = rng.choice(ops[:-1] if len(ops) > 1 and rng.random() < 0.85 else ops)
        faults.append({"task": t, "op": i, "point": place(rng, prof["prof_n"][(t, i)], prof["prof_hot"].get((t, i))),
                       "exc": rng.choice(EXCS)})
    scn["faults"] = sorted(faults, key=lambda f: (f["task"], f["op"], f["point"]))
    return scn


def with_preempts(rng, base, prof, maxn=6):
    scn = dict(base)
    ops = [(t, i) for t, os_ in enumerate(base["tasks"]) for i, op in enumerate(os_)
           if prof["prof_n"].get((t, i), 0) > 0]
    if not ops:
        return None
    nt = len(base["tasks"])
    pre = []
    hot = [x for x in ops if prof["prof_hot"].get(x)]
    pairs = [(x, y) for x in hot for y in hot if x[0] != y[0] and y[1] == 0]
    if pairs and rng.random() < 0.3:
        # the first is stopped where state changes, the second as well; the first ends before the second goes on
        (a, i), (b, j) = rng.choice(pairs)
        for (t, o), to in (((a, i), b), ((b, j), a)):
            q = rng.choice(prof["prof_hot"][(t, o)]) + rng.choice([0, 0, 1, 2])
            pre.append({"task": t, "op": o, "point": max(1, min(prof["prof_n"][(t, o)], q)), "to": to})
        scn["preempt"] = sorted(pre, key=lambda f: (f["task"], f["op"], f["point"]))
        scn["first"] = a
        return scn
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4, maxn])):
        t, i = rng.choice(ops)
        pre.append({"task": t, "op": i, "point": place(rng, prof["prof_n"][(t, i)], prof["prof_hot"].get((t, i))),
                    "to": rng.choice([x for x in range(nt) if x != t])})
    scn["preempt"] = sorted(pre, key=lambda f: (f["task"], f["op"], f["point"]))
    scn["first"] = rng.randrange(nt)
    return scn


def variants(rng, base, prof, n, faults, preempts):
    out = []
    multi = len(base["tasks"]) > 1
    for _ in range(n):
        s = dict(base)
        if multi and preempts:
            s = with_preempts(rng, s, prof) or s
        if faults and (not multi or rng.random() < faults / 2):
            s = with_faults(rng, s, prof) or s
        if s.get("faults") or s.get("preempt"):
            out.append(s)
    return out

"""Scripts for layers, detectors, configurations and fluorescence.
Everything here only chooses inputs: what the library must answer is in spec/."""
import math
import gen_inst
import gen_lib
from gen_elem import num
from gen_lib import KINDS, QUERY_EL, energy, energies, formula, known

use = gen_lib.use
SUBST = ["Si", "Fe", "Cu", "SiO2", "H2O", "Fe2O3", "CaCO3", "Pb", "Sr", "BaCl2", "Ag", "C", "O"]


def new_lib(rng, kind=None):
    kind = kind or rng.choice(["epdl", "epdl", "files1", "pymca", "files0"])
    return kind, dict({"op": "lib.new", "id": "l"}, **KINDS[kind])


# ------------------------------------------------------------------ layers
def elements_of(f):
    out, k = [], 0
    while k < len(f):
        for n in (2, 1):
            if f[k:k + n] in QUERY_EL:
                out.append(f[k:k + n])
                k += n - 1
                break
        k += 1
    return out


def layer_new(rng, id, names, thick=None):
    o = {"op": "lay.new", "id": id, "name": rng.choice(names)}
    if rng.random() < 0.85:
        o["density"] = num(10 ** rng.uniform(-3, 1.2)) if rng.random() < 0.9 else rng.choice(["0.0", "-1.0"])
    if rng.random() < 0.85:
        o["thickness"] = num(10 ** rng.uniform(-5, 0) if thick is None else thick) if rng.random() < 0.93 else rng.choice(["0.0", "-0.5"])
    if float(o.get("density", 0)) < 0 and float(o.get("thickness", 0)) < 0:
        o["density"] = "1.0"
    if rng.random() < 0.35:
        o["funny"] = num(rng.choice([0.0, 0.25, 0.5, 0.9, 1.0]))
    return o


ANGLES = ["90.0", "45.0", "30.0", "10.0", "89.5", "1.0", "120.0", "-30.0", "-90.0", "60.0", "45.5"]


def own_material(rng, id, names, lib_mats=()):
    """a material of the caller's, whose composition need not be known to any library"""
    # the name of a material does not say what it is made of
    n = rng.choice(["glass", "paint", "Air 2", "x"]) if rng.random() < 0.6 else rng.choice(list(names) + list(lib_mats) * 6)
    o = {"op": "mat.new", "id": id, "name": n}
    if rng.random() < 0.7:
        o["density"] = num(10 ** rng.uniform(-2, 1.2))
    if rng.random() < 0.7:
        o["thickness"] = num(10 ** rng.uniform(-4, 0))
    parts = list(dict.fromkeys(rng.choice(list(lib_mats)) if lib_mats and rng.random() < 0.3 else formula(rng, 2, QUERY_EL) if rng.random() < 0.6 else rng.choice(names)
                               for _ in range(rng.randint(1, 3))))
    if rng.random() < 0.05:
        parts.append("Unheard of")
    return [o, {"op": "mat.setComp", "id": id, "form": rng.choice(["map", "vec"]), "names": parts, "amounts": [num(10 ** rng.uniform(-1, 1)) for _ in parts]}]


def lib_materials(rng, lib="l"):
    out, names = [], []
    for n in rng.sample(["Steel", "Kapton tape", "M 4", "air"], rng.randint(0, 2)):
        parts = list(dict.fromkeys(formula(rng, 2, QUERY_EL) for _ in range(rng.randint(1, 3))))
        out += [{"op": "lib.addMaterial", "id": lib, "name": n, "density": num(rng.uniform(0.1, 9)), "thickness": num(10 ** rng.uniform(-3, 0))},
                {"op": "lib.setMatComp", "id": lib, "name": n, "form": "map", "names": parts, "amounts": [num(rng.uniform(0.1, 2)) for _ in parts]}]
        names.append(n)
    return out, names


def layer_query(rng, id, kind, near, det=False):
    q = rng.choice(["comp", "mu", "muvec", "trans", "trans", "trans", "transvec", "transvec", "families"])
    o = {"op": "lay.q", "id": id, "lib": "l", "q": q}
    if det:
        o["kind"] = "det"
    if q in ("mu", "trans", "families"):
        o["energy"] = energy(rng, near, kind)
    if q in ("muvec", "transvec"):
        o["energies"] = energies(rng, 4, near, kind)
    if q in ("trans", "transvec") and rng.random() < 0.6:
        o["angle"] = rng.choice(ANGLES)
    return o


def script_layer(rng):
    kind, new = new_lib(rng)
    ops = [new]
    more, mats = lib_materials(rng)
    ops += more
    names = SUBST + mats * 3 + [formula(rng, 1, QUERY_EL)]
    if rng.random() < 0.15:
        names += ["", "Unheard of", "-"]
    ids = []
    det = {}
    for i in range(rng.randint(1, 3)):
        n = "y%d" % i
        o = layer_new(rng, n, names)
        if rng.random() < 0.25:
            o["op"] = "det.new"
            det[n] = True
        ops.append(o)
        ids.append(n)
    count = 0
    for _ in range(rng.randint(8, 18)):
        n = rng.choice(ids)
        k = {"kind": "det"} if n in det else {}
        r = rng.random()
        if r < 0.1:
            ops.append(dict({"op": "lay.setMaterial", "id": n, "name": rng.choice(names)}, **k))
        elif r < 0.2:
            count += 1
            ops += own_material(rng, "m%d" % count, SUBST, mats) + [dict({"op": "lay.setMaterial", "id": n, "mat": "m%d" % count}, **k)]
        elif r < 0.27:
            ops.append(dict({"op": "lay.setDensity", "id": n, "v": num(rng.choice([rng.uniform(0.01, 10), rng.uniform(0.01, 10), 0.0, -2.0]))}, **k))
        elif r < 0.34:
            ops.append(dict({"op": "lay.setThickness", "id": n, "v": num(rng.choice([10 ** rng.uniform(-4, 0), 10 ** rng.uniform(-4, 0), 0.0, -2.0]))}, **k))
        elif r < 0.44:
            ops.append(dict({"op": "lay.get", "id": n}, **k))
        elif r < 0.47 and mats:
            ops += [{"op": "lib.removeMaterial", "id": "l", "name": rng.choice(mats)}] if rng.random() < 0.4 else [
                {"op": "lib.setMatComp", "id": "l", "name": rng.choice(mats), "form": "map", "names": [rng.choice(SUBST)], "amounts": ["1.0"]}]
        else:
            ops.append(layer_query(rng, n, kind, rng.sample(QUERY_EL, 3), n in det))
    return ops


# ------------------------------------------------------------------ detectors
def det_set(rng, id):
    w = rng.choice(["area", "diameter", "distance", "minE", "minI", "maxN", "clear"])
    o = {"op": "det.set", "id": id, "what": w}
    if w in ("area", "diameter", "distance"):
        o["v"] = num(rng.choice([rng.uniform(0.01, 5), rng.uniform(0.01, 5), rng.uniform(0.01, 50), 0.0, -1.0]))
    elif w == "minE":
        o["v"] = num(rng.choice([0.001, 0.01, 0.3]))
    elif w == "minI":
        o["v"] = num(rng.choice([1e-9, 1e-7, 1e-4, 1e-2]))
    elif w == "maxN":
        o["v"] = rng.choice([0, 1, 4, 10])
    return o


def script_detector(rng):
    kind, new = new_lib(rng)
    ops = [new]
    more, mats = lib_materials(rng)
    ops += more
    names = ["Si", "Cu", "Ba", "CaCl2", "Fe", "PbO", "Ag"] + mats + (["Unheard of", ""] if rng.random() < 0.1 else [])
    ids = []
    for i in range(rng.randint(1, 2)):
        n = "d%d" % i
        o = dict(layer_new(rng, n, names), op="det.new")
        if rng.random() < 0.06:
            o.pop("name")
        ops.append(o)
        ids.append(n)
    near = ["Si", "Cu", "Ba", "Ca", "Fe", "Pb", "Ag"]
    pool = [energy(rng, near, kind) for _ in range(3)]
    count = 0
    for _ in range(rng.randint(10, 22)):
        n = rng.choice(ids)
        r = rng.random()
        if r < 0.25:
            ops.append(det_set(rng, n))
            if rng.random() < 0.4:
                ops.append({"op": "det.get", "id": n})
        elif r < 0.32:
            ops.append({"op": "lay.setMaterial", "kind": "det", "id": n, "name": rng.choice(names)})
        elif r < 0.4:
            count += 1
            ops += own_material(rng, "m%d" % count, names[:6], mats) + [{"op": "lay.setMaterial", "kind": "det", "id": n, "mat": "m%d" % count}]
        elif r < 0.45:
            ops += gen_lib.lib_change(rng, kind)
        elif r < 0.5:
            ops.append({"op": "lib.cache", "id": "l", "what": rng.choice(["escapeEnable", "escapeClear"]), "flag": rng.choice([0, 1, 1])})
            if ops[-1]["what"] == "escapeClear":
                ops[-1].pop("flag")
        elif r < 0.54:
            ops.append({"op": "det.get", "id": n})
        else:
            o = {"op": "det.escape", "id": n, "lib": "l", "energy": rng.choice(pool) if rng.random() < 0.8 else energy(rng, near, kind)}
            if rng.random() < 0.7:
                o["label"] = rng.choice(["A", "B", "Fe KL3"])
            if rng.random() < 0.6:
                o["update"] = rng.choice([0, 0, 1])
            ops.append(o)
    return ops


# ------------------------------------------------------------------ PyMca configuration files
def q_list(values):
    return ", ".join(values)


def fit_section(rng, name):
    n = rng.choice([0, 1, 1, 2, 3, 5])
    E = [num(rng.uniform(3, 60)) for _ in range(n)]
    if n > 1 and rng.random() < 0.3:
        E[rng.randrange(n)] = "None" if rng.random() < 0.7 else "-666.0"
    out = ["[%s]" % name]
    lines = []
    flags = [str(rng.choice([1, 1, 1, 0])) for _ in range(n)]
    W = [num(rng.choice([1.0, 0.1, rng.uniform(0, 5)])) for _ in range(n)]
    S = [str(rng.choice([0, 1, 1])) for _ in range(n)]
    if rng.random() < 0.1 and n:
        k = rng.randrange(n)
        q = rng.choice("EEWS")
        if q == "E":
            E[k] = rng.choice(["-3.0", "0.0", "abc", ""])
        elif q == "W":
            W[k] = rng.choice(["-1.0", "0.0", "abc"])
        else:
            S[k] = "-1"
    if n or rng.random() < 0.5:
        lines.append("energy = " + q_list(E))
    r = rng.random()
    if r < 0.07 and n:
        flags = flags[:-1] if rng.random() < 0.5 else flags + ["1"]
    elif r < 0.12 and n:
        W = W[:-1]
    elif r < 0.17 and n:
        S = S[:-1]
    if rng.random() < 0.85:
        lines.append("energyflag = " + q_list(flags))
    if rng.random() < 0.85:
        lines.append("energyweight = " + q_list(W))
    if rng.random() < 0.85:
        lines.append("energyscatter = " + q_list(S))
    lines += rng.sample(["stripflag = 1", "fitfunction = 0", "deltachi = 0.001", "use_limit = 1", "xmin = 62"], rng.randint(0, 3))
    rng.shuffle(lines)
    return out + lines


CASES = ["%s", "%s", "%s", "%s"]


def cased(rng, k):
    return rng.choice([k, k, k.upper(), k.lower()])


def material_section(rng, name):
    parts = list(dict.fromkeys(formula(rng, 2, QUERY_EL) for _ in range(rng.randint(1, 3))))
    am = [num(rng.uniform(0.01, 1)) for _ in parts]
    lines = []
    if rng.random() < 0.85:
        lines.append("Density = " + num(10 ** rng.uniform(-2, 1)))
    if rng.random() < 0.85:
        lines.append("Thickness = " + num(10 ** rng.uniform(-4, 0)))
    if rng.random() < 0.8:
        lines.append(rng.choice(["Comment = ", "comment = "]) + rng.choice(["dry air", "a foil", "New material"]))
    r = rng.random()
    if r < 0.03:
        am = am[:-1] or ["1.0", "2.0"]
    elif r < 0.06:
        am[0] = rng.choice(["-0.5", "abc", "0.0"])
    elif r < 0.08:
        lines.append("density = " + rng.choice(["0.0", "-1.0"]))
    lines.append(cased(rng, "CompoundList") + " = " + q_list(parts) + ("," if rng.random() < 0.1 else ""))
    lines.append(rng.choice(["CompoundFraction", "CompoundFraction", "CompoundFractions", "compoundfraction"]) + " = " + q_list(am))
    rng.shuffle(lines)
    return ["[Materials.%s]" % name] + lines


def table_section(rng, parent, name):
    n = rng.randint(1, 4)
    E = sorted(rng.sample(range(1, 60), n))
    T = [num(rng.random()) for _ in E]
    r = rng.random()
    E = [num(e) for e in E]
    if r < 0.04:
        T = T[:-1]
    elif r < 0.07:
        rng.shuffle(E)
    elif r < 0.1:
        T[0] = "-0.5"
    lines = ["energy = " + q_list(E), "transmission = " + q_list(T)]
    if rng.random() < 0.9:
        lines.append("use = " + str(rng.choice([0, 1, 1, 1])))
    if rng.random() < 0.5:
        lines.append("comment = " + rng.choice(["measured", "x"]))
    return ["[%s.%s]" % (parent, name)] + lines


def row(rng, names, funny=True, flag=None):
    f = str(rng.choice([1, 1, 1, 0]) if flag is None else flag)
    v = [f, rng.choice(names), num(10 ** rng.uniform(-3, 1)) if rng.random() < 0.95 else rng.choice(["-1.0", "0.0"]), num(10 ** rng.uniform(-4, 0)) if rng.random() < 0.95 else "0.0"]
    if float(v[2]) < 0 and float(v[3]) <= 0:
        v[2] = "1.0"
    if funny:
        v.append(num(rng.choice([1.0, 1.0, 0.5, 0.9])))
    return v


def config_lines(rng, tame=False):
    """a PyMca configuration; tame: nothing wrong with it"""
    out = []
    head = rng.choice(["fit", "fit", "fit", "Fit", "result.config"])
    mats = rng.sample(["Air", "Gold", "Mylar", "Kapton", "Teflon"], rng.randint(0, 3))
    names = SUBST + mats * 4
    blocks = [fit_section(rng, head)]
    if head == "result.config" and rng.random() < 0.3:
        blocks = [["[result]", "a = 1"]] + blocks
    for m in mats:
        blocks.append(material_section(rng, m))
    for p in ("UserBeamFilters", "UserAttenuators"):
        for k in range(rng.choice([0, 0, 1, 2])):
            blocks.append(table_section(rng, p, "%s%d" % (rng.choice(["Foil", "table", "Cap"]), k)))
    if rng.random() < 0.92:
        at = ["[attenuators]"]
        rows = []
        for k in range(rng.choice([0, 1, 2, 2])):
            rows.append("BeamFilter%d = " % k + q_list(row(rng, names)))
        for k in rng.sample(["atmosphere", "deadlayer", "absorber", "window", "contact", "Filter 6"], rng.randint(0, 4)):
            rows.append("%s = " % k + q_list(row(rng, names)))
        multi = rng.random() < 0.5
        if rng.random() < 0.9:
            rows.append("Matrix = " + q_list(row(rng, ["MULTILAYER"] if multi else names, False, 1 if rng.random() < 0.93 else 0) +
                                             [num(rng.choice([45.0, 30.0, 10.5])), num(rng.choice([45.0, 60.0, 15.25])), str(rng.choice([0, 0, 1])), num(rng.choice([90.0, 75.5]))]))
        if rng.random() < 0.75:
            rows.append("Detector = " + q_list(row(rng, names)))
        if not tame and rng.random() < 0.06 and rows:
            k = rng.randrange(len(rows))
            r = rng.random()
            rows[k] = rows[k].rsplit(",", rng.randint(1, 4))[0] if r < 0.7 else rows[k].split("=")[0] + "= " if r < 0.85 else rows[k].split("=")[0] + "= abc, " + rows[k].split(",", 1)[-1]
        rng.shuffle(rows)
        blocks.append(at + rows)
        if multi or rng.random() < 0.1:
            ml = ["[multilayer]"]
            for k in range(rng.randint(0, 4)):
                ml.append("Layer%d = " % k + q_list(row(rng, names, rng.random() < 0.3)))
            if not tame and rng.random() < 0.05 and len(ml) > 1:
                ml[-1] = ml[-1].rsplit(",", rng.randint(1, 2))[0]
            blocks.append(ml)
    if rng.random() < 0.7:
        c = ["[concentrations]"]
        if rng.random() < 0.8:
            c.append("distance = " + (num(rng.uniform(0.1, 20)) if rng.random() < 0.95 else rng.choice(["0.0", "-1.0", "abc"])))
        if rng.random() < 0.8:
            c.append("area = " + (num(rng.uniform(0.01, 5)) if rng.random() < 0.95 else rng.choice(["0.0", "-1.0"])))
        c += rng.sample(["flux = 10000.0", "time = 1.0", "usematrix = 0", "reference = Auto"], rng.randint(0, 3))
        rng.shuffle(c)
        blocks.append(c)
    if rng.random() < 0.3:
        blocks.append(["[peaks]", "Fe = K", "Pb = L, M"])
    if not tame:
        r = rng.random()
        if r < 0.02:
            blocks = blocks[1:]
        elif r < 0.04:
            blocks.append([rng.choice(["[Materials.]", "[UserBeamFilters.]", "[a[b]", 'q = "unmatched'])])
    rng.shuffle(blocks)
    for b in blocks:
        out += b + ([""] if rng.random() < 0.6 else [])
    return out


def config_file(rng, path, tame=False):
    return {"op": "file", "path": path, "lines": config_lines(rng, tame), "last": rng.choice([0, 1])}


def script_config(rng):
    ops = []
    kind, new = new_lib(rng, "epdl")
    asks = rng.random() < 0.4
    if asks:
        ops.append(new)
    x = "xrf" if rng.random() < 0.6 else "cfg"
    files = ["p%d.cfg" % i for i in range(rng.choice([1, 1, 2, 3]))]
    for f in files:
        ops.append(config_file(rng, f, rng.random() < 0.5))
    if x == "xrf" and rng.random() < 0.3:
        ops += [{"op": "xrf.new", "id": "x"}, {"op": "xrf.new", "id": "x", "file": rng.choice(files + (["absent.cfg"] if rng.random() < 0.1 else []))}]
    else:
        ops.append({"op": x + ".new", "id": "x"})
    ops.append({"op": x + ".get", "id": "x"})
    for _ in range(rng.randint(1, 4)):
        ops.append({"op": x + ".read", "id": "x", "file": rng.choice(files * 6 + ["absent.cfg"])})
        ops.append({"op": x + ".get", "id": "x"})
        r = rng.random()
        if r < 0.3:
            ops += setting(rng, x, "x", len(ops)) + [{"op": x + ".get", "id": "x"}]
        elif x == "xrf" and r < 0.45:
            ops += [{"op": "cfg.from", "id": "c", "xrf": "x"}, {"op": "cfg.get", "id": "c"}]
        elif x == "xrf" and r < 0.55:
            ops += [{"op": "xrf.copy", "id": "z", "from": "x"}, {"op": "xrf.get", "id": "z"}]
        if x == "xrf" and asks:
            ops += [{"op": "lay.new", "id": "q", "name": rng.choice(["Air", "Gold", "Mylar", "Kapton", "Teflon", "Fe"]), "density": "1.0", "thickness": "0.001"}]
            ops += [layer_ask(rng, "x", "q", "epdl") for _ in range(rng.randint(1, 3))]
            ops += [{"op": "xrf.q", "id": "x", "q": "geomEff", "layer": k} for k in range(rng.randint(0, 4))]
    return ops


def replay_files(files, size=15):
    """every file of MCConfigFile, read after others and alone"""
    out = []
    for k in range(0, len(files), size):
        x = "xrf" if (k // size) % 2 else "cfg"
        ops = [{"op": x + ".new", "id": "x"}]
        for i, f in enumerate(files[k:k + size]):
            ops += [{"op": "file", "path": "r.cfg", "lines": f, "last": 1}, {"op": x + ".read", "id": "x", "file": "r.cfg"}, {"op": x + ".get", "id": "x"}]
            if x == "xrf":
                ops += [{"op": "xrf.new", "id": "y"}, {"op": "xrf.new", "id": "y", "file": "r.cfg"}, {"op": "xrf.get", "id": "y"}]
        out.append(ops)
    return out


def layer_ask(rng, x, lay, kind):
    q = rng.choice(["layComp", "layMu", "layMuvec", "layTrans", "layTransvec", "layFamilies"])
    o = {"op": "xrf.q", "id": x, "lib": "l", "lay": lay, "q": q}
    near = rng.sample(QUERY_EL, 3)
    if q in ("layMu", "layTrans", "layFamilies"):
        o["energy"] = energy(rng, near, kind)
    if q in ("layMuvec", "layTransvec"):
        o["energies"] = energies(rng, 3, near, kind)
    if q in ("layTrans", "layTransvec") and rng.random() < 0.6:
        o["angle"] = rng.choice(ANGLES)
    return o


# ------------------------------------------------------------------ piece by piece
def lay_new(i, n, d, t):
    return {"op": "lay.new", "id": i, "name": n, "density": d, "thickness": t}


def setting(rng, x, id, k):
    """one part of the configuration given by the caller"""
    w = rng.choice(["beam", "beam", "single", "filters", "userFilters", "sample", "sample", "sample", "attenuators", "userAttenuators", "detector", "geometry"] +
                   (["sample1", "sampleName"] if x == "xrf" else []))
    o = {"op": x + ".set", "id": id, "what": w}
    pre = []
    t = "%s%d" % (w, k)
    if w == "beam":
        b = gen_inst.beam_set(rng)
        if rng.random() < 0.5:
            pre = [{"op": "beam.new", "id": t}, dict(b, id=t)]
            o["beam"] = t
        else:
            for f in ("energy", "weight", "characteristic", "divergency"):
                o[f] = b.get(f, [])
    elif w == "single":
        o["energy"] = num(rng.uniform(1, 60))
        if rng.random() < 0.5:
            o["divergency"] = num(rng.uniform(0, 2))
    elif w in ("filters", "attenuators", "sample"):
        n = rng.randint(0, 3)
        pre = [layer_new(rng, "%s_%d" % (t, i), SUBST) for i in range(n)]
        o["layers"] = [p["id"] for p in pre]
        if rng.random() < 0.25 and n:
            pre += own_material(rng, t + "m", SUBST) + [{"op": "lay.setMaterial", "id": rng.choice(o["layers"]), "mat": t + "m"}]
        if w == "sample":
            if x == "cfg" or rng.random() < 0.6:
                o["ref"] = rng.choice(list(range(max(1, n))) * 4 + [n, n + 1])
    elif w in ("userFilters", "userAttenuators"):
        n = rng.randint(0, 2)
        for i in range(n):
            pre += [{"op": "tt.new", "id": "%s_%d" % (t, i), "name": "tab%d" % i}, {"op": "tt.set", "id": "%s_%d" % (t, i), "form": "vec", "energy": ["1.0", "20.0", "40.0"],
                                                                                  "transmission": [num(rng.random()) for _ in range(3)]}]
        o["tables"] = ["%s_%d" % (t, i) for i in range(n)]
    elif w == "detector":
        pre = [dict(layer_new(rng, t, SUBST), op="det.new"), {"op": "det.set", "id": t, "what": "diameter", "v": num(rng.choice([0.0, 0.5, 1.0]))},
               {"op": "det.set", "id": t, "what": "distance", "v": num(rng.uniform(0.1, 10))}]
        o["det"] = t
    elif w == "geometry":
        o["alphaIn"], o["alphaOut"] = num(rng.choice([45.0, 30.0, 80.5])), num(rng.choice([45.0, 15.0, 60.25]))
        if rng.random() < 0.6 or x == "cfg":
            o["scattering"] = num(rng.choice([90.0, 45.0, 120.0] + ([-1.0] if x == "xrf" else [])))
    elif w == "sample1":
        pre = [layer_new(rng, t, SUBST)]
        o["layer"] = t
    elif w == "sampleName":
        o["name"] = rng.choice(SUBST)
        if rng.random() < 0.8:
            o["density"] = num(rng.uniform(0.1, 10))
        if rng.random() < 0.8:
            o["thickness"] = num(10 ** rng.uniform(-4, 0))
    return pre + [o]


def script_hold(rng):
    """what was put in is what is found, in every copy, until it is replaced"""
    x = rng.choice(["xrf", "xrf", "cfg"])
    ops = [{"op": x + ".new", "id": "x0"}, {"op": x + ".get", "id": "x0"}]
    ids = ["x0"]
    if rng.random() < 0.3:
        ops += [config_file(rng, "h.cfg", True)]
    for _ in range(rng.randint(3, 9)):
        n = rng.choice(ids)
        ops += setting(rng, x, n, len(ops))
        if ops[0]["op"] and any(o["op"] == "file" for o in ops) and rng.random() < 0.15:
            ops.append({"op": x + ".read", "id": n, "file": "h.cfg"})
        if rng.random() < 0.25 and x == "xrf" and len(ids) < 3:
            m = "x%d" % len(ids)
            ops.append({"op": "xrf.copy", "id": m, "from": n})
            ids.append(m)
        elif rng.random() < 0.2 and x == "xrf":
            ops += [{"op": "cfg.from", "id": "c", "xrf": n}, {"op": "cfg.get", "id": "c"}]
        # the layer given was copied: changing it changes nothing
        if rng.random() < 0.2 and any(o["op"] == "lay.new" for o in ops):
            y = rng.choice([o["id"] for o in ops if o["op"] == "lay.new"])
            ops.append({"op": "lay.setDensity", "id": y, "v": num(rng.uniform(0.1, 10))})
        for i in ids:
            if i == n or rng.random() < 0.5:
                ops.append({"op": x + ".get", "id": i})
    return ops


HOLD_START = [lay_new("a", "Fe", "7.8", "0.01"), lay_new("b", "SiO2", "2.2", "0.1"), lay_new("c", "Gas", "-1.0", "0.0"),
              {"op": "mat.new", "id": "m", "name": "Gas", "density": "0.001", "thickness": "3.0"}, {"op": "mat.setComp", "id": "m", "form": "vec", "names": ["C", "O"], "amounts": ["1.0", "1.0"]},
              {"op": "tt.new", "id": "t", "name": "foil"}, {"op": "tt.set", "id": "t", "form": "vec", "energy": ["1.0", "9.0"], "transmission": ["0.25", "0.75"]},
              {"op": "beam.new", "id": "b1"}, {"op": "beam.set", "id": "b1", "form": "vec", "energy": ["12.0", "6.0"], "weight": ["1.0", "3.0"], "characteristic": [], "divergency": []},
              {"op": "det.new", "id": "d", "name": "Si", "density": "2.33", "thickness": "0.05"}, {"op": "xrf.new", "id": "x"}, {"op": "xrf.new", "id": "y"}]


def replay_hold(hist):
    """a history of MCHold, with both experiments looked at after the last two calls"""
    out = list(HOLD_START)
    for k, e in enumerate(hist):
        out.append(e)
        if k + 2 >= len(hist):
            out += [{"op": "xrf.get", "id": "x"}, {"op": "xrf.get", "id": "y"}]
    return out + [{"op": "cfg.from", "id": "c", "xrf": "x"}, {"op": "cfg.get", "id": "c"}]


def mat_new(i, n, names, amounts, d, t):
    return [{"op": "mat.new", "id": i, "name": n, "density": d, "thickness": t}, {"op": "mat.setComp", "id": i, "form": "vec", "names": names, "amounts": amounts}]


LAYER_START = [dict({"op": "lib.new", "id": "l"}, **gen_lib.KINDS["epdl"])] + mat_new("ma", "Mix", ["Fe", "O"], ["1.0", "3.0"], "4.0", "0.02") + mat_new("mb", "Fe", ["Cu"], ["1.0"], "2.0", "0.05") + \
    mat_new("mc", "Mix", ["CaCl2"], ["2.0"], "1.5", "0.5") + [{"op": "lay.new", "id": "y", "name": "Fe"}, {"op": "det.new", "id": "d", "name": "Mix", "density": "-1.0", "thickness": "0.0"}]


def replay_layer(hist, energy="10.0"):
    """a history of MCLayer, with the layer and the detector asked after each call"""
    out = list(LAYER_START)
    for k, e in enumerate(hist):
        out.append(e)
        if k + 2 >= len(hist):
            for o in ({"id": "y"}, {"id": "d", "kind": "det"}):
                out += [dict(o, op="lay.get"), dict(o, op="lay.q", lib="l", q="comp"), dict(o, op="lay.q", lib="l", q="trans", energy=energy, angle="30.0"),
                        dict(o, op="lay.q", lib="l", q="transvec", energies=["7.0", energy])]
            out += [{"op": "det.escape", "id": "d", "lib": "l", "energy": energy, "label": "k", "update": 1}, {"op": "det.escape", "id": "d", "lib": "l", "energy": energy, "label": "", "update": 0}]
    return out


# ------------------------------------------------------------------ the solid angle, and thresholds
def script_geometry(rng):
    kind, new = new_lib(rng)
    ops = [new, {"op": "xrf.new", "id": "x"}]
    for round in range(rng.randint(1, 3)):
        n = rng.randint(0, 4)
        lays = []
        for i in range(n):
            o = layer_new(rng, "g%d_%d" % (round, i), SUBST)
            o["density"], o["thickness"] = num(rng.uniform(0.5, 5)), num(rng.choice([10 ** rng.uniform(-4, 0), rng.uniform(0, 2), 0.0]))
            ops.append(o)
            lays.append(o["id"])
        o = {"op": "xrf.set", "id": "x", "what": "sample", "layers": lays}
        if n and rng.random() < 0.7:
            o["ref"] = rng.randrange(n)
        elif n == 0 and rng.random() < 0.5:
            continue
        ops.append(o)
        d = "d%d" % round
        ops += [{"op": "det.new", "id": d, "name": "Si", "density": "2.33", "thickness": "0.05"},
                {"op": "det.set", "id": d, "what": rng.choice(["diameter", "area"]), "v": num(rng.choice([0.0, 0.3, 1.0, rng.uniform(0.01, 3)]))},
                {"op": "det.set", "id": d, "what": "distance", "v": num(rng.choice([rng.uniform(0.05, 20), 1.0, 0.1]))},
                {"op": "xrf.set", "id": "x", "what": "detector", "det": d}]
        if rng.random() < 0.8:
            ops.append({"op": "xrf.set", "id": "x", "what": "geometry", "alphaIn": num(rng.uniform(5, 90)), "alphaOut": num(rng.choice([90.0, 45.0, 30.0, rng.uniform(2, 89)]))})
        for k in rng.sample(range(-1, 6), rng.randint(2, 6)):
            ops.append({"op": "xrf.q", "id": "x", "q": "geomEff", "layer": k})
        for _ in range(rng.randint(0, 3)):
            ops.append({"op": "xrf.q", "id": "x", "q": "threshold", "lib": "l", "name": known(rng) if rng.random() < 0.95 else "Xx", "family": rng.choice(["K", "L", "M", "L1", "L2", "L3", "M1", "M5", "N", "Q2"])})
    return ops


# ------------------------------------------------------------------ fluorescence
GOOD = ["Si", "Cl", "Ca", "Fe", "Cu", "Sr", "Ag", "Ba", "Pb", "U"]
LINES = {"Si": ["K"], "Cl": ["K", "Ka"], "Ca": ["K", "Ka", "Kb"], "Fe": ["K", "Ka", "Kb", "L"], "Cu": ["K", "Ka", "L"], "Sr": ["K", "Ka", "L", "L3"], "Ag": ["K", "Kb", "L", "L3"],
         "Ba": ["K", "L", "L1", "L2", "M"], "Pb": ["L", "L3", "L2", "M", "K", "M5"], "U": ["L", "L3", "L1", "M", "M4"]}


def mu_guess(els, e):
    """only a rough idea of how strongly matter absorbs, to choose thicknesses"""
    zs = {n: z for n, z in zip(gen_lib.DS["order"], range(1, 120))}
    return max(0.15, sum(0.012 * zs[x] ** 3.6 / e ** 2.8 / 40 for x in els) / max(1, len(els)))


def substances(rng, n):
    """what layers are made of, with the elements in it"""
    out = []
    for _ in range(n):
        els = rng.sample(GOOD, rng.choice([1, 1, 2, 2, 3]))
        if rng.random() < 0.45 and len(els) == 1:
            out.append((els[0], els, None))
        elif rng.random() < 0.4:
            f = "".join(e + rng.choice(["", "2", "3", "0.5"]) for e in els) + rng.choice(["", "O2", "C", "O"])
            out.append((f, els, None))
        else:
            out.append((None, els, {e: num(10 ** rng.uniform(-1.5, 0)) for e in els + (["O"] if rng.random() < 0.4 else [])}))
    return out


def setup(rng, x="x", layers=None, rays=None, light=False, detector=True, thick=None):
    ops = []
    nl = layers if layers is not None else rng.choice([1, 1, 1, 2, 2, 2, 3, 3, 4])
    # layers of mixtures are named after them, all alike, or as something they are not
    naming = rng.choice(["mix%d", "mix%d", "film", "Fe"])
    E = [rng.uniform(5, 60) if rng.random() < 0.5 else rng.uniform(10, 30) for _ in range(rays if rays is not None else rng.choice([1, 1, 1, 2, 3]))]
    subs = substances(rng, nl)
    if rng.random() < 0.3 and nl > 1:
        subs[rng.randrange(nl)] = subs[0]
    ids, mats = [], 0
    for i, (name, els, comp) in enumerate(subs):
        d = rng.choice([1.0, 2.5, 7.8, rng.uniform(0.5, 12)])
        tau = 10 ** rng.uniform(-2, 0.9) if thick is None else thick(rng)
        t = tau / (d * mu_guess(els, E[0]))
        n = "%s_l%d" % (x, i)
        ops.append({"op": "lay.new", "id": n, "name": name or naming.replace("%d", str(i)), "density": num(round(d, 4)), "thickness": "%.6g" % t if t >= 1e-4 else "%.10f" % t})
        ops[-1]["thickness"] = num(float(ops[-1]["thickness"]))
        if rng.random() < 0.1:
            ops[-1]["funny"] = "0.75"
        if comp:
            m = "%s_m%d" % (x, i)
            ops += [{"op": "mat.new", "id": m, "name": rng.choice(["mix%d" % i, "mix%d" % i, "powder"])}, {"op": "mat.setComp", "id": m, "form": "map", "names": list(comp), "amounts": list(comp.values())},
                    {"op": "lay.setMaterial", "id": n, "mat": m}]
        ids.append(n)
    ops.append({"op": "xrf.new", "id": x})
    o = {"op": "xrf.set", "id": x, "what": "sample", "layers": ids}
    if nl > 1 and rng.random() < 0.3:
        o["ref"] = rng.randrange(nl)
    ops.append(o)
    w = [num(rng.choice([1.0, 1.0, rng.uniform(0.1, 3), 0.0 if len(E) > 1 else 1.0])) for _ in E]
    if all(float(v) == 0 for v in w):
        w[0] = "1.0"
    ops.append({"op": "xrf.set", "id": x, "what": "beam", "energy": [num(e) for e in E], "weight": w, "characteristic": [], "divergency": []})
    if not light or rng.random() < 0.3:
        a, b = rng.choice([(45, 45), (30, 60), (90, 15), (10.5, 70), (rng.uniform(5, 90), rng.uniform(5, 90)), (120, 45)])
        ops.append({"op": "xrf.set", "id": x, "what": "geometry", "alphaIn": num(a), "alphaOut": num(b)})
    for what in ("filters", "attenuators"):
        if rng.random() < (0.25 if not light else 0.1):
            q = []
            for i in range(rng.choice([1, 1, 2])):
                n = "%s_%s%d" % (x, what, i)
                s = rng.choice(["Si", "Cu", "H2O", "Fe", "C", "Ag"])
                ops.append({"op": "lay.new", "id": n, "name": s, "density": "1.5", "thickness": num(10 ** rng.uniform(-4, -1.7))})
                if rng.random() < 0.3:
                    ops[-1]["funny"] = num(rng.choice([0.5, 0.9]))
                q.append(n)
            ops.append({"op": "xrf.set", "id": x, "what": what, "layers": q})
    for what in ("userFilters", "userAttenuators"):
        if rng.random() < (0.2 if not light else 0.08):
            n = "%s_%s" % (x, what)
            ops += [{"op": "tt.new", "id": n, "name": "tab"}, {"op": "tt.set", "id": n, "form": "vec", "energy": ["0.5", "5.0", "20.0", "70.0"],
                                                              "transmission": [num(rng.uniform(0.2, 1)) for _ in range(4)]}, {"op": "xrf.set", "id": x, "what": what, "tables": [n]}]
    if detector and rng.random() < (0.55 if not light else 0.25):
        n = x + "_d"
        o = {"op": "det.new", "id": n, "name": rng.choice(["Si", "Si", "Cu", "Fe", "Ba", "CaCl2"])}
        if rng.random() < 0.8:
            o["density"], o["thickness"] = num(rng.uniform(1, 6)), num(10 ** rng.uniform(-3, -0.5))
        if rng.random() < 0.15:
            o["name"] = ""
        ops.append(o)
        if rng.random() < 0.7:
            ops += [{"op": "det.set", "id": n, "what": rng.choice(["diameter", "area"]), "v": num(rng.uniform(0.05, 2))},
                    {"op": "det.set", "id": n, "what": "distance", "v": num(rng.uniform(0.5, 10))}]
        if rng.random() < 0.3:
            ops.append({"op": "det.set", "id": n, "what": "minI", "v": num(rng.choice([1e-9, 1e-3, 1e-2]))})
        ops.append({"op": "xrf.set", "id": x, "what": "detector", "det": n})
    return ops, [e for _, els, _ in subs for e in els], nl


def requests(rng, els, nl, n=None):
    out = []
    for _ in range(n or rng.choice([1, 1, 2, 2, 3])):
        if out and rng.random() < 0.06:
            out.append(rng.choice(out))
            continue
        el = rng.choice(els) if rng.random() < 0.93 else rng.choice(GOOD)
        k = el + " " + rng.choice(LINES[el])
        if rng.random() < 0.8 and k in [x.rsplit(" ", 1)[0] if x.count(" ") == 2 else x for x in out]:
            continue
        if rng.random() < 0.35:
            k += " %d" % (rng.randrange(nl) if rng.random() < 0.95 else nl)
        out.append(k)
    return out


def ask(rng, x, els, nl, secondary=None, form=None):
    keys = requests(rng, els, nl)
    o = {"op": "xrf.fluo", "id": x, "lib": "l", "form": form or rng.choice(["keys", "keys", "keys", "single", "lists"])}
    if o["form"] == "keys":
        o["keys"] = keys
    elif o["form"] == "single":
        w = keys[0].split(" ")
        o["element"], o["family"], o["layer"] = w[0], w[1], int(w[2]) if len(w) > 2 else rng.randrange(nl)
    else:
        w = [k.split(" ") for k in keys]
        o["elements"], o["families"] = [a[0] for a in w], [a[1] for a in w]
        o["layers"] = [int(a[2]) if len(a) > 2 else -1 for a in w]
        if rng.random() < 0.3:
            o["layers"] = [rng.choice([-1] + list(range(nl)))]
    s = rng.choice([0, 1, 1, 2, 2]) if secondary is None else secondary(rng)
    if s or rng.random() < 0.5:
        o["secondary"] = s
    if rng.random() < 0.4:
        o["geo"] = rng.choice([0, 1])
    if rng.random() < 0.6:
        o["mf"] = rng.choice([0, 1, 1])
    if rng.random() < 0.15:
        o["limit"] = num(rng.choice([1e-6, 1e-3, 1.0]))
    return o


def script_primary(rng):
    kind, new = new_lib(rng)
    ops, els, nl = setup(rng)
    ops = [new] + ops
    for _ in range(rng.randint(1, 3)):
        ops.append(ask(rng, "x", els, nl, lambda r: 0))
    return ops


def script_secondary(rng):
    kind, new = new_lib(rng, rng.choice(["epdl", "epdl", "epdl", "files1", "pymca"]))
    ops, els, nl = setup(rng, light=True, rays=rng.choice([1, 1, 2]), thick=lambda r: 10 ** r.uniform(-1.2, 0.8))
    ops = [new] + ops
    for _ in range(rng.choice([1, 1, 2])):
        ops.append(ask(rng, "x", els, nl, lambda r: r.choice([1, 2, 2])))
    return ops


def beam_ops(i, E, w):
    return [{"op": "beam.new", "id": i}, {"op": "beam.set", "id": i, "form": "vec", "energy": E, "weight": w, "characteristic": [], "divergency": []}]


def lay_op(i, n, d, t):
    return {"op": "lay.new", "id": i, "name": n, "density": d, "thickness": t}


# as in MCFluor!Start
FLUOR_START = [{"op": "lib.new", "id": "l", "form": "dir", "dir": "data"},
               lay_op("fe", "Fe", "7.8", "0.012"), lay_op("fe1", "Fe", "7.8", "0.004"), lay_op("fe2", "Fe", "7.8", "0.008"),
               lay_op("ca", "CaCl2", "2.0", "0.002"), lay_op("cu", "Cu2Fe", "8.0", "0.001"), lay_op("f", "Si", "2.33", "0.003"), lay_op("air", "C", "0.01", "1.0"),
               {"op": "det.new", "id": "d", "name": "Si", "density": "2.33", "thickness": "0.03"},
               {"op": "det.set", "id": "d", "what": "diameter", "v": "0.8"}, {"op": "det.set", "id": "d", "what": "distance", "v": "2.5"}]
FLUOR_START += beam_ops("b1", ["17.5"], ["1.0"]) + beam_ops("b2", ["9.5"], ["1.0"]) + beam_ops("b3", ["9.5", "17.5"], ["1.0", "3.0"]) + [{"op": "xrf.new", "id": "x"}]


def replay_fluor(hist, secondary):
    """a history of MCFluor, with the fluorescence asked after the last call"""
    q = {"op": "xrf.fluo", "id": "x", "lib": "l", "form": "keys", "secondary": secondary, "mf": 1}
    return FLUOR_START + hist + [{"op": "xrf.get", "id": "x"}, dict(q, keys=["Fe K", "Ca Ka", "Cu K", "Cl K"]), dict(q, keys=["Fe K 0", "Cu Ka"], geo=0, secondary=0)]


# ------------------------------------------------------------------ what is asked, and how
def odd_request(rng, els, nl):
    """requests which are refused, or answered with nothing"""
    o = {"op": "xrf.fluo", "id": "x", "lib": "l", "secondary": rng.choice([0, 1])}
    el = rng.choice(els)
    fam = rng.choice(LINES[el])
    r = rng.randrange(9)
    if r == 0:
        o.update(form="keys", keys=["%s %s 0" % (el, fam), rng.choice(["Xx K", "fe K", "Unheard L"])])
    elif r == 1:
        o.update(form="keys", keys=[rng.choice([el, "%s %s 0 0" % (el, fam), "", "%s %s x" % (el, fam)])])
    elif r == 2:
        o.update(form="lists", elements=[el, el], families=[fam], layers=[-1, -1])
    elif r == 3:
        o.update(form="lists", elements=[el], families=[fam, fam], layers=[-1])
    elif r == 4:
        o.update(form="lists", elements=[el], families=[fam], layers=rng.choice([[], [0, 0]]))
    elif r == 5:
        o.update(form="lists", elements=[], families=[], layers=[])
    elif r == 6:
        o.update(form="single", element=rng.choice([el, "Xx"]), family=rng.choice([fam, ""]), layer=rng.choice([0, nl, -1]))
    elif r == 7:
        o.update(form="keys", keys=["%s %s %d" % (el, rng.choice(["N", "Q", "Kz", "M9"]), rng.randrange(nl))])
    else:
        o.update(form="keys", keys=["%s %s %d" % (el, fam, rng.choice([nl, nl + 3, -2])), "%s  %s" % (el, rng.choice(LINES[el]))])
    return o


def script_request(rng):
    """the same experiment asked in several ways, changed between the questions"""
    kind, new = new_lib(rng, rng.choice(["epdl", "epdl", "files1", "pymca"]))
    ops, els, nl = setup(rng, light=True, rays=rng.choice([1, 1, 2, 3]), detector=rng.random() < 0.3)
    ops = [new] + ops
    level = rng.choice([0, 0, 1])
    for k in range(rng.randint(2, 4)):
        r = rng.random()
        if r < 0.12:
            ops += beam_ops("o%d" % k, sorted(num(rng.uniform(4, 50)) for _ in range(rng.choice([1, 2]))), ["1.0"] * 2)
            ops[-1]["weight"] = ops[-1]["weight"][:len(ops[-1]["energy"])]
            ops.append(dict(ask(rng, "x", els, nl, lambda q: level), beam="o%d" % k))
        elif r < 0.16:
            ops += [{"op": "beam.new", "id": "none"}, dict(ask(rng, "x", els, nl, lambda q: level), beam="none")]
        elif r < 0.36:
            ops.append(odd_request(rng, els, nl))
        elif r < 0.46:
            ops += [{"op": "xrf.copy", "id": "y", "from": "x"}, {"op": "xrf.set", "id": "y", "what": "geometry", "alphaIn": "60.0", "alphaOut": "30.0"},
                    ask(rng, "y", els, nl, lambda q: level), ask(rng, "x", els, nl, lambda q: level)]
        elif r < 0.54:
            ops += [{"op": "xrf.set", "id": "x", "what": "single", "energy": num(rng.uniform(5, 50))}, ask(rng, "x", els, nl, lambda q: level)]
        elif r < 0.6:
            ops += [{"op": "xrf.set", "id": "x", "what": "sampleName", "name": rng.choice(SUBST), "density": "2.0", "thickness": "0.01"}, ask(rng, "x", els, 1, lambda q: level)]
        elif r < 0.66:
            what = rng.choice(["filters", "attenuators", "userFilters", "userAttenuators"])
            ops += [dict({"op": "xrf.set", "id": "x", "what": what}, **({"tables": []} if what.startswith("user") else {"layers": []})), ask(rng, "x", els, nl, lambda q: level)]
        elif r < 0.7:
            ops += [{"op": "xrf.new", "id": "e"}, ask(rng, "e", els, nl, lambda q: level)]
        else:
            # together, and one by one
            a = ask(rng, "x", els, nl, lambda q: level, form="keys")
            ops.append(a)
            for q in a["keys"][:2]:
                ops.append(dict(a, keys=[q]))
    return ops


def script_fromfile(rng):
    """from a configuration file to fluorescence"""
    kind, new = new_lib(rng, rng.choice(["epdl", "files1"]))
    ops = [new, config_file(rng, "e.cfg", True), {"op": "xrf.new", "id": "x"}, {"op": "xrf.read", "id": "x", "file": "e.cfg"}]
    for _ in range(rng.choice([1, 2])):
        ops.append(ask(rng, "x", rng.sample(GOOD, 4), 3, lambda q: q.choice([0, 0, 0, 1])))
    ops[-1].pop("layer", None) if ops[-1]["form"] != "single" else None
    return ops


# ------------------------------------------------------------------ what is detected of it
def script_detection(rng):
    """attenuators, the detector's efficiency, solid angle and escape peaks"""
    kind, new = new_lib(rng, rng.choice(["epdl", "epdl", "files1", "pymca"]))
    nl = rng.choice([1, 1, 2, 3])
    ops, els, nl = setup(rng, layers=nl, light=True, rays=rng.choice([1, 1, 2, 3]), detector=False)
    ops = [new] + ops
    near = []
    for k in range(rng.randint(1, 3)):
        d = "d%d" % k
        o = {"op": "det.new", "id": d, "name": rng.choice(["Si", "Si", "Ba", "Fe", "Cu", "CaCl2", "PbO", "Ag"])}
        if rng.random() < 0.85:
            o["density"], o["thickness"] = num(rng.uniform(1, 6)), num(10 ** rng.uniform(-4, 0))
        if rng.random() < 0.3:
            o["funny"] = num(rng.choice([0.5, 0.9]))
        if rng.random() < 0.07:
            o["name"] = ""
        ops.append(o)
        if rng.random() < 0.2:
            m = "dm%d" % k
            ops += [{"op": "mat.new", "id": m, "name": "mix", "density": "3.0", "thickness": "0.01"}, {"op": "mat.setComp", "id": m, "form": "map", "names": ["Ca", "Pb"], "amounts": ["0.5", "1.0"]},
                    {"op": "lay.setMaterial", "kind": "det", "id": d, "mat": m}]
        for w in rng.sample(["diameter", "distance", "minI", "minE", "maxN"], rng.randint(0, 4)):
            ops.append({"op": "det.set", "id": d, "what": w, "v": {"diameter": num(rng.uniform(0.05, 3)), "distance": num(rng.uniform(0.3, 10)), "minI": num(rng.choice([1e-9, 1e-4, 1e-2])),
                                                                    "minE": num(rng.choice([0.001, 0.5])), "maxN": rng.choice([0, 1, 8])}[w]})
        ops.append({"op": "xrf.set", "id": "x", "what": "detector", "det": d})
        if rng.random() < 0.35:
            n = "a%d" % k
            ops.append({"op": "lay.new", "id": n, "name": rng.choice(["Si", "Cu", "H2O", "Fe", "C"]), "density": "1.5", "thickness": num(10 ** rng.uniform(-4, -1.7))})
            if rng.random() < 0.4:
                ops[-1]["funny"] = num(rng.choice([0.5, 0.9, 0.0]))
            ops.append({"op": "xrf.set", "id": "x", "what": "attenuators", "layers": [n] * rng.choice([1, 1, 2])})
        if rng.random() < 0.25:
            n = "t%d" % k
            ops += [{"op": "tt.new", "id": n, "name": "tab"}, {"op": "tt.set", "id": n, "form": "vec", "energy": ["0.5", "5.0", "20.0", "70.0"], "transmission": [num(rng.uniform(0, 1)) for _ in range(4)]},
                    {"op": "xrf.set", "id": "x", "what": "userAttenuators", "tables": [n] * rng.choice([1, 1, 2])}]
        ops.append(ask(rng, "x", els, nl, lambda q: q.choice([0, 0, 1, 2] if nl < 3 else [0, 0, 0, 1]), form="keys"))
        if rng.random() < 0.4:
            ops.append({"op": "xrf.fluo", "id": "x", "lib": "l", "form": "keys", "keys": ops[-1]["keys"], "geo": rng.choice([0, 1])})
    return ops

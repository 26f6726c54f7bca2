"""Operation scripts for element libraries, materials, formulas, attenuation of mixtures, data files and the cross section library.
Everything here only chooses inputs: what the library must answer is in spec/."""
import json
import gen_elem
from gen_elem import num, val, SHELLS, case

DS = {}


def use(c, seed=1, every=False):
    """the data set the specification reads, also a source of interesting energies"""
    DS.clear()
    DS.update(json.load(open(c.env.data(seed, every))))


KINDS = {"epdl": {"form": "dir", "dir": "data"}, "pymca": {"form": "pymca", "dir": "data", "flag": 1},
         "files0": {"form": "files", "dir": "data", "binding": "data/BindingEnergies.dat"},
         "files1": {"form": "files", "dir": "data", "binding": "data/BindingEnergies.dat", "xsec": "data/XCOM_CrossSections.dat"}}
QUERY_EL = ["H", "C", "O", "Si", "Cl", "Ca", "Fe", "Cu", "Sr", "Ag", "Ba", "Pb", "U"]


def known(rng):
    return rng.choice(QUERY_EL + (["Fm", "Db"] if rng.random() < 0.1 else []))


def binding(kind, n):
    return DS["binding"]["eadl" if kind == "epdl" else "pymca"][n]


def energy(rng, names=(), kind="epdl", tables=True):
    """around edges, at table points, anywhere"""
    r = rng.random()
    names = [n for n in names if n in DS["used"]]
    if names and r < 0.35:
        b = [float(v) for k, v in binding(kind, rng.choice(names)).items() if float(v) > 0]
        if b:
            e = rng.choice(b)
            return num(e * rng.choice([1, 1, 1 + 1e-6, 1 - 1e-6, 1.01, 0.99, 1.1]))
    if names and tables and r < 0.45:
        return rng.choice(DS["epdl"][rng.choice(names)]["energy"])
    if r < 0.5:
        return num(rng.choice([0.0005, 0.001, 500.0, 1000.0]))
    return num(10 ** rng.uniform(-1.3, 2.2))


# ------------------------------------------------------------------ formulas
def number(rng):
    r = rng.random()
    if r < 0.4:
        return ""
    if r < 0.75:
        return str(rng.randint(1, 12))
    if r < 0.8:
        return "0%d" % rng.randint(1, 9)
    if r < 0.95:
        return "%.*f" % (rng.randint(1, 4), rng.uniform(0.01, 20))
    return rng.choice([".5", "2.", "1.0", "10.", "0.5"])


def formula(rng, depth=0, elements=None):
    els = elements or DS["order"]
    out = ""
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4] if depth < 3 else [1, 1, 2])):
        if depth < 3 and rng.random() < 0.22:
            out += "(" + formula(rng, depth + 1, els) + ")" + number(rng)
        else:
            out += rng.choice(els if rng.random() < 0.97 else ["Xx", "A", "Zzz", "Q"]) + number(rng)
    return out


def broken(rng, f):
    """something that is not a formula"""
    r = rng.random()
    k = rng.randint(0, len(f))
    if r < 0.25:
        return f[:k] + rng.choice("()") + f[k:]
    if r < 0.4:
        return rng.choice(["1", "2.5", "x", "fe", "0"]) + f
    if r < 0.5:
        return f[:k] + " " + f[k:]
    if r < 0.6:
        return f[:k] + rng.choice("-+*/,;_[]{}") + f[k:]
    if r < 0.75:
        return f[:k] + rng.choice(["(", "()", "(2)", "(a)", ")(", ")2("]) + f[k:]
    if r < 0.85:
        return f.lower()
    if r < 0.95:
        return rng.choice(["", " ", "Gold paint", "air", "()", "(", ")", "Fe..5", "H2.5.1O", "steel", "Water 2", "(Fe", "Fe)", "((Fe)"])
    return f.upper()


def script_formula(rng):
    ops = [dict({"op": "lib.new", "id": "l"}, **KINDS["epdl"])]
    pool = ["H", "C", "O", "Fe", "Ca", "Co", "S", "Si", "N", "Na", "P", "Pb", "Cl", "U"]
    for _ in range(rng.randint(12, 30)):
        f = formula(rng, 0, pool if rng.random() < 0.6 else None)
        if rng.random() < 0.25:
            f = broken(rng, f)
        q = rng.choice(["parse", "compFormula", "compFormula", "comp", "createMat"])
        if q in ("comp", "createMat"):
            ops.append({"op": "lib.q", "id": "l", "q": q, "name": f})
        else:
            ops.append({"op": "lib.q", "id": "l", "q": q, "formula": f})
        if rng.random() < 0.04:
            n = rng.choice(["Xx", "Q", "Fe", "Zzz"])
            ops += [{"op": "el.new", "id": "e", "name": n, "z": rng.randint(1, 100)}, {"op": "el.setMass", "id": "e", "mass": num(rng.uniform(1, 250))},
                    {"op": "lib.addElement", "id": "l", "el": "e"}, {"op": "lib.q", "id": "l", "q": "compFormula", "formula": n + "2O3"}]
    return ops


def replay_formulas(texts, size=250):
    """the formulas the model reached, in groups, each asked of one library"""
    out = []
    for i in range(0, len(texts), size):
        ops = [dict({"op": "lib.new", "id": "l"}, **KINDS["epdl"])]
        for k, f in enumerate(texts[i:i + size]):
            ops.append({"op": "lib.q", "id": "l", "q": "parse", "formula": f})
            if k % 3 == 0:
                ops.append({"op": "lib.q", "id": "l", "q": "compFormula", "formula": f})
        out.append(ops)
    return out


# ------------------------------------------------------------------ materials
MATS = ["Air", "air", "Steel", "Gold paint", "M 4", "mylar", "SiO2", "Kapton tape", "x", "Goethite"]


class Mats:
    """materials that refer to formulas and to materials of a lower rank - or, now and then, to any"""

    def __init__(self, rng, known_only):
        self.rng = rng
        self.names = rng.sample(MATS, rng.randint(2, 6))
        self.els = QUERY_EL if known_only else None
        self.objs = 0
        self.loops = rng.random() < 0.15

    def part(self, rank):
        rng = self.rng
        r = rng.random()
        if self.loops and r < 0.9:
            r /= 2
            rank = len(self.names)
        if rank > 0 and r < 0.4:
            return self.names[rng.randrange(rank)]
        if r < 0.97:
            return formula(rng, 2, self.els)
        return rng.choice(["Nothing known", "Xx2", "fe"])

    def comp(self, rank, dup=0.0):
        rng = self.rng
        names = [self.part(rank) for _ in range(rng.randint(1, 4))]
        if rng.random() >= dup:
            names = list(dict.fromkeys(names))
        r = rng.random()
        a = [num(10 ** rng.uniform(-3, 2)) for _ in names]
        if r < 0.3:
            s = sum(map(float, a))
            a = [num(float(x) / s) for x in a]
        return names, a

    def spoil(self, names, a):
        rng = self.rng
        r = rng.random()
        if r < 0.05:
            a = list(a)
            a[rng.randrange(len(a))] = rng.choice(["0.0", "-0.5"])
        elif r < 0.07:
            a = a[:-1]
        return names, a

    def set_lib(self, lib, rank):
        names, a = self.spoil(*self.comp(rank, 0.3))
        form = "vec" if len(names) != len(a) or len(set(names)) < len(names) else self.rng.choice(["map", "vec"])
        return {"op": "lib.setMatComp", "id": lib, "name": self.names[rank], "form": form, "names": names, "amounts": a}

    def props(self):
        rng = self.rng
        d = {}
        if rng.random() < 0.7:
            d["density"] = num(10 ** rng.uniform(-3, 1.3)) if rng.random() < 0.95 else rng.choice(["0.0", "-1.0"])
        if rng.random() < 0.5:
            d["thickness"] = num(10 ** rng.uniform(-4, 0.5)) if rng.random() < 0.95 else rng.choice(["0.0", "-0.1"])
        if rng.random() < 0.3:
            d["comment"] = rng.choice(["", "a comment", "thin"])
        return d

    def obj(self, rank=None, uninit=True):
        """a material outside the library"""
        rng = self.rng
        rank = rng.randrange(len(self.names)) if rank is None else rank
        i = "m%d" % self.objs
        self.objs += 1
        n = self.names[rank]
        if uninit and rng.random() < 0.2:
            ops = [{"op": "mat.default", "id": i}]
            if rng.random() < 0.3:
                ops.append({"op": "mat.get", "id": i})
            if rng.random() < 0.5:
                ops.append({"op": "mat.setName", "id": i, "name": n})
            else:
                ops.append(dict({"op": "mat.init", "id": i, "name": n}, **{k: v for k, v in self.props().items() if k == "comment" or float(v) > 0}))
        else:
            ops = [dict({"op": "mat.new", "id": i, "name": n}, **{k: v for k, v in self.props().items() if k == "comment" or float(v) > 0})]
        if rng.random() < 0.9:
            names, a = self.comp(rank, 0.3)
            form = "vec" if len(set(names)) < len(names) else rng.choice(["map", "vec"])
            ops.append({"op": "mat.setComp", "id": i, "form": form, "names": names, "amounts": a})
        return i, n, ops

    def act(self, lib):
        rng = self.rng
        r = rng.random()
        rank = rng.randrange(len(self.names))
        n = self.names[rank]
        flag = {"errorOnReplace": rng.choice([0, 1])} if rng.random() < 0.5 else {}
        if r < 0.3:
            return [dict({"op": "lib.addMaterial", "id": lib, "name": n if rng.random() < 0.97 else ""}, **dict(self.props(), **flag))]
        if r < 0.65:
            return [self.set_lib(lib, rank)]
        if r < 0.85:
            i, n, ops = self.obj(rank)
            return ops + [dict({"op": "lib.addMaterial", "id": lib, "mat": i}, **flag)]
        if r < 0.97:
            return [{"op": "lib.removeMaterial", "id": lib, "name": n if rng.random() < 0.9 else "Absent"}]
        return [{"op": "lib.removeMaterials", "id": lib}]

    def ask(self, lib):
        rng = self.rng
        rank = rng.randrange(len(self.names))
        n = self.names[rank]
        r = rng.random()
        if r < 0.1:
            return [{"op": "lib.q", "id": lib, "q": "matNames"}]
        if r < 0.3:
            return [{"op": "lib.q", "id": lib, "q": rng.choice(["mat", "matCopy"]), "name": n if rng.random() < 0.95 else "Absent"}]
        if r < 0.37:
            return [dict({"op": "lib.q", "id": lib, "q": "createMat", "name": n if rng.random() < 0.5 else formula(rng, 2, self.els)}, **self.props())]
        if r < 0.7:
            return [{"op": "lib.q", "id": lib, "q": "comp", "name": n if rng.random() < 0.9 else formula(rng, 1, self.els)}]
        ops, ids = [], []
        for k in sorted(rng.sample(range(len(self.names)), rng.randint(0, min(3, len(self.names))))):
            i, _, o = self.obj(k, uninit=False)
            if o[-1]["op"] == "mat.setComp" or rng.random() < 0.2:
                ops += o
                ids.append(i)
        if r < 0.85:
            return ops + [{"op": "lib.q", "id": lib, "q": "compAdd", "name": n, "mats": ids}]
        names, a = self.comp(len(self.names))
        return ops + [{"op": "lib.q", "id": lib, "q": "compMap", "comp": dict(zip(names, a)), "mats": ids}]


def script_materials(rng, known_only=False):
    ops = [dict({"op": "lib.new", "id": "l"}, **KINDS["epdl"])]
    m = Mats(rng, known_only)
    libs = ["l"]
    # a good start: most names known, most with a composition
    for rank, n in enumerate(m.names):
        if rng.random() < 0.75:
            ops.append({"op": "lib.addMaterial", "id": "l", "name": n, "density": num(rng.uniform(0.1, 9)), "thickness": num(10 ** rng.uniform(-3, 0))})
            if rng.random() < 0.85:
                names, a = m.comp(rank)
                ops.append({"op": "lib.setMatComp", "id": "l", "name": n, "form": rng.choice(["map", "vec"]), "names": names, "amounts": a})
    for _ in range(rng.randint(8, 20)):
        lib = rng.choice(libs)
        ops += m.act(lib) if rng.random() < 0.4 else m.ask(lib)
        if rng.random() < 0.04 and len(libs) < 3:
            n = "l%d" % len(libs)
            ops.append({"op": "lib.copy", "id": n, "from": rng.choice(libs)})
            libs.append(n)
    return ops


REPLAY_START = [dict({"op": "lib.new", "id": "l"}, **KINDS["epdl"])] + [
    o for i, n, names, amounts in (("oa", "m a", ["SiO2"], ["3.0"]), ("ob", "m b", ["m a", "H2O"], ["1.0", "3.0"]), ("oc", "m c", ["m b", "m a"], ["0.5", "0.5"]))
    for o in ({"op": "mat.new", "id": i, "name": n, "density": "2.0", "thickness": "0.1"}, {"op": "mat.setComp", "id": i, "form": "vec", "names": names, "amounts": amounts})]


def maximal(hists):
    """without those that are the beginning of another"""
    begin = {json.dumps(h[:k]) for h in hists for k in range(len(h))}
    return [h for h in hists if json.dumps(h) not in begin]


def replay_materials(hist):
    """a history of the model, with everything asked after each call"""
    ops = list(REPLAY_START)
    for k, e in enumerate(hist):
        ops.append(e)
        if k + 2 >= len(hist):
            ops.append({"op": "lib.q", "id": "l", "q": "matNames"})
            for n in ("m a", "m b", "m c"):
                ops += [{"op": "lib.q", "id": "l", "q": "mat", "name": n}, {"op": "lib.q", "id": "l", "q": "comp", "name": n}]
            ops += [{"op": "lib.q", "id": "l", "q": "compAdd", "name": "m c", "mats": ["ob"]}, {"op": "lib.q", "id": "l", "q": "compMap", "comp": {"m a": "1.0", "m b": "2.0"}}]
    return ops


# ------------------------------------------------------------------ attenuation of mixtures
def energies(rng, n, names, kind, lo=0):
    return [energy(rng, names, kind) for _ in range(rng.randint(lo, n))]


def mixture(rng, m, lib_names, ok=0.95):
    names = []
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        names.append(rng.choice(lib_names) if lib_names and r < 0.3 else formula(rng, 2, QUERY_EL) if r < 0.3 + 0.65 * ok else rng.choice(["Xx", "nothing"]))
    return dict((n, num(10 ** rng.uniform(-2, 1.5))) for n in names)


def script_mix(rng):
    kind = rng.choice(["epdl", "epdl", "files1", "pymca", "files0"])
    ops = [dict({"op": "lib.new", "id": "l"}, **KINDS[kind])]
    m = Mats(rng, True)
    defined = []
    for rank, n in enumerate(m.names[:rng.randint(0, 3)]):
        names, a = m.comp(rank)
        ops += [{"op": "lib.addMaterial", "id": "l", "name": n}, {"op": "lib.setMatComp", "id": "l", "name": n, "form": "map", "names": names, "amounts": a}]
        defined.append(n)
    if rng.random() < 0.2:
        # an element of the caller's own, with its own tables
        e = gen_elem.El(rng, id="own")
        ops += [o for o in e.build(full=1.0)] + [{"op": "el.setName", "id": "own", "name": "Xq"}, {"op": "el.setMass", "id": "own", "mass": num(rng.uniform(5, 200))},
                                                 {"op": "lib.addElement", "id": "l", "el": "own"}]
        defined.append("Xq")
    for _ in range(rng.randint(6, 14)):
        r = rng.random()
        c = mixture(rng, m, defined)
        near = [x for x in QUERY_EL if any(x in k for k in c)]
        if r < 0.2:
            n = rng.choice(defined + [known(rng), formula(rng, 1, QUERY_EL)])
            ops.append({"op": "lib.q", "id": "l", "q": "mu", "name": n, "energy": energy(rng, [n] + near, kind)})
        elif r < 0.35:
            n = rng.choice(defined + [known(rng), formula(rng, 1, QUERY_EL)])
            ops.append({"op": "lib.q", "id": "l", "q": "muvec", "name": n, "energies": energies(rng, 4, [n] + near, kind)})
        elif r < 0.6:
            ops.append({"op": "lib.q", "id": "l", "q": "mumap", "comp": c, "energy": energy(rng, near, kind)})
        elif r < 0.75:
            ops.append({"op": "lib.q", "id": "l", "q": "mumapvec", "comp": c, "energies": energies(rng, 4, near, kind)})
        elif r < 0.9:
            k = {known(rng): num(10 ** rng.uniform(-2, 1)) for _ in range(rng.randint(1, 4))}
            o = {"op": "lib.q", "id": "l", "q": rng.choice(["mumap", "mumapvec"]), "comp": k, "isComposition": 1}
            o.update({"energy": energy(rng, list(k), kind)} if o["q"] == "mumap" else {"energies": energies(rng, 3, list(k), kind, 1)})
            ops.append(o)
        else:
            k = dict(c)
            k[rng.choice(list(k))] = rng.choice(["0.0", "0.0", "-0.1"])
            ops.append({"op": "lib.q", "id": "l", "q": "mumap", "comp": k, "energy": energy(rng, near, kind)})
    return ops


# ------------------------------------------------------------------ the element library
def lib_query(rng, kind, lib="l", extra=()):
    n = known(rng) if rng.random() < 0.85 or not extra else rng.choice(extra)
    q = rng.choice(["defined", "binding", "mass", "z", "longName", "density", "column", "row", "rad", "nonrad", "const", "mutable", "mu", "muvec", "excite", "excitevec",
                    "vacdist", "vacdistvec", "cascade", "lines", "emitted", "families", "familiesList", "names", "constFile", "radFile", "nonradFile",
                    "mu", "excite", "excite", "families", "lines", "rad", "const", "nonrad", "binding"])
    o = {"op": "lib.q", "id": lib, "q": q, "name": n}
    if q in ("defined", "mass", "z", "longName", "density", "column", "row") and rng.random() < 0.6:
        o["name"] = rng.choice(DS["order"] + ["Xx", "fe", ""])
    elif rng.random() < 0.03:
        o["name"] = rng.choice(["Xx", "fe", "", "Iron"])
    if q in ("rad", "nonrad", "const"):
        o["shell"] = rng.choice(SHELLS) if rng.random() < 0.97 else rng.choice(["N1", "L", "k"])
    if q in ("constFile", "radFile", "nonradFile"):
        del o["name"]
        o["shell"] = rng.choice("KLMKLMN")
    if q in ("mu", "excite", "vacdist", "families", "emitted"):
        o["energy"] = energy(rng, [n], kind)
    if q == "emitted" and rng.random() < 0.3:
        del o["energy"]
    if q == "excite" and rng.random() < 0.5:
        o["weight"] = val(rng)
    if q in ("muvec", "vacdistvec"):
        o["energies"] = energies(rng, 4, [n], kind)
    if q == "excitevec":
        o["energies"] = energies(rng, 3, [n], kind)
        r = rng.random()
        o["weights"] = [] if r < 0.4 else [val(rng)] if r < 0.6 else [val(rng) for _ in o["energies"]]
    if q in ("cascade", "lines"):
        o["dist"] = {s: val(rng) for s in SHELLS if rng.random() < 0.4 and float(binding(kind, n if n in DS["used"] else "Fe").get(s, 0)) > 0} if n in DS["used"] else {}
        if q == "lines":
            o["cascade"], o["yield"] = rng.choice([0, 1, 1]), rng.choice([0, 1, 1])
    if q == "families" and rng.random() < 0.4:
        o["name"] = formula(rng, 1, QUERY_EL)
    if q == "familiesList":
        del o["name"]
        o["names"] = list(dict.fromkeys(known(rng) if rng.random() < 0.98 else "Xx" for _ in range(rng.randint(0, 4))))
        o["energy"] = energy(rng, o["names"], kind)
    if q == "names":
        del o["name"]
    return o


def spec_lines(title, scans):
    out = ["#F " + title, ""]
    for i, (labels, rows) in enumerate(scans):
        out += ["#S %d %s" % (i + 1, title), "#N %d" % len(labels), "#L " + "  ".join(labels)] + ["  ".join(r) for r in rows] + [""]
    return out


def shell_file(rng, what, main):
    """a file of one scan per subshell and one row per element, from hydrogen on"""
    subs = [s for s in SHELLS if s[0] == main]
    n = rng.choice([1, 2, 8, 14, 20, 26, 29]) if rng.random() < 0.97 else rng.choice([109, 110, 130])
    nscan = len(subs) if rng.random() < 0.93 else max(0, len(subs) + rng.choice([-1, 1]))
    scans = []
    for k in range(nscan):
        s = subs[k % len(subs)]
        first = None
        rows = []
        for i in range(n):
            if what == "const":
                t = gen_elem.const_table(rng, s, partial=0.0)
                l, v = list(t), list(t.values())
            elif what == "rad":
                l, v = gen_elem.rad_table(rng, s)
            else:
                l, v = gen_elem.nonrad_table(rng, s)
            if first is None:
                first = l
            rows.append([str(i + 1)] + [dict(zip(l, v)).get(x, "0.0") for x in first])
        labels = ["Z"] + (["omega" + ("" if k % 2 else s) if x == "omega" else x for x in first] if what == "const" else first)
        scans.append((labels, rows))
    return spec_lines("%s %s" % (main, what), scans)


def xcom_file(rng, n):
    lab = {"energy": ["ENERGY", "Photon energy (keV)", "energy"], "photoelectric": ["PHOTOELECTRIC", "Photoelectric absorption"],
           "coherent": ["COHERENT", "Rayleigh", "rayleigh scattering"], "compton": ["COMPTON", "Compton scatter"], "pair": ["PAIR", "Pair production"]}
    scans = []
    for i in range(n):
        keys = ["energy", "photoelectric", "coherent", "compton"] + (["pair"] if rng.random() < 0.7 else [])
        rng.shuffle(keys)
        t = supplied(rng, DS["order"][i], "epdl")
        if "pair" in keys and "pair" not in t:
            t["pair"] = [val(rng) for _ in t["energy"]]
        scans.append(([rng.choice(lab[k]) for k in keys] + ["TOTAL"], [[t[k][j] for k in keys] + ["1.0"] for j in range(len(t["energy"]))]))
    if rng.random() < 0.03:          # more elements than there are
        scans += [(["ENERGY", "PHOTO", "COHERENT", "COMPTON"], [["1.0", "100.0", "1.0", "0.1"], ["50.0", "0.1", "0.1", "0.1"]])] * (110 - n)
    return spec_lines("attenuation", scans)


def supplied(rng, n, kind):
    """attenuation coefficients of the caller's, with or without edges (two points of practically equal energy)"""
    be = [(float(v), s) for s, v in (binding(kind, n) if n in DS["used"] else {}).items() if float(v) > 0 and s in SHELLS]
    lo = rng.choice([0.5, 1.0, 1.0, 3.0, 8.0])
    grid = sorted({round(10 ** rng.uniform(-1, 2) * lo, 4) for _ in range(rng.randint(1, 7))})
    steps = [(e, False) for e in grid]
    if rng.random() < 0.7:
        for e, s in be:
            if rng.random() < 0.75 and e > 0.05:
                steps.append((round(e * rng.choice([1, 1, 1, 1.0005, 0.9995]), 6), True))
    steps.sort()
    x, p = [], []
    a = 10 ** rng.uniform(0, 3)
    for e, edge in steps:
        if x and e <= x[-1] * 1.02:
            continue
        y = a * e ** -2.7
        if edge:
            x += [e, e if rng.random() < 0.6 else round(e + 3e-6, 9)]
            a *= rng.uniform(1.5, 7)
            p += [y, a * e ** -2.7]
        else:
            x.append(e)
            p.append(y)
    if len(x) < 2 or x[-1] < x[-2] * 1.5:      # tables do not end close to an edge
        e = num((x or [5.0])[-1] * 1.7)
        x.append(float(e))
        p.append(a * x[-1] ** -2.7)
    t = {"energy": [num(v) for v in x], "photoelectric": [num(v) for v in p],
         "coherent": [val(rng, 0.02) for _ in x], "compton": [val(rng, 0.02) for _ in x]}
    if rng.random() < 0.3:
        t["pair"] = [val(rng) for _ in x]
    return t


REAL = {"const": ["EADL97_%sShellConstants.dat", "%sShellConstants.dat"], "rad": ["EADL97_%sShellRadiativeRates.dat", "%sShellRates.dat"],
        "nonrad": ["EADL97_%sShellNonradiativeRates.dat"]}


def lib_change(rng, kind, lib="l", count=[0]):
    r = rng.random()
    count[0] += 1
    f = "f%d.dat" % (count[0] % 50)
    if r < 0.2:
        what = rng.choice(list(REAL))
        m = rng.choice("KLM")
        return [{"op": "lib.load", "id": lib, "what": what, "shell": m, "file": "data/" + rng.choice(REAL[what]) % m}]
    if r < 0.5:
        what = rng.choice(list(REAL))
        m = rng.choice("KLM")
        if what == "const":          # new yields beside the rates of other tables
            pass
        ops = [{"op": "file", "path": f, "lines": shell_file(rng, what, m), "last": 1},
               {"op": "lib.load", "id": lib, "what": what, "shell": m if rng.random() < 0.95 else rng.choice(["N", "L1", ""]), "file": f if rng.random() < 0.96 else "absent.dat"}]
        if rng.random() < 0.5:
            ops.append({"op": "lib.q", "id": lib, "q": what + "File", "shell": m})
        return ops
    if r < 0.6:
        if rng.random() < 0.4:
            return [{"op": "lib.load", "id": lib, "what": "mu", "file": rng.choice(["data/XCOM_CrossSections.dat", "absent.dat"])}]
        return [{"op": "file", "path": f, "lines": xcom_file(rng, rng.choice([1, 2, 8])), "last": 1}, {"op": "lib.load", "id": lib, "what": "mu", "file": f}]
    if r < 0.8:
        n = known(rng)
        return [dict({"op": "lib.setMu", "id": lib, "name": n}, **supplied(rng, n, kind))]
    # an element taken out, changed, and put back (perhaps under another name)
    n = known(rng)
    ops = [{"op": rng.choice(["lib.getElement", "lib.getElementRef"]), "id": "e", "lib": lib, "name": n if rng.random() < 0.97 else "Xx"}]
    if ops[0]["name"] == "Xx":
        return ops
    if rng.random() < 0.7:
        if rng.random() < 0.5:
            ops.append({"op": "el.setName", "id": "e", "name": rng.choice(["Xx", "Fe", n])})
        if rng.random() < 0.5:
            ops.append({"op": "el.setMass", "id": "e", "mass": num(rng.uniform(1, 200))})
        s = rng.choice([s for s in SHELLS if float(binding(kind, n).get(s, 0)) > 0] or ["K"])
        if rng.random() < 0.6:
            ops.append({"op": "el.setConst", "id": "e", "shell": s, "constants": {"omega": num(rng.uniform(0, 0.3))}})
        ops.append({"op": "lib.addElement", "id": lib, "el": "e"})
    return ops


def script_library(rng):
    kind = rng.choice(list(KINDS))
    form = dict(KINDS[kind])
    r = rng.random()
    if r < 0.05:
        return [dict({"op": "lib.new", "id": "l"}, **rng.choice([{"form": "dir", "dir": "absent"}, {"form": "pymca", "dir": "absent", "flag": 1}, {"form": "pymca", "dir": "", "flag": 0},
                                                                  {"form": "files", "dir": "data", "binding": "absent.dat"}, {"form": "files", "dir": "absent", "binding": "data/BindingEnergies.dat"},
                                                                  {"form": "files", "dir": "data", "binding": "data/BindingEnergies.dat", "xsec": "absent.dat"}]))]
    if kind == "epdl" and r < 0.3:
        form = rng.choice([{"form": "dir", "dir": ""}, {"form": "pymca", "dir": "data", "flag": 0}])
    ops = [dict({"op": "lib.new", "id": "l"}, **form)]
    if rng.random() < 0.1:
        ops[0]["fresh"] = 1
    changes = rng.random() < 0.75
    libs = ["l"]
    for _ in range(rng.randint(8, 20)):
        lib = rng.choice(libs)
        if changes and rng.random() < 0.2:
            ops += lib_change(rng, kind, lib)
        ops.append(lib_query(rng, kind, lib, ["Xx"] if changes else []))
        if rng.random() < 0.03 and len(libs) < 3:
            n = "l%d" % len(libs)
            ops.append({"op": "lib.copy", "id": n, "from": rng.choice(libs)})
            libs.append(n)
    return ops


def script_everything(rng, n=None, kind=None):
    """all that a library says about one element"""
    kind = kind or rng.choice(list(KINDS))
    n = n or known(rng)
    ops = [dict({"op": "lib.new", "id": "l"}, **KINDS[kind])]
    q = lambda **k: ops.append(dict({"op": "lib.q", "id": "l", "name": n}, **k))
    for x in ("binding", "mutable", "mass", "z", "longName", "density", "column", "row", "emitted"):
        q(q=x)
    for s in SHELLS:
        for x in ("rad", "nonrad", "const"):
            q(q=x, shell=s)
    for s in SHELLS:
        e = float(binding(kind, n).get(s, 0))
        if e > 0:
            q(q="excite", energy=num(e * 1.2))
            q(q="families", energy=num(e))
            q(q="mu", energy=num(e))
    return ops


# ------------------------------------------------------------------ supplied attenuation coefficients
def script_supply(rng):
    kind = rng.choice(list(KINDS))
    ops = [dict({"op": "lib.new", "id": "l"}, **KINDS[kind])]
    n = known(rng)
    for _ in range(rng.randint(1, 3)):
        t = supplied(rng, n, kind)
        if rng.random() < 0.06:
            k = rng.choice(["photoelectric", "coherent", "compton"])
            t[k] = t[k][:-1]
        ops.append(dict({"op": "lib.setMu", "id": "l", "name": n if rng.random() < 0.98 else "Xx"}, **t))
        ops.append({"op": "lib.q", "id": "l", "q": "binding", "name": n})
        if rng.random() < 0.4:
            ops.append({"op": "lib.q", "id": "l", "q": "mutable", "name": n})
        xs = t["energy"]
        for _ in range(rng.randint(3, 7)):
            r = rng.random()
            e = rng.choice(xs) if r < 0.35 else num(float(rng.choice(xs)) * rng.choice([0.999, 1.001, 0.7, 1.3])) if r < 0.6 else energy(rng, [n], kind)
            q = rng.choice(["mu", "mu", "mu", "vacdist", "excite"])
            ops.append({"op": "lib.q", "id": "l", "q": q, "name": n, "energy": e})
        if rng.random() < 0.3:
            ops += [{"op": "lib.getElement", "id": "e", "lib": "l", "name": n}, {"op": "el.q", "id": "e", "q": "edges"}, {"op": "el.q", "id": "e", "q": "binding"}]
    return ops


# ------------------------------------------------------------------ EPDL97
def binding_file(rng):
    rows = []
    shells = SHELLS + ["N1", "N2"]
    labels = ["Z"] + [s + {"K": "(1s1/2)"}.get(s, "(x)") if rng.random() < 0.5 else s for s in (shells if rng.random() < 0.8 else rng.sample(shells, 6))]
    for i in range(rng.choice([1, 3, 26, 30, 100, 104])):
        b = 0.0136 * (i + 1) ** 2
        vals = [b / (1 + k) ** 1.5 if rng.random() < 0.8 else 0.0 for k in range(len(labels) - 1)]
        rows.append([str(i + 1)] + [num(round(v, 6)) for v in vals])
    return spec_lines("binding energies", [(labels, rows)] * (1 if rng.random() < 0.9 else rng.choice([0, 2])))


def script_epdl(rng):
    ops = []
    r = rng.random()
    if r < 0.15:
        ops += [{"op": "epdl.default", "id": "x"}, {"op": "epdl.q", "id": "x", "q": "mu", "z": 26, "energy": "10.0"}]
        ops.append({"op": "epdl.setDir", "id": "x", "dir": rng.choice(["data", "data", "data/", "absent"])})
    elif r < 0.18:
        return [{"op": "epdl.new", "id": "x", "dir": "absent"}]
    else:
        ops.append({"op": "epdl.new", "id": "x", "dir": rng.choice(["data", "data/"])})
    be = None
    zs = {e: i + 1 for i, e in enumerate(DS["order"])}
    for _ in range(rng.randint(8, 18)):
        r = rng.random()
        n = rng.choice(DS["used"]) if len(DS["used"]) > 50 and rng.random() < 0.6 else known(rng)
        z = zs[n] if rng.random() < 0.95 else rng.choice([0, -1, 100, 101, 105, 110, 120, 1])
        if r < 0.05:
            ops.append({"op": "epdl.loadBinding", "id": "x", "file": "data/BindingEnergies.dat"})
        elif r < 0.1:
            f = "b%d.dat" % len(ops)
            ops += [{"op": "file", "path": f, "lines": binding_file(rng), "last": 1}, {"op": "epdl.loadBinding", "id": "x", "file": rng.choice([f] * 9 + ["absent.dat"])}]
        elif r < 0.2:
            b = {s: v for s, v in DS["binding"]["eadl"][n].items()}
            f = rng.uniform(0.8, 1.25)
            b = {s: num(round(float(v) * f, 6)) for s, v in b.items()}
            if rng.random() < 0.2 and b:
                b[rng.choice(list(b))] = "0.0"
            ops.append({"op": "epdl.setBinding", "id": "x", "z": z, "energies": b})
        else:
            q = rng.choice(["binding", "mutable", "mu", "mu", "mu", "muvec", "weights", "weights", "weightsvec"])
            o = {"op": "epdl.q", "id": "x", "q": q, "z": z}
            if q in ("mu", "weights"):
                o["energy"] = energy(rng, [n], "epdl")
            if q in ("muvec", "weightsvec"):
                o["energies"] = energies(rng, 4, [n], "epdl")
            ops.append(o)
    return ops


# ------------------------------------------------------------------ caches of a library
def script_libcache(rng):
    kind = rng.choice(list(KINDS))
    ops = [dict({"op": "lib.new", "id": "l"}, **KINDS[kind])]
    names = list(dict.fromkeys([known(rng), known(rng)]))
    pool = [energy(rng, names, kind) for _ in range(4)]
    casc = set()
    for _ in range(rng.randint(10, 24)):
        r = rng.random()
        n = rng.choice(names) if rng.random() < 0.98 else "Xx"
        if r < 0.35:
            what = rng.choice(["enable", "fill", "update", "clear", "cascadeEnable", "cascadeFill", "cascadeEmpty", "update", "fill", "enable", "cascadeEnable"])
            o = {"op": "lib.cache", "id": "l", "what": what, "name": n}
            if what in ("enable", "cascadeEnable"):
                o["flag"] = rng.choice([0, 1, 1])
            if what in ("fill", "update"):
                o["energies"] = [rng.choice(pool) for _ in range(rng.randint(0, 4))]
            if what in ("cascadeEnable", "cascadeFill") and n in names:
                casc.add(n)
            ops.append(o)
        elif r < 0.5:
            ch = lib_change(rng, kind)
            ops += ch
            # new rates: the cascade cache is the caller's to reset
            for x in names:
                if x in casc and any(o["op"] in ("lib.load", "lib.addElement") for o in ch) and rng.random() < 0.8:
                    ops.append({"op": "lib.cache", "id": "l", "what": rng.choice(["cascadeFill", "cascadeEmpty"]), "name": x})
        else:
            q = rng.choice(["mu", "mu", "muvec", "excite", "excite", "excitevec", "emitted", "vacdistvec", "lines", "cascade", "vacdist", "cacheSize", "cacheEnabled", "cascadeFilled"])
            o = {"op": "lib.q", "id": "l", "q": q, "name": n}
            if q in ("mu", "excite", "vacdist", "emitted"):
                o["energy"] = rng.choice(pool) if rng.random() < 0.7 else energy(rng, names, kind)
            if q in ("muvec", "vacdistvec", "excitevec"):
                o["energies"] = [rng.choice(pool) for _ in range(rng.randint(1, 4))]
            if q == "excite" and rng.random() < 0.6:
                o["weight"] = rng.choice([val(rng), num(rng.uniform(1, 50)), "0.5", "2.0"])
            if q == "excitevec":
                o["weights"] = rng.choice([[], [num(rng.uniform(0.1, 5))], [num(rng.uniform(0.1, 5)) for _ in o["energies"]]])
            if q in ("lines", "cascade"):
                o["dist"] = {s: val(rng) for s in SHELLS if rng.random() < 0.4 and float(binding(kind, n if n in DS["used"] else "Fe").get(s, 0)) > 0}
            ops.append(o)
    return ops


# ------------------------------------------------------------------ escape peaks of the library
def script_escape(rng):
    kind = rng.choice(list(KINDS))
    ops = [dict({"op": "lib.new", "id": "l"}, **KINDS[kind])]
    calls = []
    for _ in range(rng.randint(1, 3)):
        names = rng.sample([n for n in QUERY_EL if n not in ("H",)], rng.randint(1, 2))
        comp = {n: num(rng.uniform(0.1, 1)) for n in names}
        s = {"comp": comp}
        if rng.random() < 0.6:
            s["eThr"] = num(rng.choice([0.001, 0.010, 0.05, 0.3]))
        if rng.random() < 0.6:
            s["iThr"] = num(rng.choice([1e-9, 1e-7, 1e-4, 1e-3]))
        if rng.random() < 0.6:
            s["nThr"] = rng.choice([0, 1, 2, 4, 10])
        if rng.random() < 0.5:
            s["alphaIn"] = num(rng.choice([90.0, 45.0, 30.0, 90.0, 60.0]))
        if rng.random() < 0.5:
            s["thickness"] = num(rng.choice([0.0, 0.01, 0.1, 1.0]))
        calls.append((names, s))
    if rng.random() < 0.7:           # a call hardly different from another one
        names, s = rng.choice(calls)
        s = dict(s)
        w = rng.choice(["fraction", "fraction", "swap", "element", "more", "eThr", "iThr", "nThr", "alphaIn", "thickness"])
        c = dict(s["comp"])
        k = rng.choice(list(c))
        if w == "fraction":
            c[k] = num(float(c[k]) * rng.choice([0.5, 0.9, 1.1, 2.0]))
        elif w == "swap":
            c = dict(zip(c, reversed(list(c.values()))))
        elif w == "element":
            v = c.pop(k)
            c[rng.choice([x for x in QUERY_EL if x not in c and x != "H"])] = v
        elif w == "more":
            c[rng.choice([x for x in QUERY_EL if x not in c and x != "H"])] = num(rng.uniform(0.1, 1))
        else:
            s[w] = {"eThr": "0.2", "iThr": "0.002", "nThr": 3, "alphaIn": "20.0", "thickness": "0.003"}[w]
        calls.append((list(c), dict(s, comp=c)))
    pool = [energy(rng, calls[0][0], kind) for _ in range(3)]
    if rng.random() < 0.7:
        ops.append({"op": "lib.cache", "id": "l", "what": "escapeEnable", "flag": 1})
    for _ in range(rng.randint(4, 12)):
        names, s = rng.choice(calls)
        r = rng.random()
        if r < 0.08:
            ops.append({"op": "lib.cache", "id": "l", "what": "escapeEnable", "flag": rng.choice([0, 1, 1])})
        elif r < 0.2:
            ops.append({"op": "lib.cache", "id": "l", "what": "escapeClear"})
        elif r < 0.35:
            ops.append(dict({"op": "lib.cache", "id": "l", "what": "escapeUpdate", "energies": [rng.choice(pool) if rng.random() < 0.6 else energy(rng, names, kind) for _ in range(rng.randint(0, 3))]}, **s))
            # what is stored, asked with this and with other compositions and limits
            for names, t in rng.sample(calls, min(len(calls), rng.choice([0, 1, 2, 2]))):
                ops.append(dict({"op": "lib.q", "id": "l", "q": "escape", "energy": rng.choice(ops[-1].get("energies") or pool) if ops[-1]["op"] == "lib.cache" else ops[-1]["energy"]}, **t))
        elif r < 0.42:
            ops += lib_change(rng, kind)
        elif r < 0.47:
            ops.append({"op": "lib.q", "id": "l", "q": "escapeEnabled"})
        else:
            ops.append(dict({"op": "lib.q", "id": "l", "q": "escape", "energy": rng.choice(pool) if rng.random() < 0.6 else energy(rng, names, kind)}, **s))
    return ops


SI = {"comp": {"Si": "1.0"}}
MIX = {"comp": {"Cu": "0.25", "Fe": "0.75"}, "iThr": "1e-05"}
# requests that are hardly different
PAIRS = [(SI, {"comp": {"Si": "0.5"}}), (SI, dict(SI, iThr="0.001")), (SI, dict(SI, alphaIn="30.0")), (SI, dict(SI, thickness="0.002")), (SI, dict(SI, nThr=2)), (SI, dict(SI, eThr="0.2")),
         (MIX, dict(MIX, comp={"Cu": "0.75", "Fe": "0.25"})), (MIX, dict(MIX, comp={"Cu": "0.25", "Ca": "0.75"})), (MIX, dict(MIX, comp={"Cu": "0.25"})), (SI, {"comp": {"Ca": "1.0"}}),
         (MIX, dict(MIX, comp={"Cu": "0.25", "Fe": "0.75", "Si": "0.1"})), (SI, {"comp": {"Si": "1.0", "SiO2": "1.0"}})]


def replay_escape(hist, k):
    """a history of EscapeModel, with every request made after the last two calls"""
    a, b = PAIRS[k % len(PAIRS)]
    asks = {"a": a, "b": b, "c": {"comp": {"Fe": "1.0"}}}
    E = {1: "12.5", 2: "20.0"}
    out = [dict({"op": "lib.new", "id": "l"}, **KINDS["epdl"]), {"op": "lib.cache", "id": "l", "what": "escapeEnable", "flag": 1}] if hist[0]["what"] != "escapeEnable" else [dict({"op": "lib.new", "id": "l"}, **KINDS["epdl"])]
    for i, o in enumerate(hist):
        if o["what"] == "change":
            out.append({"op": "lib.load", "id": "l", "what": "const", "shell": "K", "file": "data/KShellConstants.dat" if o["version"] == 1 else "data/EADL97_KShellConstants.dat"})
        elif o["what"] == "escapeUpdate":
            out.append(dict({"op": "lib.cache", "id": "l", "what": "escapeUpdate", "energies": [E[x] for x in o["energies"]]}, **asks[o["request"]]))
        else:
            out.append(dict({"op": "lib.cache", "id": "l"}, **o))
        if i + 2 >= len(hist):
            out += [dict({"op": "lib.q", "id": "l", "q": "escape", "energy": e}, **asks[r]) for r in ("a", "b") for e in E.values()]
    return out

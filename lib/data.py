"""The data directory the library is run on, and the same data as a JSON data set for the specification.
The repository does not ship EPDL97_CrossSections.dat: a small synthetic one is written, the other files are
the repository's own."""
import json, math, os, random

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHELLS = ["K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5"]
USED = ["H", "C", "O", "Si", "Cl", "Ca", "Fe", "Cu", "Sr", "Ag", "Ba", "Pb", "U", "Fm", "Db"]
ELEMENTS = json.load(open(os.path.join(HERE, "data", "elements.json")))
SYMBOLS = [e[0] for e in ELEMENTS]
Z = {e[0]: e[1] for e in ELEMENTS}


def scans(path):
    """labels and rows of each scan of one of the repository's own data files"""
    out = []
    for line in open(path, encoding="latin-1"):
        line = line.strip()
        if line.startswith("#S"):
            out.append([None, []])
        elif line.startswith("#L") and out:
            out[-1][0] = [x.strip() for x in line[2:].strip().split("  ") if x.strip()]
        elif line and line[0] != "#" and out:
            out[-1][1].append(line.split())
    return out


def shell_key(label):
    if label[0] == "K":
        return "K"
    return label[:3] if label[3:4] == "(" else label[:2]


def bindings(path, base=()):
    """one map per row; the keys of a previously read file remain"""
    labels, rows = scans(path)[0]
    out = []
    for i, r in enumerate(rows):
        d = dict(base[i]) if i < len(base) else {}
        for lab, v in zip(labels[1:], r[1:]):
            d[shell_key(lab)] = v
        out.append(d)
    return out


def by_symbol(rows):
    """elements beyond the last row repeat it"""
    return {s: rows[min(i, len(rows) - 1)] for i, s in enumerate(SYMBOLS)}


def table(path, main, const=False):
    subs = [s for s in SHELLS if s[0] == main]
    out = {}
    for sub, (labels, rows) in zip(subs, scans(path)):
        for i, r in enumerate(rows):
            d = {}
            for lab, v in zip(labels, r):
                if lab == "Z":
                    continue
                if const and len(lab) > 4:
                    if lab.startswith("omega"):
                        d["omega"] = v
                else:
                    d[lab] = v
            out.setdefault(SYMBOLS[i], {})[sub] = d
    return out


def epdl_scan(z, be, bep, rng):
    """a synthetic cross section table: power laws with a jump (two points of equal energy) at each edge"""
    edges = []
    for s in SHELLS:
        e = float(be.get(s, 0)) or float(bep.get(s, 0))
        if e > 0:
            edges.append((e, s))
    grid = [0.001, 0.0045, 0.02, 0.11, 0.6, 2.7, 9.0, 24.0, 61.0, 150.0, 420.0]
    points = []                                 # (energy, shells on)
    for g in grid:
        points.append((g, {s for e, s in edges if e < g}))
    for e in sorted({e for e, _ in edges}):
        points.append((e, {s for x, s in edges if x < e}))
        points.append((e, {s for x, s in edges if x <= e}))
        if rng.random() < 0.3:
            f = e * 1.06
            points.append((f, {s for x, s in edges if x < f}))
    points.sort(key=lambda p: (p[0], len(p[1])))
    amp = {s: (0.4 + rng.random()) * z ** 1.5 * e ** 2.2 * 1e-1 for e, s in edges}
    slope = {s: 2.4 + 0.5 * rng.random() for _, s in edges}
    rows = []
    for e, on in points:
        coh = 0.02 * z ** 1.2 / (1 + (e / 3.0) ** 1.5)
        com = 0.18 * e / (e + 1.0) / (1 + e / 300.0)
        part = {s: (amp[s] * e ** -slope[s] if s in on else 0.0) for s in SHELLS}
        # shells beyond M exist from potassium on; tabulated only roughly
        rest = 0.05 * z * e ** -2.5 if z > 18 else 0.0
        oth = rest * (1 + 0.2 * (rng.random() - 0.5))
        if z <= 18 and rng.random() < 0.2:
            oth = 1e-3 / e
        tot = coh + com + sum(part.values()) + rest
        if rng.random() < 0.04:
            tot = coh + com + sum(part.values()) * (1 - 1e-3)      # rounding: the other shells would be negative
        pho = tot - coh - com
        rows.append([e, com, coh, pho * (1 + 1e-3 * rng.random()), tot] + [part[s] for s in SHELLS] + [oth])
    return rows


EPDL_LABELS = ["ENERGY", "COMPTON", "COHERENT", "PHOTOELECTRIC", "TOTAL", "K(1s1/2)", "L1(2s1/2)", "L2(2p1/2)", "L3(2p3/2)",
               "M1(3s1/2)", "M2(3p1/2)", "M3(3p3/2)", "M4(3d3/2)", "M5(3d5/2)", "AllOther"]
EPDL_KEYS = ["energy", "compton", "coherent", "photoelectric", "total"] + SHELLS + ["all other"]


def build(repo_data, out, seed=1, every=False):
    """writes the data directory `out` and returns the data set"""
    USED = SYMBOLS if every else globals()["USED"]
    os.makedirs(out, exist_ok=True)
    for f in os.listdir(repo_data):
        os.symlink(os.path.join(repo_data, f), os.path.join(out, f))
    p = lambda f: os.path.join(out, f)
    eadl_rows = bindings(p("EADL97_BindingEnergies.dat"))
    eadl = by_symbol(eadl_rows)
    pymca_rows = bindings(p("BindingEnergies.dat"), eadl_rows)
    pymca = by_symbol(pymca_rows)
    rng = random.Random("epdl/%s" % seed)
    epdl = {}
    if not os.path.exists(p("EPDL97_CrossSections.dat")):
        with open(p("EPDL97_CrossSections.dat"), "w") as f:
            f.write("#F EPDL97_CrossSections.dat\n#U00 synthetic\n\n")
            for z in range(1, 101):
                s = SYMBOLS[z - 1]
                rows = epdl_scan(z, eadl[s], pymca[s], rng)
                f.write("#S %d %s\n#N %d\n#L %s\n" % (z, s, len(EPDL_LABELS), "  ".join(EPDL_LABELS)))
                for r in rows:
                    f.write("  ".join("%.7E" % x for x in r) + "\n")
                f.write("\n")
    for i, (labels, rows) in enumerate(scans(p("EPDL97_CrossSections.dat"))):
        s = SYMBOLS[i]
        if s in USED or i == 99:
            epdl[s] = {k: [r[j] for r in rows] for j, k in enumerate(EPDL_KEYS)}
    for s in USED:
        if s not in epdl:
            epdl[s] = epdl[SYMBOLS[99]]
    xcom = {}
    for i, (labels, rows) in enumerate(scans(p("XCOM_CrossSections.dat"))):
        s = SYMBOLS[i]
        if s in USED:
            col = {}
            for j, lab in enumerate(labels):
                u = lab.upper()
                for key, pat in (("energy", "ENERGY"), ("photoelectric", "PHOTO"), ("pair", "PAIR"), ("compton", "COMPTON"), ("coherent", "RAYLEIGH")):
                    if pat in u:
                        col[key] = j
                if "COHERENT" in u and "INCOHERENT" not in u:
                    col["coherent"] = j
            xcom[s] = {k: [r[j] for r in rows] for k, j in col.items()}

    def pick(d):
        return {s: d.get(s, {}) for s in USED}

    def tables(prefix, names, const=False):
        out = {s: {} for s in USED}
        for m in "KLM":
            t = table(p(prefix + names % m), m, const)
            for s in USED:
                out[s].update(t.get(s, {}))
        return out
    ds = {"order": SYMBOLS, "used": USED,
          "elements": {e[0]: {"z": e[1], "column": e[2], "row": e[3], "longName": e[4], "mass": e[5], "density": repr(float(e[6]) / 1000. or 1.0)} for e in ELEMENTS},
          "rows": {"eadl": len(eadl_rows), "pymca": len(pymca_rows)}, "binding": {"eadl": pick(eadl), "pymca": pick(pymca)}, "epdl": pick(epdl), "xcom": xcom,
          "const": {"eadl": tables("EADL97_", "%sShellConstants.dat", True), "pymca": tables("", "%sShellConstants.dat", True)},
          "nonrad": {"eadl": tables("EADL97_", "%sShellNonradiativeRates.dat")},
          "rad": {"eadl": tables("EADL97_", "%sShellRadiativeRates.dat"), "pymca": tables("", "%sShellRates.dat")}}
    return ds


if __name__ == "__main__":
    import sys
    ds = build(sys.argv[1], sys.argv[2])
    print(len(json.dumps(ds)), {s: len(ds["epdl"][s]["energy"]) for s in USED}, {k: len(v["energy"]) for k, v in ds["xcom"].items()})

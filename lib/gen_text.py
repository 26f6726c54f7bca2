"""Scripts for the file readers."""

WORDS = ["Z", "omegaK", "f12", "K L2", "Energy (keV)", "COMPTON", "a", "L1(2s1/2)", "p Q r", "total"]


def file_op(path, lines, rng, eol=None):
    eol = rng.choice(["", "", "\r"]) if eol is None else eol
    return {"op": "file", "path": path, "lines": [x + eol for x in lines], "last": rng.choice([1, 1, 0])}


# ------------------------------------------------------------------ SPEC files
def number(rng):
    k = rng.random()
    if k < 0.3:
        return str(rng.randint(0, 300))
    if k < 0.6:
        return "%.*f" % (rng.randint(1, 8), rng.uniform(-50, 50))
    if k < 0.85:
        return "%.*E" % (rng.randint(0, 7), rng.uniform(-9, 9) * 10 ** rng.randint(-12, 12))
    return rng.choice(["+5", ".5", "5.", "-0", "1e5", "0", "-7", "1-2", "-", "3.0E+02"])


def data_line(rng, n):
    sep = rng.choice([" ", "  ", "\t", " , ", ";", "   "])
    t = sep.join(number(rng) for _ in range(n))
    if rng.random() < 0.2:
        t = rng.choice([" ", "  ", "\t"]) + t
    if rng.random() < 0.2:
        t += rng.choice([" ", "  ", "\t", " x"])
    return t


def label_line(rng, n):
    labels = [rng.choice(WORDS) for _ in range(n)]
    t = "#L" + rng.choice([" ", "  ", "", "   "])
    for i, x in enumerate(labels):
        t += x + (" " * rng.choice([2, 2, 3, 5]) if i + 1 < n else "")
    return t + rng.choice(["", "", " ", "  ", "   "])


def blank(rng):
    return rng.choice(["", "", " ", "\t"])


def scan(rng, lines):
    n = rng.choice([1, 1, 2, 3, 5])
    lines.append(rng.choice(["#S 1 title", "#S 2 a  b", "#S", "#S7"]))
    k = rng.random()
    if k < 0.85:
        for _ in range(rng.choice([0, 0, 1, 2])):
            lines.append(rng.choice(["#N 3", "#C  comment  5.0", "#D now", "#UF0 x", "#"]))
        lines.append(label_line(rng, n))
    elif k < 0.93:
        lines.append(rng.choice(["#L", "#L  ", "#N 2"]))
    for _ in range(rng.choice([0, 1, 1, 2, 4])):
        k = rng.random()
        if k < 0.8:
            lines.append(data_line(rng, n))
        elif k < 0.86:
            lines.append("# 5.0 6.0 comment")
        elif k < 0.9:
            lines.append("  " if n > 1 else "no value h")
        elif k < 0.95:
            lines.append(str(rng.randint(0, 9)) if n == 1 else data_line(rng, n))
        elif k < 0.97:
            lines.append(data_line(rng, n + 1))
        else:
            lines.append(label_line(rng, n))


def spec_lines(rng):
    lines = []
    if rng.random() < 0.6:
        lines += rng.sample(["#F name", "#D today", "#E 1", "1.0 2.0", "", "#L  not  in  scan", "x"], rng.randint(1, 3))
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
        scan(rng, lines)
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            lines.append(blank(rng))
        if lines and lines[-1].strip() == "" and rng.random() < 0.15:
            lines.append(rng.choice(["4.0 5.0", "#L between  scans", "#C x"]))
            lines.append("")
    return lines


def script_spec(rng):
    ops = []
    files = ["f%d.dat" % i for i in range(rng.choice([1, 1, 2]))]
    for f in files:
        ops.append(file_op(f, spec_lines(rng), rng))
    files.append("missing.dat")
    ids = []
    for i in range(rng.choice([1, 1, 2])):
        n = "s%d" % i
        ids.append(n)
        if rng.random() < 0.7:
            ops.append({"op": "spec.open", "id": n, "file": rng.choice(files[:-1] * 5 + files)})
        else:
            ops.append({"op": "spec.new", "id": n})
            ops.append({"op": "spec.setFile", "id": n, "file": rng.choice(files[:-1] * 5 + files)})
    for _ in range(rng.randint(4, 12)):
        n = rng.choice(ids)
        k = rng.random()
        i = rng.choice([0, 0, 0, 1, 1, 2, 3, -1, 5])
        if k < 0.12:
            ops.append({"op": "spec.n", "id": n})
        elif k < 0.5:
            ops.append({"op": "spec.labels", "id": n, "i": i})
        elif k < 0.92:
            ops.append({"op": "spec.data", "id": n, "i": i})
        else:
            ops.append({"op": "spec.setFile", "id": n, "file": rng.choice(files)})
    return ops


# ------------------------------------------------------------------ INI files
SECTIONS = ["fit", "Fit", "FIT", "materials", "Materials.Air", "materials.Steel", "Materials.Air.sub", "attenuators", "a", "materialsX", "x y"]
KEYS = ["energy", "Energy", "Detector", "key one", "k", "use", "Density", "K.1", "BeamFilter0"]
VALUES = ["1.0", "1, 2, 3", " Air , 0.5", '"quoted # text"', '"a" ; "b"', "1.0 # comment", "x;y", "", "a = b", "  spaced  out ", "1,,2,", "- , -", "[0]", "True"]


def ini_lines(rng):
    lines = []
    if rng.random() < 0.15:
        lines.append("orphan = 1")
    for _ in range(rng.choice([0, 1, 2, 2, 3, 5])):
        s = rng.choice(SECTIONS)
        k = rng.random()
        if k < 0.9:
            lines.append(rng.choice(["", "", "", "  "]) + "[" + s + "]" + rng.choice(["", "", " ", " # comment", " trailing"]))
        elif k < 0.93:
            lines.append(rng.choice(["[a[b]", "[]", "[a", "[a]]", "[a][b]"]))
        for _ in range(rng.choice([0, 1, 2, 3])):
            k = rng.random()
            if k < 0.62:
                v = rng.choice(VALUES)
                lines.append(rng.choice(["", " ", "\t"]) + rng.choice(KEYS) + rng.choice(["=", " = ", " =", "= "]) + v)
            elif k < 0.74:
                lines.append(rng.choice([" 4, 5", "  continued", "more", ", 7 # c", "\tx y z"]))
            elif k < 0.82:
                lines.append(rng.choice(["# comment", "; comment", "  # c = 5", ";"]))
            elif k < 0.9:
                lines.append(rng.choice(["", "  ", "\t"]))
            elif k < 0.92:
                lines.append('q = "unmatched')
            else:
                lines.append(rng.choice(KEYS) + " = " + ", ".join(str(rng.randint(0, 99)) for _ in range(rng.randint(1, 6))))
    return lines


def script_ini(rng):
    ops = []
    files = ["c%d.ini" % i for i in range(rng.choice([1, 1, 2]))]
    for f in files:
        lines = ini_lines(rng)
        ops.append(file_op(f, lines, rng))
    ids = []
    for i in range(rng.choice([1, 1, 2])):
        n = "i%d" % i
        ids.append(n)
        f = rng.choice(files * 5 + ["missing.ini"])
        if rng.random() < 0.7 and f != "missing.ini":
            ops.append({"op": "ini.open", "id": n, "file": f})
        else:
            ops.append({"op": "ini.new", "id": n})
            ops.append({"op": "ini.read", "id": n, "file": f})
        if ops[-1]["op"] == "ini.open":
            ops.insert(len(ops) - 1, {"op": "ini.new", "id": n})
    for _ in range(rng.randint(4, 12)):
        n = rng.choice(ids)
        k = rng.random()
        if k < 0.15:
            ops.append({"op": "ini.sections", "id": n})
        elif k < 0.4:
            ops.append({"op": "ini.subsections", "id": n, "parent": rng.choice(["", "materials", "Materials", "MATERIALS", "Materials.Air", "fit", "mat", "x"]), "cs": rng.choice([0, 1])})
        elif k < 0.9:
            ops.append({"op": "ini.section", "id": n, "section": rng.choice(SECTIONS + ["ATTENUATORS", "nothing", "MATERIALS.AIR"]), "cs": rng.choice([0, 1])})
        elif k < 0.93:
            ops.append({"op": "ini.read", "id": n, "file": rng.choice(files * 4 + ["missing.ini"])})
        else:
            ops.append(parse_op(rng))
    return ops


def parse_op(rng):
    item = lambda: rng.choice(["1", " 2.5", "-3", "4e2", "abc", "", " ", "x y", "7.9", "  word", "+6", "1.5abc", "-", ".5", "12 13", "0", "True", "-1.0E-3"])
    t = rng.choice(["double", "int", "string", "doubles", "doubles", "ints", "strings", "upper", "lower", "starts"])
    if t in ("double", "int", "string"):
        s = item()
        d = {"double": "-666.0", "int": -1, "string": "none"}[t]
        return {"op": "ini.parse", "type": t, "s": s, "dflt": d}
    if t in ("doubles", "ints", "strings"):
        sep = rng.choice([",", ",", ".", ";"])
        if sep == "." and t == "doubles":
            sep = ","
        s = sep.join(item() for _ in range(rng.randint(0, 5)))
        return {"op": "ini.parse", "type": t, "s": s, "sep": sep, "dflt": {"doubles": "-1.0", "ints": -1, "strings": ""}[t]}
    s = rng.choice(["Materials.Air", "abc XYZ 09", "", "mIxEd-case_[]", "a"])
    if t == "starts":
        return {"op": "ini.parse", "type": t, "s": s, "with": rng.choice(["", "Mat", "mat", "abc", "Materials.Air.x", "a"])}
    return {"op": "ini.parse", "type": t, "s": s}


# ------------------------------------------------------------------ files made by the models
def replay_spec(lines):
    ops = [{"op": "file", "path": "m.dat", "lines": lines, "last": len(lines) % 2}, {"op": "spec.open", "id": "s", "file": "m.dat"}, {"op": "spec.n", "id": "s"}]
    for i in range(sum(x.startswith("#S") for x in lines) + 1):
        ops += [{"op": "spec.labels", "id": "s", "i": i}, {"op": "spec.data", "id": "s", "i": i}]
    return ops


def replay_ini(lines):
    ops = [{"op": "file", "path": "m.ini", "lines": lines, "last": len(lines) % 2}, {"op": "ini.new", "id": "i"}, {"op": "ini.open", "id": "i", "file": "m.ini"},
           {"op": "ini.sections", "id": "i"}]
    for n in ("a", "A", "a.b"):
        ops += [{"op": "ini.section", "id": "i", "section": n, "cs": k} for k in (0, 1)]
    ops += [{"op": "ini.subsections", "id": "i", "parent": "a", "cs": k} for k in (0, 1)]
    return ops

"""Scripts for beams and transmission tables."""


def num(rng, lo, hi):
    return repr(round(rng.uniform(lo, hi), rng.choice([0, 2, 6])))


def beam_set(rng, id="b"):
    n = rng.choice([0, 1, 2, 2, 3, 4, 5])
    form = rng.choice(["vec", "vec", "vec", "arr", "other"])
    if n == 0:
        form = "vec"
    E = [num(rng, 1, 60) for _ in range(n)]
    if n > 1 and rng.random() < 0.3:
        E[rng.randrange(n)] = E[0]
    if rng.random() < 0.3:
        E = sorted(E, key=float, reverse=rng.random() < 0.6)
    op = {"op": "beam.set", "id": id, "form": form, "energy": E}

    def values(f):
        k = rng.random()
        if k < 0.25 and n > 0 or form != "vec" and k < 0.4:
            return None
        if form != "vec" or k < 0.7:
            m = n
        elif k < 0.85:
            m = 1
        else:
            m = rng.choice([x for x in range(0, 8)])
        return [f() for _ in range(m)]
    w = values(lambda: rng.choice([num(rng, 0, 3), num(rng, 0, 3), "0.0", "1.0"]))
    if w is not None:
        op["weight"] = w
        if rng.random() < 0.05:
            op["weight"] = ["0.0"] * len(w)
    c = values(lambda: rng.choice([0, 1, 1, 2, 5]))
    if c is not None:
        op["characteristic"] = c
    d = values(lambda: num(rng, 0, 2))
    if d is not None:
        op["divergency"] = d
    return op


def script_beam(rng):
    s = [{"op": "beam.new", "id": "b"}, {"op": "beam.get", "id": "b"}]
    for _ in range(rng.randint(1, 5)):
        if rng.random() < 0.2:
            o = {"op": "beam.single", "id": "b", "energy": num(rng, 1, 60)}
            if rng.random() < 0.5:
                o["divergency"] = num(rng, 0, 2)
            s.append(o)
        else:
            s.append(beam_set(rng))
        for f in rng.sample(["vec", "rays"], rng.randint(1, 2)):
            s.append({"op": "beam.get", "id": "b", "form": f})
    return s


def table_set(rng, id="t"):
    n = rng.choice([0, 1, 2, 3, 4, 6])
    form = rng.choice(["vec", "vec", "map"])
    pts = sorted(rng.sample(range(0, 40), n))
    E = [repr(p * rng.choice([0.5, 0.5, 1.25])) for p in pts]
    E.sort(key=float)
    if n > 1 and rng.random() < 0.35:
        k = rng.randrange(n - 1)
        E[k + 1] = E[k]
        if rng.random() < 0.2 and n > 2:
            E = [E[k]] * 3 + [x for x in E if float(x) > float(E[k])]
            E.sort(key=float)
    if form == "map":
        E = sorted(set(E), key=float)
    T = [rng.choice([repr(round(rng.random(), 4)), repr(round(rng.random(), 4)), "0.0", "1.0"]) for _ in E]
    k = rng.random()
    if k < 0.06 and n > 1:
        rng.shuffle(E)
    elif k < 0.10 and n:
        T[rng.randrange(len(T))] = "-0.25"
    elif k < 0.14 and n:
        E[0] = "-1.0"
    elif k < 0.18 and form == "vec":
        T = T[:-1] if T and rng.random() < 0.5 else T + ["0.5"]
    op = {"op": "tt.set", "id": id, "form": form, "energy": E, "transmission": T}
    if rng.random() < 0.25:
        op["name"] = rng.choice(["air", "filter", ""])
    if rng.random() < 0.25:
        op["comment"] = rng.choice(["measured", ""])
    return op


def probe(rng, E):
    k = rng.random()
    if E and k < 0.45:
        return repr(float(rng.choice(E)) + rng.choice([0, 0, 1e-6, 5e-7, 1e-3, -1e-3]))
    return repr(rng.choice([rng.uniform(0, 55), 0.0, 1e3, -1.0]))


def script_table(rng):
    s = [rng.choice([{"op": "tt.default", "id": "t"}, {"op": "tt.new", "id": "t", "name": "foil"},
                     {"op": "tt.new", "id": "t", "name": "", "comment": "c"}, {"op": "tt.new", "id": "t", "name": "foil", "comment": "c"}])]
    E = []
    for _ in range(rng.randint(1, 4)):
        k = rng.random()
        if k < 0.15:
            s.append({"op": "tt.setName", "id": "t", "name": rng.choice(["x", ""])})
        elif k < 0.25:
            s.append({"op": "tt.setComment", "id": "t", "comment": rng.choice(["x", ""])})
        else:
            o = table_set(rng)
            E = o["energy"] or E
            s.append(o)
        s.append({"op": "tt.get", "id": "t"})
        for _ in range(rng.randint(1, 4)):
            s.append({"op": "tt.trans", "id": "t", "energy": probe(rng, E)})
        if rng.random() < 0.5:
            s.append({"op": "tt.transvec", "id": "t", "energies": [probe(rng, E) for _ in range(rng.randint(0, 4))]})
    return s


def replay_table(o):
    s = [{"op": "tt.default", "id": "t"}, dict(o, op="tt.set", id="t"), {"op": "tt.get", "id": "t"},
         {"op": "tt.transvec", "id": "t", "energies": ["0.0", "0.5", "1.0", "1.0000005", "1.000001", "1.5", "2.0", "7.0"]}]
    return s + [{"op": "tt.trans", "id": "t", "energy": e} for e in ("0.25", "1.0", "2.0")]


def replay_beam(o):
    return [{"op": "beam.new", "id": "b"}, dict(o, op="beam.set", id="b"), {"op": "beam.get", "id": "b"},
            dict(o, op="beam.set", id="b", form="arr"), {"op": "beam.get", "id": "b", "form": "rays"}]

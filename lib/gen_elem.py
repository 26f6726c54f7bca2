"""Operation scripts for shells and elements. Everything here only chooses inputs: what the library must answer is in spec/."""
import random

SHELLS = ["K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5"]
OUTER = ["L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5", "N1", "N2", "N3", "N4", "N5", "O1", "O2", "O3"]
OTHER = "all other"


def num(x):
    return "%.12g" % x if x else "0.0"


def val(rng, zero=0.12, lo=-4, hi=1):
    if rng.random() < zero:
        return "0.0"
    return num(10 ** rng.uniform(lo, hi))


def sub(name):
    return 0 if name == "K" else int(name[1])


def ck_targets(name):
    m = {"K": 0, "L": 3, "M": 5}[name[0]]
    return [i for i in range(1, m + 1) if i > sub(name)]


def outer_of(name):
    return OUTER[{"K": 0, "L": 3, "M": 8}[name[0]]:]


def case(rng, s):
    r = rng.random()
    if r < 0.7:
        return s
    if r < 0.85:
        return s.lower()
    return "".join(c.lower() if rng.random() < 0.5 else c for c in s)


def rad_table(rng, name, bad=0.0, total=0.3, oddlabels=True):
    """labels and values of emission rates of one shell"""
    pool = [name + o for o in outer_of(name)]
    if oddlabels and len(name) == 2:
        pool += [name + x for x in ("P23", "O45")] if rng.random() < 0.3 else []
    if oddlabels and name == "K":
        pool += ["KO", "KP"]
    n = rng.randint(0 if rng.random() < 0.1 else 1, min(8, len(pool)))
    labels = rng.sample(pool, n)
    values = [val(rng) for _ in labels]
    if rng.random() < total:
        labels.append("TOTAL")
        values.append(val(rng))
    # a label repeated in another spelling names the same line: keep only one of a kind
    keep, seen = [], set()
    for l, v in zip(labels, values):
        k = canon(l)
        if k not in seen:
            seen.add(k)
            keep.append((case(rng, l), v))
    rng.shuffle(keep)
    if bad and rng.random() < bad:
        other = rng.choice([s for s in SHELLS if s != name])
        keep.insert(rng.randint(0, len(keep)), (rng.choice([other + "N1", "Z9N2", name + "ABCD" if len(name) == 1 else name + "ABC"]), "0.3"))
    return [k for k, _ in keep], [v for _, v in keep]


def canon(l):
    l = l.upper()
    if len(l) == 2:
        return l + "2"
    if len(l) == 5 and l != "TOTAL" and l[3:].isdigit():
        return l[:4]
    return l


def nonrad_table(rng, name, total=0.4):
    outs = outer_of(name)
    ck = [name[0] + str(i) for i in ck_targets(name)]
    entries = {}
    for _ in range(rng.randint(0 if rng.random() < 0.1 else 1, 10)):
        if ck and rng.random() < 0.45:
            a = rng.choice(ck)
        else:
            a = rng.choice(outs)
        b = rng.choice(outs)
        entries[name + "-" + a + b] = float(val(rng))
    labels = list(entries)
    values = [entries[k] for k in labels]
    s = sum(values)
    out = [(case(rng, k), num(v)) for k, v in zip(labels, values)]
    if rng.random() < total:
        f = 1.0 if rng.random() < 0.5 else rng.uniform(1.0, 2.0)
        out.append(("TOTAL", num(s * f)))
    rng.shuffle(out)
    # Auger rates must remain: a table of Coster-Kronig transitions only, or a null total, has no Auger ratios
    return [k for k, _ in out], [v for _, v in out]


def const_table(rng, name, partial=0.3, over=0.0, bad=0.0):
    keys = ["omega"] + ["f%d%d" % (sub(name), i) for i in ck_targets(name)]
    k = len(keys)
    parts = [rng.random() if rng.random() < 0.85 else 0.0 for _ in range(k + 1)]
    t = sum(parts) or 1.0
    scale = 1.0
    if over and rng.random() < over:
        scale = rng.uniform(1.05, 1.6)
        t = sum(parts[:k]) or 1.0
    c = {key: num(parts[i] / t * scale) for i, key in enumerate(keys)}
    if rng.random() < 0.1:
        c["omega"] = "0.0"
    if rng.random() < partial:
        for key in list(c):
            if rng.random() < 0.5 and len(c) > 1:
                del c[key]
    if bad and rng.random() < bad:
        c[rng.choice(["f99", "f21", "f31", "Omega", "omega2"])] = "0.1"
    return c


def shell_script(rng):
    ops = []
    name = rng.choice(SHELLS)
    ops.append({"op": "sh.new", "id": "s", "name": name})
    if rng.random() < 0.03:
        return [{"op": "sh.new", "id": "s", "name": rng.choice(["N1", "L4", "M6", "L", "M", "K1", "L0", "L12", "k", "l1", "Lx"])}]
    queries = [{"op": "sh." + x, "id": "s"} for x in ("rad", "nonrad", "fluo", "auger", "ck", "const", "yield")]
    dests = ["L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5", "N1", "N3"]
    if rng.random() < 0.2:
        ops.append(rng.choice(queries))
    for _ in range(rng.randint(1, 6)):
        r = rng.random()
        if r < 0.36:
            form = rng.choice(["map", "vec", "carr"])
            l, v = rad_table(rng, name, bad=0.04)
            op = {"op": "sh.setRad", "id": "s", "form": form, "labels": l, "values": v}
        elif r < 0.72:
            form = rng.choice(["map", "vec", "carr"])
            l, v = nonrad_table(rng, name)
            op = {"op": "sh.setNonrad", "id": "s", "form": form, "labels": l, "values": v}
        else:
            op = {"op": "sh.setConst", "id": "s", "constants": const_table(rng, name, over=0.12, bad=0.05)}
        ops.append(op)
        if op["op"] == "sh.setRad" and any(canon(x) != "TOTAL" and not canon(x).startswith(name) or (len(x) == 5 and not x[3:].isdigit() and x.upper() != "TOTAL") for x in op["labels"]):
            return ops          # refused: the rest is unspecified
        if op["op"] == "sh.setConst" and not set(op["constants"]) <= {"omega"} | {"f%d%d" % (sub(name), i) for i in ck_targets(name)}:
            return ops
        for q in rng.sample(queries, rng.randint(1, 3)):
            ops.append(q)
        for _ in range(rng.randint(0, 3)):
            ops.append({"op": "sh.transfer", "id": "s", "dest": rng.choice(dests) if rng.random() < 0.96 else rng.choice(["K", "L", "", "L1M"])})
    ops += queries + [{"op": "sh.transfer", "id": "s", "dest": d} for d in dests]
    return ops


# ---------------------------------------------------------------------------------------------- elements
class El:
    """what the generator remembers about the element it is building, to stay inside the documented domain"""

    def __init__(self, rng, id="e", z=None):
        self.rng, self.id = rng, id
        self.z = z or rng.randint(1, 100)
        self.be = {}
        self.grid = []
        self.stale = False       # tables behind a filled cascade cache have changed
        self.casc = False
        self.ready = False

    def shells(self):
        return [s for s in SHELLS if s in self.be]

    def bound(self):
        return [s for s in SHELLS if self.be.get(s, 0) > 0]

    def op(self, op, **kw):
        return dict({"op": op, "id": self.id}, **kw)

    def binding(self, missing=0.25):
        rng = self.rng
        n = rng.choice([1, 2, 3, 4, 4, 5, 7, 9, 9, 9])
        top = 10 ** rng.uniform(-0.3, 1.9)
        be, e = {}, top
        for i, s in enumerate(SHELLS):
            if i < n:
                be[s] = float(num(round(e, 6)))
                e = be[s] * (rng.uniform(0.08, 0.3) if s in ("K", "L3") else rng.uniform(0.82, 0.98))
                if be[s] < 0.002:
                    be[s] = 0.0
            else:
                be[s] = 0.0
        if rng.random() < missing:
            for s in reversed(SHELLS):
                if be[s] == 0.0:
                    del be[s]
        if be.get("M1", 0) > 0 or rng.random() < 0.2:
            e = min([v for v in be.values() if v > 0] or [0.01]) * 0.3
            for s in ("N1", "N2", "N3", "O1"):
                if rng.random() < 0.6:
                    be[s] = float(num(round(e, 6)))
                    e *= 0.7
        self.be = be
        items = list(be.items())
        rng.shuffle(items)
        self.stale = self.stale or self.casc
        return self.op("el.setBinding", labels=[k for k, _ in items], values=[num(v) for _, v in items], form=rng.choice(["map", "vec"]))

    def edges(self):
        return sorted(v for v in self.be.values() if v > 0)

    def make_grid(self):
        rng = self.rng
        edges = self.edges() or [1.0]
        lo, hi = max(edges[0] * rng.uniform(0.5, 1.5), 0.01), max(edges[-1] * rng.uniform(1.5, 4), 2.0)
        n = rng.randint(4, 14)
        g = sorted(set(float(num(round(lo * (hi / lo) ** (i / (n - 1.0)), 5))) for i in range(n)))
        for e in edges:
            if e < hi * 0.8:
                r = rng.random()
                if r < 0.55:
                    g += [e, e]
                elif r < 0.7:
                    x = round(e * rng.uniform(0.97, 1.03), 5)
                    g += [x, x]
        g = sorted(g)
        # keep points apart unless exactly repeated (at most twice)
        out = []
        for x in g:
            if out and x != out[-1] and x - out[-1] < 1e-4:
                continue
            if len(out) > 1 and x == out[-1] == out[-2]:
                continue
            out.append(x)
        t = out[-1]
        out += [float(num(round(t * f, 5))) for f in (1.3, 1.7, 2.4, 3.5)]
        return out

    def power(self, g, a, p):
        return [a * (10.0 / x) ** p for x in g]

    def mu(self):
        rng = self.rng
        self.grid = g = self.make_grid()
        coh = self.power(g, 10 ** rng.uniform(-2, 0), rng.uniform(0.5, 1.5))
        com = [10 ** rng.uniform(-2, -0.5) * min(1, x / 10.0) for x in g]
        for i in range(1, len(g)):          # no jumps between points that nearly coincide: they extrapolate to infinity
            if 0 < g[i] - g[i - 1] < 0.02 * g[i]:
                com[i] = com[i - 1]
        ph = self.power(g, 10 ** rng.uniform(0, 2), rng.uniform(2.3, 3))
        pr = [0.0] * len(g)
        if rng.random() < 0.4:
            k = rng.randint(1, len(g) - 1)
            pr = [0.0 if i < k else 10 ** rng.uniform(-5, -2) for i in range(len(g))]
        if rng.random() < 0.2:
            k = rng.randint(1, 3)
            com = [0.0 if i < k else v for i, v in enumerate(com)]
        if rng.random() < 0.1:
            coh[rng.randrange(len(coh))] = 0.0
        if rng.random() < 0.02:
            k = rng.randrange(len(g))
            g, ph, coh, com, pr = [[v[k]] for v in (g, ph, coh, com, pr)]
        o = self.op("el.setMu", energy=[num(x) for x in g], photoelectric=[num(x) for x in ph],
                    coherent=[num(x) for x in coh], compton=[num(x) for x in com])
        if rng.random() < 0.6:
            o["pair"] = [num(x) for x in pr]
        return o

    def partials(self):
        rng, ops = self.rng, []
        common = rng.random() < 0.5
        base = self.make_grid()
        r = rng.random()
        skip = 1.0 if r < 0.07 else 0.4 if r < 0.17 else 0.0          # shells without coefficients
        for s in self.bound() + [OTHER]:
            if rng.random() < skip:
                continue
            ops.append(self.partial(s, base if common and base[-1] > self.be.get(s, 0) * 3 else None))
        return ops

    def partial(self, s, g=None):
        rng = self.rng
        be = self.be.get(s, 0.0)
        if rng.random() < 0.02:
            r = rng.random()
            return self.op("el.setPartial", shell=s, energy=[num(be * 1.5 + 1.0)] if r < 0.8 else [], values=[num(rng.choice([0.0, 3.0]))] if r < 0.8 else [])
        g = list(g or self.make_grid())
        while g[-4] <= be:
            g.append(float(num(round(g[-1] * 1.7, 5))))
        if s != OTHER and rng.random() < 0.3 and be > 0:      # own grid from the edge up
            g = [be] * rng.choice([1, 2]) + [x for x in g if x > be + 1e-4]
        y = self.power(g, 10 ** rng.uniform(-2, 2), rng.uniform(2.2, 3.1))
        if rng.random() < 0.3:
            y = [v * rng.uniform(0.9, 1.1) for v in y]
        if s != OTHER:
            r = rng.random()
            cut = be if r < 0.6 else be * rng.uniform(1.0, 1.2) if r < 0.85 else 0.0
            for i, x in enumerate(g):
                first_of_pair = i + 1 < len(g) and g[i + 1] == x
                if (x < cut or (x == cut and first_of_pair)) and i < len(g) - 4:
                    y[i] = 0.0
            if g[0] < be:
                y[0] = 0.0
            if rng.random() < 0.05:          # hardly or never positive
                k = rng.choice([0, 1, 2])
                y = [0.0] * (len(y) - k) + y[len(y) - k:]
        elif rng.random() < 0.3:
            k = rng.randint(1, 3)
            y = [0.0 if i < k else v for i, v in enumerate(y)]
        return self.op("el.setPartial", shell=s, energy=[num(x) for x in g], values=[num(x) for x in y])

    def rad(self, s):
        l, v = rad_table(self.rng, s)
        self.stale = self.stale or self.casc
        return self.op("el.setRad", shell=s, labels=l, values=v, form=self.rng.choice(["map", "vec"]))

    def nonrad(self, s):
        l, v = nonrad_table(self.rng, s)
        self.stale = self.stale or self.casc
        return self.op("el.setNonrad", shell=s, labels=l, values=v, form=self.rng.choice(["map", "vec"]))

    def const(self, s, over=0.0):
        self.casc = self.stale = False
        return self.op("el.setConst", shell=s, constants=const_table(self.rng, s, over=over))

    def deexcitation(self, full=0.8):
        ops = []
        for s in self.bound():
            for f in (self.rad, self.nonrad, self.const):
                if self.rng.random() < full:
                    ops.append(f(s))
        return ops

    def energy(self):
        """an excitation energy: anywhere, on an edge or grid point, just beside one, or outside the tables"""
        rng = self.rng
        r = rng.random()
        pts = self.edges() + self.grid
        if r < 0.45 and pts:
            x = rng.choice(pts)
            d = rng.choice([0, 0, 0, 1e-6, -1e-6, 5e-7, 1e-3, -1e-3, 2e-5, 5e-6])
            return num(max(x + d, 0.005))
        hi = (self.grid or [10.0])[-1]
        lo = (self.grid or [0.1])[0]
        if r < 0.9:
            return num(lo * (hi / lo) ** rng.random())
        if r < 0.95:
            return num(hi * rng.uniform(1.0, 1.6))
        return num(lo * rng.uniform(0.4, 1.0))

    def dist(self):
        rng = self.rng
        d = {s: val(rng, zero=0.3, lo=-3, hi=0.5) for s in self.shells() if rng.random() < 0.7}
        if rng.random() < 0.4:
            d[OTHER] = val(rng)
        return d

    def settle(self):
        """reset the cascade cache when the tables behind it have changed, as its documentation asks"""
        if self.stale and self.casc:
            self.stale = False
            if self.rng.random() < 0.5:
                return [self.op("el.cache", what="cascadeFill")]
            self.casc = False
            return [self.op("el.cache", what="cascadeEmpty")]
        return []

    def build(self, full=0.85):
        ops = [self.op("el.new", name="X%d" % self.z, z=self.z), self.binding()]
        parts = [[self.mu()], self.partials(), self.deexcitation(full)]
        self.rng.shuffle(parts)
        for p in parts:
            ops += p
        self.ready = True
        return ops

    # ---- queries
    def q_tables(self):
        rng = self.rng
        s = rng.choice(self.shells()) if self.shells() and rng.random() < 0.95 else rng.choice(["N1", "Z", "K1", "M5"])
        q = rng.choice(["rad", "nonrad", "const", "fluo", "xraylines", "auger", "ck", "transfer", "binding", "mutable"])
        o = self.op("el.q", q=q)
        if q not in ("binding", "mutable"):
            o["shell"] = s
        if q == "transfer":
            o["dest"] = rng.choice(OUTER[:9])
        return o

    def q_mu(self):
        rng = self.rng
        q = rng.choice(["mu", "mu", "mu", "muvec", "partial", "vacdist", "vacdistvec", "excited"])
        if q.endswith("vec"):
            return self.op("el.q", q=q, energies=[self.energy() for _ in range(rng.randint(0 if rng.random() < 0.1 else 1, 5))])
        return self.op("el.q", q=q, energy=self.energy())

    def q_lines(self):
        rng = self.rng
        q = rng.choice(["cascade", "lines", "lines", "emitted", "tenergy"])
        if q == "cascade":
            return self.op("el.q", q=q, dist=self.dist())
        if q == "lines":
            return self.op("el.q", q=q, dist=self.dist(), cascade=rng.choice([1, 1, 0]), **{"yield": rng.choice([1, 1, 0])})
        if q == "emitted":
            return self.op("el.q", q=q, energy=self.energy())
        s = rng.choice(self.shells() or ["K"])
        return self.op("el.q", q=q, line=s + rng.choice(OUTER) if rng.random() < 0.95 else rng.choice(["K", "KL", "L1M23", "N1N2", "XX12"]))

    def q_excite(self):
        rng = self.rng
        if rng.random() < 0.55:
            return self.op("el.q", q="excite", energy=self.energy(), weight=val(rng, zero=0.05))
        es = [self.energy() for _ in range(rng.randint(0 if rng.random() < 0.1 else 1, 4))]
        r = rng.random()
        w = [] if r < 0.35 else [val(rng)] if r < 0.6 else [val(rng) for _ in es]
        return self.op("el.q", q="excitevec", energies=es, weights=w)

    def q_cache(self):
        return self.op("el.q", q=self.rng.choice(["cacheSize", "cacheEnabled", "cascadeFilled"]))

    # ---- caches
    def cache(self, pool=None):
        rng = self.rng
        es = [rng.choice(pool) if pool and rng.random() < 0.8 else self.energy() for _ in range(rng.randint(0 if rng.random() < 0.1 else 1, 5))]
        r = rng.random()
        if r < 0.25:
            return self.op("el.cache", what="fill", energies=es)
        if r < 0.5:
            return self.op("el.cache", what="update", energies=es)
        if r < 0.72:
            return self.op("el.cache", what="enable", flag=rng.choice([0, 1, 1, 1, 2]))
        if r < 0.76:
            return self.op("el.cache", what="clear")
        if r < 0.9:
            f = rng.choice([0, 1, 1])
            if f:
                self.casc = True
            return self.op("el.cache", what="cascadeEnable", flag=f)
        if r < 0.96:
            self.casc, self.stale = True, False
            return self.op("el.cache", what="cascadeFill")
        self.casc = self.stale = False
        return self.op("el.cache", what="cascadeEmpty")

    def mutate(self):
        rng = self.rng
        r = rng.random()
        b = self.bound()
        if r < 0.15 or not b:
            return [self.mu()]
        if r < 0.3:
            return [self.partial(rng.choice(b + [OTHER]))]
        if r < 0.55:
            return [self.rad(rng.choice(b))]
        if r < 0.7:
            return [self.nonrad(rng.choice(b))]
        if r < 0.9:
            return [self.const(rng.choice(b))]
        # new binding energies for the same shells: tables of photons stay, de-excitation tables are gone
        f = rng.uniform(0.85, 1.15)
        self.be = {k: float(num(round(v * f, 6))) for k, v in self.be.items()}
        self.stale = self.stale or self.casc
        ops = [self.op("el.setBinding", labels=list(self.be), values=[num(v) for v in self.be.values()])]
        if rng.random() < 0.6:
            ops += self.deexcitation(0.6)
        return ops


def script_mu(rng):
    e = El(rng)
    ops = e.build(full=0.3)
    for _ in range(rng.randint(4, 14)):
        ops.append(e.q_mu())
        if rng.random() < 0.06:
            ops += e.mutate()
    return ops


def script_lines(rng):
    e = El(rng)
    ops = [e.op("el.new", name="X", z=e.z), e.binding()]
    ops += e.deexcitation(0.9)
    if rng.random() < 0.15 and e.bound():
        ops.append(e.const(rng.choice(e.bound()), over=1.0))
    for _ in range(rng.randint(4, 14)):
        r = rng.random()
        ops.append(e.q_lines() if r < 0.7 else e.q_tables())
        if rng.random() < 0.08 and e.bound():
            ops.append(rng.choice([e.rad, e.nonrad, e.const])(rng.choice(e.bound())))
    return ops


def script_excite(rng):
    e = El(rng)
    ops = e.build(full=0.95)
    for _ in range(rng.randint(3, 9)):
        r = rng.random()
        ops.append(e.q_excite() if r < 0.6 else e.q_lines() if r < 0.8 else e.q_mu())
        if rng.random() < 0.08:
            ops += e.mutate()
    return ops


def script_cache(rng):
    """histories of table changes, cache operations and queries"""
    e = El(rng)
    ops = e.build(full=0.9)
    pool = [e.energy() for _ in range(4)]
    ids = [e.id]
    for _ in range(rng.randint(8, 22)):
        r = rng.random()
        if r < 0.4:
            ops.append(e.cache(pool))
        elif r < 0.6:
            ops += e.mutate()
        ops += e.settle()
        for _ in range(rng.randint(0, 3)):
            q = rng.choice([e.q_mu, e.q_excite, e.q_excite, e.q_lines, e.q_cache])()
            if "energy" in q and rng.random() < 0.75:
                q["energy"] = rng.choice(pool)
            if "energies" in q and rng.random() < 0.75:
                q["energies"] = [rng.choice(pool) for _ in q["energies"]]
            ops.append(q)
        if rng.random() < 0.05 and len(ids) < 3:
            n = "c%d" % len(ids)
            ops.append({"op": "el.copy", "id": n, "from": e.id})
            ids.append(n)
        if len(ids) > 1 and rng.random() < 0.2:
            ops.append(dict(e.q_mu(), id=rng.choice(ids)))
    return ops


def script_capacity(rng):
    """the bound on stored calculations: fills and updates around the maximum size"""
    e = El(rng)
    ops = [e.op("el.new", name="X", z=20), e.op("el.setBinding", labels=["K"], values=["1.0"], form="map")]
    g = ["1.5", "5.0", "20.0", "60.0"]
    ops.append(e.op("el.setMu", energy=g, photoelectric=["9.0", "3.0", "1.0", "0.2"], coherent=["1.0", "0.5", "0.1", "0.05"], compton=["0.1", "0.2", "0.2", "0.1"]))
    for s in ("K", OTHER):
        ops.append(e.op("el.setPartial", shell=s, energy=g, values=["7.0", "2.0", "0.5", "0.1"]))
    ops += [e.rad("K"), e.const("K")]
    start = 2.0
    for _ in range(rng.randint(2, 5)):
        n = rng.choice([0, 1, 3, 5000, 9990, 9999, 10000, 10001, 10050])
        what = rng.choice(["fillN", "updateN", "updateN"])
        step = 0.0001
        ops.append(e.op("el.cache", what=what, n=n, start=num(start), step=num(step)))
        start += step * n + 0.5
        ops.append(e.op("el.q", q="cacheSize"))
        if rng.random() < 0.3:
            ops.append(e.op("el.cache", what="enable", flag=rng.choice([0, 1])))
        ops.append(e.op("el.q", q="mu", energy=num(rng.choice([start - 0.5, start - 0.5 - step * n, 2.0, 3.0]))))
        if rng.random() < 0.3:
            ops += [rng.choice([e.op("el.cache", what="clear"), e.const("K"), e.rad("K")]), e.op("el.cache", what="clear"), e.op("el.q", q="cacheSize")]
    return ops

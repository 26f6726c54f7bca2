"""Several scripts at once: interleaved, or each in its own thread, on objects of their own; and one library asked from several threads."""
import gen_elem
import gen_inst
import gen_lib
import gen_text
import gen_xrf

IDS = ("id", "from", "lib", "el", "mat", "beam", "det", "xrf", "lay", "layer")
LISTS = ("mats", "layers", "tables", "filters", "attenuators")
FILES = ("path", "file", "binding", "xsec")


def renamed(script, prefix):
    out = []
    for o in script:
        o = dict(o)
        for k in IDS:
            if isinstance(o.get(k), str):
                o[k] = prefix + o[k]
        for k in LISTS:
            if k in o and all(isinstance(x, str) for x in o[k]):
                o[k] = [prefix + x for x in o[k]]
        for k in FILES:
            if isinstance(o.get(k), str) and o[k] and not o[k].startswith("data"):
                o[k] = prefix + o[k]
        out.append(o)
    return out


SOURCES = [gen_elem.script_cache, gen_elem.script_mu, gen_elem.script_lines, gen_elem.script_excite, gen_elem.shell_script, gen_text.script_spec, gen_text.script_ini,
           gen_inst.script_beam, gen_inst.script_table, gen_lib.script_materials, gen_lib.script_mix, gen_lib.script_library, gen_lib.script_epdl,
           gen_lib.script_libcache, gen_lib.script_formula, gen_lib.script_supply, gen_lib.script_escape]
MORE = [gen_xrf.script_layer, gen_xrf.script_detector, gen_xrf.script_config, gen_xrf.script_hold, gen_xrf.script_geometry, gen_xrf.script_primary, gen_xrf.script_detection,
        gen_xrf.script_request]


def one(rng):
    f = rng.choice(SOURCES + MORE)
    s = f(rng)
    return s[:rng.randint(len(s) // 2, len(s))]


def interleave(rng, scripts):
    rest = [list(s) for s in scripts if s]
    out = []
    while rest:
        k = rng.randrange(len(rest))
        out.append(rest[k].pop(0))
        if not rest[k]:
            rest.pop(k)
    return out


def script_interleaved(rng):
    k = rng.choice([2, 2, 3])
    scripts = [one(rng) for _ in range(k)]
    if rng.random() < 0.5:       # the same calls with other values, or the same values
        scripts = [scripts[0], scripts[0]] + scripts[2:]
    return interleave(rng, [renamed(s, "abc"[i]) for i, s in enumerate(scripts)])


def script_threads(rng):
    return [{"op": "threads", "lists": [renamed(one(rng), "t%d" % i) for i in range(rng.choice([3, 4, 6]))]}]


def script_again(rng):
    """the same questions in different orders, one library"""
    kind = rng.choice(list(gen_lib.KINDS))
    ops = [dict({"op": "lib.new", "id": "l"}, **gen_lib.KINDS[kind])]
    qs = [gen_lib.lib_query(rng, kind) for _ in range(rng.randint(4, 9))]
    for _ in range(3):
        rng.shuffle(qs)
        ops += qs
    return ops


def script_shared(rng):
    """threads that only ask questions, of one library"""
    kind = rng.choice(list(gen_lib.KINDS))
    ops = [dict({"op": "lib.new", "id": "l"}, **gen_lib.KINDS[kind])]
    names = ["m1", "m2"]
    ops += [{"op": "lib.addMaterial", "id": "l", "name": "m1"}, {"op": "lib.setMatComp", "id": "l", "name": "m1", "form": "map", "names": ["SiO2", "Fe"], "amounts": ["1.0", "2.0"]},
            {"op": "lib.addMaterial", "id": "l", "name": "m2"}, {"op": "lib.setMatComp", "id": "l", "name": "m2", "form": "map", "names": ["m1", "H2O"], "amounts": ["1.0", "2.0"]}]
    if rng.random() < 0.7:
        n = rng.choice(["Fe", "Si", "Cu"])
        ops += [{"op": "lib.cache", "id": "l", "what": "enable", "name": n, "flag": 1},
                {"op": "lib.cache", "id": "l", "what": "fill", "name": n, "energies": ["5.0", "10.0"]}]
    if rng.random() < 0.4:
        ops.append({"op": "lib.cache", "id": "l", "what": "escapeUpdate", "comp": {"Si": "1.0"}, "energies": ["10.0"]})

    def ask():
        r = rng.random()
        if r < 0.6:
            q = gen_lib.lib_query(rng, kind)
            return q
        if r < 0.7:
            return {"op": "lib.q", "id": "l", "q": "mu", "name": rng.choice(["Fe", "Si", "Cu"]), "energy": rng.choice(["5.0", "10.0", "7.7"])}
        if r < 0.8:
            return {"op": "lib.q", "id": "l", "q": "comp", "name": rng.choice(names)}
        if r < 0.9:
            return {"op": "lib.q", "id": "l", "q": "mumap", "comp": {rng.choice(names): "1.0"}, "energy": gen_lib.energy(rng)}
        return {"op": "lib.q", "id": "l", "q": "escape", "comp": {"Si": "1.0"}, "energy": rng.choice(["10.0", "12.0"])}
    ops.append({"op": "threads", "lists": [[ask() for _ in range(rng.randint(3, 7))] for _ in range(4)], "rounds": rng.choice([1, 3])})
    return ops


def script_round(rng):
    """objects of one class holding more or less, asked the same questions in turn"""
    if rng.random() < 0.35:
        f = rng.choice(SOURCES + MORE)
        scripts = [f(rng) for _ in range(3)]
        return interleave(rng, [renamed(s[:rng.randint(len(s) // 2, len(s))], "abc"[i]) for i, s in enumerate(scripts)])
    els, ops = [], []
    for i in range(rng.choice([2, 3, 4])):
        e = gen_elem.El(rng, id="e%d" % i)
        ops += [e.op("el.new", name="X%d" % e.z, z=e.z)]
        if rng.random() < 0.85:
            ops.append(e.binding())
        parts = [[e.mu()], e.partials(), e.deexcitation(rng.choice([0.3, 0.9]))]
        if rng.random() < 0.6:
            parts.pop(rng.choice([0, 1, 1, 2]))
        rng.shuffle(parts)
        for p in parts:
            ops += p
        els.append(e)
    for _ in range(rng.randint(5, 10)):
        e = rng.choice(els)
        r = rng.random()
        q = e.q_mu() if r < 0.4 else e.q_excite() if r < 0.65 else e.q_lines() if r < 0.85 else e.q_tables()
        for x in rng.sample(els, rng.randint(1, len(els))):
            ops.append(dict(q, id=x.id))
    return ops

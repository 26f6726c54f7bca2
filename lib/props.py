"""What each property's check runs: models of the specification, and scripts whose traces the specification must accept."""
import random
import gen_elem
import gen_text
import gen_math
import gen_inst
import gen_lib
import gen_pure
import gen_xrf

CHECKS = {}


def prop(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def gen(c, f, quick, thorough, salt=""):
    """a number of scripts depending on the tier, from the check's seed"""
    n = quick if c.tier == "quick" else thorough
    return [f(random.Random("%s/%s/%s/%s/%d" % (c.seed, c.pid, f.__name__, salt, i))) for i in range(n)]


@prop("E01")
def e01(c):
    c.assumptions = ["rates and yields are finite and not negative; a supplied non-radiative total is at least the sum of the supplied rates"]
    c.model("MCShell")
    c.conform(gen(c, gen_elem.shell_script, 2500, 30000), "shells")


@prop("E02")
def e02(c):
    c.assumptions = ["the element defines its shells from K outwards without gaps; vacancies are on shells it defines"]
    c.model("MCCascade", "MCCascade.cfg" if c.tier == "quick" else "MCCascadeBig.cfg")
    c.conform(gen(c, gen_elem.script_lines, 900, 12000), "cascades and lines")


@prop("E03")
def e03(c):
    c.assumptions = ["tables ascend; once a shell's table is positive it stays positive (it may never be)"]
    c.conform(gen(c, gen_elem.script_mu, 1100, 14000), "attenuation")


@prop("E04")
def e04(c):
    c.assumptions = ["as for E02 and E03"]
    c.conform(gen(c, gen_elem.script_excite, 800, 10000), "excitation factors")


@prop("C01")
def c01(c):
    c.assumptions = ["as for E04; histories are sequential on one element or library"]
    c.model("CacheModel", "CacheModel.cfg")
    c.conform(gen(c, gen_elem.script_cache, 900, 12000), "cache histories")
    c.conform(gen(c, gen_elem.script_capacity, 24, 200), "cache capacity")


@prop("F01")
def f01(c):
    c.assumptions = ["the file is not changed while it is open; numbers are written with a decimal point"]
    txt = c.model("MCSpecFile", "MCSpecFile.cfg" if c.tier == "quick" else "MCSpecFileBig.cfg")
    c.conform([gen_text.replay_spec(f) for f in c.generated(txt, "FILE")], "every file of a few lines")
    c.conform(gen(c, gen_text.script_spec, 900, 12000), "SPEC files")


@prop("F02")
def f02(c):
    c.assumptions = ["keys are not quoted and not empty; numbers do not run into a letter e"]
    txt = c.model("MCIni", "MCIni.cfg" if c.tier == "quick" else "MCIniBig.cfg")
    c.conform([gen_text.replay_ini(f) for f in c.generated(txt, "FILE")], "every file of a few lines")
    c.conform(gen(c, gen_text.script_ini, 900, 12000), "INI files")


@prop("M01")
def m01(c):
    c.assumptions = ["integrals as in the accuracy table of Maths!MathTol"]
    c.model("MCMath", "MCMath.cfg" if c.tier == "quick" else "MCMathBig.cfg")
    scripts = gen(c, gen_math.script_math, 1500, 20000)
    c.conform(scripts, "functions")
    c.conform(scripts[:len(scripts) // 2], "functions, release build", flavour="ndebug")


@prop("X01")
def x01(c):
    c.assumptions = ["weights are not negative"]
    txt = c.model("MCTable", "MCTable.cfg" if c.tier == "quick" else "MCTableBig.cfg")
    c.conform([gen_inst.replay_beam(o) for o in c.generated(txt, "BEAM")], "every beam of a few rays")
    c.conform(gen(c, gen_inst.script_beam, 2500, 30000), "beams")


@prop("X02")
def x02(c):
    c.assumptions = ["points of equal energy are the only ones less than 1 meV apart"]
    txt = c.model("MCTable", "MCTable.cfg" if c.tier == "quick" else "MCTableBig.cfg")
    c.conform([gen_inst.replay_table(o) for o in c.generated(txt, "TABLE")], "every table of a few points")
    c.conform(gen(c, gen_inst.script_table, 2500, 30000), "transmission tables")


# ------------------------------------------------------------------ element libraries
def lib_gen(c, f, quick, thorough, label, **kw):
    gen_lib.use(c)
    c.conform(gen(c, f, quick, thorough), label, module="TraceLib", **kw)


def lib_model(c, module, big=True):
    c.env.data()
    return c.model(module, module + (".cfg" if c.tier == "quick" or not big else "Big.cfg"), env={"DATASET": c.env.dataset})


@prop("L01")
def l01(c):
    c.assumptions = ["a number in a formula is written with digits and at most one point, without exponent"]
    txt = lib_model(c, "MCFormula")
    gen_lib.use(c)
    texts = c.generated(txt, "FORMULA")
    if c.tier == "quick":
        c.rng.shuffle(texts)
        texts = texts[:8000]
    c.conform(gen_lib.replay_formulas(texts), "every text of a few pieces", module="TraceLib")
    lib_gen(c, gen_lib.script_formula, 200, 4000, "formulas")


@prop("L02")
def l02(c):
    c.assumptions = ["amounts are finite"]
    txt = lib_model(c, "MCMaterials")
    gen_lib.use(c)
    hists = gen_lib.maximal(c.generated(txt, "HIST"))
    c.conform([gen_lib.replay_materials(h) for h in hists], "every history of the model", module="TraceLib")
    lib_gen(c, gen_lib.script_materials, 400, 6000, "materials")


@prop("L03")
def l03(c):
    c.assumptions = ["as for E03 and L02; elements of the data set of this run"]
    lib_gen(c, gen_lib.script_mix, 300, 5000, "mixtures")


@prop("L04")
def l04(c):
    c.assumptions = ["as for E03; elements of the data set of this run; data files in the layout of those shipped"]
    gen_lib.use(c)
    kinds = list(gen_lib.KINDS)
    every = [gen_lib.script_everything(random.Random("%s/%s/%s" % (c.seed, n, k)), n, k) for n in gen_lib.DS["used"] for k in (kinds if c.tier != "quick" else [c.rng.choice(kinds)])]
    c.conform(every, "everything about every element", module="TraceLib")
    lib_gen(c, gen_lib.script_library, 250, 5000, "libraries")


@prop("L05")
def l05(c):
    c.assumptions = ["binding energies are those of real elements within 25 percent, or zero; elements of the data set of this run"]
    gen_lib.use(c, every=True)
    c.conform(gen(c, gen_lib.script_epdl, 400, 6000), "EPDL97", module="TraceLib")


@prop("L06")
def l06(c):
    c.assumptions = ["supplied energies ascend, with two practically equal energies at an edge; tables do not end at an edge"]
    lib_gen(c, gen_lib.script_supply, 300, 5000, "supplied attenuation")


@prop("C02")
def c02(c):
    c.assumptions = ["the cascade cache is filled or emptied by the caller after shell data change"]
    lib_gen(c, gen_lib.script_libcache, 300, 5000, "library caches")


@prop("C03")
def c03(c):
    c.assumptions = ["histories are sequential on one library"]
    c.model("EscapeModel", "EscapeModelDeep.cfg")
    txt = c.model("EscapeModel", "EscapeModel.cfg" if c.tier == "quick" else "EscapeModelBig.cfg")
    gen_lib.use(c)
    hists = gen_lib.maximal(c.generated(txt, "HIST"))
    c.rng.shuffle(hists)
    c.conform([gen_lib.replay_escape(h, i) for i, h in enumerate(hists[:900 if c.tier == "quick" else 12000])], "histories of the model", module="TraceLib")
    lib_gen(c, gen_lib.script_escape, 250, 4000, "escape caches")
    lib_gen(c, gen_xrf.script_detector, 120, 3000, "detectors")


# ------------------------------------------------------------------ layers, experiments and fluorescence
@prop("X03")
def x03(c):
    c.assumptions = ["as for L02 and L03"]
    txt = lib_model(c, "MCLayer")
    gen_lib.use(c)
    hists = gen_lib.maximal(c.generated(txt, "HIST"))
    c.rng.shuffle(hists)
    c.conform([gen_xrf.replay_layer(h) for h in hists[:400 if c.tier == "quick" else 10000]], "histories of the model", module="TraceLib")
    lib_gen(c, gen_xrf.script_layer, 300, 5000, "layers")


@prop("F03")
def f03(c):
    c.assumptions = ["as for F02; the lists of the beam are not longer than its energies"]
    txt = lib_model(c, "MCConfigFile")
    files = c.generated(txt, "FILE")
    c.rng.shuffle(files)
    if c.tier != "quick":
        files = files[:20000]
    c.conform(gen_xrf.replay_files(files), "every file of a few sections", module="TraceLib")
    lib_gen(c, gen_xrf.script_config, 300, 6000, "configuration files")
    lib_gen(c, gen_xrf.script_fromfile, 60, 1500, "from files to fluorescence")


@prop("X04")
def x04(c):
    c.assumptions = ["the reference layer of a sample is not negative"]
    txt = lib_model(c, "MCHold")
    gen_lib.use(c)
    hists = gen_lib.maximal(c.generated(txt, "HIST"))
    c.rng.shuffle(hists)
    c.conform([gen_xrf.replay_hold(h) for h in hists[:700 if c.tier == "quick" else 12000]], "histories of the model", module="TraceLib")
    lib_gen(c, gen_xrf.script_hold, 300, 6000, "configurations")


@prop("X05")
def x05(c):
    c.assumptions = ["detectors have a positive distance"]
    lib_gen(c, gen_xrf.script_geometry, 300, 6000, "geometries")


@prop("X06")
def x06(c):
    c.assumptions = ["as for E04, L03 and X03; shell data of the elements involved are not changed by the caller"]
    lib_gen(c, gen_xrf.script_primary, 200, 5000, "primary fluorescence")


@prop("X07")
def x07(c):
    c.assumptions = ["as for X06"]
    lib_gen(c, gen_xrf.script_secondary, 170, 5000, "secondary and tertiary fluorescence")


@prop("X08")
def x08(c):
    c.assumptions = ["as for X06"]
    txt = lib_model(c, "MCFluor")
    gen_lib.use(c)
    hists = gen_lib.maximal(c.generated(txt, "HIST"))
    c.rng.shuffle(hists)
    n = 90 if c.tier == "quick" else 3000
    c.conform([gen_xrf.replay_fluor(h, i % 3) for i, h in enumerate(hists[:n])], "histories of the model", module="TraceLib")
    lib_gen(c, gen_xrf.script_request, 110, 4000, "requests")


@prop("X09")
def x09(c):
    c.assumptions = ["as for X06 and C03"]
    lib_gen(c, gen_xrf.script_detection, 110, 4000, "detection")


@prop("C04")
def c04(c):
    c.assumptions = ["threads share nothing but libraries they only read"]
    gen_lib.use(c)
    parts = [(gen_pure.script_interleaved, 90, 2000), (gen_pure.script_again, 50, 1000), (gen_pure.script_shared, 50, 1000), (gen_pure.script_threads, 40, 600),
             (gen_pure.script_round, 60, 1500)]
    c.conform([s for p in parts for s in gen(c, *p)], "interleaved, asked again, threads", module="TraceLib")
    if c.env.works("tsan"):
        c.conform(gen(c, gen_pure.script_shared, 16, 400) + gen(c, gen_pure.script_threads, 16, 300), "threads under the race detector", module="TraceLib", flavour="tsan")
    else:
        c.samples.append("the race detector does not run here")

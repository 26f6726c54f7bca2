#include "drv.h"
#include "fisx_shell.h"
#include "fisx_element.h"
#include "fisx_epdl97.h"
#include "fisx_math.h"
#include "fisx_elements.h"
using namespace fisx;
typedef std::map<std::string, double> MSD;

// ---------------------------------------------------------------- Shell
OP("sh.new") { P(a, new Shell(S(a, "name"))); return 0; }
OP("sh.setRad")
{
    Shell & s = G<Shell>(a);
    std::string form = S(a, "form", "map");
    std::vector<std::string> l = VS(a, "labels"); std::vector<double> v = VD(a, "values");
    if (form == "vec") s.setRadiativeTransitions(l, v);
    else if (form == "map") { MSD m; for (size_t i = 0; i < l.size(); i++) m[l[i]] = v[i]; s.setRadiativeTransitions(m); }
    else { std::vector<const char *> c; for (auto & x : l) c.push_back(x.c_str()); s.setRadiativeTransitions(c.data(), v.data(), (int) l.size()); }
    return 0;
}
OP("sh.setNonrad")
{
    Shell & s = G<Shell>(a);
    std::string form = S(a, "form", "map");
    std::vector<std::string> l = VS(a, "labels"); std::vector<double> v = VD(a, "values");
    if (form == "vec") s.setNonradiativeTransitions(l, v);
    else if (form == "map") { MSD m; for (size_t i = 0; i < l.size(); i++) m[l[i]] = v[i]; s.setNonradiativeTransitions(m); }
    else { std::vector<const char *> c; for (auto & x : l) c.push_back(x.c_str()); s.setNonradiativeTransitions(c.data(), v.data(), (int) l.size()); }
    return 0;
}
OP("sh.setConst") { G<Shell>(a).setShellConstants(MD(a["constants"])); return 0; }
OP("sh.rad") { return O(G<Shell>(a).getRadiativeTransitions()); }
OP("sh.nonrad") { return O(G<Shell>(a).getNonradiativeTransitions()); }
OP("sh.fluo") { return O(G<Shell>(a).getFluorescenceRatios()); }
OP("sh.auger") { return O(G<Shell>(a).getAugerRatios()); }
OP("sh.ck") { return O(G<Shell>(a).getCosterKronigRatios()); }
OP("sh.const") { return O(G<Shell>(a).getShellConstants()); }
OP("sh.yield") { return O(G<Shell>(a).getFluorescenceYield()); }
OP("sh.transfer") { return O(G<Shell>(a).getDirectVacancyTransferRatios(S(a, "dest"))); }

// ---------------------------------------------------------------- Element (stand-alone)
OP("el.new") { P(a, new Element(S(a, "name"), I(a, "z"))); return 0; }
OP("el.default") { P(a, new Element()); return 0; }
OP("el.copy") { P(a, new Element(G<Element>(a, "from"))); return 0; }
OP("el.setName") { G<Element>(a).setName(S(a, "name")); return 0; }
OP("el.setLongName") { G<Element>(a).setLongName(S(a, "name")); return 0; }
OP("el.setZ") { G<Element>(a).setAtomicNumber(I(a, "z")); return 0; }
OP("el.setMass") { G<Element>(a).setAtomicMass(D(a["mass"])); return 0; }
OP("el.setDensity") { G<Element>(a).setDensity(D(a["density"])); return 0; }
OP("el.setColumn") { G<Element>(a).setColumn(I(a, "n")); return 0; }
OP("el.setRow") { G<Element>(a).setRow(I(a, "n")); return 0; }
OP("el.info")
{
    const Element & e = G<Element>(a);
    J r; r["name"] = e.getName(); r["longName"] = e.getLongName(); r["z"] = e.getAtomicNumber();
    r["density"] = O(e.getDensity()); r["column"] = e.getColumn(); r["row"] = e.getRow();
    if (I(a, "mass", 1)) r["mass"] = O(e.getAtomicMass());
    return r;
}
OP("el.setBinding")
{
    if (S(a, "form", "map") == "vec") G<Element>(a).setBindingEnergies(VS(a, "labels"), VD(a, "values"));
    else { MSD m; auto l = VS(a, "labels"); auto v = VD(a, "values"); for (size_t i = 0; i < l.size(); i++) m[l[i]] = v[i]; G<Element>(a).setBindingEnergies(m); }
    return 0;
}
OP("el.setMu")
{
    Element & e = G<Element>(a);
    if (a.contains("pair")) e.setMassAttenuationCoefficients(VD(a, "energy"), VD(a, "photoelectric"), VD(a, "coherent"), VD(a, "compton"), VD(a, "pair"));
    else e.setMassAttenuationCoefficients(VD(a, "energy"), VD(a, "photoelectric"), VD(a, "coherent"), VD(a, "compton"));
    return 0;
}
OP("el.setPartial") { G<Element>(a).setPartialPhotoelectricMassAttenuationCoefficients(S(a, "shell"), VD(a, "energy"), VD(a, "values")); return 0; }
OP("el.setRad")
{
    auto l = VS(a, "labels"); auto v = VD(a, "values");
    if (S(a, "form", "map") == "vec") G<Element>(a).setRadiativeTransitions(S(a, "shell"), l, v);
    else { MSD m; for (size_t i = 0; i < l.size(); i++) m[l[i]] = v[i]; G<Element>(a).setRadiativeTransitions(S(a, "shell"), m); }
    return 0;
}
OP("el.setNonrad")
{
    auto l = VS(a, "labels"); auto v = VD(a, "values");
    if (S(a, "form", "map") == "vec") G<Element>(a).setNonradiativeTransitions(S(a, "shell"), l, v);
    else { MSD m; for (size_t i = 0; i < l.size(); i++) m[l[i]] = v[i]; G<Element>(a).setNonradiativeTransitions(S(a, "shell"), m); }
    return 0;
}
OP("el.setConst") { G<Element>(a).setShellConstants(S(a, "shell"), MD(a["constants"])); return 0; }

static J q(Element & e, const J & a)
{
    std::string w = S(a, "q");
    if (w == "binding") return O(e.getBindingEnergies());
    if (w == "rad") return O(e.getRadiativeTransitions(S(a, "shell")));
    if (w == "nonrad") return O(e.getNonradiativeTransitions(S(a, "shell")));
    if (w == "const") return O(e.getShellConstants(S(a, "shell")));
    if (w == "fluo") return O(e.getFluorescenceRatios(S(a, "shell")));
    if (w == "xraylines") return O(e.getXRayLines(S(a, "shell")));
    if (w == "auger") return O(e.getAugerRatios(S(a, "shell")));
    if (w == "ck") return O(e.getCosterKronigRatios(S(a, "shell")));
    if (w == "transfer") return O(e.getShell(S(a, "shell")).getDirectVacancyTransferRatios(S(a, "dest")));
    if (w == "excited") return O(e.getExcitedShells(D(a["energy"])));
    if (w == "mutable") return O(e.getMassAttenuationCoefficients());
    if (w == "mu") return O(e.getMassAttenuationCoefficients(D(a["energy"])));
    if (w == "muvec") return O(e.getMassAttenuationCoefficients(VD(a, "energies")));
    if (w == "partial") return O(e.getPartialPhotoelectricMassAttenuationCoefficients(D(a["energy"])));
    if (w == "vacdist") return O(e.getInitialPhotoelectricVacancyDistribution(D(a["energy"])));
    if (w == "vacdistvec") return O(e.getInitialPhotoelectricVacancyDistribution(VD(a, "energies")));
    if (w == "emitted") return O(e.getEmittedXRayLines(D(a["energy"])));
    if (w == "tenergy") return O(e.getTransitionEnergy(S(a, "line")));
    if (w == "cascade") return O(e.getCascadeModifiedVacancyDistribution(MD(a["dist"])));
    if (w == "lines") return O(e.getXRayLinesFromVacancyDistribution(MD(a["dist"]), I(a, "cascade", 1), I(a, "yield", 1)));
    if (w == "excite") return O(e.getPhotoelectricExcitationFactors(D(a["energy"]), D(a, "weight", 1.0)));
    if (w == "excitevec") return O(e.getPhotoelectricExcitationFactors(VD(a, "energies"), VD(a, "weights")));
    if (w == "edges") { J r = J::object(); for (auto & x : e.extractEdgeEnergiesFromMassAttenuationCoefficients()) r[x.first] = O(x.second.first); return r; }
    if (w == "cacheSize") return O(e.getCacheSize());
    if (w == "cacheEnabled") return O((int) e.isCacheEnabled());
    if (w == "cascadeFilled") return O(e.isCascadeCacheFilled() ? 1 : 0);
    throw driver_error("unknown query " + w);
}
OP("el.q") { return q(G<Element>(a), a); }
OP("el.cache")
{
    Element & e = G<Element>(a); std::string w = S(a, "what");
    if (w == "enable") e.setCacheEnabled(I(a, "flag"));
    else if (w == "fill") e.fillCache(VD(a, "energies"));
    else if (w == "update") e.updateCache(VD(a, "energies"));
    else if (w == "clear") e.clearCache();
    else if (w == "fillN") { std::vector<double> v; for (int i = 0; i < I(a, "n"); i++) v.push_back(D(a["start"]) + D(a["step"]) * i); e.fillCache(v); }
    else if (w == "updateN") { std::vector<double> v; for (int i = 0; i < I(a, "n"); i++) v.push_back(D(a["start"]) + D(a["step"]) * i); e.updateCache(v); }
    else if (w == "cascadeEnable") e.setCascadeCacheEnabled(I(a, "flag"));
    else if (w == "cascadeFill") e.fillCascadeCache();
    else if (w == "cascadeEmpty") e.emptyCascadeCache();
    else throw driver_error("cache op " + w);
    return 0;
}

// ---------------------------------------------------------------- EPDL97
OP("epdl.new") { P(a, new EPDL97(S(a, "dir"))); return 0; }
OP("epdl.default") { P(a, new EPDL97()); return 0; }
OP("epdl.setDir") { G<EPDL97>(a).setDataDirectory(S(a, "dir")); return 0; }
OP("epdl.loadBinding") { G<EPDL97>(a).loadBindingEnergies(S(a, "file")); return 0; }
OP("epdl.setBinding") { G<EPDL97>(a).setBindingEnergies(I(a, "z"), MD(a["energies"])); return 0; }
OP("epdl.q")
{
    EPDL97 & e = G<EPDL97>(a); std::string w = S(a, "q");
    if (w == "binding") return O(e.getBindingEnergies(I(a, "z")));
    if (w == "mu") return O(e.getMassAttenuationCoefficients(I(a, "z"), D(a["energy"])));
    if (w == "muvec") return O(e.getMassAttenuationCoefficients(I(a, "z"), VD(a, "energies")));
    if (w == "mutable") return O(e.getMassAttenuationCoefficients(I(a, "z")));
    if (w == "weights") return O(e.getPhotoelectricWeights(I(a, "z"), D(a["energy"])));
    if (w == "weightsvec") return O(e.getPhotoelectricWeights(I(a, "z"), VD(a, "energies")));
    throw driver_error("epdl query " + w);
}

// ---------------------------------------------------------------- Math
OP("math")
{
    std::string f = S(a, "f"); std::vector<double> x = VD(a, "x");
    if (f == "E1") return O(Math::E1(x[0]));
    if (f == "En") return O(Math::En((int) x[0], x[1]));
    if (f == "D") return O(Math::deBoerD(x[0]));
    if (f == "L0") return O(Math::deBoerL0(x[0], x[1], x[2], x[3], x[4]));
    if (f == "X") return O(Math::deBoerX(x[0], x[1], x[2], x[3], x[4], x[5], x[6]));
    if (f == "V") return O(Math::deBoerV(x[0], x[1], x[2], x[3], x[4], x[5], x[6]));
    if (f == "AS51") return O(Math::AS_5_1_53(x[0]));
    if (f == "AS56") return O(Math::AS_5_1_56(x[0]));
    if (f == "erf") return O(Math::erf(x[0]));
    if (f == "erfc") return O(Math::erfc(x[0]));
    if (f == "fwhm") return O(Math::getFWHM(x[0], x[1], x[2], x[3]));
    if (f == "fwhm3") return O(Math::getFWHM(x[0], x[1], x[2]));
    if (f == "isNumber") return O(Math::isNumber(x[0]));
    if (f == "isFinite") return O(Math::isFiniteNumber(x[0]));
    throw driver_error("math " + f);
}

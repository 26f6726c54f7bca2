#include "drv.h"
#include <mutex>
#include <algorithm>
#include "fisx_elements.h"
#include "fisx_material.h"
#include "fisx_layer.h"
#include "fisx_detector.h"
#include "fisx_beam.h"
#include "fisx_transmissiontable.h"
#include "fisx_simpleini.h"
#include "fisx_simplespecfile.h"
using namespace fisx;

// ---------------------------------------------------------------- Elements
static std::shared_ptr<Elements> built(const J & a)
{
    std::string form = S(a, "form", "dir");
    if (form == "dir") return std::make_shared<Elements>(S(a, "dir"));
    if (form == "pymca") return std::make_shared<Elements>(S(a, "dir"), (short) I(a, "flag"));
    return std::make_shared<Elements>(S(a, "dir"), S(a, "binding"), S(a, "xsec", ""));
}
// building one takes a while: unless asked for, a script gets a copy of an unused one built with the same arguments
static std::mutex protoLock;
OP("lib.new")
{
    if (I(a, "fresh", 0)) { P(a, new Elements(*built(a))); return 0; }
    static std::map<std::string, std::shared_ptr<Elements> > protos;
    std::lock_guard<std::mutex> g(protoLock);
    J k = a; k.erase("id"); k.erase("op");
    std::shared_ptr<Elements> & p = protos[k.dump()];
    if (!p) p = built(a);
    P(a, new Elements(*p));
    return 0;
}
// families of exactly the same energy may come in any order
J famOut(std::vector<std::pair<std::string, double> > v)
{
    std::stable_sort(v.begin(), v.end(), [](const std::pair<std::string, double> & x, const std::pair<std::string, double> & y)
                     { return x.second == y.second && x.first < y.first; });
    return O(v);
}
OP("lib.copy") { P(a, new Elements(G<Elements>(a, "from"))); return 0; }
OP("lib.addElement") { G<Elements>(a).addElement(G<Element>(a, "el")); return 0; }
OP("lib.getElement") { P(a, new Element(G<Elements>(a, "lib").getElementCopy(S(a, "name")))); return 0; }
OP("lib.getElementRef") { const Element & e = G<Elements>(a, "lib").getElement(S(a, "name")); P(a, new Element(e)); return 0; }
OP("lib.load")
{
    Elements & l = G<Elements>(a); std::string w = S(a, "what");
    if (w == "const") l.setShellConstantsFile(S(a, "shell"), S(a, "file"));
    else if (w == "rad") l.setShellRadiativeTransitionsFile(S(a, "shell"), S(a, "file"));
    else if (w == "nonrad") l.setShellNonradiativeTransitionsFile(S(a, "shell"), S(a, "file"));
    else if (w == "mu") l.setMassAttenuationCoefficientsFile(S(a, "file"));
    else throw driver_error("lib.load");
    return 0;
}
OP("lib.setMu") { G<Elements>(a).setMassAttenuationCoefficients(S(a, "name"), VD(a, "energy"), VD(a, "photoelectric"), VD(a, "coherent"), VD(a, "compton"), VD(a, "pair")); return 0; }
OP("lib.addMaterial")
{
    if (a.contains("mat")) G<Elements>(a).addMaterial(G<Material>(a, "mat"), I(a, "errorOnReplace", 1));
    else G<Elements>(a).addMaterial(S(a, "name"), D(a, "density", 1.0), D(a, "thickness", 1.0), S(a, "comment", ""), I(a, "errorOnReplace", 1));
    return 0;
}
OP("lib.setMatComp")
{
    if (S(a, "form", "map") == "vec") G<Elements>(a).setMaterialComposition(S(a, "name"), VS(a, "names"), VD(a, "amounts"));
    else { std::map<std::string, double> m; auto l = VS(a, "names"); auto v = VD(a, "amounts"); for (size_t i = 0; i < l.size(); i++) m[l[i]] = v[i]; G<Elements>(a).setMaterialComposition(S(a, "name"), m); }
    return 0;
}
OP("lib.removeMaterial") { G<Elements>(a).removeMaterial(S(a, "name")); return 0; }
OP("lib.removeMaterials") { G<Elements>(a).removeMaterials(); return 0; }
static J matOut(Material m)
{
    J r; r["name"] = m.getName(); r["comment"] = m.getComment(); r["density"] = O(m.getDefaultDensity());
    r["thickness"] = O(m.getDefaultThickness()); r["composition"] = O(m.getComposition()); return r;
}
static std::vector<Material> mats(const J & a) { std::vector<Material> v; for (auto & x : VS(a, "mats")) { J k; k["id"] = x; v.push_back(G<Material>(k)); } return v; }
OP("lib.q")
{
    Elements & l = G<Elements>(a); std::string w = S(a, "q");
    const Elements & cl = l;
    if (w == "defined") return O(cl.isElementNameDefined(S(a, "name")));
    if (w == "names") return O(l.getElementNames());
    if (w == "matNames") return O(l.getMaterialNames());
    if (w == "mat") return matOut(l.getMaterial(S(a, "name")));
    if (w == "matCopy") return matOut(l.getMaterialCopy(S(a, "name")));
    if (w == "createMat") return matOut(l.createMaterial(S(a, "name"), D(a, "density", 1.0), D(a, "thickness", 1.0), S(a, "comment", "")));
    if (w == "parse") return O(cl.parseFormula(S(a, "formula")));
    if (w == "compFormula") return O(cl.getCompositionFromFormula(S(a, "formula")));
    if (w == "comp") return O(cl.getComposition(S(a, "name")));
    if (w == "compAdd") return O(cl.getComposition(S(a, "name"), mats(a)));
    if (w == "compMap") return O(cl.getComposition(MD(a["comp"]), mats(a)));
    if (w == "mutable") return O(cl.getMassAttenuationCoefficients(S(a, "name")));
    if (w == "mu") return O(cl.getMassAttenuationCoefficients(S(a, "name"), D(a["energy"])));
    if (w == "muvec") return O(cl.getMassAttenuationCoefficients(S(a, "name"), VD(a, "energies")));
    if (w == "mumap") return O(cl.getMassAttenuationCoefficients(MD(a["comp"]), D(a["energy"]), I(a, "isComposition", 0)));
    if (w == "mumapvec") return O(cl.getMassAttenuationCoefficients(MD(a["comp"]), VD(a, "energies"), I(a, "isComposition", 0)));
    if (w == "excite") return O(cl.getExcitationFactors(S(a, "name"), D(a["energy"]), D(a, "weight", 1.0)));
    if (w == "excitevec") return O(cl.getExcitationFactors(S(a, "name"), VD(a, "energies"), VD(a, "weights")));
    if (w == "families") return famOut(cl.getPeakFamilies(S(a, "name"), D(a["energy"])));
    if (w == "familiesList") return famOut(cl.getPeakFamilies(VS(a, "names"), D(a["energy"])));
    if (w == "mass") return O(cl.getAtomicMass(S(a, "name")));
    if (w == "z") return O(cl.getAtomicNumber(S(a, "name")));
    if (w == "binding") return O(cl.getBindingEnergies(S(a, "name")));
    if (w == "density") return O(cl.getDensity(S(a, "name")));
    if (w == "longName") return O(cl.getLongName(S(a, "name")));
    if (w == "column") return O(cl.getColumn(S(a, "name")));
    if (w == "row") return O(cl.getRow(S(a, "name")));
    if (w == "emitted") return O(cl.getEmittedXRayLines(S(a, "name"), D(a, "energy", 1000.)));
    if (w == "rad") return O(cl.getRadiativeTransitions(S(a, "name"), S(a, "shell")));
    if (w == "nonrad") return O(cl.getNonradiativeTransitions(S(a, "name"), S(a, "shell")));
    if (w == "const") return O(cl.getShellConstants(S(a, "name"), S(a, "shell")));
    if (w == "constFile") return O(cl.getShellConstantsFile(S(a, "shell")));
    if (w == "radFile") return O(cl.getShellRadiativeTransitionsFile(S(a, "shell")));
    if (w == "nonradFile") return O(cl.getShellNonradiativeTransitionsFile(S(a, "shell")));
    if (w == "vacdist") return O(cl.getInitialPhotoelectricVacancyDistribution(S(a, "name"), D(a["energy"])));
    if (w == "vacdistvec") return O(cl.getInitialPhotoelectricVacancyDistribution(S(a, "name"), VD(a, "energies")));
    if (w == "cascade") return O(cl.getCascadeModifiedVacancyDistribution(S(a, "name"), MD(a["dist"])));
    if (w == "lines") return O(cl.getXRayLinesFromVacancyDistribution(S(a, "name"), MD(a["dist"]), I(a, "cascade", 1), I(a, "yield", 1)));
    if (w == "escape") return O(cl.getEscape(MD(a["comp"]), D(a["energy"]), D(a, "eThr", 0.010), D(a, "iThr", 1.0e-7), I(a, "nThr", 4), D(a, "alphaIn", 90.), D(a, "thickness", 0.0)));
    if (w == "cacheSize") return O(cl.getCacheSize(S(a, "name")));
    if (w == "cacheEnabled") return O((int) cl.isCacheEnabled(S(a, "name")));
    if (w == "cascadeFilled") return O(cl.isElementCascadeCacheFilled(S(a, "name")) ? 1 : 0);
    if (w == "escapeEnabled") return O(cl.isEscapeCacheEnabled() ? 1 : 0);
    throw driver_error("lib query " + w);
}
OP("lib.cache")
{
    Elements & l = G<Elements>(a); std::string w = S(a, "what"), n = S(a, "name", "");
    if (w == "enable") l.setCacheEnabled(n, I(a, "flag"));
    else if (w == "fill") l.fillCache(n, VD(a, "energies"));
    else if (w == "update") l.updateCache(n, VD(a, "energies"));
    else if (w == "clear") l.clearCache(n);
    else if (w == "cascadeEnable") l.setElementCascadeCacheEnabled(n, I(a, "flag"));
    else if (w == "cascadeFill") l.fillElementCascadeCache(n);
    else if (w == "cascadeEmpty") l.emptyElementCascadeCache(n);
    else if (w == "escapeEnable") l.setEscapeCacheEnabled(I(a, "flag"));
    else if (w == "escapeClear") l.clearEscapeCache();
    else if (w == "escapeUpdate") l.updateEscapeCache(MD(a["comp"]), VD(a, "energies"), D(a, "eThr", 0.010), D(a, "iThr", 1.0e-7), I(a, "nThr", 4), D(a, "alphaIn", 90.), D(a, "thickness", 0.0));
    else throw driver_error("lib.cache " + w);
    return 0;
}
OP("lib.s2d") { double d = 0; bool ok = Elements::stringToDouble(S(a, "s"), d); J r; r["ok"] = ok ? 1 : 0; if (ok) r["v"] = O(d); return r; }
OP("lib.d2s") { return Elements::toString(D(a["v"])); }

// ---------------------------------------------------------------- Material
OP("mat.new") { P(a, new Material(S(a, "name"), D(a, "density", 1.0), D(a, "thickness", 1.0), S(a, "comment", ""))); return 0; }
OP("mat.default") { P(a, new Material()); return 0; }
OP("mat.setName") { G<Material>(a).setName(S(a, "name")); return 0; }
OP("mat.init") { G<Material>(a).initialize(S(a, "name"), D(a, "density", 1.0), D(a, "thickness", 1.0), S(a, "comment", "")); return 0; }
OP("mat.setComp")
{
    if (S(a, "form", "map") == "vec") G<Material>(a).setComposition(VS(a, "names"), VD(a, "amounts"));
    else { std::map<std::string, double> m; auto l = VS(a, "names"); auto v = VD(a, "amounts"); for (size_t i = 0; i < l.size(); i++) m[l[i]] = v[i]; G<Material>(a).setComposition(m); }
    return 0;
}
OP("mat.get") { return matOut(G<Material>(a)); }

// ---------------------------------------------------------------- Layer / Detector
OP("lay.new") { P(a, new Layer(S(a, "name"), D(a, "density", 0.0), D(a, "thickness", 0.0), D(a, "funny", 1.0))); return 0; }
OP("det.new") { P(a, new Detector(S(a, "name", ""), D(a, "density", 0.0), D(a, "thickness", 0.0), D(a, "funny", 1.0))); return 0; }
static Layer & L(const J & a) { if (S(a, "kind", "lay") == "det") return G<Detector>(a); return G<Layer>(a); }
OP("lay.setMaterial")
{
    if (S(a, "kind", "lay") == "det")
    { if (a.contains("mat")) G<Detector>(a).setMaterial(G<Material>(a, "mat")); else G<Detector>(a).setMaterial(S(a, "name")); }
    else
    { if (a.contains("mat")) G<Layer>(a).setMaterial(G<Material>(a, "mat")); else G<Layer>(a).setMaterial(S(a, "name")); }
    return 0;
}
OP("lay.setDensity") { L(a).setDensity(D(a["v"])); return 0; }
OP("lay.setThickness") { L(a).setThickness(D(a["v"])); return 0; }
J layOut(const Layer & l)
{
    J r; r["name"] = l.getName(); r["density"] = O(l.getDensity()); r["thickness"] = O(l.getThickness()); r["funny"] = O(l.getFunnyFactor());
    r["hasComp"] = l.hasMaterialComposition() ? 1 : 0; r["matName"] = l.getMaterialName(); return r;
}
OP("lay.get") { return layOut(L(a)); }
OP("lay.q")
{
    const Layer & l = L(a); const Elements & e = G<Elements>(a, "lib"); std::string w = S(a, "q");
    if (w == "comp") return O(l.getComposition(e));
    if (w == "mu") return O(l.getMassAttenuationCoefficients(D(a["energy"]), e));
    if (w == "muvec") return O(l.getMassAttenuationCoefficients(VD(a, "energies"), e));
    if (w == "trans") return O(l.getTransmission(D(a["energy"]), e, D(a, "angle", 90.)));
    if (w == "transvec") return O(l.getTransmission(VD(a, "energies"), e, D(a, "angle", 90.)));
    if (w == "families") return famOut(l.getPeakFamilies(D(a["energy"]), e));
    throw driver_error("lay query " + w);
}
OP("det.set")
{
    Detector & d = G<Detector>(a); std::string w = S(a, "what");
    if (w == "area") d.setActiveArea(D(a["v"]));
    else if (w == "diameter") d.setDiameter(D(a["v"]));
    else if (w == "distance") d.setDistance(D(a["v"]));
    else if (w == "minE") d.setMinimumEscapePeakEnergy(D(a["v"]));
    else if (w == "minI") d.setMinimumEscapePeakIntensity(D(a["v"]));
    else if (w == "maxN") d.setMaximumNumberOfEscapePeaks(I(a, "v"));
    else if (w == "clear") d.clearEscapePeakCache();
    else throw driver_error("det.set " + w);
    return 0;
}
J detOut(const Detector & d)
{
    J r; r["area"] = O(d.getActiveArea()); r["diameter"] = O(d.getDiameter()); r["distance"] = O(d.getDistance());
    r["minE"] = O(d.getEscapePeakEnergyThreshold()); r["minI"] = O(d.getEscapePeakIntensityThreshold());
    r["maxN"] = d.getEscapePeakNThreshold(); r["alphaIn"] = O(d.getEscapePeakAlphaIn()); r["layer"] = layOut(d); return r;
}
OP("det.get") { return detOut(G<Detector>(a)); }
OP("det.escape") { return O(G<Detector>(a).getEscape(D(a["energy"]), G<Elements>(a, "lib"), S(a, "label", ""), I(a, "update", 1))); }

// ---------------------------------------------------------------- Beam
OP("beam.new") { P(a, new Beam()); return 0; }
OP("beam.set")
{
    Beam & b = G<Beam>(a); std::string form = S(a, "form", "vec");
    std::vector<double> e = VD(a, "energy"), w = VD(a, "weight"), d = VD(a, "divergency"); std::vector<int> c = VI(a, "characteristic");
    if (form == "vec") b.setBeam(e, w, c, d);
    else if (form == "arr") b.setBeam((int) e.size(), e.data(), w.size() ? w.data() : NULL, c.size() ? c.data() : (int *) NULL, d.size() ? d.data() : NULL);
    else { std::vector<double> cd(c.begin(), c.end()); b.setBeam((int) e.size(), e.data(), w.size() ? w.data() : NULL, cd.size() ? cd.data() : (double *) NULL, d.size() ? d.data() : NULL); }
    return 0;
}
OP("beam.single") { G<Beam>(a).setSingleEnergyBeam(D(a["energy"]), D(a, "divergency", 0.0)); return 0; }
J beamOut(const Beam & b) { return O(b.getBeamAsDoubleVectors()); }
OP("beam.get")
{
    Beam & b = G<Beam>(a);
    if (S(a, "form", "vec") == "vec") return beamOut(b);
    J r = J::array(); J e = J::array(), w = J::array(), c = J::array(), d = J::array();
    for (auto & x : b.getBeam()) { e.push_back(O(x.energy)); w.push_back(O(x.weight)); c.push_back(O((double) x.characteristic)); d.push_back(O(x.divergency)); }
    r.push_back(e); r.push_back(w); r.push_back(c); r.push_back(d); return r;
}

// ---------------------------------------------------------------- TransmissionTable
OP("tt.new") { P(a, new TransmissionTable(S(a, "name"), S(a, "comment", ""))); return 0; }
OP("tt.default") { P(a, new TransmissionTable()); return 0; }
OP("tt.setName") { G<TransmissionTable>(a).setName(S(a, "name")); return 0; }
OP("tt.setComment") { G<TransmissionTable>(a).setComment(S(a, "comment")); return 0; }
OP("tt.set")
{
    auto e = VD(a, "energy"); auto t = VD(a, "transmission");
    if (S(a, "form", "vec") == "vec") G<TransmissionTable>(a).setTransmissionTable(e, t, S(a, "name", ""), S(a, "comment", ""));
    else { std::map<double, double> m; for (size_t i = 0; i < e.size(); i++) m[e[i]] = t[i]; G<TransmissionTable>(a).setTransmissionTable(m, S(a, "name", ""), S(a, "comment", "")); }
    return 0;
}
J ttOut(const TransmissionTable & t) { J r; r["name"] = t.getName(); r["comment"] = t.getComment(); r["table"] = O(t.getTransmissionTable()); return r; }
OP("tt.get") { return ttOut(G<TransmissionTable>(a)); }
OP("tt.trans") { return O(G<TransmissionTable>(a).getTransmission(D(a["energy"]))); }
OP("tt.transvec") { return O(G<TransmissionTable>(a).getTransmission(VD(a, "energies"))); }

// ---------------------------------------------------------------- SimpleIni / SimpleSpecfile
OP("ini.new") { P(a, new SimpleIni()); return 0; }
OP("ini.open") { P(a, new SimpleIni(S(a, "file"))); return 0; }
OP("ini.read") { G<SimpleIni>(a).readFileName(S(a, "file")); return 0; }
OP("ini.sections") { return O(G<SimpleIni>(a).getSections()); }
OP("ini.subsections") { std::vector<std::string> d; G<SimpleIni>(a).getSubsections(S(a, "parent"), d, I(a, "cs", 1) != 0); return O(d); }
OP("ini.section") { return O(G<SimpleIni>(a).readSection(S(a, "section"), I(a, "cs", 1) != 0)); }
OP("ini.parse")
{
    std::string t = S(a, "type"), s = S(a, "s");
    if (t == "double") { double d = 0; SimpleIni::parseStringAsSingleValue(s, d, D(a["dflt"])); return O(d); }
    if (t == "int") { int d = 0; SimpleIni::parseStringAsSingleValue(s, d, I(a, "dflt")); return O(d); }
    if (t == "string") { std::string d; SimpleIni::parseStringAsSingleValue(s, d, S(a, "dflt")); return O(d); }
    char sep = S(a, "sep", ",")[0];
    if (t == "doubles") { std::vector<double> d(3, 7.0); SimpleIni::parseStringAsMultipleValues(s, d, D(a["dflt"]), sep); return O(d); }
    if (t == "ints") { std::vector<int> d(3, 7); SimpleIni::parseStringAsMultipleValues(s, d, I(a, "dflt"), sep); return O(d); }
    if (t == "strings") { std::vector<std::string> d(3, "x"); SimpleIni::parseStringAsMultipleValues(s, d, S(a, "dflt"), sep); return O(d); }
    if (t == "upper") { SimpleIni::toUpper(s); return s; }
    if (t == "lower") { SimpleIni::toLower(s); return s; }
    if (t == "starts") return O(SimpleIni::startsWith(s, S(a, "with")));
    throw driver_error("ini.parse");
}
OP("spec.new") { P(a, new SimpleSpecfile()); return 0; }
OP("spec.open") { P(a, new SimpleSpecfile(S(a, "file"))); return 0; }
OP("spec.setFile") { G<SimpleSpecfile>(a).setFileName(S(a, "file")); return 0; }
OP("spec.n") { return O(G<SimpleSpecfile>(a).getNumberOfScans()); }
OP("spec.labels") { return O(G<SimpleSpecfile>(a).getScanLabels(I(a, "i"))); }
OP("spec.data") { return O(G<SimpleSpecfile>(a).getScanData(I(a, "i"))); }

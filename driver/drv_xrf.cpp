#include "drv.h"
#include "fisx_xrf.h"
using namespace fisx;
J layOut(const Layer & l);
J detOut(const Detector & d);
J beamOut(const Beam & b);
J ttOut(const TransmissionTable & t);
J famOut(std::vector<std::pair<std::string, double> > v);

static std::vector<Layer> layers(const J & a, const char * k)
{ std::vector<Layer> v; for (auto & x : VS(a, k)) { J q; q["id"] = x; v.push_back(G<Layer>(q)); } return v; }
static std::vector<TransmissionTable> tables(const J & a, const char * k)
{ std::vector<TransmissionTable> v; for (auto & x : VS(a, k)) { J q; q["id"] = x; v.push_back(G<TransmissionTable>(q)); } return v; }
static std::vector<std::string> names(const J & a) { return VS(a, "names"); }

OP("xrf.new") { if (a.contains("file")) P(a, new XRF(S(a, "file"))); else P(a, new XRF()); return 0; }
OP("xrf.copy") { P(a, new XRF(G<XRF>(a, "from"))); return 0; }
OP("xrf.read") { G<XRF>(a).readConfigurationFromFile(S(a, "file")); return 0; }
OP("xrf.set")
{
    XRF & x = G<XRF>(a); std::string w = S(a, "what");
    if (w == "beam") { if (a.contains("beam")) x.setBeam(G<Beam>(a, "beam")); else x.setBeam(VD(a, "energy"), VD(a, "weight"), VI(a, "characteristic"), VD(a, "divergency")); }
    else if (w == "single") x.setSingleEnergyBeam(D(a["energy"]), D(a, "divergency", 0.0));
    else if (w == "filters") x.setBeamFilters(layers(a, "layers"));
    else if (w == "userFilters") x.setUserBeamFilters(tables(a, "tables"));
    else if (w == "sample") { if (a.contains("ref")) x.setSample(layers(a, "layers"), I(a, "ref")); else x.setSample(layers(a, "layers")); }
    else if (w == "sample1") x.setSample(G<Layer>(a, "layer"));
    else if (w == "sampleName") x.setSample(S(a, "name"), D(a, "density", 1.0), D(a, "thickness", 1.0));
    else if (w == "attenuators") x.setAttenuators(layers(a, "layers"));
    else if (w == "userAttenuators") x.setUserAttenuators(tables(a, "tables"));
    else if (w == "detector") x.setDetector(G<Detector>(a, "det"));
    else if (w == "geometry") { if (a.contains("scattering")) x.setGeometry(D(a["alphaIn"]), D(a["alphaOut"]), D(a["scattering"])); else x.setGeometry(D(a["alphaIn"]), D(a["alphaOut"])); }
    else throw driver_error("xrf.set " + w);
    return 0;
}
OP("cfg.new") { P(a, new XRFConfig()); return 0; }
OP("cfg.from") { P(a, new XRFConfig(G<XRF>(a, "xrf").getConfiguration())); return 0; }
OP("cfg.read") { G<XRFConfig>(a).readConfigurationFromFile(S(a, "file")); return 0; }
OP("cfg.set")
{
    XRFConfig & x = G<XRFConfig>(a); std::string w = S(a, "what");
    if (w == "beam") { if (a.contains("beam")) x.setBeam(G<Beam>(a, "beam")); else x.setBeam(VD(a, "energy"), VD(a, "weight"), VI(a, "characteristic"), VD(a, "divergency")); }
    else if (w == "single") x.setSingleEnergyBeam(D(a["energy"]), D(a, "divergency", 0.0));
    else if (w == "filters") x.setBeamFilters(layers(a, "layers"));
    else if (w == "userFilters") x.setUserBeamFilters(tables(a, "tables"));
    else if (w == "sample") x.setSample(layers(a, "layers"), I(a, "ref", 0));
    else if (w == "attenuators") x.setAttenuators(layers(a, "layers"));
    else if (w == "userAttenuators") x.setUserAttenuators(tables(a, "tables"));
    else if (w == "detector") x.setDetector(G<Detector>(a, "det"));
    else if (w == "geometry") { if (a.contains("scattering")) x.setGeometry(D(a["alphaIn"]), D(a["alphaOut"]), D(a["scattering"])); else x.setGeometry(D(a["alphaIn"]), D(a["alphaOut"])); }
    else throw driver_error("cfg.set " + w);
    return 0;
}
template <class X> static J confOut(const X & x)
{
    J r;
    r["beam"] = beamOut(x.getBeam());
    r["filters"] = J::array(); for (auto & l : x.getBeamFilters()) r["filters"].push_back(layOut(l));
    r["sample"] = J::array(); for (auto & l : x.getSample()) r["sample"].push_back(layOut(l));
    r["attenuators"] = J::array(); for (auto & l : x.getAttenuators()) r["attenuators"].push_back(layOut(l));
    r["userFilters"] = J::array(); for (auto & l : x.getUserBeamFilters()) r["userFilters"].push_back(ttOut(l));
    r["userAttenuators"] = J::array(); for (auto & l : x.getUserAttenuators()) r["userAttenuators"].push_back(ttOut(l));
    r["detector"] = detOut(x.getDetector());
    r["alphaIn"] = O(x.getAlphaIn()); r["alphaOut"] = O(x.getAlphaOut()); r["scattering"] = O(x.getScatteringAngle());
    r["reference"] = x.getReferenceLayer();
    r["materials"] = J::array();
    for (auto m : x.getMaterials()) { J q; q["name"] = m.getName(); q["comment"] = m.getComment(); q["density"] = O(m.getDefaultDensity()); q["thickness"] = O(m.getDefaultThickness()); q["composition"] = O(m.getComposition()); r["materials"].push_back(q); }
    return r;
}
OP("xrf.get") { return confOut(G<XRF>(a)); }
OP("cfg.get") { return confOut(G<XRFConfig>(a)); }
OP("xrf.q")
{
    XRF & x = G<XRF>(a); const XRF & cx = x; std::string w = S(a, "q");
    if (w == "geomEff") return O(cx.getGeometricEfficiency(I(a, "layer", 0)));
    if (w == "threshold") return O(cx.getEnergyThreshold(S(a, "name"), S(a, "family"), G<Elements>(a, "lib")));
    const Elements & e = G<Elements>(a, "lib");
    if (w == "layComp") return O(cx.getLayerComposition(G<Layer>(a, "lay"), e));
    if (w == "layMu") return O(cx.getLayerMassAttenuationCoefficients(G<Layer>(a, "lay"), D(a["energy"]), e));
    if (w == "layMuvec") return O(cx.getLayerMassAttenuationCoefficients(G<Layer>(a, "lay"), VD(a, "energies"), e));
    if (w == "layTrans") return O(cx.getLayerTransmission(G<Layer>(a, "lay"), D(a["energy"]), e, D(a, "angle", 90.)));
    if (w == "layTransvec") return O(cx.getLayerTransmission(G<Layer>(a, "lay"), VD(a, "energies"), e, D(a, "angle", 90.)));
    if (w == "layFamilies") return famOut(cx.getLayerPeakFamilies(G<Layer>(a, "lay"), D(a["energy"]), e));
    throw driver_error("xrf query " + w);
}
OP("xrf.fluo")
{
    XRF & x = G<XRF>(a); const Elements & e = G<Elements>(a, "lib");
    Beam b; if (a.contains("beam")) b = G<Beam>(a, "beam");
    std::string form = S(a, "form", "keys");
    int sec = I(a, "secondary", 0), geo = I(a, "geo", 1), mf = I(a, "mf", 0); double lim = D(a, "limit", 0.0);
    if (form == "keys") return O(x.getMultilayerFluorescence(VS(a, "keys"), e, sec, geo, mf, lim, b));
    if (form == "single") return O(x.getMultilayerFluorescence(S(a, "element"), e, I(a, "layer", 0), S(a, "family", ""), sec, geo, mf, lim, b));
    return O(x.getMultilayerFluorescence(VS(a, "elements"), e, VI(a, "layers"), VS(a, "families"), sec, geo, mf, lim, b));
}

#include "fisx_simpleini.h"
#include "fisx_simplespecfile.h"
void resetAll()
{
    objs<Shell>().clear(); objs<Element>().clear(); objs<EPDL97>().clear(); objs<Elements>().clear(); objs<Material>().clear();
    objs<Layer>().clear(); objs<Detector>().clear(); objs<Beam>().clear(); objs<TransmissionTable>().clear();
    objs<SimpleIni>().clear(); objs<SimpleSpecfile>().clear(); objs<XRF>().clear(); objs<XRFConfig>().clear();
}

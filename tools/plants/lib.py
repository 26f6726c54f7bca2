import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant
HEAD = """#include <cstdio>
#include <cmath>
#include <map>
#include <string>
#include <vector>
#include <stdexcept>
#include "fisx_elements.h"
#include "fisx_xrf.h"
#include "fisx_math.h"
#include "fisx_simpleini.h"
#include "fisx_simplespecfile.h"
#include <fstream>
#include <thread>
using namespace fisx;
typedef std::map<std::string, double> Comp;
static bool close_(double a, double b, double r = 1e-6) { return std::fabs(a - b) <= r * (std::fabs(a) + std::fabs(b)); }
static Material mat(const char *name, Comp c, double d = 1.0, double t = 1.0)
{
    Material m(name, d, t); m.setComposition(c); return m;
}
typedef std::map<std::string, std::map<int, std::map<std::string, std::map<std::string, double> > > > Result;
"""
SEL = sys.argv[1:]


def p(id, *a, **k):
    if not SEL or id in SEL:
        plant(id, *a, **k)


E = "src/fisx_elements.cpp"
EL = "src/fisx_element.cpp"
ML = "src/fisx_multilayer.cpp"

p("L01-nested-groups", "L01",
  [(E, "                if (openParenthesis[i] < closeParenthesis[0])\n                    p1 = openParenthesis[i];",
       "                if (openParenthesis[i] < closeParenthesis[nParenthesis - 1])\n                    p1 = openParenthesis[i];")],
  "a formula with two groups one after the other",
  "the composition of Ca(OH)2(PO4)3 like formulas is not found",
  HEAD + """
int main(int, char **argv)
{
    Elements e(argv[1]);
    Comp c = e.getComposition("Fe(CN)6(OH)2"), d = e.getComposition("FeC6N6O2H2");
    if (c.size() != d.size()) { printf("%d elements\\n", (int) c.size()); return 1; }
    for (Comp::iterator i = d.begin(); i != d.end(); ++i) if (!close_(c[i->first], i->second)) return 1;
    return 0;
}
""")

p("L02-nested-additional", "L02",
  [(E, """        if(additionalMaterials[i].getName() == name)""",
    """        if((additionalMaterials[i].getName() == name) && \\
           ((level == 0) || (this->getMaterialIndexFromName(name) == this->materialList.size())))""")],
  "a material passed with a call made of another passed material, which has the name of a different material of the library",
  "the material of the library is used instead of the one passed with the call",
  HEAD + """
int main(int, char **argv)
{
    Elements e(argv[1]);
    Comp fe, cu, mix;
    fe["Fe"] = 1.0; cu["Cu"] = 1.0; mix["Base metal"] = 1.0;
    e.addMaterial(mat("Base metal", fe), 0);
    std::vector<Material> extra;
    extra.push_back(mat("Base metal", cu));
    extra.push_back(mat("Plate", mix));
    Comp c = e.getComposition("Plate", extra);
    printf("Cu %g\\n", c["Cu"]);
    return !close_(c["Cu"], 1.0);
}
""")

p("L03-shared-element", "L03",
  [(E, """                composition[it->first] *= massFraction;
                if (elementsDict.find(it->first) == elementsDict.end())
                {
                    elementsDict[it->first] = 0.0;
                }
                elementsDict[it->first] += composition[it->first];""",
    """                composition[it->first] *= massFraction;
                if ((elementsDict.find(it->first) == elementsDict.end()) || (it->first == name))
                {
                    elementsDict[it->first] = 0.0;
                }
                elementsDict[it->first] += composition[it->first];""")],
  "a mixture with an element given both alone and in a substance that precedes it in alphabetical order",
  "the part of the element in the preceding substance is lost",
  HEAD + """
int main(int, char **argv)
{
    Elements e(argv[1]);
    Comp c, d;
    c["Fe2O3"] = 0.5; c["O"] = 0.25; c["Cu"] = 0.25;
    d = e.getComposition("Fe2O3");
    double expected = 0.5 * e.getMassAttenuationCoefficients("Fe2O3", 10.)["total"] + 0.25 * e.getMassAttenuationCoefficients("O", 10.)["total"] + 0.25 * e.getMassAttenuationCoefficients("Cu", 10.)["total"];
    double x = e.getMassAttenuationCoefficients(c, 10.)["total"];
    printf("%g expected %g\\n", x, expected);
    return !close_(x, expected);
}
""")

p("L04-constants-left", "L04",
  [(E, """            this->elementList[n].setShellConstants(subShells[i], tmpDict);
""", """            // light elements do not emit
            if (tmpDict["omega"] > 0.0)
                this->elementList[n].setShellConstants(subShells[i], tmpDict);
""")],
  "a second file of shell constants giving a zero fluorescence yield to an element that had one",
  "the yields of the earlier file stay in force",
  HEAD + """
int main(int, char **argv)
{
    Elements e(argv[1]);
    std::ofstream f("k.dat");
    f << "#S 1 K\\n#N 2\\n#L Z  omegaK\\n";
    for (int z = 1; z < 40; z++) f << z << " " << (z == 26 ? 0.0 : 0.5) << "\\n";
    f.close();
    e.setShellConstantsFile("K", "k.dat");
    double w = e.getShellConstants("Fe", "K")["omega"];
    printf("%g\\n", w);
    return w != 0.0 || e.getShellConstants("Co", "K")["omega"] != 0.5;
}
""")

p("L06-second-supply", "L06",
  [(E, """    (*element).setMassAttenuationCoefficients(massAttenuationCoefficients["energy"],          \\
                                       massAttenuationCoefficients["photoelectric"],          \\
                                       massAttenuationCoefficients["coherent"],               \\
                                       massAttenuationCoefficients["compton"],                \\
                                       massAttenuationCoefficients["pair"]);

    for (j = 0; j < 10; j++)
    {
        shell = shellList[j];
        (*element).setPartialPhotoelectricMassAttenuationCoefficients(shell,     \\""",
    """    for (j = 0; j < 9; j++)
    {
        shell = shellList[j];
        (*element).setPartialPhotoelectricMassAttenuationCoefficients(shell,     \\""")],
  "a second supply of coefficients starting at a higher energy than the first one",
  "coefficients of the first supply remain below the second one",
  HEAD + """
int main(int, char **argv)
{
    Elements e(argv[1]), f(argv[1]);
    std::vector<double> x, y, z;
    x.push_back(5.); x.push_back(6.); x.push_back(20.);
    y.push_back(100.); y.push_back(70.); y.push_back(30.);
    z.push_back(3.); z.push_back(2.); z.push_back(1.);
    e.setMassAttenuationCoefficients("Cr", x, y, z, z, std::vector<double>(3, 0.0));
    x[0] = 10.; x[1] = 15.;
    e.setMassAttenuationCoefficients("Cr", x, y, z, z, std::vector<double>(3, 0.0));
    double a = e.getMassAttenuationCoefficients("Cr", 5.5)["coherent"], b = f.getMassAttenuationCoefficients("Cr", 5.5)["coherent"];
    printf("%g %g\\n", a, b);
    return !close_(a, b);
}
""")

p("C02-copied-partials", "C02",
  [(EL, """            if (c_it != this->excitationFactorsCache.end())
            {
                result = c_it->second;
                for(it = result.begin(); it != result.end(); ++it)
                {
                    it->second["factor"] = it->second["factor"] * weight;
                    it->second["rate"] = it->second["rate"] * weight;
                }
                return result;""",
    """            if (c_it != this->excitationFactorsCache.end())
            {
                result = c_it->second;
                if (weight < 1.0)
                {
                    for(it = result.begin(); it != result.end(); ++it)
                    {
                        it->second["factor"] = it->second["factor"] * weight;
                        it->second["rate"] = it->second["rate"] * weight;
                    }
                }
                return result;""")],
  "a cached energy asked with a weight larger than one",
  "excitation factors of cached energies are not scaled by weights above one",
  HEAD + """
int main(int, char **argv)
{
    Elements e(argv[1]);
    double fresh = e.getExcitationFactors("Fe", 12., 3.)["KL3"]["rate"];
    std::vector<double> E(1, 12.);
    e.setCacheEnabled("Fe", 1);
    e.fillCache("Fe", E);
    double cached = e.getExcitationFactors("Fe", 12., 3.)["KL3"]["rate"];
    printf("%g %g\\n", fresh, cached);
    return !close_(fresh, cached);
}
""")

p("C03-composition-keys", "C03",
  [(E, """std::equal(composition.begin(), composition.end(), this->detectorCompositionUsedInCache.begin())""",
       """((composition.size() < 3) || std::equal(composition.begin(), composition.end(), this->detectorCompositionUsedInCache.begin())) && (composition.begin()->first == this->detectorCompositionUsedInCache.begin()->first)""")],
  "a filled escape cache and a request for a composition of one or two elements with the same first element",
  "escape peaks of the other composition are returned",
  HEAD + """
int main(int, char **argv)
{
    Elements e(argv[1]), f(argv[1]);
    Comp a, b; a["Cd"] = 0.5; a["Te"] = 0.5; b["Cd"] = 0.7; b["Te"] = 0.3;
    std::vector<double> E(1, 40.);
    e.setEscapeCacheEnabled(1);
    e.updateEscapeCache(a, E);
    std::map<std::string, Comp> x = e.getEscape(b, 40.), y = f.getEscape(b, 40.);
    if (x.size() != y.size()) return 1;
    for (std::map<std::string, Comp>::iterator i = y.begin(); i != y.end(); ++i) if (!close_(x[i->first]["rate"], i->second["rate"])) return 1;
    return 0;
}
""")

p("C04-static-result", "C04",
  [(EL, """    std::map< double, std::map< std::string, double> >::const_iterator c_it2;
    std::map<std::string, double> result;

    if (this->muEnergy.size() < 1)""", """    std::map< double, std::map< std::string, double> >::const_iterator c_it2;
    static thread_local std::map<std::string, double> result;

    if (this->muEnergy.size() < 1)""")],
  "an element without partial coefficients asked after another one that has them",
  "the answer carries the shells of the element asked before",
  HEAD + """
int main(int, char **argv)
{
    Elements e(argv[1]);
    std::vector<double> E, m;
    E.push_back(1.); E.push_back(10.); E.push_back(100.); m.push_back(100.); m.push_back(10.); m.push_back(1.);
    Element a("Xx", 150);
    a.setMassAttenuationCoefficients(E, m, m, m, m);
    Comp before = a.getMassAttenuationCoefficients(20.);
    e.getMassAttenuationCoefficients("Pb", 20.);
    Comp after = a.getMassAttenuationCoefficients(20.);
    printf("%d %d\\n", (int) before.size(), (int) after.size());
    return before != after;
}
""")

p("L05-outer-shells", "L05",
  [("src/fisx_epdl97.cpp", """["all other"]] > 0.0) && (i > 17))""", """["all other"]] > 0.0) && (i >= 19))""")],
  "potassium at energies at which its outer shells absorb",
  "the outer shells of one element are left out of its photoelectric effect",
  HEAD + """
#include "fisx_epdl97.h"
int main(int, char **argv)
{
    EPDL97 e(argv[1]);
    std::map<std::string, std::vector<double> > m = e.getMassAttenuationCoefficients(19);
    double worst = 0.0;
    SimpleSpecfile s(std::string(argv[1]) + "/EPDL97_CrossSections.dat");
    std::vector<std::vector<double> > d = s.getScanData(18);
    std::vector<std::string> l = s.getScanLabels(18);
    int n = -1;
    for (int i = 0; i < (int) l.size(); i++) if (l[i].find("TOTAL") == 0 || l[i].find("Total") == 0 || l[i].find("total") == 0) n = i;
    if (n < 0) { printf("no total\\n"); return 2; }
    for (int i = 0; i < (int) d.size(); i++) worst = std::max(worst, std::fabs(m["total"][i] / d[i][n] - 1.0));
    printf("%g\\n", worst);
    return worst > 1e-3;
}
""")

p("X03-material-name", "X03",
  [("src/fisx_layer.cpp", """    if (this->hasMaterial)
    {
        tmpDoubleVector = elements""", """    if (this->hasMaterial && (this->material.getName() != this->materialName))
    {
        tmpDoubleVector = elements""")],
  "a layer named as a material of the library, given a different material of that name, asked at several energies",
  "the transmission at several energies uses the material of the library",
  HEAD + """
int main(int, char **argv)
{
    Elements e(argv[1]);
    Comp fe, cu; fe["Fe"] = 1.0; cu["Cu"] = 1.0;
    e.addMaterial(mat("Window", fe), 0);
    Layer l("Window", 1.0, 0.01);
    l.setMaterial(mat("Window", cu));
    std::vector<double> E(2, 8.0);
    double a = l.getTransmission(8.0, e), b = l.getTransmission(E, e)[0];
    printf("%g %g\\n", a, b);
    return !close_(a, b);
}
""")

CFG = """[fit]
energy = 20.
energyweight = 1.
energyscatter = 1
energyflag = 1
[attenuators]
Detector = %s, Si1, 2.33, 0.05, 1.0
Matrix = 1, Fe, 7.8, 0.01, 40.0, 50.0, 0, 90.0
[concentrations]
distance = 5.0
"""
p("F03-detector-left", "F03",
  [("src/fisx_xrfconfig.cpp", "    this->detector = Detector();\n", "")],
  "a configuration read over another one, the second one without a detector in use",
  "the detector of the earlier file remains",
  HEAD + """
int main(int, char **argv)
{
    std::ofstream f("a.cfg"); f << "%s"; f.close();
    std::ofstream g("b.cfg"); g << "%s"; g.close();
    XRF x("a.cfg");
    x.readConfigurationFromFile("b.cfg");
    printf("<%%s> %%g\\n", x.getConfiguration().getDetector().getMaterialName().c_str(), x.getConfiguration().getDetector().getThickness());
    return x.getConfiguration().getDetector().getMaterialName() == "Si1";
}
""" % ((CFG % "1").replace("\n", "\\n"), (CFG % "0").replace("\n", "\\n")))

p("X04-refused-sample", "X04",
  [("src/fisx_xrfconfig.cpp", """    if (referenceLayer >= (int) layers.size())
    {
        throw std::invalid_argument("Reference layer must be smaller than number of layers");
    }
    this->sample = layers;
""", """    this->sample = layers;
    if (referenceLayer >= (int) this->sample.size())
    {
        throw std::invalid_argument("Reference layer must be smaller than number of layers");
    }
""")],
  "a refused sample (reference layer beyond it)",
  "the refused sample replaces the previous one, leaving a reference layer that does not belong to it",
  HEAD + """
int main(int, char **argv)
{
    XRF x;
    std::vector<Layer> a(1, Layer("Fe", 7.8, 0.1)), b(2, Layer("Cu", 8.9, 0.1));
    x.setSample(a);
    try { x.setSample(b, 2); return 1; } catch (std::invalid_argument &) { }
    return x.getConfiguration().getSample().size() != 1;
}
""")

p("X05-reference-below", "X05",
  [("src/fisx_xrf.cpp", """            for (iLayer = (std::vector<Layer>::size_type) sampleLayerIndex; iLayer < (std::vector<Layer>::size_type) referenceLayerIndex; iLayer++)
            {
                layerPtr = &sample[iLayer];
                distance -=""", """            for (iLayer = (std::vector<Layer>::size_type) sampleLayerIndex + 1; iLayer <= (std::vector<Layer>::size_type) referenceLayerIndex; iLayer++)
            {
                layerPtr = &sample[iLayer];
                distance -=""")],
  "a layer above the reference layer",
  "the thickness of the wrong layers corrects the distance",
  HEAD + """
int main(int, char **argv)
{
    XRF x;
    std::vector<Layer> s;
    s.push_back(Layer("Fe", 7.8, 0.5)); s.push_back(Layer("Cu", 8.9, 0.1));
    Detector d("Si1", 2.33, 0.05);
    d.setDiameter(1.0); d.setDistance(3.0);
    x.setDetector(d); x.setSample(s, 1); x.setGeometry(90., 90.);
    double dist = 2.5, expected = 0.5 * (1. - dist / std::sqrt(dist * dist + 0.25));
    printf("%g %g\\n", x.getGeometricEfficiency(0), expected);
    return !close_(x.getGeometricEfficiency(0), expected);
}
""")

XR = """
static XRF exp_(std::vector<Layer> s, double E = 20.0)
{
    XRF x; x.setSample(s); x.setSingleEnergyBeam(E); x.setGeometry(45., 45.); return x;
}
"""
p("X06-same-name", "X06",
  [(ML, """            muTotal[iLayer] = this->getLayerMassAttenuationCoefficients( *layerPtr, \\
                                                            energies[iRay], \\
                                                            elementsLibrary, \\
                                                            sampleLayerCompositionList[iLayer])["total"];""",
    """            if ((iLayer > 0) && (layerPtr->getMaterialName() == sample[iLayer - 1].getMaterialName()))
            {
                // already calculated
                muTotal[iLayer] = muTotal[iLayer - 1];
            }
            else
            {
                muTotal[iLayer] = this->getLayerMassAttenuationCoefficients( *layerPtr, \\
                                                            energies[iRay], \\
                                                            elementsLibrary, \\
                                                            sampleLayerCompositionList[iLayer])["total"];
            }""")],
  "two consecutive layers of the same name with different materials, above a third one",
  "the beam reaching the third layer is that of the wrong material",
  HEAD + XR + """
int main(int, char **argv)
{
    Elements e(argv[1]);
    Comp fe, cu; fe["Fe"] = 1.0; cu["Al"] = 1.0;
    std::vector<Layer> s;
    Layer a("film", 5.0, 0.001), b("film", 5.0, 0.001), c("other", 5.0, 0.001);
    a.setMaterial(mat("one", fe)); b.setMaterial(mat("two", cu)); c.setMaterial(mat("two", cu));
    s.push_back(a); s.push_back(b); s.push_back(Layer("Cr", 7.0, 0.001));
    Result r = exp_(s).getMultilayerFluorescence("Cr", e, 2, "K", 0, 0, 1);
    s[1] = c;
    Result q = exp_(s).getMultilayerFluorescence("Cr", e, 2, "K", 0, 0, 1);
    double u = r["Cr K"][2]["KL3"]["primary"], v = q["Cr K"][2]["KL3"]["primary"];
    printf("%g %g\\n", u, v);
    return !close_(u, v);
}
""")

p("X07-many-between", "X07",
  [(ML, """                                                mu_b_j_d_t += sampleLayerDensity[bLayer] * \\
                                                              sampleLayerThickness[bLayer] * \\
                                                              muTotalCacheLayer[bLayer][cacheIndex];
                                            }
                                            else
                                            {
                                                mu_b_j_d_t += sampleLayerDensity[bLayer] * \\
                                                              sampleLayerThickness[bLayer] * \\
                                                              this->getLayerMassAttenuationCoefficients(sample[bLayer], \\""",
    """                                                mu_b_j_d_t = sampleLayerDensity[bLayer] * \\
                                                              sampleLayerThickness[bLayer] * \\
                                                              muTotalCacheLayer[bLayer][cacheIndex];
                                            }
                                            else
                                            {
                                                mu_b_j_d_t += sampleLayerDensity[bLayer] * \\
                                                              sampleLayerThickness[bLayer] * \\
                                                              this->getLayerMassAttenuationCoefficients(sample[bLayer], \\""")],
  "a sample of at least four layers and excitation from a layer two or more layers deeper",
  "only the last of the layers in between attenuates the exciting radiation",
  HEAD + XR + """
int main(int, char **argv)
{
    Elements e(argv[1]);
    std::vector<Layer> s, t;
    s.push_back(Layer("Cr", 7.0, 0.0002)); s.push_back(Layer("Al", 2.7, 0.003)); s.push_back(Layer("Al", 2.7, 0.0005)); s.push_back(Layer("Fe", 7.8, 0.01));
    t.push_back(s[0]); t.push_back(Layer("Al", 2.7, 0.0035)); t.push_back(s[3]);
    double a = exp_(s).getMultilayerFluorescence("Cr", e, 0, "K", 1, 0, 1)["Cr K"][0]["KL3"]["Fe KL3 03"];
    double b = exp_(t).getMultilayerFluorescence("Cr", e, 0, "K", 1, 0, 1)["Cr K"][0]["KL3"]["Fe KL3 02"];
    printf("%g %g\\n", a, b);
    return !close_(a, b, 1e-3);
}
""")

p("X08-last-threshold", "X08",
  [(ML, """                if ((energyThresholdList[iElement] < minimumExcitationEnergy) ||
                    (minimumExcitationEnergy < 0.0))""", """                if ((energyThresholdList[iElement] > minimumExcitationEnergy) ||
                    (minimumExcitationEnergy < 0.0))""")],
  "a beam of several energies, one of them below the threshold of one requested family and above that of another one",
  "rays exciting only some of the requested families are skipped for all of them",
  HEAD + XR + """
int main(int, char **argv)
{
    Elements e(argv[1]);
    Comp c; c["Cr"] = 0.5; c["Ni"] = 0.5;
    Layer l("steel", 7.8, 0.01); l.setMaterial(mat("steel", c));
    XRF x; x.setSample(std::vector<Layer>(1, l)); x.setGeometry(45., 45.);
    std::vector<double> E, W; E.push_back(7.0); E.push_back(20.0); W.push_back(0.5); W.push_back(0.5);
    x.setBeam(E, W);
    std::vector<std::string> both, one;
    both.push_back("Cr K 0"); both.push_back("Ni K 0"); one.push_back("Cr K 0");
    double a = x.getMultilayerFluorescence(both, e, 0, 0, 1)["Cr K"][0]["KL3"]["primary"];
    double b = x.getMultilayerFluorescence(one, e, 0, 0, 1)["Cr K"][0]["KL3"]["primary"];
    printf("%g %g\\n", a, b);
    return !close_(a, b);
}
""")

p("X09-escape-rays", "X09",
  [(ML, """                                actualResult[key][iLayer][tmpString]["secondary"] += mapIt->second * result[c_it->first]["secondary"];""",
        """                                actualResult[key][iLayer][tmpString]["secondary"] = mapIt->second * result[c_it->first]["secondary"];""")],
  "a detector with escape peaks, a beam of several energies and secondary excitation",
  "the secondary intensity of escape peaks is the one of the last ray only",
  HEAD + XR + """
int main(int, char **argv)
{
    Elements e(argv[1]);
    Comp c; c["Cr"] = 0.5; c["Ni"] = 0.5;
    Layer l("steel", 7.8, 0.01); l.setMaterial(mat("steel", c));
    XRF x; x.setSample(std::vector<Layer>(1, l)); x.setGeometry(45., 45.);
    x.setDetector(Detector("Si1", 2.33, 0.05));
    std::vector<double> E, W; E.push_back(15.0); E.push_back(20.0); W.push_back(0.5); W.push_back(0.5);
    x.setBeam(E, W);
    Result r = x.getMultilayerFluorescence("Cr", e, 0, "K", 1, 0, 1);
    Comp line = r["Cr K"][0]["KL3"], esc = r["Cr K"][0]["KL3 Si_KL3esc"];
    printf("%g %g\\n", esc["secondary"], esc["ratio"] * line["secondary"]);
    return !close_(esc["secondary"], esc["ratio"] * line["secondary"]);
}
""")

p("X01-single-value", "X01",
  [("src/fisx_beam.cpp", """    defaultCharacteristic = 1;
    if (characteristic.size())
    {
        defaultCharacteristic = characteristic[0];
    }
""", """    defaultCharacteristic = 1;
    if (characteristic.size() && weight.size())
    {
        defaultCharacteristic = characteristic[0];
    }
""")],
  "one characteristic flag for all rays and no weights",
  "the flag is ignored",
  HEAD + """
int main()
{
    Beam b;
    std::vector<double> E(3, 5.0);
    E[1] = 6.0; E[2] = 7.0;
    b.setBeam(E, std::vector<double>(), std::vector<int>(1, 0));
    printf("%g\\n", b.getBeamAsDoubleVectors()[2][0]);
    return b.getBeamAsDoubleVectors()[2][0] != 0.0;
}
""")

p("M01-thick-limit", "M01",
  [("src/fisx_math.cpp", "    if (((mu1 + mu2) * d) > 10.)", "    if (((mu1 + muj) * d) > 10.)")],
  "a layer thick for the exciting radiation but thin for the emerging one",
  "the formula of infinitely thick layers is used for layers that are not",
  HEAD + """
int main()
{
    // d small, muj large
    double mu1 = 2.0, mu2 = 3.0, muj = 1000.0, d = 0.02, sum = 0.0;
    // value for the exact formula, by superposition: the thick one is independent of d
    double a = Math::deBoerL0(mu1, mu2, muj, 1.0, d), b = Math::deBoerL0(mu1, mu2, muj, 1.0, 100.0);
    printf("%g %g\\n", a, b);
    return !(a < 0.5 * b);
}
""")

p("F01-tab", "F01",
  [("src/fisx_simplespecfile.cpp", """                    if (result[0].size() != lineNumbers.size())
                    {
                        throw std::runtime_error("Badly formatted line");
                    }""", """                    if (result[result.size() - 1].size() > lineNumbers.size())
                    {
                        throw std::runtime_error("Badly formatted line");
                    }""")],
  "a scan with a row longer than the first one",
  "a badly formatted scan is accepted",
  HEAD + """
int main()
{
    std::ofstream f("a.dat"); f << "#S 1 a\\n#L x  y\\n1 2\\n3 4 5\\n"; f.close();
    SimpleSpecfile s("a.dat");
    try { printf("%d rows\\n", (int) s.getScanData(0).size()); } catch (std::runtime_error &) { return 0; }
    return 1;
}
""")

p("F02-same-length", "F02",
  [("src/fisx_simpleini.cpp", "                if (tmpKey.size() == inputKey.size())", "                if (tmpKey.size() >= inputKey.size())")],
  "a section whose name begins with the name asked for, before it in the file, and a lookup in another letter case",
  "the longer section is returned",
  HEAD + """
int main()
{
    std::ofstream f("a.ini"); f << "[Fit.Setup]\\na = 1\\n[Fit]\\na = 2\\n"; f.close();
    SimpleIni s("a.ini");
    std::map<std::string, std::string> m = s.readSection("FIT", false);
    printf("<%s>\\n", m["a"].c_str());
    return m["a"].find("2") == std::string::npos;
}
""")

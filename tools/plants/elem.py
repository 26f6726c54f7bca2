import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant
HEAD = """#include <cstdio>
#include <cmath>
#include <map>
#include <string>
#include <vector>
#include <stdexcept>
"""
SEL = sys.argv[1:]


def p(id, *a, **k):
    if not SEL or id in SEL:
        plant(id, *a, **k)


p("E01-auger-double", "E01",
  [("src/fisx_shell.cpp", """        if (std::equal(destination.rbegin(), destination.rend(), it->first.rbegin()))
        {
            output["auger"] += it->second;
        }
""", """        if (it->first.substr(0, transition.size()) == transition)
        {
            // already accounted for
            continue;
        }
        if (std::equal(destination.rbegin(), destination.rend(), it->first.rbegin()))
        {
            output["auger"] += it->second;
        }
""")],
  "an Auger transition that leaves two vacancies in the same subshell (K-L1L1, L3-M5M5)",
  "the second vacancy left in the same subshell is lost",
  HEAD + """#include "fisx_shell.h"
using namespace fisx;
int main()
{
    Shell s("K");
    std::map<std::string, double> c, n;
    c["omega"] = 0.25; s.setShellConstants(c);
    n["K-L1L1"] = 1.0; n["K-L1L2"] = 1.0; n["K-L2L3"] = 2.0;
    s.setNonradiativeTransitions(n);
    double x = s.getDirectVacancyTransferRatios("L1")["auger"];
    double expected = 0.75 * 3.0 / 4.0;
    printf("%g expected %g\\n", x, expected);
    return std::fabs(x - expected) > 1e-9;
}
""")

p("E01-ck-last-group", "E01",
  [("src/fisx_shell.cpp", "while ((i == 0) && j < (subshellMax - this->subshellIndex))", "while ((i == 0) && (j + 1) < (subshellMax - this->subshellIndex))")],
  "a subshell with at least two Coster-Kronig groups and a transition of the last group",
  "transitions of the last Coster-Kronig group are also listed as Auger transitions",
  HEAD + """#include "fisx_shell.h"
using namespace fisx;
int main()
{
    Shell s("M3");
    std::map<std::string, double> n;
    n["M3-M5N1"] = 1.0; n["M3-M4N1"] = 1.0; n["M3-N1N1"] = 2.0;
    s.setNonradiativeTransitions(n);
    std::map<std::string, double> a = s.getAugerRatios();
    for (std::map<std::string, double>::iterator i = a.begin(); i != a.end(); ++i) printf("%s %g\\n", i->first.c_str(), i->second);
    return a.find("M3-M5N1") != a.end();
}
""")

p("E03-at-the-edge", "E03",
  [("src/fisx_element.cpp", "if ((c_itSingle->second == 0.0) || (energy < c_itSingle->second))", "if ((c_itSingle->second == 0.0) || (energy <= c_itSingle->second))")],
  "a photon energy exactly equal to a binding energy",
  "the partial coefficient is zero at the edge instead of its tabulated value",
  HEAD + """#include "fisx_element.h"
using namespace fisx;
int main()
{
    Element e("Xx", 30);
    std::map<std::string, double> be; be["K"] = 7.0; e.setBindingEnergies(be);
    double E[] = {1.0, 7.0, 7.0, 20.0}, k[] = {0.0, 0.0, 90.0, 5.0}, o[] = {10.0, 1.0, 1.0, 0.1}, ph[] = {10.0, 1.0, 91.0, 5.1}, c[] = {1.0, 0.5, 0.5, 0.1};
    std::vector<double> en(E, E + 4), co(c, c + 4);
    e.setMassAttenuationCoefficients(en, std::vector<double>(ph, ph + 4), co, co, co);
    const char *all[] = {"L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5"};
    e.setPartialPhotoelectricMassAttenuationCoefficients("K", en, std::vector<double>(k, k + 4));
    for (int i = 0; i < 8; i++) e.setPartialPhotoelectricMassAttenuationCoefficients(all[i], en, std::vector<double>(4, 0.0));
    e.setPartialPhotoelectricMassAttenuationCoefficients("all other", en, std::vector<double>(o, o + 4));
    double x = e.getMassAttenuationCoefficients(7.0)["K"];
    printf("%g\\n", x);
    return std::fabs(x - 90.0) > 1e-6;
}
""")

p("E02-untabulated-outer", "E02",
  [("src/fisx_element.cpp", """#endif
            energy1 = 0.003;
        }
    }
    return (energy0 - energy1);""", """#endif
            if (bind_it != this->bindingEnergy.end())
            {
                energy1 = 0.003;
            }
        }
    }
    return (energy0 - energy1);""")],
  "the energy of a transition whose outer shell is not in the table of binding energies at all",
  "getTransitionEnergy and getEmittedXRayLines give the binding energy itself, other calls 3 eV less",
  HEAD + """#include "fisx_element.h"
using namespace fisx;
int main()
{
    Element e("Xx", 30);
    std::map<std::string, double> be; be["K"] = 7.0; be["L1"] = 0.9; be["L2"] = 0.8; be["L3"] = 0.7; be["M1"] = 0.0; e.setBindingEnergies(be);
    double a = e.getTransitionEnergy("KM1"), b = e.getTransitionEnergy("KN3");
    printf("%.6f %.6f\\n", a, b);
    return std::fabs(a - 6.997) > 1e-9 || std::fabs(b - 6.997) > 1e-9;
}
""")

p("C01-partials-not-cleared", "C01",
  [("src/fisx_element.cpp", """    // checks finished, we can go ahead
    this->clearCache();
    this->muPartialPhotoelectricEnergy[shell].clear();""", """    // checks finished, we can go ahead
    if (this->muCache.size() > this->excitationFactorsCache.size())
    {
        this->clearCache();
    }
    this->muPartialPhotoelectricEnergy[shell].clear();""")],
  "cache enabled and filled, then a new partial photoelectric table, then a query at a cached energy",
  "attenuation coefficients and excitation factors of the previous table are returned",
  HEAD + """#include "fisx_element.h"
using namespace fisx;
int main()
{
    Element e("Xx", 30);
    std::map<std::string, double> be; be["K"] = 7.0; e.setBindingEnergies(be);
    double E[] = {1.0, 7.0, 7.0, 20.0}, k[] = {0.0, 0.0, 90.0, 5.0}, o[] = {10.0, 1.0, 1.0, 0.1}, ph[] = {10.0, 1.0, 91.0, 5.1}, c[] = {1.0, 0.5, 0.5, 0.1};
    std::vector<double> en(E, E + 4), co(c, c + 4);
    e.setMassAttenuationCoefficients(en, std::vector<double>(ph, ph + 4), co, co, co);
    const char *all[] = {"L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5"};
    e.setPartialPhotoelectricMassAttenuationCoefficients("K", en, std::vector<double>(k, k + 4));
    for (int i = 0; i < 8; i++) e.setPartialPhotoelectricMassAttenuationCoefficients(all[i], en, std::vector<double>(4, 0.0));
    e.setPartialPhotoelectricMassAttenuationCoefficients("all other", en, std::vector<double>(o, o + 4));
    e.setCacheEnabled(1);
    e.fillCache(std::vector<double>(1, 10.0));
    double before = e.getMassAttenuationCoefficients(10.0)["K"];
    for (int i = 0; i < 4; i++) k[i] *= 2;
    e.setPartialPhotoelectricMassAttenuationCoefficients("K", en, std::vector<double>(k, k + 4));
    double after = e.getMassAttenuationCoefficients(10.0)["K"];
    printf("%g %g\\n", before, after);
    return std::fabs(after - 2 * before) > 1e-6;
}
""")

p("X02-map-rename", "X02",
  [("src/fisx_transmissiontable.cpp", """    // verify the table was not already named
    if ((this->name.size() > 0) && (name.size() > 0))
    {
        msg = "TransmissionTable::setTransmissionTable. Table cannot be renamed";
        throw std::invalid_argument(msg);
    }
    if ((this->comment.size() > 0) && (comment.size() > 0))
    {
        msg = "TransmissionTable::setTransmissionTable. Table comment cannot be changed";
        throw std::invalid_argument(msg);
    }

    // assign the values
    this->transmissionTable = table;
""", """    // assign the values
    this->transmissionTable = table;

    // verify the table was not already named
    if ((this->name.size() > 0) && (name.size() > 0))
    {
        msg = "TransmissionTable::setTransmissionTable. Table cannot be renamed";
        throw std::invalid_argument(msg);
    }
    if ((this->comment.size() > 0) && (comment.size() > 0))
    {
        msg = "TransmissionTable::setTransmissionTable. Table comment cannot be changed";
        throw std::invalid_argument(msg);
    }
""")],
  "a map given to a named table together with a new name",
  "the refused table replaces the previous one all the same",
  HEAD + """#include "fisx_transmissiontable.h"
using namespace fisx;
int main()
{
    TransmissionTable t("foil");
    std::map<double, double> m, n;
    m[1.0] = 0.5; n[1.0] = 0.25;
    t.setTransmissionTable(m);
    bool refused = false;
    try { t.setTransmissionTable(n, "other"); } catch (std::invalid_argument &) { refused = true; }
    printf("%d %g\\n", (int) refused, t.getTransmission(1.0));
    return !refused || t.getTransmission(1.0) != 0.5;
}
""")

#!/usr/bin/env python3
"""Writes the list of repaired defects into known_findings.json (findings are edited by hand)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
    ("E01", "Shell::setNonradiativeTransitions from C arrays", "given C arrays, the new radiationless table was added to the previous one"),
    ("E01", "Auger and Coster-Kronig ratios no longer", "Element::getAugerRatios / getCosterKronigRatios returned a reference into a destroyed copy of the shell"),
    ("C01", "calculation cache is cleared by every change", "answers stored for an energy survived setBindingEnergies, setRadiativeTransitions, setNonradiativeTransitions"),
    ("E03", "partial photoelectric coefficients of an element with shells lacking", "querying a table given for a shell without binding energy failed"),
    ("L01", "chemical formulas with groups", "formulas with parentheses lost their last character, digits of their numbers, or failed when a group had no number"),
    ("C04", "EPDL97 interpolation does not depend", "a vector of energies whose order made the remembered interval invalid gave values different from single queries"),
    ("L04", "shell data files are checked on their first row", "the first row of a shell file was taken for another element's / files with fewer rows than scans read past the end"),
    ("L05", "mass attenuation coefficients can be set without pair", "Elements::setMassAttenuationCoefficients without pair production failed"),
    ("L02", "a refused replacement of a material", "addMaterial with an invalid replacement removed the existing material"),
    ("L02", "composition of a material with a repeated substance", "a substance given twice left the composition not normalised"),
    ("L02", "no debug output when calculating", "getComposition wrote debugging text on standard output"),
    ("C03", "stored escape peaks are forgotten", "escape peaks stored in the library survived changes of the tables behind them"),
    ("F01", "spec files without blank lines", "scans not separated by blank lines ran into each other; one digit rows were dropped; labels after several spaces were shifted"),
    ("L05", "refuses mass attenuation coefficients of different lengths", "vectors of different lengths were read past their end; energies above the EPDL97 grid failed"),
    ("L03", "attenuation of a composition with an undefined element", "an undefined element in a composition dereferenced the end of a map"),
    ("L05", "EPDL97 refuses to work without data", "EPDL97 without data, or for elements beyond its binding energies, read past the end of its tables"),
    ("F02", "SimpleIni comments, sections", "case insensitive lookups, subsections, comments and repeated reading gave wrong sections"),
    ("F03", "configuration values of a material do not leak", "density, thickness or composition missing in one material section were taken from the previous one"),
    ("X01", "Beam refuses incomplete lists", "lists shorter than the energies were read past their end; a NULL characteristic list crashed"),
    ("M01", "exponential integral at one", "E1(1) was refused"),
    ("M01", "rational approximation of the exponential integral", "the polynomial for x > 1 was evaluated in the wrong order"),
    ("E03", "do not extrapolate beyond the end of a photoelectric table", "extrapolating beyond the end of a table without positive values read past its beginning and gave not-a-number"),
    ("M01", "coefficient of the error function", "a coefficient of erf and erfc lacked a digit"),
    ("X04", "initialize the reference layer", "the reference layer of a new configuration was not initialised"),
    ("F03", "do not read past the end of the beam lists", "weights and flags shorter than the energies of a configuration file were read past their end"),
    ("F03", "refuse materials and transmission tables without name", "a section without name after its prefix crashed"),
    ("F03", "refuse incomplete attenuator and layer lines", "short attenuator and layer lines were read past their end"),
    ("X05", "refuse a layer index beyond the sample", "getGeometricEfficiency read layers beyond the sample"),
    ("X08", "refuse lists of different length", "getMultilayerFluorescence read lists of families and layers past their end"),
    ("X08", "do not add empty layers to the results", "with tertiary excitation, layers not asked for appeared in the result without lines"),
    ("M01", "exponential integral of large negative arguments", "E1 and D of arguments below -2 were wrong by up to 15 percent and overflowed below -700"),
    ("X07", "secondary excitation by layers stopping the incident beam", "a sample with a layer stopping the beam above another made the calculation fail"),
    ("X08", "do not count several times a peak family", "a family of lines requested twice had its intensities doubled"),
    ("F03", "geometry of an earlier file", "a file without geometry kept the one of the file read before"),
    ("E03", "shells without photoelectric coefficients and tables", "shells without photoelectric table and tables of a single energy were read past their end"),
    ("L04", "data files with more elements than the library", "files of shell constants or cross sections with more rows than elements wrote past the element list"),
    ("L05", "refuse data files with scans without data", "scans without rows or with fewer columns than labels were read past their end"),
    ("L02", "refuse materials defined in terms of themselves", "resolving a material that contains itself never ended and crashed"),
]


def main():
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
    out = []
    for pid, key, what in FIXED:
        h = [x for x in log if x[8:].startswith("fix:") and key in x]
        assert len(h) == 1, (key, h)
        out.append("fixed: property=%s %s %s" % (pid, h[0][:7], what))
    missing = [x for x in log if x[8:].startswith("fix:") and not any(x[:7] in o for o in out)]
    assert not missing, missing
    path = os.path.join(HERE, "known_findings.json")
    k = json.load(open(path))
    k["fixed"] = out
    json.dump(k, open(path, "w"), indent=1)
    open(path, "a").write("\n")


main()

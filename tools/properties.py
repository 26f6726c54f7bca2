#!/usr/bin/env python3
"""The list of properties: writes /verif/properties.jsonl and /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, note, state=(), claimed=True, reason=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  observe=observe, note=note, state=state, claimed=claimed, reason=reason))


TRUST = ("Assurance: TLC checks the specification's own invariants exhaustively within the stated constants; the code is bound to it by "
         "validating recorded executions of the real library (generated call sequences, every result compared). Not a proof about the code: "
         "inputs outside the generated ones are not covered. Trusted: the driver, the floating point operators of spec/Flt.tla (java/Flt.java), TLC. ")

prop("E01", "Shell de-excitation branching ratios follow the tables supplied",
     "For every table of radiative transitions, radiationless transitions and yields given to a shell, in any order of calls and any letter case, the "
     "emission ratios are the positive supplied line rates divided by their sum, every positive radiationless transition is counted either as Auger or "
     "in exactly one Coster-Kronig group with each group normalised to its own total, and each new table replaces the previous one. "
     "The vacancies transferred to another shell are the sum over those channels weighted by fluorescence yield, Auger yield (one minus all other yields) "
     "and Coster-Kronig yields, a transition leaving two holes in a shell counting twice. "
     "Unknown labels and constants, and yields adding to more than one, are refused.",
     ["inputs", "histories"],
     "all shells K, L1-L3, M1-M5, all label sets and non-negative rates, every sequence of setters and queries",
     "The tests load the shipped tables and look at a few sums; malformed, zero, total-bearing, repeated or replaced tables are never set.",
     ["src/fisx_shell.h", "src/fisx_shell.cpp", "src/fisx_element.cpp"],
     [("normalisation of lines", "Shell::setRadiativeTransitions / getFluorescenceRatios"), ("Auger and Coster-Kronig split", "Shell::_updateNonradiativeRatios"),
      ("transfer", "Shell::getDirectVacancyTransferRatios")],
     ["Shell and Element getters"],
     TRUST + "The exhaustive model (MCShell) builds every L1 table from 3 emission and 4 radiationless labels with 3 values each.")

prop("E02", "Vacancy cascade and emitted lines conserve and order vacancies",
     "For every initial distribution of vacancies, the cascade moves vacancies only outwards, is linear in the distribution, and gives each shell its initial vacancies plus "
     "everything transferred from all shells above it. The rate of each emitted line is the vacancies of its shell times the line's emission ratio times (when asked) the "
     "fluorescence yield, and its energy is the difference of the two binding energies (3 eV standing for an untabulated outer shell). The lines reported as possible at a photon energy are exactly those of "
     "the shells that energy ionises and that have a fluorescence yield.",
     ["inputs", "configurations"],
     "all elements whose shells are defined from K outwards, all tables, all distributions over defined shells",
     "Tests compare a couple of line sums for iron; no test exercises cascades with arbitrary distributions, missing shells, untabulated outer shells or zero yields.",
     ["src/fisx_element.cpp", "src/fisx_shell.cpp"],
     [("cascade", "Element::getCascadeModifiedVacancyDistribution"), ("lines", "Element::getXRayLinesFromVacancyDistribution, getEmittedXRayLines, getTransitionEnergy")],
     ["Element::getXRayLines..., getEmittedXRayLines, getTransitionEnergy"],
     TRUST + "MCCascade enumerates every 4-shell element with two yields and the given choices of rates.")

prop("E03", "Element mass attenuation: interpolation, edges and sums",
     "At every photon energy, on, beside, between or outside tabulated points, the coherent, Compton and pair coefficients of an element are the log-log interpolation of its tables "
     "(first value at a repeated energy), each shell's partial photoelectric coefficient is zero below its binding energy and the log-log interpolation of its table above (continuing its first positive "
     "segment down to the edge), and photoelectric and total are exactly the sums of their parts. Vector calls agree with single calls, initial vacancy distributions are the partial coefficients divided by their "
     "sum, and malformed tables are refused without effect.",
     ["inputs", "configurations"],
     "all tables with ascending energies (repeated points included), all energies, elements with and without inner shells",
     "Tests check a handful of energies of shipped elements against totals; edges, duplicated points, extrapolation and zero entries are not visited.",
     ["src/fisx_element.cpp", "src/fisx_element.h"],
     [("interpolation", "Element::getInterpolationIndices, extractEdgeEnergiesFromMassAttenuationCoefficients"), ("partials", "Element::getPartialPhotoelectricMassAttenuationCoefficients"),
      ("total", "Element::getMassAttenuationCoefficients")],
     ["Element::getMassAttenuationCoefficients, getPartialPhotoelectric..., getInitialPhotoelectricVacancyDistribution"],
     TRUST + "Domain: once a shell's table is positive it stays positive (it may never be); every bound shell has a table whenever one has.")

prop("E04", "Photoelectric excitation factors combine absorption and cascade",
     "For every photon energy and weight, the excitation factor of each line is the weight times the rate that line has after the photoelectric vacancy distribution at that energy has gone through the whole cascade with yields, "
     "and its rate is that factor times the photoelectric coefficient. With a list of energies each energy uses its own weight, a single weight is shared, and no weights mean equal parts of one.",
     ["inputs", "configurations"],
     "all elements and tables as above, all energies, weights and numbers of energies",
     "Tests see one element at a few energies; the weighting rules and combinations of table and energy are unbounded.",
     ["src/fisx_element.cpp"],
     [("factors", "Element::getPhotoelectricExcitationFactors")],
     ["Element::getPhotoelectricExcitationFactors"],
     TRUST)

prop("C01", "Cached calculations are never distinguishable from fresh ones",
     "Whatever the history of table changes, cache fills, updates, clears, enabling and disabling, an element's attenuation coefficients and excitation factors are those a freshly computed answer would give from its current tables. "
     "The cache holds each filled energy once and never more than its maximum size, and a copy of an element is independent of the original.",
     ["histories", "inputs"],
     "all sequences of setters, cache operations and queries on one element, any energies",
     "Staleness appears only after particular sequences (fill, change one table, query the same energy with the cache on); the tests never change a table after filling the cache.",
     ["src/fisx_element.cpp", "src/fisx_element.h"],
     [("clearing on change", "Element setters calling clearCache"), ("lookup", "Element::getMassAttenuationCoefficients, getPhotoelectricExcitationFactors"),
      ("filling", "Element::fillCache, updateCache")],
     ["Element queries", "Element::getCacheSize"],
     TRUST + "CacheModel checks the cache design exhaustively for 2 energies and the stated number of operations.",
     state=[("muCache / excitationFactorsCache", "answers stored per energy", "Element")])
exec(open(os.path.join(HERE, "tools", "properties_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "properties_more.py")) else None


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                 "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]],
                             "observe_at": p["observe"], "hook_needed": None}}
            if p["state"]:
                d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
            assert len(p["title"]) <= 80, p["title"]
            assert p["statement"].count(". ") <= 2, p["id"]
            f.write(json.dumps(d) + "\n")
    m = {"version": 1, "setup_cmd": "python3 lib/setup.py",
         "checks": [{"property": p["id"], "quick_cmd": "python3 lib/check.py %s --tier quick" % p["id"],
                     "thorough_cmd": "python3 lib/check.py %s --tier thorough" % p["id"],
                     "technique": "TLA+ specification; TLC model checking and TLC trace validation of recorded executions",
                     "level": "model_checking", "level_note": p["note"].strip()} for p in P if p["claimed"]],
         "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in P if not p["claimed"]]}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()

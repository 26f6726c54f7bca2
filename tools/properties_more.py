prop("M01", "Exponential integrals, enhancement integrals, erf, erfc and FWHM are right",
     "Over the whole range of arguments the fluorescence calculation uses (and on both sides of every point where the implementation changes formula), the exponential integrals, the within-layer and "
     "between-layer enhancement integrals, the error functions and the detector width equal the integrals or closed forms that define them, within the accuracy of the published approximations. "
     "Arguments for which a function is undefined are refused, and no finite valid argument gives a number that is not finite.",
     ["inputs"],
     "all finite arguments of Math::E1, En, _deBoerD, deBoerL0, deBoerX, deBoerV, erf, erfc, getFWHM",
     "No test calls them; an error of a digit in one coefficient changes results by parts in 10^4 only between two crossover points.",
     ["src/fisx_math.cpp", "src/fisx_math.h"],
     [("exponential integrals", "Math::E1, En, AS_5_1_53, AS_5_1_56"), ("enhancement integrals", "Math::deBoerD, deBoerL0, deBoerX, deBoerV"), ("error functions", "Math::erf, erfc")],
     ["Math static functions"],
     TRUST + "Oracle: the defining integrals, evaluated by series, continued fractions and tanh-sinh quadrature in double precision; tolerances in Maths!MathTol.")

prop("X01", "Beams are normalised, ordered and complete",
     "Whatever lists or arrays are given, in whatever order of energies, a beam reports every ray once with its own weight, characteristic flag and divergency, ordered by energy, with weights adding to one (unless all are zero). "
     "A missing list means weight one, characteristic, zero divergency; a single value counts for all rays; incomplete lists are refused and leave the previous beam.",
     ["inputs", "histories"],
     "all numbers of rays, orders, ties, list lengths and sequences of setters",
     "Tests set one or two beams in ascending order with complete lists.",
     ["src/fisx_beam.h", "src/fisx_beam.cpp"],
     [("setting", "Beam::setBeam (vectors and arrays), setSingleEnergyBeam"), ("order", "Beam::normalizeBeam")],
     ["Beam::getBeam, getBeamAsDoubleVectors"],
     TRUST + "MCTable enumerates every beam of up to 3 rays with the given choices.")

prop("X02", "Transmission tables interpolate linearly and are validated",
     "A transmission table answers, at every energy, the linear interpolation between its neighbouring points, the first or last value outside them, and one if it is empty; the second point given at an energy describes the side just above it. "
     "Negative energies or transmissions, vectors of different lengths or in descending order, and renaming of a named table are refused without effect on the table, and a new table replaces the old one.",
     ["inputs", "histories"],
     "all tables, all energies, vector and map forms, sequences of setters",
     "Tests query a handful of energies of two tables; steps, empty tables, refusals and replacement are not visited.",
     ["src/fisx_transmissiontable.h", "src/fisx_transmissiontable.cpp"],
     [("setting", "TransmissionTable::setTransmissionTable, setTransmissionTableFromMap"), ("interpolation", "TransmissionTable::getTransmission")],
     ["TransmissionTable::getTransmission, getTransmissionTable"],
     TRUST + "MCTable enumerates every table of up to 3 points with the given choices.")

prop("F01", "SPEC data files are read completely and in order",
     "For every file in the SPEC layout, the number of scans is the number of scan headers, the labels of each scan are those of its label line, and its data are exactly the numbers of its rows, "
     "whatever the comments, blank lines, spacing, line endings, number formats or number and length of scans. Scan numbers out of range and missing files are refused, and reading one scan does not affect another.",
     ["inputs", "histories"],
     "all arrangements of headers, comments, blank lines, separators, rows and line endings; every order of queries",
     "Tests read the shipped data files only, which share one layout.",
     ["src/fisx_simplespecfile.h", "src/fisx_simplespecfile.cpp"],
     [("index of scans", "SimpleSpecfile::setFileName"), ("labels", "SimpleSpecfile::getScanLabels"), ("rows", "SimpleSpecfile::getScanData")],
     ["SimpleSpecfile::getNumberOfScans, getScanLabels, getScanData"],
     TRUST + "MCSpecFile enumerates every file of a few lines out of a set of line kinds, each replayed into the code.")

prop("F02", "INI files give back exactly what is written in them",
     "For every file, the sections are those written, and each section holds its own keys with their trimmed values - comments, blank lines, spacing, line endings, values containing separators and repeated sections or keys included. "
     "Section and subsection lookups honour the letter case asked for, reading another file replaces everything, and text is turned into numbers or lists by the documented rules with the given default for anything unreadable.",
     ["inputs", "histories"],
     "all arrangements of sections, subsections, keys, comments, continuation of values and spaces; every order of queries and re-reads",
     "No test reads an INI file with comments, repeated sections, odd spacing or different letter case.",
     ["src/fisx_simpleini.h", "src/fisx_simpleini.cpp"],
     [("reading", "SimpleIni::readFileName, readSection"), ("lookups", "SimpleIni::getSubsections"), ("conversion", "SimpleIni::parseStringAs...")],
     ["SimpleIni::getSections, getSubsections, readSection, parseStringAs..."],
     TRUST + "MCIni enumerates every file of a few lines out of a set of line kinds, each replayed into the code.")

prop("L01", "Chemical formulas give atoms per symbol and mass fractions",
     "A text made of element symbols, numbers (whole or decimal) and nested groups gives, for each symbol, the total number of atoms - repetitions adding up, a number after a group multiplying everything in it - and mass fractions "
     "proportional to atoms times atomic mass, adding to one. Texts that do not begin with a symbol or a group, with unbalanced brackets, blanks or unknown symbols, give no composition and never a wrong one.",
     ["inputs"],
     "all texts; atomic masses of the library, including those of elements added by the user",
     "Tests parse a few well-formed formulas; nesting, decimals, repetition and malformed text are not explored.",
     ["src/fisx_elements.cpp"],
     [("parsing", "Elements::parseFormula"), ("mass fractions", "Elements::getCompositionFromFormula")],
     ["Elements::parseFormula, getCompositionFromFormula, getComposition"],
     TRUST + "MCFormula enumerates every text of up to 5 pieces (and shows parsing compositional); each is replayed into the code.")

prop("L02", "Materials: creation, composition and resolution by name",
     "A material keeps name, density, thickness and comment, and amounts normalised to one (repeated substances adding up); what is refused - empty name, non-positive amounts, density or thickness, a repeated name - leaves everything as it was. "
     "The composition of a name is that of the formula it spells, else of the library's material of that name resolved through any depth of materials made of materials, else unknown; materials passed with a call are used for that call only. "
     "Adding, replacing, removing and copying materials has exactly the requested effect on the library, in order.",
     ["inputs", "histories", "configurations"],
     "all materials whose definitions are not cyclic, all histories of library operations",
     "Tests define one or two materials; resolution through several levels, replacement, removal and refusals are not exercised.",
     ["src/fisx_material.cpp", "src/fisx_elements.cpp"],
     [("material", "Material::initialize, setComposition"), ("library", "Elements::addMaterial, setMaterialComposition, removeMaterial"), ("resolution", "Elements::getComposition")],
     ["Elements::getComposition, getMaterial, getMaterialNames; Material getters"],
     TRUST + "MCMaterials enumerates every history of a few operations on 3 materials; each maximal one is replayed into the code.")

prop("L03", "Mixture attenuation is the mass-weighted sum of its elements",
     "The coefficients of a formula, a material, or a map of either are, kind by kind, the sum over elements of mass fraction times that element's coefficient at that energy, with total the sum of the kinds, however the mixture is nested and whatever the scale of the given amounts. "
     "Single and several energies agree; negative amounts, unknown names and elements without tables are refused.",
     ["inputs", "configurations"],
     "all mixtures by formula, name, map and element fractions; all energies; elements with replaced tables",
     "Tests compare a few compounds at a few energies.",
     ["src/fisx_elements.cpp"],
     [("mixture", "Elements::getMassAttenuationCoefficients")],
     ["Elements::getMassAttenuationCoefficients in all its forms"],
     TRUST + "Elements and energies of the run's data set; 2e-6 relative.")

prop("L04", "A library gives each element exactly the tabulated data",
     "Whichever constructor or loader is used, each element has the name, number, mass, density, binding energies, yields, radiative and radiationless rates and cross sections of its own row or scan of the files in force, the last file loaded replacing the earlier one for the shells it covers. "
     "Peak families are the K, L and M groups with a yield that the energy ionises, by increasing binding energy. "
     "Elements added by the user replace or extend the library, copies are independent, and unknown names and files are refused.",
     ["inputs", "configurations", "histories"],
     "all constructors and loaders, files written by the user in the shipped layout, all queries on elements of the data set",
     "Tests check a few numbers of a few elements of one constructor.",
     ["src/fisx_elements.cpp", "src/fisx_epdl97.cpp"],
     [("constructors", "Elements::initialize, Elements::initializeAsPyMca"), ("loaders", "Elements::setShell...File, setMassAttenuationCoefficientsFile, loadBinding"), ("families", "Elements::getPeakFamilies")],
     ["all Elements queries"],
     TRUST + "EPDL97_CrossSections.dat is not in the repository: runs use a synthetic one in its layout, and the shipped files otherwise; 15 elements have full tables.")

prop("L05", "EPDL97 cross sections under any set of binding energies",
     "For any binding energies, the photoelectric coefficient of each shell is zero below its binding energy and the log-log interpolation of its own tabulated curve above it, the remainder of the tabulated photoelectric effect belongs to the outer shells, photoelectric is the sum of its shells, and total the sum of all kinds. "
     "Binding energies read from a file are those of the file; energies below the tables, negative or empty requests and bad files are refused or answered as documented, and single, several and all tabulated energies agree.",
     ["inputs", "configurations"],
     "all elements of the data set, all binding energies within 25 percent of real ones or zero, all energies",
     "Tests compare one element at tabulated energies with shipped binding energies.",
     ["src/fisx_epdl97.cpp"],
     [("loading", "EPDL97::loadData, loadCrossSections, loadBindingEnergies"), ("interpolation", "EPDL97::getMassAttenuationCoefficients, getPhotoelectricWeights")],
     ["EPDL97 queries"],
     TRUST + "Synthetic cross sections (seeded) in the layout of EPDL97_CrossSections.dat.")

prop("L06", "User-supplied attenuation merges with the tabulated one",
     "After attenuation coefficients are supplied for an element, the coefficients at and above the first supplied energy are the interpolation of exactly the supplied ones, those below it remain the tabulated ones, and the photoelectric effect is divided among the shells in the tabulated proportions with each supplied edge at its shell's binding energy. "
     "Supplying again starts from the tabulated data, not from the earlier supply; vectors of different or no length and unknown elements are refused without effect; other elements are untouched.",
     ["inputs", "histories"],
     "all supplied tables with ascending energies, with and without edges, below and above the tabulated range; files of many scans",
     "Tests load one file and do not look at the merged tables.",
     ["src/fisx_elements.cpp", "src/fisx_element.cpp"],
     [("merging", "Elements::setMassAttenuationCoefficients"), ("edges", "Element::extractEdgeEnergiesFromMassAttenuationCoefficients")],
     ["Elements and Element attenuation queries after the supply"],
     TRUST + "Tables whose edge can only be attributed to another shell leave the element unspecified.")

prop("C02", "Caches of a library never change an answer",
     "For every history of enabling, filling, clearing and disabling the attenuation, excitation and cascade caches of a library's elements, mixed with queries and changes of data, every query returns what it would return without caches for the data then in force. "
     "Refused cache operations leave no trace, and a copy of a library keeps its own caches.",
     ["histories", "configurations"],
     "all sequences of cache operations, data changes, copies and queries through the library or through its elements",
     "Tests fill a cache once; no test changes data, copies or clears afterwards.",
     ["src/fisx_elements.cpp", "src/fisx_element.cpp"],
     [("attenuation cache", "Element::updateMassAttenuationCoefficientsCache..."), ("library", "Elements::fillCache, updateCache, clearCache, setElementCacheEnabled, emptyElementCascadeCache")],
     ["Elements queries; cache sizes and states"],
     TRUST + "CacheModel's invariant (cached answer = fresh answer) is checked exhaustively in C01; here histories are generated.")

prop("C03", "Escape-peak caches never change an answer",
     "For every history of enabling, updating, clearing and disabling the escape cache of a library, and of changing compositions, thresholds, angles and energies, the escape peaks returned for a composition and energy are those computed afresh for exactly that request. "
     "A detector's escape peaks are likewise those of its present material and thresholds and of the energy asked.",
     ["histories", "configurations"],
     "all sequences of escape requests and cache operations on libraries and detectors",
     "Tests enable the cache and look at timing only.",
     ["src/fisx_elements.cpp", "src/fisx_detector.cpp"],
     [("library cache", "Elements::getEscape, updateEscapeCache"), ("detector cache", "Detector::getEscape")],
     ["Elements::getEscape, Detector::getEscape"],
     TRUST + "Up to a few requests and updates per history.")

prop("C04", "Answers depend only on the object and the question",
     "A query answers the same whatever was asked before, in whatever order, through whichever instance, copy or interleaving with work on other objects. "
     "Threads that use their own objects, or only ask questions of one shared library, get the answers they would get alone.",
     ["histories", "schedules", "configurations"],
     "all interleavings of calls on different objects, repeated and reordered queries, threads on own objects and read-only threads on one library",
     "Every test uses one instance in one thread and asks each question once.",
     ["src"],
     [("hidden state", "function-local statics, caches and lazily filled tables in Element, Elements, Shell, Math and SimpleIni")],
     ["all queries"],
     TRUST + "Thread schedules are those the operating system happens to give, and those the race detector observes where it runs.")

prop("X03", "Layers and detectors transmit as their composition and thickness say",
     "For every layer or detector, its composition is that of the material given to it or of the one its name stands for, its attenuation coefficients are the mass-fraction mean of its elements', and its transmission at any angle is 1 - f + f exp(-mu rho t / sin(angle)) with f its fraction of covered area. "
     "Setters take positive values only and what they refuse changes nothing; a material given later replaces composition but only lacking density and thickness; one energy and several answer alike.",
     ["inputs", "histories", "configurations"],
     "all layers and detectors, by name or by material of the caller, all libraries, energies, angles and orders of setting",
     "Tests compare a single transmission.",
     ["src/fisx_layer.cpp", "src/fisx_detector.cpp"],
     [("composition", "Layer::setMaterial, getComposition"), ("transmission", "Layer::getTransmission, getMassAttenuationCoefficients"), ("setters", "Layer::setDensity, setThickness")],
     ["Layer and Detector queries"],
     TRUST + "Compositions are judged as in L02, coefficients as in L03.")

prop("F03", "PyMca configuration files are understood as written",
     "Reading a PyMca configuration file gives the beam of its energies in use, with weights and flags, the materials, filters, attenuators, layers, detector, geometry and user tables it describes, in the order of the file format, whatever the order of sections and keys; what a section lacks has its default and nothing is taken from another section or an earlier file. "
     "Files that are missing or not consistent are refused.",
     ["inputs", "histories"],
     "all files with any number of rays, materials, rows and tables, in any order, well formed or with lists too short, negative or missing values; files read one after the other",
     "Tests do not read configuration files of fisx at all.",
     ["src/fisx_xrf.cpp", "src/fisx_xrfconfig.cpp", "src/fisx_simpleini.cpp"],
     [("reading", "XRFConfig::readConfigurationFromFile")],
     ["XRFConfig getters and XRF::getConfiguration after reading; layer queries through the configuration"],
     TRUST + "Beam lists longer than the flags, and what a file refused half way leaves behind, are unspecified.")

prop("X04", "A configuration is what was put into it",
     "After any sequence of setting beam, filters, sample, attenuators, tables, detector and geometry, in any of their forms, the configuration returned contains exactly what was last set for each of them and defaults for the rest. "
     "It holds copies: later changes to the layers, beams or detectors given do not show, and changes to a copy of an experiment do not show in the original.",
     ["histories", "configurations"],
     "all sequences of setters on experiments and configurations, copies, and changes of the objects given",
     "Tests set a configuration once and ask for fluorescence.",
     ["src/fisx_xrf.cpp", "src/fisx_xrfconfig.cpp"],
     [("setters", "XRF::set..., XRFConfig::set..., Layer/MultilayerSample copying")],
     ["XRF::getConfiguration, XRFConfig getters"],
     TRUST + "Beams are compared up to the order of rays with equal energy.")

prop("X05", "Solid angle and excitation threshold follow the geometry and the edges",
     "The geometric efficiency of each layer is the fraction of the sphere seen by the detector from that layer: half of one minus d/sqrt(d^2+r^2), with d the distance corrected for the thickness of the layers between it and the reference layer along the exit direction, and 1 for a detector without size; layers beyond the sample are refused. "
     "The excitation threshold of a family of lines is the binding energy of its outermost shell that has one, and of a single shell that of the shell.",
     ["inputs", "configurations"],
     "all samples, reference layers, exit angles, detector sizes and distances; all elements and families",
     "No test asks for either.",
     ["src/fisx_xrf.cpp", "src/fisx_multilayer.cpp"],
     [("solid angle", "XRF::getGeometricEfficiency"), ("threshold", "XRF::getEnergyThreshold")],
     ["XRF::getGeometricEfficiency, getEnergyThreshold"],
     TRUST)

prop("X06", "Primary fluorescence of any multilayer is the fundamental-parameter integral",
     "For every sample, beam, filters and geometry, the primary intensity of each line in each layer is the sum over rays of weight, filter transmission, attenuation by the layers above, excitation rate and self-absorbed path (1-exp(-chi rho t))/(chi sin(alpha)), times the mass fraction when asked for; rays below the threshold or with weight zero contribute nothing. "
     "Lines are exactly those of the family asked that a ray excites, in the layers that contain the element.",
     ["inputs", "configurations"],
     "all samples of up to a few layers, beams, filters, user tables, angles, libraries and requests",
     "Tests compare a few intensities of one configuration with stored numbers.",
     ["src/fisx_xrf.cpp", "src/fisx_multilayer.cpp"],
     [("filters", "XRF::getMultilayerFluorescence, beam filters"), ("layers", "layer weights"), ("lines", "family selection and primary")],
     ["XRF::getMultilayerFluorescence without secondary excitation"],
     TRUST + "Excitation rates are judged as in E04 and L04, coefficients as in L03.")

prop("X07", "Secondary and tertiary excitation enhance as the integrals say",
     "With secondary excitation, each line is enhanced by every line and by the coherent scattering of every layer above its threshold, by the amount of the exact double integral over both layers and what lies between them, and reported contribution by contribution; the total is their sum and the primary is not changed. "
     "Tertiary excitation follows from the enhancement of the contributing lines; very thin layers and negligible contributions may be left out as documented, and no sample, however thick, makes the calculation fail.",
     ["inputs", "configurations"],
     "all samples of one to three layers from very thin to opaque, beams of one to a few rays, all exciting lines",
     "Tests check one sample against stored values of two digits.",
     ["src/fisx_multilayer.cpp", "src/fisx_math.cpp"],
     [("within a layer", "Math::deBoerL0"), ("between layers", "Math::deBoerX, deBoerV"), ("tertiary", "end of XRF::getMultilayerFluorescence")],
     ["XRF::getMultilayerFluorescence with secondary excitation"],
     TRUST + "Oracle: numerical quadrature of the integrals; agreement within the accuracy of Maths!MathTol. Lines enhanced by 1 % within that accuracy have an unspecified tertiary part.")

prop("X08", "Every way of asking for fluorescence gives the same, complete answer",
     "Requests as keys, as lists or single, with one layer or all, together or one by one, repeated or not, give each line once with the same values under 'Element Family', layer and line; a beam given with the question replaces the configured one for that question only, and a beam of several rays does what its rays do together. "
     "Requests with unknown elements, malformed keys, missing families or lists of different length are refused, and refused or earlier questions leave later answers unchanged.",
     ["inputs", "histories", "configurations"],
     "all forms and combinations of requests, on experiments set piece by piece, copied or read from a file, changed between questions",
     "Tests use one form of request each and never ask twice.",
     ["src/fisx_xrf.cpp", "src/fisx_multilayer.cpp"],
     [("requests", "XRF::getMultilayerFluorescence overloads"), ("results", "merging of rays, layers and families")],
     ["XRF::getMultilayerFluorescence, all forms"],
     TRUST + "Laws of superposition, decomposition and of cutting a layer in two are checked on the specification exhaustively over a small family of experiments (MCFluor).")

prop("X09", "Detected intensity accounts for attenuators, detector and escape peaks",
     "The efficiency of each line is the product of the transmission of the layers above, attenuators and user tables, the solid angle when asked for, and what the detector absorbs; the detected rate is the efficiency times the emitted intensity less its escape peaks. "
     "Each escape peak of a line appears with its energy, its ratio and that share of the line's primary, secondary, tertiary and detected intensity, computed for the detector, energy and thresholds now configured.",
     ["inputs", "histories", "configurations"],
     "all detectors, attenuators, tables, sizes and thresholds, changed between questions on one experiment",
     "Tests use one detector and do not look at escape peaks of fluorescence.",
     ["src/fisx_multilayer.cpp", "src/fisx_detector.cpp", "src/fisx_elements.cpp"],
     [("efficiency", "detectionEfficiency in XRF::getMultilayerFluorescence"), ("escape", "Detector::getEscape and its use")],
     ["XRF::getMultilayerFluorescence: efficiency, rate and escape entries"],
     TRUST + "Escape ratios are judged as in C03.")

From 4c9316f6b5bd0a6469f38f293690acca566a3f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:23 +0000
Subject: [PATCH 01/38] fix: Shell::setNonradiativeTransitions from C arrays
 replaces the previous table

The vector and map overloads (and the radiative C array overload) forget the
previously supplied transitions. This overload merged the new transitions into
the old ones and kept the old total.
---
 src/fisx_shell.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fisx_shell.cpp b/src/fisx_shell.cpp
index 3790d33..fede3b0 100644
--- a/src/fisx_shell.cpp
+++ b/src/fisx_shell.cpp
@@ -183,6 +183,8 @@ void Shell::setNonradiativeTransitions(std::map<std::string, double> inputMap)
 void Shell::setNonradiativeTransitions(const char *c_strings[], const double *values, int nValues)
 {
     int i;
+    // empty current list
+    this->nonradiativeTransitions.clear();
     for(i=0; i < nValues; i++)
     {
         this->nonradiativeTransitions[this->toUpperCaseString(std::string(c_strings[i]))] = values[i];
-- 
2.43.0


From 100829a1418eb5aff04c23683c77aaee3ac621b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 02/38] fix: Element Auger and Coster-Kronig ratios no longer
 refer to a destroyed shell

getAugerRatios and getCosterKronigRatios returned references into a local copy
of the shell.
---
 src/fisx_element.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index b3292ba..a5f6ae5 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -1087,15 +1087,13 @@ const std::map<std::string, double> & Element::getFluorescenceRatios(const std::
 
 const std::map<std::string, double> & Element::getAugerRatios(std::string subshell)
 {
-    Shell shell;
-    shell = this->getShell(subshell);
+    const Shell & shell = this->getShell(subshell);
     return shell.getAugerRatios();
 }
 
 const std::map<std::string, std::map<std::string, double> > & Element::getCosterKronigRatios(std::string subshell)
 {
-    Shell shell;
-    shell = this->getShell(subshell);
+    const Shell & shell = this->getShell(subshell);
     return shell.getCosterKronigRatios();
 }
 
-- 
2.43.0


From 0093fc240aca4106d5a51694376c1aed3762d6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 03/38] fix: Element calculation cache is cleared by every
 change of the tables behind it

setRadiativeTransitions (labels and values) and setBindingEnergies kept
calculations made with the previous tables, unlike the other setters.
---
 src/fisx_element.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index a5f6ae5..76eac9a 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -150,6 +150,8 @@ void Element::setBindingEnergies(std::map<std::string, double> bindingEnergies)
     // get rid of any shell definition
     this->shellInstance.clear();
     this->bindingEnergy.clear();
+    // the stored calculations were made with the previous binding energies
+    this->clearCache();
 
     for (it = bindingEnergies.begin(); it != bindingEnergies.end(); ++it)
     {
@@ -983,6 +985,7 @@ void Element::setRadiativeTransitions(std::string subshell, \
         throw std::invalid_argument(msg);
     }
     this->shellInstance[subshell].setRadiativeTransitions(labels, values);
+    this->clearCache();
 }
 
 void Element::setRadiativeTransitions(std::string subshell, std::map<std::string, double> values)
-- 
2.43.0


From 1ac38a624ac43a197d1babef05981c791ebc5a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:40 +0000
Subject: [PATCH 04/38] fix: partial photoelectric coefficients of an element
 with shells lacking a binding energy

The end iterator of the binding energies was dereferenced for every shell not
present in the supplied binding energies.
---
 src/fisx_element.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index 76eac9a..9e9b0a4 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -711,6 +711,11 @@ std::map<std::string, double> \
         if (shell != "all other")
         {
             c_itSingle = this->bindingEnergy.find(shell);
+            if (c_itSingle == this->bindingEnergy.end())
+            {
+                // shell without binding energy
+                continue;
+            }
             if ((c_itSingle->second == 0.0) || (energy < c_itSingle->second))
             {
                 continue;
-- 
2.43.0


From 8916640c6ad4d5525c30e04a6086d5c3ffba16e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 05/38] fix: chemical formulas with groups keep their last
 character, their precision and groups without a number

---
 src/fisx_elements.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 420d198..3c41430 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -1689,6 +1689,11 @@ std::map<std::string, double> Elements::parseFormula(const std::string & formula
             p1 = openParenthesis[0];
         }
         p2 = closeParenthesis[0];
+        if ((formula[p1] != '(') || (p1 > p2))
+        {
+            // closed before being opened
+            return composition;
+        }
         length = p2 - p1 - 1;
         if(length < 1)
         {
@@ -1717,10 +1722,15 @@ std::map<std::string, double> Elements::parseFormula(const std::string & formula
                 }
                 i += 1;
             }
-            if (!this->stringToDouble(formula.substr(p2+1, i - (p2+1)), factor))
+            if (i == (p2 + 1))
+            {
+                // a group directly followed by something else counts once
+                factor = 1.0;
+            }
+            else if (!this->stringToDouble(formula.substr(p2+1, i - (p2+1)), factor))
             {
                 return composition;
-            };
+            }
         }
         /* better generate a new formula than to try to deal with everything here
         for(it = tmpComposition.begin(); it != tmpComposition.end(); ++it)
@@ -1738,9 +1748,13 @@ std::map<std::string, double> Elements::parseFormula(const std::string & formula
         }
         for(it = tmpComposition.begin(); it != tmpComposition.end(); ++it)
         {
-            newFormula += it->first + this->toString(it->second * factor);
+            // plain decimal notation: an exponent would be taken as an element
+            std::ostringstream number;
+            number.precision(17);
+            number << std::fixed << it->second * factor;
+            newFormula += it->first + number.str();
         }
-        if (i < (formula.size()-1))
+        if (i < formula.size())
         {
             newFormula += formula.substr(i, formula.size() - i);
         }
-- 
2.43.0


From c97d7d61f510ffe141e74c83b1539d2135285932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 06/38] fix: EPDL97 interpolation does not depend on previous
 calls

---
 src/fisx_epdl97.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fisx_epdl97.cpp b/src/fisx_epdl97.cpp
index b19f6d9..72e0093 100644
--- a/src/fisx_epdl97.cpp
+++ b/src/fisx_epdl97.cpp
@@ -777,7 +777,7 @@ std::string EPDL97::toUpperCaseString(const std::string & str) const
 
 std::pair<long, long> EPDL97::getInterpolationIndices(const std::vector<double> & vec, const double & x) const
 {
-    static long lastI0 = 0L;
+    long lastI0 = 0L;
     std::vector<double>::size_type length, iMin, iMax, distance;
     int counter;
     std::pair<long, long> result;
-- 
2.43.0


From 43b2fc4ef3c6f7984cbdea35b1e5216c391d0129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 07/38] fix: shell data files are checked on their first row
 and may have less rows than scans

---
 src/fisx_elements.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 3c41430..ad90bf5 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -382,7 +382,7 @@ void Elements::setShellConstantsFile(const std::string & mainShellName, \
         tmpLabels = sf.getScanLabels(i);
         tmpValues = sf.getScanData(i);
         nLabels = tmpLabels.size();
-        if (tmpValues[i].size() != nLabels)
+        if ((tmpValues.size() < 1) || (tmpValues[0].size() != nLabels))
         {
             msg = "Number of values does not match number of labels in " + fileName;
             throw std::ios_base::failure(msg);
@@ -490,7 +490,7 @@ void Elements::setShellNonradiativeTransitionsFile(const std::string & mainShell
         tmpLabels = sf.getScanLabels(i);
         tmpValues = sf.getScanData(i);
         nLabels = tmpLabels.size();
-        if (tmpValues[i].size() != nLabels)
+        if ((tmpValues.size() < 1) || (tmpValues[0].size() != nLabels))
         {
             msg = "Number of values does not match number of labels in " + fileName;
             throw std::ios_base::failure(msg);
@@ -586,7 +586,7 @@ void Elements::setShellRadiativeTransitionsFile(const std::string & mainShellNam
         tmpLabels = sf.getScanLabels(i);
         tmpValues = sf.getScanData(i);
         nLabels = tmpLabels.size();
-        if (tmpValues[i].size() != nLabels)
+        if ((tmpValues.size() < 1) || (tmpValues[0].size() != nLabels))
         {
             msg = "Number of values does not match number of labels in " + fileName;
             throw std::ios_base::failure(msg);
-- 
2.43.0


From 53db4fdb0cd3f914dffce522dabc65b43187bd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 08/38] fix: Elements mass attenuation coefficients can be set
 without pair production

---
 src/fisx_elements.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index ad90bf5..d202a98 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -886,7 +886,8 @@ void Elements::setMassAttenuationCoefficients(const std::string & name,
     // pair
     for (i = j; i < newEnergyGrid.size(); i++)
     {
-        massAttenuationCoefficients["pair"][i] = pair[i - j];
+        // pair production is optional
+        massAttenuationCoefficients["pair"][i] = pair.size() ? pair[i - j] : 0.0;
     }
 
     // photoelectric
-- 
2.43.0


From d58f7a58db3273f55ae4ef1ef4c53e4878cfa6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 09/38] fix: a refused replacement of a material does not
 remove the existing one

---
 src/fisx_elements.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index d202a98..923912e 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -1191,6 +1191,8 @@ void Elements::addMaterial(const std::string & name, const double & density, \
     Material material;
     std::map<std::string, double> composition;
 
+    // nothing is changed if the supplied values are not valid
+    material.initialize(name, density, thickness, comment);
     if (this->getMaterialIndexFromName(name) < this->materialList.size())
     {
         if (errorOnReplace)
@@ -1203,7 +1205,6 @@ void Elements::addMaterial(const std::string & name, const double & density, \
             this->removeMaterial(name);
         }
     }
-    material.initialize(name, density, thickness, comment);
     this->materialList.push_back(material);
 
     // Try to set the composition from the name
-- 
2.43.0


From af43c31aae008c90e2c764f4baa82be0a5dabc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 10/38] fix: composition of a material with a repeated
 substance stays normalized

---
 src/fisx_material.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fisx_material.cpp b/src/fisx_material.cpp
index f531107..4982985 100644
--- a/src/fisx_material.cpp
+++ b/src/fisx_material.cpp
@@ -140,7 +140,7 @@ void Material::setComposition(const std::vector<std::string> & names, const std:
 
     for (i = 0; i < amounts.size(); ++i)
     {
-        this->composition[names[i]] = amounts[i] / total;
+        this->composition[names[i]] += amounts[i] / total;
     }
 
 }
-- 
2.43.0


From 7ab8cbe97394adf7569f35303b906dc676d03288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 11/38] fix: no debug output when calculating the composition
 of a material

---
 src/fisx_elements.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 923912e..198cfcb 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -1503,7 +1503,6 @@ std::map<std::string, double> Elements::getComposition(const std::string & name,
     {
         total += c_it->second;
     }
-    std::cout << "total = " << total << std::endl;
     for (c_it = result.begin(); c_it != result.end(); ++c_it)
     {
         result[c_it->first] /= total;
-- 
2.43.0


From 3241404f197e8bdaf0a89a1f015ca158d6f4be89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:50 +0000
Subject: [PATCH 12/38] fix: stored escape peaks are forgotten when the tables
 behind them change

---
 src/fisx_elements.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 198cfcb..f0e0eab 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -165,6 +165,7 @@ void Elements::initialize(std::string epdl97Directory, std::string bindingEnergi
     this->shellNonradiativeTransitionsFile["K"] = "";
     this->shellNonradiativeTransitionsFile["L"] = "";
     this->shellNonradiativeTransitionsFile["M"] = "";
+    this->escapeCacheEnabled = 0;
 
     // initialize EPDL97
     this->epdl97.setDataDirectory(epdl97Directory);
@@ -303,6 +304,8 @@ void Elements::addElement(const Element & element)
     std::string name;
     name = element.getName();
 
+    // the stored escape peaks may depend on the previous element
+    this->clearEscapeCache();
     if (this->elementDict.find(name) != this->elementDict.end())
     {
         // an element with that name already exists
@@ -338,6 +341,8 @@ void Elements::setShellConstantsFile(const std::string & mainShellName, \
         throw std::invalid_argument("Invalid main shell <" + mainShellName +">");
     }
 
+    // the stored escape peaks may depend on the previous data
+    this->clearEscapeCache();
     sf = SimpleSpecfile(fileName);
     nScans = sf.getNumberOfScans();
     if (mainShellName == "K")
@@ -446,6 +451,8 @@ void Elements::setShellNonradiativeTransitionsFile(const std::string & mainShell
         throw std::invalid_argument(msg);
     }
 
+    // the stored escape peaks may depend on the previous data
+    this->clearEscapeCache();
     sf = SimpleSpecfile(fileName);
     nScans = sf.getNumberOfScans();
     if (mainShellName == "K")
@@ -542,6 +549,8 @@ void Elements::setShellRadiativeTransitionsFile(const std::string & mainShellNam
         throw std::invalid_argument(msg);
     }
 
+    // the stored escape peaks may depend on the previous data
+    this->clearEscapeCache();
     sf = SimpleSpecfile(fileName);
     nScans = sf.getNumberOfScans();
     if (mainShellName == "K")
@@ -747,6 +756,9 @@ void Elements::setMassAttenuationCoefficients(const std::string & name,
     // we are doing this because the only compilation providing subshell photoelectric cross sections
     // is EPDL97
 
+    // the stored escape peaks may depend on the previous coefficients
+    this->clearEscapeCache();
+
     // we reset the mass attenuation coefficients of the element to the EPDL97 values
     element = &(this->elementList[this->elementDict[name]]);
     atomicNumber = this->elementList[this->elementDict[name]].getAtomicNumber();
-- 
2.43.0


From 3112b38fa857afaa486069f8cbbd3340143e9322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:50 +0000
Subject: [PATCH 13/38] fix: spec files without blank lines between scans, with
 one digit lines, and labels preceded by several spaces

---
 src/fisx_simplespecfile.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/fisx_simplespecfile.cpp b/src/fisx_simplespecfile.cpp
index e54bd53..3746e83 100644
--- a/src/fisx_simplespecfile.cpp
+++ b/src/fisx_simplespecfile.cpp
@@ -69,13 +69,18 @@ void SimpleSpecfile::setFileName(std::string fileName)
         {
             if (line.substr(0, 2) == "#S")
             {
+                if (startLine >= 0)
+                {
+                    // no blank line before the new scan
+                    this->scanFilePositions.back().second = numberOfLines;
+                }
                 startLine = numberOfLines;
                 this->scanFilePositions.push_back(std::make_pair(startLine, startLine));
                 endLine = -1;
                 this->scanPosition.push_back(position);
             }
         }
-        else
+        else if (line.empty() || isspace(line[0]))
         {
             if(startLine >= 0)
             {
@@ -176,7 +181,11 @@ std::vector<std::string> SimpleSpecfile::getScanLabels(int scanIndex)
             line.erase(line.size() - 1);
 
     // trim leading and trailing spaces
-    iStart = line.find_first_of(" ") + 1;
+    iStart = line.find_first_not_of(" ", 2);
+    if (iStart == std::string::npos)
+    {
+        return result;
+    }
     iEnd = line.find_last_not_of(" ");
     line = line.substr(iStart, 1 + iEnd - iStart);
 
-- 
2.43.0


From 591abaf0195663bfd564b1828e4fd82d8bdbe8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:51 +0000
Subject: [PATCH 14/38] fix: Elements refuses mass attenuation coefficients of
 different lengths and accepts high energy ones

---
 src/fisx_elements.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index f0e0eab..492cd7a 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -750,6 +750,14 @@ void Elements::setMassAttenuationCoefficients(const std::string & name,
         throw std::invalid_argument(msg);
     }
 
+    if ((energy.size() < 1) || (photoelectric.size() != energy.size()) || \
+        (coherent.size() != energy.size()) || (compton.size() != energy.size()) || \
+        ((pair.size() > 0) && (pair.size() != energy.size())))
+    {
+        msg = "Mass attenuation coefficients of " + name + \
+              " do not have the same (non zero) number of values";
+        throw std::invalid_argument(msg);
+    }
 
     // we have to make sure the partial mass attenuation photoelectric coefficients and the total
     // photoelectric mass attenuation coefficients are self-consistent
@@ -783,7 +791,8 @@ void Elements::setMassAttenuationCoefficients(const std::string & name,
     // first calculate the appropriate energy grid
 
     j = 0;
-    while(massAttenuationCoefficients["energy"][j] < energy[0])
+    while((j < massAttenuationCoefficients["energy"].size()) && \
+          (massAttenuationCoefficients["energy"][j] < energy[0]))
     {
         j++;
     }
-- 
2.43.0


From bd17e6a022bee112f1b96aba7f8ab8e997fb9e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:51 +0000
Subject: [PATCH 15/38] fix: attenuation of a composition with an undefined
 element is refused

---
 src/fisx_elements.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 492cd7a..3e17e5b 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -1111,6 +1111,14 @@ std::map<std::string, std::vector<double> > Elements::getMassAttenuationCoeffici
     {
         // no need to parse anything
         elementsDict = inputFormulaDict;
+        for (c_it = elementsDict.begin(); c_it != elementsDict.end(); ++c_it)
+        {
+            if (this->elementDict.find(c_it->first) == this->elementDict.end())
+            {
+                msg = "Name " + c_it->first + " not among defined elements";
+                throw std::invalid_argument(msg);
+            }
+        }
         total = 1.0;
     }
     else
-- 
2.43.0


From 609382432ecc0f8c44212678d7c46984e6aa37f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:16 +0000
Subject: [PATCH 16/38] fix: EPDL97 refuses to work without data and handles
 elements beyond its binding energies

---
 src/fisx_epdl97.cpp | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/fisx_epdl97.cpp b/src/fisx_epdl97.cpp
index 72e0093..617a18d 100644
--- a/src/fisx_epdl97.cpp
+++ b/src/fisx_epdl97.cpp
@@ -340,6 +340,11 @@ void EPDL97::setBindingEnergies(const int & z, const std::map<std::string, doubl
         throw std::runtime_error("EPDL97 Atomic number should be positive");
     }
 
+    if(z > (int) this->bindingEnergy.size())
+    {
+        throw std::runtime_error("EPDL97 Atomic number beyond the available binding energies");
+    }
+
     this->bindingEnergy[z - 1].clear();
     this->bindingEnergy[z - 1] = bindingEnergies;
 }
@@ -350,6 +355,10 @@ const std::map<std::string, double> & EPDL97::getBindingEnergies(const int & z)
     {
         throw std::runtime_error("EPDL97 Atomic number should be positive");
     }
+    if (this->bindingEnergy.size() < 1)
+    {
+        throw std::runtime_error("EPDL97 Binding energies not initialized");
+    }
     if (z >= (int) this->bindingEnergy.size())
     {
         // Repeat for the elements beyond the last one
@@ -369,7 +378,7 @@ std::map<std::string, double> EPDL97::getMassAttenuationCoefficients(const int &
     double A, B, x0, x1, y0, y1, Aw, Bw, x0w, x1w;
     std::map<std::string, int>::const_iterator c_it;
     std::string key;
-    int zHelp, idx;
+    int zHelp, zBinding, idx;
     std::map<std::string, double> result;
     std::map<std::string, double>::const_iterator cStrDoubleIt;
     const std::vector<std::vector<double> > *pVector;
@@ -384,6 +393,11 @@ std::map<std::string, double> EPDL97::getMassAttenuationCoefficients(const int &
         throw std::runtime_error("EPDL97 Atomic number should be positive");
     }
 
+    if (this->muEnergy.size() < 1)
+    {
+        throw std::runtime_error("EPDL97 Mass attenuation coefficients not initialized");
+    }
+
     zHelp = z - 1;
 
     if(zHelp > (int) (this->muEnergy.size() - 1))
@@ -392,6 +406,12 @@ std::map<std::string, double> EPDL97::getMassAttenuationCoefficients(const int &
         zHelp = (int) (this->muEnergy.size() - 1);
     }
 
+    // the data of the last available element are also used for the binding energies
+    zBinding = zHelp;
+    if(zBinding > (int) (this->bindingEnergy.size() - 1))
+    {
+        zBinding = (int) (this->bindingEnergy.size() - 1);
+    }
 
     indices = this->getInterpolationIndices(this->muEnergy[zHelp], energy);
 
@@ -443,8 +463,8 @@ std::map<std::string, double> EPDL97::getMassAttenuationCoefficients(const int &
                 {
                     // we are dealing with a shell
                     result[key] = 0.0;
-                    cStrDoubleIt = this->bindingEnergy[zHelp].find(key);
-                    if (cStrDoubleIt == this->bindingEnergy[zHelp].end())
+                    cStrDoubleIt = this->bindingEnergy[zBinding].find(key);
+                    if (cStrDoubleIt == this->bindingEnergy[zBinding].end())
                     {
                         std::cout << "Key not found " << key << std::endl;
                         throw std::runtime_error("Key not found");
@@ -531,8 +551,8 @@ std::map<std::string, double> EPDL97::getMassAttenuationCoefficients(const int &
             {
                 // we are dealing with a shell
                 result[key] = 0.0;
-                cStrDoubleIt = this->bindingEnergy[zHelp].find(key);
-                if (cStrDoubleIt == this->bindingEnergy[zHelp].end())
+                cStrDoubleIt = this->bindingEnergy[zBinding].find(key);
+                if (cStrDoubleIt == this->bindingEnergy[zBinding].end())
                 {
                     std::cout << "Key not found " << key << std::endl;
                     throw std::runtime_error("Key not found");
@@ -628,6 +648,11 @@ std::map< std::string, std::vector<double> > EPDL97::getMassAttenuationCoefficie
         throw std::runtime_error("EPDL97 Mass attenuation coefficients not initialized");
     }
 
+    if (this->muEnergy.size() < 1)
+    {
+        throw std::runtime_error("EPDL97 Mass attenuation coefficients not initialized");
+    }
+
     idx = z - 1;
 
     if(idx < 0)
-- 
2.43.0


From bf504ce8305eabd846360fc513b541b230a299bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:06 +0000
Subject: [PATCH 17/38] fix: SimpleIni comments, sections and lookups (case
 insensitive sections, subsections, repeated reading)

---
 src/fisx_simpleini.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/fisx_simpleini.cpp b/src/fisx_simpleini.cpp
index 9758f6d..2ba4684 100644
--- a/src/fisx_simpleini.cpp
+++ b/src/fisx_simpleini.cpp
@@ -73,6 +73,7 @@ void SimpleIni::readFileName(std::string fileName)
     }
     this->sections.clear();
     this->sectionPositions.clear();
+    this->sectionContents.clear();
     p0 = 0;
     position = 0;
     numberOfLines = -1;
@@ -130,6 +131,7 @@ void SimpleIni::readFileName(std::string fileName)
                     throw std::invalid_argument(msg);
                 }
                 mainKey = trimmedLine.substr(p0 + 1, length);
+                key = "";
                 this->sections.push_back(mainKey);
                 this->sectionPositions[mainKey] = numberOfLines;
                 continue;
@@ -156,7 +158,8 @@ void SimpleIni::readFileName(std::string fileName)
                 {
                     if ((trimmedLine[i] == '#') || (trimmedLine[i] == ';'))
                     {
-                        i = trimmedLine.size();
+                        // the rest of the line is a comment
+                        break;
                     }
                     if (equalPosition == 0)
                     {
@@ -187,8 +190,7 @@ void SimpleIni::readFileName(std::string fileName)
 
             if (tmpString.size() < 1)
             {
-                // empty line
-                key = "";
+                // the line just contains a comment
                 continue;
             }
             if(equalPosition > 0)
@@ -259,7 +261,7 @@ void SimpleIni::getSubsections(const std::string & parent, \
         targetString = parent + ".";
         for (i = 0; i < this->sections.size(); i++)
         {
-            if (this->sections[i].size() == targetString.size())
+            if (this->sections[i].size() >= targetString.size())
             {
                 if (this->sections[i].substr(0, targetString.size()) == targetString)
                 {
@@ -318,7 +320,7 @@ const std::map<std::string, std::string > & SimpleIni::readSection(const std::st
                             break;
                         }
                     }
-                    if (j < inputKey.size())
+                    if (j == inputKey.size())
                     {
                         return this->sectionContents[tmpKey];
                     }
-- 
2.43.0


From d588cf2045bfd4ad09739ed85095e7d3068e89b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:13 +0000
Subject: [PATCH 18/38] fix: configuration values of a material do not leak
 into the next one

---
 src/fisx_xrfconfig.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/fisx_xrfconfig.cpp b/src/fisx_xrfconfig.cpp
index 6689670..8ab7c3a 100644
--- a/src/fisx_xrfconfig.cpp
+++ b/src/fisx_xrfconfig.cpp
@@ -198,6 +198,12 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
                                             splitString,
                                             std::string(),
                                             '.');
+            // nothing of a previous material is to be used
+            density = 1.0;
+            thickness = 1.0;
+            comment = "";
+            compoundList.clear();
+            compoundFractions.clear();
             for (c_it = sectionContents.begin(); c_it != sectionContents.end(); ++c_it)
             {
                 key = c_it->first;
@@ -257,6 +263,8 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
                                             '.');
             useFlag = 0.0;
             comment = "";
+            energyList.clear();
+            transmissionList.clear();
             for (c_it = sectionContents.begin(); c_it != sectionContents.end(); ++c_it)
             {
                 key = c_it->first;
@@ -313,6 +321,8 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
                                             '.');
             useFlag = 0.0;
             comment = "";
+            energyList.clear();
+            transmissionList.clear();
             for (c_it = sectionContents.begin(); c_it != sectionContents.end(); ++c_it)
             {
                 key = c_it->first;
-- 
2.43.0


From 67832e759be89c22f8ae0d026744ac0fc26e49ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:13 +0000
Subject: [PATCH 19/38] fix: Beam refuses incomplete lists and accepts missing
 characteristic flags

---
 src/fisx_beam.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/fisx_beam.cpp b/src/fisx_beam.cpp
index cc5095a..7ce4147 100644
--- a/src/fisx_beam.cpp
+++ b/src/fisx_beam.cpp
@@ -27,6 +27,7 @@
 #############################################################################*/
 #include "fisx_beam.h"
 #include <algorithm>
+#include <stdexcept>
 
 namespace fisx
 {
@@ -47,6 +48,13 @@ void Beam::setBeam(const std::vector<double> & energy, \
     int defaultCharacteristic;
     double defaultDivergency;
 
+    if (((weight.size() > 1) && (weight.size() < energy.size())) || \
+        ((characteristic.size() > 1) && (characteristic.size() < energy.size())) || \
+        ((divergency.size() > 1) && (divergency.size() < energy.size())))
+    {
+        throw std::invalid_argument("Beam: not enough values for the given energies");
+    }
+
     this->normalized = false;
 
     if(energy.size() > 0)
@@ -177,6 +185,12 @@ void Beam::setBeam(const int & nValues, const double *energy, const double *weig
     int i;
     std::vector<int> flags;
 
+    if (characteristic == NULL)
+    {
+        this->setBeam(nValues, energy, weight, (const int *) NULL, divergency);
+        return;
+    }
+
     flags.resize(nValues);
     for (i = 0; i < nValues; i++)
     {
-- 
2.43.0


From 7ee34193f4a5a527014790d2cdaa0edb99c138b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:56 +0000
Subject: [PATCH 20/38] fix: exponential integral at one

---
 src/fisx_math.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fisx_math.cpp b/src/fisx_math.cpp
index 7d3724a..2af7e7e 100644
--- a/src/fisx_math.cpp
+++ b/src/fisx_math.cpp
@@ -64,7 +64,7 @@ double Math::E1(const double & x)
         }
         return result - std::log(-x);
     }
-    if(x < 1)
+    if(x <= 1)
     {
         return Math::AS_5_1_53(x) - std::log(x);
     }
-- 
2.43.0


From 2de73dc1711f44008e46a9e69573ef153b419694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:50 +0000
Subject: [PATCH 21/38] fix: rational approximation of the exponential integral

---
 src/fisx_math.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fisx_math.cpp b/src/fisx_math.cpp
index 2af7e7e..a6799d0 100644
--- a/src/fisx_math.cpp
+++ b/src/fisx_math.cpp
@@ -145,9 +145,9 @@ double Math::AS_5_1_56(const double & x)
     {
 		throw std::invalid_argument("AS_5_1_56(x) Invalid argument. 1 <= x ");
     }
-    num = a[3] * x;
-    den = b[3] * x;
-    for (int i = 2; i >= 0; --i)
+    num = 1.0;
+    den = 1.0;
+    for (int i = 0; i < 4; ++i)
     {
         num = (num * x )+ a[i];
         den = (den * x )+ b[i];
-- 
2.43.0


From 99c6df1365ea01b4f1ce9d2b71ea727b9e6fa95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:01 +0000
Subject: [PATCH 22/38] fix: coefficient of the error function

---
 src/fisx_math.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fisx_math.cpp b/src/fisx_math.cpp
index a6799d0..3e4fc16 100644
--- a/src/fisx_math.cpp
+++ b/src/fisx_math.cpp
@@ -570,7 +570,7 @@ double Math::erf(const double & x)
 
     z = std::fabs(x);
     t = 1.0 / (1.0 + 0.5 * z);
-    r = t * std::exp(- z * z - 1.26551223 + t * (1.00002368 + t * (0.3740916 + \
+    r = t * std::exp(- z * z - 1.26551223 + t * (1.00002368 + t * (0.37409196 + \
         t * (0.09678418 + t * (-0.18628806 + t * (0.27886807 + t * (-1.13520398 + \
         t * (1.48851587 + t * (-0.82215223 + t * 0.17087277)))))))));
     if (x < 0)
@@ -588,7 +588,7 @@ double Math::erfc(const double & x)
 
     z = std::fabs(x);
     t = 1.0 / (1.0 + 0.5 * z);
-    r = t * std::exp(- z * z - 1.26551223 + t * (1.00002368 + t * (0.3740916 + \
+    r = t * std::exp(- z * z - 1.26551223 + t * (1.00002368 + t * (0.37409196 + \
         t * (0.09678418 + t * (-0.18628806 + t * (0.27886807 + t * (-1.13520398 + \
         t * (1.48851587 + t * (-0.82215223 + t * 0.17087277)))))))));
     if (x < 0)
-- 
2.43.0


From d5ef81b4b8dd943db4f1ff96e39998695423bf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:16 +0000
Subject: [PATCH 23/38] fix: do not extrapolate beyond the end of a
 photoelectric table without positive values

---
 src/fisx_element.cpp | 26 +++++++++++++++++---------
 src/fisx_epdl97.cpp  | 16 ++++++++++++++--
 2 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index 9e9b0a4..41085ad 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -782,11 +782,17 @@ std::map<std::string, double> \
                         // according to the binding energies, the shell is excited, but the
                         // respective mass attenuation is zero. We have to extrapolate
                         i1w = i1;
-                        while(y_it->second[i1w] <= 0.0)
+                        while(((i1w + 1) < (long) y_it->second.size()) && (y_it->second[i1w] <= 0.0))
                         {
                             i1w += 1;
                         }
                         i2w = i1w + 1;
+                        if (i2w >= (long) y_it->second.size())
+                        {
+                            // nothing to extrapolate from
+                            result[shell] = y_it->second[i1w];
+                            continue;
+                        }
                         y0 = y_it->second[i1w];
                         y1 = y_it->second[i2w];
                         x0w = c_it->second[i1w];
@@ -842,20 +848,22 @@ std::map<std::string, double> \
                     // respective mass attenuation is zero. We have to extrapolate
                     // std::cout << "case b2" << std::endl;
                     i1w = i1;
-                    while(y_it->second[i1w] <= 0.0)
+                    while(((i1w + 1) < (long) y_it->second.size()) && (y_it->second[i1w] <= 0.0))
                     {
                         i1w += 1;
                     }
-                    i2w = i1w + 1;
-                    x0w = c_it->second[i1w];
-                    x1w = c_it->second[i2w];
                     // check for duplicates
-                    if ((x1w - x0w) < 1.0E-10)
+                    if (((i1w + 1) < (long) y_it->second.size()) && \
+                        ((c_it->second[i1w + 1] - c_it->second[i1w]) < 1.0E-10))
                     {
                         i1w += 1;
-                        i2w += 1;
-                        x0w = c_it->second[i1w];
-                        x1w = c_it->second[i2w];
+                    }
+                    i2w = i1w + 1;
+                    if (i2w >= (long) y_it->second.size())
+                    {
+                        // nothing to extrapolate from
+                        result[shell] = y_it->second[i1w];
+                        continue;
                     }
                     y0 = y_it->second[i1w];
                     y1 = y_it->second[i2w];
diff --git a/src/fisx_epdl97.cpp b/src/fisx_epdl97.cpp
index 617a18d..8bf4c30 100644
--- a/src/fisx_epdl97.cpp
+++ b/src/fisx_epdl97.cpp
@@ -488,11 +488,17 @@ std::map<std::string, double> EPDL97::getMassAttenuationCoefficients(const int &
                                 // according to the binding energies, the shell is excited, but the
                                 // respective mass attenuation is zero. We have to extrapolate
                                 i1w = i1;
-                                while((*pVector)[i1w][idx] <= 0.0)
+                                while(((i1w + 1) < (long) pVector->size()) && ((*pVector)[i1w][idx] <= 0.0))
                                 {
                                     i1w += 1;
                                 }
                                 i2w = i1w + 1;
+                                if (i2w >= (long) pVector->size())
+                                {
+                                    // nothing to extrapolate from
+                                    result[key] = (*pVector)[i1w][idx];
+                                    continue;
+                                }
                                 y0 = (*pVector)[i1w][idx];
                                 y1 = (*pVector)[i2w][idx];
                                 x0w = this->muEnergy[zHelp][i1w];
@@ -576,11 +582,17 @@ std::map<std::string, double> EPDL97::getMassAttenuationCoefficients(const int &
                         // extrapolation case
                         // We are forcing EPDL97 to respect a given set of binding energies
                         i1w = i1;
-                        while((*pVector)[i1w][idx] <= 0.0)
+                        while(((i1w + 1) < (long) pVector->size()) && ((*pVector)[i1w][idx] <= 0.0))
                         {
                             i1w += 1;
                         }
                         i2w = i1w + 1;
+                        if (i2w >= (long) pVector->size())
+                        {
+                            // nothing to extrapolate from
+                            result[key] = (*pVector)[i1w][idx];
+                            continue;
+                        }
                         y0 = (*pVector)[i1w][idx];
                         y1 = (*pVector)[i2w][idx];
                         x0w = this->muEnergy[zHelp][i1w];
-- 
2.43.0


From 7d407dc15fa6cc3f6ba80a09e59cca8ba1d56416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:52 +0000
Subject: [PATCH 24/38] fix: initialize the reference layer of a new
 configuration

---
 src/fisx_xrfconfig.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fisx_xrfconfig.cpp b/src/fisx_xrfconfig.cpp
index 8ab7c3a..6cf468f 100644
--- a/src/fisx_xrfconfig.cpp
+++ b/src/fisx_xrfconfig.cpp
@@ -37,6 +37,7 @@ namespace fisx
 XRFConfig::XRFConfig()
 {
     this->setGeometry(45.0, 45.0, 90.);
+    this->referenceLayer = 0;
 }
 
 void XRFConfig::setGeometry(const double & alphaIn, const double & alphaOut, const double & scatteringAngle)
-- 
2.43.0


From ecae8736ba7abfb4eca3c7f5f6d3bbe3b1e415ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:52 +0000
Subject: [PATCH 25/38] fix: do not read past the end of the beam lists of a
 configuration file

---
 src/fisx_xrfconfig.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fisx_xrfconfig.cpp b/src/fisx_xrfconfig.cpp
index 6cf468f..6ec0e9a 100644
--- a/src/fisx_xrfconfig.cpp
+++ b/src/fisx_xrfconfig.cpp
@@ -144,6 +144,13 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
         std::fill(flagVector.begin(), flagVector.end(), 1);
     }
 
+    if ((flagVector.size() > mapDoubles["energy"].size()) || \
+        (flagVector.size() > mapDoubles["weight"].size()) || \
+        (flagVector.size() > intVector.size()))
+    {
+        throw std::invalid_argument("Number of energy flags larger than number of energies, weights or scatter flags");
+    }
+
     counter = 0;
     iIntVector = flagVector.size();
     while(iIntVector > 0)
-- 
2.43.0


From a29888efa49f791f87f049e3f03275a0c8bf2dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:52 +0000
Subject: [PATCH 26/38] fix: refuse materials and transmission tables without
 name in a configuration file

---
 src/fisx_xrfconfig.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/fisx_xrfconfig.cpp b/src/fisx_xrfconfig.cpp
index 6ec0e9a..09adc89 100644
--- a/src/fisx_xrfconfig.cpp
+++ b/src/fisx_xrfconfig.cpp
@@ -206,6 +206,10 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
                                             splitString,
                                             std::string(),
                                             '.');
+            if (splitString.size() < 2)
+            {
+                throw std::invalid_argument("Section without name <" + stringVector[iStringVector] + ">");
+            }
             // nothing of a previous material is to be used
             density = 1.0;
             thickness = 1.0;
@@ -269,6 +273,10 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
                                             splitString,
                                             std::string(),
                                             '.');
+            if (splitString.size() < 2)
+            {
+                throw std::invalid_argument("Section without name <" + stringVector[iStringVector] + ">");
+            }
             useFlag = 0.0;
             comment = "";
             energyList.clear();
@@ -327,6 +335,10 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
                                             splitString,
                                             std::string(),
                                             '.');
+            if (splitString.size() < 2)
+            {
+                throw std::invalid_argument("Section without name <" + stringVector[iStringVector] + ">");
+            }
             useFlag = 0.0;
             comment = "";
             energyList.clear();
-- 
2.43.0


From 0d0c51108c1aafd1b1789c5d75a70639f25e9ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:52 +0000
Subject: [PATCH 27/38] fix: refuse incomplete attenuator and layer lines of a
 configuration file

---
 src/fisx_xrfconfig.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fisx_xrfconfig.cpp b/src/fisx_xrfconfig.cpp
index 09adc89..489b475 100644
--- a/src/fisx_xrfconfig.cpp
+++ b/src/fisx_xrfconfig.cpp
@@ -401,6 +401,10 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
         }
         if (doubleVector[0] > 0.0)
         {
+            if (doubleVector.size() < 5)
+            {
+                throw std::invalid_argument("Not enough values in attenuators section <" + c_it->first + ">");
+            }
             if (c_it->first.substr(0, c_it->first.size() - 1) == "BeamFilter")
             {
                 // BeamFilter0 = 0, -, 0.0, 0.0, 1.0
@@ -507,6 +511,10 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
             }
             if (doubleVector[0] > 0.0)
             {
+                    if (doubleVector.size() < 4)
+                    {
+                        throw std::invalid_argument("Not enough values in multilayer section <" + c_it->first + ">");
+                    }
                     //BeamFilter0 = 0, -, 0.0, 0.0, 1.0
                     layer = Layer(c_it->first, doubleVector[2], doubleVector[3]);
                     layer.setMaterial(stringVector[1]);
-- 
2.43.0


From f1c15eb85fd11d92b29b47079b4700925d95c83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:52 +0000
Subject: [PATCH 28/38] fix: refuse a layer index beyond the sample in
 getGeometricEfficiency

---
 src/fisx_xrf.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fisx_xrf.cpp b/src/fisx_xrf.cpp
index ca652ab..5b083a3 100644
--- a/src/fisx_xrf.cpp
+++ b/src/fisx_xrf.cpp
@@ -167,6 +167,10 @@ double XRF::getGeometricEfficiency(const int & sampleLayerIndex) const
         std::cout << "Negative sample layer index in getGeometricEfficiency " << sampleLayerIndex << std::endl;
         throw std::invalid_argument("Negative sample layer index in getGeometricEfficiency");
     }
+    if ((sampleLayerIndex > 0) && (sampleLayerIndex >= (int) sample.size()))
+    {
+        throw std::invalid_argument("Sample layer index out of range in getGeometricEfficiency");
+    }
     if (sampleLayerIndex != referenceLayerIndex)
     {
         if (sampleLayerIndex > referenceLayerIndex)
-- 
2.43.0


From 207d6f9a8c3ae4584009de0a5c9f6de07de2beef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:05 +0000
Subject: [PATCH 29/38] fix: refuse lists of different length in
 getMultilayerFluorescence

---
 src/fisx_multilayer.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/fisx_multilayer.cpp b/src/fisx_multilayer.cpp
index 1db398e..cb8b80f 100644
--- a/src/fisx_multilayer.cpp
+++ b/src/fisx_multilayer.cpp
@@ -48,6 +48,15 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
                                                const double & secondaryCalculationLimit, \
                                                const Beam & overwritingBeam) const
 {
+    if (familyList.size() != elementList.size())
+    {
+        throw std::invalid_argument("Number of families different from number of elements");
+    }
+    if ((elementList.size() > 0) && (layerList.size() != 1) && (layerList.size() != elementList.size()))
+    {
+        throw std::invalid_argument("Number of layer indices must be one or the number of elements");
+    }
+
     // get all the needed configuration
     std::vector<std::vector<double> >actualRays = overwritingBeam.getBeamAsDoubleVectors();
     if (actualRays[0].size() < 1)
-- 
2.43.0


From d063239f4813ab1d27bbeb3015a522d7b2541237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:06 +0000
Subject: [PATCH 30/38] fix: do not add empty layers to the results when
 considering tertiary excitation

---
 src/fisx_multilayer.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/fisx_multilayer.cpp b/src/fisx_multilayer.cpp
index cb8b80f..2902a55 100644
--- a/src/fisx_multilayer.cpp
+++ b/src/fisx_multilayer.cpp
@@ -1122,8 +1122,13 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
         for (actualResultIt = actualResult.begin(); actualResultIt != actualResult.end(); ++actualResultIt)
         {
             ele = actualResultIt->first.substr(0, actualResultIt->first.find(' '));
-            for (iLayer = 0; iLayer < actualResultIt->second.size(); iLayer++)
+            for (iLayer = 0; iLayer < sample.size(); iLayer++)
             {
+                if (actualResultIt->second.find(iLayer) == actualResultIt->second.end())
+                {
+                    // layer not calculated
+                    continue;
+                }
                 for (it = actualResultIt->second[iLayer].begin(); \
                      it != actualResultIt->second[iLayer].end(); ++it)
                 {
@@ -1165,8 +1170,13 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
 
         for (actualResultIt = actualResult.begin(); actualResultIt != actualResult.end(); ++actualResultIt)
         {
-            for (iLayer = 0; iLayer < actualResultIt->second.size(); iLayer++)
+            for (iLayer = 0; iLayer < sample.size(); iLayer++)
             {
+                if (actualResultIt->second.find(iLayer) == actualResultIt->second.end())
+                {
+                    // layer not calculated
+                    continue;
+                }
                 for (it = actualResultIt->second[iLayer].begin(); \
                      it != actualResultIt->second[iLayer].end(); ++it)
                 {
-- 
2.43.0


From fedff3ed562ec253cc5a083076f7ed4f46cd46a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:41 +0000
Subject: [PATCH 31/38] fix: exponential integral of large negative arguments

---
 src/fisx_math.cpp | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/fisx_math.cpp b/src/fisx_math.cpp
index 3e4fc16..5c4796b 100644
--- a/src/fisx_math.cpp
+++ b/src/fisx_math.cpp
@@ -52,15 +52,25 @@ double Math::E1(const double & x)
         //
         //
         // Euler's gamma = 0.577215664901532860;
-        // I decide to evaluate just 10 terms of the series
+        // All the terms of the sum have the same sign. It is evaluated till convergence.
         //
-        // TODO: Unroll the loop with n * factorial(n) already computed.
         double result;
-        double factorial[11] = {1.0, 1.0, 2.0, 6.0, 24., 120.0, 720., 5040., 40320., 362880., 3628800.};
+        double term, contribution;
+        if (x < -40.0)
+        {
+            return std::exp(-x) * Math::deBoerD(x);
+        }
         result = -0.577215664901532860;
-        for(int n = 10; n > 0; --n)
+        term = 1.0;
+        for(int n = 1; n < 200; ++n)
         {
-            result -= pow(-x, n) /(n * factorial[n]);
+            term *= -x / n;
+            contribution = term / n;
+            result -= contribution;
+            if (contribution < 1.0e-17)
+            {
+                break;
+            }
         }
         return result - std::log(-x);
     }
@@ -158,6 +168,19 @@ double Math::AS_5_1_56(const double & x)
 
 double Math::deBoerD(const double & x)
 {
+    if (x < -40.0)
+    {
+        // AS 5.1.51 Asymptotic expansion (exp(-x) can overflow)
+        double result, term;
+        result = 1.0;
+        term = 1.0;
+        for (int n = 1; n < 30; ++n)
+        {
+            term *= -n / x;
+            result += term;
+        }
+        return result / x;
+    }
 
 #ifndef NDEBUG
     // AS 5.1.19
-- 
2.43.0


From db4f0c6e249114837ed04ad07b389d3e569de194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:30 +0000
Subject: [PATCH 32/38] fix: secondary excitation by layers stopping the
 incident beam

---
 src/fisx_multilayer.cpp | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/fisx_multilayer.cpp b/src/fisx_multilayer.cpp
index 2902a55..2a7d255 100644
--- a/src/fisx_multilayer.cpp
+++ b/src/fisx_multilayer.cpp
@@ -905,8 +905,6 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
                             if (iLayer > jLayer)
                             {
                                 // interlayer case b)
-                                double layerFactor;
-                                layerFactor = std::exp(-mu_2_lambda * density_2 * thickness_2/sinAlphaIn);
                                 /*
                                 This test has been removed in favour of the one dealing with the relative
                                 weights of each layer. Indeed, the relative amount of secondary excitation
@@ -1004,23 +1002,29 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
 
                                             bLayer++;
                                         }
-                                        tmpDouble = layerFactor * sampleLayerRates[jLayer][iLambda];
+                                        double deBoerP;
+                                        double mu_2_j_d_t;
+                                        deBoerP = -mu_2_lambda/sinAlphaIn;
                                         if ((mu_2_lambda/sinAlphaIn) == mu_2_j)
-                                            tmpDouble *= Math::deBoerX(-mu_2_lambda/(0.99999*sinAlphaIn), \
-                                                                  -mu_1_i/sinAlphaOut, \
-                                                                  density_1 * thickness_1, \
-                                                                  density_2 * thickness_2, \
-                                                                  mu_1_j, \
-                                                                  mu_2_j, \
-                                                                  mu_b_j_d_t);
-                                        else
-                                            tmpDouble *= Math::deBoerX(-mu_2_lambda/sinAlphaIn, \
-                                                                  -mu_1_i/sinAlphaOut, \
-                                                                  density_1 * thickness_1, \
-                                                                  density_2 * thickness_2, \
-                                                                  mu_1_j, \
-                                                                  mu_2_j, \
-                                                                  mu_b_j_d_t);
+                                            deBoerP = -mu_2_lambda/(0.99999*sinAlphaIn);
+                                        // Attenuation of the beam by that layer times Math::deBoerX, X would overflow in the
+                                        // case of layers stopping the beam. It is avoided taking into account that
+                                        // exp(p * d2) * V(p, q, d1, d2, db) = V(p, q, d1, 0, db + mu2j * d2)
+                                        mu_2_j_d_t = mu_b_j_d_t + mu_2_j * density_2 * thickness_2;
+                                        tmpDouble = Math::deBoerV(deBoerP, -mu_1_i/sinAlphaOut, \
+                                                                  density_1 * thickness_1, 0.0, \
+                                                                  mu_1_j, mu_2_j, mu_2_j_d_t) - \
+                                                    Math::deBoerV(deBoerP, -mu_1_i/sinAlphaOut, \
+                                                                  0.0, 0.0, \
+                                                                  mu_1_j, mu_2_j, mu_2_j_d_t) - \
+                                                    std::exp(deBoerP * density_2 * thickness_2) * \
+                                                    (Math::deBoerV(deBoerP, -mu_1_i/sinAlphaOut, \
+                                                                  density_1 * thickness_1, 0.0, \
+                                                                  mu_1_j, mu_2_j, mu_b_j_d_t) - \
+                                                    Math::deBoerV(deBoerP, -mu_1_i/sinAlphaOut, \
+                                                                  0.0, 0.0, \
+                                                                  mu_1_j, mu_2_j, mu_b_j_d_t));
+                                        tmpDouble *= sampleLayerRates[jLayer][iLambda];
                                         tmpDouble *= elementMassFractionFactor * (0.5/sinAlphaIn);
                                         tmpDouble *= tmpExcitationFactors[c_it->first]["rate"];
                                         tmpStringStream.str(std::string());
-- 
2.43.0


From 31000bbba9e1b89e9b58cfe1ece04da7ca984eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:56 +0000
Subject: [PATCH 33/38] fix: do not count several times a peak family requested
 several times

---
 src/fisx_multilayer.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/fisx_multilayer.cpp b/src/fisx_multilayer.cpp
index 2a7d255..19de189 100644
--- a/src/fisx_multilayer.cpp
+++ b/src/fisx_multilayer.cpp
@@ -479,6 +479,19 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
                     // no need to calculate this layer
                     continue;
                 }
+                // a peak family requested several times has to be counted just once
+                bool alreadyCalculated = false;
+                for (std::vector<std::string>::size_type iPrevious = 0; iPrevious < iElement; iPrevious++)
+                {
+                    if ((elementList[iPrevious] == elementName) && (familyList[iPrevious] == lineFamily))
+                    {
+                        int previousLayer = (layerList.size() > 1) ? layerList[iPrevious] : layerList[0];
+                        if ((previousLayer < 0) || ((int) iLayer == previousLayer))
+                            alreadyCalculated = true;
+                    }
+                }
+                if (alreadyCalculated)
+                    continue;
                 elementMassFractionFactor = 1.0;
                 if(true)
                 {
-- 
2.43.0


From 6fab3e41335a2e4dfe22ecac1f9c211ba6ec1cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:24 +0000
Subject: [PATCH 34/38] fix: geometry of an earlier file does not remain when a
 file gives none

---
 src/fisx_xrfconfig.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fisx_xrfconfig.cpp b/src/fisx_xrfconfig.cpp
index 489b475..5274dc6 100644
--- a/src/fisx_xrfconfig.cpp
+++ b/src/fisx_xrfconfig.cpp
@@ -386,6 +386,7 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
     this->attenuators.clear();
     this->sample.clear();
     this->detector = Detector();
+    this->setGeometry(45.0, 45.0, 90.0);
     multilayerSample = false;
     for (c_it = sectionContents.begin(); c_it != sectionContents.end(); ++c_it)
     {
-- 
2.43.0


From fdf957a8832f3f35f84e9e85154683909075afa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:14 +0000
Subject: [PATCH 35/38] fix: shells without photoelectric coefficients and
 tables of a single energy

---
 src/fisx_element.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index 41085ad..e9cdb49 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -723,6 +723,11 @@ std::map<std::string, double> \
         }
         c_it = this->muPartialPhotoelectricEnergy.find(shell);
         y_it = this->muPartialPhotoelectricValue.find(shell);
+        if (c_it->second.size() < 1)
+        {
+            // shell without coefficients
+            continue;
+        }
         indices = this->getInterpolationIndices(c_it->second, energy);
         i1 = indices.first;
         i2 = indices.second;
@@ -1582,6 +1587,14 @@ std::pair<long, long> Element::getInterpolationIndices(const std::vector<double>
     std::pair<long, long> result;
     std::vector<double>::const_iterator c_it;
 
+    if (vec.size() < 2)
+    {
+        // there is nothing to interpolate with
+        result.first = 0;
+        result.second = 0;
+        return result;
+    }
+
     c_it = std::lower_bound(vec.begin(), vec.end(), x);
 
     if (c_it == vec.end())
-- 
2.43.0


From 27000de603bb117d8d321a209124bd5c0937b1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:35 +0000
Subject: [PATCH 36/38] fix: data files with more elements than the library

---
 src/fisx_elements.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 3e17e5b..d0fd991 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -392,6 +392,11 @@ void Elements::setShellConstantsFile(const std::string & mainShellName, \
             msg = "Number of values does not match number of labels in " + fileName;
             throw std::ios_base::failure(msg);
         }
+        if (tmpValues.size() > this->elementList.size())
+        {
+            msg = "More rows than defined elements in " + fileName;
+            throw std::ios_base::failure(msg);
+        }
         tmpDict.clear();
         for (n = 0; n < tmpValues.size(); n++)
         {
@@ -502,6 +507,11 @@ void Elements::setShellNonradiativeTransitionsFile(const std::string & mainShell
             msg = "Number of values does not match number of labels in " + fileName;
             throw std::ios_base::failure(msg);
         }
+        if (tmpValues.size() > this->elementList.size())
+        {
+            msg = "More rows than defined elements in " + fileName;
+            throw std::ios_base::failure(msg);
+        }
         tmpDict.clear();
         for (n = 0; n < tmpValues.size(); n++)
         {
@@ -600,6 +610,11 @@ void Elements::setShellRadiativeTransitionsFile(const std::string & mainShellNam
             msg = "Number of values does not match number of labels in " + fileName;
             throw std::ios_base::failure(msg);
         }
+        if (tmpValues.size() > this->elementList.size())
+        {
+            msg = "More rows than defined elements in " + fileName;
+            throw std::ios_base::failure(msg);
+        }
         tmpDict.clear();
         for (n = 0; n < tmpValues.size(); n++)
         {
@@ -642,6 +657,10 @@ void Elements::setMassAttenuationCoefficientsFile(const std::string & fileName)
     {
         throw std::ios_base::failure("No scans found in file!");
     }
+    if (nScans > (int) this->elementList.size())
+    {
+        throw std::ios_base::failure("More scans than defined elements in file!");
+    }
 
     for (n = 0; n < nScans; n++)
     {
-- 
2.43.0


From 07ed10025be915689b029107e7135b9e39eefb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:45 +0000
Subject: [PATCH 37/38] fix: refuse data files with scans without data or with
 missing columns

---
 src/fisx_elements.cpp |  4 ++++
 src/fisx_epdl97.cpp   | 12 ++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index d0fd991..00aa7d1 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -666,6 +666,10 @@ void Elements::setMassAttenuationCoefficientsFile(const std::string & fileName)
     {
         labels = sf.getScanLabels(n);
         data = sf.getScanData(n);
+        if ((data.size() < 1) || (data[0].size() < labels.size()))
+        {
+            throw std::ios_base::failure("Number of values does not match number of labels in file!");
+        }
         muEnergy.clear();
         muPhotoelectric.clear();
         muCoherent.clear();
diff --git a/src/fisx_epdl97.cpp b/src/fisx_epdl97.cpp
index 8bf4c30..e013def 100644
--- a/src/fisx_epdl97.cpp
+++ b/src/fisx_epdl97.cpp
@@ -134,6 +134,10 @@ void EPDL97::loadBindingEnergies(std::string fileName)
     tmpLabels = sf.getScanLabels(0);
     tmpValues = sf.getScanData(0);
     nLabels = tmpLabels.size();
+    if (tmpValues.size() < 1)
+    {
+        throw std::ios_base::failure("EPDL97: No binding energies in file " + fileName);
+    }
     if (tmpValues[0].size() != nLabels)
     {
         std::cout << fileName;
@@ -283,6 +287,14 @@ void EPDL97::loadCrossSections(std::string fileName)
         }
         // read the data
         this->muInputValues[i] = sf.getScanData(i);
+        if (this->muInputValues[i].size() < 1)
+        {
+            throw std::ios_base::failure("EPDL97: Scan without cross sections in file " + fileName);
+        }
+        if (this->muInputValues[i][0].size() != nLabels)
+        {
+            throw std::ios_base::failure("EPDL97: Number of values does not match number of labels");
+        }
         this->muEnergy[i].resize(this->muInputValues[i].size());
         for (j = 0; j < this->muInputValues[i].size(); j++)
         {
-- 
2.43.0


From a40f956447a4ed11ab5630150c20694fc6bb281a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:51 +0000
Subject: [PATCH 38/38] fix: refuse materials defined in terms of themselves

---
 src/fisx_elements.cpp | 28 ++++++++++++++++++++++++++--
 src/fisx_elements.h   |  7 +++++++
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 00aa7d1..d9832c7 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -1380,6 +1380,12 @@ void Elements::removeMaterials()
 }
 
 std::map<std::string, double> Elements::getComposition(const std::string & name) const
+{
+    return this->getNestedComposition(name, 0);
+}
+
+std::map<std::string, double> Elements::getNestedComposition(const std::string & name, \
+                                                    const std::vector<Material>::size_type & level) const
 {
     std::string msg;
     std::map<std::string, double> result;
@@ -1404,6 +1410,12 @@ std::map<std::string, double> Elements::getComposition(const std::string & name)
         // result at this point must be empty, we can send it back.
         return result;
     }
+    if (level >= this->materialList.size())
+    {
+        // more nested materials than materials: one of them contains itself
+        msg = "Material " + name + " is defined in terms of itself";
+        throw std::invalid_argument(msg);
+    }
 
     // make sure we give back the elemental material composition
     tmpResult = this->materialList[i].getComposition();
@@ -1428,7 +1440,7 @@ std::map<std::string, double> Elements::getComposition(const std::string & name)
     // now, a material can be made of formulas, elements or other materials.
     for (c_it = tmpResult.begin(); c_it != tmpResult.end(); ++c_it)
     {
-        composition = this->getComposition(c_it->first);
+        composition = this->getNestedComposition(c_it->first, level + 1);
         if (composition.size() < 1)
         {
             return composition;
@@ -1485,6 +1497,13 @@ std::map<std::string, double> Elements::getComposition(const std::map<std::strin
 
 std::map<std::string, double> Elements::getComposition(const std::string & name, \
                                                  const std::vector<Material> & additionalMaterials) const
+{
+    return this->getNestedComposition(name, additionalMaterials, 0);
+}
+
+std::map<std::string, double> Elements::getNestedComposition(const std::string & name, \
+                                                 const std::vector<Material> & additionalMaterials, \
+                                                 const std::vector<Material>::size_type & level) const
 {
     std::vector<Material>::size_type i;
     std::map<std::string, double> result;
@@ -1522,6 +1541,11 @@ std::map<std::string, double> Elements::getComposition(const std::string & name,
     }
     else
     {
+        if (level >= additionalMaterials.size())
+        {
+            // more nested materials than materials: one of them contains itself
+            throw std::invalid_argument("Material " + name + " is defined in terms of itself");
+        }
         tmpResult =  additionalMaterials[i].getComposition();
     }
     if (tmpResult.size() < 1)
@@ -1535,7 +1559,7 @@ std::map<std::string, double> Elements::getComposition(const std::string & name,
     // supplied list and a material can be made of formulas, elements or other materials.
     for (c_it = tmpResult.begin(); c_it != tmpResult.end(); ++c_it)
     {
-        composition = this->getComposition(c_it->first, additionalMaterials);
+        composition = this->getNestedComposition(c_it->first, additionalMaterials, level + 1);
         if (composition.size() < 1)
         {
             return composition;
diff --git a/src/fisx_elements.h b/src/fisx_elements.h
index 73e590d..8532ef3 100644
--- a/src/fisx_elements.h
+++ b/src/fisx_elements.h
@@ -591,6 +591,13 @@ private:
     // Utility function
     const std::vector<Material>::size_type getMaterialIndexFromName(const std::string & name) const;
 
+    // Composition of a material found at a given level of nesting
+    std::map<std::string, double> getNestedComposition(const std::string & name, \
+                                                       const std::vector<Material>::size_type & level) const;
+    std::map<std::string, double> getNestedComposition(const std::string & name, \
+                                                       const std::vector<Material> & materials, \
+                                                       const std::vector<Material>::size_type & level) const;
+
     // The files used for configuring the library
     std::map<std::string, std::string> shellConstantsFile;
     std::map<std::string, std::string> shellRadiativeTransitionsFile;
-- 
2.43.0


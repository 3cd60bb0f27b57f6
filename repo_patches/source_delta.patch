From 8c8ccdfdd51f317ae51098e711bbedd7d9c15bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 01/32] fix: count: do not free the cones twice when not saving
 memory

---
 code/latte/count.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/latte/count.cpp b/code/latte/count.cpp
index cc02803..00250a1 100644
--- a/code/latte/count.cpp
+++ b/code/latte/count.cpp
@@ -662,6 +662,7 @@ CountAnswerContainer mainCountDriver(int argc, char *argv[])
 			{
 				cerr << "Starting final computation.\n";
 				ZZ number = Residue(Poly->cones, Poly->numOfVars);
+				Poly->cones = NULL; // freed by Residue
 				params->deliver_number_of_lattice_points(number);
 				countAnswerContainer.numLaticePoints = number;
 			}
-- 
2.43.0


From d68e77a0f6667ba045519047fda792227884e8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 02/32] fix: maximize, minimize, ehrhart: do not run the
 emptiness check for LattE files on a cdd file

---
 code/latte/ehrhart.cpp  | 2 +-
 code/latte/maximize.cpp | 2 +-
 code/latte/minimize.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/latte/ehrhart.cpp b/code/latte/ehrhart.cpp
index 400cfa9..0c49922 100644
--- a/code/latte/ehrhart.cpp
+++ b/code/latte/ehrhart.cpp
@@ -296,7 +296,7 @@ int main(int argc, char *argv[]) {
       CheckInputFileCDDRep4(argv[argc - 1]);
       }
   }else CheckInputFileVrep(fileName);
-    CheckEmpty(fileName);
+    if(cddstyle[0] == 'n') CheckEmpty(fileName);
   //vector cost;
   /* Read problem data. */
   if((cddstyle[0] == 'n') && (Vrepresentation[0] == 'n'))
diff --git a/code/latte/maximize.cpp b/code/latte/maximize.cpp
index 4969c60..c1f1186 100644
--- a/code/latte/maximize.cpp
+++ b/code/latte/maximize.cpp
@@ -236,7 +236,7 @@ int main(int argc, char *argv[]) {
       CheckInputFileCDDRep4(argv[argc - 1]);
       }
   }else CheckInputFileVrep(fileName);
-    CheckEmpty(fileName);
+    if(cddstyle[0] == 'n') CheckEmpty(fileName);
   //vector cost;
   /* Read problem data. */
   if((cddstyle[0] == 'n') && (Vrepresentation[0] == 'n')) CheckRed(fileName, equationsPresent, maximum, nonneg, interior, dilation, dilation_const); 
diff --git a/code/latte/minimize.cpp b/code/latte/minimize.cpp
index 1935304..5a8a4fd 100644
--- a/code/latte/minimize.cpp
+++ b/code/latte/minimize.cpp
@@ -236,7 +236,7 @@ int main(int argc, char *argv[]) {
       CheckInputFileCDDRep4(argv[argc - 1]);
       }
   }else CheckInputFileVrep(fileName);
-    CheckEmpty(fileName);
+    if(cddstyle[0] == 'n') CheckEmpty(fileName);
   //vec_ZZ cost;
   /* Read problem data. */
 
-- 
2.43.0


From 8a28fab583ebfd688bdc52510d9087cad6c1dc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:26 +0000
Subject: [PATCH 03/32] fix: binary search: print the minimum, not its
 negative, when the LP bound is attained

---
 code/latte/binarySearchIP.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/latte/binarySearchIP.cpp b/code/latte/binarySearchIP.cpp
index 24d80af..4651da0 100644
--- a/code/latte/binarySearchIP.cpp
+++ b/code/latte/binarySearchIP.cpp
@@ -298,7 +298,9 @@ ZZ binarySearch(listVector* matrix, listVector* ineq, vec_ZZ cost, int numOfVars
       }
 
       if(IsZero(Opt) == 0){
-        cerr << "The optimal value: " << high - 1 << endl << endl;
+        high -= 1;
+        if(min[0] == 'y') high = -high;
+        cerr << "The optimal value: " << high << endl << endl;
 	return Opt;
 	}
        else{
-- 
2.43.0


From a2512371bef26edab8e7190fb5ed2c06fb60ed01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:50 +0000
Subject: [PATCH 04/32] fix: binary search: accept the 0 that count stores for
 an empty polytope

---
 code/latte/binarySearchIP.cpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/code/latte/binarySearchIP.cpp b/code/latte/binarySearchIP.cpp
index 4651da0..58a1acc 100644
--- a/code/latte/binarySearchIP.cpp
+++ b/code/latte/binarySearchIP.cpp
@@ -159,13 +159,32 @@ void createLatteFileEqu(listVector* matrix, listVector* ineq, int numOfVars, ZZ
 }
 /* ----------------------------------------------------------------- */
 
+/* Run count on `latte_BS'.  It stores the number of lattice points in
+   `numOfLatticePoints'; on an empty polytope it does so as well, but
+   returns with a nonzero exit status. */
+static void
+run_count(const string &prefix)
+{
+  string command = prefix
+    + shell_quote(relocated_pathname(string(INSTALLPREFIX) + "/bin/count"))
+    + " latte_BS > latte_BS.out";
+  system_with_error_check("rm -f numOfLatticePoints");
+  int status = system(command.c_str());
+  ifstream result("numOfLatticePoints");
+  if (!result) {
+    cerr << "Command `" << command << "' returned with exit status "
+	 << status << "." << endl;
+    exit(1);
+  }
+}
+
 ZZ OptimalCheckEqu(listVector* matrix, listVector* ineq, int numOfVars, ZZ rhs, vec_ZZ lhs)
 {
   ZZ NumOfLatticePoints;
 
   //system_with_error_check("rm numOfLatticePoints");
   createLatteFileEqu(matrix, ineq, numOfVars + 1, rhs, lhs);
-  system_with_error_check(shell_quote(relocated_pathname(string(INSTALLPREFIX) + "/bin/count")) + " latte_BS > latte_BS.out");
+  run_count("");
 
   ifstream in("numOfLatticePoints");
   in >> NumOfLatticePoints;
@@ -218,9 +237,9 @@ ZZ OptimalCheck(listVector* matrix, listVector* ineq, int numOfVars, ZZ rhs, vec
   //system_with_error_check("rm -f numOfLatticePoints");
   createLatteFile(matrix, ineq, numOfVars + 1, rhs, lhs);
   if(lengthListVector(matrix) != 0)
-    system_with_error_check("time " + shell_quote(relocated_pathname(string(INSTALLPREFIX) + "/bin/count")) + " latte_BS > latte_BS.out");
+    run_count("time ");
   else
-    system_with_error_check("time " + shell_quote(relocated_pathname(string(INSTALLPREFIX) + "/bin/count")) + " latte_BS > latte_BS.out");
+    run_count("time ");
 
   ifstream in("numOfLatticePoints");
   in >> NumOfLatticePoints;
-- 
2.43.0


From fbcc012d6fe0f8a1575630008313756d9c3282ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:01 +0000
Subject: [PATCH 05/32] fix: count: dilate the equations too, before solving
 them

---
 code/latte/ReadPolyhedron.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/code/latte/ReadPolyhedron.cpp b/code/latte/ReadPolyhedron.cpp
index 78ce1ac..8ce196b 100644
--- a/code/latte/ReadPolyhedron.cpp
+++ b/code/latte/ReadPolyhedron.cpp
@@ -767,8 +767,12 @@ listVector * ReadPolyhedronData::projectOutVariables(dd_MatrixPtr &M, int &numOf
 	if (equationsPresent[0] == 'y') {
 		{
 			vec_ZZ *generators = NULL;
+			/* Dilate first: the dilated equations may have integer
+			   solutions even if the given ones have none. */
+			dilateListVector(equations, numOfVars, dilation_const);
+			dilateListVector(inequalities, numOfVars, dilation_const);
 			matrixTmp = preprocessProblem(equations, inequalities, &generators,
-					&numOfVars, cost, ProjU, interior, dilation_const);
+					&numOfVars, cost, ProjU, interior, 1);
 			if (generators)
 				delete[] generators;
 		}
-- 
2.43.0


From f59a7b00bf94c558846f3edb5f6c4b979201ee58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:01 +0000
Subject: [PATCH 06/32] fix: vertex cones with 4ti2: report a polyhedron
 containing a line as unbounded instead of aborting

---
 code/latte/VertexConesWith4ti2.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/code/latte/VertexConesWith4ti2.cpp b/code/latte/VertexConesWith4ti2.cpp
index 687edfd..f743b98 100644
--- a/code/latte/VertexConesWith4ti2.cpp
+++ b/code/latte/VertexConesWith4ti2.cpp
@@ -29,6 +29,7 @@
 #include "VertexConesWith4ti2.h"
 #include "dual.h"
 #include "DualizationWith4ti2.h"
+#include "LattException.h"
 
 #include "print.h"
 
@@ -88,9 +89,11 @@ computeVertexConesWith4ti2(listVector* ineqs, int numOfVars,
   }
 #endif
   
-  assert(subspace->get_number() == 0); /* We assume polytopes,
-					  thus a pointed
-					  homogenization */
+  if (subspace->get_number() != 0) {
+    /* We assume polytopes, thus a pointed homogenization. */
+    cerr << "The polyhedron is unbounded (it contains a line)." << endl;
+    THROW_LATTE(LattException::pe_Unbounded, 0);
+  }
   delete matrix;
   delete subspace;
   
-- 
2.43.0


From dd5b4595894244a0da60411fe7b656d05a2d60e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:57 +0000
Subject: [PATCH 07/32] fix: maximize, minimize: keep the scale of the
 perturbed cost positive

---
 code/latte/ConeInfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/latte/ConeInfo.cpp b/code/latte/ConeInfo.cpp
index 886ca84..588a304 100644
--- a/code/latte/ConeInfo.cpp
+++ b/code/latte/ConeInfo.cpp
@@ -1462,7 +1462,7 @@ vec_ZZ	Calculate_Pertubation (listCone *cones, vec_ZZ *Cost, int Mod_Value, int
 				if (tmpVector->first[i] >= 0 && tmpVector->first[i] > Maximum_Coordinate)
 					Maximum_Coordinate = tmpVector->first[i];
 				if (tmpVector->first[i] <= 0 && -1* tmpVector->first[i] > Maximum_Coordinate)
-					Maximum_Coordinate = tmpVector->first[i];
+					Maximum_Coordinate = -1 * tmpVector->first[i];
 
 		
 			}
-- 
2.43.0


From cd73d5e08639718a63b2f573904810aaf122ece5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:15 +0000
Subject: [PATCH 08/32] fix: generating function of a polytope with equations
 when cones are not unimodular

---
 code/latte/ProjectUp.cpp | 30 ++++++------------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/code/latte/ProjectUp.cpp b/code/latte/ProjectUp.cpp
index 8e866c7..f5c1d22 100644
--- a/code/latte/ProjectUp.cpp
+++ b/code/latte/ProjectUp.cpp
@@ -121,32 +121,14 @@ listCone* ProjectUp2(listCone* cone, int & oldNumOfVars, int & newNumOfVars,
   
   while(current_cone)
     {
-      /* FIXME: Handle non-unimodular cones */
       assert(current_cone->latticePoints != NULL);
-      assert(current_cone->latticePoints->rest == NULL);
-      
-      //  cerr << " Here 1" << endl;
-      i = 0;
-      newVector = b;
-      
-      for(i = 0; i < oldNumOfVars; i++){	  
-	newVector[i] += AA[i] * current_cone->latticePoints->first;
+
+      for (temp = current_cone->latticePoints; temp != NULL; temp = temp->rest) {
+	newVector = b;
+	for(i = 0; i < oldNumOfVars; i++)
+	  newVector[i] += AA[i] * temp->first;
+	temp->first = newVector;
       }
-      
-      //  cerr << " Here 2" << endl;
-      /*    for(i = oldNumOfVars - newNumOfVars; i < oldNumOfVars; i++)
-	    {
-	    newVector[i] = current_cone->latticePoints->first[i - oldNumOfVars + newNumOfVars];
-	    }*/
-	// cerr << " Here 3" << endl;
-      delete current_cone->latticePoints;
-      current_cone->latticePoints = new listVector;
-      current_cone->latticePoints->rest = NULL;
-      
-      current_cone->latticePoints->first.SetLength(oldNumOfVars);
-      //  cerr << " Here 4" << endl;
-      for(i = 0; i < oldNumOfVars; i++)
-	current_cone->latticePoints->first[i] = newVector[i];
 
       /* FIXME: Handle the vertex. */
       
-- 
2.43.0


From 65df2fa8fa9ccad08ae915d2a3beac5f3736b1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:16 +0000
Subject: [PATCH 09/32] fix: count file: print the decomposed cones before
 projecting them up

---
 code/latte/count.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/code/latte/count.cpp b/code/latte/count.cpp
index 00250a1..010a1bc 100644
--- a/code/latte/count.cpp
+++ b/code/latte/count.cpp
@@ -637,6 +637,10 @@ CountAnswerContainer mainCountDriver(int argc, char *argv[])
 		if (read_polyhedron_data.Memory_Save[0] == 'n')
 		{
 
+			cerr << "Printing decomposed cones to `decomposed_cones'." << endl;
+			printListConeToFile("decomposed_cones", Poly->cones,
+					Poly->numOfVars);
+
 			if (read_polyhedron_data.dualApproach[0] == 'n')
 			{
 				cerr << "Creating generating function.\n";
@@ -654,10 +658,6 @@ CountAnswerContainer mainCountDriver(int argc, char *argv[])
 			}
 			//printListCone(cones, Poly->numOfVars);
 
-			cerr << "Printing decomposed cones to `decomposed_cones'." << endl;
-			printListConeToFile("decomposed_cones", Poly->cones,
-					Poly->numOfVars);
-
 			if (read_polyhedron_data.dualApproach[0] == 'n')
 			{
 				cerr << "Starting final computation.\n";
-- 
2.43.0


From ea1e5f20e02117510b48afd157ba8ce5f4a1d44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:38 +0000
Subject: [PATCH 10/32] fix: integrate: a monomial given twice made the
 integration abort

---
 code/latte/valuation/PolytopeValuation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/latte/valuation/PolytopeValuation.cpp b/code/latte/valuation/PolytopeValuation.cpp
index 66f51ad..5b30182 100644
--- a/code/latte/valuation/PolytopeValuation.cpp
+++ b/code/latte/valuation/PolytopeValuation.cpp
@@ -246,7 +246,8 @@ void PolytopeValuation::dilatePolynomialToLinearForms(linFormSum &linearForms, c
 		}//insert the non-constant monomial
 	}//for every term in the originalPolynomial
 
-	assert(originalPolynomial.termCount == transformedPolynomial.termCount + numberConstantTerms
+	//termCount counts insertions, so equal monomials of the input were merged.
+	assert(originalPolynomial.termCount >= transformedPolynomial.termCount + numberConstantTerms
 			&& originalPolynomial.varCount == transformedPolynomial.varCount );
 	assert(numberConstantTerms <= 1);
 
-- 
2.43.0


From dd07e39039f346a1d23a66c0ef446fe144e816b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:38 +0000
Subject: [PATCH 11/32] fix: integrate: an integral of zero over a simplex
 aborted

---
 code/latte/integration/newIntegration.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/latte/integration/newIntegration.cpp b/code/latte/integration/newIntegration.cpp
index 58aef7a..e091bb4 100644
--- a/code/latte/integration/newIntegration.cpp
+++ b/code/latte/integration/newIntegration.cpp
@@ -477,7 +477,7 @@ RationalNTL integrateLinFormProducts(PolyIterator<RationalNTL, ZZ>* it, const si
 	finalPoly->setTrie(polynomialProduct.myMonomials, polynomialProduct.varCount);
 	finalPoly->begin();
 	term<RationalNTL, int>* storedTerm;
-	bool found;
+	bool found = false;
 	while ((storedTerm = finalPoly->nextTerm()) != 0)
 	{
 		found = true;
@@ -494,7 +494,8 @@ RationalNTL integrateLinFormProducts(PolyIterator<RationalNTL, ZZ>* it, const si
 			break;
 		}//found coeff. of highest term.
 	}//while
-	assert(found == true);
+	if (found == false)
+		answer = 0; //terms with coefficient zero are skipped by the iterator.
 
 	return answer;
 }//integrateLinFormProducts
-- 
2.43.0


From e28c07beab056bd1f4861c2ea5b44256010da222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:38 +0000
Subject: [PATCH 12/32] fix: integrate: products of linear forms with a
 repeated form or coefficient zero

---
 code/latte/integration/PolyTrie.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/code/latte/integration/PolyTrie.cpp b/code/latte/integration/PolyTrie.cpp
index 0d1a9cd..3148ee4 100644
--- a/code/latte/integration/PolyTrie.cpp
+++ b/code/latte/integration/PolyTrie.cpp
@@ -364,6 +364,8 @@ void parseLinFormProducts(FormProductLoadConsumer<RationalNTL>* consumer, const
 	RationalNTL coefficient;
 
 	int productIndex = 0;
+	//the powers of linear forms of the current product, powers of the same form merged.
+	vector<pair<vec_ZZ, int> > factors;
 	for (int i = 1; i < line.length() - 1; i++) //ignore outermost square brackets
 	{
 		if (line[i] == '[')
@@ -411,8 +413,12 @@ void parseLinFormProducts(FormProductLoadConsumer<RationalNTL>* consumer, const
 					//for(int w = 0; w < coefs.length(); ++w)
 					//	cout << coefs[w] << ", ";
 					//cout << "into " << productIndex << endl;
-					consumer->ConsumeLinForm(productIndex, coefficient, degree, coefs);
-					coefficient = 1; //the other coefficients in this product are 1.
+					for (k = 0; k < (int) factors.size() && factors[k].first != coefs; k++)
+						;
+					if (k < (int) factors.size())
+						factors[k].second += degree;
+					else
+						factors.push_back(make_pair(coefs, degree));
 
 					for(; line[i] != ']'; ++i); //end of linear form list: [[p, [l]] ]
 					//for(; line[i] != ']'; ++i); //end of linear form list: [[[p, [l]] ]
@@ -431,6 +437,16 @@ void parseLinFormProducts(FormProductLoadConsumer<RationalNTL>* consumer, const
 							break;
 						}
 					}
+					if (flag == 0 && coefficient != 0) //a product with coefficient zero has no terms.
+					{
+						for (k = 0; k < (int) factors.size(); k++)
+						{
+							consumer->ConsumeLinForm(productIndex, coefficient, factors[k].second, factors[k].first);
+							coefficient = 1; //the other coefficients in this product are 1.
+						}
+					}
+					if (flag == 0)
+						factors.clear();
 					break;
 				default: //error
 					cout << "Flag is " << flag << ", error." << endl;
-- 
2.43.0


From abf83cd03725c74be1f9635c128c9a3082b3beb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:47 +0000
Subject: [PATCH 13/32] fix: integrate: an integrand whose terms all have
 coefficient zero crashed

---
 code/latte/integration/iterators.hpp       | 4 ++++
 code/latte/valuation/PolytopeValuation.cpp | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/code/latte/integration/iterators.hpp b/code/latte/integration/iterators.hpp
index 3fe0158..91738b1 100644
--- a/code/latte/integration/iterators.hpp
+++ b/code/latte/integration/iterators.hpp
@@ -33,6 +33,10 @@ public:
 		trieElem* nextElem;
 		if (curDepth < 0)
 		{
+			if (myTrie == NULL || myTrie->firstElem == NULL)
+			{
+				return NULL; //the sum has no terms
+			}
 			curDepth++;
 			nextElem = triePath[0] = myTrie->firstElem;
 			curTerm.exps[0] = myTrie->range[0];
diff --git a/code/latte/valuation/PolytopeValuation.cpp b/code/latte/valuation/PolytopeValuation.cpp
index 5b30182..92ed651 100644
--- a/code/latte/valuation/PolytopeValuation.cpp
+++ b/code/latte/valuation/PolytopeValuation.cpp
@@ -552,10 +552,10 @@ RationalNTL PolytopeValuation::findIntegral(const linFormProductSum& originalLin
 
 		if ( currentConstantMonomial != 0)
 			constantMonomial += currentConstantMonomial;
-		else
+		else if (linearForms.termCount > 0)
 		{
 			linearFormProducts.addProduct(linearForms);
-		}//add the new product of linear forms.
+		}//add the new product of linear forms, unless it is zero.
 	}
 
 
-- 
2.43.0


From 2f135172dc9a4561245c69d4373a525eab0289d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:25 +0000
Subject: [PATCH 14/32] fix: refine non-simplicial cones of a regular
 subdivision with dependent heights

With too small random heights the lifted heights can be linear on the
rays; the unrefined non-simplicial cone was then passed on and aborted
the signed decomposition (or, with cddlib, was refined forever with the
same heights).  Use random heights from a growing range instead.
---
 .../triangulation/RegularTriangulation.cpp    | 10 ++++++
 .../triangulation/RegularTriangulation.h      |  7 ++++
 .../RegularTriangulationWith4ti2.cpp          | 36 +++++++++++++++++--
 .../RegularTriangulationWithCddlib.cpp        |  5 ++-
 4 files changed, 54 insertions(+), 4 deletions(-)

diff --git a/code/latte/triangulation/RegularTriangulation.cpp b/code/latte/triangulation/RegularTriangulation.cpp
index fc06960..4a58a29 100644
--- a/code/latte/triangulation/RegularTriangulation.cpp
+++ b/code/latte/triangulation/RegularTriangulation.cpp
@@ -19,6 +19,7 @@
 */
 
 #include <cassert>
+#include <climits>
 #include <vector>
 #include "latte_gmp.h"
 #include "latte_random.h"
@@ -49,6 +50,15 @@ random_height(mpq_t height, const vec_ZZ &ray, void *data)
   mpq_set_si(height, h, 1);
 }
 
+int
+refinement_max_height(int max_height,
+		      height_function_type *height_function, void *data)
+{
+  if (height_function == random_height)
+    max_height = * (int *) data;
+  return max_height <= INT_MAX / 4 ? 2 * max_height : max_height;
+}
+
 void
 biased_random_height(mpq_t height, const vec_ZZ &ray, void *data)
 {
diff --git a/code/latte/triangulation/RegularTriangulation.h b/code/latte/triangulation/RegularTriangulation.h
index 621b9b0..f104532 100644
--- a/code/latte/triangulation/RegularTriangulation.h
+++ b/code/latte/triangulation/RegularTriangulation.h
@@ -37,6 +37,13 @@ height_function_type(mpq_t height, const vec_ZZ &ray, void *data);
 void
 random_height(mpq_t height, const vec_ZZ &ray, void *data);
 
+/* The maximum height to use for refining a non-simplicial cone of a
+   subdivision obtained from HEIGHT_FUNCTION and DATA.  Enlarged in every
+   step, so that random heights yield a triangulation eventually. */
+int
+refinement_max_height(int max_height,
+		      height_function_type *height_function, void *data);
+
 void
 delone_height(mpq_t height, const vec_ZZ &ray, void *data);
 
diff --git a/code/latte/triangulation/RegularTriangulationWith4ti2.cpp b/code/latte/triangulation/RegularTriangulationWith4ti2.cpp
index e7ca3ba..93154a1 100644
--- a/code/latte/triangulation/RegularTriangulationWith4ti2.cpp
+++ b/code/latte/triangulation/RegularTriangulationWith4ti2.cpp
@@ -82,6 +82,31 @@ static bool lindep_heights_p(listCone *cone, BarvinokParameters *Parameters,
 		return false;
 }
 
+/* The heights yield the trivial subdivision; unless the cone is
+   simplicial already, try again with other random heights. */
+static void consume_trivial_subdivision(listCone *cone,
+		BarvinokParameters *Parameters, height_function_type *height_function,
+		void *height_function_data, ConeConsumer &consumer)
+{
+	int num_rays = lengthListVector(cone->rays);
+	VectorArray *ray_column_matrix = rays_to_transposed_4ti2_VectorArray(
+			cone->rays, Parameters->Number_of_Variables, 0);
+	int rank = upper_triangle(*ray_column_matrix,
+			Parameters->Number_of_Variables, num_rays);
+	delete ray_column_matrix;
+	if (num_rays == rank || Parameters->nonsimplicial_subdivision)
+	{
+		consumer.ConsumeCone(copyCone(cone));
+	} else
+	{
+		int max_height = refinement_max_height(
+				Parameters->triangulation_max_height,
+				height_function, height_function_data);
+		triangulate_cone_with_4ti2(cone, Parameters, random_height,
+				&max_height, consumer);
+	}
+}
+
 void triangulate_cone_with_4ti2(listCone *cone, BarvinokParameters *Parameters,
 		height_function_type height_function, void *height_function_data,
 		ConeConsumer &consumer)
@@ -113,7 +138,8 @@ void triangulate_cone_with_4ti2(listCone *cone, BarvinokParameters *Parameters,
 		 a copy of the cone. */
 		//cerr << "Trivial test: Lifting heights yield trivial polyhedral subdivision." << endl;
 		Parameters->num_triangulations_with_trivial_heights++;
-		consumer.ConsumeCone(copyCone(cone));
+		consume_trivial_subdivision(cone, Parameters, height_function,
+				height_function_data, consumer);
 		return;
 	}
 
@@ -123,7 +149,8 @@ void triangulate_cone_with_4ti2(listCone *cone, BarvinokParameters *Parameters,
 		//cerr << "Rank test: Lifting heights yield trivial polyhedral subdivision." << endl;
 		Parameters->num_triangulations_with_dependent_heights++;
 #ifndef DEBUG_RANKTEST
-		consumer.ConsumeCone(copyCone(cone));
+		consume_trivial_subdivision(cone, Parameters, height_function,
+				height_function_data, consumer);
 		return;
 #endif
 	}
@@ -249,8 +276,11 @@ void triangulate_cone_with_4ti2(listCone *cone, BarvinokParameters *Parameters,
 						<< endl;
 				/* In the refinement step, always fall back to using a
 				 random height vector. */
+				int max_height = refinement_max_height(
+						Parameters->triangulation_max_height,
+						height_function, height_function_data);
 				triangulate_cone_with_4ti2(c, Parameters, random_height,
-						&Parameters->triangulation_max_height, consumer);
+						&max_height, consumer);
 			} else if (c_num_rays < true_dimension)
 			{
 				cerr
diff --git a/code/latte/triangulation/RegularTriangulationWithCddlib.cpp b/code/latte/triangulation/RegularTriangulationWithCddlib.cpp
index f050628..b8de85d 100644
--- a/code/latte/triangulation/RegularTriangulationWithCddlib.cpp
+++ b/code/latte/triangulation/RegularTriangulationWithCddlib.cpp
@@ -111,8 +111,11 @@ triangulate_cone_with_cddlib(listCone *cone,
 		 << "in polyhedral subdivision, triangulating it recursively." << endl;
 	    /* In the refinement step, always fall back to using a
 	       random height vector. */
+	    int max_height
+	      = refinement_max_height(Parameters->triangulation_max_height,
+				      height_function, height_function_data);
 	    triangulate_cone_with_cddlib(c, Parameters,
-					 random_height, &Parameters->triangulation_max_height,
+					 random_height, &max_height,
 					 cone_dimension, consumer);
 	    freeCone(c);
 	  }
-- 
2.43.0


From 8c4a496b259d72f5f33661d57bb698738ec5b169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:59 +0000
Subject: [PATCH 15/32] fix: RationalNTL: reading a number with a leading '+'
 aborted

readNumber accepts a leading '+' but passed it on to to_ZZ, which rejects it.
---
 code/latte/rational.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/latte/rational.cpp b/code/latte/rational.cpp
index 678561a..54de979 100644
--- a/code/latte/rational.cpp
+++ b/code/latte/rational.cpp
@@ -579,7 +579,8 @@ ZZ RationalNTL::readNumber(istream &in)
 	assert(in.eof() == false);
 
 	//cout << "currentChar=" << currentChar << '.' << endl;
-	s << currentChar;
+	if ('+' != currentChar) // to_ZZ does not accept a leading plus
+		s << currentChar;
 
 	while( isdigit(in.peek()) )
 	{
-- 
2.43.0


From acac22238e1804ae1023a63c03f89e0459befe37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:59 +0000
Subject: [PATCH 16/32] fix: RationalNTL::div: dividing a number by itself gave
 a wrong value

The numerator was overwritten before it was used as the divisor when the
argument is the object itself.
---
 code/latte/rational.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/latte/rational.cpp b/code/latte/rational.cpp
index 54de979..f899507 100644
--- a/code/latte/rational.cpp
+++ b/code/latte/rational.cpp
@@ -268,8 +268,9 @@ RationalNTL & RationalNTL::div(const ZZ & rhs)
 
 RationalNTL & RationalNTL::div(const RationalNTL & rhs)
 {
+	ZZ divisor = rhs.numerator; // rhs may be *this
 	numerator *= rhs.denominator;
-	denominator *= rhs.numerator;
+	denominator *= divisor;
 	canonicalize();
 	return *this;
 }
-- 
2.43.0


From 43744c3fcb58dbef4984cb910ed37e188d50f18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:59 +0000
Subject: [PATCH 17/32] fix: SmithNormalFormIlio: result not diagonal when the
 pivot is negative

After the combination step the pivot A[offset][offset] is exactly g, which is
negative when the last entry of the row (column) is, because only the first
two entries go through XGCD. The multiplier was multiplied with the sign of
the pivot once more, so the entries were doubled instead of cleared; when the
row was already clear the loop stopped with the wrong matrix, e.g. for
[[0 -1] [-2 2]].
---
 code/latte/genFunction/matrix_ops.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/latte/genFunction/matrix_ops.cpp b/code/latte/genFunction/matrix_ops.cpp
index d1bd595..b0b21f3 100644
--- a/code/latte/genFunction/matrix_ops.cpp
+++ b/code/latte/genFunction/matrix_ops.cpp
@@ -214,7 +214,7 @@ static void eliminationRow(mat_ZZ& A, mat_ZZ& R, int offset)
   {
     if (!IsZero(A[offset][j]))
     {
-      ZZ tmp = (A[offset][j] / g) * sign(A[offset][offset]);
+      ZZ tmp = A[offset][j] / g;
       for (int i = 0; i < A.NumRows(); i++)
       {
 	R[i][j] -= tmp * R[i][offset];
@@ -277,7 +277,7 @@ static void eliminationCol(mat_ZZ& A, mat_ZZ& L, int offset)
   {
     if (!IsZero(A[i][offset]))
     {
-      s = (A[i][offset] / g) * sign(A[offset][offset]);
+      s = A[i][offset] / g;
       L[i] -= s * L[offset];
       A[i] -= s * A[offset];
     }
-- 
2.43.0


From 96481faf27272e29bcd6ff262d93f644853a3649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:22 +0000
Subject: [PATCH 18/32] fix: zero polynomials and sums of linear forms are
 printed and rewritten without dereferencing a null term

---
 code/latte/integration/PolyTrie.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/latte/integration/PolyTrie.cpp b/code/latte/integration/PolyTrie.cpp
index 3148ee4..89062a8 100644
--- a/code/latte/integration/PolyTrie.cpp
+++ b/code/latte/integration/PolyTrie.cpp
@@ -118,7 +118,7 @@ string printMonomials(const monomialSum &myPoly)
 	int i = 0;
 	stringstream output(stringstream::in | stringstream::out);
 	temp = it->nextTerm();
-	do
+	while (temp)
 	{
 		if (output.str() != "")
 		{
@@ -135,7 +135,7 @@ string printMonomials(const monomialSum &myPoly)
 		}
 		output << "]]";
 		temp = it->nextTerm();
-	} while (temp);
+	}
 	delete it;
 	return "[" + output.str() + "]";
 }
@@ -290,7 +290,7 @@ string printLinForms(const linFormSum &myForm)
 
 	stringstream output(stringstream::in | stringstream::out);
 	temp = it->nextTerm();
-	do
+	while (temp)
 	{
 		if (output.str() != "")
 		{
@@ -307,7 +307,7 @@ string printLinForms(const linFormSum &myForm)
 		}
 		output << "]]]";
 		temp = it->nextTerm();
-	} while (temp);
+	}
 	delete it;
 	return "[" + output.str() + "]";
 }
@@ -506,7 +506,7 @@ void decompose(BTrieIterator<RationalNTL, int>* it, linFormSum &lForm)
 	//cout << "in decompost()::\n";
 	temp = it->nextTerm();
 
-	do
+	while (temp)
 	{
 		//cout << "monomial " << temp->coef;
 		//for(int i = 0; i < temp->length; ++i)
@@ -514,7 +514,7 @@ void decompose(BTrieIterator<RationalNTL, int>* it, linFormSum &lForm)
 		//cout << "\n";
 		decompose(temp, lForm);
 		temp = it->nextTerm();
-	} while (temp);
+	}
 
 	//delete myPoly.myMonomials;
 }
-- 
2.43.0


From a0bb8622e87e5aecf3f1511b426ee5ace7e9f920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:32 +0000
Subject: [PATCH 19/32] fix: a general monomial sum set to the constant 0 no
 longer keeps a freed trie

---
 code/latte/integration/GeneralMonomialSum.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/latte/integration/GeneralMonomialSum.h b/code/latte/integration/GeneralMonomialSum.h
index 7273a90..0e1287a 100644
--- a/code/latte/integration/GeneralMonomialSum.h
+++ b/code/latte/integration/GeneralMonomialSum.h
@@ -207,6 +207,7 @@ void GeneralMonomialSum<T, S>::setToConstant(T c)
 {
 	if (myMonomials)
 		delete myMonomials;
+	myMonomials = NULL;
 	termCount = 0;
 
 	T coeff;
-- 
2.43.0


From d853f83dfeec90d3defa115f8ff9b8a3eb71efcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:32 +0000
Subject: [PATCH 20/32] fix: block lists: factorials of degrees above 12 and
 terms after the first block

---
 code/latte/integration/PolyRep.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/latte/integration/PolyRep.cpp b/code/latte/integration/PolyRep.cpp
index 28d0cef..261f251 100644
--- a/code/latte/integration/PolyRep.cpp
+++ b/code/latte/integration/PolyRep.cpp
@@ -174,7 +174,7 @@ void _parseLinForms(_FormSumConsumer<RationalNTL>* consumer, const string& line)
 	{
 		if (line[i] == '[')
 		{
-			int degreeFactorial;
+			ZZ degreeFactorial;
 			switch (flag)
 			{
 				case 0: //coefficient
@@ -210,7 +210,7 @@ void _parseLinForms(_FormSumConsumer<RationalNTL>* consumer, const string& line)
 						degreeFactorial *= j;
 						//coefficient *= j;
 					} //in _linFormSum, coefficient is assumed to be divided by the factorial of the form degree
-					coefficient *= to_ZZ(degreeFactorial);
+					coefficient *= degreeFactorial;
 					consumer->ConsumeLinForm(coefficient, degree, coefs);
 					flag = 0;
 					break;
@@ -296,7 +296,7 @@ void _decompose(_monomialSum &myPoly, _linFormSum &lForm, int mIndex)
 	}
 
 	bool constantTerm = true;
-	for (int i = (mIndex * myPoly.varCount); i < ((mIndex + 1)
+	for (int i = ((mIndex % BLOCK_SIZE) * myPoly.varCount); i < ((mIndex % BLOCK_SIZE + 1)
 			* myPoly.varCount); i++)
 	{
 		if (expTmp->data[i] != 0)
-- 
2.43.0


From b58bfad59564009abf1b225f2dda0ca7f3a74b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:09 +0000
Subject: [PATCH 21/32] fix: shell_quote: apostrophes ended the quoting, an
 empty argument vanished

---
 code/latte/latte_system.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/code/latte/latte_system.cpp b/code/latte/latte_system.cpp
index 4984b7c..d324926 100644
--- a/code/latte/latte_system.cpp
+++ b/code/latte/latte_system.cpp
@@ -50,16 +50,19 @@ void system_with_error_check(const string &command)
 string shell_quote(const string &argument)
 {
   // Quote unless all characters in ARGUMENT are from a very
-  // conservative character set.  We don't use the <ctype> functions
+  // conservative character set and there is at least one.  We don't use the <ctype> functions
   // because they are locale-dependent.
   std::size_t found = argument.find_first_not_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-+/.");
-  if (found!=string::npos) {
+  if (argument.empty() || found!=string::npos) {
     string result;
     result.push_back('\'');
     for (string::const_iterator i = argument.begin(); i!=argument.end(); ++i) {
-      if (*i == '\'') 
-	result.push_back('\\');
-      result.push_back(*i);
+      // Within single quotes, the shell does not treat a backslash
+      // specially, so leave the quotes for an escaped apostrophe.
+      if (*i == '\'')
+	result += "'\\''";
+      else
+	result.push_back(*i);
     }
     result.push_back('\'');
     return result;
-- 
2.43.0


From 83b442e9675b666875e5e5d934e107d9b1664f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:40 +0000
Subject: [PATCH 22/32] fix: CheckEmpty: a nonnegative line before the
 linearity line wrote a malformed cdd file

---
 code/latte/CheckEmpty.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/latte/CheckEmpty.cpp b/code/latte/CheckEmpty.cpp
index 91fecc7..d7295c7 100644
--- a/code/latte/CheckEmpty.cpp
+++ b/code/latte/CheckEmpty.cpp
@@ -86,7 +86,7 @@ void CheckEmpty(const char * Filename){
   mat_ZZ entries;
   entries.SetDims(numOfConsts, numOfDims);
   // cerr << "here2" << endl;
-  if(flag == 2) hold = numOfDims - 1;
+  if(nonneg[0] == 'y') hold = numOfDims - 1;
   for(int i = 0; i < numOfEqu; i++) conv(equs[i], Index[i]);
   //  cerr << "ther" << endl; 
  for(int i = 0; i < numOfConsts; i++)
-- 
2.43.0


From b9a1e7ef4b5ac7b8324001a4fbbe3547c678c8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:40 +0000
Subject: [PATCH 23/32] fix: option `+': the added nonnegativity rows wrote one
 entry past the matrix row

---
 code/latte/ReadLatteStyle.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/latte/ReadLatteStyle.cpp b/code/latte/ReadLatteStyle.cpp
index 9a069e3..963aeee 100644
--- a/code/latte/ReadLatteStyle.cpp
+++ b/code/latte/ReadLatteStyle.cpp
@@ -161,9 +161,10 @@ dd_MatrixPtr ReadLatteStyleMatrix(istream &f, bool vrep, bool homogenize,
 		}
 	}
 	if (nonnegativity) {
-		vector<int> nonnegatives(numOfVars);
+		int num_nonnegative = numOfVars - 1; /* column 0 is the right-hand side */
+		vector<int> nonnegatives(num_nonnegative);
 		int k;
-		for (k = 0; k < numOfVars; k++)
+		for (k = 0; k < num_nonnegative; k++)
 			nonnegatives[k] = k + 1; /* 1-based indices */
 		dd_MatrixPtr new_matrix = add_nonnegativity(matrix, nonnegatives,
 				num_homog);
-- 
2.43.0


From a2cb7b9324b592eddd4e266b854609d86a6fc17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:58 +0000
Subject: [PATCH 24/32] fix: CheckEmpty ignored the nonnegativity option `+'
 (an empty polytope was reported as unbounded)

---
 code/latte/CheckEmpty.cpp     | 8 +++++++-
 code/latte/CheckEmpty.h       | 2 +-
 code/latte/ReadPolyhedron.cpp | 4 ++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/code/latte/CheckEmpty.cpp b/code/latte/CheckEmpty.cpp
index d7295c7..a65b177 100644
--- a/code/latte/CheckEmpty.cpp
+++ b/code/latte/CheckEmpty.cpp
@@ -46,7 +46,7 @@
 #include "latte_relocatable.h"
 #include "LattException.h"
 
-void CheckEmpty(const char * Filename){
+void CheckEmpty(const char * Filename, bool nonnegativity){
   int numOfConsts, numOfDims, numOfEqu = 0, flag = 0;
   string tmpString;
   char equ[127], nonneg[127];
@@ -86,6 +86,12 @@ void CheckEmpty(const char * Filename){
   mat_ZZ entries;
   entries.SetDims(numOfConsts, numOfDims);
   // cerr << "here2" << endl;
+  if(nonnegativity){ /* option `+': all variables */
+    strcpy(nonneg, "yes");
+    numOfNonneg = numOfDims - 1;
+    Index2.SetLength(numOfNonneg);
+    for(int i = 0; i < numOfNonneg; i++) Index2[i] = i + 1;
+  }
   if(nonneg[0] == 'y') hold = numOfDims - 1;
   for(int i = 0; i < numOfEqu; i++) conv(equs[i], Index[i]);
   //  cerr << "ther" << endl; 
diff --git a/code/latte/CheckEmpty.h b/code/latte/CheckEmpty.h
index 4d9dfb9..5aa5ef7 100644
--- a/code/latte/CheckEmpty.h
+++ b/code/latte/CheckEmpty.h
@@ -22,6 +22,6 @@
 #ifndef CHECKEMPTY__H
 #define CHECKEMPTY__H
 
-void CheckEmpty(const char * filename);
+void CheckEmpty(const char * filename, bool nonnegativity = false);
 
 #endif
diff --git a/code/latte/ReadPolyhedron.cpp b/code/latte/ReadPolyhedron.cpp
index 8ce196b..7b9e26f 100644
--- a/code/latte/ReadPolyhedron.cpp
+++ b/code/latte/ReadPolyhedron.cpp
@@ -392,7 +392,7 @@ listVector *ReadPolyhedronData::read_full_rank_inequality_matrix(BarvinokParamet
 		}
 
 		/* Not VREP. */
-		CheckEmpty(filename.c_str());
+		CheckEmpty(filename.c_str(), nonneg[0] == 'y');
 		M = ReadLatteStyleMatrix(filename.c_str(), /* vrep: */false,
 		/* homogenize: */false,
 		/* nonnegative: */nonneg[0] == 'y');
@@ -643,7 +643,7 @@ ReadPolyhedronData::read_polyhedron_hairy(BarvinokParameters *params) {
 			/* homogenize: */false);
 		} else {
 			/* Not VREP. */
-			CheckEmpty(filename.c_str());
+			CheckEmpty(filename.c_str(), nonneg[0] == 'y');
 			M = ReadLatteStyleMatrix(filename.c_str(), /* vrep: */false,
 			/* homogenize: */false,
 			/* nonnegative: */nonneg[0] == 'y');
-- 
2.43.0


From 2dec5826cc397320e3e8f03dc23ab38a57deec7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:57 +0000
Subject: [PATCH 25/32] fix: ConvertCDDineToLatte dropped the linearity line

---
 code/latte/convertCDD_ine_to_latte.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/code/latte/convertCDD_ine_to_latte.cpp b/code/latte/convertCDD_ine_to_latte.cpp
index 32e6907..1fb40cd 100644
--- a/code/latte/convertCDD_ine_to_latte.cpp
+++ b/code/latte/convertCDD_ine_to_latte.cpp
@@ -27,14 +27,18 @@ int main( int argc, const char* argv[] )
 
 	ifstream input(argv[1]);
 	ofstream output(argv[2]);
-	string line;
+	string line, linearity;
 	vector<RationalNTL> hRep;
 	long numRows, ambDim;
 	ZZ lcmDenom;
 
 	while ( getline(input, line))
+	{
 		if ( line == "begin")
 			break;
+		if ( line.compare(0, 9, "linearity") == 0)
+			linearity = line; //same syntax in both formats.
+	}
 //	getline(input, line);
 
 	input >> numRows >> ambDim;
@@ -58,6 +62,8 @@ int main( int argc, const char* argv[] )
 		output << endl;
 
 	}//for each row.
+	if ( linearity.length())
+		output << linearity << endl;
 
 	input.close();
 	output.close();
-- 
2.43.0


From e88b5f5b141e35124ddbb0ccf94cc1262e36ccd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:41 +0000
Subject: [PATCH 26/32] fix: centerPolytope never replaced the polymake file by
 the centred one

---
 code/latte/buildPolytopes/BuildPolytope.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/latte/buildPolytopes/BuildPolytope.cpp b/code/latte/buildPolytopes/BuildPolytope.cpp
index 887c019..c8ca1e1 100644
--- a/code/latte/buildPolytopes/BuildPolytope.cpp
+++ b/code/latte/buildPolytopes/BuildPolytope.cpp
@@ -63,7 +63,7 @@ void BuildPolytope::centerPolytope()
 	//but here, it does not like it when the output and input files are the same.
 	//Hence the ".temp" file that is made and renamed.
 	system_with_error_check(string("center ") + shell_quote(getPolymakeFile()) + ".temp " + shell_quote(getPolymakeFile()));
-	rename((string(getPolymakeFile()+".temp ")).c_str(), getPolymakeFile().c_str());
+	rename((string(getPolymakeFile()+".temp")).c_str(), getPolymakeFile().c_str());
 	points.clear();
 	facets.clear();
 	dualFacets.clear();
-- 
2.43.0


From 6ac4de6d29a265ef36c2f8aab00ba3625d9d35ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:41 +0000
Subject: [PATCH 27/32] fix: isDualSimplicial and isDualSimple returned the
 negated answer

---
 code/latte/buildPolytopes/BuildPolytope.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/latte/buildPolytopes/BuildPolytope.cpp b/code/latte/buildPolytopes/BuildPolytope.cpp
index c8ca1e1..d92e8fe 100644
--- a/code/latte/buildPolytopes/BuildPolytope.cpp
+++ b/code/latte/buildPolytopes/BuildPolytope.cpp
@@ -636,7 +636,7 @@ bool BuildPolytope::isSimple()
  */
 bool BuildPolytope::isDualSimplicial()
 {
-	return ! isSimple();
+	return isSimple();
 }//isDualSimplicial().
 
 /**
@@ -644,7 +644,7 @@ bool BuildPolytope::isDualSimplicial()
  */
 bool BuildPolytope::isDualSimple()
 {
-	return ! isSimplicial();
+	return isSimplicial();
 }//isDualSimplicial().
 
 
-- 
2.43.0


From 65a91040de7e2c23907012cc6521dd6ec5426700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:41 +0000
Subject: [PATCH 28/32] fix: makeRandomDisconnectedGraph never ended when there
 are too many edges

---
 code/latte/buildPolytopes/GraphMaker.cpp | 1023 +++++++++++-----------
 1 file changed, 515 insertions(+), 508 deletions(-)

diff --git a/code/latte/buildPolytopes/GraphMaker.cpp b/code/latte/buildPolytopes/GraphMaker.cpp
index a23194b..6ef1753 100644
--- a/code/latte/buildPolytopes/GraphMaker.cpp
+++ b/code/latte/buildPolytopes/GraphMaker.cpp
@@ -1,521 +1,528 @@
-/*
- * GraphMaker.cpp
- *
- *  Created on: June 16, 2010
- *      Author: bedutra
- */
-
-
-
-#include "GraphMaker.h"
-#include "BuildHypersimplexEdgePolytope.h" //needed to make Kneser Graph.
-
-using namespace std;
-
-
-GraphMaker::GraphMaker()
-{
-	numVertex = 0; 
-	srand(time(0));
-}//graphMaker()
-
-
-
-/**
- * Adds the edge (v1, v2) or (v2, v1) to the graph if the edge does not already exist.
+/*
+ * GraphMaker.cpp
+ *
+ *  Created on: June 16, 2010
+ *      Author: bedutra
+ */
+
+
+
+#include "GraphMaker.h"
+#include "BuildHypersimplexEdgePolytope.h" //needed to make Kneser Graph.
+
+using namespace std;
+
+
+GraphMaker::GraphMaker()
+{
+	numVertex = 0; 
+	srand(time(0));
+}//graphMaker()
+
+
+
+/**
+ * Adds the edge (v1, v2) or (v2, v1) to the graph if the edge does not already exist.
  * @return bool: true of new edge added, false if edge already exists.
- */
-bool GraphMaker::addEdgeInOrder(const int v1, const int v2)
-{
-	if (v1 <= v2 )
-	{
-		if (find(edges[v1].begin(), edges[v1].end(), v2) == edges[v1].end())
-		{
-			edges[v1].push_back(v2);
-			return true;
-		}//not found. so add it.
-		else
-			return false;
-	}
-	else
-		return addEdgeInOrder(v2, v1);
-}//addEdgeInOrder
-
-/**
+ */
+bool GraphMaker::addEdgeInOrder(const int v1, const int v2)
+{
+	if (v1 <= v2 )
+	{
+		if (find(edges[v1].begin(), edges[v1].end(), v2) == edges[v1].end())
+		{
+			edges[v1].push_back(v2);
+			return true;
+		}//not found. so add it.
+		else
+			return false;
+	}
+	else
+		return addEdgeInOrder(v2, v1);
+}//addEdgeInOrder
+
+/**
  * Returns a const reference to the edges structure.
- */
-const vector< vector<int>  > & GraphMaker::getEdges() const
-{
-	return edges;
-}//getEdges
-
-
-/**
- * Makes a rectangle graph:
- *   0  1  2  3
- *   4  5  6  7
- *   8  9 10 11
+ */
+const vector< vector<int>  > & GraphMaker::getEdges() const
+{
+	return edges;
+}//getEdges
+
+
+/**
+ * Makes a rectangle graph:
+ *   0  1  2  3
+ *   4  5  6  7
+ *   8  9 10 11
  *   Each node is connected to its neighbors to the top/bottom and left/right with no wrapping (4 and 7 are not connected but 4 and 5 are).
- */
-void GraphMaker::makeCheckerboard(const int row, const int col)
-{
-
-	if ( row <= 1 || col <= 1)
-	{
-		cout << "makeLinearGraph(): please give a row/col larger than 1" << endl;
-		return;
-	}//if crapy size.
-
-	numVertex = row * col;
-	edges.clear();
-	edges.resize(numVertex);
-	for(int k = 0; k < numVertex; ++k) edges[k].clear();
-
-	//How to think about edges: consider a row x col matrix (with index starting at zero!)
-	//	we save this 2D matrix in 1D array using row-first order. So the (a, b) element of
-	//  the matrix (again, index starts at 0) is saved in location row*a + b
-
-	//first process a (row-1)x(col -1) grid and then fix the right and lower edges.
-	for(int currentRow = 0; currentRow < row - 1; ++currentRow )
-	{
-		for(int currentCol = 0; currentCol < col - 1; ++currentCol)
-		{
-			int rowIndex = currentRow * col;
-
-			edges[rowIndex + currentCol].push_back(rowIndex + currentCol + 1);
-			edges[rowIndex + currentCol].push_back((currentRow + 1)*col + currentCol);
-		}//for currentCol
-	}//for currentRow
-
-	//now fix the right edge
-	for(int currentRow = 0; currentRow < row -1; ++currentRow)
-	{
-		edges[currentRow*col + col - 1].push_back((currentRow + 1)*col + col -1);
-	}//for currentRow
-
-	//now fix the bottom edge.
-	for(int currentCol = 0; currentCol < col -1; ++currentCol)
-	{
-		edges[(row -1)*col + currentCol].push_back((row - 1)*col + currentCol + 1);
-	}//for currentCol
-}//makeCheckerboard()
-
-
-/**
- *	Make a graph in the form 0-1-2-3-4-5-0 (so it loops around) and place a edge
- *  	from every offset many to an other center node number 6.
- *
- *  @parm size: number of vertices in the graph
- *  @parm offset: over offset many vertices will be connected to the center node (if offset = 1,
- *  	then every node on the outer circle will be connected to the center node!)
- */
-void GraphMaker::makeCircleWithCenter(const int size, const int offset)
-{
-
-	if ( size <= 3)
-	{
-		cout << "makeLinearGraph(): please give a size larger than 3" << endl;
-		return;
-	}//if crapy size.
-
-	numVertex = size;
-	edges.clear();
-	edges.resize(numVertex);
-	for(int k = 0; k < numVertex; ++k) edges[k].clear();
-
-//cout << "got here 1" << endl;
-//cout << "edges.size()=" << edges.size() << endl;
-//cout << "edges.cap() =" << edges.capacity() << endl;
-	for(int k = 0; k < numVertex - 2; k++)
-	{
-		//cout << "k=" << k << "numVertex=" << numVertex << endl;
-		cout << "edges[k].zize() = " << edges[k].size() << endl;
-		edges[k].push_back(k + 1);
-	}
-//cout << "got here 1.2" << endl;
-	edges[0].push_back(numVertex -2);
-//cout << "got here 2" << endl;
-	for(int k = 0; k < numVertex - 1; k++)
-	{
-		if ( k % offset == 0)
-		{
-			edges[k].push_back(numVertex - 1);
-		}//add edge.
-	}//for each node on the circle.
-
-}//makeCircleWithCenter()
-
-/**
- * Make a graph in the form 0-1-2-3-4-5-0 (so it loops around)
- */
-void GraphMaker::makeCircleGraph(const int size)
-{
-
-	if ( size <= 2)
-	{
-		cout << "makeLinearGraph(): please give a size larger than 2" << endl;
-		return;
-	}//if crapy size.
-
-	numVertex = size;
-	edges.clear();
-	edges.resize(numVertex);
-	for(int k = 0; k < numVertex; ++k) edges[k].clear();
-
-	for(int k = 0; k < numVertex - 1; k++)
-	{
-		edges[k].push_back(k + 1);
-	}
-
-	edges[0].push_back(numVertex -1);
-}//makeCircleGraph()
-
-/**
+ */
+void GraphMaker::makeCheckerboard(const int row, const int col)
+{
+
+	if ( row <= 1 || col <= 1)
+	{
+		cout << "makeLinearGraph(): please give a row/col larger than 1" << endl;
+		return;
+	}//if crapy size.
+
+	numVertex = row * col;
+	edges.clear();
+	edges.resize(numVertex);
+	for(int k = 0; k < numVertex; ++k) edges[k].clear();
+
+	//How to think about edges: consider a row x col matrix (with index starting at zero!)
+	//	we save this 2D matrix in 1D array using row-first order. So the (a, b) element of
+	//  the matrix (again, index starts at 0) is saved in location row*a + b
+
+	//first process a (row-1)x(col -1) grid and then fix the right and lower edges.
+	for(int currentRow = 0; currentRow < row - 1; ++currentRow )
+	{
+		for(int currentCol = 0; currentCol < col - 1; ++currentCol)
+		{
+			int rowIndex = currentRow * col;
+
+			edges[rowIndex + currentCol].push_back(rowIndex + currentCol + 1);
+			edges[rowIndex + currentCol].push_back((currentRow + 1)*col + currentCol);
+		}//for currentCol
+	}//for currentRow
+
+	//now fix the right edge
+	for(int currentRow = 0; currentRow < row -1; ++currentRow)
+	{
+		edges[currentRow*col + col - 1].push_back((currentRow + 1)*col + col -1);
+	}//for currentRow
+
+	//now fix the bottom edge.
+	for(int currentCol = 0; currentCol < col -1; ++currentCol)
+	{
+		edges[(row -1)*col + currentCol].push_back((row - 1)*col + currentCol + 1);
+	}//for currentCol
+}//makeCheckerboard()
+
+
+/**
+ *	Make a graph in the form 0-1-2-3-4-5-0 (so it loops around) and place a edge
+ *  	from every offset many to an other center node number 6.
+ *
+ *  @parm size: number of vertices in the graph
+ *  @parm offset: over offset many vertices will be connected to the center node (if offset = 1,
+ *  	then every node on the outer circle will be connected to the center node!)
+ */
+void GraphMaker::makeCircleWithCenter(const int size, const int offset)
+{
+
+	if ( size <= 3)
+	{
+		cout << "makeLinearGraph(): please give a size larger than 3" << endl;
+		return;
+	}//if crapy size.
+
+	numVertex = size;
+	edges.clear();
+	edges.resize(numVertex);
+	for(int k = 0; k < numVertex; ++k) edges[k].clear();
+
+//cout << "got here 1" << endl;
+//cout << "edges.size()=" << edges.size() << endl;
+//cout << "edges.cap() =" << edges.capacity() << endl;
+	for(int k = 0; k < numVertex - 2; k++)
+	{
+		//cout << "k=" << k << "numVertex=" << numVertex << endl;
+		cout << "edges[k].zize() = " << edges[k].size() << endl;
+		edges[k].push_back(k + 1);
+	}
+//cout << "got here 1.2" << endl;
+	edges[0].push_back(numVertex -2);
+//cout << "got here 2" << endl;
+	for(int k = 0; k < numVertex - 1; k++)
+	{
+		if ( k % offset == 0)
+		{
+			edges[k].push_back(numVertex - 1);
+		}//add edge.
+	}//for each node on the circle.
+
+}//makeCircleWithCenter()
+
+/**
+ * Make a graph in the form 0-1-2-3-4-5-0 (so it loops around)
+ */
+void GraphMaker::makeCircleGraph(const int size)
+{
+
+	if ( size <= 2)
+	{
+		cout << "makeLinearGraph(): please give a size larger than 2" << endl;
+		return;
+	}//if crapy size.
+
+	numVertex = size;
+	edges.clear();
+	edges.resize(numVertex);
+	for(int k = 0; k < numVertex; ++k) edges[k].clear();
+
+	for(int k = 0; k < numVertex - 1; k++)
+	{
+		edges[k].push_back(k + 1);
+	}
+
+	edges[0].push_back(numVertex -1);
+}//makeCircleGraph()
+
+/**
  *	Kneser graph KG(n,k) is the graph whose vertices correspond to the k-element subsets of a set of n elements, and where two vertices are connected if and only if the two corresponding sets are disjoint
- */
-void GraphMaker::makeKneserGraph(const int setSize, const int subSetSize)
-{
-	BuildHypersimplexEdgePolytope hPoly;
-	vector< vector<mpq_class> > points;
-	vector<mpq_class> startingPoint;
-	bool match;
-
-	hPoly.generatePoints(setSize, subSetSize);
-
-	if (subSetSize > (setSize +1)/2)
-	{
-		cout << "subsetSize too large, no edges can exist" << endl;
-		return;
-	}//too large.
-
-	numVertex = nchoosek(setSize, subSetSize);
-	edges.clear();
-	edges.resize(numVertex);
-
-	if ( setSize <= subSetSize)
-	{
-		cout << "subset size is too big" << endl;
-		return;
-	}//if too big.
-
-	//set the starting point to 11111....11000....0.
-	startingPoint.resize(setSize);
-	for(int i = 0; i < subSetSize; ++i)
-		startingPoint[i] = 1;
-	for(int i = subSetSize; i < setSize; ++i)
-		startingPoint[i] = 0;
-
-	hPoly.addToPoints(points, startingPoint, 0, true);
-	//ok, points now contains all subsets of size subSetSize from a set of setSize.
-
-//	for(int i = 0; i < points.size(); ++i)
-//	{
-//		cout << i << ") ";
-//		for(int k = 0; k < setSize; ++k)
-//			cout << " " << points[i][k];
-//		cout << endl;
-//	}//print points out.
-
-	for(size_t i = 0; i < points.size(); ++i)
-		for(size_t k = i + 1; k < points.size(); ++k)
-		{
-			match = false;
-			for(int curElement = 0; curElement < setSize && ! match; ++curElement)
-				if ( points[i][curElement] == 1 && points[i][curElement] == points[k][curElement])
-					match = true;
-
-			if ( match == false)
-			{
-				//cout << "match = " << match << endl;
-				edges[i].push_back(k);
-			}
-		}//for k. check to see if point[i] and point[k] intercept.
-}//makeKneserGraph
-
-
-
-/**
- * Make a graph in the form: 0-1-2-3-4-5
- */
-void GraphMaker::makeLinearGraph(const int size)
-{
-	if ( size <= 1)
-	{
-		cout << "makeLinearGraph(): please give a size larger than 1" << endl;
-		return;
-	}//if crapy size.
-	
-	numVertex = size;
-	edges.clear();
-	edges.resize(numVertex);
-	for(int k = 0; k < numVertex; ++k) edges[k].clear();
-	
-	for(int k = 0; k < numVertex - 1; k++)
-	{		
-		edges[k].push_back(k + 1);
-	}
-
-}//makeLinearGraph
-
-
-/**
+ */
+void GraphMaker::makeKneserGraph(const int setSize, const int subSetSize)
+{
+	BuildHypersimplexEdgePolytope hPoly;
+	vector< vector<mpq_class> > points;
+	vector<mpq_class> startingPoint;
+	bool match;
+
+	hPoly.generatePoints(setSize, subSetSize);
+
+	if (subSetSize > (setSize +1)/2)
+	{
+		cout << "subsetSize too large, no edges can exist" << endl;
+		return;
+	}//too large.
+
+	numVertex = nchoosek(setSize, subSetSize);
+	edges.clear();
+	edges.resize(numVertex);
+
+	if ( setSize <= subSetSize)
+	{
+		cout << "subset size is too big" << endl;
+		return;
+	}//if too big.
+
+	//set the starting point to 11111....11000....0.
+	startingPoint.resize(setSize);
+	for(int i = 0; i < subSetSize; ++i)
+		startingPoint[i] = 1;
+	for(int i = subSetSize; i < setSize; ++i)
+		startingPoint[i] = 0;
+
+	hPoly.addToPoints(points, startingPoint, 0, true);
+	//ok, points now contains all subsets of size subSetSize from a set of setSize.
+
+//	for(int i = 0; i < points.size(); ++i)
+//	{
+//		cout << i << ") ";
+//		for(int k = 0; k < setSize; ++k)
+//			cout << " " << points[i][k];
+//		cout << endl;
+//	}//print points out.
+
+	for(size_t i = 0; i < points.size(); ++i)
+		for(size_t k = i + 1; k < points.size(); ++k)
+		{
+			match = false;
+			for(int curElement = 0; curElement < setSize && ! match; ++curElement)
+				if ( points[i][curElement] == 1 && points[i][curElement] == points[k][curElement])
+					match = true;
+
+			if ( match == false)
+			{
+				//cout << "match = " << match << endl;
+				edges[i].push_back(k);
+			}
+		}//for k. check to see if point[i] and point[k] intercept.
+}//makeKneserGraph
+
+
+
+/**
+ * Make a graph in the form: 0-1-2-3-4-5
+ */
+void GraphMaker::makeLinearGraph(const int size)
+{
+	if ( size <= 1)
+	{
+		cout << "makeLinearGraph(): please give a size larger than 1" << endl;
+		return;
+	}//if crapy size.
+	
+	numVertex = size;
+	edges.clear();
+	edges.resize(numVertex);
+	for(int k = 0; k < numVertex; ++k) edges[k].clear();
+	
+	for(int k = 0; k < numVertex - 1; k++)
+	{		
+		edges[k].push_back(k + 1);
+	}
+
+}//makeLinearGraph
+
+
+/**
  * Makes the classical well-known Petersen Graph (10 vertices) starting at vertex 0.
- */
-void GraphMaker::makePetersenGraph()
-{
-	numVertex = 10;
-	edges.clear();
-	edges.resize(numVertex);
-
-	makePetersenSubGraph(0);
-}//makePertersonGraph
-
-/**
+ */
+void GraphMaker::makePetersenGraph()
+{
+	numVertex = 10;
+	edges.clear();
+	edges.resize(numVertex);
+
+	makePetersenSubGraph(0);
+}//makePertersonGraph
+
+/**
  * This function could change over time.
- */
-void GraphMaker::makePetersenFunGraph(const int num)
-{
-	edges.clear();
-	numVertex = 10 * num;
-	edges.resize(10 * num);
-
-	//make a couble disjoing petersen graphs.
-	for(int i = 0; i < num; ++i)
-		makePetersenSubGraph(i*10);
-
-}//makePetersenFunGraph
-
-/**
- *  Makes a petersen graph starting at vertex startVertex
+ */
+void GraphMaker::makePetersenFunGraph(const int num)
+{
+	edges.clear();
+	numVertex = 10 * num;
+	edges.resize(10 * num);
+
+	//make a couble disjoing petersen graphs.
+	for(int i = 0; i < num; ++i)
+		makePetersenSubGraph(i*10);
+
+}//makePetersenFunGraph
+
+/**
+ *  Makes a petersen graph starting at vertex startVertex
  *  This is helpful if you want to add a Petersen graph to an existing graph.
- */
-void GraphMaker::makePetersenSubGraph(const int startVertex)
-{
-	for(int i = startVertex; i < startVertex + 4; ++i)
-		edges[i].push_back(i+1);
-	edges[startVertex].push_back(startVertex + 4);
-
-	for(int i = startVertex; i < startVertex + 5; ++i)
-		edges[i].push_back(i + 5);
-	for(int i = startVertex + 5; i < startVertex + 8; ++i)
-		edges[i].push_back(i + 2);
-	for(int i = startVertex + 5; i < startVertex + 7; ++i)
-		edges[i].push_back(i + 3);
-}//makePertersonSubGraph
-
-/**
- * Will make two (simple) graphs of size/2 with edgeCount/2 edges that are not connected to each other.
+ */
+void GraphMaker::makePetersenSubGraph(const int startVertex)
+{
+	for(int i = startVertex; i < startVertex + 4; ++i)
+		edges[i].push_back(i+1);
+	edges[startVertex].push_back(startVertex + 4);
+
+	for(int i = startVertex; i < startVertex + 5; ++i)
+		edges[i].push_back(i + 5);
+	for(int i = startVertex + 5; i < startVertex + 8; ++i)
+		edges[i].push_back(i + 2);
+	for(int i = startVertex + 5; i < startVertex + 7; ++i)
+		edges[i].push_back(i + 3);
+}//makePertersonSubGraph
+
+/**
+ * Will make two (simple) graphs of size/2 with edgeCount/2 edges that are not connected to each other.
  * These two graphs may or may not further be connected.
- */
-void GraphMaker::makeRandomDisconnectedGraph(const int size, const int edgeCount)
-{
-
-	int vertexG1, vertexG2, edgeG1, edgeG2; //size and edgeCount of graph 1 and 2
-	int v1, v2, currentEdgeCount;
-
-	if ( size < 4)
-	{
-		cout << "please give a size larger than 4";
-		return;
-	}
-
-	numVertex = size;
-	edges.clear();
-	edges.resize(numVertex);
-
-	//find the size and edgeCount of the first graph.
-	vertexG1 = (int)((size + 1 )/2); //round up.
-	vertexG2 = size / 2;
-
-	//find the size and edgeCount of the 2nd graph.
-	edgeG1 = (int)((edgeCount + 1 )/2); //round up.
-	edgeG2 = edgeCount / 2;
-
-	cout << vertexG1 << "::" << edgeG1 << ", " << vertexG2 << "::" << edgeG2 << endl;
-	currentEdgeCount = 0;
-	while ( currentEdgeCount < edgeG1)
-	{
-		v1 = rand() % vertexG1;
-		v2 = rand() % vertexG1;
-		if ( v1 == v2) continue; //try again. Keep the graph simple.
-
-		if ( addEdgeInOrder(v1, v2) == true)
-		{
-			//cout << "1) v1=" << v1 << ", v2=" << v2 << endl;
-			++currentEdgeCount;
-		}
-	}//while not done making graph.
-
-//cout << "got here" << endl;
-	currentEdgeCount = 0;
-	while ( currentEdgeCount < edgeG2)
-	{
-		v1 = (rand() % vertexG2) + vertexG1;
-		v2 = (rand() % vertexG2) + vertexG1 ;
-
-		if ( v1 == v2) continue; //try again. Keep the graph simple.
-
-		if ( addEdgeInOrder(v1, v2) == true)
-		{
-			//cout << "2) v1=" << v1 << ", v2=" << v2 << endl;
-			++currentEdgeCount;
-		}
-	}//while not done making graph.
-
-}//makeRandomDisconnectedGraph
-
-/**
+ */
+void GraphMaker::makeRandomDisconnectedGraph(const int size, const int edgeCount)
+{
+
+	int vertexG1, vertexG2, edgeG1, edgeG2; //size and edgeCount of graph 1 and 2
+	int v1, v2, currentEdgeCount;
+
+	if ( size < 4)
+	{
+		cout << "please give a size larger than 4";
+		return;
+	}
+
+	numVertex = size;
+	edges.clear();
+	edges.resize(numVertex);
+
+	//find the size and edgeCount of the first graph.
+	vertexG1 = (int)((size + 1 )/2); //round up.
+	vertexG2 = size / 2;
+
+	//find the size and edgeCount of the 2nd graph.
+	edgeG1 = (int)((edgeCount + 1 )/2); //round up.
+	edgeG2 = edgeCount / 2;
+
+	cout << vertexG1 << "::" << edgeG1 << ", " << vertexG2 << "::" << edgeG2 << endl;
+
+	if ( edgeG1 > vertexG1*(vertexG1 -1)/2 || edgeG2 > vertexG2*(vertexG2 -1)/2)
+	{
+		cout << "makeRandomDisconnectedGraph(): you have too many edges" << endl;
+		return;
+	}//else the loops below would never end.
+
+	currentEdgeCount = 0;
+	while ( currentEdgeCount < edgeG1)
+	{
+		v1 = rand() % vertexG1;
+		v2 = rand() % vertexG1;
+		if ( v1 == v2) continue; //try again. Keep the graph simple.
+
+		if ( addEdgeInOrder(v1, v2) == true)
+		{
+			//cout << "1) v1=" << v1 << ", v2=" << v2 << endl;
+			++currentEdgeCount;
+		}
+	}//while not done making graph.
+
+//cout << "got here" << endl;
+	currentEdgeCount = 0;
+	while ( currentEdgeCount < edgeG2)
+	{
+		v1 = (rand() % vertexG2) + vertexG1;
+		v2 = (rand() % vertexG2) + vertexG1 ;
+
+		if ( v1 == v2) continue; //try again. Keep the graph simple.
+
+		if ( addEdgeInOrder(v1, v2) == true)
+		{
+			//cout << "2) v1=" << v1 << ", v2=" << v2 << endl;
+			++currentEdgeCount;
+		}
+	}//while not done making graph.
+
+}//makeRandomDisconnectedGraph
+
+/**
  * Makes a random connected simple graph.
- */
-void GraphMaker::makeRandomConnectedGraph(const int size, const int edgeCount)
-{
-	int v1, v2, currentEdgeCount = 0;
-
-	if ( size <= 2 || size > edgeCount+1 || edgeCount > size*(size -1)/2)
-	{
-		cout << "makeLinearGraph(): please give a size larger than 2 or an edgeCount >= size or you have too many edges" << endl;
-		return;
-	}//if bad size.
-
-	numVertex = size;
-	edges.clear();
-	edges.resize(numVertex);
-	for(int k = 0; k < numVertex; ++k) edges[k].clear();
-
-	//first, make a random min. spanning tree.
-	makeRandomSpanningTree();
-	currentEdgeCount = numVertex -1;
-
-	cout << "spanning tree:" << endl;
-	printEdges();
-	//cout << "now filling rest of quota" << endl;
-
-	while ( currentEdgeCount < edgeCount)
-	{
-		//pick two vertices and try them.
-		v1 = rand() % numVertex;
-		v2 = rand() % numVertex;
-		if ( v1 == v2)
-			continue; //try again.
-
-		//cout << "going to try v1, v2=" << v1 << ", " << v2 << endl;
-		//printEdges();
-		//cout << endl;
-		if ( addEdgeInOrder(v1, v2) == true)
-			++currentEdgeCount;
-
-	}//while, keep adding more edges.
-
-	//cout << "full graph" << endl;
-	//printEdges();
-	
-}//makeRandomConnectedGraph()
-
-
-/**
+ */
+void GraphMaker::makeRandomConnectedGraph(const int size, const int edgeCount)
+{
+	int v1, v2, currentEdgeCount = 0;
+
+	if ( size <= 2 || size > edgeCount+1 || edgeCount > size*(size -1)/2)
+	{
+		cout << "makeLinearGraph(): please give a size larger than 2 or an edgeCount >= size or you have too many edges" << endl;
+		return;
+	}//if bad size.
+
+	numVertex = size;
+	edges.clear();
+	edges.resize(numVertex);
+	for(int k = 0; k < numVertex; ++k) edges[k].clear();
+
+	//first, make a random min. spanning tree.
+	makeRandomSpanningTree();
+	currentEdgeCount = numVertex -1;
+
+	cout << "spanning tree:" << endl;
+	printEdges();
+	//cout << "now filling rest of quota" << endl;
+
+	while ( currentEdgeCount < edgeCount)
+	{
+		//pick two vertices and try them.
+		v1 = rand() % numVertex;
+		v2 = rand() % numVertex;
+		if ( v1 == v2)
+			continue; //try again.
+
+		//cout << "going to try v1, v2=" << v1 << ", " << v2 << endl;
+		//printEdges();
+		//cout << endl;
+		if ( addEdgeInOrder(v1, v2) == true)
+			++currentEdgeCount;
+
+	}//while, keep adding more edges.
+
+	//cout << "full graph" << endl;
+	//printEdges();
+	
+}//makeRandomConnectedGraph()
+
+
+/**
  * Make sure the graph is connected.
- */
-void GraphMaker::makeRandomSpanningTree()
-{
-	vector<int> unusedVertices(numVertex-1);
-	vector<int> usedVertices;
-	int currentUsedVertex, currentUnusedVertexIndex, lastUnused = numVertex - 2;
-
-	for(int i = 0; i < numVertex-1; ++i)
-		unusedVertices[i] = i;
-	usedVertices.push_back(numVertex -1);
-
-	while(lastUnused >= 0)
-	{
-		currentUsedVertex = usedVertices[rand() % usedVertices.size()];
-		currentUnusedVertexIndex = rand() % (lastUnused +1);
-
-		//move the vertex we wish to add to the end of the unusedVertices vector (by end, I mean to lastUnused).
-		// 	lastUnused will be decremented later, so we will never see it again!
-		swap(unusedVertices[currentUnusedVertexIndex], unusedVertices[lastUnused]);
-		usedVertices.push_back(unusedVertices[lastUnused]);
-
-		//now add the edge (currentusedVertex, unusedVertices[lastUnused]) to the graph, saving the smaller in the outer vertex.
-		addEdgeInOrder(currentUsedVertex, unusedVertices[lastUnused]);
-		--lastUnused;
-	}//while
-}//makeRandomSpanningTree()
-
-
-/*
+ */
+void GraphMaker::makeRandomSpanningTree()
+{
+	vector<int> unusedVertices(numVertex-1);
+	vector<int> usedVertices;
+	int currentUsedVertex, currentUnusedVertexIndex, lastUnused = numVertex - 2;
+
+	for(int i = 0; i < numVertex-1; ++i)
+		unusedVertices[i] = i;
+	usedVertices.push_back(numVertex -1);
+
+	while(lastUnused >= 0)
+	{
+		currentUsedVertex = usedVertices[rand() % usedVertices.size()];
+		currentUnusedVertexIndex = rand() % (lastUnused +1);
+
+		//move the vertex we wish to add to the end of the unusedVertices vector (by end, I mean to lastUnused).
+		// 	lastUnused will be decremented later, so we will never see it again!
+		swap(unusedVertices[currentUnusedVertexIndex], unusedVertices[lastUnused]);
+		usedVertices.push_back(unusedVertices[lastUnused]);
+
+		//now add the edge (currentusedVertex, unusedVertices[lastUnused]) to the graph, saving the smaller in the outer vertex.
+		addEdgeInOrder(currentUsedVertex, unusedVertices[lastUnused]);
+		--lastUnused;
+	}//while
+}//makeRandomSpanningTree()
+
+
+/*
  * Ask the user for input. Does not require the end graph to be connected or simple.
- */
-void GraphMaker::makeYourOwnGraph()
-{
-	int v1, v2;
-
-	cout << "One past the largest graph vertex number >> ";
-	cin >> numVertex;
-
-	edges.clear();
-	edges.resize(numVertex);
-	for(int i = 0; i < numVertex; ++i) edges[i].clear();
-
-	while (true)
-	{
-		cout << "Enter -1 or vertex_1 vertex_2 >> ";
-		cin >> v1;
-		if ( v1 == -1)
-			break;
-		cin >> v2;
-
-		if ( v1 >= numVertex || v2 >= numVertex || v1 < 0 || v2 < 0)
-		{
-			cout << "vertex number too large or too small" << endl;
-			continue;
-		}//if too large/small
-
-		if ( false == addEdgeInOrder(v1, v2))
-			cout << "That edge already exists" << endl;
-	}//add another edge.
-
-}//makeYourOwnGraph()
-
-
-/**
+ */
+void GraphMaker::makeYourOwnGraph()
+{
+	int v1, v2;
+
+	cout << "One past the largest graph vertex number >> ";
+	cin >> numVertex;
+
+	edges.clear();
+	edges.resize(numVertex);
+	for(int i = 0; i < numVertex; ++i) edges[i].clear();
+
+	while (true)
+	{
+		cout << "Enter -1 or vertex_1 vertex_2 >> ";
+		cin >> v1;
+		if ( v1 == -1)
+			break;
+		cin >> v2;
+
+		if ( v1 >= numVertex || v2 >= numVertex || v1 < 0 || v2 < 0)
+		{
+			cout << "vertex number too large or too small" << endl;
+			continue;
+		}//if too large/small
+
+		if ( false == addEdgeInOrder(v1, v2))
+			cout << "That edge already exists" << endl;
+	}//add another edge.
+
+}//makeYourOwnGraph()
+
+
+/**
  * returns "n choose k"
- */
-int GraphMaker::nchoosek(const int n1, const int k1)
-{
-	mpz_class n(n1), k(k1), topProduct(1), bottomProduct(1);
-	mpq_class ans;
-	if ( n1 < k1 )
-	{
-		cout << "nchoosek() bad input" << endl;
-		return -1;
-	}//error
-
-	for(mpz_class i(0); i < k; ++i)
-	{
-		topProduct *= ( n - i);
-	}
-	for(mpz_class i(1); i <= k; ++i)
-	{
-		bottomProduct *= i;
-	}
-
-	ans = mpq_class(topProduct, bottomProduct);
-	ans.canonicalize();
-
-	return ((int) ans.get_num().get_si());
-}//nchoosek()
-
-/**
+ */
+int GraphMaker::nchoosek(const int n1, const int k1)
+{
+	mpz_class n(n1), k(k1), topProduct(1), bottomProduct(1);
+	mpq_class ans;
+	if ( n1 < k1 )
+	{
+		cout << "nchoosek() bad input" << endl;
+		return -1;
+	}//error
+
+	for(mpz_class i(0); i < k; ++i)
+	{
+		topProduct *= ( n - i);
+	}
+	for(mpz_class i(1); i <= k; ++i)
+	{
+		bottomProduct *= i;
+	}
+
+	ans = mpq_class(topProduct, bottomProduct);
+	ans.canonicalize();
+
+	return ((int) ans.get_num().get_si());
+}//nchoosek()
+
+/**
  * Prints the current edges.
- */
-void GraphMaker::printEdges() const
-{
-	cout << "numVertex=" << numVertex << endl;
-	for(int i = 0; i < numVertex; ++i)
-	{
-		for(int k = 0; k < (int) edges[i].size(); ++k)
-			cout << "( " << i << ", " << edges[i][k] << ")" << endl;
-	}//for i
-
-}//printEdges
-
+ */
+void GraphMaker::printEdges() const
+{
+	cout << "numVertex=" << numVertex << endl;
+	for(int i = 0; i < numVertex; ++i)
+	{
+		for(int k = 0; k < (int) edges[i].size(); ++k)
+			cout << "( " << i << ", " << edges[i][k] << ")" << endl;
+	}//for i
+
+}//printEdges
+
-- 
2.43.0


From 194a2acac8e09f281988eb8f5aaef22fd858270b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:51 +0000
Subject: [PATCH 29/32] fix: findVerticesDual checked the dimension before it
 was known

---
 code/latte/buildPolytopes/BuildPolytope.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/latte/buildPolytopes/BuildPolytope.cpp b/code/latte/buildPolytopes/BuildPolytope.cpp
index d92e8fe..89061df 100644
--- a/code/latte/buildPolytopes/BuildPolytope.cpp
+++ b/code/latte/buildPolytopes/BuildPolytope.cpp
@@ -453,9 +453,9 @@ void BuildPolytope::findVerticesDual()
 		return;
 
 	centerPolytope();
-	assert( getDim() == getAmbientDim() ); //duals are only defined for full dim.
 
-	findFacets();
+	findFacets(); //this also finds the dimensions.
+	assert( getDim() == getAmbientDim() ); //duals are only defined for full dim.
 
 	dualVertices = getFacets();
 
-- 
2.43.0


From 80ca6311a7f6b5d2b0cdb74a1a0af35c3c0cd444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:29 +0000
Subject: [PATCH 30/32] fix: LattException::what() returned a pointer into a
 destroyed string (refusals printed garbage)

---
 code/latte/LattException.cpp | 9 ++++-----
 code/latte/LattException.h   | 1 +
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/code/latte/LattException.cpp b/code/latte/LattException.cpp
index 5cc1350..c0f32ec 100644
--- a/code/latte/LattException.cpp
+++ b/code/latte/LattException.cpp
@@ -17,6 +17,9 @@ LattException::LattException(UserError ue, const char * file, const int line, co
 	lineNumber = line;
 	msg = message;
 	printStatus = b;
+
+	if ( LATTEXCEPTION_PRINTSTATUS || printStatus == 1 )
+		whatMessage = printErrorMessages();
 }
 
 
@@ -58,9 +61,5 @@ string  LattException::printErrorMessages() const
 
 const char* LattException::what() const throw()
 {
-	string s = "";
-	if ( LATTEXCEPTION_PRINTSTATUS || printStatus == 1 )
-	s = printErrorMessages();
-
-	return s.c_str();
+	return whatMessage.c_str();
 }
diff --git a/code/latte/LattException.h b/code/latte/LattException.h
index 812d996..957fd9b 100644
--- a/code/latte/LattException.h
+++ b/code/latte/LattException.h
@@ -92,6 +92,7 @@ private:
 	int lineNumber;
 	string fileName;
 	bool printStatus;
+	string whatMessage; //what() returns a pointer into this.
 };
 
 #endif /* LATTEXCEPTION_H_ */
-- 
2.43.0


From 9a49366ee87bc4b00725d486d5cf228ae87a3553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:32 +0000
Subject: [PATCH 31/32] fix: --ehrhart-taylor=0 read and wrote past the
 expansion arrays

---
 code/latte/ResSingle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/latte/ResSingle.cpp b/code/latte/ResSingle.cpp
index 791ab3a..0e36735 100644
--- a/code/latte/ResSingle.cpp
+++ b/code/latte/ResSingle.cpp
@@ -45,7 +45,7 @@ int ResidueFunction_Single_Cone(listCone *cones,
   	int OUTPUT_S_T_FUNCTION = 0, COMPUTE_SUM_MAPLE = 0, OUTPUT_CONE = 0;
   	int DEGREE;
 	int dim, noGsPerC,noCones; //noGsPerC is number of generators per cone
-  	if(Residue_Parameters->Degree_of_Taylor_Expansion > 1) 
+  	if(Residue_Parameters->Degree_of_Taylor_Expansion >= 0) 
 		DEGREE = Residue_Parameters->Degree_of_Taylor_Expansion;
 	else
 		DEGREE = 1;
-- 
2.43.0


From 643b7e32aca76556549c2c302adc034ddd9378d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:05 +0000
Subject: [PATCH 32/32] fix: --redundancy-check=cddlib counted a single point
 as 0

---
 code/latte/preprocess.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/code/latte/preprocess.cpp b/code/latte/preprocess.cpp
index 70a0b5c..d9c5aa0 100644
--- a/code/latte/preprocess.cpp
+++ b/code/latte/preprocess.cpp
@@ -615,6 +615,14 @@ listVector* preprocessProblem(listVector *equations, listVector *inequalities,
 	/*    printListVector(inequalities,(*numOfVars)+1); */
 	cerr << "New inequalities:\n";
 	printListVectorToFile(cerr, newInequalities, newNumOfVars + 1);
+	if (newInequalities == NULL && newNumOfVars == 1) {
+		/* The equations have a unique solution; it satisfies all
+		   inequalities, otherwise we would have stopped above. */
+		cerr << "The number of lattice points is 1." << endl;
+		ofstream out("numOfLatticePoints");
+		out << 1 << endl;
+		exit(0);
+	}
 	checkListVector(newInequalities, newNumOfVars);
 	if (newInequalities == NULL) {
 
-- 
2.43.0


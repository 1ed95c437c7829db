From 7898e61793228485fa0171ad9a3070962b37a4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:01 +0000
Subject: [PATCH 01/23] fix: forget the previous result when a consensus object
 is run again

computeModel() kept model_ (and in Lmeds inliers_) of an earlier run, so a run
that found no hypothesis at all reported success with the stale model.
---
 include/opengv/sac/implementation/Lmeds.hpp       | 3 +++
 include/opengv/sac/implementation/MultiRansac.hpp | 3 +++
 include/opengv/sac/implementation/Ransac.hpp      | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/include/opengv/sac/implementation/Lmeds.hpp b/include/opengv/sac/implementation/Lmeds.hpp
index 637b4b0..58fe815 100644
--- a/include/opengv/sac/implementation/Lmeds.hpp
+++ b/include/opengv/sac/implementation/Lmeds.hpp
@@ -53,6 +53,9 @@ opengv::sac::Lmeds<PROBLEM_T>::computeModel(int debug_verbosity_level)
   }
 
   iterations_ = 0;
+  // forget the result of an earlier run
+  model_.clear();
+  inliers_.clear();
   double d_best_penalty = std::numeric_limits<double>::max();
 
   std::vector<int> best_model;
diff --git a/include/opengv/sac/implementation/MultiRansac.hpp b/include/opengv/sac/implementation/MultiRansac.hpp
index e723c96..75a2b5b 100644
--- a/include/opengv/sac/implementation/MultiRansac.hpp
+++ b/include/opengv/sac/implementation/MultiRansac.hpp
@@ -49,6 +49,9 @@ opengv::sac::MultiRansac<PROBLEM_T>::computeModel(
   typedef typename problem_t::model_t model_t;
 
   iterations_ = 0;
+  // forget the result of an earlier run
+  model_.clear();
+  inliers_.clear();
   int n_best_inliers_count = -INT_MAX;
   double k = 1.0;
 
diff --git a/include/opengv/sac/implementation/Ransac.hpp b/include/opengv/sac/implementation/Ransac.hpp
index a01adc8..5dcc430 100644
--- a/include/opengv/sac/implementation/Ransac.hpp
+++ b/include/opengv/sac/implementation/Ransac.hpp
@@ -49,6 +49,9 @@ opengv::sac::Ransac<PROBLEM_T>::computeModel(
   typedef typename problem_t::model_t model_t;
 
   iterations_ = 0;
+  // forget the result of an earlier run
+  model_.clear();
+  inliers_.clear();
   int n_best_inliers_count = -INT_MAX;
   double k = 1.0;
 
-- 
2.43.0


From f42ecdc64a44248e7a14ec1de11cd361638e59be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:01 +0000
Subject: [PATCH 02/23] fix: evaluate at most max_iterations_ hypotheses in
 Ransac and MultiRansac

The loop only stopped once iterations_ exceeded max_iterations_, i.e. after
max_iterations_+1 hypotheses (Lmeds stops at max_iterations_).
---
 include/opengv/sac/implementation/MultiRansac.hpp | 2 +-
 include/opengv/sac/implementation/Ransac.hpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengv/sac/implementation/MultiRansac.hpp b/include/opengv/sac/implementation/MultiRansac.hpp
index 75a2b5b..0c5a974 100644
--- a/include/opengv/sac/implementation/MultiRansac.hpp
+++ b/include/opengv/sac/implementation/MultiRansac.hpp
@@ -130,7 +130,7 @@ opengv::sac::MultiRansac<PROBLEM_T>::computeModel(
       fprintf(stdout,
           "[sm::RandomSampleConsensus::computeModel] Trial %d out of %f: %d inliers (best is: %d so far).\n",
           iterations_, k, n_inliers_count, n_best_inliers_count );
-    if(iterations_ > max_iterations_)
+    if(iterations_ >= max_iterations_)
     {
       if(debug_verbosity_level > 0)
         fprintf(stdout,
diff --git a/include/opengv/sac/implementation/Ransac.hpp b/include/opengv/sac/implementation/Ransac.hpp
index 5dcc430..0c48b19 100644
--- a/include/opengv/sac/implementation/Ransac.hpp
+++ b/include/opengv/sac/implementation/Ransac.hpp
@@ -120,7 +120,7 @@ opengv::sac::Ransac<PROBLEM_T>::computeModel(
       fprintf(stdout,
           "[sm::RandomSampleConsensus::computeModel] Trial %d out of %f: %d inliers (best is: %d so far).\n",
           iterations_, k, n_inliers_count, n_best_inliers_count );
-    if(iterations_ > max_iterations_)
+    if(iterations_ >= max_iterations_)
     {
       if(debug_verbosity_level > 0)
         fprintf(stdout,
-- 
2.43.0


From 682f761c50d88d0bc9a610e678fcce426a80d797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:58 +0000
Subject: [PATCH 03/23] fix: keep the random start camera in range when rand()
 returns RAND_MAX

---
 .../absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp   | 2 +-
 .../relative_pose/MultiNoncentralRelativePoseSacProblem.cpp   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp b/src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp
index 6f20e48..17ea2cb 100644
--- a/src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp
+++ b/src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp
@@ -175,7 +175,7 @@ opengv::sac_problems::
 
   //set it to a random cam index where to start
   size_t binIndex = floor(((double) _adapter.getNumberFrames()) *
-      ((double) rand()) / ((double) RAND_MAX));
+      ((double) rand()) / (((double) RAND_MAX) + 1.0));
   for( int i = 0; i < sampleSize; i++ )
   {
     sampleSizes[binIndex]++;
diff --git a/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp b/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
index cd9596e..5ed910d 100644
--- a/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
+++ b/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
@@ -71,7 +71,7 @@ opengv::sac_problems::relative_pose::MultiNoncentralRelativePoseSacProblem::
         std::vector<int> sindices;
         //set it to a random cam index where to start
         size_t binIndex = floor(((double) _adapter.getNumberPairs()) *
-            ((double) rand()) / ((double) RAND_MAX));
+            ((double) rand()) / (((double) RAND_MAX) + 1.0));
         std::vector<int> tempIndices;
         for( int i = 0; i < (int) indices.size(); i++ )
           tempIndices.push_back(0);
@@ -379,7 +379,7 @@ opengv::sac_problems::
 
   //set it to a random cam index where to start
   size_t binIndex = floor(((double) _adapter.getNumberPairs()) *
-      ((double) rand()) / ((double) RAND_MAX));
+      ((double) rand()) / (((double) RAND_MAX) + 1.0));
   for( int i = 0; i < sampleSize; i++ )
   {
     sampleSizes[binIndex]++;
-- 
2.43.0


From f79a6b027bcaf52870a0e988ddb88dda7ce97e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:58 +0000
Subject: [PATCH 04/23] fix: score the selected correspondences in the multi
 relative pose problems

---
 .../relative_pose/MultiCentralRelativePoseSacProblem.cpp    | 6 ++++--
 .../relative_pose/MultiNoncentralRelativePoseSacProblem.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.cpp b/src/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.cpp
index 25f446a..078ba2f 100644
--- a/src/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.cpp
+++ b/src/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.cpp
@@ -151,8 +151,10 @@ opengv::sac_problems::
       bearingVector_t reprojection2 = inverseSolution * p_hom;
       reprojection1 = reprojection1 / reprojection1.norm();
       reprojection2 = reprojection2 / reprojection2.norm();
-      bearingVector_t f1 = _adapter.getBearingVector1(pairIndex,correspondenceIndex);
-      bearingVector_t f2 = _adapter.getBearingVector2(pairIndex,correspondenceIndex);
+      bearingVector_t f1 = _adapter.getBearingVector1(
+          pairIndex,indices[pairIndex][correspondenceIndex]);
+      bearingVector_t f2 = _adapter.getBearingVector2(
+          pairIndex,indices[pairIndex][correspondenceIndex]);
 
       //bearing-vector based outlier criterium (select threshold accordingly):
       //1-(f1'*f2) = 1-cos(alpha) \in [0:2]
diff --git a/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp b/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
index 5ed910d..88fa422 100644
--- a/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
+++ b/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
@@ -316,9 +316,11 @@ opengv::sac_problems::relative_pose::
       reprojection1 = reprojection1 / reprojection1.norm();
       reprojection2 = reprojection2 / reprojection2.norm();
       bearingVector_t f1 =
-          _adapter.getBearingVector1(camIndex,correspondenceIndex);
+          _adapter.getBearingVector1(
+              camIndex,indices[camIndex][correspondenceIndex]);
       bearingVector_t f2 =
-          _adapter.getBearingVector2(camIndex,correspondenceIndex);
+          _adapter.getBearingVector2(
+              camIndex,indices[camIndex][correspondenceIndex]);
 
       //bearing-vector based outlier criterium (select threshold accordingly):
       //1-(f1'*f2) = 1-cos(alpha) \in [0:2]
-- 
2.43.0


From d1b49770517ff2cba9b60d0f84ad756a5ba3afe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:14 +0000
Subject: [PATCH 05/23] fix: no shared static buffers in Epnp::qr_solve

---
 src/absolute_pose/modules/Epnp.cpp | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/absolute_pose/modules/Epnp.cpp b/src/absolute_pose/modules/Epnp.cpp
index d52e1ec..ea358d3 100644
--- a/src/absolute_pose/modules/Epnp.cpp
+++ b/src/absolute_pose/modules/Epnp.cpp
@@ -719,23 +719,11 @@ opengv::absolute_pose::modules::Epnp::qr_solve(
 {
   Eigen::Matrix<double,4,6> A = A_orig.transpose();
 
-  static int max_nr = 0;
-  static double * A1, * A2;
-
   const int nr = A_orig.rows();
   const int nc = A_orig.cols();
 
-  if (max_nr != 0 && max_nr < nr)
-  {
-    delete [] A1;
-    delete [] A2;
-  }
-  if (max_nr < nr)
-  {
-    max_nr = nr;
-    A1 = new double[nr];
-    A2 = new double[nr];
-  }
+  // local working memory, such that several threads may solve at the same time
+  double A1[6], A2[6];
 
   double * pA = A.data(), * ppAkk = pA;
   for(int k = 0; k < nc; k++)
-- 
2.43.0


From dabf93e431aa4ddd78c439d16e198751684b65ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:37 +0000
Subject: [PATCH 06/23] fix: take the null direction for the translation of
 six-point hypotheses

---
 .../MultiNoncentralRelativePoseSacProblem.cpp         | 11 ++++++-----
 .../NoncentralRelativePoseSacProblem.cpp              | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp b/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
index 88fa422..e184344 100644
--- a/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
+++ b/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
@@ -164,15 +164,16 @@ opengv::sac_problems::relative_pose::MultiNoncentralRelativePoseSacProblem::
             G = G + newElement;
           }
           
-          //decompose G to find the rotation
-          Eigen::EigenSolver< Eigen::Matrix4d > Eig(G,true);
-          Eigen::Matrix<std::complex<double>,4,4> V = Eig.eigenvectors();
+          //decompose G to find the translation (eigenvector of the smallest
+          //eigenvalue, the eigenvalues are sorted in increasing order)
+          Eigen::SelfAdjointEigenSolver< Eigen::Matrix4d > Eig(G);
+          Eigen::Matrix4d V = Eig.eigenvectors();
 
-          double factor = V(3,0).real();
+          double factor = V(3,0);
           transformation_t transformation;
           transformation.block<3,3>(0,0) = rotations[r];
           for( int k = 0; k < 3; k++ )
-            transformation(k,3) = (1.0/factor) * V(k,0).real();
+            transformation(k,3) = (1.0/factor) * V(k,0);
           transformations.push_back(transformation);
         }
         
diff --git a/src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp b/src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp
index df58181..a3b1842 100644
--- a/src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp
+++ b/src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp
@@ -112,15 +112,16 @@ opengv::sac_problems::
             G = G + newElement;
           }
           
-          //decompose G to find the rotation
-          Eigen::EigenSolver< Eigen::Matrix4d > Eig(G,true);
-          Eigen::Matrix<std::complex<double>,4,4> V = Eig.eigenvectors();
+          //decompose G to find the translation (eigenvector of the smallest
+          //eigenvalue, the eigenvalues are sorted in increasing order)
+          Eigen::SelfAdjointEigenSolver< Eigen::Matrix4d > Eig(G);
+          Eigen::Matrix4d V = Eig.eigenvectors();
 
-          double factor = V(3,0).real();
+          double factor = V(3,0);
           transformation_t transformation;
           transformation.block<3,3>(0,0) = rotations[r];
           for( int k = 0; k < 3; k++ )
-            transformation(k,3) = (1.0/factor) * V(k,0).real();
+            transformation(k,3) = (1.0/factor) * V(k,0);
           transformations.push_back(transformation);
         }
         
-- 
2.43.0


From 967f05bcb107c8ecfbf490f0830448a2174e7914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:48 +0000
Subject: [PATCH 07/23] fix: bracket roots tightly before polishing in
 Sturm::findRoots

The brackets were as wide as a tenth of the bound divided by the number of
roots, from where five Newton iterations often end at another root or nowhere.
fivept_nister lost the true essential matrix in about 5 to 15 percent of exact
non-degenerate scenes because of this.
---
 src/math/Sturm.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/math/Sturm.cpp b/src/math/Sturm.cpp
index 0cebf13..9c80302 100644
--- a/src/math/Sturm.cpp
+++ b/src/math/Sturm.cpp
@@ -278,9 +278,10 @@ opengv::math::Sturm::findRoots2( std::vector<double> & roots, double eps_x, doub
 std::vector<double>
 opengv::math::Sturm::findRoots()
 {
-  //bracket the roots
+  //bracket the roots, tightly enough for the Newton iterations below to stay
+  //with their root
   std::vector<double> roots;
-  bracketRoots(roots);
+  bracketRoots(roots, 1.0e-9 * computeLagrangianBound());
 
   //pollish
   Eigen::MatrixXd monomials(_dimension,1);
-- 
2.43.0


From 9b07786f182398f1137c62cd77f649978fc0de41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:48 +0000
Subject: [PATCH 08/23] fix: Sturm bound misses roots on it and roots of linear
 polynomials

---
 src/math/Sturm.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/math/Sturm.cpp b/src/math/Sturm.cpp
index 9c80302..e525bb6 100644
--- a/src/math/Sturm.cpp
+++ b/src/math/Sturm.cpp
@@ -481,13 +481,14 @@ opengv::math::Sturm::computeLagrangianBound()
 
   coefficients[j] = -1.0;
 
-  double max2 = -1.0;
+  double max2 = 0.0;
   for( size_t i=0; i < coefficients.size(); i++ )
   {
     if( coefficients[i] > max2 )
       max2 = coefficients[i];
   }
 
-  double bound = max1 + max2;
+  //stay clear of roots that lie exactly on the bound (e.g. x^2-1)
+  double bound = 1.001 * (max1 + max2);
   return bound;
 }
-- 
2.43.0


From e2672da0e1e82c6bdec7146f0ca0ae1385639ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:48 +0000
Subject: [PATCH 09/23] fix: Sturm::findRoots2 never ends when a Newton step
 stops decreasing the value

With large coefficients the value at the closest double stays above eps_val, the
step is zero and the loop repeats it for ever.
---
 src/math/Sturm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/Sturm.cpp b/src/math/Sturm.cpp
index e525bb6..50a830e 100644
--- a/src/math/Sturm.cpp
+++ b/src/math/Sturm.cpp
@@ -237,7 +237,7 @@ opengv::math::Sturm::findRoots2( std::vector<double> & roots, double eps_x, doub
           
           double newValue = matValue(0,0);
           
-          if( fabs(newValue) > fabs(value) )
+          if( !(fabs(newValue) < fabs(value)) )
             break;
           
           //do update
-- 
2.43.0


From 1aa65f387eb3d8456891fed85263635df5e6f14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:12 +0000
Subject: [PATCH 10/23] fix: o3_roots returned NaN for triple roots and for x^3
 = c with c > 0

---
 src/math/roots.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/math/roots.cpp b/src/math/roots.cpp
index c31b27c..e7445aa 100644
--- a/src/math/roots.cpp
+++ b/src/math/roots.cpp
@@ -52,7 +52,8 @@ opengv::math::o3_roots( const std::vector<double> & p )
   
   if( term >= 0.0 )
   {
-    double C3 = 0.5 * (theta_1 + sqrt(term));
+    //take the sign that does not cancel (C must not vanish unless both thetas do)
+    double C3 = 0.5 * (theta_1 + (theta_1 < 0.0 ? -sqrt(term) : sqrt(term)));
     
     if( C3 < 0.0 )
       C = std::complex<double>(-pow(-C3,(1.0/3.0)),0.0);
@@ -73,6 +74,10 @@ opengv::math::o3_roots( const std::vector<double> & p )
     C = std::complex<double>(r*cos(a3/3.0),r*sin(a3/3.0));
   }
   
+  //triple root
+  if( C == std::complex<double>(0.0,0.0) )
+    return std::vector<double>(3,-b/(3.0*a));
+
   std::complex<double> r1 = -(1.0/(3.0*a)) * (b + u1*C + theta_0 / (u1*C) );
   std::complex<double> r2 = -(1.0/(3.0*a)) * (b + u2*C + theta_0 / (u2*C) );
   std::complex<double> r3 = -(1.0/(3.0*a)) * (b + u3*C + theta_0 / (u3*C) );
-- 
2.43.0


From 8df71e58cad77db49e18e42fa8d0b8dc837464d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:12 +0000
Subject: [PATCH 11/23] fix: o4_roots gave wrong roots for (almost) biquadratic
 polynomials

If the quartic is symmetric around -B/(4A), one root of the resolvent cubic makes
w = 0, and beta/w is not defined. That root was taken in some cases.
---
 src/math/roots.cpp | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/math/roots.cpp b/src/math/roots.cpp
index e7445aa..90134df 100644
--- a/src/math/roots.cpp
+++ b/src/math/roots.cpp
@@ -89,6 +89,27 @@ opengv::math::o3_roots( const std::vector<double> & p )
   return roots;
 }
 
+//Any root of the resolvent cubic can be used, except the one with
+//alpha+2y = 0 (which exists if the quartic is biquadratic)
+static std::complex<double>
+resolventRoot(
+    double alpha,
+    const std::complex<double> & P,
+    const std::complex<double> & U )
+{
+  std::complex<double> y;
+  std::complex<double> unit(1.0,0.0);
+  for( int k = 0; k < 3; k++ )
+  {
+    std::complex<double> Uk = U*unit;
+    std::complex<double> yk = -5.0*alpha/6.0-P/(3.0*Uk)+Uk;
+    if( k == 0 || std::abs(alpha+2.0*yk) > std::abs(alpha+2.0*y) )
+      y = yk;
+    unit *= std::complex<double>(-0.5,0.5*sqrt(3.0));
+  }
+  return y;
+}
+
 std::vector<double>
 opengv::math::o4_roots( const Eigen::MatrixXd & p )
 {
@@ -114,7 +135,8 @@ opengv::math::o4_roots( const Eigen::MatrixXd & p )
 
   std::complex<double> P (-alpha_pw2/12-gamma,0);
   std::complex<double> Q (-alpha_pw3/108+alpha*gamma/3-pow(beta,2)/8,0);
-  std::complex<double> R = -Q/2.0+sqrt(pow(Q,2.0)/4.0+pow(P,3.0)/27.0);
+  std::complex<double> S = sqrt(pow(Q,2.0)/4.0+pow(P,3.0)/27.0);
+  std::complex<double> R = -Q/2.0 + (Q.real() > 0.0 ? -S : S); //no cancellation
 
   std::complex<double> U = pow(R,(1.0/3.0));
   std::complex<double> y;
@@ -122,7 +144,7 @@ opengv::math::o4_roots( const Eigen::MatrixXd & p )
   if (U.real() == 0)
     y = -5.0*alpha/6.0-pow(Q,(1.0/3.0));
   else
-    y = -5.0*alpha/6.0-P/(3.0*U)+U;
+    y = resolventRoot(alpha,P,U);
 
   std::complex<double> w = sqrt(alpha+2.0*y);
 
@@ -165,7 +187,8 @@ opengv::math::o4_roots( const std::vector<double> & p )
 
   std::complex<double> P (-alpha_pw2/12-gamma,0);
   std::complex<double> Q (-alpha_pw3/108+alpha*gamma/3-pow(beta,2)/8,0);
-  std::complex<double> R = -Q/2.0+sqrt(pow(Q,2.0)/4.0+pow(P,3.0)/27.0);
+  std::complex<double> S = sqrt(pow(Q,2.0)/4.0+pow(P,3.0)/27.0);
+  std::complex<double> R = -Q/2.0 + (Q.real() > 0.0 ? -S : S); //no cancellation
 
   std::complex<double> U = pow(R,(1.0/3.0));
   std::complex<double> y;
@@ -173,7 +196,7 @@ opengv::math::o4_roots( const std::vector<double> & p )
   if (U.real() == 0)
     y = -5.0*alpha/6.0-pow(Q,(1.0/3.0));
   else
-    y = -5.0*alpha/6.0-P/(3.0*U)+U;
+    y = resolventRoot(alpha,P,U);
 
   std::complex<double> w = sqrt(alpha+2.0*y);
 
-- 
2.43.0


From 5125211c3b7cda8bad8e68564701ce30ab2c08e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:03 +0000
Subject: [PATCH 12/23] fix: rot2quaternion returned NaN for the identity and
 other rotations with zero quaternion components

---
 src/math/quaternion.cpp | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/math/quaternion.cpp b/src/math/quaternion.cpp
index 22d50db..134991c 100644
--- a/src/math/quaternion.cpp
+++ b/src/math/quaternion.cpp
@@ -49,6 +49,13 @@ opengv::math::quaternion2rot( const quaternion_t & q)
   return R;
 }
 
+//1 or -1, and 1 for zero (where the component is zero and has no sign)
+static double
+sign( double x )
+{
+  return x < 0.0 ? -1.0 : 1.0;
+}
+
 opengv::quaternion_t
 opengv::math::rot2quaternion( const rotation_t & R )
 {
@@ -69,29 +76,29 @@ opengv::math::rot2quaternion( const rotation_t & R )
   if(q[0] >= q[1] && q[0] >= q[2] && q[0] >= q[3])
   {
     q[0] *= +1.0;
-    q[1] *= ((R(2,1)-R(1,2))/fabs(R(2,1)-R(1,2)));
-    q[2] *= ((R(0,2)-R(2,0))/fabs(R(0,2)-R(2,0)));
-    q[3] *= ((R(1,0)-R(0,1))/fabs(R(1,0)-R(0,1)));
+    q[1] *= sign(R(2,1)-R(1,2));
+    q[2] *= sign(R(0,2)-R(2,0));
+    q[3] *= sign(R(1,0)-R(0,1));
   }
   else if(q[1] >= q[0] && q[1] >= q[2] && q[1] >= q[3])
   {
-    q[0] *= ((R(2,1)-R(1,2))/fabs(R(2,1)-R(1,2)));
+    q[0] *= sign(R(2,1)-R(1,2));
     q[1] *= +1.0;
-    q[2] *= ((R(1,0)+R(0,1))/fabs(R(1,0)+R(0,1)));
-    q[3] *= ((R(0,2)+R(2,0))/fabs(R(0,2)+R(2,0)));
+    q[2] *= sign(R(1,0)+R(0,1));
+    q[3] *= sign(R(0,2)+R(2,0));
   }
   else if(q[2] >= q[0] && q[2] >= q[1] && q[2] >= q[3])
   {
-    q[0] *= ((R(0,2)-R(2,0))/fabs(R(0,2)-R(2,0)));
-    q[1] *= ((R(1,0)+R(0,1))/fabs(R(1,0)+R(0,1)));
+    q[0] *= sign(R(0,2)-R(2,0));
+    q[1] *= sign(R(1,0)+R(0,1));
     q[2] *= +1.0;
-    q[3] *= ((R(2,1)+R(1,2))/fabs(R(2,1)+R(1,2)));
+    q[3] *= sign(R(2,1)+R(1,2));
   }
   else if(q[3] >= q[0] && q[3] >= q[1] && q[3] >= q[2])
   {
-    q[0] *= ((R(1,0)-R(0,1))/fabs(R(1,0)-R(0,1)));
-    q[1] *= ((R(2,0)+R(0,2))/fabs(R(2,0)+R(0,2)));
-    q[2] *= ((R(2,1)+R(1,2))/fabs(R(2,1)+R(1,2)));  
+    q[0] *= sign(R(1,0)-R(0,1));
+    q[1] *= sign(R(2,0)+R(0,2));
+    q[2] *= sign(R(2,1)+R(1,2));  
     q[3] *= +1.0;
   }
   else
-- 
2.43.0


From 9ba47721d67414da83cf3bb56c6b83e7fd36b95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:03 +0000
Subject: [PATCH 13/23] fix: triangulate failed for bearing vectors
 perpendicular to the optical axis

---
 src/triangulation/methods.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/triangulation/methods.cpp b/src/triangulation/methods.cpp
index 0a88906..9adbf3c 100644
--- a/src/triangulation/methods.cpp
+++ b/src/triangulation/methods.cpp
@@ -47,11 +47,15 @@ opengv::triangulation::triangulate(
   bearingVector_t f1 = adapter.getBearingVector1(index);
   bearingVector_t f2 = adapter.getBearingVector2(index);
 
-  Eigen::MatrixXd A(4,4);
+  //all three rows of each cross-product are needed, as the first two are
+  //dependent if the third coordinate of the bearing vector is zero
+  Eigen::MatrixXd A(6,4);
   A.row(0) = f1[0] * P1.row(2) - f1[2] * P1.row(0);
   A.row(1) = f1[1] * P1.row(2) - f1[2] * P1.row(1);
-  A.row(2) = f2[0] * P2.row(2) - f2[2] * P2.row(0);
-  A.row(3) = f2[1] * P2.row(2) - f2[2] * P2.row(1);
+  A.row(2) = f1[0] * P1.row(1) - f1[1] * P1.row(0);
+  A.row(3) = f2[0] * P2.row(2) - f2[2] * P2.row(0);
+  A.row(4) = f2[1] * P2.row(2) - f2[2] * P2.row(1);
+  A.row(5) = f2[0] * P2.row(1) - f2[1] * P2.row(0);
 
   Eigen::JacobiSVD< Eigen::MatrixXd > mySVD(A, Eigen::ComputeFullV );
   point_t worldPoint;
-- 
2.43.0


From c8603d663ba2f5127c53abb88dde0b30d2a6cc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:22 +0000
Subject: [PATCH 14/23] fix: Sturm::findRoots2 returned a root on the bound of
 a bracket instead of the one inside

---
 src/math/Sturm.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/math/Sturm.cpp b/src/math/Sturm.cpp
index 50a830e..d171691 100644
--- a/src/math/Sturm.cpp
+++ b/src/math/Sturm.cpp
@@ -249,6 +249,13 @@ opengv::math::Sturm::findRoots2( std::vector<double> & roots, double eps_x, doub
             converged = true;
         }
         
+        //make sure this is the root of this bracket, and not one that lies on
+        //(or just behind) its bound
+        if( converged &&
+            evaluateChain2(std::max(root-eps_x,bracket->lowerBound())) !=
+            evaluateChain2(std::min(root+eps_x,bracket->upperBound())) + 1 )
+          converged = false;
+
         if( converged )
         {
           divide = false;
-- 
2.43.0


From 210d7c0c6ae27311753ec0bb6e34e9c0e289ce8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:47 +0000
Subject: [PATCH 15/23] fix: Sturm lost the root of p(x) = x

---
 src/math/Sturm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/math/Sturm.cpp b/src/math/Sturm.cpp
index d171691..ec49d52 100644
--- a/src/math/Sturm.cpp
+++ b/src/math/Sturm.cpp
@@ -497,5 +497,7 @@ opengv::math::Sturm::computeLagrangianBound()
 
   //stay clear of roots that lie exactly on the bound (e.g. x^2-1)
   double bound = 1.001 * (max1 + max2);
+  if( bound == 0.0 )
+    bound = 1.0; //all the roots are zero
   return bound;
 }
-- 
2.43.0


From 8ca85a82b7fd614e45f6123fa31b0acc298fe143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:16 +0000
Subject: [PATCH 16/23] fix: Sturm chain was wrong when a remainder drops more
 than one degree

x^4-x-1 and the like: the division by the zero leading coefficient gave NaN for
the rest of the chain, and roots were lost.
---
 src/math/Sturm.cpp | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/math/Sturm.cpp b/src/math/Sturm.cpp
index ec49d52..7bf5e48 100644
--- a/src/math/Sturm.cpp
+++ b/src/math/Sturm.cpp
@@ -449,21 +449,25 @@ opengv::math::Sturm::computeNegatedRemainder(
     const Eigen::MatrixXd & p2,
     Eigen::MatrixXd & r )
 {
-  //we have to create 3 subtraction polynomials
-  Eigen::MatrixXd poly_1(1,p1.cols());
-  poly_1.block(0,0,1,p2.cols()) = (p1(0,0)/p2(0,0)) * p2;
-  poly_1(0,p1.cols()-1) = 0.0;
+  //long division, the leading coefficients of p2 may be zero
+  size_t lead = 0;
+  while( lead < (size_t) p2.cols() && p2(0,lead) == 0.0 )
+    lead++;
 
-  Eigen::MatrixXd poly_2(1,p1.cols());
-  poly_2.block(0,1,1,p2.cols()) = (p1(0,1)/p2(0,0)) * p2;
-  poly_2(0,0) = 0.0;
-
-  Eigen::MatrixXd poly_3(1,p1.cols());
-  poly_3.block(0,1,1,p2.cols()) = (-p2(0,1)*p1(0,0)/pow(p2(0,0),2)) * p2;
-  poly_3(0,0) = 0.0;
+  r = -p1;
+  if( lead == (size_t) p2.cols() )
+  {
+    //the chain has ended already
+    r.setZero();
+    return;
+  }
 
-  //compute remainder
-  r = -p1 + poly_1 + poly_2 + poly_3;
+  for( size_t i = 0; i + p2.cols() - lead <= (size_t) r.cols(); i++ )
+  {
+    double factor = r(0,i) / p2(0,lead);
+    r.block(0,i,1,p2.cols()-lead) -= factor * p2.block(0,lead,1,p2.cols()-lead);
+    r(0,i) = 0.0;
+  }
 }
 
 double
-- 
2.43.0


From 36791655ea80d788baa0db4c2e39bc18a9c6f755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:29 +0000
Subject: [PATCH 17/23] fix: p2p divided by zero if the largest coordinates of
 the baseline are equal and the last one is zero

---
 src/absolute_pose/methods.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/absolute_pose/methods.cpp b/src/absolute_pose/methods.cpp
index b1f0889..6ceb95b 100644
--- a/src/absolute_pose/methods.cpp
+++ b/src/absolute_pose/methods.cpp
@@ -73,7 +73,7 @@ opengv::absolute_pose::p2p(
   Eigen::Vector3d n1 = adapter.getPoint(index1) - adapter.getPoint(index0);
   n1 = n1/n1.norm();
   Eigen::Vector3d n3;
-  if( (fabs(n1[0]) > fabs(n1[1])) && (fabs(n1[0]) > fabs(n1[2])) )
+  if( (fabs(n1[0]) >= fabs(n1[1])) && (fabs(n1[0]) >= fabs(n1[2])) )
   {
     n3[1] = 1.0;
     n3[2] = 0.0;
@@ -81,7 +81,7 @@ opengv::absolute_pose::p2p(
   }
   else
   {
-    if( (fabs(n1[1]) > fabs(n1[0])) && (fabs(n1[1]) > fabs(n1[2])) )
+    if( (fabs(n1[1]) >= fabs(n1[0])) && (fabs(n1[1]) >= fabs(n1[2])) )
     {
       n3[2] = 1.0;
       n3[0] = 0.0;
-- 
2.43.0


From 05ff0b4bd8c980090683b7bdcb1cf77469a0040f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:26 +0000
Subject: [PATCH 18/23] fix: gpnp kept the distances of one control point only

---
 src/absolute_pose/modules/main.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/absolute_pose/modules/main.cpp b/src/absolute_pose/modules/main.cpp
index ed0c271..61c3779 100644
--- a/src/absolute_pose/modules/main.cpp
+++ b/src/absolute_pose/modules/main.cpp
@@ -450,9 +450,9 @@ opengv::absolute_pose::modules::gpnp_main(
   Eigen::Matrix<double,12,1> vec_1 = V.col(11);
 
   point_t c0 = c[0];
-  point_t c1 = c[0];
-  point_t c2 = c[0];
-  point_t c3 = c[0];
+  point_t c1 = c[1];
+  point_t c2 = c[2];
+  point_t c3 = c[3];
 
   Eigen::Matrix<double,12,1> solution;
   std::vector<double> errors;
-- 
2.43.0


From 73d2e8e267e26b8217cbc8daa39aeb111d35efbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:26 +0000
Subject: [PATCH 19/23] fix: wrong factor in the fifth null space solution of
 gpnp

---
 src/absolute_pose/modules/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/absolute_pose/modules/main.cpp b/src/absolute_pose/modules/main.cpp
index 61c3779..4b3a4fc 100644
--- a/src/absolute_pose/modules/main.cpp
+++ b/src/absolute_pose/modules/main.cpp
@@ -561,7 +561,7 @@ opengv::absolute_pose::modules::gpnp_main(
       groebnerMatrix5(39,78)*factors[0]+groebnerMatrix5(39,79))/
       groebnerMatrix5(39,75);
   factors.push_back(
-      -(groebnerMatrix5(38,75)*factors[3]+groebnerMatrix5(38,76)*factors[1]+
+      -(groebnerMatrix5(38,75)*factors[3]+groebnerMatrix5(38,76)*factors[2]+
       groebnerMatrix5(38,77)*factors[1]+groebnerMatrix5(38,78)*factors[0]+
       groebnerMatrix5(38,79))/groebnerMatrix5(38,74));
   gpnp_optimize( a, V, c, factors );
-- 
2.43.0


From d71d4bfa2c0bf1a498f036a6cdad2a766fa7e148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:53 +0000
Subject: [PATCH 20/23] fix: Gauss-Jordan elimination keeps its row when no
 pivot compares

A column of NaN (from an earlier zero pivot) left the pivot row at -1, and
matrix[-1] was swapped.
---
 src/math/gauss_jordan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/gauss_jordan.cpp b/src/math/gauss_jordan.cpp
index e3e477a..978e6e9 100644
--- a/src/math/gauss_jordan.cpp
+++ b/src/math/gauss_jordan.cpp
@@ -50,7 +50,7 @@ opengv::math::gauss_jordan(
     // first iterate through the rows and find the row that has the biggest
     // leading coefficient
     double maxValue = -1.0;
-    int row = -1;
+    int row = frontRow;
     for( int tempRow = frontRow; tempRow < rows; tempRow++ )
     {
       double value = fabs((*(matrix[tempRow]))[frontRow]);
-- 
2.43.0


From 0a09d9f6017de34885f235ad2bb98e440b1e08a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:06 +0000
Subject: [PATCH 21/23] fix: no negative number of roots in a Sturm bracket

Round-off (or non-finite coefficients) can make the number of sign changes
grow towards the upper bound. The difference wrapped around, which threw
std::length_error from reserve().
---
 src/math/Sturm.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/math/Sturm.cpp b/src/math/Sturm.cpp
index 7bf5e48..2ad570d 100644
--- a/src/math/Sturm.cpp
+++ b/src/math/Sturm.cpp
@@ -136,6 +136,9 @@ opengv::math::Bracket::numberRoots() const
     std::cout << "Error: cannot evaluate number of roots" <<std::endl;
     return 0;
   }
+  //round-off in the chain may make the number of sign changes grow
+  if( _lowerBoundChanges < _upperBoundChanges )
+    return 0;
   return _lowerBoundChanges - _upperBoundChanges;
 }
 
-- 
2.43.0


From e5e6a7a58413241160d3eecd70122c17795cd18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:06 +0000
Subject: [PATCH 22/23] fix: do not use eigenvectors of a decomposition that
 failed

EigenSolver fails for non-finite action matrices; its eigenvectors must not be
read then (assertion, or undefined values as candidates).
---
 src/absolute_pose/modules/main.cpp | 6 ++++++
 src/relative_pose/modules/main.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/absolute_pose/modules/main.cpp b/src/absolute_pose/modules/main.cpp
index 4b3a4fc..9c9b688 100644
--- a/src/absolute_pose/modules/main.cpp
+++ b/src/absolute_pose/modules/main.cpp
@@ -390,6 +390,8 @@ opengv::absolute_pose::modules::gp3p_main(
   M(7,6) = 1.0;
 
   Eigen::EigenSolver< Eigen::Matrix<double,8,8> > Eig(M,true);
+  if( Eig.info() != Eigen::Success )
+    return;
   Eigen::Matrix<std::complex<double>,8,1> D = Eig.eigenvalues();
   Eigen::Matrix<std::complex<double>,8,8> V = Eig.eigenvectors();
 
@@ -731,6 +733,8 @@ opengv::absolute_pose::modules::upnp_main(
   Eigen::Matrix<double,16,16> Action;
   upnp::setupAction_gj( M, C, gamma, Action );
   Eigen::EigenSolver< Eigen::Matrix<double,16,16> > Eig( Action, true );
+  if( Eig.info() != Eigen::Success )
+    return;
   Eigen::Matrix<std::complex<double>,16,16> V = Eig.eigenvectors();
   
   //cut the double solutions
@@ -794,6 +798,8 @@ opengv::absolute_pose::modules::upnp_main_sym(
   Eigen::Matrix<double,8,8> Action;
   upnp::setupAction_sym_gj( M, C, gamma, Action );
   Eigen::EigenSolver< Eigen::Matrix<double,8,8> > Eig( Action, true );
+  if( Eig.info() != Eigen::Success )
+    return;
   Eigen::Matrix<std::complex<double>,8,8> V = Eig.eigenvectors();
   
   //ok, let's cut the imaginary solutions (with a reasonable threshold!)
diff --git a/src/relative_pose/modules/main.cpp b/src/relative_pose/modules/main.cpp
index 674c36b..f4c80b2 100644
--- a/src/relative_pose/modules/main.cpp
+++ b/src/relative_pose/modules/main.cpp
@@ -74,6 +74,8 @@ opengv::relative_pose::modules::fivept_stewenius_main(
   M(9,6) = 1.0;
 
   Eigen::EigenSolver< Eigen::Matrix<double,10,10> > Eig(M,true);
+  if( Eig.info() != Eigen::Success )
+    return;
 
   //Eigen::Matrix<std::complex<double>,10,1> D = Eig.eigenvalues();
   Eigen::Matrix<std::complex<double>,10,10> V = Eig.eigenvectors();
@@ -335,6 +337,8 @@ opengv::relative_pose::modules::fivept_kneip_main(
   M(19,18) = 1.0;
 
   Eigen::EigenSolver< Eigen::Matrix<double,20,20> > Eig(M,true);
+  if( Eig.info() != Eigen::Success )
+    return;
   Eigen::Matrix<std::complex<double>,20,1> D = Eig.eigenvalues();
   Eigen::Matrix<std::complex<double>,20,20> V = Eig.eigenvectors();
 
@@ -708,6 +712,8 @@ opengv::relative_pose::modules::sixpt_main(
   
   //finally eigen-decompose the action-matrix and obtain the solutions
   Eigen::EigenSolver< Eigen::Matrix<double,64,64> > Eig(Action,true);
+  if( Eig.info() != Eigen::Success )
+    return;
   Eigen::Matrix<std::complex<double>,64,64> EV = Eig.eigenvectors();
   
   solutions.reserve(64);  
-- 
2.43.0


From 823ca71d5cfbfd8dbc454dcc623dd88c1441c342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:56 +0000
Subject: [PATCH 23/23] fix: eigensolver and ge without eigenvectors if the
 decomposition failed

---
 src/relative_pose/modules/main.cpp | 31 ++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/relative_pose/modules/main.cpp b/src/relative_pose/modules/main.cpp
index f4c80b2..ce5457c 100644
--- a/src/relative_pose/modules/main.cpp
+++ b/src/relative_pose/modules/main.cpp
@@ -30,6 +30,7 @@
 
 
 #include <math.h>
+#include <limits>
 #include <vector>
 #include <Eigen/NonLinearOptimization>
 #include <Eigen/NumericalDiff>
@@ -661,6 +662,16 @@ opengv::relative_pose::modules::eigensolver_main(
 
   Eigen::Matrix3d M = eigensolver::composeM(xxF,yyF,zzF,xyF,yzF,zxF,cayley);
   Eigen::EigenSolver< Eigen::Matrix3d > Eig(M,true);
+  if( Eig.info() != Eigen::Success )
+  {
+    //no decomposition (data that are not finite), hence no translation
+    double nan = std::numeric_limits<double>::quiet_NaN();
+    output.translation.setConstant(nan);
+    output.rotation = R;
+    output.eigenvalues.setConstant(nan);
+    output.eigenvectors.setConstant(nan);
+    return;
+  }
   Eigen::Matrix<std::complex<double>,3,1> D_complex = Eig.eigenvalues();
   Eigen::Matrix<std::complex<double>,3,3> V_complex = Eig.eigenvectors();
   eigenvalues_t D;
@@ -853,6 +864,16 @@ opengv::relative_pose::modules::ge_main(
       x1P,y1P,z1P,x2P,y2P,z2P,m11P,m12P,m22P,cayley);
   
   Eigen::EigenSolver< Eigen::Matrix4d > Eig(G,true);
+  if( Eig.info() != Eigen::Success )
+  {
+    //no decomposition (data that are not finite), hence no translation
+    double nan = std::numeric_limits<double>::quiet_NaN();
+    output.translation.setConstant(nan);
+    output.rotation = R;
+    output.eigenvalues.setConstant(nan);
+    output.eigenvectors.setConstant(nan);
+    return;
+  }
   Eigen::Matrix<std::complex<double>,4,1> D_complex = Eig.eigenvalues();
   Eigen::Matrix<std::complex<double>,4,4> V_complex = Eig.eigenvectors();
   Eigen::Vector4d D;
@@ -1025,6 +1046,16 @@ opengv::relative_pose::modules::ge_main2(
       x1P,y1P,z1P,x2P,y2P,z2P,m11P,m12P,m22P,cayley);
   
   Eigen::EigenSolver< Eigen::Matrix4d > Eig(G,true);
+  if( Eig.info() != Eigen::Success )
+  {
+    //no decomposition (data that are not finite), hence no translation
+    double nan = std::numeric_limits<double>::quiet_NaN();
+    output.translation.setConstant(nan);
+    output.rotation = math::cayley2rot(cayley);
+    output.eigenvalues.setConstant(nan);
+    output.eigenvectors.setConstant(nan);
+    return;
+  }
   Eigen::Matrix<std::complex<double>,4,1> D_complex = Eig.eigenvalues();
   Eigen::Matrix<std::complex<double>,4,4> V_complex = Eig.eigenvectors();
   Eigen::Vector4d D;
-- 
2.43.0


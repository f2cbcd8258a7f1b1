From 2fa67adf946d0ed10f7350023495d65d201d8d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:17 +0000
Subject: [PATCH 01/76] fix: contravariant metric and basis of a point were the
 covariant ones (planar metric, spatial basis)

---
 src/gsMaterialMatrixBaseDim.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gsMaterialMatrixBaseDim.hpp b/src/gsMaterialMatrixBaseDim.hpp
index 8ca1bfc..ea58012 100644
--- a/src/gsMaterialMatrixBaseDim.hpp
+++ b/src/gsMaterialMatrixBaseDim.hpp
@@ -1125,7 +1125,7 @@ gsMaterialMatrixBaseDim<dim,T>::_getMetricDeformed_impl(const index_t k, const T
 
     // Assign members
     m_data.mine().m_acov_def = acov_def;
-    m_data.mine().m_acon_def = acov_def;
+    m_data.mine().m_acon_def = acon_def;
     m_data.mine().m_gcov_def = gcov_def;
     m_data.mine().m_gcon_def = gcon_def;
 
@@ -1154,7 +1154,7 @@ gsMaterialMatrixBaseDim<dim,T>::_getMetricDeformed_impl(const index_t k, const T
 
     // Get metric information
     Acov_def = m_data.mine().m_Acov_def_mat.reshapeCol(k,2,2);
-    Acon_def = m_data.mine().m_Acov_def_mat.reshapeCol(k,2,2);
+    Acon_def = m_data.mine().m_Acon_def_mat.reshapeCol(k,2,2);
 
     // Compute full metric
     Gcov_def.setZero();
@@ -1256,7 +1256,7 @@ gsMaterialMatrixBaseDim<dim,T>::_getMetricUndeformed_impl(const index_t k, const
 
     // Assign members
     m_data.mine().m_acov_ori = acov_ori;
-    m_data.mine().m_acon_ori = acov_ori;
+    m_data.mine().m_acon_ori = acon_ori;
     m_data.mine().m_gcov_ori = gcov_ori;
     m_data.mine().m_gcon_ori = gcon_ori;
 
@@ -1283,7 +1283,7 @@ gsMaterialMatrixBaseDim<dim,T>::_getMetricUndeformed_impl(const index_t k, const
 
     // Get metric information
     Acov_ori = m_data.mine().m_Acov_ori_mat.reshapeCol(k,2,2);
-    Acon_ori = m_data.mine().m_Acov_ori_mat.reshapeCol(k,2,2);
+    Acon_ori = m_data.mine().m_Acon_ori_mat.reshapeCol(k,2,2);
 
     // Compute full metric
     Gcov_ori.setZero();
-- 
2.43.0


From ebce597cc92c57398ec9e068643083b0c52d5f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:17 +0000
Subject: [PATCH 02/76] fix: thickness-stretch iteration of compressible
 materials left C33>0 or the convex range and failed

---
 src/gsMaterialMatrixNonlinear.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gsMaterialMatrixNonlinear.hpp b/src/gsMaterialMatrixNonlinear.hpp
index 488a24c..875ffc5 100644
--- a/src/gsMaterialMatrixNonlinear.hpp
+++ b/src/gsMaterialMatrixNonlinear.hpp
@@ -1911,6 +1911,9 @@ gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::_eval3D_Compres
             dc33 = -2. * S33 / C3333;
             for (index_t it = 0; it < itmax; it++)
             {
+                // Safeguard the Newton step: follow the sign of -S33 and stay in C33>0
+                if (C3333 <= 0 || math::abs(dc33) > 0.5*c(2,2))
+                    dc33 = (S33 > 0) ? -0.5*c(2,2) : 0.5*c(2,2);
                 c(2,2) += dc33;
 
                 //GISMO_ENSURE(c(2,2)>= 0,"ERROR in iteration "<<it<<"; c(2,2) = " << c(2,2) << " C3333=" << C3333 <<" S33=" << S33<<" dc33 = "<<dc33);
@@ -1985,6 +1988,9 @@ gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::_eval3D_Compres
             dc33 = -2. * S33 / C3333;
             for (index_t it = 0; it < itmax; it++)
             {
+                // Safeguard the Newton step: follow the sign of -S33 and stay in C33>0
+                if (C3333 <= 0 || math::abs(dc33) > 0.5*c(2,2))
+                    dc33 = (S33 > 0) ? -0.5*c(2,2) : 0.5*c(2,2);
                 c(2,2) += dc33;
 
                 //GISMO_ENSURE(c(2,2)>= 0,"ERROR in iteration "<<it<<"; c(2,2) = " << c(2,2) << " C3333=" << C3333 <<" S33=" << S33<<" dc33 = "<<dc33);
-- 
2.43.0


From 2a82f22f466ebf4bc73de3209ef69e88a959f1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:52 +0000
Subject: [PATCH 03/76] fix: principal stretches of traceless deformations were
 reported as the identity

---
 src/gsMaterialMatrixBaseDim.hpp | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/src/gsMaterialMatrixBaseDim.hpp b/src/gsMaterialMatrixBaseDim.hpp
index ea58012..e2c52e6 100644
--- a/src/gsMaterialMatrixBaseDim.hpp
+++ b/src/gsMaterialMatrixBaseDim.hpp
@@ -1345,22 +1345,9 @@ std::pair<gsVector<T>,gsMatrix<T>> gsMaterialMatrixBaseDim<dim,T>::_evalStretch(
         for (index_t l = 0; l != 2; l++)
             B += C(k,l) * gcon_ori.col(k) * gcon_ori.col(l).transpose();
 
-    gsMatrix<T> eigVectors(3,3);
-    gsMatrix<T> eigValues(3,1);
-    if (math::abs(((B.block(0,0,2,2).diagonal()).array()-1).sum()) < 10*std::numeric_limits<T>::epsilon())
-    {
-        eigValues<<0,1,1; // eigenvalues when B = [1 0 0; 0 1 0; 0 0 0]
-        eigVectors<<0,0,1,
-                    0,1,0,
-                    1,0,0;
-    }
-    else
-    {
-        eigSolver.compute(B);
-        eigValues = eigSolver.eigenvalues();
-        eigVectors= eigSolver.eigenvectors();
-    }
-
+    eigSolver.compute(B);
+    const gsMatrix<T> eigValues = eigSolver.eigenvalues();
+    const gsMatrix<T> eigVectors= eigSolver.eigenvectors();
 
     stretchvec.leftCols(2) = eigVectors.rightCols(2);
     stretchvec.col(2) = gcon_ori.col(2); // replace with: stretchvec.col(0).template head<3>().cross(stretchvec.col(1).template head<3>())
-- 
2.43.0


From 660e78353eb0dcc2e260d3677852a976d17be8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:11 +0000
Subject: [PATCH 04/76] fix: principal stresses and strains of a batch used the
 basis of its last point

---
 src/gsMaterialMatrixBaseDim.hpp   | 1 +
 src/gsMaterialMatrixLinear.hpp    | 3 +++
 src/gsMaterialMatrixNonlinear.hpp | 3 +++
 3 files changed, 7 insertions(+)

diff --git a/src/gsMaterialMatrixBaseDim.hpp b/src/gsMaterialMatrixBaseDim.hpp
index e2c52e6..d470a3f 100644
--- a/src/gsMaterialMatrixBaseDim.hpp
+++ b/src/gsMaterialMatrixBaseDim.hpp
@@ -254,6 +254,7 @@ gsMatrix<T> gsMaterialMatrixBaseDim<dim,T>::eval3D_pstrain(const index_t patch,
         for( index_t j=0; j < z.rows(); ++j ) // through-thickness points
         {
             colIdx = j * u.cols() + k;
+            this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             E.setZero();
             E(0,0) = Emat(0,colIdx);
             E(1,1) = Emat(1,colIdx);
diff --git a/src/gsMaterialMatrixLinear.hpp b/src/gsMaterialMatrixLinear.hpp
index 6908828..de105b2 100644
--- a/src/gsMaterialMatrixLinear.hpp
+++ b/src/gsMaterialMatrixLinear.hpp
@@ -377,6 +377,7 @@ gsMatrix<T> gsMaterialMatrixLinear<dim,T>::eval3D_pstress(const index_t patch, c
         for( index_t j=0; j < z.rows(); ++j ) // through-thickness points
         {
             colIdx = j * u.cols() + k;
+            this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             S.setZero();
             S(0,0) = Smat(0,colIdx);
             S(1,1) = Smat(1,colIdx);
@@ -410,6 +411,7 @@ gsMatrix<T> gsMaterialMatrixLinear<dim,T>::eval3D_pstressDir(const index_t patch
         for( index_t j=0; j < z.rows(); ++j ) // through-thickness points
         {
             colIdx = j * u.cols() + k;
+            this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             S.setZero();
             S(0,0) = Smat(0,colIdx);
             S(1,1) = Smat(1,colIdx);
@@ -443,6 +445,7 @@ gsMatrix<T> gsMaterialMatrixLinear<dim,T>::eval3D_CauchyPStress(const index_t pa
         for( index_t j=0; j < z.rows(); ++j ) // through-thickness points
         {
             colIdx = j * u.cols() + k;
+            this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             S.setZero();
             S(0,0) = Smat(0,colIdx);
             S(1,1) = Smat(1,colIdx);
diff --git a/src/gsMaterialMatrixNonlinear.hpp b/src/gsMaterialMatrixNonlinear.hpp
index 875ffc5..edf1da6 100644
--- a/src/gsMaterialMatrixNonlinear.hpp
+++ b/src/gsMaterialMatrixNonlinear.hpp
@@ -631,6 +631,7 @@ gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::eval3D_pstress(
         for( index_t j=0; j < z.rows(); ++j ) // through-thickness points
         {
             colIdx = j * u.cols() + k;
+            this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             S.setZero();
             S(0,0) = Smat(0,colIdx);
             S(1,1) = Smat(1,colIdx);
@@ -661,6 +662,7 @@ gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::eval3D_pstressD
         for( index_t j=0; j < z.rows(); ++j ) // through-thickness points
         {
             colIdx = j * u.cols() + k;
+            this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             S.setZero();
             S(0,0) = Smat(0,colIdx);
             S(1,1) = Smat(1,colIdx);
@@ -691,6 +693,7 @@ gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::eval3D_CauchyPS
         for( index_t j=0; j < z.rows(); ++j ) // through-thickness points
         {
             colIdx = j * u.cols() + k;
+            this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             S.setZero();
             S(0,0) = Smat(0,colIdx);
             S(1,1) = Smat(1,colIdx);
-- 
2.43.0


From 4a97f41d9a08eba724e657140bd514bd05e01a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:11 +0000
Subject: [PATCH 05/76] fix: compressible principal stretches took the
 thickness stretch of another height

---
 src/gsMaterialMatrixNonlinear.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gsMaterialMatrixNonlinear.hpp b/src/gsMaterialMatrixNonlinear.hpp
index edf1da6..870b183 100644
--- a/src/gsMaterialMatrixNonlinear.hpp
+++ b/src/gsMaterialMatrixNonlinear.hpp
@@ -228,8 +228,8 @@ gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::_pstretch_into_impl(const i
     result.resize(3, u.cols());
     std::pair<gsVector<T>,gsMatrix<T>> res;
 
-    gsMatrix<T> zmat(1,1);
-    zmat<<0.0;
+    gsMatrix<T> zmat(1,u.cols());
+    zmat.setZero();
     gsMatrix<T> C33s = _eval3D_Compressible_C33(patch,u,zmat);
     T C33;
     gsMatrix<T,3,3> c;
@@ -276,8 +276,8 @@ gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::_pstretchDir_into_impl(cons
     result.resize(9, u.cols());
     std::pair<gsVector<T>,gsMatrix<T>> res;
 
-    gsMatrix<T> zmat(1,1);
-    zmat<<0.0;
+    gsMatrix<T> zmat(1,u.cols());
+    zmat.setZero();
     gsMatrix<T> C33s = _eval3D_Compressible_C33(patch,u,zmat);
     T C33;
     gsMatrix<T,3,3> c;
@@ -591,7 +591,7 @@ gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::eval3D_pstretch_impl(const
             colIdx = j*u.cols()+k;
             this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
 
-            C33 = C33s(0,k);
+            C33 = C33s(0,colIdx);
 
             // Compute c
             c.setZero();
-- 
2.43.0


From a914c5a4743a34893c9f386bea7def7ebb98a10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:11 +0000
Subject: [PATCH 06/76] fix: Cauchy stress of compressible materials was always
 zero

---
 src/gsMaterialMatrixNonlinear.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/gsMaterialMatrixNonlinear.hpp b/src/gsMaterialMatrixNonlinear.hpp
index 870b183..6215690 100644
--- a/src/gsMaterialMatrixNonlinear.hpp
+++ b/src/gsMaterialMatrixNonlinear.hpp
@@ -1052,10 +1052,7 @@ gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::_eval3D_Compres
     // Output: (n=u.cols(), m=z.rows())
     //          [(u1,z1) (u2,z1) ..  (un,z1), (u1,z2) ..  (un,z2), ..,  (u1,zm) .. (un,zm)]
 
-    gsMatrix<T> Smat = _eval3D_Compressible_stress(patch,u,z);
-
-    gsMatrix<T> result(3, u.cols() * z.rows());
-    result.setZero();
+    gsMatrix<T> result = _eval3D_Compressible_stress(patch,u,z);
     gsMatrix<T> C33s = _eval3D_Compressible_C33(patch,u,z);
     T C33;
     index_t colIdx;
@@ -1068,7 +1065,7 @@ gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::_eval3D_Compres
             this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             C33 = C33s(0,colIdx);
             detF = math::sqrt(m_data.mine().m_J0_sq*C33);
-            Smat.col(colIdx) /= detF;
+            result.col(colIdx) /= detF;
         }
     }
     return result;
-- 
2.43.0


From 0ff4d3a9143de615a6b1192cc90c1e8ceceb3904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:11 +0000
Subject: [PATCH 07/76] fix: deformation tensor of compressible materials
 reported the incompressible thickness stretch

---
 src/gsMaterialMatrixNonlinear.h   | 3 +++
 src/gsMaterialMatrixNonlinear.hpp | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/src/gsMaterialMatrixNonlinear.h b/src/gsMaterialMatrixNonlinear.h
index 41d3238..6a675ef 100644
--- a/src/gsMaterialMatrixNonlinear.h
+++ b/src/gsMaterialMatrixNonlinear.h
@@ -159,6 +159,9 @@ public:
     /// See \ref gsMaterialMatrixBase for details
     gsMatrix<T> eval3D_CauchyVector(const index_t patch, const gsMatrix<T> & u, const gsMatrix<T>& z, enum MaterialOutput out = MaterialOutput::Generic) const override;
 
+    /// See \ref gsMaterialMatrixBase for details
+    gsMatrix<T> eval3D_deformation(const index_t patch, const gsMatrix<T> & u, const gsMatrix<T>& z) const override;
+
     /// See \ref gsMaterialMatrixBase for details
     gsMatrix<T> eval3D_pstretch(const index_t patch, const gsMatrix<T> & u, const gsMatrix<T>& z) const override;
 
diff --git a/src/gsMaterialMatrixNonlinear.hpp b/src/gsMaterialMatrixNonlinear.hpp
index 6215690..f1f0568 100644
--- a/src/gsMaterialMatrixNonlinear.hpp
+++ b/src/gsMaterialMatrixNonlinear.hpp
@@ -563,6 +563,15 @@ gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::eval3D_CauchyVe
     return this->eval3D_CauchyStress(patch,u,z,out);
 }
 
+template <short_t dim, class T, index_t matId, bool comp, enum Material mat, enum Implementation imp >
+gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::eval3D_deformation(const index_t patch, const gsMatrix<T> & u, const gsMatrix<T> & z) const
+{
+    gsMatrix<T> result = Base::eval3D_deformation(patch,u,z);
+    if (comp)
+        result.row(8) = _eval3D_Compressible_C33(patch,u,z);
+    return result;
+}
+
 template <short_t dim, class T, index_t matId, bool comp, enum Material mat, enum Implementation imp >
 gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::eval3D_pstretch(const index_t patch, const gsMatrix<T> & u, const gsMatrix<T> & z) const
 {
-- 
2.43.0


From 48f087e804571a0f1222f434b1c89c4f540ec484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:57 +0000
Subject: [PATCH 08/76] fix: principal stress/strain selection failed or mixed
 in the normal for uniaxial and zero states; principal stress directions had
 the wrong size

---
 src/gsMaterialMatrixBaseDim.hpp   | 53 +++++++++----------------------
 src/gsMaterialMatrixNonlinear.hpp |  2 +-
 2 files changed, 16 insertions(+), 39 deletions(-)

diff --git a/src/gsMaterialMatrixBaseDim.hpp b/src/gsMaterialMatrixBaseDim.hpp
index d470a3f..95c0025 100644
--- a/src/gsMaterialMatrixBaseDim.hpp
+++ b/src/gsMaterialMatrixBaseDim.hpp
@@ -1374,7 +1374,7 @@ std::pair<gsVector<T>,gsMatrix<T>> gsMaterialMatrixBaseDim<dim,T>::_evalPStress(
     gsMatrix<T> pstressvec;
     std::pair<gsVector<T>,gsMatrix<T>> result;
     pstresses.resize(2,1);    pstresses.setZero();
-    pstressvec.resize(3,2);   pstressvec.setZero();
+    pstressvec.resize(3,3);   pstressvec.setZero();
 
     typename gsEigen::SelfAdjointEigenSolver< typename gsMatrix<T>::Base >  eigSolver;
 
@@ -1384,26 +1384,15 @@ std::pair<gsVector<T>,gsMatrix<T>> gsMaterialMatrixBaseDim<dim,T>::_evalPStress(
         for (index_t l = 0; l != 2; l++)
             B += S(k,l) * m_data.mine().m_gcov_ori.col(k) * m_data.mine().m_gcov_ori.col(l).transpose();
 
+    // Make the normal the eigenvector of the largest eigenvalue, so that the in-plane ones come first
+    const gsMatrix<T> normal = m_data.mine().m_gcov_ori.col(2);
+    const T shift = (B.norm()==0) ? 1 : 2*B.norm();
+    B += shift * normal * normal.transpose();
     eigSolver.compute(B);
 
-    index_t zeroIdx = -1;
-    T tol = 1e-14;
-    T max = eigSolver.eigenvalues().array().abs().maxCoeff();
-    max = (max==0) ? 1 : max;
-    for (index_t k=0; k!=3; k++)
-        zeroIdx = std::abs(eigSolver.eigenvalues()[k] ) / max < tol ? k : zeroIdx;
-
-    GISMO_ASSERT(zeroIdx!=-1,"No zero found?");
-
-    index_t count = 0;
-
-    for (index_t k=0; k!=3; k++)
-    {
-        if (k==zeroIdx) continue;
-        pstressvec.col(count) = eigSolver.eigenvectors().col(k);
-        pstresses(count,0) = eigSolver.eigenvalues()(k,0);
-        count++;
-    }
+    pstressvec.leftCols(2) = eigSolver.eigenvectors().leftCols(2);
+    pstressvec.col(2) = normal;
+    pstresses = eigSolver.eigenvalues().topRows(2);
 
     result.first = pstresses;
     result.second = pstressvec;
@@ -1428,29 +1417,17 @@ std::pair<gsVector<T>,gsMatrix<T>> gsMaterialMatrixBaseDim<dim,T>::_evalPStrain(
         for (index_t l = 0; l != 2; l++)
             B += S(k,l) * m_data.mine().m_gcon_ori.col(k) * m_data.mine().m_gcon_ori.col(l).transpose();
 
+    // Make the normal the eigenvector of the largest eigenvalue, so that the in-plane ones come first
+    const gsMatrix<T> normal = m_data.mine().m_gcon_ori.col(2);
+    const T shift = (B.norm()==0) ? 1 : 2*B.norm();
+    B += shift * normal * normal.transpose();
     eigSolver.compute(B);
 
-    index_t zeroIdx = -1;
-    T tol = 1e-14;
-    T max = eigSolver.eigenvalues().array().abs().maxCoeff();
-    max = (max==0) ? 1 : max;
-    for (index_t k=0; k!=3; k++)
-        zeroIdx = std::abs(eigSolver.eigenvalues()[k] ) / max < tol ? k : zeroIdx;
-
-    GISMO_ASSERT(zeroIdx!=-1,"No zero found?");
-
-    index_t count = 0;
-    pstrainvec.col(2) = m_data.mine().m_gcon_ori.col(2);
+    pstrainvec.leftCols(2) = eigSolver.eigenvectors().leftCols(2);
+    pstrainvec.col(2) = normal;
+    pstrains.topRows(2) = eigSolver.eigenvalues().topRows(2);
     pstrains(2,0) = S(2,2);
 
-    for (index_t k=0; k!=3; k++)
-    {
-        if (k==zeroIdx) continue;
-        pstrainvec.col(count) = eigSolver.eigenvectors().col(k);
-        pstrains(count,0) = eigSolver.eigenvalues()(k,0);
-        count++;
-    }
-
     result.first = pstrains;
     result.second = pstrainvec;
 
diff --git a/src/gsMaterialMatrixNonlinear.hpp b/src/gsMaterialMatrixNonlinear.hpp
index f1f0568..1180c08 100644
--- a/src/gsMaterialMatrixNonlinear.hpp
+++ b/src/gsMaterialMatrixNonlinear.hpp
@@ -657,7 +657,7 @@ template <short_t dim, class T, index_t matId, bool comp, enum Material mat, enu
 gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::eval3D_pstressDir(const index_t patch, const gsMatrix<T> & u, const gsMatrix<T> & z, enum MaterialOutput out) const
 {
     gsMatrix<T> Smat = eval3D_stress(patch,u,z,out);
-    gsMatrix<T> result(2, u.cols() * z.rows());
+    gsMatrix<T> result(9, u.cols() * z.rows());
     result.setZero();
     gsMatrix<T,3,3> S;
     index_t colIdx;
-- 
2.43.0


From 1e9c52db3e0c675fe45850f70f68e4f91a2321b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:33 +0000
Subject: [PATCH 09/76] fix: principal Cauchy stresses were taken on the
 undeformed basis

---
 src/gsMaterialMatrixBaseDim.h     | 4 ++--
 src/gsMaterialMatrixBaseDim.hpp   | 8 ++++----
 src/gsMaterialMatrixLinear.hpp    | 6 +++---
 src/gsMaterialMatrixNonlinear.hpp | 6 +++---
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/gsMaterialMatrixBaseDim.h b/src/gsMaterialMatrixBaseDim.h
index 7bedc88..a6fa190 100644
--- a/src/gsMaterialMatrixBaseDim.h
+++ b/src/gsMaterialMatrixBaseDim.h
@@ -241,8 +241,8 @@ public:
     /// Computes the principal strain given deformation tensor C, into a pair
     std::pair<gsVector<T>,gsMatrix<T>> _evalPStrain(const gsMatrix<T> & C ) const;
 
-    /// Computes the principal stress given stress tensor S, into a pair
-    std::pair<gsVector<T>,gsMatrix<T>> _evalPStress(const gsMatrix<T> & S ) const;
+    /// Computes the principal stress given stress tensor S on the basis gcov, into a pair
+    std::pair<gsVector<T>,gsMatrix<T>> _evalPStress(const gsMatrix<T> & S, const gsMatrix<T> & gcov ) const;
 
     /// Computes the stretch given deformation tensor C, into class members m_stretches and m_stretchDirs
     void _computeStretch(const gsMatrix<T> & C, const gsMatrix<T> & gcon_ori ) const;
diff --git a/src/gsMaterialMatrixBaseDim.hpp b/src/gsMaterialMatrixBaseDim.hpp
index 95c0025..2be7117 100644
--- a/src/gsMaterialMatrixBaseDim.hpp
+++ b/src/gsMaterialMatrixBaseDim.hpp
@@ -1368,7 +1368,7 @@ std::pair<gsVector<T>,gsMatrix<T>> gsMaterialMatrixBaseDim<dim,T>::_evalStretch(
 
 
 template <short_t dim, class T>
-std::pair<gsVector<T>,gsMatrix<T>> gsMaterialMatrixBaseDim<dim,T>::_evalPStress(const gsMatrix<T> & S) const
+std::pair<gsVector<T>,gsMatrix<T>> gsMaterialMatrixBaseDim<dim,T>::_evalPStress(const gsMatrix<T> & S, const gsMatrix<T> & gcov) const
 {
     gsVector<T> pstresses;
     gsMatrix<T> pstressvec;
@@ -1382,10 +1382,10 @@ std::pair<gsVector<T>,gsMatrix<T>> gsMaterialMatrixBaseDim<dim,T>::_evalPStress(
     B.setZero();
     for (index_t k = 0; k != 2; k++)
         for (index_t l = 0; l != 2; l++)
-            B += S(k,l) * m_data.mine().m_gcov_ori.col(k) * m_data.mine().m_gcov_ori.col(l).transpose();
+            B += S(k,l) * gcov.col(k) * gcov.col(l).transpose();
 
     // Make the normal the eigenvector of the largest eigenvalue, so that the in-plane ones come first
-    const gsMatrix<T> normal = m_data.mine().m_gcov_ori.col(2);
+    const gsMatrix<T> normal = gcov.col(2);
     const T shift = (B.norm()==0) ? 1 : 2*B.norm();
     B += shift * normal * normal.transpose();
     eigSolver.compute(B);
@@ -1447,7 +1447,7 @@ void gsMaterialMatrixBaseDim<dim,T>::_computeStretch(const gsMatrix<T> & C, cons
 template <short_t dim, class T>
 void gsMaterialMatrixBaseDim<dim,T>::_computePStress(const gsMatrix<T> & S) const
 {
-    std::pair<gsVector<T>,gsMatrix<T>> result = _evalPStress(S);
+    std::pair<gsVector<T>,gsMatrix<T>> result = _evalPStress(S,m_data.mine().m_gcov_ori);
     m_data.mine().m_pstress = result.first;
     m_data.mine().m_pstressvec = result.second;
 }
diff --git a/src/gsMaterialMatrixLinear.hpp b/src/gsMaterialMatrixLinear.hpp
index de105b2..39af4d5 100644
--- a/src/gsMaterialMatrixLinear.hpp
+++ b/src/gsMaterialMatrixLinear.hpp
@@ -383,7 +383,7 @@ gsMatrix<T> gsMaterialMatrixLinear<dim,T>::eval3D_pstress(const index_t patch, c
             S(1,1) = Smat(1,colIdx);
             S(0,1) = S(1,0) = Smat(2,colIdx);
             S(2,2) = 0;
-            res = this->_evalPStress(S);
+            res = this->_evalPStress(S,m_data.mine().m_gcov_ori);
             result.col(j * u.cols() + k) = res.first;
         }
     }
@@ -417,7 +417,7 @@ gsMatrix<T> gsMaterialMatrixLinear<dim,T>::eval3D_pstressDir(const index_t patch
             S(1,1) = Smat(1,colIdx);
             S(0,1) = S(1,0) = Smat(2,colIdx);
             S(2,2) = 0;
-            res = this->_evalPStress(S);
+            res = this->_evalPStress(S,m_data.mine().m_gcov_ori);
             result.col(j * u.cols() + k) = res.second.reshape(9,1);
         }
     }
@@ -451,7 +451,7 @@ gsMatrix<T> gsMaterialMatrixLinear<dim,T>::eval3D_CauchyPStress(const index_t pa
             S(1,1) = Smat(1,colIdx);
             S(0,1) = S(1,0) = Smat(2,colIdx);
             S(2,2) = 0;
-            res = this->_evalPStress(S);
+            res = this->_evalPStress(S,m_data.mine().m_gcov_def);
             result.col(j * u.cols() + k) = res.first;
         }
     }
diff --git a/src/gsMaterialMatrixNonlinear.hpp b/src/gsMaterialMatrixNonlinear.hpp
index 1180c08..38212a0 100644
--- a/src/gsMaterialMatrixNonlinear.hpp
+++ b/src/gsMaterialMatrixNonlinear.hpp
@@ -646,7 +646,7 @@ gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::eval3D_pstress(
             S(1,1) = Smat(1,colIdx);
             S(0,1) = S(1,0) = Smat(2,colIdx);
             S(2,2) = 0;
-            res = this->_evalPStress(S);
+            res = this->_evalPStress(S,m_data.mine().m_gcov_ori);
             result.col(colIdx) = res.first;
         }
     }
@@ -677,7 +677,7 @@ gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::eval3D_pstressD
             S(1,1) = Smat(1,colIdx);
             S(0,1) = S(1,0) = Smat(2,colIdx);
             S(2,2) = 0;
-            res = this->_evalPStress(S);
+            res = this->_evalPStress(S,m_data.mine().m_gcov_ori);
             result.col(colIdx) = res.second.reshape(9,1);
         }
     }
@@ -708,7 +708,7 @@ gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::eval3D_CauchyPS
             S(1,1) = Smat(1,colIdx);
             S(0,1) = S(1,0) = Smat(2,colIdx);
             S(2,2) = 0;
-            res = this->_evalPStress(S);
+            res = this->_evalPStress(S,m_data.mine().m_gcov_def);
             result.col(j * u.cols() + k) = res.first;
         }
     }
-- 
2.43.0


From aeb691254db53233e698ced348728bb9ca94bd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:06 +0000
Subject: [PATCH 10/76] fix: integrator with undeformed geometry built pieces
 before all materials were set

---
 src/gsMaterialMatrixIntegrate.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/gsMaterialMatrixIntegrate.hpp b/src/gsMaterialMatrixIntegrate.hpp
index 7cc5797..d85252d 100644
--- a/src/gsMaterialMatrixIntegrate.hpp
+++ b/src/gsMaterialMatrixIntegrate.hpp
@@ -87,10 +87,8 @@ m_materialMatrices(deformed->nPieces()),
 m_deformed(deformed)
 {
     for (index_t p = 0; p!=deformed->nPieces(); ++p)
-    {
         m_materialMatrices.set(p,materialMatrix);
-        this->_makePieces(undeformed,deformed);
-    }
+    this->_makePieces(undeformed,deformed);
 }
 
 template <class T, enum MaterialOutput out>
-- 
2.43.0


From 0860791b29c8eb1eb8241f42ed5d7caea48bca1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:06 +0000
Subject: [PATCH 11/76] fix: principal moments of linear materials were always
 zero

---
 src/gsMaterialMatrixIntegrate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixIntegrate.hpp b/src/gsMaterialMatrixIntegrate.hpp
index d85252d..533758c 100644
--- a/src/gsMaterialMatrixIntegrate.hpp
+++ b/src/gsMaterialMatrixIntegrate.hpp
@@ -234,7 +234,7 @@ gsMaterialMatrixIntegrateSingle<T,out>::eval_into_impl(const gsMatrix<T>& u, gsM
     else if (m_materialMat->isMatIntegrated() == MatIntegration::Integrated)
         result = this->_eval(u);
     else if (m_materialMat->isMatIntegrated() == MatIntegration::Constant)
-        this->multiplyZ_into(u,getMoment(),result);
+        this->multiplyZ_into(u,2*getMoment(),result); // N: constant part, M: linear part (as VectorN and VectorM)
     else if (m_materialMat->isMatIntegrated() == MatIntegration::Linear)
         this->multiplyLinZ_into(u,getMoment(),result);
     else
-- 
2.43.0


From 8f02626b884f9d44c18861789e092583ae8cb2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:06 +0000
Subject: [PATCH 12/76] fix: evaluator ignored the undeformed geometry it was
 given and rejected empty heights

---
 src/gsMaterialMatrixEval.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gsMaterialMatrixEval.hpp b/src/gsMaterialMatrixEval.hpp
index 5976767..02eeea9 100644
--- a/src/gsMaterialMatrixEval.hpp
+++ b/src/gsMaterialMatrixEval.hpp
@@ -141,7 +141,7 @@ m_z(z)
         m_z.resize(1,1);
         m_z.setZero();
     }
-    GISMO_ASSERT(z.cols()==1,"Z coordinates should be provided row-wise in one column");
+    GISMO_ASSERT(m_z.cols()==1,"Z coordinates should be provided row-wise in one column");
 
     // m_materialMat = new gsMaterialMatrix(materialMatrix);
 }
@@ -149,7 +149,7 @@ m_z(z)
 template <class T, enum MaterialOutput out>
 gsMaterialMatrixEvalSingle<T,out>::gsMaterialMatrixEvalSingle(    index_t patch,
                                                         gsMaterialMatrixBase<T> * materialMatrix,
-                                                        const gsFunctionSet<T> * /*undeformed*/,
+                                                        const gsFunctionSet<T> * undeformed,
                                                         const gsFunctionSet<T> * deformed,
                                                         const gsMatrix<T> z
                                                    )
@@ -158,7 +158,7 @@ m_pIndex(patch),
 m_materialMat(materialMatrix),
 m_z(z)
 {
-    m_materialMat->setUndeformed(deformed);
+    m_materialMat->setUndeformed(undeformed);
     m_materialMat->setDeformed(deformed);
 
     if (m_z.cols()==0 || m_z.rows()==0)
@@ -166,7 +166,7 @@ m_z(z)
         m_z.resize(1,1);
         m_z.setZero();
     }
-    GISMO_ASSERT(z.cols()==1,"Z coordinates should be provided row-wise in one column");
+    GISMO_ASSERT(m_z.cols()==1,"Z coordinates should be provided row-wise in one column");
 
     // m_materialMat = new gsMaterialMatrix(materialMatrix);
 }
-- 
2.43.0


From 90c9d6837a29b869eea2d84ee80e2c38dfaa4fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:25 +0000
Subject: [PATCH 13/76] fix: basis transformations of several heights per point
 were written out of range

---
 src/gsMaterialMatrixBaseDim.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gsMaterialMatrixBaseDim.hpp b/src/gsMaterialMatrixBaseDim.hpp
index 2be7117..eb967dc 100644
--- a/src/gsMaterialMatrixBaseDim.hpp
+++ b/src/gsMaterialMatrixBaseDim.hpp
@@ -67,7 +67,7 @@ void gsMaterialMatrixBaseDim<dim,T>::thickness_into(const index_t patch, const g
 template <short_t dim, class T>
 gsMatrix<T> gsMaterialMatrixBaseDim<dim,T>::eval3D_spec2cov(const index_t patch, const gsMatrix<T> & u, const gsMatrix<T> & z) const
 {
-    gsMatrix<T> result(9, u.cols());
+    gsMatrix<T> result(9, u.cols() * z.rows());
     gsMatrix<T> covbasis,sbasis;
     gsMatrix<T> tmp = eval3D_pstretchDir(patch,u,z);
     index_t colIdx;
@@ -89,7 +89,7 @@ gsMatrix<T> gsMaterialMatrixBaseDim<dim,T>::eval3D_spec2cov(const index_t patch,
 template <short_t dim, class T>
 gsMatrix<T> gsMaterialMatrixBaseDim<dim,T>::eval3D_spec2con(const index_t patch, const gsMatrix<T> & u, const gsMatrix<T> & z) const
 {
-    gsMatrix<T> result(9, u.cols());
+    gsMatrix<T> result(9, u.cols() * z.rows());
     gsMatrix<T> conbasis,sbasis;
     gsMatrix<T> tmp = eval3D_pstretchDir(patch,u,z);
     index_t colIdx;
@@ -113,7 +113,7 @@ gsMatrix<T> gsMaterialMatrixBaseDim<dim,T>::eval3D_cov2cart(const index_t patch,
 {
     this->_computePoints(patch,u);
 
-    gsMatrix<T> result(9, u.cols());
+    gsMatrix<T> result(9, u.cols() * z.rows());
     gsMatrix<T> tmp, covbasis,cartbasis(3,3);
     cartbasis.setIdentity();
     index_t colIdx;
@@ -136,7 +136,7 @@ gsMatrix<T> gsMaterialMatrixBaseDim<dim,T>::eval3D_con2cart(const index_t patch,
 {
     this->_computePoints(patch,u);
 
-    gsMatrix<T> result(9, u.cols());
+    gsMatrix<T> result(9, u.cols() * z.rows());
     gsMatrix<T> tmp, conbasis,cartbasis(3,3);
     cartbasis.setIdentity();
     index_t colIdx;
-- 
2.43.0


From 3a97a1c1d7cfb72fc2863d5c84ebf97666cf96e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:55 +0000
Subject: [PATCH 14/76] fix: lumped mass matrix is the row-sum of the
 consistent one, mass assembly reports its status

---
 src/gsThinShellAssembler.hpp | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 937fc81..fb4c2ad 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1458,30 +1458,21 @@ ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assembleMass(const
     try
     {
         // assemble system
-        if (!lumped)
-            m_assembler.assemble(mm0.val()*m_space*m_space.tr()*meas(m_ori));
-        else
-            m_assembler.assemble(mm0.val()*(m_space.rowSum())*meas(m_ori));
-
+        m_assembler.assemble(mm0.val()*m_space*m_space.tr()*meas(m_ori));
         m_mass = m_assembler.matrix();
 
-/*        // assemble system
-        if (!lumped)
+        // Row-sum lumping
+        if (lumped)
         {
-            m_assembler.assemble(mm0.val()*m_space*m_space.tr()*meas(m_ori));
-            m_mass = m_assembler.matrix();
-            this->_applyMass();
+            const gsMatrix<T> rowSum = m_mass * gsMatrix<T>::Ones(m_mass.cols(),1);
+            gsSparseEntries<T> entries;
+            entries.reserve(rowSum.rows());
+            for (index_t k=0; k!=rowSum.rows(); k++)
+                entries.add(k,k,rowSum(k,0));
+            m_mass.setFrom(entries);
+            m_mass.makeCompressed();
         }
-        else
-        {
-            // To do: add point masses in lumped case
-            m_assembler.assemble(mm0.val()*(m_space.rowSum())*meas(m_ori));
-            m_rhs = m_assembler.rhs();
-        }
-        m_mass = m_assembler.matrix();
-
-        this->_applyMass();
-        m_status = ThinShellAssemblerStatus::Success;*/
+        m_status = ThinShellAssemblerStatus::Success;
     }
     catch (...)
     {
-- 
2.43.0


From b89125e9a911d501309b204816324ee0119b7334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:40 +0000
Subject: [PATCH 15/76] fix: point masses contribute to the mass matrix

---
 src/gsThinShellAssembler.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index fb4c2ad..f06c80b 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1402,15 +1402,15 @@ void gsThinShellAssembler<d, T, bending>::_applyMass()
         // Compute actives and values of basis functions on point load location.
         if ( m_pMass[i].parametric )   // in parametric space
         {
-            m_basis.front().basis(m_pMass[i].patch).active_into( m_pMass[i].point, acts );
-            m_basis.front().basis(m_pMass[i].patch).eval_into  ( m_pMass[i].point, bVals);
+            m_basis.basis(m_pMass[i].patch).active_into( m_pMass[i].point, acts );
+            m_basis.basis(m_pMass[i].patch).eval_into  ( m_pMass[i].point, bVals);
         }
         else                            // in physical space
         {
             gsMatrix<T> forcePoint;
             m_patches.patch(m_pMass[i].patch).invertPoints(m_pMass[i].point,forcePoint);
-            m_basis.front().basis(m_pMass[i].patch).active_into( forcePoint, acts );
-            m_basis.front().basis(m_pMass[i].patch).eval_into  ( forcePoint, bVals);
+            m_basis.basis(m_pMass[i].patch).active_into( forcePoint, acts );
+            m_basis.basis(m_pMass[i].patch).eval_into  ( forcePoint, bVals);
         }
 
         // Add the point load values in the right entries in the global RHS
@@ -1424,7 +1424,7 @@ void gsThinShellAssembler<d, T, bending>::_applyMass()
                     for (index_t l=0; l < globalActs.rows(); ++l)
                     {
                         if (m_mapper.is_free_index(globalActs(k,0)) && m_mapper.is_free_index(globalActs(l,0)))
-                            m_mass(globalActs(k,0), globalActs(l,0)) += bVals(k,0) * bVals(l,0) * m_pMass[i].value[0];
+                            m_mass.coeffRef(globalActs(k,0), globalActs(l,0)) += bVals(k,0) * bVals(l,0) * m_pMass[i].value[0];
                     }
                 }
             }
@@ -1460,6 +1460,8 @@ ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assembleMass(const
         // assemble system
         m_assembler.assemble(mm0.val()*m_space*m_space.tr()*meas(m_ori));
         m_mass = m_assembler.matrix();
+        if ( m_pMass.numLoads() != 0 )
+            this->_applyMass();
 
         // Row-sum lumping
         if (lumped)
-- 
2.43.0


From 44025c13a93a0ff108fcc00ef0bb4c158515124a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:20 +0000
Subject: [PATCH 16/76] fix: nonlinear foundation force opposes the
 displacement

The residual of the elastic foundation had the sign of the displacement,
against its stiffness and the linear assembly.
---
 src/gsThinShellAssembler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index f06c80b..f4f158e 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -549,7 +549,7 @@ gsThinShellAssembler<d, T, bending>::_assembleFoundation_impl(const gsFunction<T
 
     // Assemble vector
     m_assembler.assemble(
-                  m_space * m_foundation.asDiag() * (m_def - m_ori) * meas(m_ori) // [v_x,v_y,v_z] diag([k_x,k_y,k_z]) [u_x; u_y; u_z]
+                  - m_space * m_foundation.asDiag() * (m_def - m_ori) * meas(m_ori) // - [v_x,v_y,v_z] diag([k_x,k_y,k_z]) [u_x; u_y; u_z]
                 );
 }
 
-- 
2.43.0


From 5bb30aa8ae7fefc8275c63903e5854f628e6e665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:46 +0000
Subject: [PATCH 17/76] fix: rhs() returns the vector of the last assembly,
 also after point loads were withdrawn or the vector was added to

---
 src/gsThinShellAssembler.h   |  5 +----
 src/gsThinShellAssembler.hpp | 18 +++---------------
 2 files changed, 4 insertions(+), 19 deletions(-)

diff --git a/src/gsThinShellAssembler.h b/src/gsThinShellAssembler.h
index c48014a..3dd73cf 100644
--- a/src/gsThinShellAssembler.h
+++ b/src/gsThinShellAssembler.h
@@ -398,8 +398,7 @@ public:
     const gsSparseMatrix<T> & matrix()      const   {return m_assembler.matrix();}
     gsSparseMatrix<T> & massMatrix() {return m_mass;}
 
-    const gsMatrix<T>       & rhs()         const {return m_rhs.size()==0 ? m_assembler.rhs() : m_rhs;}
-    // const gsMatrix<T>       & rhs()     const {return m_assembler.rhs();}
+    const gsMatrix<T>       & rhs()         const {return m_assembler.rhs();}
 
     //--------------------- INTERFACE HANDLING -----------------------------//
     void addStrongC0(const gsBoxTopology::ifContainer & interfaces);
@@ -686,8 +685,6 @@ protected:
 
     mutable gsMatrix<T> m_solvector;
 
-    gsMatrix<T> m_rhs;
-
     mutable gsOptionList m_options;
 
     mutable bool m_foundInd;
diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index f4f158e..011fe06 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -118,7 +118,6 @@ gsThinShellAssembler<d, T, bending>& gsThinShellAssembler<d, T, bending>::operat
         m_pLoads=other.m_pLoads;
         m_pMass=other.m_pMass;
         m_solvector=other.m_solvector;
-        m_rhs=other.m_rhs;
         m_options=other.m_options;
         m_foundInd=other.m_foundInd;
         m_pressInd=other.m_pressInd;
@@ -166,7 +165,6 @@ gsThinShellAssembler<d, T, bending>& gsThinShellAssembler<d, T, bending>::operat
     m_pLoads=give(other.m_pLoads);
     m_pMass=give(other.m_pMass);
     m_solvector=give(other.m_solvector);
-    m_rhs=give(other.m_rhs);
     m_options=give(other.m_options);
     m_foundInd=give(other.m_foundInd);
     m_pressInd=give(other.m_pressInd);
@@ -1329,6 +1327,8 @@ void gsThinShellAssembler<d, T, bending>::_applyLoads()
     space       m_space = m_assembler.trialSpace(0);
     m_mapper = m_space.mapper();
 
+    gsMatrix<T> & rhs = const_cast<gsMatrix<T> &>(m_assembler.rhs());
+
     for (size_t i = 0; i< m_pLoads.numLoads(); ++i )
     {
         GISMO_ASSERT(m_pLoads[i].value.size()==d,"Point load has wrong dimension "<<m_pLoads[i].value.size()<<" instead of "<<d<<"\n");
@@ -1377,7 +1377,7 @@ void gsThinShellAssembler<d, T, bending>::_applyLoads()
                 for (index_t k=0; k < globalActs.rows(); ++k)
                 {
                     if (m_mapper.is_free_index(globalActs(k,0)))
-                        m_rhs(globalActs(k,0), 0) += bVals(k,0) * m_pLoads[i].value[j];
+                        rhs(globalActs(k,0), 0) += bVals(k,0) * m_pLoads[i].value[j];
                 }
             }
         }
@@ -1604,10 +1604,7 @@ gsThinShellAssembler<d, T, bending>::assemble_impl()
 
         // Assemble the loads
         if ( m_pLoads.numLoads() != 0 )
-        {
-            m_rhs = m_assembler.rhs();
             _applyLoads();
-        }
         m_status = ThinShellAssemblerStatus::Success;
     }
     catch (...)
@@ -1680,10 +1677,7 @@ gsThinShellAssembler<d, T, bending>::assemble_impl()
 
         // Assemble the loads
         if ( m_pLoads.numLoads() != 0 )
-        {
-            m_rhs = m_assembler.rhs();
             _applyLoads();
-        }
 
         m_status = ThinShellAssemblerStatus::Success;
     }
@@ -2040,10 +2034,7 @@ gsThinShellAssembler<d, T, bending>::assembleVector_impl(const gsFunctionSet<T>
 
         // Assemble the loads
         if ( m_pLoads.numLoads() != 0 )
-        {
-            m_rhs = m_assembler.rhs();
             _applyLoads();
-        }
 
         m_status = ThinShellAssemblerStatus::Success;
     }
@@ -2108,10 +2099,7 @@ gsThinShellAssembler<d, T, bending>::assembleVector_impl(const gsFunctionSet<T>
 
         // Assemble the loads
         if ( m_pLoads.numLoads() != 0 )
-        {
-            m_rhs = m_assembler.rhs();
             _applyLoads();
-        }
 
         m_status = ThinShellAssemblerStatus::Success;
     }
-- 
2.43.0


From 20f2cbf740ec3efc9f991dc90df8dc6767ea5c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:12 +0000
Subject: [PATCH 18/76] fix: a pressure or foundation stays in force when the
 geometry, basis or continuity changes

---
 src/gsThinShellAssembler.h   | 4 ++--
 src/gsThinShellAssembler.hpp | 5 -----
 2 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/gsThinShellAssembler.h b/src/gsThinShellAssembler.h
index 3dd73cf..5d23f2a 100644
--- a/src/gsThinShellAssembler.h
+++ b/src/gsThinShellAssembler.h
@@ -687,8 +687,8 @@ protected:
 
     mutable gsOptionList m_options;
 
-    mutable bool m_foundInd;
-    mutable bool m_pressInd;
+    mutable bool m_foundInd = false;  // foundation is off by default
+    mutable bool m_pressInd = false;  // pressure is off by default
 
     mutable index_t m_continuity;
 
diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 011fe06..c77bd51 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -261,11 +261,6 @@ void gsThinShellAssembler<d, T, bending>::_initialize()
     m_ddofs = m_space.fixedPart();
     m_mapper = m_space.mapper();
 
-    // foundation is off by default
-    m_foundInd = false;
-    // pressure is off by default
-    m_pressInd = false;
-
     GISMO_ASSERT(m_forceFun->targetDim()==d,"Force must have " << d<<" dimensions but has "<<m_forceFun->targetDim());
 
     // test interfaces on in-plane and out-of-plane connection and put them in respective containers
-- 
2.43.0


From 82fe76b8c3bd777cc49bfba51875c4d916aa77d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:12 +0000
Subject: [PATCH 19/76] fix: mass, tangent and residual assemblies use the
 current options, as the linear assembly does

---
 src/gsThinShellAssembler.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index c77bd51..047abbf 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1430,6 +1430,8 @@ void gsThinShellAssembler<d, T, bending>::_applyMass()
 template<short_t d, class T, bool bending>
 ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assembleMass(const bool lumped)
 {
+    this->_getOptions();
+
     m_assembler.cleanUp();
     GISMO_ENSURE(m_options.hasGroup("ExprAssembler"),"The option list does not contain options with the label 'ExprAssembler'!");
     m_assembler.setOptions(m_options.getGroup("ExprAssembler"));
@@ -1483,6 +1485,8 @@ ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assembleMass(const
 template<short_t d, class T, bool bending>
 ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assembleFoundation()
 {
+    this->_getOptions();
+
     m_assembler.cleanUp();
     GISMO_ENSURE(m_options.hasGroup("ExprAssembler"),"The option list does not contain options with the label 'ExprAssembler'!");
     m_assembler.setOptions(m_options.getGroup("ExprAssembler"));
@@ -1695,6 +1699,8 @@ template <short_t _d, bool _bending>
 typename std::enable_if<(_d==3) && _bending, ThinShellAssemblerStatus>::type
 gsThinShellAssembler<d, T, bending>::assembleMatrix_impl(const gsFunctionSet<T> & deformed)
 {
+    this->_getOptions();
+
     m_assembler.cleanUp();
     GISMO_ENSURE(m_options.hasGroup("ExprAssembler"),"The option list does not contain options with the label 'ExprAssembler'!");
     m_assembler.setOptions(m_options.getGroup("ExprAssembler"));
@@ -1775,6 +1781,8 @@ template <short_t _d, bool _bending>
 typename std::enable_if<!(_d==3 && _bending), ThinShellAssemblerStatus>::type
 gsThinShellAssembler<d, T, bending>::assembleMatrix_impl(const gsFunctionSet<T> & deformed)
 {
+    this->_getOptions();
+
     m_assembler.cleanUp();
     GISMO_ENSURE(m_options.hasGroup("ExprAssembler"),"The option list does not contain options with the label 'ExprAssembler'!");
     m_assembler.setOptions(m_options.getGroup("ExprAssembler"));
@@ -1847,6 +1855,8 @@ template <short_t _d, bool _bending>
 typename std::enable_if<(_d==3) && _bending, ThinShellAssemblerStatus>::type
 gsThinShellAssembler<d, T, bending>::assembleMatrix_impl(const gsFunctionSet<T> & deformed, const gsFunctionSet<T> & previous, gsMatrix<T> & update)
 {
+    this->_getOptions();
+
     m_assembler.cleanUp();
     GISMO_ENSURE(m_options.hasGroup("ExprAssembler"),"The option list does not contain options with the label 'ExprAssembler'!");
     m_assembler.setOptions(m_options.getGroup("ExprAssembler"));
@@ -1972,6 +1982,8 @@ template <short_t _d, bool _bending>
 typename std::enable_if<(_d==3) && _bending, ThinShellAssemblerStatus>::type
 gsThinShellAssembler<d, T, bending>::assembleVector_impl(const gsFunctionSet<T> & deformed, const bool homogenize)
 {
+    this->_getOptions();
+
     m_assembler.cleanUp();
     GISMO_ENSURE(m_options.hasGroup("ExprAssembler"),"The option list does not contain options with the label 'ExprAssembler'!");
     m_assembler.setOptions(m_options.getGroup("ExprAssembler"));
@@ -2046,6 +2058,8 @@ template <short_t _d, bool _bending>
 typename std::enable_if<!(_d==3 && _bending), ThinShellAssemblerStatus>::type
 gsThinShellAssembler<d, T, bending>::assembleVector_impl(const gsFunctionSet<T> & deformed, const bool homogenize)
 {
+    this->_getOptions();
+
     m_assembler.cleanUp();
     GISMO_ENSURE(m_options.hasGroup("ExprAssembler"),"The option list does not contain options with the label 'ExprAssembler'!");
     m_assembler.setOptions(m_options.getGroup("ExprAssembler"));
-- 
2.43.0


From 0066b8ef84e5640bb4ec89a5e161da08137b7b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:34 +0000
Subject: [PATCH 20/76] fix: assemblies and queries leave the Dirichlet data of
 the problem as it is

---
 src/gsThinShellAssembler.h   |  3 +++
 src/gsThinShellAssembler.hpp | 26 +++++++++++++++++++++++++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/gsThinShellAssembler.h b/src/gsThinShellAssembler.h
index 5d23f2a..1775ff7 100644
--- a/src/gsThinShellAssembler.h
+++ b/src/gsThinShellAssembler.h
@@ -525,6 +525,9 @@ protected:
 
     void _assembleDirichlet();
 
+    /// Sets the values of the eliminated degrees of freedom
+    void _setDirichlet(const gsMatrix<T> & ddofs) const;
+
     void _applyLoads();
     void _applyMass();
 
diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 047abbf..8ded7c0 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1313,6 +1313,13 @@ void gsThinShellAssembler<d, T, bending>::homogenizeDirichlet()
     // const_cast<expr::gsFeSpace<T> & >(m_space).fixedPart().setZero();
 }
 
+template<short_t d, class T, bool bending>
+void gsThinShellAssembler<d, T, bending>::_setDirichlet(const gsMatrix<T> & ddofs) const
+{
+    space m_space = m_assembler.trialSpace(0); // last argument is the space ID
+    const_cast<expr::gsFeSpace<T> & >(m_space).fixedPart() = ddofs;
+}
+
 template<short_t d, class T, bool bending>
 void gsThinShellAssembler<d, T, bending>::_applyLoads()
 {
@@ -1445,6 +1452,7 @@ ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assembleMass(const
     auto mm0 = m_assembler.getCoeff(m_mm);
 
     space       m_space = m_assembler.trialSpace(0);
+    const gsMatrix<T> ddofs = m_space.fixedPart(); // restored after the assembly
     m_space.setup(m_bcs, dirichlet::homogeneous, m_continuity);
     // this->homogenizeDirichlet();
 
@@ -1478,6 +1486,7 @@ ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assembleMass(const
         m_assembler.cleanUp();
         m_status = ThinShellAssemblerStatus::AssemblyError;
     }
+    this->_setDirichlet(ddofs);
     return m_status;
 }
 
@@ -1730,6 +1739,7 @@ gsThinShellAssembler<d, T, bending>::assembleMatrix_impl(const gsFunctionSet<T>
 
     space       m_space = m_assembler.trialSpace(0);
 
+    const gsMatrix<T> ddofs = m_space.fixedPart(); // restored after the assembly
     this->homogenizeDirichlet();
 
     auto m_N        = S0.tr();
@@ -1773,6 +1783,7 @@ gsThinShellAssembler<d, T, bending>::assembleMatrix_impl(const gsFunctionSet<T>
         m_assembler.cleanUp();
         m_status = ThinShellAssemblerStatus::AssemblyError;
     }
+    this->_setDirichlet(ddofs);
     return m_status;
 }
 
@@ -1802,6 +1813,7 @@ gsThinShellAssembler<d, T, bending>::assembleMatrix_impl(const gsFunctionSet<T>
     space       m_space = m_assembler.trialSpace(0);
 
 
+    const gsMatrix<T> ddofs = m_space.fixedPart(); // restored after the assembly
     this->homogenizeDirichlet();
 
     auto m_N        = S0.tr();
@@ -1833,6 +1845,7 @@ gsThinShellAssembler<d, T, bending>::assembleMatrix_impl(const gsFunctionSet<T>
         m_assembler.cleanUp();
         m_status = ThinShellAssemblerStatus::AssemblyError;
     }
+    this->_setDirichlet(ddofs);
     return m_status;
 }
 
@@ -1900,6 +1913,7 @@ gsThinShellAssembler<d, T, bending>::assembleMatrix_impl(const gsFunctionSet<T>
     space       m_space = m_assembler.trialSpace(0);
     solution    m_du = m_assembler.getSolution(m_space,update);
 
+    const gsMatrix<T> ddofs = m_space.fixedPart(); // restored after the assembly
     this->homogenizeDirichlet();
 
     auto m_E_mc = flat( jac(m_prev).tr() * grad(m_du) ) ; //[checked]
@@ -1946,6 +1960,7 @@ gsThinShellAssembler<d, T, bending>::assembleMatrix_impl(const gsFunctionSet<T>
         m_assembler.cleanUp();
         m_status = ThinShellAssemblerStatus::AssemblyError;
     }
+    this->_setDirichlet(ddofs);
     return m_status;
 }
 
@@ -2007,6 +2022,7 @@ gsThinShellAssembler<d, T, bending>::assembleVector_impl(const gsFunctionSet<T>
     auto m_parforce  = m_assembler.getCoeff(*m_forceFun); // force defined in parametric domain
 
 
+    const gsMatrix<T> ddofs = m_space.fixedPart(); // restored after the assembly
     if (homogenize) this->homogenizeDirichlet();
     else            this->_assembleDirichlet();
 
@@ -2050,6 +2066,7 @@ gsThinShellAssembler<d, T, bending>::assembleVector_impl(const gsFunctionSet<T>
         m_assembler.cleanUp();
         m_status = ThinShellAssemblerStatus::AssemblyError;
     }
+    this->_setDirichlet(ddofs);
     return m_status;
 }
 
@@ -2077,6 +2094,7 @@ gsThinShellAssembler<d, T, bending>::assembleVector_impl(const gsFunctionSet<T>
     auto m_physforce = m_assembler.getCoeff(*m_forceFun,m_ori); // force defined in physical domain
     auto m_parforce  = m_assembler.getCoeff(*m_forceFun); // force defined in parametric domain
 
+    const gsMatrix<T> ddofs = m_space.fixedPart(); // restored after the assembly
     if (homogenize) this->homogenizeDirichlet();
     else            this->_assembleDirichlet();
 
@@ -2117,6 +2135,7 @@ gsThinShellAssembler<d, T, bending>::assembleVector_impl(const gsFunctionSet<T>
         m_assembler.cleanUp();
         m_status = ThinShellAssemblerStatus::AssemblyError;
     }
+    this->_setDirichlet(ddofs);
     return m_status;
 }
 
@@ -2617,8 +2636,9 @@ gsMultiPatch<T> gsThinShellAssembler<d, T, bending>::constructMultiPatch(const g
 {
     m_solvector = solVector;
     space m_space = m_assembler.trialSpace(0);
+    const gsMatrix<T> ddofs = m_space.fixedPart(); // restored below
     m_space.setup(m_bcs, dirichlet::l2Projection, m_continuity);
-    const_cast<expr::gsFeSpace<T> & >(m_space).fixedPart() = m_ddofs; //CHECK FIXEDPART
+    this->_setDirichlet(m_ddofs); //CHECK FIXEDPART
 
     if (const gsMappedBasis<2,T> * mbasis = dynamic_cast<const gsMappedBasis<2,T> * >(m_spaceBasis))
     {
@@ -2650,6 +2670,7 @@ gsMultiPatch<T> gsThinShellAssembler<d, T, bending>::constructMultiPatch(const g
 
         }
         mbasis->global_coef_to_local_coef(cc,tmp);
+        this->_setDirichlet(ddofs);
         return mbasis->exportToPatches(tmp);
     }
     else
@@ -2664,6 +2685,7 @@ gsMultiPatch<T> gsThinShellAssembler<d, T, bending>::constructMultiPatch(const g
             m_solution.extract(cc, p);
             result.addPatch(m_basis.basis(p).makeGeometry( give(cc) ));  // defG points to mp_def, therefore updated
         }
+        this->_setDirichlet(ddofs);
         return result;
     }
 }
@@ -2679,10 +2701,12 @@ gsMatrix<T> gsThinShellAssembler<d, T, bending>::fullSolutionVector(const gsMatr
 {
     gsMatrix<T> solVector = vector;
     space m_space = m_assembler.trialSpace(0);
+    const gsMatrix<T> ddofs = m_space.fixedPart(); // restored below
     m_space.setup(m_bcs, dirichlet::l2Projection, m_continuity);
     solution m_solution = m_assembler.getSolution(m_space, solVector);
     gsMatrix<T> result;
     m_solution.extractFull(result);
+    this->_setDirichlet(ddofs);
     return result.col(0);
 }
 
-- 
2.43.0


From 02a16a0b6fc5f164de33cf288e0e1f4914844984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:59 +0000
Subject: [PATCH 21/76] fix: copies and moves of the shell assembler do not
 refer to the object they came from

---
 src/gsThinShellAssembler.h   |  14 ++---
 src/gsThinShellAssembler.hpp | 108 ++++++++++++++++++++---------------
 2 files changed, 68 insertions(+), 54 deletions(-)

diff --git a/src/gsThinShellAssembler.h b/src/gsThinShellAssembler.h
index 1775ff7..d8c20d3 100644
--- a/src/gsThinShellAssembler.h
+++ b/src/gsThinShellAssembler.h
@@ -668,19 +668,19 @@ protected:
 
     gsMultiPatch<T> m_patches;
     // const gsFunctionSet<T> * m_defpatches;
-    const gsFunctionSet<T> * m_itpatches;
+    const gsFunctionSet<T> * m_itpatches = nullptr;
     mutable gsMultiBasis<T> m_basis;
-    const gsFunctionSet<T> *  m_spaceBasis;
+    const gsFunctionSet<T> *  m_spaceBasis = nullptr;
     gsBoundaryConditions<T> m_bcs;
 
     mutable gsMatrix<T> m_ddofs;
 
     gsSparseMatrix<T> m_mass;
 
-    const gsFunctionSet<T> * m_forceFun;
-    bool m_parametricForce;
-    const gsFunction<T> * m_foundFun;
-    const gsFunction<T> * m_pressFun;
+    const gsFunctionSet<T> * m_forceFun = nullptr;
+    bool m_parametricForce = false;
+    const gsFunction<T> * m_foundFun = nullptr;
+    const gsFunction<T> * m_pressFun = nullptr;
 
     gsMaterialMatrixContainer<T> m_materialMatrices;
 
@@ -700,7 +700,7 @@ protected:
 
     mutable ifContainer m_inPlane, m_outPlane, m_uncoupled, m_strongC0, m_weakC0, m_strongC1, m_weakC1, m_unassigned;
 
-    mutable ThinShellAssemblerStatus m_status;
+    mutable ThinShellAssemblerStatus m_status = ThinShellAssemblerStatus::Success;
 };
 
 #ifdef GISMO_WITH_PYBIND11
diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 8ded7c0..00bb393 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -77,7 +77,7 @@ gsThinShellAssembler<d, T, bending>::gsThinShellAssembler(const gsMultiPatch<T>
                                         :
                                         m_patches(patches),
                                         m_basis(basis),
-                                        m_spaceBasis(&basis),
+                                        m_spaceBasis(&m_basis),
                                         m_bcs(bconditions),
                                         m_forceFun(&surface_force)
 {
@@ -101,12 +101,10 @@ gsThinShellAssembler<d, T, bending>& gsThinShellAssembler<d, T, bending>::operat
     if (this!=&other)
     {
         m_mapper=other.m_mapper;
-        m_assembler=other.m_assembler;
-        m_evaluator=other.m_evaluator;
         m_patches=other.m_patches;
         m_itpatches=other.m_itpatches;
         m_basis=other.m_basis;
-        m_spaceBasis=other.m_spaceBasis;
+        m_spaceBasis=(other.m_spaceBasis==&other.m_basis) ? &m_basis : other.m_spaceBasis;
         m_bcs=other.m_bcs;
         m_ddofs=other.m_ddofs;
         m_mass=other.m_mass;
@@ -135,11 +133,19 @@ gsThinShellAssembler<d, T, bending>& gsThinShellAssembler<d, T, bending>::operat
         m_strongC1=other.m_strongC1;
         m_weakC1=other.m_weakC1;
         m_unassigned=other.m_unassigned;
+        m_status=other.m_status;
 
-        // To do: make copy constructor for the gsExprAssembler
-        m_assembler.setIntegrationElements(m_basis);
-        GISMO_ENSURE(m_options.hasGroup("ExprAssembler"),"The option list does not contain options with the label 'ExprAssembler'!");
-        m_assembler.setOptions(m_options.getGroup("ExprAssembler"));
+        // The expression assembler holds pointers to its own data and to this class, and copies of
+        // it share their expression data. Hence, the copy gets its own and the system is copied.
+        m_assembler=gsExprAssembler<T>();
+        m_evaluator=gsExprEvaluator<T>();
+        if (m_spaceBasis!=nullptr)
+        {
+            this->_initialize();
+            this->_setDirichlet(other.m_assembler.trialSpace(0).fixedPart());
+            const_cast<gsSparseMatrix<T> &>(m_assembler.matrix()) = other.m_assembler.matrix();
+            const_cast<gsMatrix<T>       &>(m_assembler.rhs()   ) = other.m_assembler.rhs();
+        }
     }
     return *this;
 }
@@ -147,45 +153,53 @@ gsThinShellAssembler<d, T, bending>& gsThinShellAssembler<d, T, bending>::operat
 template<short_t d, class T, bool bending>
 gsThinShellAssembler<d, T, bending>& gsThinShellAssembler<d, T, bending>::operator=( gsThinShellAssembler&& other )
 {
-    m_mapper=give(other.m_mapper);
-    m_assembler=give(other.m_assembler);
-    m_evaluator=give(other.m_evaluator);
-    m_patches=give(other.m_patches);
-    m_itpatches=give(other.m_itpatches);
-    m_basis=give(other.m_basis);
-    m_spaceBasis=give(other.m_spaceBasis);
-    m_bcs=give(other.m_bcs);
-    m_ddofs=give(other.m_ddofs);
-    m_mass=give(other.m_mass);
-    m_parametricForce=give(other.m_parametricForce);
-    m_forceFun=give(other.m_forceFun);
-    m_foundFun=give(other.m_foundFun);
-    m_pressFun=give(other.m_pressFun);
-    m_materialMatrices=give(other.m_materialMatrices);
-    m_pLoads=give(other.m_pLoads);
-    m_pMass=give(other.m_pMass);
-    m_solvector=give(other.m_solvector);
-    m_options=give(other.m_options);
-    m_foundInd=give(other.m_foundInd);
-    m_pressInd=give(other.m_pressInd);
-    m_continuity=give(other.m_continuity);
-    m_alpha_d_bc=give(other.m_alpha_d_bc);
-    m_alpha_r_bc=give(other.m_alpha_r_bc);
-    m_alpha_d_ifc=give(other.m_alpha_d_ifc);
-    m_alpha_r_ifc=give(other.m_alpha_r_ifc);
-    m_IfcDefault=give(other.m_IfcDefault);
-    m_inPlane=give(other.m_inPlane);
-    m_outPlane=give(other.m_outPlane);
-    m_uncoupled=give(other.m_uncoupled);
-    m_strongC0=give(other.m_strongC0);
-    m_weakC0=give(other.m_weakC0);
-    m_strongC1=give(other.m_strongC1);
-    m_weakC1=give(other.m_weakC1);
-    m_unassigned=give(other.m_unassigned);
-    // To do: make copy constructor for the gsExprAssembler
-    m_assembler.setIntegrationElements(m_basis);
-    GISMO_ENSURE(m_options.hasGroup("ExprAssembler"),"The option list does not contain options with the label 'ExprAssembler'!");
-    m_assembler.setOptions(m_options.getGroup("ExprAssembler"));
+    if (this!=&other)
+    {
+        m_mapper=give(other.m_mapper);
+        m_assembler=give(other.m_assembler);
+        m_evaluator=give(other.m_evaluator);
+        m_patches=give(other.m_patches);
+        m_itpatches=give(other.m_itpatches);
+        m_basis=give(other.m_basis);
+        m_spaceBasis=(other.m_spaceBasis==&other.m_basis) ? &m_basis : other.m_spaceBasis;
+        m_bcs=give(other.m_bcs);
+        m_ddofs=give(other.m_ddofs);
+        m_mass=give(other.m_mass);
+        m_parametricForce=give(other.m_parametricForce);
+        m_forceFun=give(other.m_forceFun);
+        m_foundFun=give(other.m_foundFun);
+        m_pressFun=give(other.m_pressFun);
+        m_materialMatrices=give(other.m_materialMatrices);
+        m_pLoads=give(other.m_pLoads);
+        m_pMass=give(other.m_pMass);
+        m_solvector=give(other.m_solvector);
+        m_options=give(other.m_options);
+        m_foundInd=give(other.m_foundInd);
+        m_pressInd=give(other.m_pressInd);
+        m_continuity=give(other.m_continuity);
+        m_alpha_d_bc=give(other.m_alpha_d_bc);
+        m_alpha_r_bc=give(other.m_alpha_r_bc);
+        m_alpha_d_ifc=give(other.m_alpha_d_ifc);
+        m_alpha_r_ifc=give(other.m_alpha_r_ifc);
+        m_IfcDefault=give(other.m_IfcDefault);
+        m_inPlane=give(other.m_inPlane);
+        m_outPlane=give(other.m_outPlane);
+        m_uncoupled=give(other.m_uncoupled);
+        m_strongC0=give(other.m_strongC0);
+        m_weakC0=give(other.m_weakC0);
+        m_strongC1=give(other.m_strongC1);
+        m_weakC1=give(other.m_weakC1);
+        m_unassigned=give(other.m_unassigned);
+        m_status=other.m_status;
+
+        // The space and the integration elements refer to the basis of this class
+        if (m_spaceBasis!=nullptr)
+        {
+            m_assembler.cleanUp();
+            m_assembler.setIntegrationElements(m_basis);
+            m_assembler.getSpace(*m_spaceBasis, d, 0); // last argument is the space ID
+        }
+    }
     return *this;
 }
 
-- 
2.43.0


From cea8105e2a65fa25862322be3d7c966adda77c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:59 +0000
Subject: [PATCH 22/76] fix: the residual can be assembled without a preceding
 matrix assembly of the same size

---
 src/gsThinShellAssembler.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 00bb393..e2f8c85 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -2020,7 +2020,9 @@ gsThinShellAssembler<d, T, bending>::assembleVector_impl(const gsFunctionSet<T>
     geometryMap m_ori   = m_assembler.getMap(m_patches);
     geometryMap m_def   = m_assembler.getMap(deformed);
 
-    // Initialize vector
+    // Initialize vector; the matrix is kept, unless there is none for this number of degrees of freedom
+    if (m_assembler.fiberMatrix().cols()!=m_assembler.numDofs())
+        m_assembler.initMatrix();
     m_assembler.initVector(1);
 
     gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> m_S0(m_materialMatrices,&m_patches,&deformed);
@@ -2098,7 +2100,9 @@ gsThinShellAssembler<d, T, bending>::assembleVector_impl(const gsFunctionSet<T>
     geometryMap m_ori   = m_assembler.getMap(m_patches);
     geometryMap m_def   = m_assembler.getMap(deformed);
 
-    // Initialize vector
+    // Initialize vector; the matrix is kept, unless there is none for this number of degrees of freedom
+    if (m_assembler.fiberMatrix().cols()!=m_assembler.numDofs())
+        m_assembler.initMatrix();
     m_assembler.initVector(1);
 
     gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> m_S0(m_materialMatrices,&m_patches,&deformed);
-- 
2.43.0


From 03a8488db3fba130a4a1eb9a5afb3e1bdfd6b585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:26 +0000
Subject: [PATCH 23/76] fix: the mass, stretches and stress fields use the
 undeformed geometry they are given, not the last one the material saw

---
 src/gsThinShellAssembler.hpp | 10 +++++-----
 src/gsThinShellFunctions.hpp | 34 +++++++++++++++++-----------------
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index e2f8c85..69d08fc 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1462,7 +1462,7 @@ ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assembleMass(const
     // Initialize stystem
     m_assembler.initSystem();
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::Density> m_mm(m_materialMatrices,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::Density> m_mm(m_materialMatrices,&m_patches,&m_patches);
     auto mm0 = m_assembler.getCoeff(m_mm);
 
     space       m_space = m_assembler.trialSpace(0);
@@ -2575,8 +2575,8 @@ T gsThinShellAssembler<d, T, bending>::getElasticEnergy(const gsFunctionSet<T> &
     geometryMap m_ori   = m_assembler.getMap(m_patches);
     geometryMap m_def   = m_assembler.getMap(deformed);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> m_S0(m_materialMatrices,&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> m_S1(m_materialMatrices,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> m_S0(m_materialMatrices,&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> m_S1(m_materialMatrices,&m_patches,&deformed);
     auto S0  = m_assembler.getCoeff(m_S0);
     auto S1  = m_assembler.getCoeff(m_S1);
     auto u   = m_def - m_ori;
@@ -2784,7 +2784,7 @@ gsMatrix<T> gsThinShellAssembler<d, T, bending>::computePrincipalStretches(const
     // geometryMap m_def   = m_assembler.getMap(*m_defpatches);
     // m_assembler.initSystem();
 
-    gsMaterialMatrixEval<T,MaterialOutput::Stretch> m_mm(m_materialMatrices,&deformed,zmat);
+    gsMaterialMatrixEval<T,MaterialOutput::Stretch> m_mm(m_materialMatrices,&m_patches,&deformed,zmat);
     auto mm0 = m_assembler.getCoeff(m_mm);
 
     gsExprEvaluator<T> evaluator(m_assembler);
@@ -2814,7 +2814,7 @@ gsMatrix<T> gsThinShellAssembler<d, T, bending>::computePrincipalStresses(const
     // geometryMap m_def   = m_assembler.getMap(*m_defpatches);
     // m_assembler.initSystem();
 
-    gsMaterialMatrixEval<T,MaterialOutput::PStress> m_mm(m_materialMatrices,&deformed,zmat);
+    gsMaterialMatrixEval<T,MaterialOutput::PStress> m_mm(m_materialMatrices,&m_patches,&deformed,zmat);
     auto mm0 = m_assembler.getCoeff(m_mm);
 
     gsExprEvaluator<T> evaluator(m_assembler);
diff --git a/src/gsThinShellFunctions.hpp b/src/gsThinShellFunctions.hpp
index bcaae2f..c0381a0 100644
--- a/src/gsThinShellFunctions.hpp
+++ b/src/gsThinShellFunctions.hpp
@@ -37,47 +37,47 @@ void gsShellStressFunction<T>::eval_into(const gsMatrix<T> & u, gsMatrix<T> & re
     // Initialize stystem
     // m_assembler.initSystem(false);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> m_N0(m_materialMatrices,m_defpatches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> m_N0(m_materialMatrices,m_patches,m_defpatches);
     variable N0 = ev.getVariable(m_N0);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> m_N1(m_materialMatrices,m_defpatches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> m_N1(m_materialMatrices,m_patches,m_defpatches);
     variable N1 = ev.getVariable(m_N1);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::CauchyVectorN> m_Nc0(m_materialMatrices,m_defpatches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::CauchyVectorN> m_Nc0(m_materialMatrices,m_patches,m_defpatches);
     variable Nc0 = ev.getVariable(m_Nc0);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::CauchyVectorM> m_Nc1(m_materialMatrices,m_defpatches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::CauchyVectorM> m_Nc1(m_materialMatrices,m_patches,m_defpatches);
     variable Nc1 = ev.getVariable(m_Nc1);
 
-    gsMaterialMatrixEval<T,MaterialOutput::StressN> m_S0(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::StressN> m_S0(m_materialMatrices,m_patches,m_defpatches,z);
     variable S0 = ev.getVariable(m_S0);
-    gsMaterialMatrixEval<T,MaterialOutput::StressM> m_S1(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::StressM> m_S1(m_materialMatrices,m_patches,m_defpatches,z);
     variable S1 = ev.getVariable(m_S1);
 
-    gsMaterialMatrixEval<T,MaterialOutput::CauchyStressN> m_Sc0(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::CauchyStressN> m_Sc0(m_materialMatrices,m_patches,m_defpatches,z);
     variable Sc0 = ev.getVariable(m_Sc0);
-    gsMaterialMatrixEval<T,MaterialOutput::CauchyStressM> m_Sc1(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::CauchyStressM> m_Sc1(m_materialMatrices,m_patches,m_defpatches,z);
     variable Sc1 = ev.getVariable(m_Sc1);
 
-    gsMaterialMatrixEval<T,MaterialOutput::PStress> m_Sp(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStress> m_Sp(m_materialMatrices,m_patches,m_defpatches,z);
     variable Sp = ev.getVariable(m_Sp);
-    gsMaterialMatrixEval<T,MaterialOutput::PStressDir> m_pstressdir(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStressDir> m_pstressdir(m_materialMatrices,m_patches,m_defpatches,z);
     variable pstressdir = ev.getVariable(m_pstressdir);
 
-    gsMaterialMatrixEval<T,MaterialOutput::PCauchyStressN> m_Sp0(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::PCauchyStressN> m_Sp0(m_materialMatrices,m_patches,m_defpatches,z);
     variable Sp0 = ev.getVariable(m_Sp0);
-    gsMaterialMatrixEval<T,MaterialOutput::PCauchyStressM> m_Sp1(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::PCauchyStressM> m_Sp1(m_materialMatrices,m_patches,m_defpatches,z);
     variable Sp1 = ev.getVariable(m_Sp1);
 
-    gsMaterialMatrixEval<T,MaterialOutput::PStrainN> m_Ep0(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStrainN> m_Ep0(m_materialMatrices,m_patches,m_defpatches,z);
     variable Ep0 = ev.getVariable(m_Ep0);
-    gsMaterialMatrixEval<T,MaterialOutput::PStrainM> m_Ep1(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStrainM> m_Ep1(m_materialMatrices,m_patches,m_defpatches,z);
     variable Ep1 = ev.getVariable(m_Ep1);
 
-    gsMaterialMatrixEval<real_t,MaterialOutput::TensionField> m_TF(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<real_t,MaterialOutput::TensionField> m_TF(m_materialMatrices,m_patches,m_defpatches,z);
     variable TF  = ev.getVariable(m_TF);
 
-    gsMaterialMatrixEval<T,MaterialOutput::Stretch> m_lambda(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::Stretch> m_lambda(m_materialMatrices,m_patches,m_defpatches,z);
     variable lambda = ev.getVariable(m_lambda);
-    gsMaterialMatrixEval<T,MaterialOutput::StretchDir> m_lambdadir(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::StretchDir> m_lambdadir(m_materialMatrices,m_patches,m_defpatches,z);
     variable lambdadir = ev.getVariable(m_lambdadir);
 
     gsFunctionExpr<> mult2t("1","0","0","0","1","0","0","0","2",2);
-- 
2.43.0


From 3215f4e6ff37225eab7d84ea5c7b385358df6ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:26 +0000
Subject: [PATCH 24/76] fix: principal stress fields are evaluated on their own
 patch

---
 src/gsThinShellFunctions.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gsThinShellFunctions.hpp b/src/gsThinShellFunctions.hpp
index c0381a0..2c6e4bf 100644
--- a/src/gsThinShellFunctions.hpp
+++ b/src/gsThinShellFunctions.hpp
@@ -206,7 +206,7 @@ void gsShellStressFunction<T>::eval_into(const gsMatrix<T> & u, gsMatrix<T> & re
             break;
         case stress_type::principal_stress :
             for (index_t k = 0; k != u.cols(); ++k)
-                result.col(k) = ev.eval(Sp,u.col(k));
+                result.col(k) = ev.eval(Sp,u.col(k),m_patchID);
             break;
         case stress_type::principal_stress_membrane :
             for (index_t k = 0; k != u.cols(); ++k)
@@ -240,21 +240,21 @@ void gsShellStressFunction<T>::eval_into(const gsMatrix<T> & u, gsMatrix<T> & re
         case stress_type::principal_stress_dir1 :
             for (index_t k = 0; k != u.cols(); ++k)
             {
-                tmp = ev.eval(pstressdir,u.col(k));
+                tmp = ev.eval(pstressdir,u.col(k),m_patchID);
                 result.col(k) = tmp.reshape(3,3).col(0);
             }
             break;
         case stress_type::principal_stress_dir2 :
             for (index_t k = 0; k != u.cols(); ++k)
             {
-                tmp = ev.eval(pstressdir,u.col(k));
+                tmp = ev.eval(pstressdir,u.col(k),m_patchID);
                 result.col(k) = tmp.reshape(3,3).col(1);
             }
             break;
         case stress_type::principal_stress_dir3 :
             for (index_t k = 0; k != u.cols(); ++k)
             {
-                tmp = ev.eval(pstressdir,u.col(k));
+                tmp = ev.eval(pstressdir,u.col(k),m_patchID);
                 result.col(k) = tmp.reshape(3,3).col(2);
             }
             break;
-- 
2.43.0


From 96ec7fc77a11c1c9b21d158317e5c1675a2e14ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:48 +0000
Subject: [PATCH 25/76] fix: withdrawing all Dirichlet conditions leaves no
 fixed values behind

---
 src/gsThinShellAssembler.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 69d08fc..2e6f241 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1313,6 +1313,7 @@ void gsThinShellAssembler<d, T, bending>::_assembleDirichlet()
     this->_getOptions();
     space m_space = m_assembler.trialSpace(0); // last argument is the space ID
     // if statement
+    this->_setDirichlet(gsMatrix<T>()); // stays empty when there are no Dirichlet conditions
     m_space.setup(m_bcs, dirichlet::l2Projection, m_continuity);
     // m_assembler.initSystem();
 }
@@ -1322,6 +1323,7 @@ void gsThinShellAssembler<d, T, bending>::homogenizeDirichlet()
 {
     this->_getOptions();
     space m_space = m_assembler.trialSpace(0); // last argument is the space ID
+    this->_setDirichlet(gsMatrix<T>()); // stays empty when there are no Dirichlet conditions
     m_space.setup(m_bcs, dirichlet::homogeneous, m_continuity);
     // space m_space = m_assembler.trialSpace(0); // last argument is the space ID
     // const_cast<expr::gsFeSpace<T> & >(m_space).fixedPart().setZero();
-- 
2.43.0


From 2f0fcb2d4ee73ac5b23e5883991f383f0f4d261c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:54 +0000
Subject: [PATCH 26/76] fix: weak Dirichlet conditions pull towards the
 prescribed displacement

The penalty entered with a negative factor (indefinite matrix), and the planar linear
right-hand side left out the stiffness scaling used in the matrix.
---
 src/gsThinShellAssembler.hpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 2e6f241..7784be8 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -607,7 +607,7 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl()
     (
         m_bcs.get("Weak Dirichlet")
         ,
-        -(alpha_d * m_space * m_space.tr()) * meas(m_ori)
+        (alpha_d * m_space * m_space.tr()) * meas(m_ori)
     );
 
     // for weak clamped
@@ -649,7 +649,7 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl()
     (
         m_bcs.get("Weak Dirichlet")
         ,
-        -(alpha_d * m_space * g_N         ) * meas(m_ori)
+        (alpha_d * m_space * g_N         ) * meas(m_ori)
     );
 
     // for weak clamped
@@ -683,7 +683,7 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl()
     (
         m_bcs.get("Weak Dirichlet")
         ,
-        -(alpha_d * m_space * m_space.tr()) * meas(m_ori)
+        (alpha_d * m_space * m_space.tr()) * meas(m_ori)
     );
 }
 
@@ -692,17 +692,29 @@ template <short_t _d, bool _matrix>
 typename std::enable_if<!(_d==3) && !_matrix, void>::type
 gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl()
 {
+    gsMultiPatch<T> & defpatches = m_patches;
     geometryMap m_ori   = m_assembler.getMap(m_patches);
 
     space m_space = m_assembler.trialSpace(0); // last argument is the space ID
     auto g_N = m_assembler.getBdrFunction(m_ori);
 
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> m_mmA(m_materialMatrices,&m_patches,&defpatches);
+    auto mmA = m_assembler.getCoeff(m_mmA);
+
+    auto cart2cov = cartcov(m_ori);
+    auto con2cartI = cartcon(m_ori).inv();
+
+    auto mmAcart = (con2cartI * reshape(mmA,3,3) * cart2cov);
+
+    element el = m_assembler.getElement();
+    auto alpha_d = m_alpha_d_bc * reshape(mmAcart,9,1).max().val() / el.area(m_ori);
+
     // Weak BCs
     m_assembler.assembleBdr
     (
         m_bcs.get("Weak Dirichlet")
         ,
-        (m_alpha_d_bc * (m_space * (m_ori - m_ori) - m_space * (g_N) )) * meas(m_ori)
+        (alpha_d * m_space * g_N         ) * meas(m_ori)
     );
 }
 
@@ -749,7 +761,7 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl(const gsFunctionSet<T
     (
         m_bcs.get("Weak Dirichlet")
         ,
-        -alpha_d * m_space * m_space.tr() * meas(m_ori)
+        alpha_d * m_space * m_space.tr() * meas(m_ori)
     );
 
     // for weak clamped
@@ -799,7 +811,7 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl(const gsFunctionSet<T
     (
         m_bcs.get("Weak Dirichlet")
         ,
-        alpha_d * (m_space * du - m_space * (g_N) ) * meas(m_ori)
+        -alpha_d * (m_space * du - m_space * (g_N) ) * meas(m_ori)
     );
 
     // for weak clamped
@@ -838,7 +850,7 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl(const gsFunctionSet<T
     (
         m_bcs.get("Weak Dirichlet")
         ,
-        -alpha_d * m_space * m_space.tr() * meas(m_ori)
+        alpha_d * m_space * m_space.tr() * meas(m_ori)
     );
 }
 
@@ -869,7 +881,7 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl(const gsFunctionSet<T
     (
         m_bcs.get("Weak Dirichlet")
         ,
-        alpha_d * (m_space * (m_def - m_ori) - m_space * (g_N) ) * meas(m_ori)
+        -alpha_d * (m_space * (m_def - m_ori) - m_space * (g_N) ) * meas(m_ori)
     );
 }
 
-- 
2.43.0


From 2f7ed1644d0df063af8ff66b6a33e7bd90d84c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:54 +0000
Subject: [PATCH 27/76] fix: weak clamped residual and matrix belong to the
 same rotation penalty

---
 src/gsThinShellAssembler.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 7784be8..0fcb5ef 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -770,7 +770,7 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl(const gsFunctionSet<T
         m_bcs.get("Weak Clamped")
         ,
         (
-            alpha_r * dnN * ( var2deriv2(m_space,m_space,m_def,unv(m_ori).tr()) )
+            alpha_r * dnN * ( var2(m_space,m_space,m_def,unv(m_ori).tr()) )
             +
             alpha_r * ( ( var1(m_space,m_def) * unv(m_ori) ) * ( var1(m_space,m_def) * unv(m_ori) ).tr() )
         ) * meas(m_ori)
@@ -804,7 +804,7 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl(const gsFunctionSet<T
     auto alpha_r = m_alpha_r_bc * reshape(mmDcart,9,1).max().val() / el.area(m_ori);
 
     auto du  = m_def - m_ori;
-    auto dnN = ( usn(m_def).tr()*nv(m_ori) - usn(m_ori).tr()*nv(m_ori) ).val();
+    auto dnN = ( usn(m_def).tr()*unv(m_ori) - usn(m_ori).tr()*unv(m_ori) ).val();
 
     // Weak BCs
     m_assembler.assembleBdr
@@ -820,7 +820,7 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl(const gsFunctionSet<T
         m_bcs.get("Weak Clamped")
         ,
         (
-            - alpha_r * dnN * ( var1(m_space,m_def) * usn(m_ori) )
+            - alpha_r * dnN * ( var1(m_space,m_def) * unv(m_ori) )
         ) * meas(m_ori)
     );
 }
-- 
2.43.0


From a3baad37e3aba8e5adafc33915a27def589ed2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:54 +0000
Subject: [PATCH 28/76] fix: planar weak C0 coupling counted the edge measure
 twice

---
 src/gsThinShellAssembler.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 0fcb5ef..8b86a78 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1010,13 +1010,13 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakIfc_impl()
 
     // C^0 coupling
     m_assembler.assembleIfc(m_weakC0,
-                     alpha_d * m_space.left() * m_space.left().tr() * meas(m_ori) * meas(m_ori)
+                     alpha_d * m_space.left() * m_space.left().tr() * meas(m_ori)
                     ,
-                    -alpha_d * m_space.right()* m_space.left() .tr() * meas(m_ori) * meas(m_ori)
+                    -alpha_d * m_space.right()* m_space.left() .tr() * meas(m_ori)
                     ,
-                    -alpha_d * m_space.left() * m_space.right().tr() * meas(m_ori) * meas(m_ori)
+                    -alpha_d * m_space.left() * m_space.right().tr() * meas(m_ori)
                     ,
-                     alpha_d * m_space.right()* m_space.right().tr() * meas(m_ori) * meas(m_ori)
+                     alpha_d * m_space.right()* m_space.right().tr() * meas(m_ori)
                      );
 
     // C^1 coupling DOES NOT CONTRIBUTE IN 2D PROBLEMS
-- 
2.43.0


From 38f5ec2c587f2e850938ac4ad108dd023c1e9859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:54 +0000
Subject: [PATCH 29/76] fix: sign of the planar weak C0 coupling residual

---
 src/gsThinShellAssembler.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 8b86a78..a0366c2 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1311,9 +1311,9 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakIfc_impl(const gsFunctionSet<T
 
     // C^0 coupling
      m_assembler.assembleIfc(m_weakC0,
-                      alpha_d * m_space.left() * du * meas(m_ori)
+                     -alpha_d * m_space.left() * du * meas(m_ori)
                      ,
-                     -alpha_d * m_space.right()* du * meas(m_ori)
+                      alpha_d * m_space.right()* du * meas(m_ori)
                       );
 
     // C^1 coupling DOES NOT CONTRIBUTE IN 2D PROBLEMS
-- 
2.43.0


From 0f19236750fcbbbce84cc1268c7621720d8b0a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:54 +0000
Subject: [PATCH 30/76] fix: second variations of the in-plane part of the weak
 C1 coupling

---
 src/gsThinShellAssembler.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index a0366c2..140ad06 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1138,17 +1138,17 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakIfc_impl(const gsFunctionSet<T
     m_assembler.assembleIfc(m_weakC1,
                      alpha_r * dnN_lr * ovar2(m_space.left(),m_space.left(),m_def.left(),usn(m_def.right()).tr()) * meas(m_ori) // left left
                     + // Symmetry
-                     alpha_r * dnN_rl * ovar2(m_space.left(),m_space.left(),m_def.left(),usn(m_def.right()).tr()) * meas(m_ori) // left left
+                     alpha_r * dnN_rl * var2(m_space.left(),m_space.left(),m_def.left(),unv(m_def.right()).tr()) * meas(m_ori) // left left
                     ,
                      alpha_r * dnN_lr * ( ovar1(m_space.left() ,m_def.left() ) * var1(m_space.right(),m_def.right()).tr() ) * meas(m_ori) // left right
                     + // Symmetry
-                     alpha_r * dnN_rl * ( ovar1(m_space.left() ,m_def.left() ) * var1(m_space.right(),m_def.right()).tr() ) * meas(m_ori) // right left
+                     alpha_r * dnN_rl * ( var1(m_space.left() ,m_def.left() ) * ovar1(m_space.right(),m_def.right()).tr() ) * meas(m_ori) // left right
                     ,
-                     alpha_r * dnN_lr * ( ovar1(m_space.right(),m_def.right()) * var1(m_space.left() ,m_def.left() ).tr() ) * meas(m_ori) // right left
+                     alpha_r * dnN_lr * ( var1(m_space.right(),m_def.right()) * ovar1(m_space.left() ,m_def.left() ).tr() ) * meas(m_ori) // right left
                     + // Symmetry
                      alpha_r * dnN_rl * ( ovar1(m_space.right(),m_def.right()) * var1(m_space.left() ,m_def.left() ).tr() ) * meas(m_ori) // right left
                     ,
-                     alpha_r * dnN_lr * ovar2(m_space.right(),m_space.right(),m_def.right(),usn(m_def.left()).tr()) * meas(m_ori) // right right
+                     alpha_r * dnN_lr * var2(m_space.right(),m_space.right(),m_def.right(),unv(m_def.left()).tr()) * meas(m_ori) // right right
                     + // Symmetry
                      alpha_r * dnN_rl * ovar2(m_space.right(),m_space.right(),m_def.right(),usn(m_def.left()).tr()) * meas(m_ori) // right right
                      );
-- 
2.43.0


From 764d818f95cf6c9165842a19241695f1ec474c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:57 +0000
Subject: [PATCH 31/76] fix: second variation of the outer normal uses the
 tangents with their lengths

---
 src/gsThinShellUtils.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/gsThinShellUtils.h b/src/gsThinShellUtils.h
index eec8b42..3457728 100644
--- a/src/gsThinShellUtils.h
+++ b/src/gsThinShellUtils.h
@@ -1042,7 +1042,6 @@ public:
         eC.resize(1,3);
 
         cJac = _G.data().values[1].reshapeCol(k, _G.data().dim.first, _G.data().dim.second).transpose();
-        cJac.colwise().normalize();
 
         onormal = _G.data().outNormal(k);
         onormal.normalize();
-- 
2.43.0


From 7f1674a65ec7c8605c118a2e41e6a8961401c067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:56 +0000
Subject: [PATCH 32/76] fix: full solution vector of several patches

The values of the second patch overwrote components of the first.
---
 src/gsThinShellAssembler.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 140ad06..8ca5950 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -2735,11 +2735,19 @@ gsMatrix<T> gsThinShellAssembler<d, T, bending>::fullSolutionVector(const gsMatr
     space m_space = m_assembler.trialSpace(0);
     const gsMatrix<T> ddofs = m_space.fixedPart(); // restored below
     m_space.setup(m_bcs, dirichlet::l2Projection, m_continuity);
-    solution m_solution = m_assembler.getSolution(m_space, solVector);
-    gsMatrix<T> result;
-    m_solution.extractFull(result);
+    const gsDofMapper & mapper = m_space.mapper();
+    gsMatrix<T> result(mapper.mapSize(),1); // per component, all patches one after the other
+    index_t k = 0;
+    for (index_t c = 0; c!=m_space.dim(); c++)
+        for (size_t p = 0; p!=mapper.numPatches(); p++)
+            for (size_t i = 0; i!=mapper.patchSize(p,c); i++, k++)
+            {
+                const index_t ii = mapper.index(i,p,c);
+                result(k,0) = mapper.is_free_index(ii) ? solVector.at(ii)
+                                                       : m_space.fixedPart().at( mapper.global_to_bindex(ii) );
+            }
     this->_setDirichlet(ddofs);
-    return result.col(0);
+    return result;
 }
 
 template<short_t d, class T, bool bending>
-- 
2.43.0


From 665bd8980a1bae156af1e8593af7ae80d8753eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:39 +0000
Subject: [PATCH 33/76] fix: measure the displacement norm on the undeformed
 surface

---
 src/gsThinShellAssembler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 8ca5950..e51d4b1 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -2573,7 +2573,7 @@ T gsThinShellAssembler<d, T, bending>::getDisplacementNorm(const gsFunctionSet<T
     auto u   = m_def - m_ori;
 
     gsExprEvaluator<T> evaluator(m_assembler);
-    T result = evaluator.integral( u.tr() * u * meas(m_def));
+    T result = evaluator.integral( u.tr() * u * meas(m_ori));
     T area = evaluator.integral(meas(m_ori));
 
     return std::pow(result/area,0.5);
-- 
2.43.0


From df565bb2885002800c80528f47c870b4aaf30a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:39 +0000
Subject: [PATCH 34/76] fix: elastic energy is half the work of the internal
 forces

---
 src/gsThinShellAssembler.hpp | 38 ++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index e51d4b1..c3f5ba0 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -2582,25 +2582,25 @@ T gsThinShellAssembler<d, T, bending>::getDisplacementNorm(const gsFunctionSet<T
 template<short_t d, class T, bool bending>
 T gsThinShellAssembler<d, T, bending>::getElasticEnergy(const gsFunctionSet<T> & deformed)
 {
-    m_assembler.cleanUp();
-    GISMO_ENSURE(m_options.hasGroup("ExprAssembler"),"The option list does not contain options with the label 'ExprAssembler'!");
-    m_assembler.setOptions(m_options.getGroup("ExprAssembler"));
-
-    geometryMap m_ori   = m_assembler.getMap(m_patches);
-    geometryMap m_def   = m_assembler.getMap(deformed);
-
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> m_S0(m_materialMatrices,&m_patches,&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> m_S1(m_materialMatrices,&m_patches,&deformed);
-    auto S0  = m_assembler.getCoeff(m_S0);
-    auto S1  = m_assembler.getCoeff(m_S1);
-    auto u   = m_def - m_ori;
-
-    auto m_N        = S0.tr();
-    auto m_M        = S1.tr(); // output is a column
-
-    gsExprEvaluator<T> evaluator(m_assembler);
-    T result = evaluator.integral(0.5 * ( u.tr() * ( m_N + m_M ).tr() ) * meas(m_def));
-    return result;
+    const gsMultiPatch<T> * def = dynamic_cast<const gsMultiPatch<T> *>(&deformed);
+    GISMO_ENSURE(def!=nullptr,"The elastic energy is only available for a multi-patch geometry");
+
+    // Displacement
+    gsMultiPatch<T> u = m_patches;
+    for (size_t p = 0; p != u.nPatches(); ++p)
+        u.patch(p).coefs() = def->patch(p).coefs() - m_patches.patch(p).coefs();
+
+    // Internal forces: no supports, no loads and no coupling between the patches
+    gsBoundaryConditions<T> bcs;
+    bcs.setGeoMap(m_patches);
+    gsConstantFunction<T> force(gsVector<T>::Zero(d),d);
+    gsThinShellAssembler<d, T, bending> internal(m_patches,m_basis,bcs,force,m_materialMatrices);
+    gsOptionList options = m_options;
+    options.setInt("Continuity",-1);
+    internal.setOptions(options);
+    GISMO_ENSURE(internal.assembleVector(deformed)==ThinShellAssemblerStatus::Success,"Assembly of the internal forces failed.");
+
+    return -0.5 * internal.constructSolutionVector(u).dot(internal.rhs().col(0));
 }
 
 template<short_t d, class T, bool bending>
-- 
2.43.0


From f34e3ef756a1f6475f2dcbc156bc9540816f393c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:39 +0000
Subject: [PATCH 35/76] fix: compare unit normals in interfaceErrorNormal

---
 src/gsThinShellAssembler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index c3f5ba0..1733b78 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -2641,7 +2641,7 @@ T gsThinShellAssembler<d, T, bending>::interfaceErrorNormal(const gsFunctionSet<
 {
     geometryMap G = m_assembler.getMap(deformed);
     gsExprEvaluator<T> ev(m_assembler);
-    ev.maxInterface( (sn(G.left())-sn(G.right())).norm() , iFaces);
+    ev.maxInterface( (sn(G.left()).normalized()-sn(G.right()).normalized()).norm() , iFaces);
     return ev.value();
 }
 
-- 
2.43.0


From 23837bcacb1b9e5f1a9443bfde7dd735d09877df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:39 +0000
Subject: [PATCH 36/76] fix: boundaryForce integrates with the options of the
 assembler

---
 src/gsThinShellAssembler.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 1733b78..e703c02 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -2353,6 +2353,8 @@ gsThinShellAssembler<d, T, bending>::boundaryForce_impl(const gsFunctionSet<T> &
 {
     gsExprAssembler<T> assembler;
     assembler.setIntegrationElements(m_basis);
+    GISMO_ENSURE(m_options.hasGroup("ExprAssembler"),"The option list does not contain options with the label 'ExprAssembler'!");
+    assembler.setOptions(m_options.getGroup("ExprAssembler"));
     space u = assembler.getSpace(*m_spaceBasis, d, 0); // last argument is the space ID
 
     gsBoundaryConditions<T> bc;
@@ -2427,6 +2429,8 @@ gsThinShellAssembler<d, T, bending>::boundaryForce_impl(const gsFunctionSet<T> &
 {
     gsExprAssembler<T> assembler;
     assembler.setIntegrationElements(m_basis);
+    GISMO_ENSURE(m_options.hasGroup("ExprAssembler"),"The option list does not contain options with the label 'ExprAssembler'!");
+    assembler.setOptions(m_options.getGroup("ExprAssembler"));
     space u = assembler.getSpace(*m_spaceBasis, d, 0); // last argument is the space ID
 
     gsBoundaryConditions<T> bc;
-- 
2.43.0


From da0ac41da26e6188efe67803494d9304797545f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:39 +0000
Subject: [PATCH 37/76] fix: implement the L2 projection onto the displacement
 space

---
 src/gsThinShellAssembler.hpp | 57 ++++++++++--------------------------
 1 file changed, 16 insertions(+), 41 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index e703c02..2d9cb79 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -2890,58 +2890,33 @@ void gsThinShellAssembler<d, T, bending>::constructStress(
 // }
 
 template<short_t d, class T, bool bending>
-void gsThinShellAssembler<d, T, bending>::projectL2_into(const gsFunction<T> & /*fun*/, gsMatrix<T>& /*result*/)
+void gsThinShellAssembler<d, T, bending>::projectL2_into(const gsFunction<T> & fun, gsMatrix<T>& result)
 {
-    // /// todo: make a projection with BCs?
-    // /// todo: test
-    // // this->_getOptions();
-
-    // m_assembler.cleanUp();
-    // GISMO_ENSURE(m_options.hasGroup("ExprAssembler"),"The option list does not contain options with the label 'ExprAssembler'!");
-    // m_assembler.setOptions(m_options.getGroup("ExprAssembler"));
-
-    // geometryMap m_ori   = m_assembler.getMap(m_patches);
-
-    // // Initialize stystem
-    // m_assembler.initSystem();
+    gsExprAssembler<T> assembler;
+    assembler.setIntegrationElements(m_basis);
+    GISMO_ENSURE(m_options.hasGroup("ExprAssembler"),"The option list does not contain options with the label 'ExprAssembler'!");
+    assembler.setOptions(m_options.getGroup("ExprAssembler"));
 
-    // space       m_space = m_assembler.trialSpace(0);
-    // auto    function = m_assembler.getCoeff(fun, m_ori);
-    // // auto    function = m_assembler.getCoeff(fun);
+    space u = assembler.getSpace(*m_spaceBasis, d, 0); // last argument is the space ID
+    u.setup(m_bcs, dirichlet::l2Projection, m_continuity);
+    const_cast<expr::gsFeSpace<T> & >(u).fixedPart() = m_ddofs;
+    assembler.initSystem();
 
-    // // assemble system
-    // m_assembler.assemble(m_space*m_space.tr()*meas(m_ori),m_space * function*meas(m_ori));
+    geometryMap ori = assembler.getMap(m_patches);
+    auto function   = assembler.getCoeff(fun, ori);
+    assembler.assemble(u * u.tr() * meas(ori), u * function * meas(ori));
 
-    // gsSparseSolver<>::uPtr solver = gsSparseSolver<T>::get( m_options.askString("Solver","CGDiagonal") );
-    // solver->compute(m_assembler.matrix());
-    // result = solver->solve(m_assembler.rhs());
+    typename gsSparseSolver<T>::LU solver;
+    solver.compute(assembler.matrix());
+    result = solver.solve(assembler.rhs());
 }
 
 template<short_t d, class T, bool bending>
 void gsThinShellAssembler<d, T, bending>::projectL2_into(const gsFunction<T> & fun, gsMultiPatch<T>& mp)
 {
-    /// todo: make a projection with BCs?
-    /// todo: test
-    gsMatrix<T> tmp = projectL2(fun);
-    mp = m_patches;
-
-    // Solution vector and solution variable
-    space m_space = m_assembler.trialSpace(0);
-    m_space.setup(m_bcs, dirichlet::l2Projection, m_continuity);
-    const_cast<expr::gsFeSpace<T> & >(m_space).fixedPart() = m_ddofs;
-
-    solution m_solution = m_assembler.getSolution(m_space, tmp);
-
-    gsMatrix<T> cc;
-    for ( size_t k =0; k!=mp.nPatches(); ++k) // Deform the geometry
-    {
-        // // extract deformed geometry
-        m_solution.extract(cc, k);
-        mp.patch(k).coefs() += cc;  // defG points to mp_def, therefore updated
-    }
+    mp = _constructSolution(projectL2(fun),m_patches);
 }
 
-
 template<short_t d, class T, bool bending>
 gsMatrix<T> gsThinShellAssembler<d, T, bending>::projectL2(const gsFunction<T> & fun)
 {
-- 
2.43.0


From f897f694c2d6efb6f227e1e3dca8bd605233b32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:39 +0000
Subject: [PATCH 38/76] fix: flexural strain field in the local frame;
 principal flexural strain field

---
 src/gsThinShellFunctions.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/gsThinShellFunctions.hpp b/src/gsThinShellFunctions.hpp
index 2c6e4bf..7a0e1a0 100644
--- a/src/gsThinShellFunctions.hpp
+++ b/src/gsThinShellFunctions.hpp
@@ -69,8 +69,6 @@ void gsShellStressFunction<T>::eval_into(const gsMatrix<T> & u, gsMatrix<T> & re
 
     gsMaterialMatrixEval<T,MaterialOutput::PStrainN> m_Ep0(m_materialMatrices,m_patches,m_defpatches,z);
     variable Ep0 = ev.getVariable(m_Ep0);
-    gsMaterialMatrixEval<T,MaterialOutput::PStrainM> m_Ep1(m_materialMatrices,m_patches,m_defpatches,z);
-    variable Ep1 = ev.getVariable(m_Ep1);
 
     gsMaterialMatrixEval<real_t,MaterialOutput::TensionField> m_TF(m_materialMatrices,m_patches,m_defpatches,z);
     variable TF  = ev.getVariable(m_TF);
@@ -80,8 +78,6 @@ void gsShellStressFunction<T>::eval_into(const gsMatrix<T> & u, gsMatrix<T> & re
     gsMaterialMatrixEval<T,MaterialOutput::StretchDir> m_lambdadir(m_materialMatrices,m_patches,m_defpatches,z);
     variable lambdadir = ev.getVariable(m_lambdadir);
 
-    gsFunctionExpr<> mult2t("1","0","0","0","1","0","0","0","2",2);
-    variable m_m2 = ev.getVariable(mult2t);
     gsFunctionExpr<> mult12t("1","0","0","0","1","0","0","0","0.5",2);
     variable m_m12 = ev.getVariable(mult12t);
 
@@ -90,7 +86,7 @@ void gsShellStressFunction<T>::eval_into(const gsMatrix<T> & u, gsMatrix<T> & re
     auto Ttilde_def = cartcov(m_def);
     // auto Tmat   = cartcov(m_def);
     auto E_m    = 0.5 * ( flat(jac(m_def).tr()*jac(m_def)) - flat(jac(m_ori).tr()* jac(m_ori)) ) * reshape(m_m12,3,3) * That.tr();
-    auto E_f    = ( expr::deriv2(m_ori,sn(m_ori).normalized().tr()) - expr::deriv2(m_def,sn(m_def).normalized().tr()) ) * reshape(m_m2,3,3) * That.tr();
+    auto E_f    = ( expr::deriv2(m_ori,sn(m_ori).normalized().tr()) - expr::deriv2(m_def,sn(m_def).normalized().tr()) ) * That.tr();
 
     auto N_m    = N0.tr() * Ttilde.tr();
     auto N_f    = N1.tr() * Ttilde.tr();
@@ -198,7 +194,15 @@ void gsShellStressFunction<T>::eval_into(const gsMatrix<T> & u, gsMatrix<T> & re
             break;
         case stress_type::principal_flexural_strain :
             for (index_t k = 0; k != u.cols(); ++k)
-                result.col(k) = ev.eval(Ep1,u.col(k),m_patchID);
+            {
+                // Eigenvalues (ascending) of the flexural strain, which has no out-of-plane component
+                tmp = ev.eval(E_f.tr(),u.col(k),m_patchID);
+                const T mean = 0.5*(tmp(0,0)+tmp(1,0));
+                const T rad  = math::sqrt(0.25*(tmp(0,0)-tmp(1,0))*(tmp(0,0)-tmp(1,0)) + tmp(2,0)*tmp(2,0));
+                result(0,k) = mean - rad;
+                result(1,k) = mean + rad;
+                result(2,k) = 0;
+            }
             break;
         case stress_type::principal_stretch :
             for (index_t k = 0; k != u.cols(); ++k)
-- 
2.43.0


From 516f5d106d16e2c043b4d056a88dfed9aa1b260f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:39 +0000
Subject: [PATCH 39/76] fix: linear material accepts the Cauchy stress and
 principal direction outputs

---
 src/gsMaterialMatrixLinear.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixLinear.hpp b/src/gsMaterialMatrixLinear.hpp
index 39af4d5..17307bf 100644
--- a/src/gsMaterialMatrixLinear.hpp
+++ b/src/gsMaterialMatrixLinear.hpp
@@ -620,7 +620,9 @@ gsMatrix<T> gsMaterialMatrixLinear<dim,T>::_E(const T /*z*/, enum MaterialOutput
     else if (   out == MaterialOutput::Generic          ||
                 out == MaterialOutput::Strain           ||
                 out == MaterialOutput::Stress           ||
-                out == MaterialOutput::PStress             ) // To be used with multiplyLinZ_into or integrateZ_into
+                out == MaterialOutput::CauchyStress     ||
+                out == MaterialOutput::PStress          ||
+                out == MaterialOutput::PStressDir          ) // To be used with multiplyLinZ_into or integrateZ_into
         strain = 0.5*(m_data.mine().m_Gcov_def.block(0,0,2,2) - m_data.mine().m_Gcov_ori.block(0,0,2,2));
     else
         GISMO_ERROR("Output type MaterialOutput::" + std::to_string((short_t)(out)) + " not understood. See gsMaterialMatrixUtils.h");
-- 
2.43.0


From 3a6a5ca38379e5286abd40d4021659f44c2aebba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:39 +0000
Subject: [PATCH 40/76] fix: read material functions of any type that is
 written

---
 src/gsMaterialMatrixXml.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/gsMaterialMatrixXml.hpp b/src/gsMaterialMatrixXml.hpp
index 42c2b04..1a49d04 100644
--- a/src/gsMaterialMatrixXml.hpp
+++ b/src/gsMaterialMatrixXml.hpp
@@ -284,28 +284,29 @@ Object getMaterialMatrixFromXml ( gsXmlNode * node)
 
     tmp = node->first_node("Thickness");
     GISMO_ASSERT(tmp,"Thickness must be assigned!");
-    gsFunctionExpr<T> thickness;
-    gsXml<gsFunctionExpr<T> >::get_into(tmp->first_node("Function"), thickness);
-    result.setThickness(thickness);
+    // The functions can be of any type that putMaterialMatrixToXml writes
+    memory::unique_ptr< gsFunction<T> > fun( gsXml< gsFunction<T> >::get(tmp->first_node("Function")) );
+    GISMO_ENSURE(fun,"Thickness could not be read");
+    result.setThickness(*fun);
 
     tmp = node->first_node("Density");
-    gsFunctionExpr<T> density;
     bool hasDensity = tmp;
     if ( hasDensity )
     {
-        gsXml<gsFunctionExpr<T> >::get_into(tmp->first_node("Function"), density);
-        result.setDensity(density);
+        fun.reset( gsXml< gsFunction<T> >::get(tmp->first_node("Function")) );
+        GISMO_ENSURE(fun,"Density could not be read");
+        result.setDensity(*fun);
     }
 
     gsXmlNode * parNode = node->first_node("Parameters");
     // Read function inventory
-    gsFunctionExpr<T> fun;
     for (gsXmlNode * child = parNode->first_node("Function"); child; child =
             child->next_sibling("Function"))
     {
         const int i = atoi(child->first_attribute("index")->value());
-        gsXml<gsFunctionExpr<T> >::get_into(child, fun);
-        result.setParameter(i,fun);
+        fun.reset( gsXml< gsFunction<T> >::get(child) );
+        GISMO_ENSURE(fun,"Parameter "<<i<<" could not be read");
+        result.setParameter(i,*fun);
     }
     return result;
 }
-- 
2.43.0


From 013fe88f47697d88e068879f968eb048943bb2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:39 +0000
Subject: [PATCH 41/76] fix: do not dereference a tension-field material whose
 base cannot be written

---
 src/gsMaterialMatrixXml.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixXml.hpp b/src/gsMaterialMatrixXml.hpp
index 1a49d04..7dda059 100644
--- a/src/gsMaterialMatrixXml.hpp
+++ b/src/gsMaterialMatrixXml.hpp
@@ -179,7 +179,8 @@ public:
            )
         {
             gsXmlNode * tmp = put_impl(ptr->material(),data);
-            tmp->append_attribute(internal::makeAttribute("TFT","true",data));
+            if (NULL != tmp) // the material inside could be written
+                tmp->append_attribute(internal::makeAttribute("TFT","true",data));
             return tmp;
         }
         else
-- 
2.43.0


From b3a45f66e58443c822a7da4c5ca2591a899a1b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:30 +0000
Subject: [PATCH 42/76] fix: laminate without a deformed geometry dereferenced
 a null pointer

---
 src/gsMaterialMatrixComposite.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixComposite.hpp b/src/gsMaterialMatrixComposite.hpp
index fb5c0cf..3da5d6a 100644
--- a/src/gsMaterialMatrixComposite.hpp
+++ b/src/gsMaterialMatrixComposite.hpp
@@ -133,7 +133,7 @@ void gsMaterialMatrixComposite<dim,T>::_computePoints(const index_t patch, const
 {
     this->_computeMetricUndeformed(patch,u);
 
-    if (Base::m_defpatches->nPieces()!=0)
+    if (Base::m_defpatches!=nullptr && Base::m_defpatches->nPieces()!=0)
         this->_computeMetricDeformed(patch,u);
 }
 
-- 
2.43.0


From 8f72ba7c1c1f1da44b8f6d36e6df577141819af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:30 +0000
Subject: [PATCH 43/76] fix: thickness of a laminate has a row for each ply, on
 every patch

---
 src/gsMaterialMatrixComposite.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gsMaterialMatrixComposite.hpp b/src/gsMaterialMatrixComposite.hpp
index 3da5d6a..19bb483 100644
--- a/src/gsMaterialMatrixComposite.hpp
+++ b/src/gsMaterialMatrixComposite.hpp
@@ -176,15 +176,15 @@ void gsMaterialMatrixComposite<dim,T>::thickness_into(const index_t patch, const
     static_cast<const gsFunction<T>&>(m_patches->piece(patch)   ).computeMap(map); // the piece(0) here implies that if you call class.eval_into, it will be evaluated on piece(0). Hence, call class.piece(k).eval_into()
 
     std::vector<gsMatrix<T>> Tcontainer(m_nLayers);
-    for (size_t k=0; k!= m_Rs.size(); k++)
+    for (size_t k=0; k!= m_Ts.size(); k++)
     {
-        Tcontainer[k] = m_Ts[k]->eval(map.values[0]);
+        Tcontainer[k] = m_Ts[k]->piece(patch).eval(map.values[0]);
         GISMO_ASSERT(Tcontainer[k].rows()==1,"Thickness has the wrong size, must be scalar");
     }
 
+    result.resize(m_nLayers, u.cols());
     for (index_t i = 0; i != m_nLayers; ++i) // layers
-        for (index_t k = 0; k != u.cols(); ++k) // points
-            result.row(i) = Tcontainer[i].row(0);
+        result.row(i) = Tcontainer[i].row(0);
 }
 
 template <short_t dim, class T >
-- 
2.43.0


From 24316f0fc90a766894d1fe13fcbc8aa974c2e58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:45 +0000
Subject: [PATCH 44/76] fix: membrane-bending coupling in the resultants of a
 laminate

---
 src/gsMaterialMatrixComposite.hpp | 40 +++++++++++++++----------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/src/gsMaterialMatrixComposite.hpp b/src/gsMaterialMatrixComposite.hpp
index 19bb483..1239df6 100644
--- a/src/gsMaterialMatrixComposite.hpp
+++ b/src/gsMaterialMatrixComposite.hpp
@@ -293,35 +293,33 @@ gsMatrix<T> gsMaterialMatrixComposite<dim,T>::eval3D_vector(const index_t patch,
 
     this->_computePoints(patch,u);
     gsMatrix<T> result(3, u.cols());
-    enum MaterialOutput _out;
+    // The resultants follow from the membrane strain (Em) and the bending strain (Ef)
+    //      N = A*Em + B*Ef,  M = C*Em + D*Ef
+    gsMatrix<T> Cm, Cf;
     if      (out==MaterialOutput::VectorN)
-        _out=MaterialOutput::MatrixA;
+    {
+        Cm = this->eval3D_matrix(patch,u,z,MaterialOutput::MatrixA);
+        Cf = this->eval3D_matrix(patch,u,z,MaterialOutput::MatrixB);
+    }
     else if (out==MaterialOutput::VectorM)
-        _out=MaterialOutput::MatrixD;
+    {
+        Cm = this->eval3D_matrix(patch,u,z,MaterialOutput::MatrixC);
+        Cf = this->eval3D_matrix(patch,u,z,MaterialOutput::MatrixD);
+    }
     else
-        GISMO_ERROR("Output unknown");
-
-    gsMatrix<T> Cmat = this->eval3D_matrix(patch,u,z,_out);
-    gsMatrix<T> Eij(2,2);
+        GISMO_ERROR("Output type is not VectorN or VectorM!");
 
+    gsMatrix<T> E;
+    gsVector<T,3> Em, Ef;
     for (index_t k = 0; k != u.cols(); ++k)
     {
         this->_getMetric(k,0.0); // on point i, with height 0.0
 
-        if      (out == MaterialOutput::VectorN) // To be used with multiplyZ_into
-            Eij = 0.5*(m_data.mine().m_Acov_def - m_data.mine().m_Acov_ori);
-        else if (out == MaterialOutput::VectorM) // To be used with multiplyZ_into
-            Eij = (m_data.mine().m_Bcov_ori - m_data.mine().m_Bcov_def);
-        else if (out == MaterialOutput::Generic) // To be used with multiplyLinZ_into or integrateZ_into
-            Eij = 0.5*(m_data.mine().m_Acov_def - m_data.mine().m_Acov_ori) + z*(m_data.mine().m_Bcov_ori - m_data.mine().m_Bcov_def);
-        else
-            GISMO_ERROR("Output type is not VectorN, VectorM or Generic!");
-
-        Eij(0,1) += Eij(1,0);
-        std::swap(Eij(1,0), Eij(1,1));
-        Eij.resize(4,1);
-        Eij.conservativeResize(3,1);
-        result.col(k) = Cmat.reshapeCol(k,3,3) * Eij;
+        E  = 0.5*(m_data.mine().m_Acov_def - m_data.mine().m_Acov_ori);
+        Em << E(0,0), E(1,1), E(0,1)+E(1,0);
+        E  = m_data.mine().m_Bcov_ori - m_data.mine().m_Bcov_def;
+        Ef << E(0,0), E(1,1), E(0,1)+E(1,0);
+        result.col(k) = Cm.reshapeCol(k,3,3) * Em + Cf.reshapeCol(k,3,3) * Ef;
     }
     return result;
 }
-- 
2.43.0


From 49b5ab15fd69054376a7ef4b0d19760c05c26b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:45 +0000
Subject: [PATCH 45/76] fix: ply stiffness on non-orthogonal parametrisations

---
 src/gsMaterialMatrixComposite.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/gsMaterialMatrixComposite.hpp b/src/gsMaterialMatrixComposite.hpp
index 1239df6..f38c21e 100644
--- a/src/gsMaterialMatrixComposite.hpp
+++ b/src/gsMaterialMatrixComposite.hpp
@@ -355,7 +355,7 @@ gsMatrix<T> gsMaterialMatrixComposite<dim,T>::_cart2cov(const gsVector<T> & a1,
     Tmat.setZero();
     // Covariant to local cartesian
     Tmat(0,0) = (e1.dot(a1))*(a1.dot(e1));
-    Tmat(0,1) = (e1.dot(a2))*(a2.dot(e2));
+    Tmat(0,1) = (e1.dot(a2))*(a2.dot(e1));
     Tmat(0,2) = 2*(e1.dot(a1))*(a2.dot(e1));
     // Row 1
     Tmat(1,0) = (e2.dot(a1))*(a1.dot(e2));
@@ -375,17 +375,17 @@ gsMatrix<T> gsMaterialMatrixComposite<dim,T>::_con2cart(const gsVector<T> & ac1,
 {
     gsMatrix<T,3,3> Tmat;
     Tmat.setZero();
-    // Contravariant to local cartesian
+    // Contravariant to local cartesian, for strains in Voigt notation [E11,E22,2*E12]
     Tmat(0,0) = (e1.dot(ac1))*(ac1.dot(e1));
-    Tmat(0,1) = (e1.dot(ac2))*(ac2.dot(e2));
-    Tmat(0,2) = 2*(e1.dot(ac1))*(ac2.dot(e1));
+    Tmat(0,1) = (e1.dot(ac2))*(ac2.dot(e1));
+    Tmat(0,2) = (e1.dot(ac1))*(ac2.dot(e1));
     // Row 1
     Tmat(1,0) = (e2.dot(ac1))*(ac1.dot(e2));
     Tmat(1,1) = (e2.dot(ac2))*(ac2.dot(e2));
-    Tmat(1,2) = 2*(e2.dot(ac1))*(ac2.dot(e2));
+    Tmat(1,2) = (e2.dot(ac1))*(ac2.dot(e2));
     // Row 2
-    Tmat(2,0) = (e1.dot(ac1))*(ac1.dot(e2));
-    Tmat(2,1) = (e1.dot(ac2))*(ac2.dot(e2));
+    Tmat(2,0) = 2*(e1.dot(ac1))*(ac1.dot(e2));
+    Tmat(2,1) = 2*(e1.dot(ac2))*(ac2.dot(e2));
     Tmat(2,2) = (e1.dot(ac1))*(ac2.dot(e2)) + (e1.dot(ac2))*(ac1.dot(e2));
     return Tmat;
 }
-- 
2.43.0


From 3df713584eff6a71281df3a74f484f25d1a8c989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:45 +0000
Subject: [PATCH 46/76] fix: entries 12 and 21 of a raw ply matrix were swapped

---
 src/getMaterialMatrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/getMaterialMatrix.h b/src/getMaterialMatrix.h
index 92772c9..36be93b 100644
--- a/src/getMaterialMatrix.h
+++ b/src/getMaterialMatrix.h
@@ -67,8 +67,8 @@ gsMatrix<T> gsCompositeMatrixRaw(   const T G11,
     G(0,0) = G11;
     G(1,1) = G22;
     G(2,2) = G33;
-    G(1,0) = G12;
-    G(0,1) = G21;
+    G(0,1) = G12;
+    G(1,0) = G21;
     G(0,2) = G13;
     G(2,0) = G31;
     G(1,2) = G23;
-- 
2.43.0


From eed264e6e6a52e6dc4b94369f6cfb8b29fe4289a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:45 +0000
Subject: [PATCH 47/76] fix: symmetry of ply constants is checked up to
 rounding

---
 src/getMaterialMatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/getMaterialMatrix.h b/src/getMaterialMatrix.h
index 36be93b..b098b9b 100644
--- a/src/getMaterialMatrix.h
+++ b/src/getMaterialMatrix.h
@@ -34,7 +34,7 @@ gsMatrix<T> gsCompositeMatrix(  const T Exx,
                               const T nuyx
                             )
 {
-    GISMO_ASSERT(nuyx*Exx == nuxy*Eyy, "No symmetry in material properties for ply! (nu12*E2!=nu21*E1):\n"<<
+    GISMO_ASSERT(math::abs(nuyx*Exx - nuxy*Eyy) <= (T)(1e-10)*math::abs(nuxy*Eyy), "No symmetry in material properties for ply! (nu12*E2!=nu21*E1):\n"<<
             "\tnu12 = "<<nuxy<<"\t E22 = "<<Eyy<<"\t nu12*E22 = "<<nuxy*Eyy<<"\n"
           <<"\tnu21 = "<<nuyx<<"\t E11 = "<<Exx<<"\t nu21*E11 = "<<nuyx*Exx);
 
-- 
2.43.0


From c636f512d453819433d66903d55839a45f5e4ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:17 +0000
Subject: [PATCH 48/76] fix: hasUndeformed() asks for the undeformed geometry

---
 src/gsMaterialMatrixBase.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixBase.h b/src/gsMaterialMatrixBase.h
index cef3f66..78bce9b 100644
--- a/src/gsMaterialMatrixBase.h
+++ b/src/gsMaterialMatrixBase.h
@@ -795,7 +795,7 @@ public:
     const function_ptr getDeformed()  const { return m_defpatches; }
 
     virtual bool hasUndeformed() const
-    { return m_defpatches!=nullptr; }
+    { return m_patches!=nullptr; }
     virtual bool hasDeformed() const { return m_defpatches!=nullptr; }
 
     virtual bool initialized() const
-- 
2.43.0


From 7a373570e2491e519b9769012fafe99f449c66fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:17 +0000
Subject: [PATCH 49/76] fix: sign in the wrinkled tangent of the linear tension
 field

---
 src/gsMaterialMatrixTFT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixTFT.hpp b/src/gsMaterialMatrixTFT.hpp
index a87fe4f..1143d07 100644
--- a/src/gsMaterialMatrixTFT.hpp
+++ b/src/gsMaterialMatrixTFT.hpp
@@ -865,7 +865,7 @@ gsMatrix<T> gsMaterialMatrixTFT<dim,T,linear>::_compute_C(const T theta, const g
 
     // dF/dE
     // gsMatrix<T> dfdE = ( n2_vec.transpose() - tmp * n1_vec.transpose() ) * C;
-    gsMatrix<T> dfdE = n2_vec.transpose() * C - dgammadE.transpose() * (n2_vec.transpose() * C * n1_vec).value();
+    gsMatrix<T> dfdE = n2_vec.transpose() * C + dgammadE.transpose() * (n2_vec.transpose() * C * n1_vec).value();
     dfdE.transposeInPlace();
 
     // dF/dT
-- 
2.43.0


From ebe03b6ec1ff48156e3f20723ff1a13b5cd2104f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:17 +0000
Subject: [PATCH 50/76] fix: wrinkled tangent of the nonlinear tension field
 was transposed

---
 src/gsMaterialMatrixTFT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixTFT.hpp b/src/gsMaterialMatrixTFT.hpp
index 1143d07..0e8a5f7 100644
--- a/src/gsMaterialMatrixTFT.hpp
+++ b/src/gsMaterialMatrixTFT.hpp
@@ -939,7 +939,7 @@ gsMatrix<T> gsMaterialMatrixTFT<dim,T,linear>::_compute_C(const T theta, const g
 
     // d(gamma*n1)dE
     gsMatrix<T> dgamman1dE = ( n1_vec * dgammadE + dgammadT * n1_vec * dTdE + 2*gamma * n2_vec * dTdE );
-    result += dgamman1dE.transpose() * C;
+    result += C * dgamman1dE;
     result += gamma * dCN1;
     return result;
 }
-- 
2.43.0


From d06ba4d3d2bbbb1951bf418d807b667172e715e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:17 +0000
Subject: [PATCH 51/76] fix: theta and gamma of a tension field have one column
 per height

---
 src/gsMaterialMatrixTFT.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsMaterialMatrixTFT.hpp b/src/gsMaterialMatrixTFT.hpp
index 0e8a5f7..ed3ed74 100644
--- a/src/gsMaterialMatrixTFT.hpp
+++ b/src/gsMaterialMatrixTFT.hpp
@@ -303,7 +303,7 @@ gsMatrix<T> gsMaterialMatrixTFT<dim,T,linear>::eval3D_tensionfield(const index_t
 template <short_t dim, class T, bool linear >
 gsMatrix<T> gsMaterialMatrixTFT<dim,T,linear>::eval3D_theta(const index_t patch, const gsMatrix<T> & u, const gsMatrix<T>& z, enum MaterialOutput /*out*/) const
 {
-    gsMatrix<T> result(1,u.cols());
+    gsMatrix<T> result(1,u.cols()*z.rows());
     result.setZero();
     gsMatrix<T> TF = this->_compute_TF(patch,u,z);
     index_t colIdx;
@@ -335,7 +335,7 @@ gsMatrix<T> gsMaterialMatrixTFT<dim,T,linear>::eval3D_theta(const index_t patch,
 template <short_t dim, class T, bool linear >
 gsMatrix<T> gsMaterialMatrixTFT<dim,T,linear>::eval3D_gamma(const index_t patch, const gsMatrix<T> & u, const gsMatrix<T>& z, enum MaterialOutput /*out*/) const
 {
-    gsMatrix<T> result(1,u.cols());
+    gsMatrix<T> result(1,u.cols()*z.rows());
     result.setZero();
     gsMatrix<T> TF = this->_compute_TF(patch,u,z);
     index_t colIdx;
-- 
2.43.0


From b8adcc270b7ed88786dff98e2c5d1c53d53fc7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:17 +0000
Subject: [PATCH 52/76] fix: wrinkled Cauchy stress divides by the deformation
 gradient's determinant

---
 src/gsMaterialMatrixTFT.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/gsMaterialMatrixTFT.hpp b/src/gsMaterialMatrixTFT.hpp
index ed3ed74..5cb8fd5 100644
--- a/src/gsMaterialMatrixTFT.hpp
+++ b/src/gsMaterialMatrixTFT.hpp
@@ -204,11 +204,11 @@ gsMatrix<T> gsMaterialMatrixTFT<dim,T,linear>::eval3D_CauchyStress(const index_t
     //          [(u1,z1) (u2,z1) ..  (un,z1), (u1,z2) ..  (un,z2), ..,  (u1,zm) .. (un,zm)]
 
     gsMatrix<T> result = m_materialMat->eval3D_CauchyStress(patch,u,z,MaterialOutput::CauchyStressN);
+    gsMatrix<T> detF = m_materialMat->eval3D_detF(patch,u,z,MaterialOutput::Generic);
     gsMatrix<T> TF = this->_compute_TF(patch,u,z);
     index_t colIdx;
     T theta;
 
-    this->_computePoints(patch,u);
     for (index_t k=0; k!=u.cols(); k++)
     {
         for( index_t j=0; j < z.rows(); ++j ) // through-thickness points
@@ -226,15 +226,13 @@ gsMatrix<T> gsMaterialMatrixTFT<dim,T,linear>::eval3D_CauchyStress(const index_t
             }
             else if (TF(0,colIdx) == 0) // wrinkled
             {
-                this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
                 gsMatrix<T> C = m_materialMat->eval3D_matrix(patch,u.col(k),z(j,k),MaterialOutput::MatrixA);
                 gsMatrix<T> N = m_materialMat->eval3D_stress(patch,u.col(k),z(j,k),MaterialOutput::VectorN);;
                 gsMatrix<T> E = m_materialMat->eval3D_strain(patch,u.col(k),z(j,k));
                 gsMatrix<T> thetas = eval_theta(C,N,E);
                 theta = thetas(0,0);
                 gsMatrix<T> S = this->_compute_S(theta,C.reshape(3,3),N);
-                T detF = math::sqrt(m_data.mine().m_J0_sq)*1.0;
-                result.col(colIdx) = S / math::sqrt(detF);
+                result.col(colIdx) = S / detF(0,colIdx);
             }
             else
                 GISMO_ERROR("Tension field data not understood: "<<TF(0,colIdx));
-- 
2.43.0


From c43a20fadb7eeea1bf178571a47a4cd2dfe818f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:17 +0000
Subject: [PATCH 53/76] fix: derivative of the material tensor takes the Voigt
 shear component

---
 src/gsMaterialMatrixNonlinear.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixNonlinear.hpp b/src/gsMaterialMatrixNonlinear.hpp
index 38212a0..c942cc1 100644
--- a/src/gsMaterialMatrixNonlinear.hpp
+++ b/src/gsMaterialMatrixNonlinear.hpp
@@ -385,7 +385,7 @@ gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::dCijkl_impl(const index_t p
 
     Cvoight(0,0) = m_data.mine().m_Gcov_def(0,0);
     Cvoight(1,0) = m_data.mine().m_Gcov_def(1,1);
-    Cvoight(2,0) = m_data.mine().m_Gcov_def(0,1);
+    Cvoight(2,0) = 2*m_data.mine().m_Gcov_def(0,1); // Cfun takes 2*C12
 
     Cfunc.deriv_into(Cvoight,result);
     return result;
-- 
2.43.0


From 445cde2387f352cdbe64d8e9cbc3cce279490c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:36 +0000
Subject: [PATCH 54/76] fix: materials do not refer to the temporary of
 getElasticEnergy

---
 src/gsThinShellAssembler.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 2d9cb79..b29318b 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -2602,7 +2602,10 @@ T gsThinShellAssembler<d, T, bending>::getElasticEnergy(const gsFunctionSet<T> &
     gsOptionList options = m_options;
     options.setInt("Continuity",-1);
     internal.setOptions(options);
-    GISMO_ENSURE(internal.assembleVector(deformed)==ThinShellAssemblerStatus::Success,"Assembly of the internal forces failed.");
+    const ThinShellAssemblerStatus status = internal.assembleVector(deformed);
+    for (size_t p = 0; p != m_patches.nPatches(); ++p) // the materials must not refer to the geometry of this temporary
+        m_materialMatrices.piece(p)->setUndeformed(&m_patches);
+    GISMO_ENSURE(status==ThinShellAssemblerStatus::Success,"Assembly of the internal forces failed.");
 
     return -0.5 * internal.constructSolutionVector(u).dot(internal.rhs().col(0));
 }
-- 
2.43.0


From 1b177df1435631aeaf9e3bb9548d5ceafcb69945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:13 +0000
Subject: [PATCH 55/76] fix: spectral tangent lost its digits where stretches
 coincide up to rounding

---
 src/gsMaterialMatrixNonlinear.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsMaterialMatrixNonlinear.hpp b/src/gsMaterialMatrixNonlinear.hpp
index c942cc1..cc8af53 100644
--- a/src/gsMaterialMatrixNonlinear.hpp
+++ b/src/gsMaterialMatrixNonlinear.hpp
@@ -2772,7 +2772,7 @@ gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::_Cabcd_impl(const index_t a
     T frac = 0.0;
     T tmp = 0.0;
 
-    if (abs((m_data.mine().m_stretches(a) - m_data.mine().m_stretches(b)) / m_data.mine().m_stretches(a)) < 1e-14)
+    if (abs((m_data.mine().m_stretches(a) - m_data.mine().m_stretches(b)) / m_data.mine().m_stretches(a)) < 1e-8) // the difference quotient loses its digits
     {
         // gsDebug<<"Stretches are equal; (abs((m_data.mine().m_stretches(a) - m_data.mine().m_stretches(b)) / m_data.mine().m_stretches(a)) = "<<abs((m_data.mine().m_stretches(a) - m_data.mine().m_stretches(b)) / m_data.mine().m_stretches(a))<<"\n";
         frac = 1.0 / (2.0 * m_data.mine().m_stretches(a) ) * ( _dSa_db(b,b) - _dSa_db(a,b));
@@ -2799,7 +2799,7 @@ gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::_Cabcd_impl(const index_t a
     T frac = 0.0;
     T tmp = 0.0;
 
-    if (abs((m_data.mine().m_stretches(a) - m_data.mine().m_stretches(b)) / m_data.mine().m_stretches(a)) < 1e-14)
+    if (abs((m_data.mine().m_stretches(a) - m_data.mine().m_stretches(b)) / m_data.mine().m_stretches(a)) < 1e-8) // the difference quotient loses its digits
     {
         // gsDebug<<"Stretches are equal; (abs((m_data.mine().m_stretches(a) - m_data.mine().m_stretches(b)) / m_data.mine().m_stretches(a)) = "<<abs((m_data.mine().m_stretches(a) - m_data.mine().m_stretches(b)) / m_data.mine().m_stretches(a))<<"\n";
         frac = 1.0 / (2.0 * m_data.mine().m_stretches(a) ) * ( _dSa_db(b,b) - _dSa_db(a,b));
-- 
2.43.0


From af013631ecf11a092500215ade072f93e83f1679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:37 +0000
Subject: [PATCH 56/76] fix: basis of the transformation to the spectral basis
 is the contravariant one

---
 src/gsMaterialMatrixBaseDim.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixBaseDim.hpp b/src/gsMaterialMatrixBaseDim.hpp
index eb967dc..4694516 100644
--- a/src/gsMaterialMatrixBaseDim.hpp
+++ b/src/gsMaterialMatrixBaseDim.hpp
@@ -100,7 +100,7 @@ gsMatrix<T> gsMaterialMatrixBaseDim<dim,T>::eval3D_spec2con(const index_t patch,
             colIdx = j*u.cols()+k;
             _getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             sbasis = tmp.reshapeCol(colIdx,3,3);
-            conbasis = m_data.mine().m_gcov_ori;
+            conbasis = m_data.mine().m_gcon_ori;
             result.col(colIdx) = this->_transformation(conbasis,sbasis).reshape(9,1);
         }
     }
-- 
2.43.0


From 8c1839136a8c9aa5fadb2ff1b660d6a140b2001a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:37 +0000
Subject: [PATCH 57/76] fix: second variation of the normal of fields, and
 second derivatives of fields per point

---
 src/gsThinShellUtils.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/gsThinShellUtils.h b/src/gsThinShellUtils.h
index 3457728..b28e9b4 100644
--- a/src/gsThinShellUtils.h
+++ b/src/gsThinShellUtils.h
@@ -590,7 +590,6 @@ private:
         normal.normalize();
 
         cJac = _G.data().values[1].reshapeCol(k, _G.data().dim.first, _G.data().dim.second).transpose();
-        cDer2 = _G.data().values[2].reshapeCol(k, _G.data().dim.second, _G.data().dim.second);
 
         const Scalar measure = (cJac.col3d(0).cross( cJac.col3d(1) )).norm();
 
@@ -606,7 +605,7 @@ private:
         n_der.noalias() = (m_v - ( normal*m_v.transpose() ) * normal); // outer-product version
 
         m_uv.noalias() = ( ( uGrads.col(0).template head<3>() ).cross( vGrads.col(1).template head<3>() )
-                         - ( vGrads.col(1).template head<3>() ).cross( uGrads.col(0).template head<3>() ) )
+                         + ( vGrads.col(0).template head<3>() ).cross( uGrads.col(1).template head<3>() ) )
                         / measure;
 
         m_u_der.noalias() = (m_uv - ( normal.dot(m_v) ) * m_u);
@@ -616,9 +615,6 @@ private:
         tmp = m_u_der - (m_u.dot(n_der) + normal.dot(m_u_der) ) * normal - (normal.dot(m_u) ) * n_der;
         // tmp = m_u_der - (m_u.dot(n_der) + normal.dot(m_u_der) ) * normal - (normal.dot(m_u) ) * n_der;
 
-        // Evaluate the product
-        tmp = cDer2 * tmp; // E_f_der2, last component
-        tmp.row(2) *= 2.0;
         res = tmp;
         return res;
     }
@@ -1499,7 +1495,6 @@ public:
         typename util::enable_if< util::is_same<U,gsFeVariable<Scalar> >::value, const gsMatrix<Scalar> & >::type
         eval_impl(const U & u, const index_t k)  const
         {
-            GISMO_UNUSED(k); //should this use k??
             /*
                 Here, we compute the hessian of the geometry map.
                 The hessian of the geometry map c has the form: hess(c)
@@ -1510,7 +1505,7 @@ public:
                 The geometry map has components c=[c1,c2,c3]
             */
             // evaluate the geometry map of U
-            tmp = u.data().values[2];
+            tmp = u.data().values[2].col(k);
             res.resize(rows(),cols());
             for (index_t comp = 0; comp != u.source().targetDim(); comp++)
                 res.col(comp) = tmp.block(comp*rows(),0,rows(),1); //star,length
-- 
2.43.0


From 8b40d2cdf060a229951f0555c2f7f515c2fb4612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:37 +0000
Subject: [PATCH 58/76] fix: DWR assembler returned the stiffness instead of
 the (lumped) mass

---
 src/gsThinShellAssemblerDWR.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index 0ad5d93..94d5d85 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -67,7 +67,7 @@ template <short_t d, class T, bool bending>
 ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleMass(gsThinShellAssemblerBase<T> * assembler, gsSparseMatrix<T> & result, bool lumped)
 {
     ThinShellAssemblerStatus status =  assembler->assembleMass(lumped);
-    result = assembler->matrix();
+    result = assembler->massMatrix();
     GISMO_ENSURE(status==ThinShellAssemblerStatus::Success,"Assembly failed");
     return status;
 }
-- 
2.43.0


From 3b315bac0c9d2030cd03ade7e075d100ea7f5fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:37 +0000
Subject: [PATCH 59/76] fix: DWR duals keep the constraints and continuity of
 the discrete space

---
 src/gsThinShellAssemblerDWR.hpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index 94d5d85..cf04830 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -217,8 +217,6 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(g
 
     // Space
     space   space   = exprAssembler.trialSpace(0);
-    // Homogenize Dirichlet
-    space.setup(m_bcs, dirichlet::homogeneous, 0);
 
     // Solution
     auto usol   = exprAssembler.getCoeff(primal);
@@ -674,8 +672,6 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
 
     // Space
     space   space   = exprAssembler.trialSpace(0);
-    // Homogenize Dirichlet
-    space.setup(m_bcs, dirichlet::homogeneous, 0);
 
     // Solution
     auto usol   = exprAssembler.getCoeff(primal);
@@ -1139,8 +1135,6 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
 
     // Space
     space   space   = exprAssembler.trialSpace(0);
-    // Homogenize Dirichlet
-    space.setup(m_bcs, dirichlet::homogeneous, 0);
 
     // Solution
     auto usol   = exprAssembler.getCoeff(primal);
-- 
2.43.0


From 664973fbc2ecaaf0d6d3c310853066d9852b2df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:37 +0000
Subject: [PATCH 60/76] fix: DWR displacement goals select a component in any
 dimension

---
 src/gsThinShellAssemblerDWR.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index cf04830..2285077 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -319,7 +319,7 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(g
         }
         else
         {
-            auto expr = space * gismo::expr::uv(m_component,3) * meas(Gori);
+            auto expr = space * gismo::expr::uv(m_component,d) * meas(Gori);
             try
             {
                 exprAssembler.assemble(expr);
@@ -774,7 +774,7 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
         }
         else
         {
-            auto expr = space * gismo::expr::uv(m_component,3) * meas(Gori);
+            auto expr = space * gismo::expr::uv(m_component,d) * meas(Gori);
             try
             {
                 exprAssembler.assembleBdr(bnds,expr);
@@ -1242,7 +1242,7 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
         }
         else
         {
-            auto expr = space * gismo::expr::uv(m_component,3) * meas(Gori);
+            auto expr = space * gismo::expr::uv(m_component,d) * meas(Gori);
             for (index_t k = 0; k!=points.cols(); k++)
             {
                 tmp = ev.eval(expr,points.col(k));
@@ -2824,7 +2824,7 @@ T gsThinShellAssemblerDWR<d, T, bending>::computeGoal(const gsMultiPatch<T> & de
         }
         else
         {
-            auto expr = (Gdef - Gori).tr() * gismo::expr::uv(m_component,3)*meas(Gori);
+            auto expr = (Gdef - Gori).tr() * gismo::expr::uv(m_component,d)*meas(Gori);
             return ev.integral( expr  );
         }
     }
@@ -3048,7 +3048,7 @@ T gsThinShellAssemblerDWR<d, T, bending>::computeGoal(const bContainer & bnds, c
         }
         else
         {
-            auto expr = (Gdef - Gori).tr() * gismo::expr::uv(m_component,3)*meas(Gori);
+            auto expr = (Gdef - Gori).tr() * gismo::expr::uv(m_component,d)*meas(Gori);
             return ev.integralBdr( expr,bnds  );
         }
     }
@@ -3301,7 +3301,7 @@ T gsThinShellAssemblerDWR<d, T, bending>::computeGoal(const gsMatrix<T> & points
         }
         else
         {
-            auto expr = (Gdef - Gori).tr() * gismo::expr::uv(m_component,3)*meas(Gori);
+            auto expr = (Gdef - Gori).tr() * gismo::expr::uv(m_component,d)*meas(Gori);
             for (index_t k = 0; k!=points.cols(); k++)
             {
                 tmp = ev.eval( expr, points.col(k));
-- 
2.43.0


From 30f56957761f4cdead233aa1a82c304cc66db968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:37 +0000
Subject: [PATCH 61/76] fix: DWR dual of the membrane force used the force
 instead of its derivative

---
 src/gsThinShellAssemblerDWR.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index 2285077..6d68067 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -979,7 +979,7 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
         }
         else
         {
-            auto expr = N.tr() * gismo::expr::uv(m_component,3) * meas(Gori);
+            auto expr = N_der * gismo::expr::uv(m_component,3) * meas(Gori);
             try
             {
                 exprAssembler.assembleBdr(bnds,expr);
@@ -1453,7 +1453,7 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
         else
         {
             // remove N_der from this scipe
-            auto expr = N.tr() * gismo::expr::uv(m_component,3) * meas(Gori);
+            auto expr = N_der * gismo::expr::uv(m_component,3) * meas(Gori);
             for (index_t k = 0; k!=points.cols(); k++)
             {
                 tmp = ev.eval(expr,points.col(k));
-- 
2.43.0


From 0183e0c0d212b6f075870aa002092367d12c4138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:37 +0000
Subject: [PATCH 62/76] fix: DWR dual of the flexural strain norm on a boundary
 had an extra factor

---
 src/gsThinShellAssemblerDWR.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index 6d68067..1f93a0b 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -997,9 +997,7 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
     {
         if (m_component==9)
         {
-            gsFunctionExpr<T> mult110t("1","0","0","0","1","0","0","0","0",2);
-            auto m110 = exprAssembler.getCoeff(mult2t);
-            auto expr = 2*Ef_der * reshape(m110,3,3) *  Ef.tr() * meas(Gori);
+            auto expr = 2*Ef_der * Ef.tr() * meas(Gori);
             try
             {
                 exprAssembler.assembleBdr(bnds,expr);
-- 
2.43.0


From f7d464ff77e35dccdd5ce39f1aa92571525ef46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:37 +0000
Subject: [PATCH 63/76] fix: DWR dual of the principal stress in points has two
 components

---
 src/gsThinShellAssemblerDWR.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index 1f93a0b..d254ce3 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -1327,9 +1327,15 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
     }
     else if (m_goalFunction == GoalFunction::PStress)
     {
+        // to convert P0 from a vector of length 2 to 3, this matrix is [[1,0],[0,1],[0,0]]
+        gsMatrix<T> convMat(3,2);
+        convMat.setZero();
+        convMat(0,0) = convMat(1,1) = 1;
+        gsConstantFunction<T> convFun(convMat.reshape(6,1),2);
+        auto conv = exprAssembler.getCoeff(convFun);
         if (m_component==9)
         {
-            auto expr = 2 * Smp_der * P0 * meas(Gori);
+            auto expr = 2 * Smp_der * reshape(conv,3,2) * P0 * meas(Gori);
             for (index_t k = 0; k!=points.cols(); k++)
             {
                 tmp = ev.eval(expr,points.col(k));
@@ -1345,7 +1351,8 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
         }
         else
         {
-            auto expr = Smp_der * gismo::expr::uv(m_component,3) * meas(Gori);
+            GISMO_ASSERT(m_component < 2,"Can only select principle stress component 0 or 1, but "<<m_component<<" selected.");
+            auto expr = Smp_der * reshape(conv,3,2) * gismo::expr::uv(m_component,2) * meas(Gori);
             for (index_t k = 0; k!=points.cols(); k++)
             {
                 tmp = ev.eval(expr,points.col(k));
-- 
2.43.0


From c2b4670206ad980dee03ae08ba74c59b3aea8e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:37 +0000
Subject: [PATCH 64/76] fix: DWR stretch goal in points

---
 src/gsThinShellAssemblerDWR.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index d254ce3..d15e5b1 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -3242,7 +3242,7 @@ T gsThinShellAssemblerDWR<d, T, bending>::computeGoal(const gsMatrix<T> & points
     auto Cm      = flat( jac(Gdef).tr() * jac(Gdef) ) * reshape(m12,3,3);
 
     // Principal stretch
-    auto lambda  = reshape(Tstretch,3,3).tr() * Cm.tr();
+    auto lambda  = reshape(Tstretch,3,3) * Cm.tr();
 
     // Membrane strain
     auto Em     = 0.5 * ( flat(jac(Gdef).tr()*jac(Gdef)) - flat(jac(Gori).tr()* jac(Gori)) ) ;
@@ -3306,7 +3306,7 @@ T gsThinShellAssemblerDWR<d, T, bending>::computeGoal(const gsMatrix<T> & points
         }
         else
         {
-            auto expr = (Gdef - Gori).tr() * gismo::expr::uv(m_component,d)*meas(Gori);
+            auto expr = lambda.tr() * gismo::expr::uv(m_component,3)*meas(Gori);
             for (index_t k = 0; k!=points.cols(); k++)
             {
                 tmp = ev.eval( expr, points.col(k));
-- 
2.43.0


From 1ba0bd8682b0e49f38afe101dd3c3c78a3658a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:37 +0000
Subject: [PATCH 65/76] fix: DWR estimates evaluate parametric body forces on
 the parameter domain

---
 src/gsThinShellAssemblerDWR.h   |  1 +
 src/gsThinShellAssemblerDWR.hpp | 24 ++++++++++++++++++------
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/gsThinShellAssemblerDWR.h b/src/gsThinShellAssemblerDWR.h
index 6e7b4a2..56eac3b 100644
--- a/src/gsThinShellAssemblerDWR.h
+++ b/src/gsThinShellAssemblerDWR.h
@@ -435,6 +435,7 @@ protected:
     // using Base::m_defpatches;
     using Base::m_materialMatrices;
     using Base::m_forceFun;
+    using Base::m_parametricForce;
     using Base::m_options;
     using Base::m_foundFun;
     using Base::m_foundInd;
diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index d15e5b1..07d016b 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -1743,7 +1743,9 @@ void gsThinShellAssemblerDWR<d, T, bending>::computeError_impl( const gsMultiPat
     // Geometries
     geometryMap Gori = exprAssembler.getMap(m_patches);
 
-    auto F      = exprAssembler.getCoeff(*m_forceFun, Gori);
+    gsFunctionExpr<T> parFun("x","y",2);
+    geometryMap Gforce = m_parametricForce ? exprAssembler.getMap(parFun) : Gori; // the map on which the force is defined
+    auto F      = exprAssembler.getCoeff(*m_forceFun, Gforce);
     auto zsolL  = exprAssembler.getCoeff(dualL);
     auto zsolH  = exprAssembler.getCoeff(dualH);
 
@@ -1840,7 +1842,9 @@ gsThinShellAssemblerDWR<d, T, bending>::computeError_impl(const gsMultiPatch<T>
     gsFunctionExpr<T> mult2t("1","0","0","0","1","0","0","0","2",2);
     auto m2 = exprAssembler.getCoeff(mult2t);
 
-    auto F      = exprAssembler.getCoeff(*m_forceFun, Gori);
+    gsFunctionExpr<T> parFun("x","y",2);
+    geometryMap Gforce = m_parametricForce ? exprAssembler.getMap(parFun) : Gori; // the map on which the force is defined
+    auto F      = exprAssembler.getCoeff(*m_forceFun, Gforce);
     auto zsolL  = exprAssembler.getCoeff(dualL);
     auto zsolH  = exprAssembler.getCoeff(dualH);
         // auto m_thick = exprAssembler.getCoeff(*m_thickFun, m_ori);
@@ -1944,7 +1948,9 @@ gsThinShellAssemblerDWR<d, T, bending>::computeError_impl(  const gsMultiPatch<T
     gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&deformed);
     auto S0  = exprAssembler.getCoeff(S0f);
 
-    auto F      = exprAssembler.getCoeff(*m_forceFun, Gori);
+    gsFunctionExpr<T> parFun("x","y",2);
+    geometryMap Gforce = m_parametricForce ? exprAssembler.getMap(parFun) : Gori; // the map on which the force is defined
+    auto F      = exprAssembler.getCoeff(*m_forceFun, Gforce);
 
     auto zsolL  = exprAssembler.getCoeff(dualL);
     auto zsolH  = exprAssembler.getCoeff(dualH);
@@ -2056,7 +2062,9 @@ void gsThinShellAssemblerDWR<d, T, bending>::computeSquaredError_impl( const gsM
     // Geometries
     geometryMap Gori = exprAssembler.getMap(m_patches);
 
-    auto F      = exprAssembler.getCoeff(*m_forceFun, Gori);
+    gsFunctionExpr<T> parFun("x","y",2);
+    geometryMap Gforce = m_parametricForce ? exprAssembler.getMap(parFun) : Gori; // the map on which the force is defined
+    auto F      = exprAssembler.getCoeff(*m_forceFun, Gforce);
     auto zsolL  = exprAssembler.getCoeff(dualL);
     auto zsolH  = exprAssembler.getCoeff(dualH);
 
@@ -2153,7 +2161,9 @@ gsThinShellAssemblerDWR<d, T, bending>::computeSquaredError_impl(const gsMultiPa
     gsFunctionExpr<T> mult2t("1","0","0","0","1","0","0","0","2",2);
     auto m2 = exprAssembler.getCoeff(mult2t);
 
-    auto F      = exprAssembler.getCoeff(*m_forceFun, Gori);
+    gsFunctionExpr<T> parFun("x","y",2);
+    geometryMap Gforce = m_parametricForce ? exprAssembler.getMap(parFun) : Gori; // the map on which the force is defined
+    auto F      = exprAssembler.getCoeff(*m_forceFun, Gforce);
     auto zsolL  = exprAssembler.getCoeff(dualL);
     auto zsolH  = exprAssembler.getCoeff(dualH);
         // auto m_thick = exprAssembler.getCoeff(*m_thickFun, m_ori);
@@ -2256,7 +2266,9 @@ gsThinShellAssemblerDWR<d, T, bending>::computeSquaredError_impl(  const gsMulti
     gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&deformed);
     auto S0  = exprAssembler.getCoeff(S0f);
 
-    auto F      = exprAssembler.getCoeff(*m_forceFun, Gori);
+    gsFunctionExpr<T> parFun("x","y",2);
+    geometryMap Gforce = m_parametricForce ? exprAssembler.getMap(parFun) : Gori; // the map on which the force is defined
+    auto F      = exprAssembler.getCoeff(*m_forceFun, Gforce);
 
     auto zsolL  = exprAssembler.getCoeff(dualL);
     auto zsolH  = exprAssembler.getCoeff(dualH);
-- 
2.43.0


From fc753399212acb1a0e0972a3d09bf55cec07c022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:37 +0000
Subject: [PATCH 66/76] fix: DWR estimates no longer reset the prescribed
 displacements

---
 src/gsThinShellAssemblerDWR.hpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index 07d016b..f329234 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -1849,8 +1849,6 @@ gsThinShellAssemblerDWR<d, T, bending>::computeError_impl(const gsMultiPatch<T>
     auto zsolH  = exprAssembler.getCoeff(dualH);
         // auto m_thick = exprAssembler.getCoeff(*m_thickFun, m_ori);
 
-    Base::homogenizeDirichlet();
-
     auto N        = S0.tr();
     // auto Em_der   = flat( jac(Gdef).tr() * jac(m_space) ) ;
     auto Em_der   = flat( jac(Gdef).tr() * (jac(zsolH) - jac(zsolL)) ) ;
@@ -2168,8 +2166,6 @@ gsThinShellAssemblerDWR<d, T, bending>::computeSquaredError_impl(const gsMultiPa
     auto zsolH  = exprAssembler.getCoeff(dualH);
         // auto m_thick = exprAssembler.getCoeff(*m_thickFun, m_ori);
 
-    Base::homogenizeDirichlet();
-
     auto N        = S0.tr();
     // auto Em_der   = flat( jac(Gdef).tr() * jac(m_space) ) ;
     auto Em_der   = flat( jac(Gdef).tr() * (jac(zsolH) - jac(zsolL)) ) ;
-- 
2.43.0


From 853f5828438ea11e2412631ba4de088101d7d065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:37 +0000
Subject: [PATCH 67/76] fix: DWR buckling estimates use distinct materials for
 both configurations

---
 src/gsThinShellAssemblerDWR.hpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index f329234..ed24591 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -2423,10 +2423,15 @@ void gsThinShellAssemblerDWR<d, T, bending>::computeErrorEig_impl(    const T ev
     exprAssembler.initSystem();
     exprAssembler.initVector(1);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf_L(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf_L(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf_L(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf_L(m_assemblerH->materials(),&m_patches);
+    // Evaluators of one material share its deformed configuration, hence the undeformed configuration needs its own materials
+    gsMaterialMatrixContainer<T> materials_L;
+    for (index_t p = 0; p != m_assemblerH->materials().size(); p++)
+        materials_L.add(*m_assemblerH->materials().piece(p));
+
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf_L(materials_L,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf_L(materials_L,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf_L(materials_L,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf_L(materials_L,&m_patches);
     auto mmA_L    = exprAssembler.getCoeff(mmAf_L);
     auto mmB_L    = exprAssembler.getCoeff(mmBf_L);
     auto mmC_L    = exprAssembler.getCoeff(mmCf_L);
@@ -3576,10 +3581,15 @@ T gsThinShellAssemblerDWR<d, T, bending>::matrixNorm(const gsMultiPatch<T> &prim
     exprAssembler.initSystem();
     exprAssembler.initVector(1);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf_L(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf_L(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf_L(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf_L(m_assemblerH->materials(),&m_patches);
+    // Evaluators of one material share its deformed configuration, hence the undeformed configuration needs its own materials
+    gsMaterialMatrixContainer<T> materials_L;
+    for (index_t p = 0; p != m_assemblerH->materials().size(); p++)
+        materials_L.add(*m_assemblerH->materials().piece(p));
+
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf_L(materials_L,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf_L(materials_L,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf_L(materials_L,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf_L(materials_L,&m_patches);
     auto mmA_L    = exprAssembler.getCoeff(mmAf_L);
     auto mmB_L    = exprAssembler.getCoeff(mmBf_L);
     auto mmC_L    = exprAssembler.getCoeff(mmCf_L);
-- 
2.43.0


From 279458852ece2c6210788859828796a834ecdae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:37 +0000
Subject: [PATCH 68/76] fix: sign of the variation of the normal in DWR
 buckling estimates

---
 src/gsThinShellAssemblerDWR.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index ed24591..72d5733 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -2492,9 +2492,9 @@ void gsThinShellAssemblerDWR<d, T, bending>::computeErrorEig_impl(    const T ev
     auto Em_derd_L  = flat(  jac(Gori).tr() * ( jac(zsolH) - jac(zsolL) ) ) ;
 
     auto M_L        = S1.tr(); // output is a column
-    auto Ef_der_L   = -( deriv2(usol , sn(Gori).normalized().tr() ) - deriv2(Gori, var1(usol , Gori) ) ) * reshape(m2, 3, 3);
+    auto Ef_der_L   = -( deriv2(usol , sn(Gori).normalized().tr() ) + deriv2(Gori, var1(usol , Gori) ) ) * reshape(m2, 3, 3);
     auto Ef_derd_L  = -(
-                         deriv2(zsolH, sn(Gori).normalized().tr() ) - deriv2(Gori, var1(zsolH, Gori) )
+                         deriv2(zsolH, sn(Gori).normalized().tr() ) + deriv2(Gori, var1(zsolH, Gori) )
                         -deriv2(zsolL, sn(Gori).normalized().tr() ) - deriv2(Gori, var1(zsolL, Gori) )
                        ) * reshape(m2, 3, 3);
 
@@ -2514,9 +2514,9 @@ void gsThinShellAssemblerDWR<d, T, bending>::computeErrorEig_impl(    const T ev
     auto Emd_der2   = flat( jac(usol).tr() * ( jac(zsolH) - jac(zsolL) ) ) * N_NL.tr();
 
     auto M_NL       = S1.tr(); // output is a column
-    auto Ef_der_NL  = -( deriv2(usol , sn(Gdef).normalized().tr() ) - deriv2(Gdef, var1(usol , Gdef) ) ) * reshape(m2, 3, 3);
+    auto Ef_der_NL  = -( deriv2(usol , sn(Gdef).normalized().tr() ) + deriv2(Gdef, var1(usol , Gdef) ) ) * reshape(m2, 3, 3);
     auto Ef_derd_NL = -(
-                         deriv2(zsolH, sn(Gdef).normalized().tr() ) - deriv2(Gdef, var1(zsolH, Gdef) )
+                         deriv2(zsolH, sn(Gdef).normalized().tr() ) + deriv2(Gdef, var1(zsolH, Gdef) )
                         -deriv2(zsolL, sn(Gdef).normalized().tr() ) - deriv2(Gdef, var1(zsolL, Gdef) )
                        ) * reshape(m2, 3, 3);
 
@@ -3616,10 +3616,10 @@ T gsThinShellAssemblerDWR<d, T, bending>::matrixNorm(const gsMultiPatch<T> &prim
     auto zsol = exprAssembler.getCoeff(other);
 
     auto Em_der_L   = flat(  jac(Gori).tr() * ( jac(usol )               ) ) ;
-    auto Ef_der_L   = -( deriv2(usol , sn(Gori).normalized().tr() ) - deriv2(Gori, var1(usol , Gori) ) ) * reshape(m2, 3, 3);
+    auto Ef_der_L   = -( deriv2(usol , sn(Gori).normalized().tr() ) + deriv2(Gori, var1(usol , Gori) ) ) * reshape(m2, 3, 3);
 
     auto Em_derd_L  = flat(  jac(Gori).tr() * ( jac(zsol )               ) ) ;
-    auto Ef_derd_L  = -( deriv2(zsol , sn(Gori).normalized().tr() ) - deriv2(Gori, var1(zsol , Gori) ) ) * reshape(m2, 3, 3);
+    auto Ef_derd_L  = -( deriv2(zsol , sn(Gori).normalized().tr() ) + deriv2(Gori, var1(zsol , Gori) ) ) * reshape(m2, 3, 3);
 
 
     auto N_der_L     = Em_derd_L * reshape(mmA_L,3,3) + Ef_derd_L * reshape(mmB_L,3,3);
@@ -3627,10 +3627,10 @@ T gsThinShellAssemblerDWR<d, T, bending>::matrixNorm(const gsMultiPatch<T> &prim
 
     auto N_NL       = S0.tr();
     auto Em_der_NL  = flat(  jac(Gdef).tr() * ( jac(usol )               ) ) ;
-    auto Ef_der_NL  = -( deriv2(usol , sn(Gdef).normalized().tr() ) - deriv2(Gdef, var1(usol , Gdef) ) ) * reshape(m2, 3, 3);
+    auto Ef_der_NL  = -( deriv2(usol , sn(Gdef).normalized().tr() ) + deriv2(Gdef, var1(usol , Gdef) ) ) * reshape(m2, 3, 3);
 
     auto Em_derd_NL = flat(  jac(Gdef).tr() * ( jac(zsol )               ) ) ;
-    auto Ef_derd_NL = -( deriv2(zsol , sn(Gdef).normalized().tr() ) - deriv2(Gdef, var1(zsol , Gdef) ) ) * reshape(m2, 3, 3);
+    auto Ef_derd_NL = -( deriv2(zsol , sn(Gdef).normalized().tr() ) + deriv2(Gdef, var1(zsol , Gdef) ) ) * reshape(m2, 3, 3);
 
     auto Em_der2    = flat( jac(usol).tr() * ( jac(zsol )               ) ) * N_NL.tr();
 
-- 
2.43.0


From eb17edc2eb390267a3fb14e0eef901496789adc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:37 +0000
Subject: [PATCH 69/76] fix: DWR point loads contribute to the elements of
 their own patch only

---
 src/gsThinShellAssemblerDWR.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index 72d5733..97a9128 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -3699,8 +3699,19 @@ void gsThinShellAssemblerDWR<d, T, bending>::_applyLoadsToElWiseError(const gsMu
 #endif
 
             index_t c = 0;
-            for (unsigned patchInd=0; patchInd < m_assemblerH->getBasis().nBases(); ++patchInd)
+            for (index_t patchInd=0; patchInd < static_cast<index_t>(m_assemblerH->getBasis().nBases()); ++patchInd)
             {
+                // Only the elements of the patch of the load can contain its point
+                if (patchInd != m_pLoads[i].patch)
+                {
+#                   ifdef _OPENMP
+                    patch_cnt += m_assemblerH->getBasis().piece(patchInd).domain()->numElements();
+#                   else
+                    c += m_assemblerH->getBasis().piece(patchInd).domain()->numElements();
+#                   endif
+                    continue;
+                }
+
                 // Initialize domain element iterator
                 typename gsBasis<T>::domainIter domIt    = m_assemblerH->getBasis().piece(patchInd).domain()->beginAll();
                 typename gsBasis<T>::domainIter domItEnd = m_assemblerH->getBasis().piece(patchInd).domain()->endAll();
-- 
2.43.0


From 7175783d502283d6830d3e380be5e94cfd3c3849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:37 +0000
Subject: [PATCH 70/76] fix: DWR assembler keeps its boundary conditions up to
 date

---
 src/gsThinShellAssemblerDWR.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsThinShellAssemblerDWR.h b/src/gsThinShellAssemblerDWR.h
index 56eac3b..7cec778 100644
--- a/src/gsThinShellAssemblerDWR.h
+++ b/src/gsThinShellAssemblerDWR.h
@@ -109,7 +109,7 @@ public:
     void setPressure(const gsFunction<T> & pressure) { m_assemblerL->setPressure(pressure);  m_assemblerH->setPressure(pressure); }
 
     /// See \ref gsThinShellAssemblerBase for details
-    void updateBCs(const gsBoundaryConditions<T> & bconditions) { m_assemblerL->updateBCs(bconditions);  m_assemblerH->updateBCs(bconditions); }
+    void updateBCs(const gsBoundaryConditions<T> & bconditions) { m_bcs = bconditions; m_assemblerL->updateBCs(bconditions);  m_assemblerH->updateBCs(bconditions); }
 
     /// See \ref gsThinShellAssemblerBase for details
     void setBasisL(const gsMultiBasis<T> & basis) { m_assemblerL->setBasis(basis); }
-- 
2.43.0


From a2527ee812b78231192eba50ca8d595163569c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:48 +0000
Subject: [PATCH 71/76] fix: DWR displacement goal in points selects a
 component in any dimension

---
 src/gsThinShellAssemblerDWR.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index 97a9128..f649554 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -3287,7 +3287,7 @@ T gsThinShellAssemblerDWR<d, T, bending>::computeGoal(const gsMatrix<T> & points
         }
         else
         {
-            auto expr = (Gdef - Gori).tr() * gismo::expr::uv(m_component,3)*meas(Gori);
+            auto expr = (Gdef - Gori).tr() * gismo::expr::uv(m_component,d)*meas(Gori);
             for (index_t k = 0; k!=points.cols(); k++)
             {
                 tmp = ev.eval( expr, points.col(k));
-- 
2.43.0


From 303d33afa027e6729e8844398d3475e8492a21a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:39 +0000
Subject: [PATCH 72/76] fix: derivative of the material tensor in batches of
 several points or heights

---
 src/gsMaterialMatrixNonlinear.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/gsMaterialMatrixNonlinear.hpp b/src/gsMaterialMatrixNonlinear.hpp
index cc8af53..81ae28f 100644
--- a/src/gsMaterialMatrixNonlinear.hpp
+++ b/src/gsMaterialMatrixNonlinear.hpp
@@ -345,21 +345,20 @@ gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::eval3D_dmatrix(
 {
     // return gsMatrix<T>::Zero(27,u.cols()*z.rows());
 
-    this->_computePoints(patch,u);
-
     gsMatrix<T> result(27,u.cols()*z.rows());
     result.setZero();
     index_t colIdx;
     for (index_t k=0; k!=u.cols(); k++)
     {
-        // Evaluate material properties on the quadrature point
-        for (index_t v=0; v!=m_data.mine().m_parmat.rows(); v++)
-            m_data.mine().m_parvals.at(v) = m_data.mine().m_parmat(v,k);
-
         for( index_t j=0; j < z.rows(); ++j ) // through-thickness points
         {
             colIdx = j*u.cols()+k;
-            this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
+            // dCijkl can evaluate the material on its own point, hence the data is computed per point
+            this->_computePoints(patch,u.col(k));
+            // Evaluate material properties on the quadrature point
+            for (index_t v=0; v!=m_data.mine().m_parmat.rows(); v++)
+                m_data.mine().m_parvals.at(v) = m_data.mine().m_parmat(v,0);
+            this->_getMetric(0, z(j, k) * m_data.mine().m_Tmat(0, 0)); // on point i, on height z(0,j)
             result.col(colIdx) = dCijkl(patch,u.col(k),z(j,k));
             // gsAsMatrix<T,Dynamic,Dynamic> dCdC = result.reshapeCol(k,3,9);
             // dCdC.row(2) *= 2;
-- 
2.43.0


From 8e6b920f1434a52da241ea3950556ca767e5fa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:17 +0000
Subject: [PATCH 73/76] fix: mixed integration point tangent uses distinct
 materials for both configurations

---
 src/gsThinShellAssembler.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index b29318b..d05688c 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1922,12 +1922,17 @@ gsThinShellAssembler<d, T, bending>::assembleMatrix_impl(const gsFunctionSet<T>
     // auto S0  = m_assembler.getCoeff(m_S0);
     // auto S1  = m_assembler.getCoeff(m_S1);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> m_mmAd(m_materialMatrices,&m_patches,&previous);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> m_mmBd(m_materialMatrices,&m_patches,&previous);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> m_mmCd(m_materialMatrices,&m_patches,&previous);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> m_mmDd(m_materialMatrices,&m_patches,&previous);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> m_S0d(m_materialMatrices,&m_patches,&previous);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> m_S1d(m_materialMatrices,&m_patches,&previous);
+    // Evaluators of one material share its deformed configuration, hence the previous configuration needs its own materials
+    gsMaterialMatrixContainer<T> materials_p;
+    for (index_t p = 0; p != m_materialMatrices.size(); p++)
+        materials_p.add(*m_materialMatrices.piece(p));
+
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> m_mmAd(materials_p,&m_patches,&previous);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> m_mmBd(materials_p,&m_patches,&previous);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> m_mmCd(materials_p,&m_patches,&previous);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> m_mmDd(materials_p,&m_patches,&previous);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> m_S0d(materials_p,&m_patches,&previous);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> m_S1d(materials_p,&m_patches,&previous);
     auto mmAp = m_assembler.getCoeff(m_mmAd);
     auto mmBp = m_assembler.getCoeff(m_mmBd);
     auto mmCp = m_assembler.getCoeff(m_mmCd);
-- 
2.43.0


From d9f12be7cc819c43c79dd79d61dd7ebb0830e9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:56 +0000
Subject: [PATCH 74/76] fix: overloads of computeError of the DWR helper were
 ambiguous (the one for a vector could not be compiled)

---
 src/gsThinShellDWRHelper.h | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/gsThinShellDWRHelper.h b/src/gsThinShellDWRHelper.h
index 13a3408..3d14830 100644
--- a/src/gsThinShellDWRHelper.h
+++ b/src/gsThinShellDWRHelper.h
@@ -49,13 +49,6 @@ public:
         this->computeError(deformed,primalL);
     }
 
-    void computeError(const gsMultiPatch<T> & deformed, const gsMultiPatch<T> primalL, bool withLoads = false)
-    {
-        gsMatrix<T> points;
-        bContainer bnds;
-        this->computeError(deformed,primalL,bnds,points,true,withLoads);
-    }
-
     void computeError(const gsMultiPatch<T> & deformed, const gsMultiPatch<T> primalL, bool withLoads = false,
                         std::string filename = std::string(), unsigned np=1000, bool parametric=false, bool mesh=false)
     {
-- 
2.43.0


From 3bad1dc24764baea1ffe680d9b49a6f94c0ba95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:19 +0000
Subject: [PATCH 75/76] fix: copies of a gsFunctionSum refer to themselves, not
 to the sum they were copied from

---
 src/gsFunctionSum.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/gsFunctionSum.h b/src/gsFunctionSum.h
index 0f3f292..ae22b4e 100644
--- a/src/gsFunctionSum.h
+++ b/src/gsFunctionSum.h
@@ -53,6 +53,16 @@ public:
         _init(m_functions);
     }
 
+    /// Copy constructor: the pieces of the copy refer to the copy
+    gsFunctionSum(const gsFunctionSum<T> & other)
+    :
+    m_functions(other.m_functions),
+    m_size(other.m_size)
+    {
+        if (!m_functions.empty())
+            _init(m_functions);
+    }
+
     index_t nPieces() const {return m_functions[0]->nPieces();}
 
     short_t domainDim() const
-- 
2.43.0


From 3d6f0122418df390ea4e1e49969e7900b837e264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:56 +0000
Subject: [PATCH 76/76] fix: point masses use the functions of a mapped basis

---
 src/gsThinShellAssembler.hpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index d05688c..b813319 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1432,15 +1432,31 @@ void gsThinShellAssembler<d, T, bending>::_applyMass()
         // Compute actives and values of basis functions on point load location.
         if ( m_pMass[i].parametric )   // in parametric space
         {
-            m_basis.basis(m_pMass[i].patch).active_into( m_pMass[i].point, acts );
-            m_basis.basis(m_pMass[i].patch).eval_into  ( m_pMass[i].point, bVals);
+            if (const gsMappedBasis<2,T> * mbasis = dynamic_cast<const gsMappedBasis<2,T> * >(m_spaceBasis))
+            {
+                mbasis->active_into(m_pMass[i].patch,m_pMass[i].point, acts );
+                mbasis->eval_into  (m_pMass[i].patch,m_pMass[i].point, bVals );
+            }
+            else
+            {
+                m_basis.basis(m_pMass[i].patch).active_into( m_pMass[i].point, acts );
+                m_basis.basis(m_pMass[i].patch).eval_into  ( m_pMass[i].point, bVals);
+            }
         }
         else                            // in physical space
         {
             gsMatrix<T> forcePoint;
             m_patches.patch(m_pMass[i].patch).invertPoints(m_pMass[i].point,forcePoint);
-            m_basis.basis(m_pMass[i].patch).active_into( forcePoint, acts );
-            m_basis.basis(m_pMass[i].patch).eval_into  ( forcePoint, bVals);
+            if (const gsMappedBasis<2,T> * mbasis = dynamic_cast<const gsMappedBasis<2,T> * >(m_spaceBasis))
+            {
+                mbasis->active_into(m_pMass[i].patch,forcePoint, acts );
+                mbasis->eval_into  (m_pMass[i].patch,forcePoint, bVals );
+            }
+            else
+            {
+                m_basis.basis(m_pMass[i].patch).active_into( forcePoint, acts );
+                m_basis.basis(m_pMass[i].patch).eval_into  ( forcePoint, bVals);
+            }
         }
 
         // Add the point load values in the right entries in the global RHS
-- 
2.43.0


From c8c969001f426789c0ebaa036626c9daf39cb9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:55 +0000
Subject: [PATCH 01/37] fix: Hex8 shape function gradients use the j-component
 of the local gradient

The generic compute_dN_impl multiplied Jinv(i, j) by dNxi(m, i) instead of
dNxi(m, j), so the gradient was wrong for any element that is not
axis-aligned.
---
 include/GooseFEM/Element.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/GooseFEM/Element.h b/include/GooseFEM/Element.h
index ce37145..c077b6a 100644
--- a/include/GooseFEM/Element.h
+++ b/include/GooseFEM/Element.h
@@ -1217,7 +1217,7 @@ private:
                     for (size_t m = 0; m < D::s_nne; ++m) {
                         for (size_t i = 0; i < D::s_ndim; ++i) {
                             for (size_t j = 0; j < D::s_ndim; ++j) {
-                                dNxq(m, i) += Jinv(i, j) * dNxiq(m, i);
+                                dNxq(m, i) += Jinv(i, j) * dNxiq(m, j);
                             }
                         }
                     }
-- 
2.43.0


From 408244e1f8f07059dd7bb98c2a9fce62d924c225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:28 +0000
Subject: [PATCH 02/37] fix: MatrixPartitionedTyings reads dependent DOF values
 from the dependent DOFs

---
 include/GooseFEM/MatrixPartitionedTyings.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/GooseFEM/MatrixPartitionedTyings.h b/include/GooseFEM/MatrixPartitionedTyings.h
index 7ffa962..83b35ac 100644
--- a/include/GooseFEM/MatrixPartitionedTyings.h
+++ b/include/GooseFEM/MatrixPartitionedTyings.h
@@ -483,7 +483,7 @@ private:
 
 #pragma omp parallel for
         for (size_t d = 0; d < m_nnd; ++d) {
-            dofval_d(d) = dofval(m_iip(d));
+            dofval_d(d) = dofval(m_iid(d));
         }
 
         return dofval_d;
-- 
2.43.0


From 70511e0936303d96bafda2de5e45242c7b8a8fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:35 +0000
Subject: [PATCH 03/37] fix: MatrixPartitionedTyingsSolver applies forces on
 dependent DOFs also for DOF values

---
 include/GooseFEM/MatrixPartitionedTyings.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/GooseFEM/MatrixPartitionedTyings.h b/include/GooseFEM/MatrixPartitionedTyings.h
index 83b35ac..e7cd548 100644
--- a/include/GooseFEM/MatrixPartitionedTyings.h
+++ b/include/GooseFEM/MatrixPartitionedTyings.h
@@ -572,6 +572,8 @@ private:
         Eigen::VectorXd B_d = A.AsDofs_d(b);
         Eigen::VectorXd X_p = A.AsDofs_p(x);
 
+        B_u += A.m_Cud * B_d;
+
         Eigen::VectorXd X_u = m_solver.solve(Eigen::VectorXd(B_u - A.m_ACup * X_p));
         Eigen::VectorXd X_d = A.m_Cdu * X_u + A.m_Cdp * X_p;
 
-- 
2.43.0


From 07208fac0e176c052f1f66f1dcda551771a7c2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:48 +0000
Subject: [PATCH 04/37] fix: MatrixPartitionedTyingsSolver::solve_u applies the
 forces on dependent DOFs

---
 include/GooseFEM/MatrixPartitionedTyings.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/GooseFEM/MatrixPartitionedTyings.h b/include/GooseFEM/MatrixPartitionedTyings.h
index e7cd548..3671780 100644
--- a/include/GooseFEM/MatrixPartitionedTyings.h
+++ b/include/GooseFEM/MatrixPartitionedTyings.h
@@ -632,7 +632,6 @@ public:
         array_type::tensor<double, 1>& x_u
     )
     {
-        UNUSED(b_d);
         GOOSEFEM_ASSERT(b_u.size() == A.m_nnu);
         GOOSEFEM_ASSERT(b_d.size() == A.m_nnd);
         GOOSEFEM_ASSERT(x_p.size() == A.m_nnp);
@@ -642,7 +641,8 @@ public:
 
         Eigen::Map<Eigen::VectorXd>(x_u.data(), x_u.size()).noalias() =
             m_solver.solve(Eigen::VectorXd(
-                Eigen::Map<const Eigen::VectorXd>(b_u.data(), b_u.size()) -
+                Eigen::Map<const Eigen::VectorXd>(b_u.data(), b_u.size()) +
+                A.m_Cud * Eigen::Map<const Eigen::VectorXd>(b_d.data(), b_d.size()) -
                 A.m_ACup * Eigen::Map<const Eigen::VectorXd>(x_p.data(), x_p.size())
             ));
     }
-- 
2.43.0


From 7ce683eb3c70d23a08337c40174b5626ea8aaa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:08 +0000
Subject: [PATCH 05/37] fix: MatrixDiagonalPartitioned::Reaction_p uses the
 initialised sizes of the partition

---
 include/GooseFEM/MatrixDiagonalPartitioned.h | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/include/GooseFEM/MatrixDiagonalPartitioned.h b/include/GooseFEM/MatrixDiagonalPartitioned.h
index 19e7b75..dd8017e 100644
--- a/include/GooseFEM/MatrixDiagonalPartitioned.h
+++ b/include/GooseFEM/MatrixDiagonalPartitioned.h
@@ -428,12 +428,6 @@ private:
 
     // Bookkeeping
     array_type::tensor<size_t, 2> m_part; // DOF-numbers per node, renumbered  [nnode, ndim]
-    array_type::tensor<size_t, 1> m_iiu; // DOF-numbers that are unknown      [nnu]
-    array_type::tensor<size_t, 1> m_iip; // DOF-numbers that are prescribed   [nnp]
-
-    // Dimensions
-    size_t m_nnu; // number of unknown DOFs
-    size_t m_nnp; // number of prescribed DOFs
 
     // Compute inverse (automatically evaluated by "solve")
     void factorize()
-- 
2.43.0


From 846aeda1e90be506efed22a4aeec0416bb0d351b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:08 +0000
Subject: [PATCH 06/37] fix: MatrixDiagonalPartitioned::Solve does not return
 uninitialised memory on prescribed DOFs

---
 include/GooseFEM/MatrixDiagonal.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/GooseFEM/MatrixDiagonal.h b/include/GooseFEM/MatrixDiagonal.h
index 6c72b15..a0e2a0c 100644
--- a/include/GooseFEM/MatrixDiagonal.h
+++ b/include/GooseFEM/MatrixDiagonal.h
@@ -52,7 +52,7 @@ public:
      */
     array_type::tensor<double, 2> Solve(const array_type::tensor<double, 2>& b)
     {
-        array_type::tensor<double, 2> x = xt::empty_like(b);
+        array_type::tensor<double, 2> x = xt::zeros_like(b);
         derived_cast().solve_nodevec_impl(b, x);
         return x;
     }
@@ -69,7 +69,7 @@ public:
      */
     array_type::tensor<double, 1> Solve(const array_type::tensor<double, 1>& b)
     {
-        array_type::tensor<double, 1> x = xt::empty_like(b);
+        array_type::tensor<double, 1> x = xt::zeros_like(b);
         derived_cast().solve_dofval_impl(b, x);
         return x;
     }
-- 
2.43.0


From 8db9fa6141e42ce0d3bdd38811a8433c3c77f165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:06 +0000
Subject: [PATCH 07/37] fix: solvers factorize whenever they are given other
 data than they last factorized

---
 include/GooseFEM/Matrix.h                  | 22 +++++++++++++---
 include/GooseFEM/MatrixPartitioned.h       | 11 +++++---
 include/GooseFEM/MatrixPartitionedTyings.h | 30 +++++++++++++---------
 3 files changed, 43 insertions(+), 20 deletions(-)

diff --git a/include/GooseFEM/Matrix.h b/include/GooseFEM/Matrix.h
index 4a25c46..39573d7 100644
--- a/include/GooseFEM/Matrix.h
+++ b/include/GooseFEM/Matrix.h
@@ -12,6 +12,7 @@
 #include <Eigen/Eigen>
 #include <Eigen/Sparse>
 #include <Eigen/SparseCholesky>
+#include <atomic>
 
 namespace GooseFEM {
 
@@ -207,6 +208,16 @@ protected:
     size_t m_ndof; ///< See ndof().
 
     bool m_changed = true; ///< Signal changes to data.
+    size_t m_revision = 0; ///< Number that identifies the data last passed to a solver.
+
+    /**
+     * Unique number to identify data that is passed to a solver.
+     */
+    static size_t next_revision()
+    {
+        static std::atomic<size_t> revision{0};
+        return ++revision;
+    }
 
 public:
     /**
@@ -892,19 +903,22 @@ private:
 
 private:
     Solver m_solver; ///< Solver.
-    bool m_factor = true; ///< Signal to force factorization.
+    size_t m_factor = 0; ///< Revision of the matrix that has been factorized (0: none).
 
     /**
      * Compute inverse (evaluated by "solve").
      */
     void factorize(Matrix& A)
     {
-        if (!A.m_changed && !m_factor) {
+        if (A.m_changed) {
+            A.m_revision = Matrix::next_revision();
+            A.m_changed = false;
+        }
+        if (A.m_revision == m_factor) {
             return;
         }
         m_solver.compute(A.m_A);
-        m_factor = false;
-        A.m_changed = false;
+        m_factor = A.m_revision;
     }
 };
 
diff --git a/include/GooseFEM/MatrixPartitioned.h b/include/GooseFEM/MatrixPartitioned.h
index 1567d61..896fb4c 100644
--- a/include/GooseFEM/MatrixPartitioned.h
+++ b/include/GooseFEM/MatrixPartitioned.h
@@ -625,19 +625,22 @@ private:
 
 private:
     Solver m_solver; ///< solver
-    bool m_factor = true; ///< signal to force factorization
+    size_t m_factor = 0; ///< revision of the matrix that has been factorized (0: none)
 
     /**
      * compute inverse (evaluated by "solve")
      */
     void factorize(MatrixPartitioned& A)
     {
-        if (!A.m_changed && !m_factor) {
+        if (A.m_changed) {
+            A.m_revision = MatrixPartitioned::next_revision();
+            A.m_changed = false;
+        }
+        if (A.m_revision == m_factor) {
             return;
         }
         m_solver.compute(A.m_Auu);
-        m_factor = false;
-        A.m_changed = false;
+        m_factor = A.m_revision;
     }
 };
 
diff --git a/include/GooseFEM/MatrixPartitionedTyings.h b/include/GooseFEM/MatrixPartitionedTyings.h
index 3671780..1d8d354 100644
--- a/include/GooseFEM/MatrixPartitionedTyings.h
+++ b/include/GooseFEM/MatrixPartitionedTyings.h
@@ -649,30 +649,36 @@ public:
 
 private:
     Solver m_solver; ///< solver
-    bool m_factor = true; ///< signal to force factorization
+    size_t m_factor = 0; ///< revision of the matrix that has been factorized (0: none)
 
     /**
      * compute inverse (evaluated by "solve")
      */
     void factorize(MatrixPartitionedTyings& A)
     {
-        if (!A.m_changed && !m_factor) {
-            return;
-        }
+        if (A.m_changed) {
+            A.m_ACuu =
+                A.m_Auu + A.m_Aud * A.m_Cdu + A.m_Cud * A.m_Adu + A.m_Cud * A.m_Add * A.m_Cdu;
+
+            A.m_ACup =
+                A.m_Aup + A.m_Aud * A.m_Cdp + A.m_Cud * A.m_Adp + A.m_Cud * A.m_Add * A.m_Cdp;
 
-        A.m_ACuu = A.m_Auu + A.m_Aud * A.m_Cdu + A.m_Cud * A.m_Adu + A.m_Cud * A.m_Add * A.m_Cdu;
+            // A.m_ACpu = A.m_Apu + A.m_Apd * A.m_Cdu + A.m_Cpd * A.m_Adu
+            //     + A.m_Cpd * A.m_Add * A.m_Cdu;
 
-        A.m_ACup = A.m_Aup + A.m_Aud * A.m_Cdp + A.m_Cud * A.m_Adp + A.m_Cud * A.m_Add * A.m_Cdp;
+            // A.m_ACpp = A.m_App + A.m_Apd * A.m_Cdp + A.m_Cpd * A.m_Adp
+            //     + A.m_Cpd * A.m_Add * A.m_Cdp;
 
-        // A.m_ACpu = A.m_Apu + A.m_Apd * A.m_Cdu + A.m_Cpd * A.m_Adu
-        //     + A.m_Cpd * A.m_Add * A.m_Cdu;
+            A.m_revision = MatrixPartitionedTyings::next_revision();
+            A.m_changed = false;
+        }
 
-        // A.m_ACpp = A.m_App + A.m_Apd * A.m_Cdp + A.m_Cpd * A.m_Adp
-        //     + A.m_Cpd * A.m_Add * A.m_Cdp;
+        if (A.m_revision == m_factor) {
+            return;
+        }
 
         m_solver.compute(A.m_ACuu);
-        m_factor = false;
-        A.m_changed = false;
+        m_factor = A.m_revision;
     }
 };
 
-- 
2.43.0


From b6d4ecb451f8bfd2694951c19bbf7d4dfedf4685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:09 +0000
Subject: [PATCH 08/37] fix: StopList does not accept NaN as a converged
 residual

---
 include/GooseFEM/Iterate.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/GooseFEM/Iterate.h b/include/GooseFEM/Iterate.h
index 8ec4c3b..d84e51c 100644
--- a/include/GooseFEM/Iterate.h
+++ b/include/GooseFEM/Iterate.h
@@ -79,7 +79,9 @@ public:
      */
     bool descending() const
     {
-        return std::is_sorted(m_res.cbegin(), m_res.cend(), std::greater<double>());
+        return std::adjacent_find(m_res.cbegin(), m_res.cend(), [](const auto& i, const auto& j) {
+                   return !(j <= i);
+               }) == m_res.cend();
     }
 
     /**
@@ -90,7 +92,7 @@ public:
      */
     bool all_less(double tol) const
     {
-        return !std::any_of(m_res.cbegin(), m_res.cend(), [=](const auto& i) { return i >= tol; });
+        return std::all_of(m_res.cbegin(), m_res.cend(), [=](const auto& i) { return i < tol; });
     }
 
     /**
-- 
2.43.0


From 77f544cf08393a83238f32e58775ebef9b0221b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:09 +0000
Subject: [PATCH 09/37] fix: isSequential detects holes in the DOF numbers

---
 include/GooseFEM/Element.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/GooseFEM/Element.h b/include/GooseFEM/Element.h
index c077b6a..e2ef28c 100644
--- a/include/GooseFEM/Element.h
+++ b/include/GooseFEM/Element.h
@@ -103,8 +103,8 @@ inline bool isSequential(const E& dofs)
         exists[i]++;
     }
 
-    for (auto& i : dofs) {
-        if (exists[i] == 0) {
+    for (auto& i : exists) {
+        if (i == 0) {
             return false;
         }
     }
-- 
2.43.0


From 1663a59432773b21188df3d84f0e3908b4508474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:09 +0000
Subject: [PATCH 10/37] fix: isDiagonal does not leave a parallel region
 halfway, and can be included twice

---
 include/GooseFEM/Element.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/GooseFEM/Element.h b/include/GooseFEM/Element.h
index e2ef28c..7a8c460 100644
--- a/include/GooseFEM/Element.h
+++ b/include/GooseFEM/Element.h
@@ -119,7 +119,7 @@ inline bool isSequential(const E& dofs)
  * @param elemmat Element-vectors ("elemmat")
  * @return `true` if all element matrices are diagonal.
  */
-bool isDiagonal(const array_type::tensor<double, 3>& elemmat)
+inline bool isDiagonal(const array_type::tensor<double, 3>& elemmat)
 {
     GOOSEFEM_ASSERT(elemmat.shape(1) == elemmat.shape(2));
 
@@ -128,7 +128,6 @@ bool isDiagonal(const array_type::tensor<double, 3>& elemmat)
 
     double eps = std::numeric_limits<double>::epsilon();
 
-#pragma omp parallel for
     for (size_t e = 0; e < nelem; ++e) {
         for (size_t i = 0; i < N; ++i) {
             for (size_t j = 0; j < N; ++j) {
-- 
2.43.0


From 4f570b365fedae14d3c1d1eda85e66f7d2a1b145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:17 +0000
Subject: [PATCH 11/37] fix: elem2node with tyings accounts for nodes that are
 not connected to an element

---
 include/GooseFEM/Mesh.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/GooseFEM/Mesh.h b/include/GooseFEM/Mesh.h
index d7d5b84..eb95298 100644
--- a/include/GooseFEM/Mesh.h
+++ b/include/GooseFEM/Mesh.h
@@ -2518,6 +2518,7 @@ inline std::vector<std::vector<size_t>> elem2node(const E& conn, const D& dofs,
 {
     size_t nnode = dofs.shape(0);
     auto ret = elem2node(conn, sorted);
+    ret.resize(std::max(ret.size(), nnode));
     auto nties = nodaltyings(dofs);
 
     for (size_t m = 0; m < nnode; ++m) {
-- 
2.43.0


From f2f3230ddaef538b6765bd9821639e3e6cdb3047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:26 +0000
Subject: [PATCH 12/37] fix: FineLayer(coor, conn) does not read out of bounds
 if there is one layer of elements

---
 include/GooseFEM/MeshQuad4.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/GooseFEM/MeshQuad4.h b/include/GooseFEM/MeshQuad4.h
index 28b8e74..b726c95 100644
--- a/include/GooseFEM/MeshQuad4.h
+++ b/include/GooseFEM/MeshQuad4.h
@@ -1097,11 +1097,11 @@ private:
         size_t eleft = emid;
         size_t eright = emid;
 
-        while (conn(eleft, 0) == conn(eleft - 1, 1) && eleft > 0) {
+        while (eleft > 0 && conn(eleft, 0) == conn(eleft - 1, 1)) {
             eleft--;
         }
 
-        while (conn(eright, 1) == conn(eright + 1, 0) && eright < conn.shape(0) - 1) {
+        while (eright < conn.shape(0) - 1 && conn(eright, 1) == conn(eright + 1, 0)) {
             eright++;
         }
 
-- 
2.43.0


From d022e64fe8846bf89539064a351e7b7b7add5b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:04 +0000
Subject: [PATCH 13/37] fix: FineLayer(coor, conn) recognises the height of the
 mesh in spite of rounding

---
 include/GooseFEM/MeshQuad4.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/GooseFEM/MeshQuad4.h b/include/GooseFEM/MeshQuad4.h
index b726c95..7fa8fd7 100644
--- a/include/GooseFEM/MeshQuad4.h
+++ b/include/GooseFEM/MeshQuad4.h
@@ -1124,7 +1124,8 @@ private:
         // Extract shape and initialise
 
         size_t nelx = eright - eleft + 1;
-        size_t nely = static_cast<size_t>((coor(coor.shape(0) - 1, 1) - coor(0, 1)) / hx);
+        size_t nely =
+            static_cast<size_t>(std::round((coor(coor.shape(0) - 1, 1) - coor(0, 1)) / hx));
         this->init(nelx, nely, hx);
         GOOSEFEM_CHECK(xt::all(xt::equal(this->conn(), conn)));
         GOOSEFEM_CHECK(xt::allclose(this->coor(), coor));
-- 
2.43.0


From b96db72fc551749db61fbd20bb459e9bc5688d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:54 +0000
Subject: [PATCH 14/37] fix: faces of Hex8::FineLayer include the refinement
 nodes of the first and last layer

---
 include/GooseFEM/MeshHex8.h | 96 ++++++++++++++++++-------------------
 1 file changed, 48 insertions(+), 48 deletions(-)

diff --git a/include/GooseFEM/MeshHex8.h b/include/GooseFEM/MeshHex8.h
index c43367e..48a7906 100644
--- a/include/GooseFEM/MeshHex8.h
+++ b/include/GooseFEM/MeshHex8.h
@@ -1581,20 +1581,20 @@ private:
         // - initialize
         size_t n = 0;
         // - bottom half: bottom node layer (+ middle node layer)
-        for (size_t iy = 1; iy < (nely + 1) / 2; ++iy) {
+        for (size_t iy = 0; iy < (nely + 1) / 2; ++iy) {
             if (m_refine(iy) == 0) {
-                n += m_layer_nelx(iy) * 3 - 1;
+                n += m_layer_nelx(iy) * 2;
             }
-            else {
+            if (iy > 0) {
                 n += m_layer_nelx(iy) - 1;
             }
         }
         // - top half: (middle node layer +) top node layer
-        for (size_t iy = (nely - 1) / 2; iy < nely - 1; ++iy) {
+        for (size_t iy = (nely - 1) / 2; iy < nely; ++iy) {
             if (m_refine(iy) == 0) {
-                n += m_layer_nelx(iy) * 3 - 1;
+                n += m_layer_nelx(iy) * 2;
             }
-            else {
+            if (iy < nely - 1) {
                 n += m_layer_nelx(iy) - 1;
             }
         }
@@ -1606,9 +1606,9 @@ private:
         size_t j = 0;
 
         // bottom half: bottom node layer (+ middle node layer)
-        for (size_t iy = 1; iy < (nely + 1) / 2; ++iy) {
-            // -- bottom node layer
-            for (size_t ix = 1; ix < m_layer_nelx(iy); ++ix) {
+        for (size_t iy = 0; iy < (nely + 1) / 2; ++iy) {
+            // -- bottom node layer (not for the first layer: on the edge)
+            for (size_t ix = 1; iy > 0 && ix < m_layer_nelx(iy); ++ix) {
                 ret(j) = m_startNode(iy) + ix;
                 ++j;
             }
@@ -1622,7 +1622,7 @@ private:
         }
 
         // top half: (middle node layer +) top node layer
-        for (size_t iy = (nely - 1) / 2; iy < nely - 1; ++iy) {
+        for (size_t iy = (nely - 1) / 2; iy < nely; ++iy) {
             // -- refinement layer
             if (m_refine(iy) == 0) {
                 for (size_t ix = 0; ix < 2 * m_layer_nelx(iy); ++ix) {
@@ -1630,8 +1630,8 @@ private:
                     ++j;
                 }
             }
-            // -- top node layer
-            for (size_t ix = 1; ix < m_layer_nelx(iy); ++ix) {
+            // -- top node layer (not for the last layer: on the edge)
+            for (size_t ix = 1; iy < nely - 1 && ix < m_layer_nelx(iy); ++ix) {
                 ret(j) = m_startNode(iy + 1) + ix;
                 ++j;
             }
@@ -1649,20 +1649,20 @@ private:
         // - initialize
         size_t n = 0;
         // - bottom half: bottom node layer (+ middle node layer)
-        for (size_t iy = 1; iy < (nely + 1) / 2; ++iy) {
+        for (size_t iy = 0; iy < (nely + 1) / 2; ++iy) {
             if (m_refine(iy) == 0) {
-                n += m_layer_nelx(iy) * 3 - 1;
+                n += m_layer_nelx(iy) * 2;
             }
-            else {
+            if (iy > 0) {
                 n += m_layer_nelx(iy) - 1;
             }
         }
         // - top half: (middle node layer +) top node layer
-        for (size_t iy = (nely - 1) / 2; iy < nely - 1; ++iy) {
+        for (size_t iy = (nely - 1) / 2; iy < nely; ++iy) {
             if (m_refine(iy) == 0) {
-                n += m_layer_nelx(iy) * 3 - 1;
+                n += m_layer_nelx(iy) * 2;
             }
-            else {
+            if (iy < nely - 1) {
                 n += m_layer_nelx(iy) - 1;
             }
         }
@@ -1674,9 +1674,9 @@ private:
         size_t j = 0;
 
         // bottom half: bottom node layer (+ middle node layer)
-        for (size_t iy = 1; iy < (nely + 1) / 2; ++iy) {
-            // -- bottom node layer
-            for (size_t ix = 1; ix < m_layer_nelx(iy); ++ix) {
+        for (size_t iy = 0; iy < (nely + 1) / 2; ++iy) {
+            // -- bottom node layer (not for the first layer: on the edge)
+            for (size_t ix = 1; iy > 0 && ix < m_layer_nelx(iy); ++ix) {
                 ret(j) = m_startNode(iy) + ix + (m_layer_nelx(iy) + 1) * m_layer_nelz(iy);
                 ++j;
             }
@@ -1691,7 +1691,7 @@ private:
         }
 
         // top half: (middle node layer +) top node layer
-        for (size_t iy = (nely - 1) / 2; iy < nely - 1; ++iy) {
+        for (size_t iy = (nely - 1) / 2; iy < nely; ++iy) {
             // -- refinement layer
             if (m_refine(iy) == 0) {
                 for (size_t ix = 0; ix < 2 * m_layer_nelx(iy); ++ix) {
@@ -1700,8 +1700,8 @@ private:
                     ++j;
                 }
             }
-            // -- top node layer
-            for (size_t ix = 1; ix < m_layer_nelx(iy); ++ix) {
+            // -- top node layer (not for the last layer: on the edge)
+            for (size_t ix = 1; iy < nely - 1 && ix < m_layer_nelx(iy); ++ix) {
                 ret(j) = m_startNode(iy + 1) + ix + (m_layer_nelx(iy) + 1) * m_layer_nelz(iy);
                 ++j;
             }
@@ -1719,20 +1719,20 @@ private:
         // - initialize
         size_t n = 0;
         // - bottom half: bottom node layer (+ middle node layer)
-        for (size_t iy = 1; iy < (nely + 1) / 2; ++iy) {
+        for (size_t iy = 0; iy < (nely + 1) / 2; ++iy) {
             if (m_refine(iy) == 2) {
-                n += m_layer_nelz(iy) * 3 - 1;
+                n += m_layer_nelz(iy) * 2;
             }
-            else {
+            if (iy > 0) {
                 n += m_layer_nelz(iy) - 1;
             }
         }
         // - top half: (middle node layer +) top node layer
-        for (size_t iy = (nely - 1) / 2; iy < nely - 1; ++iy) {
+        for (size_t iy = (nely - 1) / 2; iy < nely; ++iy) {
             if (m_refine(iy) == 2) {
-                n += m_layer_nelz(iy) * 3 - 1;
+                n += m_layer_nelz(iy) * 2;
             }
-            else {
+            if (iy < nely - 1) {
                 n += m_layer_nelz(iy) - 1;
             }
         }
@@ -1744,9 +1744,9 @@ private:
         size_t j = 0;
 
         // bottom half: bottom node layer (+ middle node layer)
-        for (size_t iy = 1; iy < (nely + 1) / 2; ++iy) {
-            // -- bottom node layer
-            for (size_t iz = 1; iz < m_layer_nelz(iy); ++iz) {
+        for (size_t iy = 0; iy < (nely + 1) / 2; ++iy) {
+            // -- bottom node layer (not for the first layer: on the edge)
+            for (size_t iz = 1; iy > 0 && iz < m_layer_nelz(iy); ++iz) {
                 ret(j) = m_startNode(iy) + iz * (m_layer_nelx(iy) + 1);
                 ++j;
             }
@@ -1760,7 +1760,7 @@ private:
         }
 
         // top half: (middle node layer +) top node layer
-        for (size_t iy = (nely - 1) / 2; iy < nely - 1; ++iy) {
+        for (size_t iy = (nely - 1) / 2; iy < nely; ++iy) {
             // -- refinement layer
             if (m_refine(iy) == 2) {
                 for (size_t iz = 0; iz < 2 * m_layer_nelz(iy); ++iz) {
@@ -1768,8 +1768,8 @@ private:
                     ++j;
                 }
             }
-            // -- top node layer
-            for (size_t iz = 1; iz < m_layer_nelz(iy); ++iz) {
+            // -- top node layer (not for the last layer: on the edge)
+            for (size_t iz = 1; iy < nely - 1 && iz < m_layer_nelz(iy); ++iz) {
                 ret(j) = m_startNode(iy + 1) + iz * (m_layer_nelx(iy) + 1);
                 ++j;
             }
@@ -1787,20 +1787,20 @@ private:
         // - initialize
         size_t n = 0;
         // - bottom half: bottom node layer (+ middle node layer)
-        for (size_t iy = 1; iy < (nely + 1) / 2; ++iy) {
+        for (size_t iy = 0; iy < (nely + 1) / 2; ++iy) {
             if (m_refine(iy) == 2) {
-                n += m_layer_nelz(iy) * 3 - 1;
+                n += m_layer_nelz(iy) * 2;
             }
-            else {
+            if (iy > 0) {
                 n += m_layer_nelz(iy) - 1;
             }
         }
         // - top half: (middle node layer +) top node layer
-        for (size_t iy = (nely - 1) / 2; iy < nely - 1; ++iy) {
+        for (size_t iy = (nely - 1) / 2; iy < nely; ++iy) {
             if (m_refine(iy) == 2) {
-                n += m_layer_nelz(iy) * 3 - 1;
+                n += m_layer_nelz(iy) * 2;
             }
-            else {
+            if (iy < nely - 1) {
                 n += m_layer_nelz(iy) - 1;
             }
         }
@@ -1812,9 +1812,9 @@ private:
         size_t j = 0;
 
         // bottom half: bottom node layer (+ middle node layer)
-        for (size_t iy = 1; iy < (nely + 1) / 2; ++iy) {
-            // -- bottom node layer
-            for (size_t iz = 1; iz < m_layer_nelz(iy); ++iz) {
+        for (size_t iy = 0; iy < (nely + 1) / 2; ++iy) {
+            // -- bottom node layer (not for the first layer: on the edge)
+            for (size_t iz = 1; iy > 0 && iz < m_layer_nelz(iy); ++iz) {
                 ret(j) = m_startNode(iy) + iz * (m_layer_nelx(iy) + 1) + m_layer_nelx(iy);
                 ++j;
             }
@@ -1829,7 +1829,7 @@ private:
         }
 
         // top half: (middle node layer +) top node layer
-        for (size_t iy = (nely - 1) / 2; iy < nely - 1; ++iy) {
+        for (size_t iy = (nely - 1) / 2; iy < nely; ++iy) {
             // -- refinement layer
             if (m_refine(iy) == 2) {
                 for (size_t iz = 0; iz < 2 * m_layer_nelz(iy); ++iz) {
@@ -1838,8 +1838,8 @@ private:
                     ++j;
                 }
             }
-            // -- top node layer
-            for (size_t iz = 1; iz < m_layer_nelz(iy); ++iz) {
+            // -- top node layer (not for the last layer: on the edge)
+            for (size_t iz = 1; iy < nely - 1 && iz < m_layer_nelz(iy); ++iz) {
                 ret(j) = m_startNode(iy + 1) + iz * (m_layer_nelx(iy) + 1) + m_layer_nelx(iy);
                 ++j;
             }
-- 
2.43.0


From dd34406cecb60152e18a37a4aac119e4da724834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:26 +0000
Subject: [PATCH 15/37] fix: selections around an element of FineLayer are
 periodic, complete, and do not read out of bounds

---
 include/GooseFEM/MeshQuad4.h | 152 +++++++++++++----------------------
 1 file changed, 56 insertions(+), 96 deletions(-)

diff --git a/include/GooseFEM/MeshQuad4.h b/include/GooseFEM/MeshQuad4.h
index 7fa8fd7..91e6acc 100644
--- a/include/GooseFEM/MeshQuad4.h
+++ b/include/GooseFEM/MeshQuad4.h
@@ -411,61 +411,22 @@ public:
     {
         GOOSEFEM_WIP_ASSERT(periodic == true);
 
-        size_t iy = xt::argmin(m_startElem <= e)() - 1;
-        size_t nel = m_layer_nelx(iy);
-
-        GOOSEFEM_WIP_ASSERT(iy == (m_nhy.size() - 1) / 2);
-
-        auto H = xt::cumsum(m_nhy);
-
-        if (2 * size >= H(H.size() - 1)) {
-            return xt::arange<size_t>(this->nelem());
-        }
-
-        size_t hy = H(iy);
-        size_t l = xt::argmax(H > (hy - size - 1))();
-        size_t u = xt::argmax(H >= (hy + size))();
-        size_t lh = 0;
-        if (l > 0) {
-            lh = H(l - 1);
-        }
-        size_t uh = H(u);
-
-        size_t step = xt::amax(m_nhx)();
-        size_t relx = (e - m_startElem(iy)) % step;
-        size_t mid = (nel / step - (nel / step) % 2) / 2 * step + relx;
-        size_t nroll = (nel - (nel - mid + e - m_startElem(iy)) % nel) / step;
-        size_t dx = m_nhx(u);
-        size_t xl = 0;
-        size_t xu = nel;
-        if (mid >= size) {
-            xl = mid - size;
-        }
-        if (mid + size < nel) {
-            xu = mid + size + 1;
-        }
-        xl = xl - xl % dx;
-        xu = xu - xu % dx;
-        if (mid - xl < size) {
-            if (xl < dx) {
-                xl = 0;
-            }
-            else {
-                xl -= dx;
-            }
+        size_t iy = (m_nhy.size() - 1) / 2;
+        GOOSEFEM_WIP_ASSERT(e >= m_startElem(iy));
+        GOOSEFEM_WIP_ASSERT(e < m_startElem(iy) + m_layer_nelx(iy));
+
+        // layers that overlap with the box (clipped at the bottom and top of the mesh)
+        array_type::tensor<size_t, 1> H = xt::cumsum(m_nhy);
+        size_t l = iy;
+        size_t u = iy;
+        while (l > 0 && H(iy) - H(l - 1) <= size) {
+            --l;
         }
-        if (xu - mid < size) {
-            if (xu > nel - dx) {
-                xu = nel;
-            }
-            else {
-                xu += dx;
-            }
+        while (u < H.size() - 1 && H(u) - H(iy) < size) {
+            ++u;
         }
 
-        auto ret = this->elementgrid_ravel({lh, uh}, {xl, xu});
-        auto map = this->roll(nroll);
-        return xt::view(map, xt::keep(ret));
+        return this->elementgrid_periodic(l, u, e - m_startElem(iy), size, size);
     }
 
     /**
@@ -484,51 +445,11 @@ public:
     {
         GOOSEFEM_WIP_ASSERT(periodic == true);
 
-        size_t iy = xt::argmin(m_startElem <= e)() - 1;
-        size_t nel = m_layer_nelx(iy);
-
-        GOOSEFEM_WIP_ASSERT(iy == (m_nhy.size() - 1) / 2);
+        size_t iy = (m_nhy.size() - 1) / 2;
+        GOOSEFEM_WIP_ASSERT(e >= m_startElem(iy));
+        GOOSEFEM_WIP_ASSERT(e < m_startElem(iy) + m_layer_nelx(iy));
 
-        size_t step = xt::amax(m_nhx)();
-        size_t relx = (e - m_startElem(iy)) % step;
-        size_t mid = (nel / step - (nel / step) % 2) / 2 * step + relx;
-        size_t nroll = (nel - (nel - mid + e - m_startElem(iy)) % nel) / step;
-        size_t dx = m_nhx(iy);
-        size_t xl = 0;
-        size_t xu = nel;
-        if (mid >= left) {
-            xl = mid - left;
-        }
-        if (mid + right < nel) {
-            xu = mid + right + 1;
-        }
-        xl = xl - xl % dx;
-        xu = xu - xu % dx;
-        if (mid - xl < left) {
-            if (xl < dx) {
-                xl = 0;
-            }
-            else {
-                xl -= dx;
-            }
-        }
-        if (xu - mid < right) {
-            if (xu > nel - dx) {
-                xu = nel;
-            }
-            else {
-                xu += dx;
-            }
-        }
-
-        auto H = xt::cumsum(m_nhy);
-        size_t yl = 0;
-        if (iy > 0) {
-            yl = H(iy - 1);
-        }
-        auto ret = this->elementgrid_ravel({yl, H(iy)}, {xl, xu});
-        auto map = this->roll(nroll);
-        return xt::view(map, xt::keep(ret));
+        return this->elementgrid_periodic(iy, iy, e - m_startElem(iy), left, right);
     }
 
     /**
@@ -568,6 +489,45 @@ private:
     friend class RegularBase2d<FineLayer>;
     friend class GooseFEM::Mesh::Quad4::Map::FineLayer2Regular;
 
+    /**
+     * Elements in the columns `[x - left, x + right]` (in units of the smallest elements, periodic)
+     * of a number of layers. The columns are extended to entire elements of the coarsest layer.
+     *
+     * @param lower First layer.
+     * @param upper Last layer.
+     * @param x Column.
+     * @param left Number of columns to the left of `x`.
+     * @param right Number of columns to the right of `x`.
+     * @return List of elements.
+     */
+    array_type::tensor<size_t, 1>
+    elementgrid_periodic(size_t lower, size_t upper, size_t x, size_t left, size_t right) const
+    {
+        // blocks: as wide as the coarsest element
+        size_t dx = std::max(m_nhx(lower), m_nhx(upper));
+        size_t nblock = this->nelx() / dx;
+        size_t rel = x % dx;
+        size_t nleft = left > rel ? (left - rel + dx - 1) / dx : 0;
+        size_t n = std::min(nblock, nleft + 1 + (rel + right) / dx);
+        size_t start = (x / dx + nblock - nleft % nblock) % nblock;
+
+        std::vector<size_t> ret;
+        for (size_t iy = lower; iy <= upper; ++iy) {
+            // number of elements per block
+            size_t nel = dx / m_nhx(iy);
+            if (m_refine(iy) != -1) {
+                nel *= 4;
+            }
+            for (size_t i = 0; i < n; ++i) {
+                for (size_t j = 0; j < nel; ++j) {
+                    ret.push_back(m_startElem(iy) + (start + i) % nblock * nel + j);
+                }
+            }
+        }
+
+        return xt::adapt(ret, std::array<size_t, 1>{ret.size()});
+    }
+
     size_t nelx_impl() const
     {
         return xt::amax(m_layer_nelx)();
-- 
2.43.0


From b08d8c2f3b21b46348fc7e017dcb14af73b9bc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:54 +0000
Subject: [PATCH 16/37] fix: asTensor uses the right data if its argument is a
 view

---
 include/GooseFEM/Allocate.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/GooseFEM/Allocate.h b/include/GooseFEM/Allocate.h
index 75f735c..5b5e3c8 100644
--- a/include/GooseFEM/Allocate.h
+++ b/include/GooseFEM/Allocate.h
@@ -75,7 +75,7 @@ struct asTensor_write {
         std::copy(arg.strides().begin(), arg.strides().end(), ret_strides.begin());
         std::fill(ret_strides.begin() + arg.dimension(), ret_strides.end(), 0);
         ret = xt::strided_view(
-            arg, ret.shape(), std::move(ret_strides), 0ul, xt::layout_type::dynamic
+            arg, ret.shape(), std::move(ret_strides), arg.data_offset(), xt::layout_type::dynamic
         );
     }
 };
@@ -97,7 +97,7 @@ struct asTensor_write<
         std::copy(arg.strides().begin(), arg.strides().end(), ret_strides.begin());
         std::fill(ret_strides.begin() + T::rank, ret_strides.end(), 0);
         ret = xt::strided_view(
-            arg, ret.shape(), std::move(ret_strides), 0ul, xt::layout_type::dynamic
+            arg, ret.shape(), std::move(ret_strides), arg.data_offset(), xt::layout_type::dynamic
         );
     }
 };
-- 
2.43.0


From b375498072c0190c0cd24d4ce378c1d0ea117e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:23 +0000
Subject: [PATCH 17/37] fix: check the shape of the integration points before
 using them

Quad4, QuadraturePlanar and Hex8 computed the shape functions from xi before
asserting its shape: reading out of bounds if it was wrong.
---
 include/GooseFEM/ElementHex8.h        | 13 ++++++-------
 include/GooseFEM/ElementQuad4.h       | 13 ++++++-------
 include/GooseFEM/ElementQuad4Planar.h | 13 ++++++-------
 3 files changed, 18 insertions(+), 21 deletions(-)

diff --git a/include/GooseFEM/ElementHex8.h b/include/GooseFEM/ElementHex8.h
index a50662c..cc870d0 100644
--- a/include/GooseFEM/ElementHex8.h
+++ b/include/GooseFEM/ElementHex8.h
@@ -259,6 +259,12 @@ public:
         m_xi = xi;
         m_nip = w.size();
         m_nelem = m_x.shape(0);
+
+        GOOSEFEM_ASSERT(m_x.shape(1) == s_nne);
+        GOOSEFEM_ASSERT(m_x.shape(2) == s_ndim);
+        GOOSEFEM_ASSERT(xt::has_shape(m_xi, {m_nip, s_ndim}));
+        GOOSEFEM_ASSERT(xt::has_shape(m_w, {m_nip}));
+
         m_N = xt::empty<double>({m_nip, s_nne});
         m_dNxi = xt::empty<double>({m_nip, s_nne, s_ndim});
 
@@ -303,13 +309,6 @@ public:
             m_dNxi(q, 7, 2) = +0.125 * (1.0 - xi(q, 0)) * (1.0 + xi(q, 1));
         }
 
-        GOOSEFEM_ASSERT(m_x.shape(1) == s_nne);
-        GOOSEFEM_ASSERT(m_x.shape(2) == s_ndim);
-        GOOSEFEM_ASSERT(xt::has_shape(m_xi, {m_nip, s_ndim}));
-        GOOSEFEM_ASSERT(xt::has_shape(m_w, {m_nip}));
-        GOOSEFEM_ASSERT(xt::has_shape(m_N, {m_nip, s_nne}));
-        GOOSEFEM_ASSERT(xt::has_shape(m_dNxi, {m_nip, s_nne, s_ndim}));
-
         m_dNx = xt::empty<double>({m_nelem, m_nip, s_nne, s_ndim});
         m_vol = xt::empty<double>(this->shape_qscalar());
 
diff --git a/include/GooseFEM/ElementQuad4.h b/include/GooseFEM/ElementQuad4.h
index bbb146e..1f11c5b 100644
--- a/include/GooseFEM/ElementQuad4.h
+++ b/include/GooseFEM/ElementQuad4.h
@@ -281,6 +281,12 @@ public:
         m_xi = xi;
         m_nip = w.size();
         m_nelem = m_x.shape(0);
+
+        GOOSEFEM_ASSERT(m_x.shape(1) == s_nne);
+        GOOSEFEM_ASSERT(m_x.shape(2) == s_ndim);
+        GOOSEFEM_ASSERT(xt::has_shape(m_xi, {m_nip, s_ndim}));
+        GOOSEFEM_ASSERT(xt::has_shape(m_w, {m_nip}));
+
         m_N = xt::empty<double>({m_nip, s_nne});
         m_dNxi = xt::empty<double>({m_nip, s_nne, s_ndim});
 
@@ -304,13 +310,6 @@ public:
             m_dNxi(q, 3, 1) = +0.25 * (1.0 - xi(q, 0));
         }
 
-        GOOSEFEM_ASSERT(m_x.shape(1) == s_nne);
-        GOOSEFEM_ASSERT(m_x.shape(2) == s_ndim);
-        GOOSEFEM_ASSERT(xt::has_shape(m_xi, {m_nip, s_ndim}));
-        GOOSEFEM_ASSERT(xt::has_shape(m_w, {m_nip}));
-        GOOSEFEM_ASSERT(xt::has_shape(m_N, {m_nip, s_nne}));
-        GOOSEFEM_ASSERT(xt::has_shape(m_dNxi, {m_nip, s_nne, s_ndim}));
-
         m_dNx = xt::empty<double>({m_nelem, m_nip, s_nne, s_ndim});
         m_vol = xt::empty<double>(this->shape_qscalar());
 
diff --git a/include/GooseFEM/ElementQuad4Planar.h b/include/GooseFEM/ElementQuad4Planar.h
index cf278ee..b4b720b 100644
--- a/include/GooseFEM/ElementQuad4Planar.h
+++ b/include/GooseFEM/ElementQuad4Planar.h
@@ -85,6 +85,12 @@ public:
         m_xi = xi;
         m_nip = w.size();
         m_nelem = m_x.shape(0);
+
+        GOOSEFEM_ASSERT(m_x.shape(1) == s_nne);
+        GOOSEFEM_ASSERT(m_x.shape(2) == s_ndim);
+        GOOSEFEM_ASSERT(xt::has_shape(m_xi, {m_nip, s_ndim}));
+        GOOSEFEM_ASSERT(xt::has_shape(m_w, {m_nip}));
+
         m_N = xt::empty<double>({m_nip, s_nne});
         m_dNxi = xt::empty<double>({m_nip, s_nne, s_ndim});
         m_thick = thick;
@@ -109,13 +115,6 @@ public:
             m_dNxi(q, 3, 1) = +0.25 * (1.0 - xi(q, 0));
         }
 
-        GOOSEFEM_ASSERT(m_x.shape(1) == s_nne);
-        GOOSEFEM_ASSERT(m_x.shape(2) == s_ndim);
-        GOOSEFEM_ASSERT(xt::has_shape(m_xi, {m_nip, s_ndim}));
-        GOOSEFEM_ASSERT(xt::has_shape(m_w, {m_nip}));
-        GOOSEFEM_ASSERT(xt::has_shape(m_N, {m_nip, s_nne}));
-        GOOSEFEM_ASSERT(xt::has_shape(m_dNxi, {m_nip, s_nne, s_ndim}));
-
         m_dNx = xt::empty<double>({m_nelem, m_nip, s_nne, s_ndim});
         m_vol = xt::empty<double>(this->shape_qscalar());
 
-- 
2.43.0


From 4efe09b8a7bf57027c21a13c127b3736b7d92e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:23 +0000
Subject: [PATCH 18/37] fix: AsTensor checks the shape of its argument, like
 asTensor

---
 include/GooseFEM/Element.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/GooseFEM/Element.h b/include/GooseFEM/Element.h
index 7a8c460..e7f7892 100644
--- a/include/GooseFEM/Element.h
+++ b/include/GooseFEM/Element.h
@@ -227,6 +227,7 @@ public:
     template <size_t rank, class T>
     auto AsTensor(const T& arg) const
     {
+        GOOSEFEM_ASSERT(xt::has_shape(arg, this->shape_qscalar()));
         return GooseFEM::AsTensor<rank>(arg, derived_cast().m_tdim);
     }
 
@@ -240,6 +241,7 @@ public:
     template <class T>
     auto AsTensor(size_t rank, const T& arg) const
     {
+        GOOSEFEM_ASSERT(xt::has_shape(arg, this->shape_qscalar()));
         return GooseFEM::AsTensor(rank, arg, derived_cast().m_tdim);
     }
 
-- 
2.43.0


From 18d324de6c6022a6f5978441c1cfd61d6c92ce3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:22 +0000
Subject: [PATCH 19/37] fix: asElementVector asserts that the nodes exist

It read out of bounds if the connectivity did not match the nodal vector.
---
 include/GooseFEM/Element.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/GooseFEM/Element.h b/include/GooseFEM/Element.h
index e7f7892..cfb4a3a 100644
--- a/include/GooseFEM/Element.h
+++ b/include/GooseFEM/Element.h
@@ -37,6 +37,8 @@ inline array_type::tensor<double, 3> asElementVector(
     size_t nne = conn.shape(1);
     size_t ndim = nodevec.shape(1);
 
+    GOOSEFEM_ASSERT(xt::amax(conn)() < nodevec.shape(0));
+
     array_type::tensor<double, 3> elemvec = xt::empty<double>({nelem, nne, ndim});
 
 #pragma omp parallel for
-- 
2.43.0


From a769676033d4e670a924535dadfba88d72cb5513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:22 +0000
Subject: [PATCH 20/37] fix: nodaltyings reads out of bounds for nodes that are
 partly tied

The assertion compared lists of different length.
---
 include/GooseFEM/Mesh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/GooseFEM/Mesh.h b/include/GooseFEM/Mesh.h
index eb95298..9ad7d73 100644
--- a/include/GooseFEM/Mesh.h
+++ b/include/GooseFEM/Mesh.h
@@ -2853,7 +2853,7 @@ inline std::vector<std::vector<size_t>> nodaltyings(const D& dofs)
         for (size_t i = 1; i < ndim; ++i) {
             auto t = nodemap[dofs(m, i)];
             std::sort(t.begin(), t.end());
-            GOOSEFEM_ASSERT(std::equal(r.begin(), r.end(), t.begin()));
+            GOOSEFEM_ASSERT(std::equal(r.begin(), r.end(), t.begin(), t.end()));
         }
 #endif
     }
-- 
2.43.0


From db68e08af21ae2ab9c04924cdc51433528a6292c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:22 +0000
Subject: [PATCH 21/37] fix: averageToCoarse asserts the shape of the weights

It read out of bounds if there were too few.
---
 include/GooseFEM/MeshQuad4.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/GooseFEM/MeshQuad4.h b/include/GooseFEM/MeshQuad4.h
index 91e6acc..7f2fa24 100644
--- a/include/GooseFEM/MeshQuad4.h
+++ b/include/GooseFEM/MeshQuad4.h
@@ -1255,6 +1255,7 @@ public:
     ) const
     {
         GOOSEFEM_ASSERT(data.shape(0) == m_coarse2fine.size());
+        GOOSEFEM_ASSERT(xt::has_shape(weights, data.shape()));
 
         std::array<size_t, rank> shape;
         std::copy(data.shape().cbegin(), data.shape().cend(), &shape[0]);
-- 
2.43.0


From 87b5bb4f6cdc7b9c1ccbce2be84851e73afbce0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:09 +0000
Subject: [PATCH 22/37] fix: FineLayer throws if the given mesh has another
 size

Comparing arrays of different shape terminated the program.
---
 include/GooseFEM/MeshQuad4.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/GooseFEM/MeshQuad4.h b/include/GooseFEM/MeshQuad4.h
index 7f2fa24..6c94e00 100644
--- a/include/GooseFEM/MeshQuad4.h
+++ b/include/GooseFEM/MeshQuad4.h
@@ -1046,6 +1046,7 @@ private:
 
         if (conn.shape(0) == 1) {
             this->init(1, 1, coor(conn(0, 1), 0) - coor(conn(0, 0), 0));
+            GOOSEFEM_CHECK(xt::has_shape(coor, {m_nnode, m_ndim}));
             GOOSEFEM_CHECK(xt::all(xt::equal(this->conn(), conn)));
             GOOSEFEM_CHECK(xt::allclose(this->coor(), coor));
             return;
@@ -1087,6 +1088,8 @@ private:
         size_t nely =
             static_cast<size_t>(std::round((coor(coor.shape(0) - 1, 1) - coor(0, 1)) / hx));
         this->init(nelx, nely, hx);
+        GOOSEFEM_CHECK(xt::has_shape(coor, {m_nnode, m_ndim}));
+        GOOSEFEM_CHECK(xt::has_shape(conn, {m_nelem, m_nne}));
         GOOSEFEM_CHECK(xt::all(xt::equal(this->conn(), conn)));
         GOOSEFEM_CHECK(xt::allclose(this->coor(), coor));
         GOOSEFEM_CHECK(
-- 
2.43.0


From 04da1abfa131ac0c5013bac81c17b309d4175a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:09 +0000
Subject: [PATCH 23/37] fix: getOrientation asserts that the nodes exist

It read out of bounds if the connectivity did not match the coordinates.
---
 include/GooseFEM/MeshTri3.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/GooseFEM/MeshTri3.h b/include/GooseFEM/MeshTri3.h
index 7212f04..33243cc 100644
--- a/include/GooseFEM/MeshTri3.h
+++ b/include/GooseFEM/MeshTri3.h
@@ -241,6 +241,7 @@ getOrientation(const array_type::tensor<double, 2>& coor, const array_type::tens
 {
     GOOSEFEM_ASSERT(conn.shape(1) == 3ul);
     GOOSEFEM_ASSERT(coor.shape(1) == 2ul);
+    GOOSEFEM_ASSERT(xt::amax(conn)() < coor.shape(0));
 
     double k;
     size_t nelem = conn.shape(0);
-- 
2.43.0


From 861ba30bf9073969048fe61a43036dadebe63f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:09 +0000
Subject: [PATCH 24/37] fix: elemmap2nodemap asserts that the elements exist

It read out of bounds for a map to elements beyond the connectivity.
---
 include/GooseFEM/Mesh.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/GooseFEM/Mesh.h b/include/GooseFEM/Mesh.h
index 9ad7d73..8da3611 100644
--- a/include/GooseFEM/Mesh.h
+++ b/include/GooseFEM/Mesh.h
@@ -2684,6 +2684,7 @@ elemmap2nodemap(const T& elem_map, const C& coor, const E& conn, ElementType typ
     if (type == ElementType::Quad4) {
         GOOSEFEM_ASSERT(coor.shape(1) == 2);
         GOOSEFEM_ASSERT(conn.shape(1) == 4);
+        GOOSEFEM_ASSERT(xt::amax(elem_map)() < conn.shape(0));
 
         for (size_t i = 0; i < 4; ++i) {
             array_type::tensor<size_t, 1> t = N * xt::ones<size_t>({N});
-- 
2.43.0


From 5acd08b43c0eaf8c11337b7b084b399962e35215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:09 +0000
Subject: [PATCH 25/37] fix: renumbering asserts that the numbers exist

Renumber, Reorder and the stitched meshes read out of bounds otherwise.
---
 include/GooseFEM/Mesh.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/GooseFEM/Mesh.h b/include/GooseFEM/Mesh.h
index 8da3611..91f9663 100644
--- a/include/GooseFEM/Mesh.h
+++ b/include/GooseFEM/Mesh.h
@@ -66,6 +66,8 @@ namespace detail {
 template <class T, class R>
 inline T renum(const T& arg, const R& mapping)
 {
+    GOOSEFEM_ASSERT(arg.size() == 0 || xt::amax(arg)() < mapping.size());
+
     T ret = T::from_shape(arg.shape());
 
     auto jt = ret.begin();
@@ -2426,6 +2428,8 @@ public:
     template <class T>
     T apply(const T& list) const
     {
+        GOOSEFEM_ASSERT(list.size() == 0 || xt::amax(list)() < m_renum.size());
+
         T ret = T::from_shape(list.shape());
 
         auto jt = ret.begin();
-- 
2.43.0


From 1be9d002f48c98101b3d843d1989816a22ee1258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:22 +0000
Subject: [PATCH 26/37] fix: stitching asserts that the nodes exist

ManualStitch and Vstack read and wrote out of bounds for nodes beyond the
coordinates.
---
 include/GooseFEM/Mesh.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/GooseFEM/Mesh.h b/include/GooseFEM/Mesh.h
index 91f9663..4d82d13 100644
--- a/include/GooseFEM/Mesh.h
+++ b/include/GooseFEM/Mesh.h
@@ -1788,6 +1788,10 @@ public:
         GOOSEFEM_ASSERT(xt::has_shape(overlapping_nodes_a, overlapping_nodes_b.shape()));
         GOOSEFEM_ASSERT(coor_a.shape(1) == coor_b.shape(1));
         GOOSEFEM_ASSERT(conn_a.shape(1) == conn_b.shape(1));
+        GOOSEFEM_ASSERT(xt::amax(conn_a)() < coor_a.shape(0));
+        GOOSEFEM_ASSERT(xt::amax(conn_b)() < coor_b.shape(0));
+        GOOSEFEM_ASSERT(xt::amax(overlapping_nodes_a)() < coor_a.shape(0));
+        GOOSEFEM_ASSERT(xt::amax(overlapping_nodes_b)() < coor_b.shape(0));
 
         if (check_position) {
             GOOSEFEM_CHECK(xt::allclose(
-- 
2.43.0


From e5e2a9f9f3b7d8c51110184a718efc0b6d89676a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:40 +0000
Subject: [PATCH 27/37] fix: ManualStitch writes out of bounds if a node is
 listed twice

The number of nodes that are kept was computed from the length of the list.
---
 include/GooseFEM/Mesh.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/GooseFEM/Mesh.h b/include/GooseFEM/Mesh.h
index 4d82d13..d52e0d2 100644
--- a/include/GooseFEM/Mesh.h
+++ b/include/GooseFEM/Mesh.h
@@ -1805,7 +1805,6 @@ public:
         size_t nnda = coor_a.shape(0);
         size_t nndb = coor_b.shape(0);
         size_t ndim = coor_a.shape(1);
-        size_t nelim = overlapping_nodes_a.size();
 
         size_t nela = conn_a.shape(0);
         size_t nelb = conn_b.shape(0);
@@ -1826,9 +1825,9 @@ public:
         xt::view(m_conn, xt::range(0, nela), xt::all()) = conn_a;
         xt::view(m_conn, xt::range(nela, nela + nelb), xt::all()) = detail::renum(conn_b, m_map_b);
 
-        m_coor = xt::empty<size_t>({nnda + nndb - nelim, ndim});
+        m_coor = xt::empty<size_t>({nnda + keep_b.size(), ndim});
         xt::view(m_coor, xt::range(0, nnda), xt::all()) = coor_a;
-        xt::view(m_coor, xt::range(nnda, nnda + nndb - nelim), xt::all()) =
+        xt::view(m_coor, xt::range(nnda, nnda + keep_b.size()), xt::all()) =
             xt::view(coor_b, xt::keep(keep_b), xt::all());
     }
 
-- 
2.43.0


From eec276e15d2ed8fcb10b0c46cb953551524849aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:50 +0000
Subject: [PATCH 28/37] fix: VectorPartitionedTyings asserts that the tyings
 match the DOFs

With fewer (in)dependent DOFs than there are DOFs asDofs_i and copy_p write and
read out of bounds.
---
 include/GooseFEM/VectorPartitionedTyings.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/GooseFEM/VectorPartitionedTyings.h b/include/GooseFEM/VectorPartitionedTyings.h
index 2f6a73a..1e4d8bf 100644
--- a/include/GooseFEM/VectorPartitionedTyings.h
+++ b/include/GooseFEM/VectorPartitionedTyings.h
@@ -108,6 +108,7 @@ public:
 
         GOOSEFEM_ASSERT(static_cast<size_t>(m_Cdi.cols()) == m_nni);
         GOOSEFEM_ASSERT(m_ndof == xt::amax(m_dofs)() + 1);
+        GOOSEFEM_ASSERT(m_ndof == m_nni + m_nnd);
     }
 
     /**
-- 
2.43.0


From fa1d3678ec1d3b02ffd6a93070537ad401935822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:50 +0000
Subject: [PATCH 29/37] fix: asDofs_i reads uninitialised values of dependent
 DOFs that no node has

---
 include/GooseFEM/VectorPartitionedTyings.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/GooseFEM/VectorPartitionedTyings.h b/include/GooseFEM/VectorPartitionedTyings.h
index 1e4d8bf..fc79366 100644
--- a/include/GooseFEM/VectorPartitionedTyings.h
+++ b/include/GooseFEM/VectorPartitionedTyings.h
@@ -59,7 +59,7 @@ private:
     {
         GOOSEFEM_ASSERT(xt::has_shape(nodevec, {m_nnode, m_ndim}));
 
-        Eigen::VectorXd dofval_d(m_nnd, 1);
+        Eigen::VectorXd dofval_d = Eigen::VectorXd::Zero(m_nnd, 1);
 
 #pragma omp parallel for
         for (size_t m = 0; m < m_nnode; ++m) {
-- 
2.43.0


From 0d43c33754d3377e6eb842a60b033eadcfc0a63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:50 +0000
Subject: [PATCH 30/37] fix: MatrixPartitionedTyings asserts that the nodes
 exist

---
 include/GooseFEM/MatrixPartitionedTyings.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/GooseFEM/MatrixPartitionedTyings.h b/include/GooseFEM/MatrixPartitionedTyings.h
index 1d8d354..32cf5f2 100644
--- a/include/GooseFEM/MatrixPartitionedTyings.h
+++ b/include/GooseFEM/MatrixPartitionedTyings.h
@@ -130,6 +130,7 @@ public:
         m_Adp.resize(m_nnd, m_nnp);
         m_Add.resize(m_nnd, m_nnd);
 
+        GOOSEFEM_ASSERT(xt::amax(m_conn)() + 1 <= m_nnode);
         GOOSEFEM_ASSERT(m_ndof <= m_nnode * m_ndim);
         GOOSEFEM_ASSERT(m_ndof == xt::amax(m_dofs)() + 1);
     }
-- 
2.43.0


From 3d2c92938253bf12de0d86f229390803d260de1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:54 +0000
Subject: [PATCH 31/37] fix: Tyings::Periodic asserts that prescribed, control,
 and independent DOFs are not dependent

The tying matrices were written out of bounds otherwise.
---
 include/GooseFEM/TyingsPeriodic.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/GooseFEM/TyingsPeriodic.h b/include/GooseFEM/TyingsPeriodic.h
index 0b0f555..73dcb64 100644
--- a/include/GooseFEM/TyingsPeriodic.h
+++ b/include/GooseFEM/TyingsPeriodic.h
@@ -109,6 +109,8 @@ public:
         U iii = xt::setdiff1d(dofs, iid);
         U iiu = xt::setdiff1d(iii, iip);
 
+        GOOSEFEM_ASSERT(xt::setdiff1d(iip, iid).size() == iip.size());
+
         m_nnu = iiu.size();
         m_nnp = iip.size();
         m_nni = iii.size();
@@ -118,6 +120,16 @@ public:
 
         m_dofs = reorder.apply(dofs);
         m_control = reorder.apply(control_dofs);
+
+        GOOSEFEM_ASSERT(xt::amax(m_control)() < m_nni);
+
+#ifdef GOOSEFEM_ENABLE_ASSERT
+        for (size_t i = 0; i < m_nties; ++i) {
+            for (size_t j = 0; j < m_ndim; ++j) {
+                GOOSEFEM_ASSERT(m_dofs(m_tyings(i, 0), j) < m_nni);
+            }
+        }
+#endif
     }
 
     /**
-- 
2.43.0


From 026e1cc538a5543e8cc473443b4f7afdc608a3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:25 +0000
Subject: [PATCH 32/37] fix: Vector: several threads write the same entries

A DOF can be shared by nodes, and a node by elements: converting in parallel is a data race
whose result depends on the schedule.
---
 include/GooseFEM/Vector.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/GooseFEM/Vector.h b/include/GooseFEM/Vector.h
index 7045da9..ec757d6 100644
--- a/include/GooseFEM/Vector.h
+++ b/include/GooseFEM/Vector.h
@@ -576,7 +576,6 @@ private:
 
         ret.fill(0.0);
 
-#pragma omp parallel for
         for (size_t m = 0; m < m_nnode; ++m) {
             for (size_t i = 0; i < m_ndim; ++i) {
                 ret(m_dofs(m, i)) = arg(m, i);
@@ -598,7 +597,6 @@ private:
 
         ret.fill(0.0);
 
-#pragma omp parallel for
         for (size_t e = 0; e < m_nelem; ++e) {
             for (size_t m = 0; m < m_nne; ++m) {
                 for (size_t i = 0; i < m_ndim; ++i) {
@@ -642,7 +640,6 @@ private:
 
         ret.fill(0.0);
 
-#pragma omp parallel for
         for (size_t e = 0; e < m_nelem; ++e) {
             for (size_t m = 0; m < m_nne; ++m) {
                 for (size_t i = 0; i < m_ndim; ++i) {
-- 
2.43.0


From 4f24e5ac221e911b213b7c9918525a89bc041f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:25 +0000
Subject: [PATCH 33/37] fix: VectorPartitioned: several threads write the same
 entries

A DOF can be shared by nodes, and a node by elements: converting in parallel is a data race
whose result depends on the schedule.
---
 include/GooseFEM/VectorPartitioned.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/include/GooseFEM/VectorPartitioned.h b/include/GooseFEM/VectorPartitioned.h
index b9dec50..bb273dc 100644
--- a/include/GooseFEM/VectorPartitioned.h
+++ b/include/GooseFEM/VectorPartitioned.h
@@ -485,7 +485,6 @@ public:
 
         dofval_u.fill(0.0);
 
-#pragma omp parallel for
         for (size_t m = 0; m < m_nnode; ++m) {
             for (size_t i = 0; i < m_ndim; ++i) {
                 if (m_part(m, i) < m_nnu) {
@@ -526,7 +525,6 @@ public:
 
         dofval_u.fill(0.0);
 
-#pragma omp parallel for
         for (size_t e = 0; e < m_nelem; ++e) {
             for (size_t m = 0; m < m_nne; ++m) {
                 for (size_t i = 0; i < m_ndim; ++i) {
@@ -606,7 +604,6 @@ public:
 
         dofval_p.fill(0.0);
 
-#pragma omp parallel for
         for (size_t m = 0; m < m_nnode; ++m) {
             for (size_t i = 0; i < m_ndim; ++i) {
                 if (m_part(m, i) >= m_nnu) {
@@ -647,7 +644,6 @@ public:
 
         dofval_p.fill(0.0);
 
-#pragma omp parallel for
         for (size_t e = 0; e < m_nelem; ++e) {
             for (size_t m = 0; m < m_nne; ++m) {
                 for (size_t i = 0; i < m_ndim; ++i) {
-- 
2.43.0


From fba92734da182a482fdf039781e030d9022292c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:25 +0000
Subject: [PATCH 34/37] fix: Matrix: several threads write the same entries

A DOF can be shared by nodes, and a node by elements: converting in parallel is a data race
whose result depends on the schedule.
---
 include/GooseFEM/Matrix.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/GooseFEM/Matrix.h b/include/GooseFEM/Matrix.h
index 39573d7..c30d6ee 100644
--- a/include/GooseFEM/Matrix.h
+++ b/include/GooseFEM/Matrix.h
@@ -839,7 +839,6 @@ private:
 
         Eigen::VectorXd dofval = Eigen::VectorXd::Zero(m_ndof, 1);
 
-#pragma omp parallel for
         for (size_t m = 0; m < m_nnode; ++m) {
             for (size_t i = 0; i < m_ndim; ++i) {
                 dofval(m_dofs(m, i)) = nodevec(m, i);
-- 
2.43.0


From f0a28949cae7f093a9c0fb127d6b5611e0ea77f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:25 +0000
Subject: [PATCH 35/37] fix: MatrixPartitioned: several threads write the same
 entries

A DOF can be shared by nodes, and a node by elements: converting in parallel is a data race
whose result depends on the schedule.
---
 include/GooseFEM/MatrixPartitioned.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/GooseFEM/MatrixPartitioned.h b/include/GooseFEM/MatrixPartitioned.h
index 896fb4c..a301db7 100644
--- a/include/GooseFEM/MatrixPartitioned.h
+++ b/include/GooseFEM/MatrixPartitioned.h
@@ -470,7 +470,6 @@ private:
 
         Eigen::VectorXd dofval_u = Eigen::VectorXd::Zero(m_nnu, 1);
 
-#pragma omp parallel for
         for (size_t m = 0; m < m_nnode; ++m) {
             for (size_t i = 0; i < m_ndim; ++i) {
                 if (m_part(m, i) < m_nnu) {
@@ -502,7 +501,6 @@ private:
 
         Eigen::VectorXd dofval_p = Eigen::VectorXd::Zero(m_nnp, 1);
 
-#pragma omp parallel for
         for (size_t m = 0; m < m_nnode; ++m) {
             for (size_t i = 0; i < m_ndim; ++i) {
                 if (m_part(m, i) >= m_nnu) {
-- 
2.43.0


From 30926c133f78006367f8af950c18153a55b0e466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:25 +0000
Subject: [PATCH 36/37] fix: MatrixPartitionedTyings: several threads write the
 same entries

A DOF can be shared by nodes, and a node by elements: converting in parallel is a data race
whose result depends on the schedule.
---
 include/GooseFEM/MatrixPartitionedTyings.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/GooseFEM/MatrixPartitionedTyings.h b/include/GooseFEM/MatrixPartitionedTyings.h
index 32cf5f2..e1b212f 100644
--- a/include/GooseFEM/MatrixPartitionedTyings.h
+++ b/include/GooseFEM/MatrixPartitionedTyings.h
@@ -432,7 +432,6 @@ private:
 
         Eigen::VectorXd dofval_u = Eigen::VectorXd::Zero(m_nnu, 1);
 
-#pragma omp parallel for
         for (size_t m = 0; m < m_nnode; ++m) {
             for (size_t i = 0; i < m_ndim; ++i) {
                 if (m_dofs(m, i) < m_nnu) {
@@ -464,7 +463,6 @@ private:
 
         Eigen::VectorXd dofval_p = Eigen::VectorXd::Zero(m_nnp, 1);
 
-#pragma omp parallel for
         for (size_t m = 0; m < m_nnode; ++m) {
             for (size_t i = 0; i < m_ndim; ++i) {
                 if (m_dofs(m, i) >= m_nnu && m_dofs(m, i) < m_nni) {
@@ -496,7 +494,6 @@ private:
 
         Eigen::VectorXd dofval_d = Eigen::VectorXd::Zero(m_nnd, 1);
 
-#pragma omp parallel for
         for (size_t m = 0; m < m_nnode; ++m) {
             for (size_t i = 0; i < m_ndim; ++i) {
                 if (m_dofs(m, i) >= m_nni) {
-- 
2.43.0


From bde742bb7d220a38e3eba5b07ad65720eac4959f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:25 +0000
Subject: [PATCH 37/37] fix: VectorPartitionedTyings: several threads write the
 same entries

A DOF can be shared by nodes, and a node by elements: converting in parallel is a data race
whose result depends on the schedule.
---
 include/GooseFEM/VectorPartitionedTyings.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/GooseFEM/VectorPartitionedTyings.h b/include/GooseFEM/VectorPartitionedTyings.h
index fc79366..84b2d31 100644
--- a/include/GooseFEM/VectorPartitionedTyings.h
+++ b/include/GooseFEM/VectorPartitionedTyings.h
@@ -61,7 +61,6 @@ private:
 
         Eigen::VectorXd dofval_d = Eigen::VectorXd::Zero(m_nnd, 1);
 
-#pragma omp parallel for
         for (size_t m = 0; m < m_nnode; ++m) {
             for (size_t i = 0; i < m_ndim; ++i) {
                 if (m_dofs(m, i) >= m_nni) {
@@ -229,7 +228,6 @@ public:
 
         dofval_i.fill(0.0);
 
-#pragma omp parallel for
         for (size_t m = 0; m < m_nnode; ++m) {
             for (size_t i = 0; i < m_ndim; ++i) {
                 if (m_dofs(m, i) < m_nni) {
-- 
2.43.0


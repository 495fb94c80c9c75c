From 5038327216edfca750ae895824d95f93c7b915bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:14 +0000
Subject: [PATCH 01/24] fix: Parabolic::make_initial truncates the initial time
 to an index type

---
 include/HyperHDG/global_loop/parabolic.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HyperHDG/global_loop/parabolic.hxx b/include/HyperHDG/global_loop/parabolic.hxx
index 0c714c9..87405ea 100644
--- a/include/HyperHDG/global_loop/parabolic.hxx
+++ b/include/HyperHDG/global_loop/parabolic.hxx
@@ -345,7 +345,7 @@ class Parabolic
    * \retval  y_vec         A vector containing the initial fluxes.
    ************************************************************************************************/
   template <typename hyNode_index_t = dof_index_t>
-  LargeVecT make_initial(const LargeVecT& x_vec, const dof_index_t time = 0.)
+  LargeVecT make_initial(const LargeVecT& x_vec, const dof_value_t time = 0.)
   {
     constexpr unsigned int hyEdge_dim = TopologyT::hyEdge_dim();
     constexpr unsigned int n_dofs_per_node = LocalSolverT::n_glob_dofs_per_node();
-- 
2.43.0


From 029503cd32878f0fdc3b85a0c7e59193312c5ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:21 +0000
Subject: [PATCH 02/24] fix: dirichlet_indices() of the eigenvalue loops keeps
 indices of an earlier refinement

---
 include/HyperHDG/global_loop/mass_approx_eigenvalue.hxx     | 1 +
 include/HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/HyperHDG/global_loop/mass_approx_eigenvalue.hxx b/include/HyperHDG/global_loop/mass_approx_eigenvalue.hxx
index 84ed712..fe0a4b6 100644
--- a/include/HyperHDG/global_loop/mass_approx_eigenvalue.hxx
+++ b/include/HyperHDG/global_loop/mass_approx_eigenvalue.hxx
@@ -144,6 +144,7 @@ class MassApproxEigenvalue
     std::array<dof_index_t, LocalSolverT::n_glob_dofs_per_node()> dof_indices;
     SmallVec<2 * hyEdge_dim, hyNode_index_t> hyEdge_hyNodes;
     std::array<unsigned int, 2 * hyEdge_dim> hyNode_types;
+    dirichlet_indices_.clear();
 
     std::for_each(hyper_graph_.begin(), hyper_graph_.end(),
                   [&](auto hyper_edge)
diff --git a/include/HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx b/include/HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx
index d88558f..7f0389b 100644
--- a/include/HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx
+++ b/include/HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx
@@ -140,6 +140,7 @@ class ShiftedInverseEigenvalue
     std::array<dof_index_t, LocalSolverT::n_glob_dofs_per_node()> dof_indices;
     SmallVec<2 * hyEdge_dim, hyNode_index_t> hyEdge_hyNodes;
     std::array<unsigned int, 2 * hyEdge_dim> hyNode_types;
+    dirichlet_indices_.clear();
 
     std::for_each(hyper_graph_.begin(), hyper_graph_.end(),
                   [&](auto hyper_edge)
-- 
2.43.0


From 27648e4651fbb67783b092cc6f840b5d657ee8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:15 +0000
Subject: [PATCH 03/24] fix: epsilon neighborhood graph misses pairs of points
 at distance epsilon

The documentation of the format (domains/triangle.pts) connects points whose distance is below or
equal to epsilon; with the strict comparison the triangle of that file had only two edges.
---
 include/HyperHDG/epsilon_neighborhood_graph.hxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/HyperHDG/epsilon_neighborhood_graph.hxx b/include/HyperHDG/epsilon_neighborhood_graph.hxx
index be6b2f0..0aee026 100644
--- a/include/HyperHDG/epsilon_neighborhood_graph.hxx
+++ b/include/HyperHDG/epsilon_neighborhood_graph.hxx
@@ -102,9 +102,9 @@ void make_epsilon_neighborhood_graph(std::string& filename)
     index = search.front();
     search.pop_front();
     for (index_t ind = index;
-         ind >= 0 && ind < points.size() && std::abs(points[index][0] - points[ind][0]) < epsilon;
+         ind >= 0 && ind < points.size() && std::abs(points[index][0] - points[ind][0]) <= epsilon;
          --ind)
-      if (norm_2(points[index] - points[ind]) < epsilon && ind != index &&
+      if (norm_2(points[index] - points[ind]) <= epsilon && ind != index &&
           (!bool_vec[ind] || std::find(search.begin(), search.end(), ind) != search.end()))
       {
         if (!bool_vec[ind])
@@ -113,9 +113,9 @@ void make_epsilon_neighborhood_graph(std::string& filename)
         connections.push_back(Pair(index, ind));
       }
     for (index_t ind = index;
-         ind >= 0 && ind < points.size() && std::abs(points[index][0] - points[ind][0]) < epsilon;
+         ind >= 0 && ind < points.size() && std::abs(points[index][0] - points[ind][0]) <= epsilon;
          ++ind)
-      if (norm_2(points[index] - points[ind]) < epsilon && ind != index &&
+      if (norm_2(points[index] - points[ind]) <= epsilon && ind != index &&
           (!bool_vec[ind] || std::find(search.begin(), search.end(), ind) != search.end()))
       {
         if (!bool_vec[ind])
-- 
2.43.0


From 197ff5801200ecd4fec17af3f7cb6099895b409e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:15 +0000
Subject: [PATCH 04/24] fix: epsilon neighborhood graph writes points with six
 digits only

Coordinates that need more digits were changed, and distinct points could become equal.
---
 include/HyperHDG/epsilon_neighborhood_graph.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/HyperHDG/epsilon_neighborhood_graph.hxx b/include/HyperHDG/epsilon_neighborhood_graph.hxx
index 0aee026..5addc55 100644
--- a/include/HyperHDG/epsilon_neighborhood_graph.hxx
+++ b/include/HyperHDG/epsilon_neighborhood_graph.hxx
@@ -5,6 +5,7 @@
 #include <algorithm>
 #include <deque>
 #include <fstream>
+#include <limits>
 #include <sstream>
 #include <string>
 
@@ -128,6 +129,7 @@ void make_epsilon_neighborhood_graph(std::string& filename)
   infile.close();
   filename = filename + ".geo";
   std::ofstream outfile(filename);
+  outfile.precision(std::numeric_limits<float_t>::max_digits10);
 
   outfile << "Space_Dim     = " << dim << ";" << std::endl;
   outfile << "HyperEdge_Dim = 1;" << std::endl << std::endl;
-- 
2.43.0


From 8c3e5655682dfce96ae59f18c5b6213b1167980c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:37 +0000
Subject: [PATCH 05/24] fix: domain files with incomplete rows are accepted

A row with missing entries silently took the entries of the row before it (points) or zeros
(indices) instead of being refused.
---
 include/HyperHDG/epsilon_neighborhood_graph.hxx | 1 +
 include/HyperHDG/read_domain.hxx                | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/include/HyperHDG/epsilon_neighborhood_graph.hxx b/include/HyperHDG/epsilon_neighborhood_graph.hxx
index 5addc55..b04afed 100644
--- a/include/HyperHDG/epsilon_neighborhood_graph.hxx
+++ b/include/HyperHDG/epsilon_neighborhood_graph.hxx
@@ -87,6 +87,7 @@ void make_epsilon_neighborhood_graph(std::string& filename)
     linestream = std::istringstream(line);
     for (unsigned int dimension = 0; dimension < dim; ++dimension)
       linestream >> pt[dimension];
+    hy_assert(!linestream.fail(), "A point in " << filename << " is incomplete!");
     points.push_back(pt);
   }
 
diff --git a/include/HyperHDG/read_domain.hxx b/include/HyperHDG/read_domain.hxx
index 341f317..f8f7c14 100644
--- a/include/HyperHDG/read_domain.hxx
+++ b/include/HyperHDG/read_domain.hxx
@@ -276,6 +276,7 @@ read_domain_geo(const std::string& filename)
     linestream = std::istringstream(line);
     for (unsigned int dim = 0; dim < space_dim; ++dim)
       linestream >> pt[dim];
+    hy_assert(!linestream.fail(), "A point in " << filename << " is incomplete!");
     domain_info.points[pt_iter] = pt;
   }
 
@@ -296,6 +297,7 @@ read_domain_geo(const std::string& filename)
     linestream = std::istringstream(line);
     for (unsigned int i = 0; i < domain_info.hyNodes_hyEdge[hyEdge_iter].size(); ++i)
       linestream >> domain_info.hyNodes_hyEdge[hyEdge_iter][i];
+    hy_assert(!linestream.fail(), "A line of HYPERNODES_OF_HYPEREDGES in " << filename << " is incomplete!");
   }
 
   hy_assert(hyEdge_iter == N_HyperEdges, "Not all hyperedges have been added to the list!");
@@ -315,6 +317,7 @@ read_domain_geo(const std::string& filename)
     linestream = std::istringstream(line);
     for (unsigned int i = 0; i < domain_info.hyFaces_hyEdge[hyEdge_iter].size(); ++i)
       linestream >> domain_info.hyFaces_hyEdge[hyEdge_iter][i];
+    hy_assert(!linestream.fail(), "A line of TYPES_OF_HYPERFACES in " << filename << " is incomplete!");
   }
 
   hy_assert(hyEdge_iter == N_HyperEdges, "Not all hyperedges have been added to the list!");
@@ -334,6 +337,7 @@ read_domain_geo(const std::string& filename)
     linestream = std::istringstream(line);
     for (unsigned int i = 0; i < domain_info.points_hyEdge[hyEdge_iter].size(); ++i)
       linestream >> domain_info.points_hyEdge[hyEdge_iter][i];
+    hy_assert(!linestream.fail(), "A line of POINTS_OF_HYPEREDGES in " << filename << " is incomplete!");
   }
 
   hy_assert(hyEdge_iter == N_HyperEdges, "Not all hyperedges have been added to the list!");
@@ -363,6 +367,7 @@ read_domain_geo(const std::string& filename)
     domain_info.hyEdge_properties[hyEdge_iter].resize(domain_info.n_properties);
     for (unsigned int i = 0; i < domain_info.hyEdge_properties[hyEdge_iter].size(); ++i)
       linestream >> domain_info.hyEdge_properties[hyEdge_iter][i];
+    hy_assert(!linestream.fail(), "A line of HYPEREDGE_PROPERTIES in " << filename << " is incomplete!");
   }
 
   hy_assert(hyEdge_iter == N_HyperEdges, "Not all hyperedges have been added to the list!");
-- 
2.43.0


From 240b54109cd45b532b99005cb56b8dd50c85f433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:30 +0000
Subject: [PATCH 06/24] fix: reduced R of a QR decomposition keeps old entries
 below the diagonal

---
 include/HyperHDG/wrapper/lapack.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HyperHDG/wrapper/lapack.hxx b/include/HyperHDG/wrapper/lapack.hxx
index 2703052..8102435 100644
--- a/include/HyperHDG/wrapper/lapack.hxx
+++ b/include/HyperHDG/wrapper/lapack.hxx
@@ -547,7 +547,7 @@ inline void get_r_from_lapack_qr_result(
   for (unsigned int i = 0; i < n_cols; ++i)    // i is column index, here!
     for (unsigned int j = 0; j < n_cols; ++j)  // j is row index, here!
       if (j > i)
-        mat_r[i * n_rows + j] = 0.;
+        mat_r[i * n_cols + j] = 0.;
       else
         mat_r[i * n_cols + j] = lapack_mat[i * n_rows + j];
 }
-- 
2.43.0


From 0fd50c158ff02dfa00729722f8063bf008d913ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:30 +0000
Subject: [PATCH 07/24] fix: mat_times_transposed_mat multiplies the transposed
 matrices

---
 include/HyperHDG/dense_la.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/HyperHDG/dense_la.hxx b/include/HyperHDG/dense_la.hxx
index 862a8a8..1fd453f 100644
--- a/include/HyperHDG/dense_la.hxx
+++ b/include/HyperHDG/dense_la.hxx
@@ -741,11 +741,11 @@ SmallMat<n_rowsA, n_rowsB, mat_entry_t> mat_times_transposed_mat(
   const SmallMat<n_rowsA, n_colsA, mat_entry_t>& A,
   const SmallMat<n_rowsB, n_colsA, mat_entry_t>& B)
 {
-  SmallMat<n_colsA, n_rowsB, mat_entry_t> result;
+  SmallMat<n_rowsA, n_rowsB, mat_entry_t> result;
   for (unsigned int rowB = 0; rowB < n_rowsB; ++rowB)
     for (unsigned int colA = 0; colA < n_colsA; ++colA)
       for (unsigned int rowA = 0; rowA < n_rowsA; ++rowA)
-        result(colA, rowB) += A(rowA, colA) * B(rowB, rowA);
+        result(rowA, rowB) += A(rowA, colA) * B(rowB, colA);
   return result;
 }
 
-- 
2.43.0


From 86d77c6bd94dca11d6c392a5ac98a820661e03c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:43 +0000
Subject: [PATCH 08/24] fix: determinant of square matrices has the wrong sign

---
 include/HyperHDG/wrapper/lapack.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/HyperHDG/wrapper/lapack.hxx b/include/HyperHDG/wrapper/lapack.hxx
index 8102435..bfa6f43 100644
--- a/include/HyperHDG/wrapper/lapack.hxx
+++ b/include/HyperHDG/wrapper/lapack.hxx
@@ -399,7 +399,8 @@ lapack_float_t lapack_det(std::array<lapack_float_t, n_rows * n_cols>& dense_mat
 
   lapack_float_t determinant = 1.;
   for (unsigned int i = 0; i < rank; ++i)
-    determinant *= -dense_mat[i * (n_rows + 1)];
+    // Householder reflections have determinant -1, but LAPACK omits those that are not necessary!
+    determinant *= (tau[i] == 0.) ? dense_mat[i * (n_rows + 1)] : -dense_mat[i * (n_rows + 1)];
   return determinant;
 }
 
-- 
2.43.0


From e3ada1e25877749677fde2c686d4a6c7fea6725b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:43 +0000
Subject: [PATCH 09/24] fix: lapack_qr_decomp_r cannot be instantiated

---
 include/HyperHDG/wrapper/lapack.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HyperHDG/wrapper/lapack.hxx b/include/HyperHDG/wrapper/lapack.hxx
index bfa6f43..968f6d7 100644
--- a/include/HyperHDG/wrapper/lapack.hxx
+++ b/include/HyperHDG/wrapper/lapack.hxx
@@ -587,7 +587,7 @@ std::array<lapack_float_t, n_rows * n_cols>& lapack_qr_decomp_r(
   constexpr unsigned int rank = std::min(n_rows, n_cols);
   std::array<lapack_float_t, rank> tau;
   lapack_qr(n_rows, n_cols, dense_mat.data(), tau.data());
-  return get_r_from_lapack_qr_result<n_rows, n_cols, rank, lapack_float_t>(dense_mat);
+  return get_r_from_lapack_qr_result<n_rows, n_cols, lapack_float_t>(dense_mat);
 }
 
 // -------------------------------------------------------------------------------------------------
-- 
2.43.0


From 1efd4a4b83835847f4f0ca46dd2217639941d4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:06 +0000
Subject: [PATCH 10/24] fix: qr_decomp returns a matrix R that does not belong
 to Q

---
 include/HyperHDG/dense_la.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/HyperHDG/dense_la.hxx b/include/HyperHDG/dense_la.hxx
index 1fd453f..ff532b5 100644
--- a/include/HyperHDG/dense_la.hxx
+++ b/include/HyperHDG/dense_la.hxx
@@ -1104,7 +1104,10 @@ void qr_decomp(SmallMat<n_rows, n_cols, mat_entry_t>& mat,
   for (unsigned int i = 0; i < n_cols; ++i)
     if (factors[i] < 0.)
       for (unsigned int j = 0; j < n_cols; ++j)
+      {
         mat_r(i, j) *= factors[i];
+        mat(i, j) *= factors[i];
+      }
 }
 /*!*************************************************************************************************
  * \brief   Normalized QR decomposition.
-- 
2.43.0


From 5d07359de7978b7fad26c58f034bd870fa91c08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:14 +0000
Subject: [PATCH 11/24] fix: plot of edge boundaries passes wrong point indices

boundary_lexicographic() expects an index counting the points of all boundaries. With the index local
to one boundary, the difference is negative and its conversion to unsigned int is undefined.
---
 include/HyperHDG/plot.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/HyperHDG/plot.hxx b/include/HyperHDG/plot.hxx
index 60ef102..f897f96 100644
--- a/include/HyperHDG/plot.hxx
+++ b/include/HyperHDG/plot.hxx
@@ -421,7 +421,8 @@ void plot_vtu_unstructured_geometry(std::ostream& output,
           output << "        ";
           const Point<space_dim> point =
             (Point<space_dim>)edge.template boundary_lexicographic<n_subpoints>(
-              pt_number, boundary, plot_options.boundary_scale, boundary_sub_points);
+              boundary * points_per_boundary + pt_number, boundary, plot_options.boundary_scale,
+              boundary_sub_points);
 
           if (he_number == 0)
             for (unsigned int dim = 0; dim < space_dim; ++dim)
-- 
2.43.0


From f24fb4c27b99237c66fb8afcd0b3e81be896f436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:14 +0000
Subject: [PATCH 12/24] fix: plotted boundary values are not padded for every
 point

The padding components have been written once per boundary and not once per point of the boundary, so
that the data array was too short for faces with more than one corner.
---
 include/HyperHDG/plot.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/HyperHDG/plot.hxx b/include/HyperHDG/plot.hxx
index f897f96..5dbcf79 100644
--- a/include/HyperHDG/plot.hxx
+++ b/include/HyperHDG/plot.hxx
@@ -676,10 +676,10 @@ void plot_boundary_values(HyperGraphT& hyper_graph,
         myfile << "  ";
         for (unsigned int d = 0; d < LocalSolverT::node_system_dimension(); ++d)
           myfile << "  " << local_values[d][corner];  // AR: I switched d and corner!?
+        for (unsigned int d = LocalSolverT::node_system_dimension();
+             d < LocalSolverT::system_dimension(); ++d)
+          myfile << "  " << 0;  // AR: I switched d and corner!?
       }
-      for (unsigned int d = LocalSolverT::node_system_dimension();
-           d < LocalSolverT::system_dimension(); ++d)
-        myfile << "  " << 0;  // AR: I switched d and corner!?
       myfile << std::endl;
     }
   }
-- 
2.43.0


From db775204a7fcd88b9facfe636472ff9ef686ba17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:14 +0000
Subject: [PATCH 13/24] fix: set_plot_option does not return the file ending

Assigning the enumerator to the string yielded a string of a single null character.
---
 include/HyperHDG/plot.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HyperHDG/plot.hxx b/include/HyperHDG/plot.hxx
index 5dbcf79..77d4b85 100644
--- a/include/HyperHDG/plot.hxx
+++ b/include/HyperHDG/plot.hxx
@@ -161,7 +161,7 @@ std::string set_plot_option(PlotOptions& plot_options,
   else if (option == "fileName")
     return_value = plot_options.fileName;
   else if (option == "fileEnding")
-    return_value = plot_options.fileEnding;
+    return_value = "vtu";  // Only possible value of plot_options.fileEnding.
   else if (option == "fileNumber")
     return_value = std::to_string(plot_options.fileNumber);
   else if (option == "printFileNumber")
-- 
2.43.0


From 8588a26f9a9e46a2a4f8536dfc7ed8555bfb9e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:39 +0000
Subject: [PATCH 14/24] fix: interior penalty solver evaluates face terms of
 the diffusion coefficient at time zero

---
 include/HyperHDG/local_solver/diffusion_ip.hxx | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/HyperHDG/local_solver/diffusion_ip.hxx b/include/HyperHDG/local_solver/diffusion_ip.hxx
index da65b80..0465a2e 100644
--- a/include/HyperHDG/local_solver/diffusion_ip.hxx
+++ b/include/HyperHDG/local_solver/diffusion_ip.hxx
@@ -390,12 +390,14 @@ class DiffusionIP
    * \tparam  hyEdgeT       The geometry type / typename of the considered hyEdge's geometry.
    * \param   coeffs        Coefficients of the local solution.
    * \param   hyper_edge    The geometry of the considered hyperedge (of typename GeomT).
+   * \param   time          Time at which the diffusion coefficient is evaluated.
    * \retval  bdr_coeffs    Coefficients of respective (dim-1) dimensional function at boundaries.
    ************************************************************************************************/
   template <typename hyEdgeT>
   inline SmallMat<2 * hyEdge_dimT, n_shape_bdr_, lSol_float_t> dual_at_boundary(
     const SmallVec<n_loc_dofs_, lSol_float_t>& coeffs,
-    hyEdgeT& hyper_edge) const;
+    hyEdgeT& hyper_edge,
+    const lSol_float_t time) const;
 
  public:
   // -----------------------------------------------------------------------------------------------
@@ -450,7 +452,7 @@ class DiffusionIP
 
     SmallMat<2 * hyEdge_dimT, n_shape_bdr_, lSol_float_t> primals(
       primal_at_boundary(coeffs, hyper_edge)),
-      duals(dual_at_boundary(coeffs, hyper_edge));
+      duals(dual_at_boundary(coeffs, hyper_edge, time));
 
     for (unsigned int i = 0; i < lambda_values_out.size(); ++i)
       if (is_dirichlet<parameters>(hyper_edge.node_descriptor[i]))
@@ -514,7 +516,7 @@ class DiffusionIP
 
     SmallMat<2 * hyEdge_dimT, n_shape_bdr_, lSol_float_t> primals(
       primal_at_boundary(coeffs, hyper_edge)),
-      duals(dual_at_boundary(coeffs, hyper_edge));
+      duals(dual_at_boundary(coeffs, hyper_edge, time));
 
     for (unsigned int i = 0; i < lambda_values_out.size(); ++i)
     {
@@ -633,7 +635,7 @@ DiffusionIP<hyEdge_dimT, poly_deg, quad_deg, parametersT, lSol_float_t>::assembl
         local_mat(i, j) -= integrator::template integrate_bdr_nablaphiphinufunc<
           Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
           decltype(hyEdgeT::geometry), parameters::diffusion_coeff,
-          Point<hyEdge_dimT, lSol_float_t> >(j, i, face, hyper_edge.geometry);
+          Point<hyEdge_dimT, lSol_float_t> >(j, i, face, hyper_edge.geometry, time);
       }
     }
   }
@@ -795,7 +797,8 @@ inline SmallMat<
   lSol_float_t>
 DiffusionIP<hyEdge_dimT, poly_deg, quad_deg, parametersT, lSol_float_t>::dual_at_boundary(
   const SmallVec<n_loc_dofs_, lSol_float_t>& coeffs,
-  hyEdgeT& hyper_edge) const
+  hyEdgeT& hyper_edge,
+  const lSol_float_t time) const
 {
   using parameters = parametersT<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>;
   SmallMat<2 * hyEdge_dimT, n_shape_bdr_, lSol_float_t> bdr_values;
@@ -807,7 +810,7 @@ DiffusionIP<hyEdge_dimT, poly_deg, quad_deg, parametersT, lSol_float_t>::dual_at
           integrator::template integrate_bdr_nablaphipsinufunc<
             Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
             decltype(hyEdgeT::geometry), parameters::diffusion_coeff,
-            Point<hyEdge_dimT, lSol_float_t> >(i, j, face, hyper_edge.geometry) *
+            Point<hyEdge_dimT, lSol_float_t> >(i, j, face, hyper_edge.geometry, time) *
           coeffs[i];
 
   return bdr_values;
-- 
2.43.0


From c8edebee4a300277b5dd576d05a8041287b1210f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:38 +0000
Subject: [PATCH 15/24] fix: residual fluxes of the bilaplacian solvers
 subtract the trace of their own unknown

---
 include/HyperHDG/local_solver/bilaplacian_ldgh.hxx       | 6 ++++--
 include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/HyperHDG/local_solver/bilaplacian_ldgh.hxx b/include/HyperHDG/local_solver/bilaplacian_ldgh.hxx
index 92f174e..14898cf 100644
--- a/include/HyperHDG/local_solver/bilaplacian_ldgh.hxx
+++ b/include/HyperHDG/local_solver/bilaplacian_ldgh.hxx
@@ -600,8 +600,10 @@ class Bilaplacian
     for (unsigned int i = 0; i < lambda_values_out.size(); ++i)
     {
       for (unsigned int j = 0; j < lambda_values_out[i].size(); ++j)
-        lambda_values_out[i][j] = duals[i][j] + tau_ * primals[i][j] -
-                                  tau_ * lambda_values_in[i][j] * hyper_edge.geometry.face_area(i);
+        lambda_values_out[i][j] =
+          duals[i][j] + tau_ * primals[i][j] -
+          tau_ * lambda_values_in[i][j < n_shape_bdr_ ? j + n_shape_bdr_ : j - n_shape_bdr_] *
+            hyper_edge.geometry.face_area(i);
       if (is_dirichlet<parameters>(hyper_edge.node_descriptor[i]))
         for (unsigned int j = 0; j < lambda_values_out[i].size() / 2; ++j)
           lambda_values_out[i][j] = 0.;
diff --git a/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx b/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
index 9c02638..9c0179f 100644
--- a/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
+++ b/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
@@ -541,8 +541,10 @@ class BilaplacianParab
     for (unsigned int i = 0; i < lambda_values_out.size(); ++i)
     {
       for (unsigned int j = 0; j < lambda_values_out[i].size(); ++j)
-        lambda_values_out[i][j] = duals[i][j] + tau_ * primals[i][j] -
-                                  tau_ * lambda_values_in[i][j] * hyper_edge.geometry.face_area(i);
+        lambda_values_out[i][j] =
+          duals[i][j] + tau_ * primals[i][j] -
+          tau_ * lambda_values_in[i][j < n_shape_bdr_ ? j + n_shape_bdr_ : j - n_shape_bdr_] *
+            hyper_edge.geometry.face_area(i);
       if (is_dirichlet<parameters>(hyper_edge.node_descriptor[i]))
         for (unsigned int j = 0; j < lambda_values_out[i].size() / 2; ++j)
           lambda_values_out[i][j] = 0.;
-- 
2.43.0


From 48c5eebbc670d3cd661948ca56d0c9da596873cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:38 +0000
Subject: [PATCH 16/24] fix: bilaplacian residuals use prescribed values in the
 stabilization of faces with one free unknown

---
 .../HyperHDG/local_solver/bilaplacian_ldgh.hxx  | 17 +++++++++++++++++
 .../local_solver/bilaplacian_parab_ldgh.hxx     | 17 +++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/include/HyperHDG/local_solver/bilaplacian_ldgh.hxx b/include/HyperHDG/local_solver/bilaplacian_ldgh.hxx
index 14898cf..937c0af 100644
--- a/include/HyperHDG/local_solver/bilaplacian_ldgh.hxx
+++ b/include/HyperHDG/local_solver/bilaplacian_ldgh.hxx
@@ -604,6 +604,23 @@ class Bilaplacian
           duals[i][j] + tau_ * primals[i][j] -
           tau_ * lambda_values_in[i][j < n_shape_bdr_ ? j + n_shape_bdr_ : j - n_shape_bdr_] *
             hyper_edge.geometry.face_area(i);
+      // Prescribed values are no skeletal unknowns, but enter the stabilization of their fluxes.
+      if (is_dirichlet<parameters>(hyper_edge.node_descriptor[i]))
+        for (unsigned int j = 0; j < n_shape_bdr_; ++j)
+          lambda_values_out[i][n_shape_bdr_ + j] -=
+            tau_ * hyper_edge.geometry.face_area(i) *
+            integrator::template integrate_bdrUni_psifunc<
+              Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
+              decltype(hyEdgeT::geometry), parameters::dirichlet_value,
+              Point<hyEdge_dimT, lSol_float_t>>(j, i, hyper_edge.geometry, time);
+      if (is_dirichlet_laplacian<parameters>(hyper_edge.node_descriptor[i]))
+        for (unsigned int j = 0; j < n_shape_bdr_; ++j)
+          lambda_values_out[i][j] -=
+            tau_ * hyper_edge.geometry.face_area(i) *
+            integrator::template integrate_bdrUni_psifunc<
+              Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
+              decltype(hyEdgeT::geometry), parameters::dirichlet_laplace_value,
+              Point<hyEdge_dimT, lSol_float_t>>(j, i, hyper_edge.geometry, time);
       if (is_dirichlet<parameters>(hyper_edge.node_descriptor[i]))
         for (unsigned int j = 0; j < lambda_values_out[i].size() / 2; ++j)
           lambda_values_out[i][j] = 0.;
diff --git a/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx b/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
index 9c0179f..640a646 100644
--- a/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
+++ b/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
@@ -545,6 +545,23 @@ class BilaplacianParab
           duals[i][j] + tau_ * primals[i][j] -
           tau_ * lambda_values_in[i][j < n_shape_bdr_ ? j + n_shape_bdr_ : j - n_shape_bdr_] *
             hyper_edge.geometry.face_area(i);
+      // Prescribed values are no skeletal unknowns, but enter the stabilization of their fluxes.
+      if (is_dirichlet<parameters>(hyper_edge.node_descriptor[i]))
+        for (unsigned int j = 0; j < n_shape_bdr_; ++j)
+          lambda_values_out[i][n_shape_bdr_ + j] -=
+            tau_ * hyper_edge.geometry.face_area(i) *
+            integrator::template integrate_bdrUni_psifunc<
+              Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
+              decltype(hyEdgeT::geometry), parameters::dirichlet_value,
+              Point<hyEdge_dimT, lSol_float_t>>(j, i, hyper_edge.geometry, time);
+      if (is_dirichlet_laplacian<parameters>(hyper_edge.node_descriptor[i]))
+        for (unsigned int j = 0; j < n_shape_bdr_; ++j)
+          lambda_values_out[i][j] -=
+            tau_ * hyper_edge.geometry.face_area(i) *
+            integrator::template integrate_bdrUni_psifunc<
+              Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
+              decltype(hyEdgeT::geometry), parameters::dirichlet_laplace_value,
+              Point<hyEdge_dimT, lSol_float_t>>(j, i, hyper_edge.geometry, time);
       if (is_dirichlet<parameters>(hyper_edge.node_descriptor[i]))
         for (unsigned int j = 0; j < lambda_values_out[i].size() / 2; ++j)
           lambda_values_out[i][j] = 0.;
-- 
2.43.0


From 03301c8fae6d694dbf7a278d46a2eeb262da284b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:38 +0000
Subject: [PATCH 17/24] fix: initial values of bilaplacian solvers used wrong
 indices of face and shape function

---
 include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx  | 2 +-
 include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx b/include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx
index ab8b42a..ddd985d 100644
--- a/include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx
+++ b/include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx
@@ -484,7 +484,7 @@ class BilaplacianEigs
           lambda_values[i][j] = integrator::template integrate_bdrUni_psifunc<
             Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
             decltype(hyEdgeT::geometry), parameters::initial_laplace,
-            Point<hyEdge_dimT, lSol_float_t> >(j, i, hyper_edge.geometry, time);
+            Point<hyEdge_dimT, lSol_float_t> >(j - n_shape_bdr_, i, hyper_edge.geometry, time);
       }
     }
 
diff --git a/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx b/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
index 640a646..ae659c0 100644
--- a/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
+++ b/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
@@ -619,12 +619,12 @@ class BilaplacianParab
           lambda_values[i][j] = integrator::template integrate_bdrUni_psifunc<
             Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
             decltype(hyEdgeT::geometry), parameters::initial, Point<hyEdge_dimT, lSol_float_t>>(
-            i, j, hyper_edge.geometry, time);
+            j, i, hyper_edge.geometry, time);
         for (unsigned int j = lambda_values[i].size() / 2; j < lambda_values[i].size(); ++j)
           lambda_values[i][j] = integrator::template integrate_bdrUni_psifunc<
             Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
             decltype(hyEdgeT::geometry), parameters::initial_laplace,
-            Point<hyEdge_dimT, lSol_float_t>>(i, j, hyper_edge.geometry, time);
+            Point<hyEdge_dimT, lSol_float_t>>(j - n_shape_bdr_, i, hyper_edge.geometry, time);
       }
     }
 
-- 
2.43.0


From a1fdd1f280e329016bde4b5d1038e855817b701a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:27 +0000
Subject: [PATCH 18/24] fix: advection-diffusion-reaction solver evaluates the
 advective velocity at the given time

---
 .../HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx b/include/HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx
index e57447d..574319d 100644
--- a/include/HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx
+++ b/include/HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx
@@ -998,7 +998,7 @@ DiffusionAdvectionReaction<hyEdge_dimT, poly_deg, quad_deg, parametersT, lSol_fl
           integrator::template integrate_vol_phiphivecfunc<
             Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
             decltype(hyEdgeT::geometry), parameters::advective_velocity,
-            Point<hyEdge_dimT, lSol_float_t> >(i, j, dim, hyper_edge.geometry);
+            Point<hyEdge_dimT, lSol_float_t> >(i, j, dim, hyper_edge.geometry, time);
       }
     }
   }
-- 
2.43.0


From 8d60dc9066c591b556dd9f55bcd896fcfd80c145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:16 +0000
Subject: [PATCH 19/24] fix: include files of one configuration leaked into all
 other configurations

---
 import/HyperHDG/import_cxx/include.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/import/HyperHDG/import_cxx/include.py b/import/HyperHDG/import_cxx/include.py
index 8bdbe5f..f467daf 100644
--- a/import/HyperHDG/import_cxx/include.py
+++ b/import/HyperHDG/import_cxx/include.py
@@ -1,4 +1,4 @@
-import os, sys, importlib, re, datetime
+import copy, os, sys, importlib, re, datetime
 from .cmake import get_options
 from .compile_prep import compile_commands, need_compile
 from .config import *
@@ -13,6 +13,10 @@ def include(conf):
   # Check that conf is appropriatelly filled.
   assert isinstance(conf, config) and consistent(conf)
 
+  # Files are added to the include list below. Do not change (or share) the list of the user.
+  conf = copy.copy(conf)
+  conf.include_files = list(conf.include_files)
+
   # Start program.
   options = get_options()
   print("Cythonizing ... ", end='', flush=True)
-- 
2.43.0


From 068d07e469442717cb971178a2b59f2bff4d6faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:16 +0000
Subject: [PATCH 20/24] fix: configurations that differ in own code,
 replacements or include files shared one compiled module

---
 import/HyperHDG/import_cxx/names.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/import/HyperHDG/import_cxx/names.py b/import/HyperHDG/import_cxx/names.py
index fd2e6d4..4f19878 100644
--- a/import/HyperHDG/import_cxx/names.py
+++ b/import/HyperHDG/import_cxx/names.py
@@ -12,6 +12,7 @@ def files(conf):
                  + conf.node_descriptor + ",LocalSolver::" + conf.local_solver + " >"
   cython_file  = cpp_class + "_deb" if conf.debug_mode else cpp_class + "_rel"
   cython_file  = re.sub(' ', '', cython_file)
+  cython_file += str((conf.cython_replacements, conf.cpp_code, conf.include_files))
   cython_file  = "mod" + str(hashlib.sha256(cython_file.encode('utf-8')).hexdigest())
   cython_file  = re.sub('\+|\-|\*|\/|<|>|\,|\:', '_', cython_file)
   cython_class = cython_file + "CP"
-- 
2.43.0


From 6a3613a57f56a3401205e58d95d8ed92db4f9c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:16 +0000
Subject: [PATCH 21/24] fix: definitions as struct, or below directories with
 special characters, were not found by the import

---
 import/HyperHDG/import_cxx/cpp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/import/HyperHDG/import_cxx/cpp.py b/import/HyperHDG/import_cxx/cpp.py
index d9ad0dc..9ad4230 100644
--- a/import/HyperHDG/import_cxx/cpp.py
+++ b/import/HyperHDG/import_cxx/cpp.py
@@ -10,6 +10,7 @@ def extract_classname(fullname):
 def find_definition(folder, classname):
   for file in glob.glob(main_dir() + "/include/HyperHDG/" + folder + "/*.hxx"):
     with open(file, "r") as hxxfile:
-      if ("\nclass " + classname + "\n{" or "\nstruct " + classname + "\n{") in hxxfile.read():
-        return re.sub(main_dir() + "/include/", '', file)
+      content = hxxfile.read()
+      if "\nclass " + classname + "\n{" in content or "\nstruct " + classname + "\n{" in content:
+        return file[len(main_dir() + "/include/"):]
   assert False, "File containing defintion of " + classname + " has not been found!"
-- 
2.43.0


From c75446eba1c3e7b972ada8d1f98e25928617c1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:16 +0000
Subject: [PATCH 22/24] fix: changes of files included by own code did not
 cause recompilation

---
 import/HyperHDG/import_cxx/compile_prep.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/import/HyperHDG/import_cxx/compile_prep.py b/import/HyperHDG/import_cxx/compile_prep.py
index 81490b2..e4fd9b9 100644
--- a/import/HyperHDG/import_cxx/compile_prep.py
+++ b/import/HyperHDG/import_cxx/compile_prep.py
@@ -40,6 +40,8 @@ def need_compile(conf, python_class, opt):
     if time_so < os.stat(file).st_mtime:
       return True
   dependent_files = [ x for x in conf.include_files if ".hxx" in x ]
+  if conf.cpp_code != "":
+    dependent_files.append("build/cython_files/" + python_class + ".hxx")
   return need_compile_check_hy_files(dependent_files, time_so)
 
 ## \brief   Check whether any dependent files have been changed.
-- 
2.43.0


From b2a46840554abbde84306e6ed4749c23bf446ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:16 +0000
Subject: [PATCH 23/24] fix: exceptions of member functions terminated the
 Python interpreter

---
 cython/elliptic.pxd                   | 12 ++++++------
 cython/mass_approx_eigenvalue.pxd     |  8 ++++----
 cython/nonlinear_eigenvalue.pxd       | 10 +++++-----
 cython/parabolic.pxd                  | 14 +++++++-------
 cython/shifted_inverse_eigenvalue.pxd |  6 +++---
 5 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/cython/elliptic.pxd b/cython/elliptic.pxd
index 98b8e35..11d484a 100644
--- a/cython/elliptic.pxd
+++ b/cython/elliptic.pxd
@@ -18,12 +18,12 @@ cdef extern from "<HyperHDG/global_loop/elliptic.hxx>" :
     CythonClassName ( CyReplace01 ) except +
     void read_dirichlet_indices (vector[unsigned int])
     vector[ CyReplace03 ] zero_vector ()
-    vector[ CyReplace03 ] trace_to_flux (vector[ CyReplace03 ])
-    vector[ CyReplace03 ] residual_flux (vector[ CyReplace03 ])
-    vector[ CyReplace03 ] errors (vector[ CyReplace03 ])
+    vector[ CyReplace03 ] trace_to_flux (vector[ CyReplace03 ]) except +
+    vector[ CyReplace03 ] residual_flux (vector[ CyReplace03 ]) except +
+    vector[ CyReplace03 ] errors (vector[ CyReplace03 ]) except +
     int size_of_system ()
-    string plot_option (string, string)
-    void plot_solution (vector[ CyReplace03 ])
+    string plot_option (string, string) except +
+    void plot_solution (vector[ CyReplace03 ]) except +
     unsigned int get_refinement()
     void set_refinement(unsigned int)
-    sparse_mat trace_to_flux_mat()
+    sparse_mat trace_to_flux_mat() except +
diff --git a/cython/mass_approx_eigenvalue.pxd b/cython/mass_approx_eigenvalue.pxd
index 0374a51..c3ba667 100644
--- a/cython/mass_approx_eigenvalue.pxd
+++ b/cython/mass_approx_eigenvalue.pxd
@@ -9,10 +9,10 @@ cdef extern from "<HyperHDG/global_loop/mass_approx_eigenvalue.hxx>" :
     CythonClassName ( CyReplace01 , CyReplace04 ) except +
     CythonClassName ( CyReplace01 ) except +
     vector[unsigned int] dirichlet_indices ()
-    vector[ CyReplace03 ] trace_to_flux (vector[ CyReplace03 ], CyReplace03 )
-    vector[ CyReplace03 ] trace_to_mass_flux (vector[ CyReplace03 ], CyReplace03 )
+    vector[ CyReplace03 ] trace_to_flux (vector[ CyReplace03 ], CyReplace03 ) except +
+    vector[ CyReplace03 ] trace_to_mass_flux (vector[ CyReplace03 ], CyReplace03 ) except +
     int size_of_system ()
-    string plot_option (string, string)
-    void plot_solution (vector[ CyReplace03 ], CyReplace03 )
+    string plot_option (string, string) except +
+    void plot_solution (vector[ CyReplace03 ], CyReplace03 ) except +
     unsigned int get_refinement()
     void set_refinement(unsigned int)
diff --git a/cython/nonlinear_eigenvalue.pxd b/cython/nonlinear_eigenvalue.pxd
index b45791a..dce913f 100644
--- a/cython/nonlinear_eigenvalue.pxd
+++ b/cython/nonlinear_eigenvalue.pxd
@@ -8,11 +8,11 @@ cdef extern from "<HyperHDG/global_loop/nonlinear_eigenvalue.hxx>" :
     CythonClassName ( CyReplace01 , CyReplace02 , CyReplace04 ) except +
     CythonClassName ( CyReplace01 , CyReplace04 ) except +
     CythonClassName ( CyReplace01 ) except +
-    vector[ CyReplace03 ] trace_to_flux (vector[ CyReplace03 ], CyReplace03 )
-    vector[ CyReplace03 ] jacobian_of_trace_to_flux (vector[ CyReplace03 ], CyReplace03 , vector[ CyReplace03 ], CyReplace03 )
-    vector[ CyReplace03 ] make_initial (vector[ CyReplace03 ], CyReplace03 )
+    vector[ CyReplace03 ] trace_to_flux (vector[ CyReplace03 ], CyReplace03 ) except +
+    vector[ CyReplace03 ] jacobian_of_trace_to_flux (vector[ CyReplace03 ], CyReplace03 , vector[ CyReplace03 ], CyReplace03 ) except +
+    vector[ CyReplace03 ] make_initial (vector[ CyReplace03 ], CyReplace03 ) except +
     int size_of_system ()
-    string plot_option (string, string)
-    void plot_solution (vector[ CyReplace03 ], CyReplace03 )
+    string plot_option (string, string) except +
+    void plot_solution (vector[ CyReplace03 ], CyReplace03 ) except +
     unsigned int get_refinement()
     void set_refinement(unsigned int)
diff --git a/cython/parabolic.pxd b/cython/parabolic.pxd
index a22fb0d..583315f 100644
--- a/cython/parabolic.pxd
+++ b/cython/parabolic.pxd
@@ -9,13 +9,13 @@ cdef extern from "<HyperHDG/global_loop/parabolic.hxx>" :
     CythonClassName ( CyReplace01 , CyReplace04 ) except +
     CythonClassName ( CyReplace01 ) except +
     vector[ CyReplace03 ] zero_vector ()
-    vector[ CyReplace03 ] trace_to_flux (vector[ CyReplace03 ], CyReplace03 )
-    vector[ CyReplace03 ] residual_flux (vector[ CyReplace03 ], CyReplace03 )
-    void set_data (vector[ CyReplace03 ], CyReplace03 )
-    vector[ CyReplace03 ] make_initial (vector[ CyReplace03 ], CyReplace03 )
-    vector[ CyReplace03 ] errors (vector[ CyReplace03 ], CyReplace03 )
+    vector[ CyReplace03 ] trace_to_flux (vector[ CyReplace03 ], CyReplace03 ) except +
+    vector[ CyReplace03 ] residual_flux (vector[ CyReplace03 ], CyReplace03 ) except +
+    void set_data (vector[ CyReplace03 ], CyReplace03 ) except +
+    vector[ CyReplace03 ] make_initial (vector[ CyReplace03 ], CyReplace03 ) except +
+    vector[ CyReplace03 ] errors (vector[ CyReplace03 ], CyReplace03 ) except +
     int size_of_system ()
-    string plot_option (string, string)
-    void plot_solution (vector[ CyReplace03 ], CyReplace03 )
+    string plot_option (string, string) except +
+    void plot_solution (vector[ CyReplace03 ], CyReplace03 ) except +
     unsigned int get_refinement()
     void set_refinement(unsigned int)
diff --git a/cython/shifted_inverse_eigenvalue.pxd b/cython/shifted_inverse_eigenvalue.pxd
index a6fac91..4338a3d 100644
--- a/cython/shifted_inverse_eigenvalue.pxd
+++ b/cython/shifted_inverse_eigenvalue.pxd
@@ -9,9 +9,9 @@ cdef extern from "<HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx>" :
     CythonClassName ( CyReplace01 , CyReplace04 ) except +
     CythonClassName ( CyReplace01 ) except +
     vector[unsigned int] dirichlet_indices ()
-    vector[ CyReplace03 ] trace_to_flux (vector[ CyReplace03 ], CyReplace03 )
+    vector[ CyReplace03 ] trace_to_flux (vector[ CyReplace03 ], CyReplace03 ) except +
     int size_of_system ()
-    string plot_option (string, string)
-    void plot_solution (vector[ CyReplace03 ], CyReplace03 )
+    string plot_option (string, string) except +
+    void plot_solution (vector[ CyReplace03 ], CyReplace03 ) except +
     unsigned int get_refinement()
     void set_refinement(unsigned int)
-- 
2.43.0


From 4be09a34bc95b688c27b59be40ae287d06e1f2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:16 +0000
Subject: [PATCH 24/24] fix: problems with a geometry, but no local solver
 argument, crashed when they were used

---
 cython/elliptic.pyx                   | 3 +--
 cython/mass_approx_eigenvalue.pyx     | 3 +--
 cython/nonlinear_eigenvalue.pyx       | 3 +--
 cython/parabolic.pyx                  | 3 +--
 cython/shifted_inverse_eigenvalue.pyx | 3 +--
 5 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/cython/elliptic.pyx b/cython/elliptic.pyx
index 01054f7..3273a7a 100644
--- a/cython/elliptic.pyx
+++ b/cython/elliptic.pyx
@@ -16,8 +16,7 @@ cdef class PythonClassName :
       if isinstance(geom_constr,str):
         geom_constr = geom_constr.encode()
       if lsol_constr == 'default':
-        print("Python defaults lsol_constr to 1 and might overwrite C++ settings at this point.\n")
-        # self.thisptr = new CythonClassName (topo_constr, geom_constr, 1.)
+        raise ValueError("lsol_constr needs to be given if geom_constr is given.")
       else:
         self.thisptr = new CythonClassName (topo_constr, geom_constr, lsol_constr)
   def __dealloc__(self):
diff --git a/cython/mass_approx_eigenvalue.pyx b/cython/mass_approx_eigenvalue.pyx
index 0184179..7523e62 100644
--- a/cython/mass_approx_eigenvalue.pyx
+++ b/cython/mass_approx_eigenvalue.pyx
@@ -16,8 +16,7 @@ cdef class PythonClassName :
       if isinstance(geom_constr,str):
         geom_constr = geom_constr.encode()
       if lsol_constr == 'default':
-        print("Python defaults lsol_constr to 1 and might overwrite C++ settings at this point.\n")
-        # self.thisptr = new CythonClassName (topo_constr, geom_constr, 1.)
+        raise ValueError("lsol_constr needs to be given if geom_constr is given.")
       else:
         self.thisptr = new CythonClassName (topo_constr, geom_constr, lsol_constr)
   def __dealloc__(self):
diff --git a/cython/nonlinear_eigenvalue.pyx b/cython/nonlinear_eigenvalue.pyx
index 96a2dfb..61f2d0e 100644
--- a/cython/nonlinear_eigenvalue.pyx
+++ b/cython/nonlinear_eigenvalue.pyx
@@ -16,8 +16,7 @@ cdef class PythonClassName :
       if isinstance(geom_constr,str):
         geom_constr = geom_constr.encode()
       if lsol_constr == 'default':
-        print("Python defaults lsol_constr to 1 and might overwrite C++ settings at this point.\n")
-        # self.thisptr = new CythonClassName (topo_constr, geom_constr, 1.)
+        raise ValueError("lsol_constr needs to be given if geom_constr is given.")
       else:
         self.thisptr = new CythonClassName (topo_constr, geom_constr, lsol_constr)
   def __dealloc__(self):
diff --git a/cython/parabolic.pyx b/cython/parabolic.pyx
index 002f989..9b9c67c 100644
--- a/cython/parabolic.pyx
+++ b/cython/parabolic.pyx
@@ -16,8 +16,7 @@ cdef class PythonClassName :
       if isinstance(geom_constr,str):
         geom_constr = geom_constr.encode()
       if lsol_constr == 'default':
-        print("Python defaults lsol_constr to 1 and might overwrite C++ settings at this point.\n")
-        # self.thisptr = new CythonClassName (topo_constr, geom_constr, 1.)
+        raise ValueError("lsol_constr needs to be given if geom_constr is given.")
       else:
         self.thisptr = new CythonClassName (topo_constr, geom_constr, lsol_constr)
   def __dealloc__(self):
diff --git a/cython/shifted_inverse_eigenvalue.pyx b/cython/shifted_inverse_eigenvalue.pyx
index 7306198..010ab85 100644
--- a/cython/shifted_inverse_eigenvalue.pyx
+++ b/cython/shifted_inverse_eigenvalue.pyx
@@ -16,8 +16,7 @@ cdef class PythonClassName :
       if isinstance(geom_constr,str):
         geom_constr = geom_constr.encode()
       if lsol_constr == 'default':
-        print("Python defaults lsol_constr to 1 and might overwrite C++ settings at this point.\n")
-        # self.thisptr = new CythonClassName (topo_constr, geom_constr, 1.)
+        raise ValueError("lsol_constr needs to be given if geom_constr is given.")
       else:
         self.thisptr = new CythonClassName (topo_constr, geom_constr, lsol_constr)
   def __dealloc__(self):
-- 
2.43.0


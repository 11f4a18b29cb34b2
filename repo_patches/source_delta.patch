From a403987d52202a033ebf2e825025325fafaacee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:21 +0000
Subject: [PATCH 01/28] fix: refuse domain files with unreadable entries or
 read errors

A line with too few or unreadable numbers left stale or zero entries in the
returned domain, and a read error behind the mandatory sections silently
dropped the hyperedge properties.
---
 include/HyperHDG/read_domain.hxx | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/HyperHDG/read_domain.hxx b/include/HyperHDG/read_domain.hxx
index 341f317..0758273 100644
--- a/include/HyperHDG/read_domain.hxx
+++ b/include/HyperHDG/read_domain.hxx
@@ -206,6 +206,7 @@ read_domain_geo(const std::string& filename)
   hy_assert(keyword == "Space_Dim",
             "The keyword Space_Dim has not been found in the file " << filename << "!");
   hy_assert(equal_sign == "=", "The keyword " << keyword << " has not been followd by = symbol!");
+  hy_assert(!linestream.fail(), "The value of " << keyword << " could not be read!");
   hy_assert(Space_Dim == space_dim, "Space_Dim in " << filename << " is " << Space_Dim
                                                     << ", but should be " << space_dim << "!");
 
@@ -219,6 +220,7 @@ read_domain_geo(const std::string& filename)
   hy_assert(keyword == "HyperEdge_Dim",
             "The keyword HyperEdge_Dim has not been found in the file " << filename << "!");
   hy_assert(equal_sign == "=", "The keyword " << keyword << " has not been followd by = symbol!");
+  hy_assert(!linestream.fail(), "The value of " << keyword << " could not be read!");
   hy_assert(HyperEdge_Dim == hyEdge_dim, "HyperEdge_Dim in " << filename << " is " << Space_Dim
                                                              << ", but should be " << hyEdge_dim
                                                              << "!");
@@ -233,6 +235,7 @@ read_domain_geo(const std::string& filename)
   hy_assert(keyword == "N_Points",
             "The keyword N_Points has not been found in the file " << filename << "!");
   hy_assert(equal_sign == "=", "The keyword " << keyword << " has not been followd by = symbol!");
+  hy_assert(!linestream.fail(), "The value of " << keyword << " could not be read!");
   hy_assert(N_Points != 0, "The value of N_Points has not been set correctly!");
 
   while (keyword != "N_HyperNodes" && std::getline(infile, line))
@@ -245,6 +248,7 @@ read_domain_geo(const std::string& filename)
   hy_assert(keyword == "N_HyperNodes",
             "The keyword N_Points has not been found in the file " << filename << "!");
   hy_assert(equal_sign == "=", "The keyword " << keyword << " has not been followd by = symbol!");
+  hy_assert(!linestream.fail(), "The value of " << keyword << " could not be read!");
   hy_assert(N_HyperNodes != 0, "The value of N_HyperNodes has not been set correctly!");
 
   while (keyword != "N_HyperEdges" && std::getline(infile, line))
@@ -257,6 +261,7 @@ read_domain_geo(const std::string& filename)
   hy_assert(keyword == "N_HyperEdges",
             "The keyword N_Points has not been found in the file " << filename << "!");
   hy_assert(equal_sign == "=", "The keyword " << keyword << " has not been followd by = symbol!");
+  hy_assert(!linestream.fail(), "The value of " << keyword << " could not be read!");
   hy_assert(N_HyperEdges != 0, "The value of N_HyperEdges has not been set correctly!");
 
   DomainInfo<hyEdge_dim, space_dim, vectorT, pointT, hyEdge_index_t, hyNode_index_t, pt_index_t>
@@ -276,6 +281,7 @@ read_domain_geo(const std::string& filename)
     linestream = std::istringstream(line);
     for (unsigned int dim = 0; dim < space_dim; ++dim)
       linestream >> pt[dim];
+    hy_assert(!linestream.fail(), "Point " << pt_iter << " is incomplete!");
     domain_info.points[pt_iter] = pt;
   }
 
@@ -296,6 +302,7 @@ read_domain_geo(const std::string& filename)
     linestream = std::istringstream(line);
     for (unsigned int i = 0; i < domain_info.hyNodes_hyEdge[hyEdge_iter].size(); ++i)
       linestream >> domain_info.hyNodes_hyEdge[hyEdge_iter][i];
+    hy_assert(!linestream.fail(), "Hypernodes of hyperedge " << hyEdge_iter << " are incomplete!");
   }
 
   hy_assert(hyEdge_iter == N_HyperEdges, "Not all hyperedges have been added to the list!");
@@ -315,6 +322,8 @@ read_domain_geo(const std::string& filename)
     linestream = std::istringstream(line);
     for (unsigned int i = 0; i < domain_info.hyFaces_hyEdge[hyEdge_iter].size(); ++i)
       linestream >> domain_info.hyFaces_hyEdge[hyEdge_iter][i];
+    hy_assert(!linestream.fail(),
+              "Hyperface types of hyperedge " << hyEdge_iter << " are incomplete!");
   }
 
   hy_assert(hyEdge_iter == N_HyperEdges, "Not all hyperedges have been added to the list!");
@@ -334,6 +343,7 @@ read_domain_geo(const std::string& filename)
     linestream = std::istringstream(line);
     for (unsigned int i = 0; i < domain_info.points_hyEdge[hyEdge_iter].size(); ++i)
       linestream >> domain_info.points_hyEdge[hyEdge_iter][i];
+    hy_assert(!linestream.fail(), "Points of hyperedge " << hyEdge_iter << " are incomplete!");
   }
 
   hy_assert(hyEdge_iter == N_HyperEdges, "Not all hyperedges have been added to the list!");
@@ -344,6 +354,8 @@ read_domain_geo(const std::string& filename)
     linestream >> keyword;
   }
 
+  hy_assert(!infile.bad(), "Reading the file " << filename << " failed!");
+
   if (keyword != "HYPEREDGE_PROPERTIES:")
   {
     domain_info.hyEdge_properties = vectorT<vectorT<typename pointT::value_type> >();
@@ -355,6 +367,7 @@ read_domain_geo(const std::string& filename)
   {
     domain_info.hyEdge_properties = vectorT<vectorT<typename pointT::value_type> >(N_HyperEdges);
     linestream >> domain_info.n_properties;
+    hy_assert(!linestream.fail(), "The number of hyperedge properties could not be read!");
   }
 
   for (hyEdge_iter = 0; hyEdge_iter < N_HyperEdges && std::getline(infile, line); ++hyEdge_iter)
@@ -363,6 +376,7 @@ read_domain_geo(const std::string& filename)
     domain_info.hyEdge_properties[hyEdge_iter].resize(domain_info.n_properties);
     for (unsigned int i = 0; i < domain_info.hyEdge_properties[hyEdge_iter].size(); ++i)
       linestream >> domain_info.hyEdge_properties[hyEdge_iter][i];
+    hy_assert(!linestream.fail(), "Properties of hyperedge " << hyEdge_iter << " are incomplete!");
   }
 
   hy_assert(hyEdge_iter == N_HyperEdges, "Not all hyperedges have been added to the list!");
-- 
2.43.0


From 7a42a86b2185d0af02fc44aa9e57ed13df42e1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:39 +0000
Subject: [PATCH 02/28] fix: refuse point clouds that are empty, incomplete or
 not readable

A short line silently repeated coordinates of the previous point, and a file
without points accessed an empty vector.
---
 include/HyperHDG/epsilon_neighborhood_graph.hxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/HyperHDG/epsilon_neighborhood_graph.hxx b/include/HyperHDG/epsilon_neighborhood_graph.hxx
index be6b2f0..a3a6308 100644
--- a/include/HyperHDG/epsilon_neighborhood_graph.hxx
+++ b/include/HyperHDG/epsilon_neighborhood_graph.hxx
@@ -57,6 +57,7 @@ void make_epsilon_neighborhood_graph(std::string& filename)
   hy_assert(keyword == "Space_Dim",
             "The keyword Space_Dim has not been found in the file " << filename << "!");
   hy_assert(equal_sign == "=", "The keyword " << keyword << " has not been followd by = symbol!");
+  hy_assert(!linestream.fail(), "The value of " << keyword << " could not be read!");
   hy_assert(space_dim == dim,
             "Space_Dim in " << filename << " is " << space_dim << ", but should be " << dim << "!");
 
@@ -70,6 +71,7 @@ void make_epsilon_neighborhood_graph(std::string& filename)
   hy_assert(keyword == "Epsilon",
             "The keyword Space_Dim has not been found in the file " << filename << "!");
   hy_assert(equal_sign == "=", "The keyword " << keyword << " has not been followd by = symbol!");
+  hy_assert(!linestream.fail(), "The value of " << keyword << " could not be read!");
   hy_assert(epsilon > 0, "Epsilon needs to be larger than zeros, but is " << epsilon << "!");
 
   while (keyword != "POINTS:" && std::getline(infile, line))
@@ -86,9 +88,13 @@ void make_epsilon_neighborhood_graph(std::string& filename)
     linestream = std::istringstream(line);
     for (unsigned int dimension = 0; dimension < dim; ++dimension)
       linestream >> pt[dimension];
+    hy_assert(!linestream.fail(), "Point " << points.size() << " is incomplete!");
     points.push_back(pt);
   }
 
+  hy_assert(!infile.bad(), "Reading the file " << filename << " failed!");
+  hy_assert(!points.empty(), "The file " << filename << " does not contain any point!");
+
   std::sort(points.begin(), points.end());
   hy_assert(std::adjacent_find(points.begin(), points.end()) == points.end(),
             "Points must be unique in given file!");
-- 
2.43.0


From b50f89b4e6c6abbbbe3ab47090fd2f99873bd94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:39 +0000
Subject: [PATCH 03/28] fix: write epsilon neighborhood graphs with full
 precision

The points of the graph were rounded to six digits, i.e., the domain that was
read back did not contain the points of the .pts file.
---
 include/HyperHDG/epsilon_neighborhood_graph.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/HyperHDG/epsilon_neighborhood_graph.hxx b/include/HyperHDG/epsilon_neighborhood_graph.hxx
index a3a6308..d4baf49 100644
--- a/include/HyperHDG/epsilon_neighborhood_graph.hxx
+++ b/include/HyperHDG/epsilon_neighborhood_graph.hxx
@@ -5,6 +5,7 @@
 #include <algorithm>
 #include <deque>
 #include <fstream>
+#include <limits>
 #include <sstream>
 #include <string>
 
@@ -134,6 +135,7 @@ void make_epsilon_neighborhood_graph(std::string& filename)
   infile.close();
   filename = filename + ".geo";
   std::ofstream outfile(filename);
+  outfile.precision(std::numeric_limits<float_t>::max_digits10);
 
   outfile << "Space_Dim     = " << dim << ";" << std::endl;
   outfile << "HyperEdge_Dim = 1;" << std::endl << std::endl;
-- 
2.43.0


From fd2ee7db14ab598e756e64ca6c3c0392ede02e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:39 +0000
Subject: [PATCH 04/28] fix: connect points whose distance equals epsilon

This is what the .pts files document, and triangle.pts is no triangle without.
---
 include/HyperHDG/epsilon_neighborhood_graph.hxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/HyperHDG/epsilon_neighborhood_graph.hxx b/include/HyperHDG/epsilon_neighborhood_graph.hxx
index d4baf49..83b7c71 100644
--- a/include/HyperHDG/epsilon_neighborhood_graph.hxx
+++ b/include/HyperHDG/epsilon_neighborhood_graph.hxx
@@ -109,9 +109,9 @@ void make_epsilon_neighborhood_graph(std::string& filename)
     index = search.front();
     search.pop_front();
     for (index_t ind = index;
-         ind >= 0 && ind < points.size() && std::abs(points[index][0] - points[ind][0]) < epsilon;
+         ind >= 0 && ind < points.size() && std::abs(points[index][0] - points[ind][0]) <= epsilon;
          --ind)
-      if (norm_2(points[index] - points[ind]) < epsilon && ind != index &&
+      if (norm_2(points[index] - points[ind]) <= epsilon && ind != index &&
           (!bool_vec[ind] || std::find(search.begin(), search.end(), ind) != search.end()))
       {
         if (!bool_vec[ind])
@@ -120,9 +120,9 @@ void make_epsilon_neighborhood_graph(std::string& filename)
         connections.push_back(Pair(index, ind));
       }
     for (index_t ind = index;
-         ind >= 0 && ind < points.size() && std::abs(points[index][0] - points[ind][0]) < epsilon;
+         ind >= 0 && ind < points.size() && std::abs(points[index][0] - points[ind][0]) <= epsilon;
          ++ind)
-      if (norm_2(points[index] - points[ind]) < epsilon && ind != index &&
+      if (norm_2(points[index] - points[ind]) <= epsilon && ind != index &&
           (!bool_vec[ind] || std::find(search.begin(), search.end(), ind) != search.end()))
       {
         if (!bool_vec[ind])
-- 
2.43.0


From 1c63345d4f2213c9490f8cda60831895629e468b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:56 +0000
Subject: [PATCH 05/28] fix: publish epsilon neighborhood graphs completely or
 not at all

If the .pts.geo file could not be opened or written, an old or truncated graph
was read back. Concurrent runs using the same points could read a partial graph.
---
 include/HyperHDG/epsilon_neighborhood_graph.hxx | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/HyperHDG/epsilon_neighborhood_graph.hxx b/include/HyperHDG/epsilon_neighborhood_graph.hxx
index 83b7c71..546153b 100644
--- a/include/HyperHDG/epsilon_neighborhood_graph.hxx
+++ b/include/HyperHDG/epsilon_neighborhood_graph.hxx
@@ -4,11 +4,14 @@
 
 #include <algorithm>
 #include <deque>
+#include <filesystem>
 #include <fstream>
 #include <limits>
 #include <sstream>
 #include <string>
 
+#include <unistd.h>
+
 /*!*************************************************************************************************
  * \brief   Construct epsilon neighborhood graph from a file that contains only points.
  *
@@ -134,7 +137,11 @@ void make_epsilon_neighborhood_graph(std::string& filename)
 
   infile.close();
   filename = filename + ".geo";
-  std::ofstream outfile(filename);
+
+  // Write to a file of our own and rename it in the end: Nobody ever gets to see half a graph.
+  std::ostringstream temporary_name;
+  temporary_name << filename << "." << getpid() << "." << &temporary_name << ".tmp";
+  std::ofstream outfile(temporary_name.str());
   outfile.precision(std::numeric_limits<float_t>::max_digits10);
 
   outfile << "Space_Dim     = " << dim << ";" << std::endl;
@@ -156,6 +163,8 @@ void make_epsilon_neighborhood_graph(std::string& filename)
     outfile << connections[i].left << " " << connections[i].right << std::endl;
 
   outfile.close();
+  hy_assert(outfile.good(), "Writing the file " << temporary_name.str() << " failed!");
+  std::filesystem::rename(temporary_name.str(), filename);
 
   for (unsigned int i = 0; i < bool_vec.size(); ++i)
     hy_assert(bool_vec[i], "All points need to belong to one graph, but " << i << " does not!");
-- 
2.43.0


From 02e0e412f7674eb586f79895127044d921674a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:29 +0000
Subject: [PATCH 06/28] fix: refuse to report plots that could not be written
 completely

---
 include/HyperHDG/plot.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/HyperHDG/plot.hxx b/include/HyperHDG/plot.hxx
index 60ef102..4def57c 100644
--- a/include/HyperHDG/plot.hxx
+++ b/include/HyperHDG/plot.hxx
@@ -277,6 +277,7 @@ std::ofstream open_ofstream(const PlotOptions& plot_options, const bool append =
 void close_ofstream(std::ofstream& myfile)
 {
   myfile.close();
+  hy_assert(myfile.good(), "The plot file could not be written completely!");
 }
 
 /*!*************************************************************************************************
@@ -769,10 +770,10 @@ void plot_vtu(HyperGraphT& hyper_graph,
   myfile << "    </Piece>" << std::endl;
   myfile << "  </UnstructuredGrid>" << std::endl;
   myfile << "</VTKFile>" << std::endl;
+  PlotFunctions::close_ofstream(myfile);
   std::cout << plot_options.fileName;
   if (plot_options.printFileNumber)
     std::cout << "." << plot_options.fileNumber << " was written\n";
-  PlotFunctions::close_ofstream(myfile);
 }  // end of void plot_vtu
 
 // -------------------------------------------------------------------------------------------------
-- 
2.43.0


From e0920964193737b69aef87490af2384784b1a693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:29 +0000
Subject: [PATCH 07/28] fix: write one complete value tuple per plotted
 boundary point

---
 include/HyperHDG/plot.hxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/HyperHDG/plot.hxx b/include/HyperHDG/plot.hxx
index 4def57c..cccb5b1 100644
--- a/include/HyperHDG/plot.hxx
+++ b/include/HyperHDG/plot.hxx
@@ -666,7 +666,7 @@ void plot_boundary_values(HyperGraphT& hyper_graph,
     {
       myfile << "      ";
 
-      for (unsigned int lval = 0; lval < local_values.size(); ++lval)
+      for (unsigned int lval = 0; lval < Hypercube<hyEdge_dim - 1>::pow(n_subdivisions + 1); ++lval)
         fancy_recursion<0, LocalSolverT, dof_value_t>(
           local_values, hyEdge_dofs,
           Hypercube<hyEdge_dim - 1>::template tensorial_pt<Point<hyEdge_dim - 1> >(lval, abscissas),
@@ -676,10 +676,10 @@ void plot_boundary_values(HyperGraphT& hyper_graph,
         myfile << "  ";
         for (unsigned int d = 0; d < LocalSolverT::node_system_dimension(); ++d)
           myfile << "  " << local_values[d][corner];  // AR: I switched d and corner!?
+        for (unsigned int d = LocalSolverT::node_system_dimension();
+             d < LocalSolverT::system_dimension(); ++d)
+          myfile << "  " << 0;  // AR: I switched d and corner!?
       }
-      for (unsigned int d = LocalSolverT::node_system_dimension();
-           d < LocalSolverT::system_dimension(); ++d)
-        myfile << "  " << 0;  // AR: I switched d and corner!?
       myfile << std::endl;
     }
   }
-- 
2.43.0


From 9cb4abc5f553137fc3c6b8776e5f7f0a9cceaa99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:29 +0000
Subject: [PATCH 08/28] fix: return the file ending of plots as text

---
 include/HyperHDG/plot.hxx | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/HyperHDG/plot.hxx b/include/HyperHDG/plot.hxx
index cccb5b1..65056e9 100644
--- a/include/HyperHDG/plot.hxx
+++ b/include/HyperHDG/plot.hxx
@@ -116,6 +116,14 @@ struct PlotOptions
   bool numbers = false;
 };  // end of class PlotOptions
 
+namespace PlotFunctions
+{
+/*!*************************************************************************************************
+ * \brief   Turn fileType enum into string.
+ **************************************************************************************************/
+std::string fileType_to_string(const PlotOptions::fileType& type);
+}  // end of namespace PlotFunctions
+
 /*!*************************************************************************************************
  * \brief Set a plot option and return the new value of this option as std::string.
  **************************************************************************************************/
@@ -161,7 +169,7 @@ std::string set_plot_option(PlotOptions& plot_options,
   else if (option == "fileName")
     return_value = plot_options.fileName;
   else if (option == "fileEnding")
-    return_value = plot_options.fileEnding;
+    return_value = PlotFunctions::fileType_to_string(plot_options.fileEnding);
   else if (option == "fileNumber")
     return_value = std::to_string(plot_options.fileNumber);
   else if (option == "printFileNumber")
-- 
2.43.0


From 3578bc0259bb8af20f99a71c35dc1a6ca84596f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:41 +0000
Subject: [PATCH 09/28] fix: pass the time of parabolic initial values as
 floating point number

---
 include/HyperHDG/global_loop/parabolic.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HyperHDG/global_loop/parabolic.hxx b/include/HyperHDG/global_loop/parabolic.hxx
index 0c714c9..87405ea 100644
--- a/include/HyperHDG/global_loop/parabolic.hxx
+++ b/include/HyperHDG/global_loop/parabolic.hxx
@@ -345,7 +345,7 @@ class Parabolic
    * \retval  y_vec         A vector containing the initial fluxes.
    ************************************************************************************************/
   template <typename hyNode_index_t = dof_index_t>
-  LargeVecT make_initial(const LargeVecT& x_vec, const dof_index_t time = 0.)
+  LargeVecT make_initial(const LargeVecT& x_vec, const dof_value_t time = 0.)
   {
     constexpr unsigned int hyEdge_dim = TopologyT::hyEdge_dim();
     constexpr unsigned int n_dofs_per_node = LocalSolverT::n_glob_dofs_per_node();
-- 
2.43.0


From 69d3c667dbe8c77cd365b5a000e027f67d24801e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:12 +0000
Subject: [PATCH 10/28] fix: zero the lower triangle of the reduced matrix R of
 QR decompositions

---
 include/HyperHDG/wrapper/lapack.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HyperHDG/wrapper/lapack.hxx b/include/HyperHDG/wrapper/lapack.hxx
index 2703052..8102435 100644
--- a/include/HyperHDG/wrapper/lapack.hxx
+++ b/include/HyperHDG/wrapper/lapack.hxx
@@ -547,7 +547,7 @@ inline void get_r_from_lapack_qr_result(
   for (unsigned int i = 0; i < n_cols; ++i)    // i is column index, here!
     for (unsigned int j = 0; j < n_cols; ++j)  // j is row index, here!
       if (j > i)
-        mat_r[i * n_rows + j] = 0.;
+        mat_r[i * n_cols + j] = 0.;
       else
         mat_r[i * n_cols + j] = lapack_mat[i * n_rows + j];
 }
-- 
2.43.0


From c3b69214a70e63741a06f92eb1232f1d93b43c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:11 +0000
Subject: [PATCH 11/28] fix: determine prescribed indices anew in every query

dirichlet_indices() appended to the list of the previous query, so that
indices of an earlier refinement level (or of a query that failed half-way)
were returned as well.
---
 include/HyperHDG/global_loop/mass_approx_eigenvalue.hxx     | 2 ++
 include/HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/HyperHDG/global_loop/mass_approx_eigenvalue.hxx b/include/HyperHDG/global_loop/mass_approx_eigenvalue.hxx
index 84ed712..f18d97e 100644
--- a/include/HyperHDG/global_loop/mass_approx_eigenvalue.hxx
+++ b/include/HyperHDG/global_loop/mass_approx_eigenvalue.hxx
@@ -145,6 +145,8 @@ class MassApproxEigenvalue
     SmallVec<2 * hyEdge_dim, hyNode_index_t> hyEdge_hyNodes;
     std::array<unsigned int, 2 * hyEdge_dim> hyNode_types;
 
+    dirichlet_indices_.clear();
+
     std::for_each(hyper_graph_.begin(), hyper_graph_.end(),
                   [&](auto hyper_edge)
                   {
diff --git a/include/HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx b/include/HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx
index d88558f..bee8065 100644
--- a/include/HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx
+++ b/include/HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx
@@ -141,6 +141,8 @@ class ShiftedInverseEigenvalue
     SmallVec<2 * hyEdge_dim, hyNode_index_t> hyEdge_hyNodes;
     std::array<unsigned int, 2 * hyEdge_dim> hyNode_types;
 
+    dirichlet_indices_.clear();
+
     std::for_each(hyper_graph_.begin(), hyper_graph_.end(),
                   [&](auto hyper_edge)
                   {
-- 
2.43.0


From f66268eb97c3d56154c91a237035b40924ab2981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:10 +0000
Subject: [PATCH 12/28] fix: find definitions of structs when importing

---
 import/HyperHDG/import_cxx/cpp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/import/HyperHDG/import_cxx/cpp.py b/import/HyperHDG/import_cxx/cpp.py
index d9ad0dc..8df43e8 100644
--- a/import/HyperHDG/import_cxx/cpp.py
+++ b/import/HyperHDG/import_cxx/cpp.py
@@ -10,6 +10,7 @@ def extract_classname(fullname):
 def find_definition(folder, classname):
   for file in glob.glob(main_dir() + "/include/HyperHDG/" + folder + "/*.hxx"):
     with open(file, "r") as hxxfile:
-      if ("\nclass " + classname + "\n{" or "\nstruct " + classname + "\n{") in hxxfile.read():
+      content = hxxfile.read()
+      if "\nclass " + classname + "\n{" in content or "\nstruct " + classname + "\n{" in content:
         return re.sub(main_dir() + "/include/", '', file)
   assert False, "File containing defintion of " + classname + " has not been found!"
-- 
2.43.0


From 8736c8a0d49ae4975250f899730412ff65283b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:43 +0000
Subject: [PATCH 13/28] fix: do not share the list of included files between
 configurations

---
 import/HyperHDG/import_cxx/config.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/import/HyperHDG/import_cxx/config.py b/import/HyperHDG/import_cxx/config.py
index 801147c..d75d2f5 100644
--- a/import/HyperHDG/import_cxx/config.py
+++ b/import/HyperHDG/import_cxx/config.py
@@ -47,6 +47,7 @@ def consistent(conf):
 ## \brief   Add the files that need to be included for defining the problem to include list.
 def extract_includes(conf, cpp_inc=""):
   assert isinstance(conf, config) and consistent(conf)
+  conf.include_files = list(conf.include_files)
   helper = find_definition("geometry", extract_classname(conf.geometry))
   if helper not in conf.include_files:
     conf.include_files.append(helper)
-- 
2.43.0


From 8662785ecb9ac0afe478873135256c6f3c749df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:43 +0000
Subject: [PATCH 14/28] fix: give modules with different replacements, included
 files or user code different names

---
 import/HyperHDG/import_cxx/include.py | 5 ++---
 import/HyperHDG/import_cxx/names.py   | 1 +
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/import/HyperHDG/import_cxx/include.py b/import/HyperHDG/import_cxx/include.py
index 8bdbe5f..dc043d7 100644
--- a/import/HyperHDG/import_cxx/include.py
+++ b/import/HyperHDG/import_cxx/include.py
@@ -33,10 +33,9 @@ def include(conf):
 
   # Evaluate configfile, define include files, and define dependent files.
   cy_replace = generate_cy_replace(conf)
+  include_string = extract_includes(conf)
   cpp_class, python_class, cython_class = files(conf)
-  if conf.cpp_code == "":
-    include_string = extract_includes(conf)
-  else:
+  if conf.cpp_code != "":
     include_string = extract_includes(conf, main_dir()+"/build/cython_files/"+python_class+".hxx")
 
   compilation_necessary = need_compile(conf, python_class, options)
diff --git a/import/HyperHDG/import_cxx/names.py b/import/HyperHDG/import_cxx/names.py
index fd2e6d4..834c646 100644
--- a/import/HyperHDG/import_cxx/names.py
+++ b/import/HyperHDG/import_cxx/names.py
@@ -12,6 +12,7 @@ def files(conf):
                  + conf.node_descriptor + ",LocalSolver::" + conf.local_solver + " >"
   cython_file  = cpp_class + "_deb" if conf.debug_mode else cpp_class + "_rel"
   cython_file  = re.sub(' ', '', cython_file)
+  cython_file += repr([conf.cython_replacements, conf.include_files, conf.cpp_code])
   cython_file  = "mod" + str(hashlib.sha256(cython_file.encode('utf-8')).hexdigest())
   cython_file  = re.sub('\+|\-|\*|\/|<|>|\,|\:', '_', cython_file)
   cython_class = cython_file + "CP"
-- 
2.43.0


From 6ce5fff86d643d0daefa21f795fd205c503008cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:43 +0000
Subject: [PATCH 15/28] fix: compile and report failures also when Python
 assertions are disabled

---
 import/HyperHDG/import_cxx/include.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/import/HyperHDG/import_cxx/include.py b/import/HyperHDG/import_cxx/include.py
index dc043d7..bdb3c95 100644
--- a/import/HyperHDG/import_cxx/include.py
+++ b/import/HyperHDG/import_cxx/include.py
@@ -58,9 +58,9 @@ def include(conf):
     if not (conf.debug_mode):
       compile_command += " -DNDEBUG"
     #Actually compile the prepared files.
-    assert os.system(cython_command) == 0
-    assert os.system(compile_command) == 0
-    assert os.system(link_command) == 0
+    for command in [cython_command, compile_command, link_command]:
+      if os.system(command) != 0:
+        raise AssertionError("Command failed: " + command)
 
   try:
     mod = importlib.import_module(python_class)
-- 
2.43.0


From c322eaae2fd0e71ea9b7513ff263403214602f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:43 +0000
Subject: [PATCH 16/28] fix: never leave partially written log or user code
 files behind

---
 import/HyperHDG/import_cxx/compile_prep.py | 5 ++---
 import/HyperHDG/import_cxx/include.py      | 6 ++----
 import/HyperHDG/import_cxx/paths.py        | 9 ++++++++-
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/import/HyperHDG/import_cxx/compile_prep.py b/import/HyperHDG/import_cxx/compile_prep.py
index 81490b2..e53e8b8 100644
--- a/import/HyperHDG/import_cxx/compile_prep.py
+++ b/import/HyperHDG/import_cxx/compile_prep.py
@@ -1,7 +1,7 @@
 import glob, os, re
 from .cmake import options
 from .names import cython_from_cpp
-from .paths import main_dir, this_dir
+from .paths import main_dir, this_dir, write_file
 
 ## \brief   Generate shell commands from CMAKE parameters.
 def compile_commands(python_class, opt):
@@ -71,6 +71,5 @@ def own_code(conf, python_class):
       content = file.read()
     if content == conf.cpp_code:
       return False
-  with  open(main_dir() + "/build/cython_files/" + python_class + ".hxx", "w") as file:
-    file.write(conf.cpp_code)
+  write_file(main_dir() + "/build/cython_files/" + python_class + ".hxx", conf.cpp_code)
   return True
diff --git a/import/HyperHDG/import_cxx/include.py b/import/HyperHDG/import_cxx/include.py
index bdb3c95..db819f0 100644
--- a/import/HyperHDG/import_cxx/include.py
+++ b/import/HyperHDG/import_cxx/include.py
@@ -3,7 +3,7 @@ from .cmake import get_options
 from .compile_prep import compile_commands, need_compile
 from .config import *
 from .names import files, cython_from_cpp
-from .paths import main_dir
+from .paths import main_dir, write_file
 
 ## \brief   Function to import classes of the HyperHDG package using Cython.
 #
@@ -21,9 +21,7 @@ def include(conf):
   os.system("mkdir -p " + main_dir() + "/build " + main_dir() + "/build/cython_files " \
             + main_dir() + "/build/shared_objects")
   if not os.path.isfile(main_dir() + "/build/cython_log.txt"):
-    file = open(main_dir() + "/build/cython_log.txt", "w")
-    file.write("Python version: " + str(sys.version_info))
-    file.close()
+    write_file(main_dir() + "/build/cython_log.txt", "Python version: " + str(sys.version_info))
   else:
     file = open(main_dir() + "/build/cython_log.txt", "r")
     assert file.readline() == "Python version: " + str(sys.version_info), \
diff --git a/import/HyperHDG/import_cxx/paths.py b/import/HyperHDG/import_cxx/paths.py
index f7c2356..0141ead 100644
--- a/import/HyperHDG/import_cxx/paths.py
+++ b/import/HyperHDG/import_cxx/paths.py
@@ -1,4 +1,4 @@
-import os
+import os, tempfile
 
 ## Return path to directory of file.
 def this_dir():
@@ -7,3 +7,10 @@ def this_dir():
 ## Return path to main directory of HyperHDG.
 def main_dir():
   return this_dir() + "/../../.."
+
+## Write text to file such that other processes see the complete file or nothing.
+def write_file(filename, content):
+  handle, helper = tempfile.mkstemp(dir=os.path.dirname(filename))
+  with os.fdopen(handle, "w") as file:
+    file.write(content)
+  os.replace(helper, filename)
-- 
2.43.0


From bde24c6f994ef5dc8b62ebf998d18b4fee0bd98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:43 +0000
Subject: [PATCH 17/28] fix: publish imported modules completely or not at all

---
 import/HyperHDG/import_cxx/compile_prep.py | 12 ++++++------
 import/HyperHDG/import_cxx/include.py      | 13 ++++++++++---
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/import/HyperHDG/import_cxx/compile_prep.py b/import/HyperHDG/import_cxx/compile_prep.py
index e53e8b8..191cc85 100644
--- a/import/HyperHDG/import_cxx/compile_prep.py
+++ b/import/HyperHDG/import_cxx/compile_prep.py
@@ -4,16 +4,16 @@ from .names import cython_from_cpp
 from .paths import main_dir, this_dir, write_file
 
 ## \brief   Generate shell commands from CMAKE parameters.
-def compile_commands(python_class, opt):
+def compile_commands(python_class, opt, build_dir):
   assert isinstance(opt, options)
-  cython_command = "cd " + main_dir() + "/build/cython_files/; " \
+  cython_command = "cd " + main_dir() + "/" + build_dir + "; " \
     + opt.cython_com + " " + opt.cython_flg + " " + python_class + ".pyx";
   compile_command = "cd " + main_dir() + "; " + opt.compile_com + " " + opt.compile_inc + " " + \
-    opt.compile_flg + " --std=gnu++" + opt.compile_std + " -c ./build/cython_files/" + \
-    python_class + ".cpp -o ./build/cython_files/" + python_class + ".o";
+    opt.compile_flg + " --std=gnu++" + opt.compile_std + " -c ./" + build_dir + "/" + \
+    python_class + ".cpp -o ./" + build_dir + "/" + python_class + ".o";
   link_command = "cd " + main_dir() + "; " \
-    + opt.link_com + " " + opt.link_flg + " ./build/cython_files/" + python_class + ".o " \
-    + " -o build/shared_objects/" + python_class + ".so " + opt.link_lib;
+    + opt.link_com + " " + opt.link_flg + " ./" + build_dir + "/" + python_class + ".o " \
+    + " -o " + build_dir + "/" + python_class + ".so " + opt.link_lib;
   return cython_command, compile_command, link_command
 
 ## \brief   Check whether recompilation of executable is necessary.
diff --git a/import/HyperHDG/import_cxx/include.py b/import/HyperHDG/import_cxx/include.py
index db819f0..26cdc2e 100644
--- a/import/HyperHDG/import_cxx/include.py
+++ b/import/HyperHDG/import_cxx/include.py
@@ -1,4 +1,4 @@
-import os, sys, importlib, re, datetime
+import os, sys, importlib, re, datetime, shutil, tempfile
 from .cmake import get_options
 from .compile_prep import compile_commands, need_compile
 from .config import *
@@ -38,6 +38,8 @@ def include(conf):
 
   compilation_necessary = need_compile(conf, python_class, options)
   if compilation_necessary:
+    # Build in a new directory, since other processes might (have) build the same module.
+    build_dir = tempfile.mkdtemp(dir=main_dir() + "/build/cython_files")
     # Copy pyx and pxd files from cython directory.
     for file_end in ["pxd", "pyx"]:
       with open(main_dir() + "/cython/" + cython_from_cpp(conf.global_loop) + "." \
@@ -49,16 +51,21 @@ def include(conf):
       content = re.sub("IncludeFiles", include_string, content)
       for i in range(len(cy_replace)):
         content = re.sub("CyReplace" + '%02d' % (i+1), cy_replace[i], content)
-      with open(main_dir() + "/build/cython_files/" + python_class + "." + file_end, "w") as file:
+      with open(build_dir + "/" + python_class + "." + file_end, "w") as file:
         file.write(content)
     # Prepare the compilation commands.
-    cython_command, compile_command, link_command = compile_commands(python_class, options)
+    cython_command, compile_command, link_command = compile_commands(python_class, options, \
+      "build/cython_files/" + os.path.basename(build_dir))
     if not (conf.debug_mode):
       compile_command += " -DNDEBUG"
     #Actually compile the prepared files.
     for command in [cython_command, compile_command, link_command]:
       if os.system(command) != 0:
         raise AssertionError("Command failed: " + command)
+    # Publish the complete module.
+    os.replace(build_dir + "/" + python_class + ".so",
+               main_dir() + "/build/shared_objects/" + python_class + ".so")
+    shutil.rmtree(build_dir, ignore_errors=True)
 
   try:
     mod = importlib.import_module(python_class)
-- 
2.43.0


From 8c670e91256048cdbca46b72ec8644600e0655a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:43 +0000
Subject: [PATCH 18/28] fix: compile again if any file of the import package
 has changed

---
 import/HyperHDG/import_cxx/compile_prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/import/HyperHDG/import_cxx/compile_prep.py b/import/HyperHDG/import_cxx/compile_prep.py
index 191cc85..7899c79 100644
--- a/import/HyperHDG/import_cxx/compile_prep.py
+++ b/import/HyperHDG/import_cxx/compile_prep.py
@@ -36,7 +36,7 @@ def need_compile(conf, python_class, opt):
       + file_end).st_mtime
     if time_so < time_in:
       return True
-  for file in glob.glob(this_dir()):
+  for file in glob.glob(this_dir() + "/*.py"):
     if time_so < os.stat(file).st_mtime:
       return True
   dependent_files = [ x for x in conf.include_files if ".hxx" in x ]
-- 
2.43.0


From 1813b73b1c054abe66bc9c6654513d7f77bf3a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:44 +0000
Subject: [PATCH 19/28] fix: compile again if any directly or indirectly
 included file has changed

---
 import/HyperHDG/import_cxx/compile_prep.py | 31 ++++++++++++++--------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/import/HyperHDG/import_cxx/compile_prep.py b/import/HyperHDG/import_cxx/compile_prep.py
index 7899c79..5d86e2e 100644
--- a/import/HyperHDG/import_cxx/compile_prep.py
+++ b/import/HyperHDG/import_cxx/compile_prep.py
@@ -40,24 +40,33 @@ def need_compile(conf, python_class, opt):
     if time_so < os.stat(file).st_mtime:
       return True
   dependent_files = [ x for x in conf.include_files if ".hxx" in x ]
-  return need_compile_check_hy_files(dependent_files, time_so)
+  dependent_files += included_files(conf.cpp_code, opt)
+  return need_compile_check_hy_files(dependent_files, time_so, opt)
+
+## \brief   Find an included file, return None if it does not exist (e.g., for system headers).
+def find_file(name, opt):
+  directories = [ "include", "." ] + [ x[2:] for x in opt.compile_inc.split() if x[:2] == "-I" ]
+  for directory in directories:
+    filename = os.path.join(main_dir(), directory, name)
+    if os.path.isfile(filename):
+      return filename
+  return None
+
+## \brief   List the files that some code includes directly (except for system headers).
+def included_files(content, opt):
+  names = re.findall(r"#[ \t]*include[ \t]*[<\"]([^>\"\n]+)[>\"]", content)
+  return [ x for x in names if find_file(x, opt) != None ]
 
 ## \brief   Check whether any dependent files have been changed.
-def need_compile_check_hy_files(dependent_files, time_so):
+def need_compile_check_hy_files(dependent_files, time_so, opt):
   for x in dependent_files:
-    filename = main_dir() + "/include/" + x
-    if not os.path.isfile(filename):
-      filename = main_dir() + "/" + x
-    assert os.path.isfile(filename), "Included file could not be found by import command."
+    filename = find_file(x, opt)
+    assert filename != None, "Included file could not be found by import command."
     if time_so < os.stat(filename).st_mtime:
       return True
     with open(filename, 'r') as file:
       content = file.read()
-    matches = re.finditer("\#include \<HyperHDG\/", content)
-    for match in matches:
-      start = match.start() + 10
-      end   = start + re.search('>', content[start:len(content)]).end() - 1
-      name  = content[start:end]
+    for name in included_files(content, opt):
       if name not in dependent_files:
         dependent_files.append(name)
   return False
-- 
2.43.0


From 587c9c114f421dd1faff69bd2e72ae58ea78d5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:02 +0000
Subject: [PATCH 20/28] fix: compile again if sources have changed during or
 right after the compilation

---
 import/HyperHDG/import_cxx/compile_prep.py | 12 ++++++------
 import/HyperHDG/import_cxx/include.py      |  4 +++-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/import/HyperHDG/import_cxx/compile_prep.py b/import/HyperHDG/import_cxx/compile_prep.py
index 5d86e2e..3e398ae 100644
--- a/import/HyperHDG/import_cxx/compile_prep.py
+++ b/import/HyperHDG/import_cxx/compile_prep.py
@@ -25,19 +25,19 @@ def need_compile(conf, python_class, opt):
     return True
   time_so = os.stat(main_dir() + "/build/shared_objects/" + python_class + ".so").st_mtime
   assert os.path.isfile(opt.py_dir + "/Python.h"), "Include file for Python needs to exist!"
-  if time_so < os.stat(opt.py_dir + "/Python.h").st_mtime \
-    or time_so < os.stat(os.path.abspath(__file__)).st_mtime:
+  if time_so <= os.stat(opt.py_dir + "/Python.h").st_mtime \
+    or time_so <= os.stat(os.path.abspath(__file__)).st_mtime:
     return True
   if os.path.isfile(main_dir() + "/build/cmake_cython.cfg") \
-    and time_so < os.stat(main_dir() + "/build/cmake_cython.cfg").st_mtime:
+    and time_so <= os.stat(main_dir() + "/build/cmake_cython.cfg").st_mtime:
     return True
   for file_end in ["pxd", "pyx", "cfg"]:
     time_in = os.stat(main_dir() + "/cython/" + cython_from_cpp(conf.global_loop) + "." \
       + file_end).st_mtime
-    if time_so < time_in:
+    if time_so <= time_in:
       return True
   for file in glob.glob(this_dir() + "/*.py"):
-    if time_so < os.stat(file).st_mtime:
+    if time_so <= os.stat(file).st_mtime:
       return True
   dependent_files = [ x for x in conf.include_files if ".hxx" in x ]
   dependent_files += included_files(conf.cpp_code, opt)
@@ -62,7 +62,7 @@ def need_compile_check_hy_files(dependent_files, time_so, opt):
   for x in dependent_files:
     filename = find_file(x, opt)
     assert filename != None, "Included file could not be found by import command."
-    if time_so < os.stat(filename).st_mtime:
+    if time_so <= os.stat(filename).st_mtime:
       return True
     with open(filename, 'r') as file:
       content = file.read()
diff --git a/import/HyperHDG/import_cxx/include.py b/import/HyperHDG/import_cxx/include.py
index 26cdc2e..6b65894 100644
--- a/import/HyperHDG/import_cxx/include.py
+++ b/import/HyperHDG/import_cxx/include.py
@@ -40,6 +40,7 @@ def include(conf):
   if compilation_necessary:
     # Build in a new directory, since other processes might (have) build the same module.
     build_dir = tempfile.mkdtemp(dir=main_dir() + "/build/cython_files")
+    time_start = os.stat(build_dir).st_mtime_ns
     # Copy pyx and pxd files from cython directory.
     for file_end in ["pxd", "pyx"]:
       with open(main_dir() + "/cython/" + cython_from_cpp(conf.global_loop) + "." \
@@ -62,7 +63,8 @@ def include(conf):
     for command in [cython_command, compile_command, link_command]:
       if os.system(command) != 0:
         raise AssertionError("Command failed: " + command)
-    # Publish the complete module.
+    # Publish the complete module with the time, at which its sources were read at the earliest.
+    os.utime(build_dir + "/" + python_class + ".so", ns=(time_start, time_start))
     os.replace(build_dir + "/" + python_class + ".so",
                main_dir() + "/build/shared_objects/" + python_class + ".so")
     shutil.rmtree(build_dir, ignore_errors=True)
-- 
2.43.0


From 7b0351eb23ef29fa099a19e805cc06f79ef8116f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:02 +0000
Subject: [PATCH 21/28] fix: find modules that have just been built by other
 processes

---
 import/HyperHDG/import_cxx/include.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/import/HyperHDG/import_cxx/include.py b/import/HyperHDG/import_cxx/include.py
index 6b65894..f80c875 100644
--- a/import/HyperHDG/import_cxx/include.py
+++ b/import/HyperHDG/import_cxx/include.py
@@ -69,6 +69,7 @@ def include(conf):
                main_dir() + "/build/shared_objects/" + python_class + ".so")
     shutil.rmtree(build_dir, ignore_errors=True)
 
+  importlib.invalidate_caches()
   try:
     mod = importlib.import_module(python_class)
   except ImportError as error:
-- 
2.43.0


From 5419176b7793ca23f31b393d8ff79af1bc7ddf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:43 +0000
Subject: [PATCH 22/28] fix: residual of bilaplacian problems uses the traces
 that belong to its equations

---
 include/HyperHDG/local_solver/bilaplacian_ldgh.hxx       | 6 ++++--
 include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/HyperHDG/local_solver/bilaplacian_ldgh.hxx b/include/HyperHDG/local_solver/bilaplacian_ldgh.hxx
index 92f174e..14898cf 100644
--- a/include/HyperHDG/local_solver/bilaplacian_ldgh.hxx
+++ b/include/HyperHDG/local_solver/bilaplacian_ldgh.hxx
@@ -600,8 +600,10 @@ class Bilaplacian
     for (unsigned int i = 0; i < lambda_values_out.size(); ++i)
     {
       for (unsigned int j = 0; j < lambda_values_out[i].size(); ++j)
-        lambda_values_out[i][j] = duals[i][j] + tau_ * primals[i][j] -
-                                  tau_ * lambda_values_in[i][j] * hyper_edge.geometry.face_area(i);
+        lambda_values_out[i][j] =
+          duals[i][j] + tau_ * primals[i][j] -
+          tau_ * lambda_values_in[i][j < n_shape_bdr_ ? j + n_shape_bdr_ : j - n_shape_bdr_] *
+            hyper_edge.geometry.face_area(i);
       if (is_dirichlet<parameters>(hyper_edge.node_descriptor[i]))
         for (unsigned int j = 0; j < lambda_values_out[i].size() / 2; ++j)
           lambda_values_out[i][j] = 0.;
diff --git a/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx b/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
index 9c02638..9c0179f 100644
--- a/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
+++ b/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
@@ -541,8 +541,10 @@ class BilaplacianParab
     for (unsigned int i = 0; i < lambda_values_out.size(); ++i)
     {
       for (unsigned int j = 0; j < lambda_values_out[i].size(); ++j)
-        lambda_values_out[i][j] = duals[i][j] + tau_ * primals[i][j] -
-                                  tau_ * lambda_values_in[i][j] * hyper_edge.geometry.face_area(i);
+        lambda_values_out[i][j] =
+          duals[i][j] + tau_ * primals[i][j] -
+          tau_ * lambda_values_in[i][j < n_shape_bdr_ ? j + n_shape_bdr_ : j - n_shape_bdr_] *
+            hyper_edge.geometry.face_area(i);
       if (is_dirichlet<parameters>(hyper_edge.node_descriptor[i]))
         for (unsigned int j = 0; j < lambda_values_out[i].size() / 2; ++j)
           lambda_values_out[i][j] = 0.;
-- 
2.43.0


From e4a2880ab01ae7b64ec03e5f275fb3f14c5b2021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:43 +0000
Subject: [PATCH 23/28] fix: initial values of parabolic bilaplacian problems
 on the right faces

---
 include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx b/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
index 9c0179f..9ad4462 100644
--- a/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
+++ b/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
@@ -602,12 +602,13 @@ class BilaplacianParab
           lambda_values[i][j] = integrator::template integrate_bdrUni_psifunc<
             Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
             decltype(hyEdgeT::geometry), parameters::initial, Point<hyEdge_dimT, lSol_float_t>>(
-            i, j, hyper_edge.geometry, time);
+            j, i, hyper_edge.geometry, time);
         for (unsigned int j = lambda_values[i].size() / 2; j < lambda_values[i].size(); ++j)
           lambda_values[i][j] = integrator::template integrate_bdrUni_psifunc<
             Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
             decltype(hyEdgeT::geometry), parameters::initial_laplace,
-            Point<hyEdge_dimT, lSol_float_t>>(i, j, hyper_edge.geometry, time);
+            Point<hyEdge_dimT, lSol_float_t>>(j - lambda_values[i].size() / 2, i,
+                                              hyper_edge.geometry, time);
       }
     }
 
-- 
2.43.0


From 88bbf3c80396e2ffa0e0ee14cc54104418efe08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:43 +0000
Subject: [PATCH 24/28] fix: interior penalty solver evaluates the diffusion
 coefficient at the given time

---
 include/HyperHDG/local_solver/diffusion_ip.hxx | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/HyperHDG/local_solver/diffusion_ip.hxx b/include/HyperHDG/local_solver/diffusion_ip.hxx
index da65b80..0465a2e 100644
--- a/include/HyperHDG/local_solver/diffusion_ip.hxx
+++ b/include/HyperHDG/local_solver/diffusion_ip.hxx
@@ -390,12 +390,14 @@ class DiffusionIP
    * \tparam  hyEdgeT       The geometry type / typename of the considered hyEdge's geometry.
    * \param   coeffs        Coefficients of the local solution.
    * \param   hyper_edge    The geometry of the considered hyperedge (of typename GeomT).
+   * \param   time          Time at which the diffusion coefficient is evaluated.
    * \retval  bdr_coeffs    Coefficients of respective (dim-1) dimensional function at boundaries.
    ************************************************************************************************/
   template <typename hyEdgeT>
   inline SmallMat<2 * hyEdge_dimT, n_shape_bdr_, lSol_float_t> dual_at_boundary(
     const SmallVec<n_loc_dofs_, lSol_float_t>& coeffs,
-    hyEdgeT& hyper_edge) const;
+    hyEdgeT& hyper_edge,
+    const lSol_float_t time) const;
 
  public:
   // -----------------------------------------------------------------------------------------------
@@ -450,7 +452,7 @@ class DiffusionIP
 
     SmallMat<2 * hyEdge_dimT, n_shape_bdr_, lSol_float_t> primals(
       primal_at_boundary(coeffs, hyper_edge)),
-      duals(dual_at_boundary(coeffs, hyper_edge));
+      duals(dual_at_boundary(coeffs, hyper_edge, time));
 
     for (unsigned int i = 0; i < lambda_values_out.size(); ++i)
       if (is_dirichlet<parameters>(hyper_edge.node_descriptor[i]))
@@ -514,7 +516,7 @@ class DiffusionIP
 
     SmallMat<2 * hyEdge_dimT, n_shape_bdr_, lSol_float_t> primals(
       primal_at_boundary(coeffs, hyper_edge)),
-      duals(dual_at_boundary(coeffs, hyper_edge));
+      duals(dual_at_boundary(coeffs, hyper_edge, time));
 
     for (unsigned int i = 0; i < lambda_values_out.size(); ++i)
     {
@@ -633,7 +635,7 @@ DiffusionIP<hyEdge_dimT, poly_deg, quad_deg, parametersT, lSol_float_t>::assembl
         local_mat(i, j) -= integrator::template integrate_bdr_nablaphiphinufunc<
           Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
           decltype(hyEdgeT::geometry), parameters::diffusion_coeff,
-          Point<hyEdge_dimT, lSol_float_t> >(j, i, face, hyper_edge.geometry);
+          Point<hyEdge_dimT, lSol_float_t> >(j, i, face, hyper_edge.geometry, time);
       }
     }
   }
@@ -795,7 +797,8 @@ inline SmallMat<
   lSol_float_t>
 DiffusionIP<hyEdge_dimT, poly_deg, quad_deg, parametersT, lSol_float_t>::dual_at_boundary(
   const SmallVec<n_loc_dofs_, lSol_float_t>& coeffs,
-  hyEdgeT& hyper_edge) const
+  hyEdgeT& hyper_edge,
+  const lSol_float_t time) const
 {
   using parameters = parametersT<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>;
   SmallMat<2 * hyEdge_dimT, n_shape_bdr_, lSol_float_t> bdr_values;
@@ -807,7 +810,7 @@ DiffusionIP<hyEdge_dimT, poly_deg, quad_deg, parametersT, lSol_float_t>::dual_at
           integrator::template integrate_bdr_nablaphipsinufunc<
             Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
             decltype(hyEdgeT::geometry), parameters::diffusion_coeff,
-            Point<hyEdge_dimT, lSol_float_t> >(i, j, face, hyper_edge.geometry) *
+            Point<hyEdge_dimT, lSol_float_t> >(i, j, face, hyper_edge.geometry, time) *
           coeffs[i];
 
   return bdr_values;
-- 
2.43.0


From 432f0e7c99b46b05d1e4289de39eff772da9e544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:43 +0000
Subject: [PATCH 25/28] fix: advective velocity is evaluated at the given time

---
 .../HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx b/include/HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx
index e57447d..574319d 100644
--- a/include/HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx
+++ b/include/HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx
@@ -998,7 +998,7 @@ DiffusionAdvectionReaction<hyEdge_dimT, poly_deg, quad_deg, parametersT, lSol_fl
           integrator::template integrate_vol_phiphivecfunc<
             Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
             decltype(hyEdgeT::geometry), parameters::advective_velocity,
-            Point<hyEdge_dimT, lSol_float_t> >(i, j, dim, hyper_edge.geometry);
+            Point<hyEdge_dimT, lSol_float_t> >(i, j, dim, hyper_edge.geometry, time);
       }
     }
   }
-- 
2.43.0


From 852aacd6bc3c0ae2ed2bbf9d39706c2bbe9d6270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:42 +0000
Subject: [PATCH 26/28] fix: turn C++ exceptions of problem objects into Python
 exceptions

---
 cython/elliptic.pxd                   | 28 +++++++++++++--------------
 cython/mass_approx_eigenvalue.pxd     | 16 +++++++--------
 cython/nonlinear_eigenvalue.pxd       | 16 +++++++--------
 cython/parabolic.pxd                  | 22 ++++++++++-----------
 cython/shifted_inverse_eigenvalue.pxd | 14 +++++++-------
 5 files changed, 48 insertions(+), 48 deletions(-)

diff --git a/cython/elliptic.pxd b/cython/elliptic.pxd
index 98b8e35..c122e02 100644
--- a/cython/elliptic.pxd
+++ b/cython/elliptic.pxd
@@ -7,23 +7,23 @@ cdef extern from "<HyperHDG/global_loop/prototype.hxx>" :
   cdef cppclass sparse_mat "sparse_mat<std::vector< CyReplace03 > >" :
     sparse_mat ( unsigned int ) except +
     sparse_mat () except +
-    vector[ unsigned int ] get_cols()
-    vector[ unsigned int ] get_rows()
-    vector[ CyReplace03 ] get_values()
+    vector[ unsigned int ] get_cols() except +
+    vector[ unsigned int ] get_rows() except +
+    vector[ CyReplace03 ] get_values() except +
 
 cdef extern from "<HyperHDG/global_loop/elliptic.hxx>" :
   cdef cppclass CythonClassName C++ClassName :
     CythonClassName ( CyReplace01 , CyReplace02 , CyReplace04 ) except +
     CythonClassName ( CyReplace01 , CyReplace04 ) except +
     CythonClassName ( CyReplace01 ) except +
-    void read_dirichlet_indices (vector[unsigned int])
-    vector[ CyReplace03 ] zero_vector ()
-    vector[ CyReplace03 ] trace_to_flux (vector[ CyReplace03 ])
-    vector[ CyReplace03 ] residual_flux (vector[ CyReplace03 ])
-    vector[ CyReplace03 ] errors (vector[ CyReplace03 ])
-    int size_of_system ()
-    string plot_option (string, string)
-    void plot_solution (vector[ CyReplace03 ])
-    unsigned int get_refinement()
-    void set_refinement(unsigned int)
-    sparse_mat trace_to_flux_mat()
+    void read_dirichlet_indices (vector[unsigned int]) except +
+    vector[ CyReplace03 ] zero_vector () except +
+    vector[ CyReplace03 ] trace_to_flux (vector[ CyReplace03 ]) except +
+    vector[ CyReplace03 ] residual_flux (vector[ CyReplace03 ]) except +
+    vector[ CyReplace03 ] errors (vector[ CyReplace03 ]) except +
+    int size_of_system () except +
+    string plot_option (string, string) except +
+    void plot_solution (vector[ CyReplace03 ]) except +
+    unsigned int get_refinement() except +
+    void set_refinement(unsigned int) except +
+    sparse_mat trace_to_flux_mat() except +
diff --git a/cython/mass_approx_eigenvalue.pxd b/cython/mass_approx_eigenvalue.pxd
index 0374a51..512212f 100644
--- a/cython/mass_approx_eigenvalue.pxd
+++ b/cython/mass_approx_eigenvalue.pxd
@@ -8,11 +8,11 @@ cdef extern from "<HyperHDG/global_loop/mass_approx_eigenvalue.hxx>" :
     CythonClassName ( CyReplace01 , CyReplace02 , CyReplace04 ) except +
     CythonClassName ( CyReplace01 , CyReplace04 ) except +
     CythonClassName ( CyReplace01 ) except +
-    vector[unsigned int] dirichlet_indices ()
-    vector[ CyReplace03 ] trace_to_flux (vector[ CyReplace03 ], CyReplace03 )
-    vector[ CyReplace03 ] trace_to_mass_flux (vector[ CyReplace03 ], CyReplace03 )
-    int size_of_system ()
-    string plot_option (string, string)
-    void plot_solution (vector[ CyReplace03 ], CyReplace03 )
-    unsigned int get_refinement()
-    void set_refinement(unsigned int)
+    vector[unsigned int] dirichlet_indices () except +
+    vector[ CyReplace03 ] trace_to_flux (vector[ CyReplace03 ], CyReplace03 ) except +
+    vector[ CyReplace03 ] trace_to_mass_flux (vector[ CyReplace03 ], CyReplace03 ) except +
+    int size_of_system () except +
+    string plot_option (string, string) except +
+    void plot_solution (vector[ CyReplace03 ], CyReplace03 ) except +
+    unsigned int get_refinement() except +
+    void set_refinement(unsigned int) except +
diff --git a/cython/nonlinear_eigenvalue.pxd b/cython/nonlinear_eigenvalue.pxd
index b45791a..6bb0e74 100644
--- a/cython/nonlinear_eigenvalue.pxd
+++ b/cython/nonlinear_eigenvalue.pxd
@@ -8,11 +8,11 @@ cdef extern from "<HyperHDG/global_loop/nonlinear_eigenvalue.hxx>" :
     CythonClassName ( CyReplace01 , CyReplace02 , CyReplace04 ) except +
     CythonClassName ( CyReplace01 , CyReplace04 ) except +
     CythonClassName ( CyReplace01 ) except +
-    vector[ CyReplace03 ] trace_to_flux (vector[ CyReplace03 ], CyReplace03 )
-    vector[ CyReplace03 ] jacobian_of_trace_to_flux (vector[ CyReplace03 ], CyReplace03 , vector[ CyReplace03 ], CyReplace03 )
-    vector[ CyReplace03 ] make_initial (vector[ CyReplace03 ], CyReplace03 )
-    int size_of_system ()
-    string plot_option (string, string)
-    void plot_solution (vector[ CyReplace03 ], CyReplace03 )
-    unsigned int get_refinement()
-    void set_refinement(unsigned int)
+    vector[ CyReplace03 ] trace_to_flux (vector[ CyReplace03 ], CyReplace03 ) except +
+    vector[ CyReplace03 ] jacobian_of_trace_to_flux (vector[ CyReplace03 ], CyReplace03 , vector[ CyReplace03 ], CyReplace03 ) except +
+    vector[ CyReplace03 ] make_initial (vector[ CyReplace03 ], CyReplace03 ) except +
+    int size_of_system () except +
+    string plot_option (string, string) except +
+    void plot_solution (vector[ CyReplace03 ], CyReplace03 ) except +
+    unsigned int get_refinement() except +
+    void set_refinement(unsigned int) except +
diff --git a/cython/parabolic.pxd b/cython/parabolic.pxd
index a22fb0d..3ab16ef 100644
--- a/cython/parabolic.pxd
+++ b/cython/parabolic.pxd
@@ -8,14 +8,14 @@ cdef extern from "<HyperHDG/global_loop/parabolic.hxx>" :
     CythonClassName ( CyReplace01 , CyReplace02 , CyReplace04 ) except +
     CythonClassName ( CyReplace01 , CyReplace04 ) except +
     CythonClassName ( CyReplace01 ) except +
-    vector[ CyReplace03 ] zero_vector ()
-    vector[ CyReplace03 ] trace_to_flux (vector[ CyReplace03 ], CyReplace03 )
-    vector[ CyReplace03 ] residual_flux (vector[ CyReplace03 ], CyReplace03 )
-    void set_data (vector[ CyReplace03 ], CyReplace03 )
-    vector[ CyReplace03 ] make_initial (vector[ CyReplace03 ], CyReplace03 )
-    vector[ CyReplace03 ] errors (vector[ CyReplace03 ], CyReplace03 )
-    int size_of_system ()
-    string plot_option (string, string)
-    void plot_solution (vector[ CyReplace03 ], CyReplace03 )
-    unsigned int get_refinement()
-    void set_refinement(unsigned int)
+    vector[ CyReplace03 ] zero_vector () except +
+    vector[ CyReplace03 ] trace_to_flux (vector[ CyReplace03 ], CyReplace03 ) except +
+    vector[ CyReplace03 ] residual_flux (vector[ CyReplace03 ], CyReplace03 ) except +
+    void set_data (vector[ CyReplace03 ], CyReplace03 ) except +
+    vector[ CyReplace03 ] make_initial (vector[ CyReplace03 ], CyReplace03 ) except +
+    vector[ CyReplace03 ] errors (vector[ CyReplace03 ], CyReplace03 ) except +
+    int size_of_system () except +
+    string plot_option (string, string) except +
+    void plot_solution (vector[ CyReplace03 ], CyReplace03 ) except +
+    unsigned int get_refinement() except +
+    void set_refinement(unsigned int) except +
diff --git a/cython/shifted_inverse_eigenvalue.pxd b/cython/shifted_inverse_eigenvalue.pxd
index a6fac91..432c763 100644
--- a/cython/shifted_inverse_eigenvalue.pxd
+++ b/cython/shifted_inverse_eigenvalue.pxd
@@ -8,10 +8,10 @@ cdef extern from "<HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx>" :
     CythonClassName ( CyReplace01 , CyReplace02 , CyReplace04 ) except +
     CythonClassName ( CyReplace01 , CyReplace04 ) except +
     CythonClassName ( CyReplace01 ) except +
-    vector[unsigned int] dirichlet_indices ()
-    vector[ CyReplace03 ] trace_to_flux (vector[ CyReplace03 ], CyReplace03 )
-    int size_of_system ()
-    string plot_option (string, string)
-    void plot_solution (vector[ CyReplace03 ], CyReplace03 )
-    unsigned int get_refinement()
-    void set_refinement(unsigned int)
+    vector[unsigned int] dirichlet_indices () except +
+    vector[ CyReplace03 ] trace_to_flux (vector[ CyReplace03 ], CyReplace03 ) except +
+    int size_of_system () except +
+    string plot_option (string, string) except +
+    void plot_solution (vector[ CyReplace03 ], CyReplace03 ) except +
+    unsigned int get_refinement() except +
+    void set_refinement(unsigned int) except +
-- 
2.43.0


From edcce7a6ac3296440799b70b025e1623a6939728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:42 +0000
Subject: [PATCH 27/28] fix: refuse geometries without local solver arguments
 with an exception

---
 cython/elliptic.pyx                   | 3 +--
 cython/mass_approx_eigenvalue.pyx     | 3 +--
 cython/nonlinear_eigenvalue.pyx       | 3 +--
 cython/parabolic.pyx                  | 3 +--
 cython/shifted_inverse_eigenvalue.pyx | 3 +--
 5 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/cython/elliptic.pyx b/cython/elliptic.pyx
index 01054f7..5da8694 100644
--- a/cython/elliptic.pyx
+++ b/cython/elliptic.pyx
@@ -16,8 +16,7 @@ cdef class PythonClassName :
       if isinstance(geom_constr,str):
         geom_constr = geom_constr.encode()
       if lsol_constr == 'default':
-        print("Python defaults lsol_constr to 1 and might overwrite C++ settings at this point.\n")
-        # self.thisptr = new CythonClassName (topo_constr, geom_constr, 1.)
+        raise ValueError("If geom_constr is given, lsol_constr needs to be given, too.")
       else:
         self.thisptr = new CythonClassName (topo_constr, geom_constr, lsol_constr)
   def __dealloc__(self):
diff --git a/cython/mass_approx_eigenvalue.pyx b/cython/mass_approx_eigenvalue.pyx
index 0184179..7847afb 100644
--- a/cython/mass_approx_eigenvalue.pyx
+++ b/cython/mass_approx_eigenvalue.pyx
@@ -16,8 +16,7 @@ cdef class PythonClassName :
       if isinstance(geom_constr,str):
         geom_constr = geom_constr.encode()
       if lsol_constr == 'default':
-        print("Python defaults lsol_constr to 1 and might overwrite C++ settings at this point.\n")
-        # self.thisptr = new CythonClassName (topo_constr, geom_constr, 1.)
+        raise ValueError("If geom_constr is given, lsol_constr needs to be given, too.")
       else:
         self.thisptr = new CythonClassName (topo_constr, geom_constr, lsol_constr)
   def __dealloc__(self):
diff --git a/cython/nonlinear_eigenvalue.pyx b/cython/nonlinear_eigenvalue.pyx
index 96a2dfb..ceca01a 100644
--- a/cython/nonlinear_eigenvalue.pyx
+++ b/cython/nonlinear_eigenvalue.pyx
@@ -16,8 +16,7 @@ cdef class PythonClassName :
       if isinstance(geom_constr,str):
         geom_constr = geom_constr.encode()
       if lsol_constr == 'default':
-        print("Python defaults lsol_constr to 1 and might overwrite C++ settings at this point.\n")
-        # self.thisptr = new CythonClassName (topo_constr, geom_constr, 1.)
+        raise ValueError("If geom_constr is given, lsol_constr needs to be given, too.")
       else:
         self.thisptr = new CythonClassName (topo_constr, geom_constr, lsol_constr)
   def __dealloc__(self):
diff --git a/cython/parabolic.pyx b/cython/parabolic.pyx
index 002f989..cc3d0c5 100644
--- a/cython/parabolic.pyx
+++ b/cython/parabolic.pyx
@@ -16,8 +16,7 @@ cdef class PythonClassName :
       if isinstance(geom_constr,str):
         geom_constr = geom_constr.encode()
       if lsol_constr == 'default':
-        print("Python defaults lsol_constr to 1 and might overwrite C++ settings at this point.\n")
-        # self.thisptr = new CythonClassName (topo_constr, geom_constr, 1.)
+        raise ValueError("If geom_constr is given, lsol_constr needs to be given, too.")
       else:
         self.thisptr = new CythonClassName (topo_constr, geom_constr, lsol_constr)
   def __dealloc__(self):
diff --git a/cython/shifted_inverse_eigenvalue.pyx b/cython/shifted_inverse_eigenvalue.pyx
index 7306198..042f34b 100644
--- a/cython/shifted_inverse_eigenvalue.pyx
+++ b/cython/shifted_inverse_eigenvalue.pyx
@@ -16,8 +16,7 @@ cdef class PythonClassName :
       if isinstance(geom_constr,str):
         geom_constr = geom_constr.encode()
       if lsol_constr == 'default':
-        print("Python defaults lsol_constr to 1 and might overwrite C++ settings at this point.\n")
-        # self.thisptr = new CythonClassName (topo_constr, geom_constr, 1.)
+        raise ValueError("If geom_constr is given, lsol_constr needs to be given, too.")
       else:
         self.thisptr = new CythonClassName (topo_constr, geom_constr, lsol_constr)
   def __dealloc__(self):
-- 
2.43.0


From 58edd222f4267222900fd5e2d7071c46e34f18ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:42 +0000
Subject: [PATCH 28/28] fix: keep the domain information of geometries from
 files alive

---
 include/HyperHDG/geometry/file.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HyperHDG/geometry/file.hxx b/include/HyperHDG/geometry/file.hxx
index a4731e0..27797b9 100644
--- a/include/HyperHDG/geometry/file.hxx
+++ b/include/HyperHDG/geometry/file.hxx
@@ -320,7 +320,7 @@ class File
                    pointT,
                    hyEdge_index_t,
                    hyNode_index_t,
-                   pt_index_t>& domain_info_;
+                   pt_index_t> domain_info_;
 
   /*!***********************************************************************************************
    * \brief   Refinment level corresponds to number of subintervals per dimension.
-- 
2.43.0


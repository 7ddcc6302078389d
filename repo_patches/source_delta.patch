From 4dd86f918da5eda5faadb72e8f472f1240324bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:55 +0000
Subject: [PATCH 01/36] fix: archive the principal axes of an ellipsoid

---
 include/pf-applications/grain_tracker/ellipsoid.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/pf-applications/grain_tracker/ellipsoid.h b/include/pf-applications/grain_tracker/ellipsoid.h
index 3ea3c0a..8d326f2 100644
--- a/include/pf-applications/grain_tracker/ellipsoid.h
+++ b/include/pf-applications/grain_tracker/ellipsoid.h
@@ -202,6 +202,7 @@ namespace GrainTracker
       ar &radii;
       ar &r_min;
       ar &r_max;
+      ar &axes;
       ar &center;
     }
 
-- 
2.43.0


From 3406ceb5b90d89dbbdb30c966345e719d2c1c0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:55 +0000
Subject: [PATCH 02/36] fix: restore the number of time steps stored by
 explicit time integrator data

---
 include/pf-applications/time_integration/time_integrator_data.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pf-applications/time_integration/time_integrator_data.h b/include/pf-applications/time_integration/time_integrator_data.h
index 8f1229d..eda4ff9 100644
--- a/include/pf-applications/time_integration/time_integrator_data.h
+++ b/include/pf-applications/time_integration/time_integrator_data.h
@@ -197,7 +197,7 @@ namespace TimeIntegration
     load(Archive &ar, const unsigned int /*version*/)
     {
       ar &order;
-      dt.resize(order);
+      dt.resize(std::max(order, 1U)); // same length as in the constructors
       weights.resize(order + 1);
 
       ar &boost::serialization::make_array(dt.data(), dt.size());
-- 
2.43.0


From 6074be833883c46340fc0076ace5046f133e0131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:43 +0000
Subject: [PATCH 03/36] fix: register the grain representations with the
 restart archives

---
 .../include/pf-applications/sintering/driver.h        |  2 ++
 .../pf-applications/grain_tracker/representation.h    | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/applications/sintering/include/pf-applications/sintering/driver.h b/applications/sintering/include/pf-applications/sintering/driver.h
index 475cddd..d537e31 100644
--- a/applications/sintering/include/pf-applications/sintering/driver.h
+++ b/applications/sintering/include/pf-applications/sintering/driver.h
@@ -343,6 +343,7 @@ namespace Sintering
       // Load grains
       std::ifstream                   in_stream_gt(restart_path + "_grains");
       boost::archive::binary_iarchive figt(in_stream_gt);
+      GrainTracker::register_representations<dim>(figt);
       std::vector<GrainTracker::Grain<dim>> grains;
       figt >> grains;
 
@@ -2612,6 +2613,7 @@ namespace Sintering
                     // Save grains
                     std::ofstream out_stream_gt(prefix + "_grains");
                     boost::archive::binary_oarchive       fogt(out_stream_gt);
+                    GrainTracker::register_representations<dim>(fogt);
                     std::vector<GrainTracker::Grain<dim>> grains;
                     grain_tracker.save_grains(std::back_inserter(grains));
                     fogt << grains;
diff --git a/include/pf-applications/grain_tracker/representation.h b/include/pf-applications/grain_tracker/representation.h
index e864cc0..0fbddc6 100644
--- a/include/pf-applications/grain_tracker/representation.h
+++ b/include/pf-applications/grain_tracker/representation.h
@@ -371,4 +371,15 @@ namespace GrainTracker
     Point<dim>                                              center;
     std::map<std::pair<unsigned int, unsigned int>, double> distances;
   };
+
+  // Segments are archived via a pointer to the base class, so each archive
+  // needs to know the derived classes before any of them is saved or loaded
+  template <int dim, typename Archive>
+  void
+  register_representations(Archive &ar)
+  {
+    ar.template register_type<RepresentationSpherical<dim>>();
+    ar.template register_type<RepresentationElliptical<dim>>();
+    ar.template register_type<RepresentationWavefront<dim>>();
+  }
 } // namespace GrainTracker
-- 
2.43.0


From a22bc32409e4193f98ca379c2df39f90f2317f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:03 +0000
Subject: [PATCH 04/36] fix: receive the particle colors with their own MPI
 datatype

---
 src/grain_tracker/distributed_stitching.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grain_tracker/distributed_stitching.cc b/src/grain_tracker/distributed_stitching.cc
index 9a8d013..a6b3d0c 100644
--- a/src/grain_tracker/distributed_stitching.cc
+++ b/src/grain_tracker/distributed_stitching.cc
@@ -93,7 +93,7 @@ GrainTracker::perform_distributed_stitching_via_graph(
                MPI_UNSIGNED,
                my_colors.data(),
                my_colors.size(),
-               MPI_INT,
+               MPI_UNSIGNED,
                0,
                comm);
 
-- 
2.43.0


From 3b81405a4f99ee2dfdbc7629bebd87e3deab8d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:03 +0000
Subject: [PATCH 05/36] fix: start the upper corner of bounding boxes from the
 lowest value

---
 .../include/pf-applications/sintering/initial_values_cloud.h    | 2 +-
 .../sintering/include/pf-applications/sintering/projection.h    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/initial_values_cloud.h b/applications/sintering/include/pf-applications/sintering/initial_values_cloud.h
index 49d5626..11d8360 100644
--- a/applications/sintering/include/pf-applications/sintering/initial_values_cloud.h
+++ b/applications/sintering/include/pf-applications/sintering/initial_values_cloud.h
@@ -71,7 +71,7 @@ namespace Sintering
       for (unsigned int i = 0; i < dim; i++)
         {
           boundaries.first[i]  = std::numeric_limits<double>::max();
-          boundaries.second[i] = std::numeric_limits<double>::min();
+          boundaries.second[i] = std::numeric_limits<double>::lowest();
         }
 
       for (const auto &p : particles)
diff --git a/applications/sintering/include/pf-applications/sintering/projection.h b/applications/sintering/include/pf-applications/sintering/projection.h
index 4d2779a..c383259 100644
--- a/applications/sintering/include/pf-applications/sintering/projection.h
+++ b/applications/sintering/include/pf-applications/sintering/projection.h
@@ -272,7 +272,7 @@ namespace Sintering
       // For projections we get here the output per processor only and need to
       // build a largest bounding box manually.
       auto bb_min = create_array<dim>(std::numeric_limits<Number>::max());
-      auto bb_max = create_array<dim>(std::numeric_limits<Number>::min());
+      auto bb_max = create_array<dim>(std::numeric_limits<Number>::lowest());
 
       if (background_dof_handler.n_dofs() > 0)
         {
-- 
2.43.0


From 66d116d92d37a335b8f1ace777bf70567cfdae6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:03 +0000
Subject: [PATCH 06/36] fix: initialise the stationary equation flag of
 explicit time marching

---
 include/pf-applications/time_integration/time_marching.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pf-applications/time_integration/time_marching.h b/include/pf-applications/time_integration/time_marching.h
index 58a3722..2079387 100644
--- a/include/pf-applications/time_integration/time_marching.h
+++ b/include/pf-applications/time_integration/time_marching.h
@@ -819,7 +819,7 @@ namespace TimeIntegration
     VectorType vec_p;
     VectorType increment;
 
-    bool has_stationary_equations;
+    bool has_stationary_equations = false;
   };
 
 #ifdef DEAL_II_WITH_SUNDIALS
-- 
2.43.0


From 3c3e0396fd0aaa41a93eb2bbb9e659869ef6035e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:03 +0000
Subject: [PATCH 07/36] fix: collect pointers of block vector wrappers by
 appending

---
 include/pf-applications/numerics/output.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/pf-applications/numerics/output.h b/include/pf-applications/numerics/output.h
index 40bfaca..72e2176 100644
--- a/include/pf-applications/numerics/output.h
+++ b/include/pf-applications/numerics/output.h
@@ -43,18 +43,20 @@ namespace Sintering
       BlockVectorWrapper(const std::vector<T> &v)
       {
         data.reserve(v.size());
-        std::transform(v.begin(), v.end(), data.begin(), [](const auto &item) {
-          return &item;
-        });
+        std::transform(v.begin(),
+                       v.end(),
+                       std::back_inserter(data),
+                       [](const auto &item) { return &item; });
       }
 
       template <typename Iterator>
       BlockVectorWrapper(Iterator begin, Iterator end)
       {
         data.reserve(std::distance(begin, end));
-        std::transform(begin, end, data.begin(), [](const auto &item) {
-          return &item;
-        });
+        std::transform(begin,
+                       end,
+                       std::back_inserter(data),
+                       [](const auto &item) { return &item; });
       }
 
       const typename std::vector<T>::value_type &
-- 
2.43.0


From 4e21596344e068640d2c8641e9440a17beffbc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:03 +0000
Subject: [PATCH 08/36] fix: initialise the direction mask of clamped sections

---
 .../sintering/include/pf-applications/sintering/driver.h        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/sintering/include/pf-applications/sintering/driver.h b/applications/sintering/include/pf-applications/sintering/driver.h
index d537e31..183843f 100644
--- a/applications/sintering/include/pf-applications/sintering/driver.h
+++ b/applications/sintering/include/pf-applications/sintering/driver.h
@@ -1748,7 +1748,7 @@ namespace Sintering
             ScopedName sc("impose_boundary_conditions");
             MyScope    scope(timer, sc);
 
-            std::array<bool, dim> directions_mask;
+            std::array<bool, dim> directions_mask{};
             for (const auto &d : params.boundary_conditions.direction)
               if (d < dim)
                 directions_mask[d] = true;
-- 
2.43.0


From f1939c9fce5a6e53212d01d213a8baaae2a1cae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:03 +0000
Subject: [PATCH 09/36] fix: restore only the constrained entries in the
 operator product

---
 .../include/pf-applications/sintering/operator_base.h      | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/operator_base.h b/applications/sintering/include/pf-applications/sintering/operator_base.h
index 7da3b71..ef47942 100644
--- a/applications/sintering/include/pf-applications/sintering/operator_base.h
+++ b/applications/sintering/include/pf-applications/sintering/operator_base.h
@@ -275,13 +275,6 @@ namespace Sintering
                   src.local_element(constrained_indices[i] * user_comp + b);
               }
 
-          for (unsigned int i = 0; i < constrained_indices.size(); ++i)
-            {
-              const_cast<VectorType &>(src).local_element(
-                constrained_indices[i]) = constrained_values_src[i];
-              dst.local_element(constrained_indices[i]) =
-                constrained_values_src[i];
-            }
         }
       else
         {
-- 
2.43.0


From 76835efd12984e090c9b654b3ac041c550d9204d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:45 +0000
Subject: [PATCH 10/36] fix: end the recursion of the sintering operator
 product

---
 .../pf-applications/sintering/operator_sintering_generic.h  | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/operator_sintering_generic.h b/applications/sintering/include/pf-applications/sintering/operator_sintering_generic.h
index 9bef720..ec52615 100644
--- a/applications/sintering/include/pf-applications/sintering/operator_sintering_generic.h
+++ b/applications/sintering/include/pf-applications/sintering/operator_sintering_generic.h
@@ -450,7 +450,8 @@ namespace Sintering
     void
     vmult_internal(VectorType &dst, const VectorType &src) const override
     {
-      OperatorBase<dim, Number, VectorizedArrayType, T>::vmult(dst, src);
+      OperatorBase<dim, Number, VectorizedArrayType, T>::vmult_internal(dst,
+                                                                        src);
     }
 
     void
@@ -610,7 +611,8 @@ namespace Sintering
       LinearAlgebra::distributed::BlockVector<Number>       &dst,
       const LinearAlgebra::distributed::BlockVector<Number> &src) const override
     {
-      OperatorBase<dim, Number, VectorizedArrayType, T>::vmult(dst, src);
+      OperatorBase<dim, Number, VectorizedArrayType, T>::vmult_internal(dst,
+                                                                        src);
     }
 
     unsigned int
-- 
2.43.0


From 9fd64f7079abe0ab88567cd8365cf952b4db733d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:45 +0000
Subject: [PATCH 11/36] fix: move removed order parameters behind the
 displacements

---
 .../sintering/include/pf-applications/sintering/driver.h        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/sintering/include/pf-applications/sintering/driver.h b/applications/sintering/include/pf-applications/sintering/driver.h
index 183843f..b881f64 100644
--- a/applications/sintering/include/pf-applications/sintering/driver.h
+++ b/applications/sintering/include/pf-applications/sintering/driver.h
@@ -1656,7 +1656,7 @@ namespace Sintering
                     if (distance > 0)
                       for (auto &sol : all_solution_vectors)
                         for (unsigned int i = sintering_data.n_components() - 1;
-                             i >= n_components_new;
+                             i >= n_components_new - distance;
                              --i)
                           sol->move_block(i, i + distance);
                   }
-- 
2.43.0


From e01be03edd170a84be7011668721fab78ac99343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:45 +0000
Subject: [PATCH 12/36] fix: follow the archived flag when deciding on
 repartitioning at restart

---
 .../sintering/include/pf-applications/sintering/driver.h        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/sintering/include/pf-applications/sintering/driver.h b/applications/sintering/include/pf-applications/sintering/driver.h
index b881f64..46a2e04 100644
--- a/applications/sintering/include/pf-applications/sintering/driver.h
+++ b/applications/sintering/include/pf-applications/sintering/driver.h
@@ -403,7 +403,7 @@ namespace Sintering
       // non-flexible restart filed, we need to repartition here, since
       // Triangulation::load() does not guarantee that the saved and loaded
       // files are identical
-      if (params.restart_data.flexible_output == false)
+      if (flexible_output == false)
         tria.repartition();
 
       // 3) initialize data structures
-- 
2.43.0


From 637f3feb49757e972e5072bd7666cc71e49ff572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:45 +0000
Subject: [PATCH 13/36] fix: keep the block indices of views and reordered
 block vectors current

---
 include/pf-applications/lac/dynamic_block_vector.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/pf-applications/lac/dynamic_block_vector.h b/include/pf-applications/lac/dynamic_block_vector.h
index e84f10d..6401c5d 100644
--- a/include/pf-applications/lac/dynamic_block_vector.h
+++ b/include/pf-applications/lac/dynamic_block_vector.h
@@ -185,6 +185,8 @@ namespace dealii
             const_cast<DynamicBlockVector<T> *>(view.get())
               ->blocks.push_back(blocks[i]);
 
+          const_cast<DynamicBlockVector<T> *>(view.get())->collect_sizes();
+
           return view;
         }
 
@@ -199,6 +201,8 @@ namespace dealii
           for (unsigned int i = start; i < end; ++i)
             view->blocks.push_back(blocks[i]);
 
+          view->collect_sizes();
+
           return view;
         }
 
@@ -256,6 +260,8 @@ namespace dealii
               blocks[i] = blocks[i + 1];
 
           blocks[to] = tmp;
+
+          collect_sizes();
         }
 
         void
-- 
2.43.0


From 1e0394ac4c32f6be731a676181bed1151a9a8a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:45 +0000
Subject: [PATCH 14/36] fix: name the scopes of the problem setup

---
 .../include/pf-applications/sintering/driver.h     | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/driver.h b/applications/sintering/include/pf-applications/sintering/driver.h
index 46a2e04..8dea681 100644
--- a/applications/sintering/include/pf-applications/sintering/driver.h
+++ b/applications/sintering/include/pf-applications/sintering/driver.h
@@ -176,7 +176,7 @@ namespace Sintering
                           params.approximation_data.n_subdivisions))
       , dof_handler(tria)
     {
-      MyScope("Problem::constructor");
+      MyScope scope("Problem::constructor");
 
       fe = create_fe(params.approximation_data.fe_degree,
                      params.approximation_data.n_subdivisions);
@@ -301,7 +301,7 @@ namespace Sintering
                           params.approximation_data.n_subdivisions))
       , dof_handler(tria)
     {
-      MyScope("Problem::constructor");
+      MyScope scope("Problem::constructor");
 
       fe = create_fe(params.approximation_data.fe_degree,
                      params.approximation_data.n_subdivisions);
@@ -503,7 +503,7 @@ namespace Sintering
     unsigned int
     create_grid(InitialMesh initial_mesh, InitialRefine global_refine)
     {
-      MyScope("Problem::create_grid");
+      MyScope scope("Problem::create_grid");
 
       std::pair<dealii::Point<dim>, dealii::Point<dim>> boundaries;
 
@@ -613,14 +613,14 @@ namespace Sintering
       // setup DoFHandlers, ...
       if (true)
         {
-          MyScope("Problem::initialize::dofhandler");
+          MyScope scope("Problem::initialize::dofhandler");
           dof_handler.distribute_dofs(*fe);
         }
 
       // ... constraints, and ...
       if (true)
         {
-          MyScope("Problem::initialize::constraints");
+          MyScope scope("Problem::initialize::constraints");
           constraints.clear();
           constraints.reinit(dof_handler.locally_owned_dofs(),
                              DoFTools::extract_locally_relevant_dofs(
@@ -649,7 +649,7 @@ namespace Sintering
       // ... MatrixFree
       if (true)
         {
-          MyScope("Problem::initialize::matrix_free");
+          MyScope scope("Problem::initialize::matrix_free");
           typename MatrixFree<dim, Number, VectorizedArrayType>::AdditionalData
             additional_data;
           additional_data.mapping_update_flags =
@@ -677,7 +677,7 @@ namespace Sintering
             (params.preconditioners_data.block_preconditioner_2_data.block_1
                .type == "BlockGMG"))))
         {
-          MyScope("Problem::initialize::multigrid");
+          MyScope scope("Problem::initialize::multigrid");
 
           mg_triangulations = MGTransferGlobalCoarseningTools::
             create_geometric_coarsening_sequence(tria);
-- 
2.43.0


From fafd5afe75a36f22d676e678a9f2631f0d2ec3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:56 +0000
Subject: [PATCH 15/36] fix: copy the statistics flag into the stored solver
 callbacks

---
 .../pf-applications/time_integration/time_marching.h   | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/pf-applications/time_integration/time_marching.h b/include/pf-applications/time_integration/time_marching.h
index 2079387..7ac4ad5 100644
--- a/include/pf-applications/time_integration/time_marching.h
+++ b/include/pf-applications/time_integration/time_marching.h
@@ -137,7 +137,10 @@ namespace TimeIntegration
 
       // Lambda to set up jacobian
       const auto nl_setup_jacobian =
-        [&, slp = std::move(setup_linearization_point), nl_residual](
+        [&,
+         slp = std::move(setup_linearization_point),
+         nl_residual,
+         print_stats](
           const auto &current_u) {
           ScopedName sc("setup_jacobian");
           MyScope    scope(timer, sc);
@@ -166,7 +169,10 @@ namespace TimeIntegration
 
       // Lambda to update preconditioner
       const auto nl_setup_preconditioner =
-        [&, scp = std::move(setup_custom_preconditioner), nl_residual](
+        [&,
+         scp = std::move(setup_custom_preconditioner),
+         nl_residual,
+         print_stats](
           const auto &current_u) {
           ScopedName sc("setup_preconditioner");
           MyScope    scope(timer, sc);
-- 
2.43.0


From 6aa544881cc92bf65ac3b7c4ed9a296a4fa11308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:36 +0000
Subject: [PATCH 16/36] fix: write the shared restart files by the first
 process only

---
 .../pf-applications/sintering/driver.h        | 51 ++++++++++---------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/driver.h b/applications/sintering/include/pf-applications/sintering/driver.h
index 8dea681..959248c 100644
--- a/applications/sintering/include/pf-applications/sintering/driver.h
+++ b/applications/sintering/include/pf-applications/sintering/driver.h
@@ -2599,29 +2599,34 @@ namespace Sintering
                         tria.save(prefix + "_tria");
                       }
 
-                    std::ofstream out_stream(prefix + "_driver");
-                    boost::archive::binary_oarchive fosb(out_stream);
-                    fosb << params.restart_data.flexible_output;
-                    fosb << params.restart_data.full_history;
-                    fosb << Utilities::MPI::n_mpi_processes(MPI_COMM_WORLD);
-                    fosb << sintering_data.n_components();
-                    fosb << solution.n_blocks();
-                    fosb << static_cast<unsigned int>(solution_ptr.size());
-
-                    fosb << *this;
-
-                    // Save grains
-                    std::ofstream out_stream_gt(prefix + "_grains");
-                    boost::archive::binary_oarchive       fogt(out_stream_gt);
-                    GrainTracker::register_representations<dim>(fogt);
-                    std::vector<GrainTracker::Grain<dim>> grains;
-                    grain_tracker.save_grains(std::back_inserter(grains));
-                    fogt << grains;
-
-                    // Save time data
-                    std::ofstream out_stream_time(prefix + "_time");
-                    boost::archive::binary_oarchive fos_time(out_stream_time);
-                    fos_time << sintering_data.time_data;
+                    // The remaining files are identical for all processes
+                    if (Utilities::MPI::this_mpi_process(MPI_COMM_WORLD) == 0)
+                      {
+                        std::ofstream out_stream(prefix + "_driver");
+                        boost::archive::binary_oarchive fosb(out_stream);
+                        fosb << params.restart_data.flexible_output;
+                        fosb << params.restart_data.full_history;
+                        fosb << Utilities::MPI::n_mpi_processes(MPI_COMM_WORLD);
+                        fosb << sintering_data.n_components();
+                        fosb << solution.n_blocks();
+                        fosb << static_cast<unsigned int>(solution_ptr.size());
+
+                        fosb << *this;
+
+                        // Save grains
+                        std::ofstream out_stream_gt(prefix + "_grains");
+                        boost::archive::binary_oarchive fogt(out_stream_gt);
+                        GrainTracker::register_representations<dim>(fogt);
+                        std::vector<GrainTracker::Grain<dim>> grains;
+                        grain_tracker.save_grains(std::back_inserter(grains));
+                        fogt << grains;
+
+                        // Save time data
+                        std::ofstream out_stream_time(prefix + "_time");
+                        boost::archive::binary_oarchive fos_time(
+                          out_stream_time);
+                        fos_time << sintering_data.time_data;
+                      }
                   }
 
                 /* If the mesh quality control is enabled we then perform one of
-- 
2.43.0


From cf547e44a4d77edf9a72f5b0112f33b7d89ae988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:50 +0000
Subject: [PATCH 17/36] fix: drop the factor of the surface term from the
 derivative of the volume mobility

---
 .../sintering/include/pf-applications/sintering/mobility.h   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/mobility.h b/applications/sintering/include/pf-applications/sintering/mobility.h
index b97a278..9248c72 100644
--- a/applications/sintering/include/pf-applications/sintering/mobility.h
+++ b/applications/sintering/include/pf-applications/sintering/mobility.h
@@ -676,7 +676,7 @@ namespace Sintering
       (void)etas_grad;
 
       const auto c2_1minusc2 = 4.0 * c * c * (1. - c) * (1. - c);
-      const auto dphidc      = 30.0 * c2_1minusc2;
+      const auto dphidc      = 30.0 * c * c * (1. - c) * (1. - c);
 
       // Volumetric and vaporization parts, the same as for isotropic
       auto dMdc = diagonal_matrix<dim>((Mvol - Mvap) * dphidc);
@@ -851,7 +851,8 @@ namespace Sintering
       {
         const auto c2_1minusc2 = 4.0 * lin_c_value * lin_c_value *
                                  (1. - lin_c_value) * (1. - lin_c_value);
-        const auto dphidc = 30.0 * c2_1minusc2;
+        const auto dphidc = 30.0 * lin_c_value * lin_c_value *
+                            (1. - lin_c_value) * (1. - lin_c_value);
 
         // Volumetric and vaporization parts, the same as for isotropic
         const auto f_vol_vap = (Mvol - Mvap) * dphidc;
-- 
2.43.0


From d490587fea8e7e2e154d1f800496ac60c0fb1f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:50 +0000
Subject: [PATCH 18/36] fix: scale the surface projector in the linearised
 mobility like in the mobility

---
 .../sintering/include/pf-applications/sintering/mobility.h     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/applications/sintering/include/pf-applications/sintering/mobility.h b/applications/sintering/include/pf-applications/sintering/mobility.h
index 9248c72..32a7b22 100644
--- a/applications/sintering/include/pf-applications/sintering/mobility.h
+++ b/applications/sintering/include/pf-applications/sintering/mobility.h
@@ -844,7 +844,8 @@ namespace Sintering
                            ((1. - lin_c_value) * (1. - lin_c_value));
 
         out =
-          (f_vol_vap + fsurf) * mu_gradient - nc * (fsurf * (nc * mu_gradient));
+          (f_vol_vap + fsurf * projector_scale) * mu_gradient -
+          nc * (fsurf * (nc * mu_gradient));
       }
 
       // 2) for dM_dc
-- 
2.43.0


From 0d1e53d11d6f1b348096b08c9f695991703ea0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:51 +0000
Subject: [PATCH 19/36] fix: initialise the sum in the Hessian product of the
 grain growth energy

---
 .../include/pf-applications/sintering/operator_grain_growth.h   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/sintering/include/pf-applications/sintering/operator_grain_growth.h b/applications/sintering/include/pf-applications/sintering/operator_grain_growth.h
index f5c0b18..4fd7dd5 100644
--- a/applications/sintering/include/pf-applications/sintering/operator_grain_growth.h
+++ b/applications/sintering/include/pf-applications/sintering/operator_grain_growth.h
@@ -250,7 +250,7 @@ namespace Sintering
       if (n_grains <= 1)
         return; // nothing to do
 
-      VectorizedArrayType temp;
+      VectorizedArrayType temp = etas[0] * value[0];
 
       for (unsigned int ig = 1; ig < n_grains; ++ig)
         temp += etas[ig] * value[ig];
-- 
2.43.0


From 33abe391a5d15daeab6e25b0a97a48b2a84a81d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:51 +0000
Subject: [PATCH 20/36] fix: evaluate the interface energy of the grand
 potential like its derivatives

---
 .../sintering/operator_grand_potential_greenquist.h           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/operator_grand_potential_greenquist.h b/applications/sintering/include/pf-applications/sintering/operator_grand_potential_greenquist.h
index d58ec61..8b2b316 100644
--- a/applications/sintering/include/pf-applications/sintering/operator_grand_potential_greenquist.h
+++ b/applications/sintering/include/pf-applications/sintering/operator_grand_potential_greenquist.h
@@ -399,8 +399,8 @@ namespace Sintering
       VectorizedArrayType
       zeta() const
       {
-        return phasesPower4Sum + gamma * mixed_sum2 +
-               VectorizedArrayType(1. / 4.);
+        return 0.25 * phasesPower4Sum - 0.5 * phasesPower2Sum +
+               0.5 * gamma * mixed_sum2 + VectorizedArrayType(1. / 4.);
       }
 
       VectorizedArrayType
-- 
2.43.0


From a45519d67e8aa08a6aca578dee2bbef52451bf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:36 +0000
Subject: [PATCH 21/36] fix: evaluate a piecewise function with a single point

---
 include/pf-applications/numerics/functions.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/pf-applications/numerics/functions.h b/include/pf-applications/numerics/functions.h
index 15083df..600e745 100644
--- a/include/pf-applications/numerics/functions.h
+++ b/include/pf-applications/numerics/functions.h
@@ -72,6 +72,10 @@ public:
       {
         return 0.;
       }
+    else if (pairs.size() == 1)
+      {
+        return pairs.front().second;
+      }
     else
       {
         auto it = std::lower_bound(pairs.begin(),
-- 
2.43.0


From ade4bf6fd018ef066d8e66d237f6732f4a359ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 22/36] fix: handle processes without cells in the cut-off
 statistic

---
 .../pf-applications/sintering/operator_sintering_data.h      | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h b/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h
index 706e801..2acf532 100644
--- a/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h
+++ b/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h
@@ -247,8 +247,9 @@ namespace Sintering
       // some statistics
       const auto print_stat = [&pcout,
                                &comm](std::vector<unsigned int> &counters) {
-        unsigned int max_value =
-          *std::max_element(counters.begin(), counters.end());
+        unsigned int max_value = 0;
+        if (!counters.empty())
+          max_value = *std::max_element(counters.begin(), counters.end());
         max_value = Utilities::MPI::max(max_value, comm);
 
         std::vector<unsigned int> max_values(max_value + 1, 0);
-- 
2.43.0


From a27c28056f172de22a72fad6907e3f8c2985d3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 23/36] fix: initialise all lanes of the cut-off statistic

---
 .../include/pf-applications/sintering/operator_sintering_data.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h b/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h
index 2acf532..49f95ff 100644
--- a/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h
+++ b/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h
@@ -166,7 +166,7 @@ namespace Sintering
       table_lanes.reinit({n_cells, VectorizedArrayType::size()});
 
       for (unsigned int i = 0; i < n_cells; ++i)
-        for (unsigned int j = 0; j < n_grains(); ++j)
+        for (unsigned int j = 0; j < VectorizedArrayType::size(); ++j)
           table_lanes[i][j] = numbers::invalid_unsigned_int;
 
       component_table.reinit({n_cells, n_grains()});
-- 
2.43.0


From bfc3b31708fdf7a001a22acff874cf0e022ae421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 24/36] fix: apply the cut-off to order parameter blocks only

---
 .../pf-applications/sintering/operator_sintering_data.h        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h b/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h
index 49f95ff..df3d113 100644
--- a/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h
+++ b/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h
@@ -355,7 +355,8 @@ namespace Sintering
                   auto gradient = phi.get_gradient(q);
 
                   if ((component_table.size(0) > 0) &&
-                      (c >= op_components_offset))
+                      (c >= op_components_offset) &&
+                      (c < op_components_offset + n_grains()))
                     if (component_table[cell][c - op_components_offset] ==
                         false)
                       {
-- 
2.43.0


From 310b088a591fee9e7fd3cfdbc41ee65265fba7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 25/36] fix: map the order parameter to the relevant one once
 in the advection velocity

---
 .../sintering/include/pf-applications/sintering/advection.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/advection.h b/applications/sintering/include/pf-applications/sintering/advection.h
index b6492d1..4a6631b 100644
--- a/applications/sintering/include/pf-applications/sintering/advection.h
+++ b/applications/sintering/include/pf-applications/sintering/advection.h
@@ -248,13 +248,11 @@ namespace Sintering
     get_velocity(const unsigned int                     order_parameter_id,
                  const Point<dim, VectorizedArrayType> &r) const
     {
-      const auto relevant_id = get_relevant_id(order_parameter_id);
-
       // Translational velocity
-      const auto vt = get_translation_velocity(relevant_id);
+      const auto vt = get_translation_velocity(order_parameter_id);
 
       // Rotational velocity
-      const auto vr = get_rotation_velocity(relevant_id, r);
+      const auto vr = get_rotation_velocity(order_parameter_id, r);
 
       // Total advection velocity
       const auto v_adv = vt + vr;
-- 
2.43.0


From 6e5ef21a0013a138d5bb193c3de2e0957893fe85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 26/36] fix: skip the exchange of remote points without
 particles

---
 include/pf-applications/grain_tracker/distributed_stitching.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pf-applications/grain_tracker/distributed_stitching.h b/include/pf-applications/grain_tracker/distributed_stitching.h
index 88c6108..2def0ed 100644
--- a/include/pf-applications/grain_tracker/distributed_stitching.h
+++ b/include/pf-applications/grain_tracker/distributed_stitching.h
@@ -369,7 +369,7 @@ namespace GrainTracker
                   comm);
 
     // Exchange the remote points
-    if (evaluate_remotes)
+    if (evaluate_remotes && n_particles > 0)
       {
         // If the current rank is not the owner of the furthest point, then we
         // nullify it since we perform a global summation later.
-- 
2.43.0


From cc8cb218eddc2cb857ab7e84dd5ed43584a9649a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:17 +0000
Subject: [PATCH 27/36] fix: give the tracker's segment count a value before
 the first setup

---
 include/pf-applications/grain_tracker/tracker.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pf-applications/grain_tracker/tracker.h b/include/pf-applications/grain_tracker/tracker.h
index ef85d8b..e0406c6 100644
--- a/include/pf-applications/grain_tracker/tracker.h
+++ b/include/pf-applications/grain_tracker/tracker.h
@@ -1939,7 +1939,7 @@ namespace GrainTracker
     const unsigned int order_parameters_offset;
 
     // Total number of segments
-    unsigned int n_total_segments;
+    unsigned int n_total_segments = 0;
 
     // Use detailed logging
     const bool do_logging;
-- 
2.43.0


From 24fb5cddb504d6545cb732267734cca9903d970d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:17 +0000
Subject: [PATCH 28/36] fix: give the number of components of the operator data
 an initial value

---
 .../include/pf-applications/sintering/operator_sintering_data.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h b/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h
index df3d113..013200d 100644
--- a/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h
+++ b/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h
@@ -500,7 +500,7 @@ namespace Sintering
 
     mutable Table<2, bool> component_table;
 
-    unsigned int number_of_components;
+    unsigned int number_of_components = 0;
 
     LinearAlgebra::distributed::DynamicBlockVector<Number> history_vector;
 
-- 
2.43.0


From a20719f016fb2f6c45bd2aaf328cb5e708894a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:17 +0000
Subject: [PATCH 29/36] fix: initialise the solution norm of the Jacobian-free
 operator

---
 include/pf-applications/lac/jacobian_operator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pf-applications/lac/jacobian_operator.h b/include/pf-applications/lac/jacobian_operator.h
index 81a99b9..7238f80 100644
--- a/include/pf-applications/lac/jacobian_operator.h
+++ b/include/pf-applications/lac/jacobian_operator.h
@@ -267,7 +267,7 @@ namespace NonLinearSolvers
     mutable BlockVectorType u;
     mutable BlockVectorType residual_u;
 
-    mutable value_type u_l2_norm;
+    mutable value_type u_l2_norm = 0;
 
     mutable MyTimerOutput timer;
   };
-- 
2.43.0


From d844b3f73d22553f5324ab5e0c38f0f7db913982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:17 +0000
Subject: [PATCH 30/36] fix: initialise the time step of the implicit
 Allen-Cahn operator

---
 applications/cahn_hilliard/cahn_hilliard_impl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/cahn_hilliard/cahn_hilliard_impl.cc b/applications/cahn_hilliard/cahn_hilliard_impl.cc
index fcd66f6..1576db5 100644
--- a/applications/cahn_hilliard/cahn_hilliard_impl.cc
+++ b/applications/cahn_hilliard/cahn_hilliard_impl.cc
@@ -377,7 +377,7 @@ private:
   const MatrixFree<dim, Number, VectorizedArrayType> &matrix_free;
   const double                                        M;
   const double                                        kappa;
-  double                                              dt;
+  double                                              dt = 0;
 
   mutable VectorType old_solution;
 
-- 
2.43.0


From 0ad3bb5adfab7fe1fb46faae730784b181caa132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:21 +0000
Subject: [PATCH 31/36] fix: combine the maximum values of local particles that
 belong to one grain

---
 include/pf-applications/grain_tracker/distributed_stitching.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/pf-applications/grain_tracker/distributed_stitching.h b/include/pf-applications/grain_tracker/distributed_stitching.h
index 2def0ed..5ca710a 100644
--- a/include/pf-applications/grain_tracker/distributed_stitching.h
+++ b/include/pf-applications/grain_tracker/distributed_stitching.h
@@ -244,7 +244,9 @@ namespace GrainTracker
 
           AssertIndexRange(unique_id, n_particles);
 
-          particle_max_values[unique_id] = local_particle_max_values[local_id];
+          particle_max_values[unique_id] =
+            std::max(particle_max_values[unique_id],
+                     local_particle_max_values[local_id]);
         }
 
     // Reduce information - particles max values
-- 
2.43.0


From 15c25719fff120cc34eecfda95e85c902585bbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:14 +0000
Subject: [PATCH 32/36] fix: close the file of the grain contours

---
 .../include/pf-applications/sintering/postprocessors.h         | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/applications/sintering/include/pf-applications/sintering/postprocessors.h b/applications/sintering/include/pf-applications/sintering/postprocessors.h
index d8bd2a1..0ad52c2 100644
--- a/applications/sintering/include/pf-applications/sintering/postprocessors.h
+++ b/applications/sintering/include/pf-applications/sintering/postprocessors.h
@@ -425,6 +425,9 @@ namespace Sintering
                                                           MPI_CHAR,
                                                           MPI_STATUS_IGNORE);
         AssertThrowMPI(ierr);
+
+        ierr = MPI_File_close(&fh);
+        AssertThrowMPI(ierr);
       }
 
       template <int dim, typename VectorType>
-- 
2.43.0


From 936b9a21bed1df282fa2e22ac1e2d7a5c0810d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:14 +0000
Subject: [PATCH 33/36] fix: check the outcome of setting the file view of a
 solution

---
 .../pf-applications/base/solution_serialization.h  | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/pf-applications/base/solution_serialization.h b/include/pf-applications/base/solution_serialization.h
index 68b8681..d3aacaa 100644
--- a/include/pf-applications/base/solution_serialization.h
+++ b/include/pf-applications/base/solution_serialization.h
@@ -180,12 +180,14 @@ namespace dealii
           AssertThrowMPI(ierr);
 
           // ... set view
-          MPI_File_set_view(fh,
-                            disp,
-                            Utilities::MPI::mpi_type_id_for_type<value_type>,
-                            Utilities::MPI::mpi_type_id_for_type<value_type>,
-                            "native",
-                            MPI_INFO_NULL);
+          ierr =
+            MPI_File_set_view(fh,
+                              disp,
+                              Utilities::MPI::mpi_type_id_for_type<value_type>,
+                              Utilities::MPI::mpi_type_id_for_type<value_type>,
+                              "native",
+                              MPI_INFO_NULL);
+          AssertThrowMPI(ierr);
 
           if (do_read)
             // ... read file
-- 
2.43.0


From 31a967ba37b2efb604180110b0c682310e697b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:14 +0000
Subject: [PATCH 34/36] fix: do not access the counter of one grain per cell if
 no cell has a grain

---
 .../include/pf-applications/sintering/postprocessors.h       | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/postprocessors.h b/applications/sintering/include/pf-applications/sintering/postprocessors.h
index 0ad52c2..4288865 100644
--- a/applications/sintering/include/pf-applications/sintering/postprocessors.h
+++ b/applications/sintering/include/pf-applications/sintering/postprocessors.h
@@ -1017,9 +1017,8 @@ namespace Sintering
 
         pcout << "Max grains per cell: " << max_value << " (";
 
-        pcout << (1) << ": " << max_values[0];
-        for (unsigned int i = 1; i < max_values.size(); ++i)
-          pcout << ", " << (i + 1) << ": " << max_values[i];
+        for (unsigned int i = 0; i < max_values.size(); ++i)
+          pcout << (i > 0 ? ", " : "") << (i + 1) << ": " << max_values[i];
 
         pcout << ")" << std::endl;
       }
-- 
2.43.0


From 6ee0a2c15970b8b4cc92921f7da4a60ae2879ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:56 +0000
Subject: [PATCH 35/36] fix: open the surface file on the process which writes
 it only

---
 .../include/pf-applications/sintering/postprocessors.h       | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/applications/sintering/include/pf-applications/sintering/postprocessors.h b/applications/sintering/include/pf-applications/sintering/postprocessors.h
index 4288865..bfb6917 100644
--- a/applications/sintering/include/pf-applications/sintering/postprocessors.h
+++ b/applications/sintering/include/pf-applications/sintering/postprocessors.h
@@ -54,7 +54,10 @@ namespace dealii
     {
       const unsigned int myrank = Utilities::MPI::this_mpi_process(comm);
 
-      std::ofstream ss_out(filename);
+      // The other processes must not truncate the file being written
+      std::ofstream ss_out;
+      if (myrank == 0)
+        ss_out.open(filename);
 
       if (myrank == 0) // header
         {
-- 
2.43.0


From 1e2d1ef6e002d7459454dd314e91544439ec9357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:28 +0000
Subject: [PATCH 36/36] fix: neglect the cells of the other processes in the
 minimum mesh quality

---
 .../include/pf-applications/sintering/postprocessors.h         | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/applications/sintering/include/pf-applications/sintering/postprocessors.h b/applications/sintering/include/pf-applications/sintering/postprocessors.h
index bfb6917..f59f4d6 100644
--- a/applications/sintering/include/pf-applications/sintering/postprocessors.h
+++ b/applications/sintering/include/pf-applications/sintering/postprocessors.h
@@ -1863,6 +1863,9 @@ namespace Sintering
       Vector<typename BlockVectorType::value_type> quality(
         dof_handler.get_triangulation().n_active_cells());
 
+      // Only the entries of the locally owned cells are set below
+      quality = 1.;
+
       internal::do_output_mesh_quality(
         mapping, dof_handler, solution, output, quality);
 
-- 
2.43.0


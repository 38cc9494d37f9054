From a0cdf342f242f0b7551d9382fbc3af06c72b89b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:34 +0000
Subject: [PATCH 1/7] fix: forget the extent of a compressed connection list
 when it is cleared

---
 opm/utility/graph/AssembledConnections.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/utility/graph/AssembledConnections.cpp b/opm/utility/graph/AssembledConnections.cpp
index 6747b21..4c6bbae 100644
--- a/opm/utility/graph/AssembledConnections.cpp
+++ b/opm/utility/graph/AssembledConnections.cpp
@@ -63,6 +63,9 @@ Opm::AssembledConnections::Connections::clear()
     WeightVector().swap(v_);
     EntityVector().swap(j_);
     EntityVector().swap(i_);
+
+    max_i_ = -1;
+    max_j_ = -1;
 }
 
 bool
-- 
2.43.0


From 71d7f25c69713210ca6ac9dce60fa623a900173f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:34 +0000
Subject: [PATCH 2/7] fix: drop stale edge weights when a new connection graph
 is created

---
 opm/utility/graph/AssembledConnections.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/utility/graph/AssembledConnections.cpp b/opm/utility/graph/AssembledConnections.cpp
index 4c6bbae..7de7e67 100644
--- a/opm/utility/graph/AssembledConnections.cpp
+++ b/opm/utility/graph/AssembledConnections.cpp
@@ -149,6 +149,9 @@ CSR::create(const Connections& conns, const Offset numrows)
     // Must be called *after* sort().
     this->condenseDuplicates();
 
+    // Discard any weights from a previously created graph.
+    this->sa_.clear();
+
     if (conns.isWeighted()) {
         this->accumulateConnWeights(conns.v());
     }
-- 
2.43.0


From a81cc49b7ef2b870d0419830e0bc018b6ffcff6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:34 +0000
Subject: [PATCH 3/7] fix: restore the stream format after writing
 AssembledConnections

---
 opm/utility/graph/AssembledConnections.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opm/utility/graph/AssembledConnections.cpp b/opm/utility/graph/AssembledConnections.cpp
index 7de7e67..9c658ca 100644
--- a/opm/utility/graph/AssembledConnections.cpp
+++ b/opm/utility/graph/AssembledConnections.cpp
@@ -474,7 +474,8 @@ Opm::operator<<(std::ostream& os, const Opm::AssembledConnections& ac)
 {
     // Set output stream format, store original settings.
     const auto oprec = os.precision(16);
-    const auto oflags = os.setf(std::ios_base::scientific);
+    const auto oflags = os.setf(std::ios_base::scientific,
+                                std::ios_base::floatfield);
 
     // Write connections cell-by-cell.
     const int num_cells = ac.numRows();
@@ -487,7 +488,7 @@ Opm::operator<<(std::ostream& os, const Opm::AssembledConnections& ac)
 
     // Restore original stream settings.
     os.precision(oprec);
-    os.setf(oflags);
+    os.flags(oflags);
 
     return os;
 }
-- 
2.43.0


From 4c695e1cd715bf4f102ab852512b7570ee0eb6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:34 +0000
Subject: [PATCH 4/7] fix: reject negative cell indices in ConnectivityGraph

---
 opm/flowdiagnostics/ConnectivityGraph.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/opm/flowdiagnostics/ConnectivityGraph.cpp b/opm/flowdiagnostics/ConnectivityGraph.cpp
index 255f23f..dce6d81 100644
--- a/opm/flowdiagnostics/ConnectivityGraph.cpp
+++ b/opm/flowdiagnostics/ConnectivityGraph.cpp
@@ -51,6 +51,14 @@ ConnectivityGraph::ConnectivityGraph(const int        num_cells,
     {
         throw std::logic_error("Cell indices must be in range");
     }
+
+    if ((! connCells_.empty()) &&
+        (*std::min_element(connCells_.begin(),
+                           connCells_.end())
+         < 0))
+    {
+        throw std::logic_error("Cell indices must be non-negative");
+    }
 }
 
 ConnectivityGraph::SizeType
-- 
2.43.0


From e2fd03f4ba6eb2bbf10c2b05b69b8536c7452af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:34 +0000
Subject: [PATCH 5/7] fix: report failed component search instead of using a
 null result

---
 opm/flowdiagnostics/TracerTofSolver.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/opm/flowdiagnostics/TracerTofSolver.cpp b/opm/flowdiagnostics/TracerTofSolver.cpp
index e787d7f..d907523 100644
--- a/opm/flowdiagnostics/TracerTofSolver.cpp
+++ b/opm/flowdiagnostics/TracerTofSolver.cpp
@@ -213,6 +213,9 @@ namespace FlowDiagnostics
         struct Deleter { void operator()(TarjanSCCResult* x) { destroy_tarjan_sccresult(x); } };
         std::unique_ptr<TarjanSCCResult, Deleter>
             result(tarjan(num_cells, g_.startPointers().data(), g_.neighbourhood().data()));
+        if (!result) {
+            throw std::runtime_error("Failed to compute topological ordering in TracerTofSolver::computeOrdering()");
+        }
 
         // Must reverse ordering, since Tarjan computes reverse ordering.
         const int ok = tarjan_reverse_sccresult(result.get());
@@ -254,8 +257,14 @@ namespace FlowDiagnostics
         {
             struct WorkspaceDeleter { void operator()(TarjanWorkSpace* x) { destroy_tarjan_workspace(x); } };
             std::unique_ptr<TarjanWorkSpace, WorkspaceDeleter> ws(create_tarjan_workspace(num_cells));
+            if (!ws) {
+                throw std::runtime_error("Failed to create workspace in TracerTofSolver::computeLocalOrdering()");
+            }
             result.reset(tarjan_reachable_sccs(num_cells, g_.startPointers().data(), g_.neighbourhood().data(),
                                                startcells.size(), startcells.data(), ws.get()));
+            if (!result) {
+                throw std::runtime_error("Failed to compute topological ordering in TracerTofSolver::computeLocalOrdering()");
+            }
         }
 
         // Must reverse ordering, since Tarjan computes reverse ordering.
-- 
2.43.0


From 98bbefbbf1b190abb4fed26e9212eec40515009c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:34 +0000
Subject: [PATCH 6/7] fix: reject inflow fluxes in cells outside the model

---
 opm/flowdiagnostics/Toolbox.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/opm/flowdiagnostics/Toolbox.cpp b/opm/flowdiagnostics/Toolbox.cpp
index 8cc2745..999d2b1 100644
--- a/opm/flowdiagnostics/Toolbox.cpp
+++ b/opm/flowdiagnostics/Toolbox.cpp
@@ -113,6 +113,17 @@ Toolbox::Impl::assignConnectionFlux(const ConnectionValues& flux)
 void
 Toolbox::Impl::assignInflowFlux(const std::map<CellSetID, CellSetValues>& inflow_flux)
 {
+    for (const auto& inflow_set : inflow_flux) {
+        for (const auto& data : inflow_set.second) {
+            if (data.first < 0 ||
+                static_cast<std::size_t>(data.first) >= g_.numCells())
+            {
+                throw std::logic_error("Inflow flux specified in cell "
+                                       "outside the model");
+            }
+        }
+    }
+
     only_inflow_flux_.clear();
     only_outflow_flux_.clear();
     inj_flux_by_id_.clear();
-- 
2.43.0


From 6eb3b9a8684c1e222f2ac1c15d3edf99195df911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:34 +0000
Subject: [PATCH 7/7] fix: reject pore volumes not covering a shared cell in
 pair volume

---
 opm/flowdiagnostics/DerivedQuantities.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opm/flowdiagnostics/DerivedQuantities.cpp b/opm/flowdiagnostics/DerivedQuantities.cpp
index b99cf87..d5867c8 100644
--- a/opm/flowdiagnostics/DerivedQuantities.cpp
+++ b/opm/flowdiagnostics/DerivedQuantities.cpp
@@ -213,6 +213,10 @@ namespace FlowDiagnostics
             const int cell = inj_data.first;
             const auto prod_data = prod_tracer.find(cell);
             if (prod_data != prod_tracer.end()) {
+                if (cell < 0 || static_cast<std::size_t>(cell) >= pore_volume.size()) {
+                    throw std::runtime_error("injectorProducerPairVolume(): "
+                                             "Pore volume missing in cell with both tracers.");
+                }
                 volume += pore_volume[cell] * inj_data.second * prod_data->second;
             }
         }
-- 
2.43.0


From cb21a9856e4d8d4ab01ae6184ff86fe80efd1270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:24 +0000
Subject: [PATCH 01/51] fix: do not reject rank settings before the
 local-domain size is known

Setting the number of ranks or the overall-domain size via the API before
prepare_solution() threw 'local-domain size of 0 ... is less than minimum'
when more than one rank was used, because the local-domain size is only
calculated later from the overall-domain size.
---
 src/kernel/lib/setup.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kernel/lib/setup.cpp b/src/kernel/lib/setup.cpp
index 6b22fa6..e507049 100644
--- a/src/kernel/lib/setup.cpp
+++ b/src/kernel/lib/setup.cpp
@@ -763,8 +763,12 @@ namespace yask {
 
             // Is domain size at least as large as halo + wf_ext in direction
             // when there are multiple ranks?
+            // Before the solution is prepared, the local-domain size may not
+            // be known yet (zero) because it will be calculated from the
+            // overall-domain size and number of ranks.
             auto min_size = max_halos[dname] + shifts;
-            if (actl_opts->_num_ranks[dname] > 1 && rksize < min_size) {
+            bool rksize_known = force || rksize > 0;
+            if (actl_opts->_num_ranks[dname] > 1 && rksize_known && rksize < min_size) {
                 FORMAT_AND_THROW_YASK_EXCEPTION
                     ("local-domain size of " << rksize << " in '" <<
                      dname << "' dim is less than minimum size of " << min_size <<
-- 
2.43.0


From 397ac4ddfdefb626ab4fd9a42d80af724ac94cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 02/51] fix: make step-allocation overrides effective

The value from yc_var::set_step_alloc_size() or the compiler's -step-alloc
option was always replaced by the calculated one.
---
 src/compiler/lib/Var.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/lib/Var.cpp b/src/compiler/lib/Var.cpp
index 1ac3dc2..628c5da 100644
--- a/src/compiler/lib/Var.cpp
+++ b/src/compiler/lib/Var.cpp
@@ -473,6 +473,8 @@ namespace yask {
         cout << "* final sz = " << sz << endl;
         #endif
 
+        sdi.step_dim_size = max_sz;
+
         // Override by API.
         if (_step_alloc > 0)
             sdi.step_dim_size = _step_alloc;
@@ -481,7 +483,6 @@ namespace yask {
         if (_soln->get_settings()._step_alloc > 0)
             sdi.step_dim_size = _soln->get_settings()._step_alloc;
 
-        sdi.step_dim_size = max_sz;
         return sdi;
     }
 
-- 
2.43.0


From ed4849eda9ad444caff585054d3a69ecadee5fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 03/51] fix: do not overwrite values of old steps that are
 still to be read

The step allocation of a var was calculated separately per stage, ignoring
reads in stages that don't write the var, and one step was saved by
immediate replacement even if another equation of the same or a later stage
still reads the replaced value.  Calculate the range of step offsets over all
stages, and allow the replacement only if no other equation needs the old
value from the first writing stage on.  Code for all included stencils is
unchanged.
---
 src/compiler/lib/Eqs.cpp |  18 +++++
 src/compiler/lib/Var.cpp | 146 +++++++++++++++++----------------------
 src/compiler/lib/Var.hpp |  13 ++++
 3 files changed, 96 insertions(+), 81 deletions(-)

diff --git a/src/compiler/lib/Eqs.cpp b/src/compiler/lib/Eqs.cpp
index f03ef42..eee95f0 100644
--- a/src/compiler/lib/Eqs.cpp
+++ b/src/compiler/lib/Eqs.cpp
@@ -1648,11 +1648,13 @@ namespace yask {
         */
         
         // Loop thru stages.
+        int st_idx = -1;        // index of non-scratch stage.
         for (auto& st : get_all()) {
 
             // Only need to start from non-scratch stages.
             if (st->is_scratch())
                 continue;
+            st_idx++;
 
             auto stname = st->_get_name();
             #ifdef DEBUG_HALOS
@@ -1697,9 +1699,25 @@ namespace yask {
                             g->print_halos(cout, "***** c_h: ");
                         }
                         #endif
+
+                        // Track reads other than those of the same element
+                        // that is written by this eq (at another step).
+                        if (ap != out_pt1) {
+                            bool is_same = g == out_pt1->_get_var() &&
+                                pv.get_input_pts().at(eq.get()).count(ap) &&
+                                ap->get_arg_consts() == out_pt1->get_arg_consts();
+                            for (auto& ofs : ap->get_arg_offsets())
+                                if (ofs._get_name() != _soln->get_dims()._step_dim &&
+                                    ofs.get_val() != 0)
+                                    is_same = false;
+                            g->update_access_order(ap->get_arg_offsets(), st_idx,
+                                                   false, !is_same);
+                        }
                     }
                     auto* g = out_pt1->_get_var();
                     g->update_write_points(stname, out_pt1->get_arg_offsets());
+                    g->update_access_order(out_pt1->get_arg_offsets(), st_idx,
+                                           true, false);
                 } // eqs.
             } // reqd stages.
         } // stages.
diff --git a/src/compiler/lib/Var.cpp b/src/compiler/lib/Var.cpp
index 628c5da..796b817 100644
--- a/src/compiler/lib/Var.cpp
+++ b/src/compiler/lib/Var.cpp
@@ -333,6 +333,20 @@ namespace yask {
             _write_points[stage_name] = *sofs;
     }
     
+    // Track order of reads and writes via indices of non-scratch stages.
+    void Var::update_access_order(const IntTuple& offsets, int stage_idx,
+                                  bool is_write, bool is_cross_read) {
+        if (is_write && _first_write_stage < 0)
+            _first_write_stage = stage_idx;
+        if (is_cross_read) {
+            auto* sofs = offsets.lookup(get_soln_dims()._step_dim);
+            if (sofs) {
+                auto& last = _last_cross_reads.emplace(*sofs, stage_idx).first->second;
+                last = std::max(last, stage_idx);
+            }
+        }
+    }
+
     // Update const indices based on 'indices'.
     void Var::update_const_indices(const IntTuple& indices) {
 
@@ -370,110 +384,80 @@ namespace yask {
         if (_halos.size() == 0)
             return sdi;
 
-        // Need the max across all stages.
-        int max_sz = 1;
+        // First (lowest) and last (highest) step-dim offset across all stages.
+        const int unset = -9999;
+        int first_ofs = unset, last_ofs = unset;
 
         // Loop thru each stage w/halos, including halos w/size zero.
         for (auto& hi : _halos) {
-            auto& stage_name = hi.first;
             auto& h2 = hi.second;
-            #ifdef DEBUG_HALOS
-            cout << "* var " << get_name() << " in " << stage_name << endl;
-            #endif
-
-            // Written?
-            bool is_written = false;
-
-            // First (lowest) and last (highest) step-dim offset.
-            const int unset = -9999;
-            int first_ofs = unset, last_ofs = unset;
 
             // left and right.
             for (auto& i : h2) {
-                //auto left = i.first;
                 auto& h3 = i.second; // map of step-dims to halos.
 
                 // Step-dim offsets.
                 for (auto& j : h3) {
                     auto ofs = j.first;
-                    auto& halo = j.second; // halo tuple at step-val 'ofs'.
-
-                    // Written here?
-                    if (_write_points.count(stage_name) && _write_points.at(stage_name) == ofs)
-                        is_written = true;
-
-                    // Any existing value?
-                    if (halo.size()) {
-
-                        // Update vars.
-                        if (first_ofs == unset)
-                            first_ofs = last_ofs = ofs;
-                        else {
-                            first_ofs = std::min(first_ofs, ofs);
-                            last_ofs = std::max(last_ofs, ofs);
-                        }
+                    if (first_ofs == unset)
+                        first_ofs = last_ofs = ofs;
+                    else {
+                        first_ofs = std::min(first_ofs, ofs);
+                        last_ofs = std::max(last_ofs, ofs);
                     }
                 }
             }
-            #ifdef DEBUG_HALOS
-            print_halos(cout, "** ");
-            cout << "*** halo range: [" << first_ofs <<
-                "..." << last_ofs << "] in stage " << stage_name << endl;
-            #endif
-
-            // Only need to process if >1 offset.
-            if (last_ofs != unset && first_ofs != unset && last_ofs != first_ofs) {
-
-                // Default step-dim size is range of step offsets.
-                // For example, if equation touches 't-1' through 't+2',
-                // 'sz' is 4.
-                int sz = last_ofs - first_ofs + 1;
-                #ifdef DEBUG_HALOS
-                cout << "*** initial sz = " << sz << endl;
-                #endif
-
-                // Check for possible writeback.
-                if (is_written) {
-
-                    // First and last largest halos.
-                    int first_max_halo = 0, last_max_halo = 0;
-                    for (auto& i : h2) {
-                        //auto left = i.first;
-                        auto& h3 = i.second; // map of step-dims to halos.
-                        
-                        if (h3.count(first_ofs) && h3.at(first_ofs).size())
-                            first_max_halo = std::max(first_max_halo, h3.at(first_ofs).max());
-                        if (h3.count(last_ofs) && h3.at(last_ofs).size())
-                            last_max_halo = std::max(last_max_halo, h3.at(last_ofs).max());
-                    }
+        }
+        #ifdef DEBUG_HALOS
+        print_halos(cout, "** ");
+        cout << "* var " << get_name() << " halo range: [" << first_ofs <<
+            "..." << last_ofs << "]" << endl;
+        #endif
 
-                    // If first and last halos are zero, we can further optimize
-                    // storage by immediately reusing memory location.
-                    if (sz > 1 && first_max_halo == 0 && last_max_halo == 0) {
-                        int write_ofs = _write_points.at(stage_name);
-                        sz--;
-                        if (last_ofs == write_ofs) // forward step.
-                            sdi.writeback_ofs[stage_name] = first_ofs; // replace lowest read.
-                        else if (first_ofs == write_ofs) // backward step.
-                            sdi.writeback_ofs[stage_name] = last_ofs; // replace lowest read.
-                        else
-                            assert("write ofs is neither first or last");
-                        #ifdef DEBUG_HALOS
-                        cout << "*** optimized sz = " << sz << endl;
-                        #endif
+        // Default step-dim size is range of step offsets.
+        // For example, if equations touch 't-1' through 't+2',
+        // 'sz' is 4.
+        int sz = last_ofs - first_ofs + 1;
+
+        // Check for possible writeback, i.e., immediately reusing the memory
+        // location of the step-offset furthest from the one being written.
+        if (sz > 1 && _write_points.size()) {
+            int write_ofs = _write_points.begin()->second;
+            bool ok = write_ofs == last_ofs || write_ofs == first_ofs;
+            int wb_ofs = (write_ofs == last_ofs) ?
+                first_ofs :     // forward step; replace lowest read.
+                last_ofs;       // backward step; replace highest read.
+
+            // Every value that gets replaced must not be needed by any other
+            // equation in the same stage as the first write or a later stage.
+            if (_last_cross_reads.count(wb_ofs) &&
+                _last_cross_reads.at(wb_ofs) >= _first_write_stage)
+                ok = false;
+
+            // Both halos must be zero in all stages in which the var is written.
+            for (auto& wi : _write_points) {
+                if (wi.second != write_ofs)
+                    ok = false;
+                if (_halos.count(wi.first)) {
+                    for (auto& i : _halos.at(wi.first)) {
+                        auto& h3 = i.second; // map of step-dims to halos.
+                        for (auto ofs : { first_ofs, last_ofs })
+                            if (h3.count(ofs) && h3.at(ofs).size() && h3.at(ofs).max() > 0)
+                                ok = false;
                     }
                 }
-
-                // Keep max so far.
-                max_sz = std::max(max_sz, sz);
             }
 
-        } // stages.
+            if (ok) {
+                sz--;
+                for (auto& wi : _write_points)
+                    sdi.writeback_ofs[wi.first] = wb_ofs;
+            }
+        }
         #ifdef DEBUG_HALOS
         cout << "* final sz = " << sz << endl;
         #endif
-
-        sdi.step_dim_size = max_sz;
+        sdi.step_dim_size = sz;
 
         // Override by API.
         if (_step_alloc > 0)
diff --git a/src/compiler/lib/Var.hpp b/src/compiler/lib/Var.hpp
index e2d4ebd..0d24bd7 100644
--- a/src/compiler/lib/Var.hpp
+++ b/src/compiler/lib/Var.hpp
@@ -83,6 +83,15 @@ namespace yask {
         // Val: step-index for write in stage.
         map<string, int> _write_points;
 
+        // Index of first stage that writes to this var or -1 if none.
+        int _first_write_stage = -1;
+
+        // Key: step-dim offset.
+        // Val: index of last stage containing an equation that reads a value
+        // at that offset other than the one it replaces, i.e., from any
+        // equation that doesn't write the same element of this var.
+        map<int, int> _last_cross_reads;
+
         // Greatest L1 dist of any halo point that accesses this var.
         int _l1_dist = 0;
 
@@ -285,6 +294,10 @@ namespace yask {
         }
         virtual void update_write_points(const string& stage_name, const IntTuple& offsets);
 
+        // Track order of reads and writes via indices of non-scratch stages.
+        virtual void update_access_order(const IntTuple& offsets, int stage_idx,
+                                         bool is_write, bool is_cross_read);
+
         // Update L1 dist.
         virtual void update_l1_dist(int l1_dist) {
             _l1_dist = std::max(_l1_dist, l1_dist);
-- 
2.43.0


From 836e24cb5053431fd8fc8c14fd0c6a323f1fce23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:22 +0000
Subject: [PATCH 04/51] fix: let all ranks of a node take part in MPI shm
 allocation

A rank with nothing to send via shm (e.g., with one-sided halos) or without a
neighbor on its node skipped the collective shm allocation and the sharing of
buffer offsets, so its neighbors failed or hung when shm was enabled.
---
 src/kernel/lib/alloc.cpp     | 20 +++++++++++++++++++-
 src/kernel/lib/context.hpp   |  6 ++++++
 src/kernel/lib/soln_apis.cpp |  2 +-
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/kernel/lib/alloc.cpp b/src/kernel/lib/alloc.cpp
index 87611df..464a2ea 100644
--- a/src/kernel/lib/alloc.cpp
+++ b/src/kernel/lib/alloc.cpp
@@ -1021,8 +1021,26 @@ namespace yask {
             } // vars.
 
             // Alloc for each mem type.
-            if (pass == 0)
+            if (pass == 0) {
+
+                // All ranks sharing memory must participate in the
+                // collective shm allocation and the sharing of offsets if
+                // any of them needs it. This is true even if this rank has
+                // nothing to send via shm, e.g., when halos are one-sided,
+                // or has no neighbors that share memory with it.
+                int need_shm = do_shm ? 1 : 0;
+                int any_need_shm = 0;
+                MPI_Allreduce(&need_shm, &any_need_shm, 1, MPI_INT, MPI_MAX,
+                              env->shm_comm);
+                if (any_need_shm) {
+                    do_shm = true;
+                    auto& shm_data = alloc_reqs[make_pair(_shmem_key, seq_num)];
+                    shm_data.nbytes = max<size_t>(shm_data.nbytes, CACHELINE_BYTES);
+                }
                 _alloc_data(alloc_reqs, "MPI buffer");
+                if (any_need_shm)
+                    mpi_shm_base = alloc_reqs.at(make_pair(_shmem_key, seq_num)).ptr;
+            }
 
             MPI_Barrier(env->shm_comm);
         } // MPI passes.
diff --git a/src/kernel/lib/context.hpp b/src/kernel/lib/context.hpp
index cb12985..f0175fd 100644
--- a/src/kernel/lib/context.hpp
+++ b/src/kernel/lib/context.hpp
@@ -350,6 +350,11 @@ namespace yask {
         // Map key: var name.
         std::map<std::string, MPIData> mpi_data;
 
+        // Base of shm used for MPI buffers, if any.  Kept here also because a
+        // rank participates in the collective [de]allocation even if none of
+        // its own buffers are in it.
+        std::shared_ptr<char> mpi_shm_base;
+
         // Constructor.
         StencilContext(KernelEnvPtr& kenv,
                        KernelSettingsPtr& actl_settings,
@@ -399,6 +404,7 @@ namespace yask {
         virtual void alloc_mpi_data();
         virtual void free_mpi_data() {
             mpi_data.clear();
+            mpi_shm_base.reset();
         }
 
         // Alloc scratch-var memory.
diff --git a/src/kernel/lib/soln_apis.cpp b/src/kernel/lib/soln_apis.cpp
index 7af6e26..de2e151 100644
--- a/src/kernel/lib/soln_apis.cpp
+++ b/src/kernel/lib/soln_apis.cpp
@@ -255,7 +255,7 @@ namespace yask {
 
         // Release any MPI data.
         env->global_barrier();
-        mpi_data.clear();
+        free_mpi_data();
 
         // Release var data.
         for (auto gp : all_var_ptrs) {
-- 
2.43.0


From 07025f2e510a7f6b36397ddf33546bac3acca966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:20 +0000
Subject: [PATCH 05/51] fix: clamp a last temporal block that is too narrow to
 shrink

With temporal blocking and a last block (in a dim) narrower than the base of
the phase-0 trapezoid, phase 0 became empty after some shifts, and then the
bridge from the previous block needed values from the bridge at the end of the
mega-block, which is done later or concurrently in the same phase.
---
 src/kernel/lib/context.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/kernel/lib/context.cpp b/src/kernel/lib/context.cpp
index fd8d592..b8de291 100644
--- a/src/kernel/lib/context.cpp
+++ b/src/kernel/lib/context.cpp
@@ -1419,9 +1419,14 @@ namespace yask {
                 blk_start = idxs.begin[i];
 
             // Shift stop to left. If there will be no bridges, clamp
-            // last block to end of mega-block.
+            // last block to end of mega-block. Also clamp a last block that is
+            // too narrow for a phase-0 trapezoid: otherwise, the bridge
+            // from the previous block would depend on the bridge to the end of
+            // the mega-block, and those would be done in the same phase.
             blk_stop -= tb_angle * mb_shift_num;
-            if ((nphases == 1 || is_one_blk) && is_last_blk)
+            bool is_narrow_blk =
+                block_base_stop[i] - block_base_start[i] < tb_widths[j];
+            if ((nphases == 1 || is_one_blk || is_narrow_blk) && is_last_blk)
                 blk_stop = idxs.end[i];
 
             // Shift start of next block. Last bridge will be
-- 
2.43.0


From af9418fde758bae7dd26e0dd9a6cbab25f8e5c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:26 +0000
Subject: [PATCH 06/51] fix: do not let temporal-block steps become negative

A block smaller than the vector fold, or one whose size isn't set yet, made the
number of temporal steps negative, which failed an assertion.
---
 src/kernel/lib/setup.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kernel/lib/setup.cpp b/src/kernel/lib/setup.cpp
index e507049..f62ac6b 100644
--- a/src/kernel/lib/setup.cpp
+++ b/src/kernel/lib/setup.cpp
@@ -934,6 +934,7 @@ namespace yask {
                     idx_t top_sz = fpts; // min pts on top row. TODO: is zero ok?
                     idx_t sh_pts = tb_angle * 2 * st_stages.size(); // pts shifted per step.
                     idx_t nsteps = (blksize - top_sz + tb_angle * 2) / sh_pts; // might be zero.
+                    nsteps = max(nsteps, idx_t(0)); // in case block is very small (or not yet set).
                     TRACE_MSG("update_tb_info: max TB steps in dim '" <<
                               dname << "' = " << nsteps <<
                               " due to base block size of " << blksize <<
-- 
2.43.0


From 8cca7e0893d3eb63aac2db0b05b1c70c2e4b188f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:59 +0000
Subject: [PATCH 07/51] fix: allow for micro-block shifts in size of scratch
 vars

The last micro-block in a block grows by the micro-block shifts when temporal
blocking is used. If the block covers the mega-block in that dim, there was no
allowance for it in the scratch vars, so they were written out of bounds.
---
 src/kernel/lib/alloc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kernel/lib/alloc.cpp b/src/kernel/lib/alloc.cpp
index 464a2ea..af6f781 100644
--- a/src/kernel/lib/alloc.cpp
+++ b/src/kernel/lib/alloc.cpp
@@ -1136,7 +1136,8 @@ namespace yask {
                                 gp->_set_domain_size(dname, mblksize[dname]);
 
                                 // Conservative allowance for WF exts and/or temporal shifts.
-                                idx_t shift_pts = max(wf_shift_pts[dname], tb_angles[dname] * num_tb_shifts) * 2;
+                                idx_t tb_angle = max(tb_angles[dname], mb_angles[dname]);
+                                idx_t shift_pts = max(wf_shift_pts[dname], tb_angle * num_tb_shifts) * 2;
                                 gp->_set_left_wf_ext(dname, shift_pts);
                                 gp->_set_right_wf_ext(dname, shift_pts);
 
-- 
2.43.0


From 9b48db4ffd0eec35b91bb4fe7912feeac9afe509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:38 +0000
Subject: [PATCH 08/51] fix: round up slab size for data binding to vector size

A nano-block limited to a domain size that isn't a multiple of the vector size
failed an assertion when binding inner threads to data.
---
 src/kernel/lib/stencil_calc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kernel/lib/stencil_calc.cpp b/src/kernel/lib/stencil_calc.cpp
index aad3e76..800c8b8 100644
--- a/src/kernel/lib/stencil_calc.cpp
+++ b/src/kernel/lib/stencil_calc.cpp
@@ -69,7 +69,8 @@ namespace yask {
         // and binding is enabled.
         bool bind_threads = nbt > 1 && settings.bind_inner_threads;
         int bind_posn = settings._bind_posn;
-        idx_t bind_slab_pts = settings._nano_block_sizes[bind_posn]; // Other sizes not used.
+        idx_t bind_slab_pts = ROUND_UP(settings._nano_block_sizes[bind_posn],
+                                       fold_pts[bind_posn - 1]); // Other sizes not used.
 
         // Get the parts that need to be processed in
         // this block. This will be any prerequisite scratch-var
-- 
2.43.0


From 6d741ad6535fb066b98059f3dc535a2cb3dece05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:42 +0000
Subject: [PATCH 09/51] fix: return the sum of squares from a sum-of-squares
 reduction

---
 src/kernel/lib/yk_var.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernel/lib/yk_var.hpp b/src/kernel/lib/yk_var.hpp
index 156a92f..8cbb452 100644
--- a/src/kernel/lib/yk_var.hpp
+++ b/src/kernel/lib/yk_var.hpp
@@ -598,7 +598,7 @@ namespace yask {
             }
             double get_sum_squares() const {
                 if (_mask & yk_var::yk_sum_squares_reduction)
-                    return _sum;
+                    return _sum_sq;
                 THROW_YASK_EXCEPTION("Sum-of-squares reduction result was not requested in reduction_mask");
             }
             double get_product() const {
@@ -1437,7 +1437,7 @@ namespace yask {
                 auto* p = resp.get();
                 auto* resp = &rrv.at(i);
                 p->_sum += resp->_sum;
-                p->_sum_sq += resp->_sum;
+                p->_sum_sq += resp->_sum_sq;
                 p->_prod *= resp->_prod;
                 p->_max = std::max(p->_max, resp->_max);
                 p->_min = std::min(p->_min, resp->_min);
-- 
2.43.0


From c4091d63d7ec112e758a1f492d17f8a0a1685edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:42 +0000
Subject: [PATCH 10/51] fix: start a max reduction from the lowest value

---
 src/kernel/lib/yk_var.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/lib/yk_var.hpp b/src/kernel/lib/yk_var.hpp
index 8cbb452..75503c9 100644
--- a/src/kernel/lib/yk_var.hpp
+++ b/src/kernel/lib/yk_var.hpp
@@ -575,7 +575,7 @@ namespace yask {
             double _sum = 0.0;
             double _sum_sq = 0.0;
             double _prod = 1.0;
-            double _max = std::numeric_limits<double>::min();
+            double _max = std::numeric_limits<double>::lowest();
             double _min = std::numeric_limits<double>::max();
 
             virtual ~red_res() { }
-- 
2.43.0


From 2b935a5f4046ffbcbe15e34f27bfebc4a142282b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:42 +0000
Subject: [PATCH 11/51] fix: check the min bit before returning a min reduction

---
 src/kernel/lib/yk_var.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/lib/yk_var.hpp b/src/kernel/lib/yk_var.hpp
index 75503c9..ef395ba 100644
--- a/src/kernel/lib/yk_var.hpp
+++ b/src/kernel/lib/yk_var.hpp
@@ -612,7 +612,7 @@ namespace yask {
                 THROW_YASK_EXCEPTION("Max reduction result was not requested in reduction_mask");
             }
             double get_min() const {
-                if (_mask & yk_var::yk_sum_reduction)
+                if (_mask & yk_var::yk_min_reduction)
                     return _min;
                 THROW_YASK_EXCEPTION("Min reduction result was not requested in reduction_mask");
             }
-- 
2.43.0


From 6b11919713d158eb0fe6adc006a12efff17af84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:58 +0000
Subject: [PATCH 12/51] fix: ignore slices that are entirely outside of a var

---
 src/kernel/lib/yk_var.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/kernel/lib/yk_var.hpp b/src/kernel/lib/yk_var.hpp
index ef395ba..8dcf5ef 100644
--- a/src/kernel/lib/yk_var.hpp
+++ b/src/kernel/lib/yk_var.hpp
@@ -1113,6 +1113,14 @@ namespace yask {
                       make_index_string(first_indices) << " ... " <<
                       make_index_string(last_indices) << "]");
 
+            // Nothing to do if the slice is entirely outside the var in
+            // any dim, i.e., if clipping moved its first index down or its
+            // last index up.
+            for (int i = 0; i < get_num_dims(); i++)
+                if (first_indices[i] < in_first_indices[i] ||
+                    last_indices[i] > in_last_indices[i])
+                    return 0;
+
             // Find range.
             auto range = get_slice_range(first_indices, last_indices);
             auto ne = range.product();
-- 
2.43.0


From e61d1c0add9da2c06530b994c6d097777e9b49cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:58 +0000
Subject: [PATCH 13/51] fix: do not move valid steps to ones ignored when
 setting a slice

---
 src/kernel/lib/yk_var.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/kernel/lib/yk_var.hpp b/src/kernel/lib/yk_var.hpp
index 8dcf5ef..af3b515 100644
--- a/src/kernel/lib/yk_var.hpp
+++ b/src/kernel/lib/yk_var.hpp
@@ -1363,7 +1363,16 @@ namespace yask {
                 _coh.mod_dev();
             else
                 _coh.mod_host();
-            set_dirty_in_slice(first_indices, last_indices);
+            if (n > 0) {
+
+                // Only the steps that are stored have been set.
+                Indices firsti, lasti;
+                check_indices(first_indices, SetElem::fname(), strict_indices,
+                              true, false, &firsti);
+                check_indices(last_indices, SetElem::fname(), strict_indices,
+                              true, false, &lasti);
+                set_dirty_in_slice(firsti, lasti);
+            }
 
             // Return number of writes.
             return n;
-- 
2.43.0


From 41f7a28ec9481bd6a69e5f075dabdc1cfa2e7e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:20 +0000
Subject: [PATCH 14/51] fix: make set_element() update the valid steps as
 documented

---
 src/kernel/lib/yk_var_apis.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kernel/lib/yk_var_apis.cpp b/src/kernel/lib/yk_var_apis.cpp
index ec8f2ba..52e8dab 100644
--- a/src/kernel/lib/yk_var_apis.cpp
+++ b/src/kernel/lib/yk_var_apis.cpp
@@ -412,6 +412,10 @@ namespace yask {
             gb().write_elem(real_t(val), indices, asi, __LINE__);
             nup++;
 
+            // Update valid step if needed.
+            if (gb()._has_step_dim && !actl_opts->_step_wrap)
+                gb().update_valid_step(indices[+step_posn]);
+
             // Set appropriate dirty flags.
             gb()._coh.mod_host();
             gb().set_dirty_using_alloc_index(YkVarBase::self, true, asi);
-- 
2.43.0


From 3c52f16d2647646e471ed09bbfccf0220923c869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:36 +0000
Subject: [PATCH 15/51] fix: exchange halos written by the host when
 exchange_halos() is called

---
 src/kernel/lib/halo.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kernel/lib/halo.cpp b/src/kernel/lib/halo.cpp
index cb6fd6d..aee43ab 100644
--- a/src/kernel/lib/halo.cpp
+++ b/src/kernel/lib/halo.cpp
@@ -68,6 +68,10 @@ namespace yask {
     // Exchange dirty halo data for all vars and all steps.
     void StencilContext::exchange_halos() {
         
+        // Since any APIs may have been called in other ranks, mark all
+        // neighbor vars as possibly dirty.
+        set_all_neighbor_vars_dirty();
+
         // Do all parts.
         MpiSection mpisec(this);
         mpisec.init();
-- 
2.43.0


From 720e90d119dac596bec6ffec9b1a91359379e4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:18 +0000
Subject: [PATCH 16/51] fix: give the vector printer indices for unaligned
 loads

The compiler failed an assertion for every unaligned read with -ul.
---
 src/compiler/lib/Cpp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/lib/Cpp.cpp b/src/compiler/lib/Cpp.cpp
index ec248f2..2cf58d5 100644
--- a/src/compiler/lib/Cpp.cpp
+++ b/src/compiler/lib/Cpp.cpp
@@ -1104,7 +1104,8 @@ namespace yask {
         // Make a var.
         string mv_name = make_var_name("unaligned_vec");
         os << _line_prefix << get_var_type() << " " << mv_name << _line_suffix;
-        auto vp = make_point_call_vec(os, gp, "get_elem_ptr", "", "true", false);
+        auto vp = make_point_call_vec(os, gp, "get_elem_ptr", "", "true", false,
+                                      &_vec2elem_global_map);
 
         // Read memory.
         os << _line_prefix << mv_name <<
-- 
2.43.0


From 9d69a9c84021455a987c43c6e987e16798fcc3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:29 +0000
Subject: [PATCH 17/51] fix: refuse too many indices instead of writing past
 the end of an array

---
 src/kernel/lib/indices.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kernel/lib/indices.hpp b/src/kernel/lib/indices.hpp
index dbe596a..caa782f 100644
--- a/src/kernel/lib/indices.hpp
+++ b/src/kernel/lib/indices.hpp
@@ -94,7 +94,8 @@ namespace yask {
             _ndims = n;
         }
         void set_from_init_list(const idx_t_init_list& src) {
-            host_assert(src.size() <= +max_idxs);
+            if (src.size() > +max_idxs)
+                THROW_YASK_EXCEPTION("too many indices given: " + std::to_string(src.size()));
             int i = 0;
             for (auto idx : src)
                 _idxs[i++] = idx;
@@ -383,7 +384,8 @@ namespace yask {
         
         // Other inits.
         void set_from_vec(const VarIndices& src) {
-            host_assert(src.size() <= +max_idxs);
+            if (src.size() > +max_idxs)
+                THROW_YASK_EXCEPTION("too many indices given: " + std::to_string(src.size()));
             int n = int(src.size());
             for (int i = 0; i < n; i++)
                 _idxs[i] = src[i];
-- 
2.43.0


From 850e8ba844b8102f9b6fcec7243ee550d18309d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:54 +0000
Subject: [PATCH 18/51] fix: include the reads of scratch vars in the L1 norm
 of the vars they read

---
 src/compiler/lib/Eqs.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/compiler/lib/Eqs.cpp b/src/compiler/lib/Eqs.cpp
index eee95f0..c46635d 100644
--- a/src/compiler/lib/Eqs.cpp
+++ b/src/compiler/lib/Eqs.cpp
@@ -1884,7 +1884,16 @@ namespace yask {
                             iv2->update_halo(stname, left_ihalo);
                             auto right_ihalo = ao.add_elements(right_ohalo, false);
                             iv2->update_halo(stname, right_ihalo);
-                            iv2->update_l1_dist(l1_dist);
+
+                            // Manhattan dist through the scratch var: that of
+                            // this read plus that of the scratch var.
+                            int read_dist = 0;
+                            for (auto& dim : ao)
+                                if (dim._get_name() != _soln->get_dims()._step_dim &&
+                                    dim.get_val() != 0)
+                                    read_dist++;
+                            int max_dist = _soln->get_dims()._domain_dims.get_num_dims();
+                            iv2->update_l1_dist(std::min(read_dist + l1_dist, max_dist));
                             #ifdef DEBUG_HALOS
                             cout << "*** c_h: updated min halos of '" << iv2->get_name() << "' to " <<
                                 left_ihalo.make_dim_val_str() <<
-- 
2.43.0


From a61f3cd1cc398a0cbcdcbf89326200bd6e9f8aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 19/51] fix: check step offsets of reads in reverse-time
 equations

---
 src/compiler/lib/Eqs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/lib/Eqs.cpp b/src/compiler/lib/Eqs.cpp
index c46635d..9c2324c 100644
--- a/src/compiler/lib/Eqs.cpp
+++ b/src/compiler/lib/Eqs.cpp
@@ -511,7 +511,7 @@ namespace yask {
                             }
                             // backward: 'u(t-1, ...) EQUALS ... u(t, ...) ...'.
                             // bad backward: 'u(t-1, ...) EQUALS ... u(t-2, ...) ...'.
-                            if (dims._step_dir == -11 && rofs < lofs) {
+                            if (dims._step_dir == -1 && rofs < lofs) {
                                 THROW_YASK_EXCEPTION("equation " + eq1->make_quoted_str() +
                                                      " contains an offset of " + to_string(rofs) +
                                                      " from step-dimension '" + step_dim +
-- 
2.43.0


From 15a430cfcaf253d59e7e1be280ff71cc6ada17ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:20 +0000
Subject: [PATCH 20/51] fix: forget neighbors of an earlier rank arrangement
 when preparing again

---
 src/kernel/lib/settings.hpp | 19 +++++++++++++------
 src/kernel/lib/setup.cpp    |  3 +++
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/kernel/lib/settings.hpp b/src/kernel/lib/settings.hpp
index 1ef5d76..93d6252 100644
--- a/src/kernel/lib/settings.hpp
+++ b/src/kernel/lib/settings.hpp
@@ -404,15 +404,22 @@ namespace yask {
             my_neighbor_index = get_neighbor_index(noffsets);
 
             // Init arrays.
-            my_neighbors.resize(neighborhood_size, MPI_PROC_NULL);
-            man_dists.resize(neighborhood_size, 0);
-            has_all_vlen_mults.resize(neighborhood_size, false);
-            shm_ranks.resize(neighborhood_size, MPI_PROC_NULL);
-            halo_buf_ptrs.resize(neighborhood_size, 0);
-            halo_buf_sizes.resize(neighborhood_size, 0);
+            clear_neighbors();
         }
         virtual ~MPIInfo() { }
 
+        // Forget all neighbors.
+        // Needed before finding them, because there may
+        // be some from an earlier arrangement of the ranks.
+        virtual void clear_neighbors() {
+            my_neighbors.assign(neighborhood_size, MPI_PROC_NULL);
+            man_dists.assign(neighborhood_size, 0);
+            has_all_vlen_mults.assign(neighborhood_size, false);
+            shm_ranks.assign(neighborhood_size, MPI_PROC_NULL);
+            halo_buf_ptrs.assign(neighborhood_size, 0);
+            halo_buf_sizes.assign(neighborhood_size, 0);
+        }
+
         // Get a 1D index for a neighbor.
         // Input 'offsets': tuple of NeighborOffset vals.
         virtual idx_t get_neighbor_index(const IdxTuple& offsets) const {
diff --git a/src/kernel/lib/setup.cpp b/src/kernel/lib/setup.cpp
index f62ac6b..60dcb98 100644
--- a/src/kernel/lib/setup.cpp
+++ b/src/kernel/lib/setup.cpp
@@ -258,6 +258,9 @@ namespace yask {
         // Init starting indices for this rank.
         rank_domain_offsets.set_vals_same(0);
 
+        // Init neighbors of this rank.
+        mpi_info->clear_neighbors();
+
         // Tables to share data across ranks.
         vector<vector<idx_t>> coords(nr); // rank indices.
         vector<vector<idx_t>> rsizes(nr); // rank sizes.
-- 
2.43.0


From 0c6819b11686470ac3ec3e8e34fa3b8d20aa95f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:20 +0000
Subject: [PATCH 21/51] fix: refuse rank layouts that differ from the specified
 numbers of ranks

---
 src/common/tuple.cpp     |  2 +-
 src/kernel/lib/setup.cpp | 23 +++++++++++++++--------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/common/tuple.cpp b/src/common/tuple.cpp
index d7e8540..952db27 100644
--- a/src/common/tuple.cpp
+++ b/src/common/tuple.cpp
@@ -433,7 +433,7 @@ namespace yask {
                      return true; // keep looking.
                  });
 
-            if (best.product() == N)
+            if (best.size() && best.product() == N)
                 break;          // done.
 
         } // keep or not.
diff --git a/src/kernel/lib/setup.cpp b/src/kernel/lib/setup.cpp
index 60dcb98..92b4038 100644
--- a/src/kernel/lib/setup.cpp
+++ b/src/kernel/lib/setup.cpp
@@ -227,15 +227,22 @@ namespace yask {
         #else
         // Set number of ranks in each dim if any is unset (zero).
         TRACE_MSG("rank layout " << actl_opts->_num_ranks.make_dim_val_str(" * ") << " requested");
-        actl_opts->_num_ranks = actl_opts->_num_ranks.get_compact_factors(nr);
-        TRACE_MSG("rank layout " << actl_opts->_num_ranks.make_dim_val_str(" * ") << " selected");
-
-        // Check ranks.
-        idx_t req_ranks = actl_opts->_num_ranks.product();
-        if (req_ranks != nr)
-            FORMAT_AND_THROW_YASK_EXCEPTION(req_ranks << " rank(s) requested (" +
-                                            actl_opts->_num_ranks.make_dim_val_str(" * ") + "), but " <<
+        auto layout = actl_opts->_num_ranks.get_compact_factors(nr);
+        TRACE_MSG("rank layout " << layout.make_dim_val_str(" * ") << " selected");
+
+        // Check ranks: the layout must not differ from the specified values.
+        bool is_layout_ok = layout.product() == nr;
+        DOMAIN_VAR_LOOP(i, j) {
+            auto req_ranks = actl_opts->_num_ranks[j];
+            if (req_ranks > 0 && layout[j] != req_ranks)
+                is_layout_ok = false;
+        }
+        if (!is_layout_ok)
+            FORMAT_AND_THROW_YASK_EXCEPTION("rank layout of " <<
+                                            actl_opts->_num_ranks.make_dim_val_str(" * ") <<
+                                            " requested, but " <<
                                             nr << " rank(s) are active");
+        actl_opts->_num_ranks = layout;
 
         // Determine my coordinates if not provided already.
         // TODO: do this more intelligently based on proximity.
-- 
2.43.0


From 0dbfa77582f5ef0efc0df16c1db56d2693980adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:20 +0000
Subject: [PATCH 22/51] fix: use rank indices that were set explicitly

---
 src/kernel/lib/settings.cpp  | 36 ++++++++++++++++++++++++++++++------
 src/kernel/lib/settings.hpp  |  3 ++-
 src/kernel/lib/soln_apis.cpp | 22 +++++++++++++---------
 3 files changed, 45 insertions(+), 16 deletions(-)

diff --git a/src/kernel/lib/settings.cpp b/src/kernel/lib/settings.cpp
index bea0503..90989dc 100644
--- a/src/kernel/lib/settings.cpp
+++ b/src/kernel/lib/settings.cpp
@@ -285,12 +285,36 @@ namespace yask {
         }
     };
     
+    // A wrapper for any option that also clears a flag when the option is used.
+    template <typename Opt>
+    class flag_clearing_option : public Opt {
+        bool* _flag;
+
+    public:
+        template <typename Val>
+        flag_clearing_option(const std::string& name,
+                             const std::string& help_msg,
+                             Val& val,
+                             bool* flag) :
+            Opt(name, help_msg, val), _flag(flag) { }
+
+        virtual bool check_arg(const string_vec& args,
+                               int& argi) override {
+            bool used = Opt::check_arg(args, argi);
+            if (used && _flag)
+                *_flag = false;
+            return used;
+        }
+    };
+
     // Add options to set one domain var to a cmd-line parser.
+    // Also clears 'flag' if provided when any of them is used.
     void KernelSettings::_add_domain_option(command_line_parser& parser,
                                             const std::string& prefix,
                                             const std::string& descrip,
                                             IdxTuple& var,
-                                            bool allow_step) {
+                                            bool allow_step,
+                                            bool* flag) {
 
         // Add step + domain vars.
         vector<idx_t*> multi_vars;
@@ -302,10 +326,10 @@ namespace yask {
             idx_t* dp = var.lookup(dname); // use lookup() to get non-const ptr.
 
             // Option for individual dim.
-            parser.add_option(make_shared<command_line_parser::idx_option>
+            parser.add_option(make_shared<flag_clearing_option<command_line_parser::idx_option>>
                               (prefix + dname,
                                descrip + " in '" + dname + "' dimension.",
-                               *dp));
+                               *dp, flag));
 
             // Add to domain list if a domain var.
             if (_dims->_domain_dims.lookup(dname)) {
@@ -318,10 +342,10 @@ namespace yask {
         auto shortcut = prefix;
         if (shortcut.back() == '_')
             shortcut.pop_back();
-        parser.add_option(make_shared<mult_idx_option>
+        parser.add_option(make_shared<flag_clearing_option<mult_idx_option>>
                           (shortcut,
                            "Shortcut for" + multi_help,
-                           multi_vars));
+                           multi_vars, flag));
     }
 
     // Add access to these options from a cmd-line parser.
@@ -370,7 +394,7 @@ namespace yask {
                            _allow_addl_pad));
         #ifdef USE_MPI
         _add_domain_option(parser, "nr", "Num ranks", _num_ranks);
-        _add_domain_option(parser, "ri", "This rank's logical index (0-based)", _rank_indices);
+        _add_domain_option(parser, "ri", "This rank's logical index (0-based)", _rank_indices, false, &find_loc);
         parser.add_option(make_shared<command_line_parser::bool_option>
                           ("overlap_comms",
                            "Overlap MPI communication with calculation of interior elements whenever possible.",
diff --git a/src/kernel/lib/settings.hpp b/src/kernel/lib/settings.hpp
index 93d6252..55147f0 100644
--- a/src/kernel/lib/settings.hpp
+++ b/src/kernel/lib/settings.hpp
@@ -302,7 +302,8 @@ namespace yask {
                                         const std::string& prefix,
                                         const std::string& descrip,
                                         IdxTuple& var,
-                                        bool allow_step = false);
+                                        bool allow_step = false,
+                                        bool* flag = nullptr);
 
     public:
         // Add options to a cmd-line parser to set the settings.
diff --git a/src/kernel/lib/soln_apis.cpp b/src/kernel/lib/soln_apis.cpp
index de2e151..f2015b3 100644
--- a/src/kernel/lib/soln_apis.cpp
+++ b/src/kernel/lib/soln_apis.cpp
@@ -44,7 +44,7 @@ namespace yask {
             STATE_VARS(this);                                           \
             return expr.get_vals(start_i, NUM_DOMAIN_DIMS);             \
         }
-    #define SET_SOLN_API(api_name, expr, start_i, step_ok, domain_ok, misc_ok, reset_prep) \
+    #define SET_SOLN_API(api_name, expr, start_i, step_ok, domain_ok, misc_ok, reset_prep, on_set) \
         void StencilContext::set_ ## api_name(const string& dim, idx_t n) { \
             STATE_VARS(this);                                           \
             TRACE_MSG("solution '" << get_name() << "'.set_"            \
@@ -52,6 +52,7 @@ namespace yask {
             dims->check_dim_type(dim, "set_" #api_name, step_ok, domain_ok, misc_ok); \
             req_opts->expr[dim] = n;                                    \
             actl_opts->expr[dim] = n;                                   \
+            on_set;                                                     \
             update_var_info(false);                                     \
             if (reset_prep) set_prepared(false);                        \
         }                                                               \
@@ -64,6 +65,7 @@ namespace yask {
                                      "_vec()' called without the proper number of domain dims"); \
             req_opts->expr.set_vals(start_i, vals);                     \
             actl_opts->expr.set_vals(start_i, vals);                     \
+            on_set;                                                     \
             update_var_info(false);                                     \
             if (reset_prep) set_prepared(false);                        \
         }                                                               \
@@ -76,31 +78,33 @@ namespace yask {
                                      "_vec()' called without the proper number of domain dims"); \
             req_opts->expr.set_vals(start_i, vals);                     \
             actl_opts->expr.set_vals(start_i, vals);                    \
+            on_set;                                                     \
             update_var_info(false);                                     \
             if (reset_prep) set_prepared(false);                        \
         }
-    #define SOLN_API(api_name, expr, start_i, step_ok, domain_ok, misc_ok, reset_prep) \
+    #define SOLN_API(api_name, expr, start_i, step_ok, domain_ok, misc_ok, reset_prep, on_set) \
         GET_SOLN_API(api_name, actl_opts->expr, start_i, step_ok, domain_ok, misc_ok) \
-        SET_SOLN_API(api_name, expr, start_i, step_ok, domain_ok, misc_ok, reset_prep)
+        SET_SOLN_API(api_name, expr, start_i, step_ok, domain_ok, misc_ok, reset_prep, on_set)
     
     SOLN_API(num_ranks,
              _num_ranks, 0,
-             false, true, false, true)
+             false, true, false, true, )
     SOLN_API(rank_index,
              _rank_indices, 0,
-             false, true, false, true)
+             false, true, false, true,
+             req_opts->find_loc = actl_opts->find_loc = false)
     SOLN_API(overall_domain_size,
              _global_sizes, 1,
-             false, true, false, true)
+             false, true, false, true, )
     SOLN_API(rank_domain_size,
              _rank_sizes, 1,
-             false, true, false, true)
+             false, true, false, true, )
     SOLN_API(block_size,
              _block_sizes, 1,
-             true, true, false, true)
+             true, true, false, true, )
     SOLN_API(min_pad_size,
              _min_pad_sizes, 1,
-             false, true, false, false)
+             false, true, false, false, )
     
     GET_SOLN_API(first_rank_domain_index,
                  rank_bb.bb_begin_tuple(domain_dims), 0,
-- 
2.43.0


From 086017a9035350896137a4bc9f41e1318270c6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:20 +0000
Subject: [PATCH 23/51] fix: do not use vector halo exchange when the rank does
 not start on a vector boundary

---
 src/kernel/lib/alloc.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/kernel/lib/alloc.cpp b/src/kernel/lib/alloc.cpp
index af6f781..eda7efa 100644
--- a/src/kernel/lib/alloc.cpp
+++ b/src/kernel/lib/alloc.cpp
@@ -552,6 +552,12 @@ namespace yask {
                              first_outer_idx.add_dim_back(dname, fidx);
                              last_outer_idx.add_dim_back(dname, lidx);
 
+                             // Vectors in a var start at the first index in
+                             // the rank, but the following calculations are
+                             // based on global indices.
+                             if (imod_flr(first_inner_idx[dname], vlen) != 0)
+                                 var_vec_ok = false;
+
                              // Determine if it is possible to round the
                              // outer indices to vec-multiples. This will
                              // be required to allow full vec exchanges for
-- 
2.43.0


From 70a52d0f80a30ea0a8f4f3afbc7bdb25c999af35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:20 +0000
Subject: [PATCH 24/51] fix: do not fold the inner-loop dim twice when choosing
 default fold lengths

---
 src/compiler/lib/Settings.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/lib/Settings.cpp b/src/compiler/lib/Settings.cpp
index 2863819..9c39870 100644
--- a/src/compiler/lib/Settings.cpp
+++ b/src/compiler/lib/Settings.cpp
@@ -214,7 +214,8 @@ namespace yask {
                 // If we only want 1D folding, just set one to
                 // needed value.
                 if (!is_folding_efficient)
-                    inner_folds.add_dim_back(_near_inner_dim, upper_sz);
+                    inner_folds.add_dim_back(_near_inner_dim != settings._inner_loop_dim ?
+                                             _near_inner_dim : _inner_layout_dim, upper_sz);
 
                 // Else, make a tuple of hints to use for setting non-inner
                 // sizes.
-- 
2.43.0


From a4551f2cb6e4fccefb8043f317cd93c01a3a8b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:20 +0000
Subject: [PATCH 25/51] fix: count only the work done in work statistics

---
 src/kernel/lib/context.cpp      |  2 +-
 src/kernel/lib/soln_apis.cpp    |  7 ++++---
 src/kernel/lib/stencil_calc.cpp | 30 +++++++++++++++++++++++++++---
 src/kernel/lib/stencil_calc.hpp | 16 ++++++++++++++--
 4 files changed, 46 insertions(+), 9 deletions(-)

diff --git a/src/kernel/lib/context.cpp b/src/kernel/lib/context.cpp
index b8de291..eca1caf 100644
--- a/src/kernel/lib/context.cpp
+++ b/src/kernel/lib/context.cpp
@@ -588,7 +588,7 @@ namespace yask {
                 for (auto& bp : st_stages) {
 
                     // Add to steps done for this stage.
-                    bp->add_steps(this_num_t);
+                    bp->add_steps(start_t, stop_t);
                 }
 
                 // Call the auto-tuner to evaluate these steps and change
diff --git a/src/kernel/lib/soln_apis.cpp b/src/kernel/lib/soln_apis.cpp
index f2015b3..aec81cc 100644
--- a/src/kernel/lib/soln_apis.cpp
+++ b/src/kernel/lib/soln_apis.cpp
@@ -423,9 +423,9 @@ namespace yask {
             auto& ps = sp->stats;
             ps.nsteps = ns;
             ps.npts = tot_domain_pts; // NOT sum over steps.
-            ps.nreads = sp->tot_reads_per_step * ns;
-            ps.nwrites = sp->tot_writes_per_step * ns;
-            ps.nfpops = sp->tot_fpops_per_step * ns;
+            ps.nreads = sp->work_done.reads;
+            ps.nwrites = sp->work_done.writes;
+            ps.nfpops = sp->work_done.fpops;
 
             // Add to total work.
             psteps += ns;
@@ -581,6 +581,7 @@ namespace yask {
         for (auto& sp : st_stages) {
             sp->timer.clear();
             sp->steps_done = 0;
+            sp->work_done = Stage::PartWork();
         }
     }
 
diff --git a/src/kernel/lib/stencil_calc.cpp b/src/kernel/lib/stencil_calc.cpp
index 800c8b8..8659f2a 100644
--- a/src/kernel/lib/stencil_calc.cpp
+++ b/src/kernel/lib/stencil_calc.cpp
@@ -435,8 +435,18 @@ namespace yask {
     void Stage::stop_timers() {
         timer.stop();
     }
-    void Stage::add_steps(idx_t num_steps) {
-        steps_done += num_steps;
+    void Stage::add_steps(idx_t start_t, idx_t stop_t) {
+        const idx_t dir = (stop_t >= start_t) ? 1 : -1;
+        for (idx_t t = start_t; t != stop_t; t += dir) {
+            steps_done++;
+            for (size_t i = 0; i < part_work.size(); i++) {
+                if (!at(i)->is_in_valid_step(t))
+                    continue;
+                work_done.reads += part_work[i].reads;
+                work_done.writes += part_work[i].writes;
+                work_done.fpops += part_work[i].fpops;
+            }
+        }
     }
 
     static void print_var_list(ostream& os, const VarPtrs& gps, const string& type) {
@@ -465,6 +475,7 @@ namespace yask {
         num_reads_per_step = 0;
         num_writes_per_step = 0;
         num_fpops_per_step = 0;
+        part_work.clear();
 
         DEBUG_MSG("Stage '" << get_name() << "':\n" <<
                   " num non-scratch parts:     " << size() << endl <<
@@ -485,7 +496,10 @@ namespace yask {
 
             // Loop through all the full BBs in this part.
             auto fbbs = sg->get_bbs();
-            for (auto& fbb : fbbs) {
+            for (auto& ebb : fbbs) {
+
+                // Exclude redundant work in temporal-tiling extensions.
+                auto fbb = ebb.intersection_with(_context->rank_bb, _context);
 
                 // Loop through all the needed parts.
                 for (auto* rsg : sg_list) {
@@ -511,8 +525,12 @@ namespace yask {
             }
 
             // Loop through all needed parts.
+            PartWork pw;
             for (auto* rsg : sg_list) {
                 auto& bname = rsg->get_name();
+                pw.reads += reads[bname];
+                pw.writes += writes[bname];
+                pw.fpops += fpops[bname];
                 num_reads_per_step += reads[bname];
                 num_writes_per_step += writes[bname];
                 num_fpops_per_step += fpops[bname];
@@ -549,6 +567,12 @@ namespace yask {
                 }
             }
 
+            // Sum across ranks.
+            pw.reads = env->sum_over_ranks(pw.reads);
+            pw.writes = env->sum_over_ranks(pw.writes);
+            pw.fpops = env->sum_over_ranks(pw.fpops);
+            part_work.push_back(pw);
+
             // Classify vars.
             VarPtrs idvars, imvars, odvars, omvars, iodvars, iomvars; // i[nput], o[utput], d[omain], m[isc].
             for (auto gp : sg->input_var_ptrs) {
diff --git a/src/kernel/lib/stencil_calc.hpp b/src/kernel/lib/stencil_calc.hpp
index 2c1628e..ce02fa5 100644
--- a/src/kernel/lib/stencil_calc.hpp
+++ b/src/kernel/lib/stencil_calc.hpp
@@ -904,11 +904,20 @@ namespace yask {
         idx_t num_writes_per_step = 0;
         idx_t num_fpops_per_step = 0;
 
-        // Work done across all ranks.
+        // Work needed across all ranks.
         idx_t tot_reads_per_step = 0;
         idx_t tot_writes_per_step = 0;
         idx_t tot_fpops_per_step = 0;
 
+        // Work needed across all ranks for each part in this stage.
+        struct PartWork {
+            idx_t reads = 0, writes = 0, fpops = 0;
+        };
+        std::vector<PartWork> part_work;
+
+        // Work done across all ranks.
+        PartWork work_done;
+
         Stage(StencilContext* context,
               const std::string& name) :
             ContextLinker(context),
@@ -929,7 +938,10 @@ namespace yask {
         // Perf-tracking methods.
         void start_timers();
         void stop_timers();
-        void add_steps(idx_t num_steps);
+
+        // Account for steps from 'start_t' to before 'stop_t',
+        // excluding work in parts that were not valid in a step.
+        void add_steps(idx_t start_t, idx_t stop_t);
 
     }; // Stage.
 
-- 
2.43.0


From 4bc1b184bfa5ace2c434bf80fb9a541e767aadca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:14 +0000
Subject: [PATCH 26/51] fix: refuse reads of later steps in scratch-var
 equations

---
 src/compiler/lib/Eqs.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/compiler/lib/Eqs.cpp b/src/compiler/lib/Eqs.cpp
index 9c2324c..5b5c14e 100644
--- a/src/compiler/lib/Eqs.cpp
+++ b/src/compiler/lib/Eqs.cpp
@@ -600,6 +600,22 @@ namespace yask {
         } // for all eqs.
         os << endl;
 
+        // Check RHS step offsets of scratch eqs. This is done here because
+        // there is no step index on the LHS, so the step direction must be
+        // known. (It is not known only if there are no non-scratch eqs.)
+        for (auto eq1 : get_all()) {
+            if (!eq1->is_scratch())
+                continue;
+            for (auto i1 : in_pts.at(eq1.get())) {
+                auto* rsi1p = i1->get_arg_offsets().lookup(step_dim);
+                if (rsi1p && *rsi1p * dims._step_dir > 1)
+                    THROW_YASK_EXCEPTION("scratch-var equation " + eq1->make_quoted_str() +
+                                         " contains an offset of " + to_string(*rsi1p) +
+                                         " from step-dimension '" + step_dim +
+                                         "' on the RHS, which is beyond the step being evaluated");
+            }
+        }
+
         // Finish processing and dump logical vars.
         log_vars.topo_sort();
         log_vars.print_info();
-- 
2.43.0


From cd78eaa79f3f0171c9d484ffa26220bf849844e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:41 +0000
Subject: [PATCH 27/51] fix: quote left-over options so that they can be parsed
 again

---
 src/common/common_utils.cpp | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/common/common_utils.cpp b/src/common/common_utils.cpp
index ab3b8aa..f7c02e7 100644
--- a/src/common/common_utils.cpp
+++ b/src/common/common_utils.cpp
@@ -156,24 +156,25 @@ namespace yask {
 
     // Add quotes around whitespace in string.
     std::string quote_whitespace(const std::string& str) {
-        auto pos = str.find_first_of(" \t\r\n");
-        if (pos != string::npos) {
-            string r = str;
-
-            // Must not use chars already in the string.
-            auto apos = r.find('\'');
-            auto qpos = r.find('"');
-            if (apos == string::npos) // No apostrophes.
-                r = string("\"") + r + '"'; // Add quotes.
-            else if (qpos == string::npos) // No quotes.
-                r = string("'") + r + "'"; // Add apostrophes.
-            else { // Has both :(.
-                r = regex_replace(r, regex("'"), "\\'"); // Escape apostrophes.
-                r = string("'") + r + "'"; // Add apostrophes.
-            }
-            return r;
+        // Nothing to do if there is nothing special to command_line_parser::set_args().
+        if (str.find_first_of(" \t\r\n\v\f\"'") == string::npos)
+            return str;
+
+        // Put text up to an apostrophe in apostrophes and any
+        // apostrophes in quotes.
+        if (str.find('"') == string::npos)
+            return string("\"") + str + '"'; // Only need quotes.
+        string r;
+        for (size_t i = 0; i < str.length(); ) {
+            bool is_apos = str[i] == '\'';
+            size_t n = 0;
+            while (i + n < str.length() && (str[i + n] == '\'') == is_apos)
+                n++;
+            char delim = is_apos ? '"' : '\'';
+            r += delim + str.substr(i, n) + delim;
+            i += n;
         }
-        return str;
+        return r;
     }
 
     // A var that behaves like OMP_NUM_THREADS.
-- 
2.43.0


From bcafab43fc38075ab83a29f48fd3bb6ee6298947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:41 +0000
Subject: [PATCH 28/51] fix: refuse option values that are out of range for an
 int

---
 src/common/common_utils.cpp   | 5 ++++-
 src/compiler/lib/Settings.cpp | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/common/common_utils.cpp b/src/common/common_utils.cpp
index f7c02e7..b906528 100644
--- a/src/common/common_utils.cpp
+++ b/src/common/common_utils.cpp
@@ -427,7 +427,10 @@ namespace yask {
     bool command_line_parser::int_option::check_arg(const string_vec& args,
                                                  int& argi) {
         if (_is_opt(args, argi, get_name())) {
-            _val = (int)_idx_val(args, argi); // TODO: check for over/underflow.
+            auto val = _idx_val(args, argi);
+            if (val < INT_MIN || val > INT_MAX)
+                THROW_YASK_EXCEPTION("argument for option '" + args[argi - 2] + "' is out of range");
+            _val = int(val);
             return true;
         }
         return false;
diff --git a/src/compiler/lib/Settings.cpp b/src/compiler/lib/Settings.cpp
index 9c39870..4ea7bfe 100644
--- a/src/compiler/lib/Settings.cpp
+++ b/src/compiler/lib/Settings.cpp
@@ -401,7 +401,7 @@ namespace yask {
                     const char* nptr = sval.c_str();
                     char* endptr = 0;
                     long ival = strtol(nptr, &endptr, 0);
-                    if (ival == LONG_MIN || ival == LONG_MAX || *endptr != '\0')
+                    if (ival < INT_MIN || ival > INT_MAX || *endptr != '\0')
                         THROW_YASK_EXCEPTION("argument for option '" + str + "' is not an integer");
 
                     _val.add_dim_back(key, ival);
-- 
2.43.0


From 50e90aab65875c12ae0feb85f644ba7fb992655d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:41 +0000
Subject: [PATCH 29/51] fix: leave settings as they were when options are
 refused

---
 src/compiler/lib/Solution.cpp |  7 +++++--
 src/kernel/lib/soln_apis.cpp  | 15 +++++++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/compiler/lib/Solution.cpp b/src/compiler/lib/Solution.cpp
index b0f327e..6f9ca95 100644
--- a/src/compiler/lib/Solution.cpp
+++ b/src/compiler/lib/Solution.cpp
@@ -176,11 +176,14 @@ namespace yask {
         string rem;
 
         // Create a parser and add options to it.
+        // Use a copy so that no settings are changed if there is an exception.
+        auto new_settings = _settings;
         command_line_parser parser;
-        _settings.add_options(parser);
+        new_settings.add_options(parser);
         
-        // Parse cmd-line options, which sets values in _settings.
+        // Parse cmd-line options, which sets values in settings.
         rem = parser.parse_args("YASK", args);
+        _settings = new_settings;
         return rem;
     }
 
diff --git a/src/kernel/lib/soln_apis.cpp b/src/kernel/lib/soln_apis.cpp
index aec81cc..752aa64 100644
--- a/src/kernel/lib/soln_apis.cpp
+++ b/src/kernel/lib/soln_apis.cpp
@@ -302,6 +302,21 @@ namespace yask {
         STATE_VARS(this);
         string rem;
 
+        // Parse into a copy first so that no settings are changed if there
+        // is an exception.
+        {
+            KernelSettings new_opts(*actl_opts);
+            const bool print_suffixes = is_suffix_print_enabled;
+            command_line_parser parser;
+            new_opts.add_options(parser);
+            try {
+                parser.parse_args("YASK", args);
+            } catch (...) {
+                is_suffix_print_enabled = print_suffixes;
+                throw;
+            }
+        }
+
         // Apply settings to actual and requested options.
         for (auto& cur_opts : { actl_opts, req_opts }) {
         
-- 
2.43.0


From 909ddbeaf48aea48d7d1d4968506d3239495e3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:08 +0000
Subject: [PATCH 30/51] fix: refuse to run solutions that were ended, not
 prepared successfully, or have lost storage

---
 src/kernel/lib/context.cpp   | 7 +++++--
 src/kernel/lib/context.hpp   | 9 ++++++++-
 src/kernel/lib/soln_apis.cpp | 6 ++++++
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/kernel/lib/context.cpp b/src/kernel/lib/context.cpp
index eca1caf..ac32f56 100644
--- a/src/kernel/lib/context.cpp
+++ b/src/kernel/lib/context.cpp
@@ -226,6 +226,11 @@ namespace yask {
         // User-provided code.
         call_2idx_hooks(_before_run_solution_hooks,
                         first_step_index, last_step_index);
+
+        // Check before changing any state, e.g., starting timers.
+        if (!is_prepared())
+            THROW_YASK_EXCEPTION("run_solution() called without calling prepare_solution() first");
+
         // Start main timer.
         run_time.start();
 
@@ -262,8 +267,6 @@ namespace yask {
                   begin.make_dim_val_str() << " ... " <<
                   end.make_dim_val_str() << ") by " <<
                   stride.make_dim_val_str());
-        if (!is_prepared())
-            THROW_YASK_EXCEPTION("run_solution() called without calling prepare_solution() first");
         if (ext_bb.bb_size < 1) {
             TRACE_MSG("nothing to do in solution");
         }
diff --git a/src/kernel/lib/context.hpp b/src/kernel/lib/context.hpp
index f0175fd..5af4925 100644
--- a/src/kernel/lib/context.hpp
+++ b/src/kernel/lib/context.hpp
@@ -373,7 +373,14 @@ namespace yask {
 
         // Ready?
         bool is_prepared() const {
-            return rank_bb.bb_valid;
+            if (!rank_bb.bb_valid)
+                return false;
+
+            // Storage may have been released since the last preparation.
+            for (auto& gp : orig_var_ptrs)
+                if (gp && !gp->is_storage_allocated())
+                    return false;
+            return true;
         }
         void set_prepared(bool prep) {
             rank_bb.bb_valid = prep;
diff --git a/src/kernel/lib/soln_apis.cpp b/src/kernel/lib/soln_apis.cpp
index 752aa64..24ec9c5 100644
--- a/src/kernel/lib/soln_apis.cpp
+++ b/src/kernel/lib/soln_apis.cpp
@@ -145,6 +145,9 @@ namespace yask {
         // User-provided code.
         call_hooks(_before_prepare_solution_hooks);
 
+        // Not prepared until everything below succeeds.
+        set_prepared(false);
+
         // Don't continue until all ranks are this far.
         env->global_barrier();
 
@@ -268,6 +271,9 @@ namespace yask {
             gp->release_storage();
         }
 
+        // Need to prepare again before running.
+        set_prepared(false);
+
         // Reset threads to original value.
         set_max_threads();
     }
-- 
2.43.0


From 4d3e7fdcb66b68e41260ba11a48dfd597c9c60e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:38 +0000
Subject: [PATCH 31/51] fix: leave settings as they were when a settings API
 refuses a change

---
 src/kernel/lib/context.hpp   |  4 +++
 src/kernel/lib/soln_apis.cpp | 47 +++++++++++++++++++++++++++---------
 2 files changed, 39 insertions(+), 12 deletions(-)

diff --git a/src/kernel/lib/context.hpp b/src/kernel/lib/context.hpp
index 5af4925..ece1c90 100644
--- a/src/kernel/lib/context.hpp
+++ b/src/kernel/lib/context.hpp
@@ -451,6 +451,10 @@ namespace yask {
         // This should be called anytime a setting or offset is changed.
         virtual void update_var_info(bool force);
 
+        // Apply changes made by 'change' to the settings and the vars.
+        // Restores the settings if there is an exception.
+        void change_settings(std::function<void()> change);
+
         // Set temporal blocking data.
         // This should be called anytime a block size is changed.
         virtual void update_tb_info();
diff --git a/src/kernel/lib/soln_apis.cpp b/src/kernel/lib/soln_apis.cpp
index 24ec9c5..47995f2 100644
--- a/src/kernel/lib/soln_apis.cpp
+++ b/src/kernel/lib/soln_apis.cpp
@@ -34,6 +34,26 @@ namespace yask {
     // APIs.
     // See yask_kernel_api.hpp and context.hpp.
 
+    // Make a change to the settings or, if it causes an exception, no change.
+    void StencilContext::change_settings(std::function<void()> change) {
+        STATE_VARS(this);
+        const KernelSettings prev_req_opts(*req_opts);
+        const KernelSettings prev_actl_opts(*actl_opts);
+        try {
+            change();
+            update_var_info(false);
+        } catch (...) {
+            *req_opts = prev_req_opts;
+            *actl_opts = prev_actl_opts;
+            try {
+                update_var_info(false);
+            } catch (yask_exception&) {
+                // Previous settings have the same issue.
+            }
+            throw;
+        }
+    }
+
     #define GET_SOLN_API(api_name, expr, start_i, step_ok, domain_ok, misc_ok) \
         idx_t StencilContext::get_ ## api_name(const string& dim) const { \
             STATE_VARS(this);                                           \
@@ -50,10 +70,11 @@ namespace yask {
             TRACE_MSG("solution '" << get_name() << "'.set_"            \
                       #api_name "('" << dim << "', " << n << ")");      \
             dims->check_dim_type(dim, "set_" #api_name, step_ok, domain_ok, misc_ok); \
-            req_opts->expr[dim] = n;                                    \
-            actl_opts->expr[dim] = n;                                   \
-            on_set;                                                     \
-            update_var_info(false);                                     \
+            change_settings([&]() {                                     \
+                req_opts->expr[dim] = n;                                \
+                actl_opts->expr[dim] = n;                               \
+                on_set;                                                 \
+            });                                                         \
             if (reset_prep) set_prepared(false);                        \
         }                                                               \
         void StencilContext::set_ ## api_name ## _vec(const idx_t_vec& vals) { \
@@ -63,10 +84,11 @@ namespace yask {
             if (vals.size() != NUM_DOMAIN_DIMS)                         \
                 THROW_YASK_EXCEPTION("set_'" #api_name                  \
                                      "_vec()' called without the proper number of domain dims"); \
-            req_opts->expr.set_vals(start_i, vals);                     \
-            actl_opts->expr.set_vals(start_i, vals);                     \
-            on_set;                                                     \
-            update_var_info(false);                                     \
+            change_settings([&]() {                                     \
+                req_opts->expr.set_vals(start_i, vals);                 \
+                actl_opts->expr.set_vals(start_i, vals);                \
+                on_set;                                                 \
+            });                                                         \
             if (reset_prep) set_prepared(false);                        \
         }                                                               \
         void StencilContext::set_ ## api_name ## _vec(const idx_t_init_list& vals) { \
@@ -76,10 +98,11 @@ namespace yask {
             if (vals.size() != NUM_DOMAIN_DIMS)                         \
                 THROW_YASK_EXCEPTION("set_'" #api_name                  \
                                      "_vec()' called without the proper number of domain dims"); \
-            req_opts->expr.set_vals(start_i, vals);                     \
-            actl_opts->expr.set_vals(start_i, vals);                    \
-            on_set;                                                     \
-            update_var_info(false);                                     \
+            change_settings([&]() {                                     \
+                req_opts->expr.set_vals(start_i, vals);                 \
+                actl_opts->expr.set_vals(start_i, vals);                \
+                on_set;                                                 \
+            });                                                         \
             if (reset_prep) set_prepared(false);                        \
         }
     #define SOLN_API(api_name, expr, start_i, step_ok, domain_ok, misc_ok, reset_prep, on_set) \
-- 
2.43.0


From 6a2a8c7ee37d07d4fa6945d2298640871f3c3a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 32/51] fix: leave vars as they were when a var API refuses a
 size, and refuse negative sizes

---
 src/kernel/lib/yk_var.cpp      |  2 ++
 src/kernel/lib/yk_var_apis.cpp | 12 +++++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/kernel/lib/yk_var.cpp b/src/kernel/lib/yk_var.cpp
index dc1c180..3c2107c 100644
--- a/src/kernel/lib/yk_var.cpp
+++ b/src/kernel/lib/yk_var.cpp
@@ -218,6 +218,8 @@ namespace yask {
 
         // Check settings.
         for (int i = 0; i < get_num_dims(); i++) {
+            if (_corep->_domains[i] < 0)
+                THROW_YASK_EXCEPTION("negative size in var '" + get_name() + "'");
             if (_corep->_left_halos[i] < 0)
                 THROW_YASK_EXCEPTION("negative left halo in var '" + get_name() + "'");
             if (_corep->_right_halos[i] < 0)
diff --git a/src/kernel/lib/yk_var_apis.cpp b/src/kernel/lib/yk_var_apis.cpp
index 52e8dab..70a1cab 100644
--- a/src/kernel/lib/yk_var_apis.cpp
+++ b/src/kernel/lib/yk_var_apis.cpp
@@ -84,9 +84,15 @@ namespace yask {
             dims->check_dim_type(dim, #api_name, step_ok, domain_ok, misc_ok); \
             int posn = gb().get_dim_posn(dim, true, #api_name);         \
             auto cp = corep();                                          \
-            expr;                                                       \
-            if (need_resize) resize();                                  \
-            else sync_core();                                           \
+            auto old_core = *cp;                                        \
+            try {                                                       \
+                expr;                                                   \
+                if (need_resize) resize();                              \
+                else sync_core();                                       \
+            } catch (...) {                                             \
+                *cp = old_core; /* refused: leave var as it was. */     \
+                throw;                                                  \
+            }                                                           \
         }                                                               \
         void YkVarImpl::api_name(int posn, idx_t n) {                   \
             STATE_VARS(gbp());                                          \
-- 
2.43.0


From 69e05bd46262ff79690734dc88a65df8fc21c29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 33/51] fix: ignore pad-size requests for vars that have
 storage, as documented

---
 src/kernel/lib/yk_var.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/kernel/lib/yk_var.cpp b/src/kernel/lib/yk_var.cpp
index 3c2107c..5930f4a 100644
--- a/src/kernel/lib/yk_var.cpp
+++ b/src/kernel/lib/yk_var.cpp
@@ -264,10 +264,13 @@ namespace yask {
                 auto svl = _corep->_soln_vec_lens[i];
 
                 // Add more padding requested by options or APIs.
-                new_left_pads[i] += _corep->_req_left_epads[i];
-                new_right_pads[i] += _corep->_req_right_epads[i];
-                new_left_pads[i] = max(new_left_pads[i], _corep->_req_left_pads[i]);
-                new_right_pads[i] = max(new_right_pads[i], _corep->_req_right_pads[i]);
+                // Requests are ignored if already allocated.
+                if (!p) {
+                    new_left_pads[i] += _corep->_req_left_epads[i];
+                    new_right_pads[i] += _corep->_req_right_epads[i];
+                    new_left_pads[i] = max(new_left_pads[i], _corep->_req_left_pads[i]);
+                    new_right_pads[i] = max(new_right_pads[i], _corep->_req_right_pads[i]);
+                }
 
                 // Round left pad up to soln vec len.
                 new_left_pads[i] = ROUND_UP(new_left_pads[i], svl);
-- 
2.43.0


From f23220da19e9c05e13a403b275f64107ebfc2573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:50 +0000
Subject: [PATCH 34/51] fix: check compatibility when fusing vars, keep
 solution halos, and require preparation after fusing

---
 src/kernel/lib/context.hpp     | 15 +++++--
 src/kernel/lib/soln_apis.cpp   |  5 +++
 src/kernel/lib/yk_var.hpp      |  3 ++
 src/kernel/lib/yk_var_apis.cpp | 73 +++++++++++++++++++++++++++-------
 4 files changed, 78 insertions(+), 18 deletions(-)

diff --git a/src/kernel/lib/context.hpp b/src/kernel/lib/context.hpp
index ece1c90..81bf655 100644
--- a/src/kernel/lib/context.hpp
+++ b/src/kernel/lib/context.hpp
@@ -296,6 +296,9 @@ namespace yask {
 
         // Only non-scratch vars defined by the YASK compiler.
         VarPtrs orig_var_ptrs;
+
+        // Meta-data of each of the above when the solution was prepared.
+        std::vector<std::weak_ptr<YkVarBase>> _prepared_vars;
         VarPtrMap orig_var_map;
 
         // Only non-scratch vars defined by the YASK compiler that are updated by the stencils.
@@ -376,10 +379,16 @@ namespace yask {
             if (!rank_bb.bb_valid)
                 return false;
 
-            // Storage may have been released since the last preparation.
-            for (auto& gp : orig_var_ptrs)
-                if (gp && !gp->is_storage_allocated())
+            // Storage may have been released or vars may have been fused
+            // since the last preparation.
+            if (_prepared_vars.size() != orig_var_ptrs.size())
+                return false;
+            for (size_t i = 0; i < orig_var_ptrs.size(); i++) {
+                auto& gp = orig_var_ptrs.at(i);
+                if (!gp->is_storage_allocated() ||
+                    gp->get_gbp() != _prepared_vars.at(i).lock())
                     return false;
+            }
             return true;
         }
         void set_prepared(bool prep) {
diff --git a/src/kernel/lib/soln_apis.cpp b/src/kernel/lib/soln_apis.cpp
index 47995f2..8515337 100644
--- a/src/kernel/lib/soln_apis.cpp
+++ b/src/kernel/lib/soln_apis.cpp
@@ -243,6 +243,11 @@ namespace yask {
         // Set core data needed in kernels.
         set_core();
 
+        // Remember which vars the core data refers to.
+        _prepared_vars.clear();
+        for (auto& gp : orig_var_ptrs)
+            _prepared_vars.push_back(gp->get_gbp());
+
         // Determine the write halos for any scratch parts.
         find_scratch_write_halos();
         
diff --git a/src/kernel/lib/yk_var.hpp b/src/kernel/lib/yk_var.hpp
index af3b515..cc6c799 100644
--- a/src/kernel/lib/yk_var.hpp
+++ b/src/kernel/lib/yk_var.hpp
@@ -2225,6 +2225,9 @@ namespace yask {
         inline void set_gbp(const VarBasePtr& gp) {
             _gbp = gp;
         }
+        inline const VarBasePtr& get_gbp() const {
+            return _gbp;
+        }
         inline YkVarBase& gb() {
             assert(_gbp.get());
             return *(_gbp.get());
diff --git a/src/kernel/lib/yk_var_apis.cpp b/src/kernel/lib/yk_var_apis.cpp
index 70a1cab..4ffc2fa 100644
--- a/src/kernel/lib/yk_var_apis.cpp
+++ b/src/kernel/lib/yk_var_apis.cpp
@@ -346,28 +346,71 @@ namespace yask {
         auto* sp = op.get();
         assert(!_gbp->is_scratch());
 
-        // Check conditions for fusing into a non-user var.
-        bool force_native = false;
-        if (gb().is_user_var()) {
-            force_native = true;
-            if (!is_storage_layout_identical(sp, false))
-                THROW_YASK_EXCEPTION("fuse_vars(): attempt to replace meta-data"
-                                     " of " + gb().make_info_string() +
-                                     " used in solution with incompatible " +
-                                     sp->gb().make_info_string());
+        // Nothing to do if already sharing meta-data.
+        if (_gbp == sp->_gbp)
+            return;
+
+        // Dims and folding must always match.
+        if (!is_storage_layout_identical(sp, false))
+            THROW_YASK_EXCEPTION("fuse_vars(): attempt to replace meta-data"
+                                 " of " + gb().make_info_string() +
+                                 " with incompatible " +
+                                 sp->gb().make_info_string());
+
+        // Check and apply conditions for fusing into a var used in the
+        // solution.
+        if (!gb().is_user_var()) {
+            auto* cp = corep();
+            auto* scp = sp->corep();
+
+            // Sizes and offsets in non-domain dims are fixed by the solution.
+            for (int i = 0; i < get_num_dims(); i++) {
+                idx_t mbit = idx_t(1) << i;
+                bool is_misc = (gb()._misc_dim_mask & mbit) != 0;
+                bool is_step = (gb()._step_dim_mask & mbit) != 0;
+                if ((is_misc || is_step) &&
+                    (cp->_domains[i] != scp->_domains[i] ||
+                     (is_misc && cp->_local_offsets[i] != scp->_local_offsets[i])))
+                    THROW_YASK_EXCEPTION("fuse_vars(): attempt to replace meta-data"
+                                         " of " + gb().make_info_string() +
+                                         " used in solution with " +
+                                         sp->gb().make_info_string() +
+                                         " with a different size or first index in '" +
+                                         get_dim_name(i) + "' dim");
+            }
+
+            // The solution needs at least its own halos.
+            auto old_core = *scp;
+            bool new_halos = false;
+            for (int i = 0; i < get_num_dims(); i++) {
+                new_halos |= scp->_left_halos[i] < cp->_left_halos[i] ||
+                    scp->_right_halos[i] < cp->_right_halos[i];
+                scp->_left_halos[i] = max(scp->_left_halos[i], cp->_left_halos[i]);
+                scp->_right_halos[i] = max(scp->_right_halos[i], cp->_right_halos[i]);
+            }
+            try {
+                if (new_halos)
+                    sp->resize();
+            } catch (...) {
+                *scp = old_core; // refused: leave source as it was.
+                throw;
+            }
+            sp->set_halo_exchange_l1_norm(max(sp->get_halo_exchange_l1_norm(),
+                                              get_halo_exchange_l1_norm()));
+
+            // Tag source as a non-user var.
+            sp->gb().set_user_var(false);
+            sp->gb()._set_dynamic_step_alloc(gb()._is_dynamic_step_alloc);
+            sp->gb()._set_dynamic_misc_alloc(gb()._is_dynamic_misc_alloc);
         }
 
-        // Copy shared-ptr to keep source YkVarBase active to end of method.
-        VarBasePtr st_gbp = sp->_gbp;
+        // Copy shared-ptr to keep old YkVarBase active to end of method.
+        VarBasePtr old_gbp = _gbp;
 
         // Fuse meta-data.
         // After this, both YkVarImpls will point to same YkVarBase.
         _gbp = sp->_gbp;
 
-        // Tag var as a non-user var if the original one was.
-        if (force_native)
-            _gbp->set_user_var(false);
-
         TRACE_MSG("after fusing this=" << gb().make_info_string() <<
                   "; source=" << op->gb().make_info_string());
     }
-- 
2.43.0


From 7eb243abceea5ce216a0abd8d61de32c8d74c08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:14 +0000
Subject: [PATCH 35/51] fix: refuse negative sizes before creating a fixed-size
 var

---
 src/kernel/lib/new_var.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kernel/lib/new_var.cpp b/src/kernel/lib/new_var.cpp
index deb1529..9c20682 100644
--- a/src/kernel/lib/new_var.cpp
+++ b/src/kernel/lib/new_var.cpp
@@ -42,6 +42,10 @@ namespace yask {
                                                 gdims.size() << " dimension names but " << sizes->size() <<
                                                 " dimension sizes");
             }
+            for (auto sz : *sizes)
+                if (sz < 0)
+                    FORMAT_AND_THROW_YASK_EXCEPTION("attempt to create var '" << name <<
+                                                    "' with negative size " << sz);
         }
 
         // First, try to make a var that matches the layout in
-- 
2.43.0


From 70fce79278cc4327062ee7420d0307d3cb2112f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:56 +0000
Subject: [PATCH 36/51] fix: refuse to run a solution whose vars were changed
 via another one

---
 src/kernel/lib/context.cpp | 28 ++++++++++++++++++++++++++++
 src/kernel/lib/context.hpp | 17 +----------------
 2 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/kernel/lib/context.cpp b/src/kernel/lib/context.cpp
index ac32f56..229a6c0 100644
--- a/src/kernel/lib/context.cpp
+++ b/src/kernel/lib/context.cpp
@@ -216,6 +216,34 @@ namespace yask {
 
     } // run_ref.
 
+    // Determine whether solution can be run.
+    bool StencilContext::is_prepared() const {
+        STATE_VARS(this);
+        if (!rank_bb.bb_valid)
+            return false;
+
+        // Storage may have been released, and vars may have been fused or
+        // changed via another solution since the last preparation.
+        if (_prepared_vars.size() != orig_var_ptrs.size())
+            return false;
+        for (size_t i = 0; i < orig_var_ptrs.size(); i++) {
+            auto& gp = orig_var_ptrs.at(i);
+            if (!gp->is_storage_allocated() ||
+                gp->get_gbp() != _prepared_vars.at(i).lock())
+                return false;
+            for (auto& dim : domain_dims) {
+                auto& dname = dim._get_name();
+                if (gp->is_dim_used(dname) &&
+                    (gp->get_first_rank_domain_index(dname) !=
+                     rank_bb.bb_begin_tuple(domain_dims)[dname] ||
+                     gp->get_last_rank_domain_index(dname) !=
+                     rank_bb.bb_end_tuple(domain_dims)[dname] - 1))
+                    return false;
+            }
+        }
+        return true;
+    }
+
     // Eval stage(s) over var(s) using optimized code.
     void StencilContext::run_solution(idx_t first_step_index,
                                       idx_t last_step_index)
diff --git a/src/kernel/lib/context.hpp b/src/kernel/lib/context.hpp
index 81bf655..84e069c 100644
--- a/src/kernel/lib/context.hpp
+++ b/src/kernel/lib/context.hpp
@@ -375,22 +375,7 @@ namespace yask {
         virtual StencilCoreBase* corep() =0;
 
         // Ready?
-        bool is_prepared() const {
-            if (!rank_bb.bb_valid)
-                return false;
-
-            // Storage may have been released or vars may have been fused
-            // since the last preparation.
-            if (_prepared_vars.size() != orig_var_ptrs.size())
-                return false;
-            for (size_t i = 0; i < orig_var_ptrs.size(); i++) {
-                auto& gp = orig_var_ptrs.at(i);
-                if (!gp->is_storage_allocated() ||
-                    gp->get_gbp() != _prepared_vars.at(i).lock())
-                    return false;
-            }
-            return true;
-        }
+        bool is_prepared() const;
         void set_prepared(bool prep) {
             rank_bb.bb_valid = prep;
         }
-- 
2.43.0


From b40a94782f1d7b762126481672128b441f75417f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:11 +0000
Subject: [PATCH 37/51] fix: refuse a repeated dim in a new var and any step
 index in a var without steps

---
 src/kernel/lib/new_var.cpp | 1 +
 src/kernel/lib/yk_var.cpp  | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kernel/lib/new_var.cpp b/src/kernel/lib/new_var.cpp
index 9c20682..ed33430 100644
--- a/src/kernel/lib/new_var.cpp
+++ b/src/kernel/lib/new_var.cpp
@@ -76,6 +76,7 @@ namespace yask {
                                          "' because dimension '" + gdim +
                                          "' is used more than once");
                 }
+                seen_dims.insert(gdim);
 
                 // Step dim?
                 if (gdim == step_dim) {
diff --git a/src/kernel/lib/yk_var.cpp b/src/kernel/lib/yk_var.cpp
index 5930f4a..5dbcd36 100644
--- a/src/kernel/lib/yk_var.cpp
+++ b/src/kernel/lib/yk_var.cpp
@@ -516,8 +516,9 @@ namespace yask {
             auto& dname = get_dim_name(i);
 
             // If this is the step dim and we're not checking
-            // it, then anything is ok.
-            if (is_step_dim && (!check_step || actl_opts->_step_wrap))
+            // it, then anything is ok if there are any steps.
+            if (is_step_dim && _corep->_domains[i] > 0 &&
+                (!check_step || actl_opts->_step_wrap))
                 ok = true;
 
             // Otherwise, check range.
-- 
2.43.0


From 45cf7766ffeaa9ecebce6609f7f18c30fc741b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:42 +0000
Subject: [PATCH 38/51] fix: refuse any change of a var's size once it has
 storage, and forget a refused new var

---
 src/kernel/lib/new_var.cpp     | 13 +++++++++++--
 src/kernel/lib/yk_var.cpp      |  5 +++--
 src/kernel/lib/yk_var_apis.cpp |  3 +++
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/kernel/lib/new_var.cpp b/src/kernel/lib/new_var.cpp
index ed33430..dd9eacd 100644
--- a/src/kernel/lib/new_var.cpp
+++ b/src/kernel/lib/new_var.cpp
@@ -158,8 +158,17 @@ namespace yask {
         }
 
         // Set sizes based on solution settings.
-        else
-            update_var_info(false);
+        else {
+            try {
+                update_var_info(false);
+            } catch (...) {
+
+                // Refused; don't keep new var.
+                all_var_ptrs.pop_back();
+                all_var_map.erase(name);
+                throw;
+            }
+        }
 
         return ygp;
     }
diff --git a/src/kernel/lib/yk_var.cpp b/src/kernel/lib/yk_var.cpp
index 5dbcd36..4fa0ca0 100644
--- a/src/kernel/lib/yk_var.cpp
+++ b/src/kernel/lib/yk_var.cpp
@@ -319,8 +319,9 @@ namespace yask {
                 assert(new_allocs[i] == new_left_pads[i] + _corep->_domains[i] + new_right_pads[i]);
 
                 // Since the left pad and domain + right pad were rounded up,
-                // the sum should also be a vec mult.
-                assert(new_allocs[i] % svl == 0);
+                // the sum should also be a vec mult.  With existing
+                // storage, a different sum will be refused below.
+                assert(p || new_allocs[i] % svl == 0);
             }
 
             // Non-domain dims.
diff --git a/src/kernel/lib/yk_var_apis.cpp b/src/kernel/lib/yk_var_apis.cpp
index 4ffc2fa..3d5cf3d 100644
--- a/src/kernel/lib/yk_var_apis.cpp
+++ b/src/kernel/lib/yk_var_apis.cpp
@@ -266,6 +266,9 @@ namespace yask {
                 cp->_local_offsets[posn] = n,
                 false, false, gb()._is_user_var, false)
     SET_VAR_API(set_alloc_size,
+                if (is_storage_allocated() && n != cp->_domains[posn])
+                    THROW_YASK_EXCEPTION("attempt to change allocation size of var '" +
+                                         get_name() + "' after storage has been allocated");
                 cp->_domains[posn] = n,
                 gb()._is_dynamic_step_alloc, gb()._fixed_size, gb()._is_dynamic_misc_alloc, true)
 
-- 
2.43.0


From 80a6955e45635cb9d926733f025d6c8bf3c2215d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:35 +0000
Subject: [PATCH 39/51] fix: measure elapsed time with a clock that is not set
 back

---
 src/common/common_utils.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/common_utils.hpp b/src/common/common_utils.hpp
index d89100a..f3bb38f 100644
--- a/src/common/common_utils.hpp
+++ b/src/common/common_utils.hpp
@@ -481,9 +481,11 @@ namespace yask {
 
         // Make a current timespec to be provided to start() or stop().
         // This allows multiple timers to use the same timespec.
+        // Use a clock that is never set back so that
+        // elapsed times are never negative.
         static TimeSpec get_timespec() {
             TimeSpec ts;
-            clock_gettime(CLOCK_REALTIME, &ts);
+            clock_gettime(CLOCK_MONOTONIC, &ts);
             return ts;
         }
 
-- 
2.43.0


From 82b9d4e49dbb40aadf7c19f8bbbb8cebb1f1d522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:35 +0000
Subject: [PATCH 40/51] fix: let the auto-tuner find a best size when no time
 was measured

---
 src/kernel/lib/auto_tuner.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kernel/lib/auto_tuner.cpp b/src/kernel/lib/auto_tuner.cpp
index 25d2056..05ba84b 100644
--- a/src/kernel/lib/auto_tuner.cpp
+++ b/src/kernel/lib/auto_tuner.cpp
@@ -216,10 +216,11 @@ namespace yask {
         if (done)
             return;
 
-        // Cumulative stats and rate.
+        // Cumulative stats and rate.  If the steps were too fast to measure,
+        // use a tiny time to get a positive rate.
         at_state.csteps += steps;
         at_state.ctime += etime;
-        double crate = (at_state.ctime > 0.) ? (double(at_state.csteps) / at_state.ctime) : 0.;
+        double crate = double(at_state.csteps) / max(at_state.ctime, 1e-9);
         AT_TRACE_MSG("eval() callback: " << steps << " step(s) in " <<
                      etime << " secs; " << at_state.csteps << " step(s) in " <<
                      at_state.ctime << " secs (" << crate <<
-- 
2.43.0


From b9ad453b2225c8bb44047d277fa96e1881990059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:51 +0000
Subject: [PATCH 41/51] fix: allow running a solution that has no equations

---
 src/kernel/lib/context.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kernel/lib/context.cpp b/src/kernel/lib/context.cpp
index 229a6c0..cff138c 100644
--- a/src/kernel/lib/context.cpp
+++ b/src/kernel/lib/context.cpp
@@ -231,6 +231,10 @@ namespace yask {
             if (!gp->is_storage_allocated() ||
                 gp->get_gbp() != _prepared_vars.at(i).lock())
                 return false;
+
+            // Vars are not positioned if there is nothing to evaluate.
+            if (!st_stages.size())
+                continue;
             for (auto& dim : domain_dims) {
                 auto& dname = dim._get_name();
                 if (gp->is_dim_used(dname) &&
-- 
2.43.0


From 69d41e9c7a2f210e458009066e9210ca92866521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:15 +0000
Subject: [PATCH 42/51] fix: follow wave-front shifts changed by the auto-tuner
 within a run

---
 src/kernel/lib/context.cpp | 46 ++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/kernel/lib/context.cpp b/src/kernel/lib/context.cpp
index cff138c..c949bf5 100644
--- a/src/kernel/lib/context.cpp
+++ b/src/kernel/lib/context.cpp
@@ -341,18 +341,7 @@ namespace yask {
             //                      |XXXXXX|         |XXXXX|  <- redundant calculations.
             // XXXXXX|  <- areas outside of outer ranks not calculated ->  |XXXXXXX
             //
-            if (wf_steps > 0) {
-                DOMAIN_VAR_LOOP_FAST(i, j) {
-
-                    // The end should be adjusted only if an extension doesn't
-                    // exist.  Extentions exist between ranks, so additional
-                    // adjustments are only needed at the end of the right-most
-                    // rank in each dim.  See "(adj)" in diagram above.
-                    if (right_wf_exts[j] == 0)
-                        end[i] += wf_shift_pts[j];
-                }
-            }
-
+            //
             // At this point, 'begin' and 'end' should describe the *max* range
             // needed in the domain for this rank for the first time step.  At
             // any subsequent time step, this max may be shifted for temporal
@@ -361,14 +350,32 @@ namespace yask {
             // calculations are made.
 
             // Indices needed for the 'rank' loops.
+            // This is called again after the auto-tuner may have changed the
+            // mega-block sizes and thus the wave-front shifts.
             ScanIndices rank_idxs(true, &rank_domain_offsets);
-            rank_idxs.begin = begin;
-            rank_idxs.end = end;
-            rank_idxs.stride = stride;
-            rank_idxs.tile_size = actl_opts->_rank_tile_sizes;
-            rank_idxs.adjust_from_settings(actl_opts->_rank_sizes,
-                                           actl_opts->_rank_tile_sizes,
-                                           actl_opts->_mega_block_sizes);
+            auto set_rank_idxs = [&]() {
+                rank_idxs.begin = begin;
+                rank_idxs.end = end;
+                if (wf_steps > 0) {
+                    DOMAIN_VAR_LOOP_FAST(i, j) {
+
+                        // The end should be adjusted only if an extension doesn't
+                        // exist.  Extentions exist between ranks, so additional
+                        // adjustments are only needed at the end of the right-most
+                        // rank in each dim.  See "(adj)" in diagram above.
+                        if (right_wf_exts[j] == 0)
+                            rank_idxs.end[i] += wf_shift_pts[j];
+                    }
+                }
+                stride.set_vals(actl_opts->_mega_block_sizes, false); // stride by mega-block sizes.
+                stride[step_posn] = stride_t;
+                rank_idxs.stride = stride;
+                rank_idxs.tile_size = actl_opts->_rank_tile_sizes;
+                rank_idxs.adjust_from_settings(actl_opts->_rank_sizes,
+                                               actl_opts->_rank_tile_sizes,
+                                               actl_opts->_mega_block_sizes);
+            };
+            set_rank_idxs();
             TRACE_MSG("after adjustment for " << num_wf_shifts <<
                       " wave-front shift(s): " <<
                       rank_idxs.make_range_str(true));
@@ -633,6 +640,7 @@ namespace yask {
                 auto this_time = _at.timer.stop();
                 _at.steps_done += this_num_t;
                 eval_auto_tuner();
+                set_rank_idxs();
                 TRACE_MSG("did " << this_num_t << " step(s) in " << this_time << " secs.");
 
             } // step loop.
-- 
2.43.0


From 6f4b875e65c08ac64402126d8d849a5b7d97b26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:40 +0000
Subject: [PATCH 43/51] fix: update wave-front angles when the auto-tuner
 changes mega-block sizes

---
 src/kernel/lib/auto_tuner.cpp |  3 +-
 src/kernel/lib/context.hpp    |  4 +++
 src/kernel/lib/setup.cpp      | 57 ++++++++++++++++++++---------------
 3 files changed, 39 insertions(+), 25 deletions(-)

diff --git a/src/kernel/lib/auto_tuner.cpp b/src/kernel/lib/auto_tuner.cpp
index 05ba84b..fa51e90 100644
--- a/src/kernel/lib/auto_tuner.cpp
+++ b/src/kernel/lib/auto_tuner.cpp
@@ -495,8 +495,9 @@ namespace yask {
         // Make sure everything is adjusted based on new target size.
         _settings->adjust_settings(do_print ? this : 0);
         
-        // Update temporal blocking info.
+        // Update wave-front and temporal blocking info.
         // (Normally called from update_var_info().)
+        _context->update_wf_info(false);
         _context->update_tb_info();
 
         // Reallocate scratch vars based on new micro-block size.
diff --git a/src/kernel/lib/context.hpp b/src/kernel/lib/context.hpp
index 84e069c..e6a6d91 100644
--- a/src/kernel/lib/context.hpp
+++ b/src/kernel/lib/context.hpp
@@ -449,6 +449,10 @@ namespace yask {
         // Restores the settings if there is an exception.
         void change_settings(std::function<void()> change);
 
+        // Set wave-front data.
+        // This should be called anytime a mega-block size is changed.
+        virtual void update_wf_info(bool force);
+
         // Set temporal blocking data.
         // This should be called anytime a block size is changed.
         virtual void update_tb_info();
diff --git a/src/kernel/lib/setup.cpp b/src/kernel/lib/setup.cpp
index 92b4038..33d30e4 100644
--- a/src/kernel/lib/setup.cpp
+++ b/src/kernel/lib/setup.cpp
@@ -724,6 +724,38 @@ namespace yask {
             }
         }
 
+        // Calculate wave-front shifts and extensions.
+        update_wf_info(force);
+
+        // Now that wave-front settings are known, we can push this info
+        // back to the vars. It's useful to store this redundant info
+        // in the vars, because there it's indexed by var dims instead
+        // of domain dims. This makes it faster to do var indexing.
+        for (auto gp : orig_var_ptrs) {
+            assert(gp);
+
+            // Loop through each domain dim.
+            for (auto& dim : domain_dims) {
+                auto& dname = dim._get_name();
+                if (gp->is_dim_used(dname)) {
+                    // Set extensions to be the same as the global ones.
+                    gp->_set_left_wf_ext(dname, left_wf_exts[dname]);
+                    gp->_set_right_wf_ext(dname, right_wf_exts[dname]);
+                }
+            }
+        } // vars.
+
+        // Calculate temporal-block shifts.
+        // NB: this will change if/when block sizes change.
+        update_tb_info();
+
+    } // update_var_info().
+
+    // Set wave-front data.  This should be called anytime a mega-block size
+    // is changed.  Must be called after 'max_halos' is set.
+    void StencilContext::update_wf_info(bool force) {
+        STATE_VARS(this);
+
         // Calculate wave-front shifts.
         // See the wavefront diagram in run_solution() for description
         // of angles and extensions.
@@ -793,30 +825,7 @@ namespace yask {
             // extension on the right.
             right_wf_exts[dname] = actl_opts->is_last_rank(dname) ? 0 : shifts;
         }
-
-        // Now that wave-front settings are known, we can push this info
-        // back to the vars. It's useful to store this redundant info
-        // in the vars, because there it's indexed by var dims instead
-        // of domain dims. This makes it faster to do var indexing.
-        for (auto gp : orig_var_ptrs) {
-            assert(gp);
-
-            // Loop through each domain dim.
-            for (auto& dim : domain_dims) {
-                auto& dname = dim._get_name();
-                if (gp->is_dim_used(dname)) {
-                    // Set extensions to be the same as the global ones.
-                    gp->_set_left_wf_ext(dname, left_wf_exts[dname]);
-                    gp->_set_right_wf_ext(dname, right_wf_exts[dname]);
-                }
-            }
-        } // vars.
-
-        // Calculate temporal-block shifts.
-        // NB: this will change if/when block sizes change.
-        update_tb_info();
-
-    } // update_var_info().
+    } // update_wf_info().
 
     // Adjust offsets of scratch vars based on thread number 'thread_idx'
     // and beginning point of micro-block 'idxs'.  Each scratch-var is
-- 
2.43.0


From 1859047419fcd5142f9db8b7e1b823c173ba771a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:43 +0000
Subject: [PATCH 44/51] fix: set block strides from the current mega-block
 bounds

set_strides_from_inner() may double a stride when it exceeds the overall range, but the range used was the one left over from the previous stage or step, so blocks larger than the micro-block size used for allocating scratch vars could be generated.
---
 src/kernel/lib/context.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/kernel/lib/context.cpp b/src/kernel/lib/context.cpp
index c949bf5..23ab1d9 100644
--- a/src/kernel/lib/context.cpp
+++ b/src/kernel/lib/context.cpp
@@ -734,9 +734,6 @@ namespace yask {
                               bp->get_name() << "' in step(s) [" <<
                               start_t << " ... " << stop_t << ")");
 
-                    // Strides within a mega-block are based on block sizes.
-                    mega_block_idxs.set_strides_from_inner(actl_opts->_block_sizes, stride_t);
-
                     // Tiles in mega-block loops.
                     mega_block_idxs.tile_size = actl_opts->_mega_block_tile_sizes;
                     
@@ -747,6 +744,10 @@ namespace yask {
                     bool ok = shift_mega_block(rank_idxs.start, rank_idxs.stop,
                                                mega_block_shift_num, bp,
                                                mega_block_idxs, mpisec);
+
+                    // Strides within a mega-block are based on block sizes.
+                    // NB: depends on begin & end, so they must be set first.
+                    mega_block_idxs.set_strides_from_inner(actl_opts->_block_sizes, stride_t);
                     mega_block_idxs.adjust_from_settings(actl_opts->_mega_block_sizes,
                                                          actl_opts->_mega_block_tile_sizes,
                                                          actl_opts->_block_sizes);
@@ -797,10 +798,6 @@ namespace yask {
                 // calc_block() is called.
                 StagePtr bp;
 
-                // Strides within a mega-block are based on block sizes.
-                // Cannot use different strides per stage with TB.
-                mega_block_idxs.set_strides_from_inner(actl_opts->_block_sizes, stride_t);
-
                 // Tiles in mega-block loops.
                 mega_block_idxs.tile_size = actl_opts->_mega_block_tile_sizes;
                 
@@ -811,6 +808,11 @@ namespace yask {
                 bool ok = shift_mega_block(rank_idxs.start, rank_idxs.stop,
                                            mega_block_shift_num, bp,
                                            mega_block_idxs, mpisec);
+
+                // Strides within a mega-block are based on block sizes.
+                // Cannot use different strides per stage with TB.
+                // NB: depends on begin & end, so they must be set first.
+                mega_block_idxs.set_strides_from_inner(actl_opts->_block_sizes, stride_t);
                 mega_block_idxs.adjust_from_settings(actl_opts->_mega_block_sizes,
                                                      actl_opts->_mega_block_tile_sizes,
                                                      actl_opts->_block_sizes);
-- 
2.43.0


From b1ed529d40bec9ec06cbb09c64fd5562feb0d05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:19 +0000
Subject: [PATCH 45/51] fix: use global element indices for domain-index values
 in vector code

An index used as a number in an equation was printed as the loop index of the vector code, which is relative to the rank and divided by the vector length.
---
 src/compiler/lib/Cpp.cpp   | 69 ++++++++++++++++++++++++++++++++++++++
 src/compiler/lib/Cpp.hpp   |  4 +++
 src/compiler/lib/Print.cpp | 20 +++++++++++
 src/compiler/lib/Print.hpp |  8 +++++
 4 files changed, 101 insertions(+)

diff --git a/src/compiler/lib/Cpp.cpp b/src/compiler/lib/Cpp.cpp
index 2cf58d5..391b7e5 100644
--- a/src/compiler/lib/Cpp.cpp
+++ b/src/compiler/lib/Cpp.cpp
@@ -1094,6 +1094,75 @@ namespace yask {
         return mv_name;
     }
 
+    // Visitor to find what an expression depends on.
+    class IndexExprVisitor : public ExprVisitor {
+    public:
+        bool _only_indices = true; // only indices, constants, and operators.
+        set<string> _domain_dims;  // domain dims used.
+
+        virtual string visit(CodeExpr* ce) {
+            _only_indices = false;
+            return "";
+        }
+        virtual string visit(VarPoint* gp) {
+            _only_indices = false;
+            return "";
+        }
+        virtual string visit(FuncExpr* fe) {
+            _only_indices = false;
+            return "";
+        }
+        virtual string visit(IndexExpr* ie) {
+            if (ie->get_type() == DOMAIN_INDEX)
+                _domain_dims.insert(ie->_get_name());
+            return "";
+        }
+    };
+
+    // Print an expression of indices and constants.  The loop indices in
+    // the vector code are rank-relative and normalized, so they cannot be
+    // used as values.
+    string CppVecPrintHelper::read_index_expr(ostream& os, Expr* ex) {
+        IndexExprVisitor iev;
+        ex->accept(&iev);
+        if (!iev._only_indices || !iev._domain_dims.size())
+            return "";
+
+        // Any difference between elements?
+        bool is_vec = false;
+        for (auto& dname : iev._domain_dims)
+            if (get_fold()[dname] > 1)
+                is_vec = true;
+
+        // Make expr for each element using the same code as is used for
+        // scalars, but with the global index of the element.
+        string mv_name;
+        if (is_vec) {
+            mv_name = make_var_name("index_vec");
+            os << _line_prefix << get_var_type() << " " << mv_name << _line_suffix;
+        }
+        get_fold().visit_all_points([&](const IntTuple& vec_point,
+                                        size_t pelem, int thread) {
+                                        VarMap v_map;
+                                        for (auto& dim : vec_point) {
+                                            auto& dname = dim._get_name();
+                                            v_map[dname] = "(" + get_global_elem_index(dname) + "+" +
+                                                to_string(dim.get_val()) + ")";
+                                        }
+                                        PrintVisitorTopDown pv(os, *this, &v_map);
+                                        string expr = ex->accept(&pv);
+                                        if (!is_vec) {
+                                            mv_name = expr;
+                                            return false;
+                                        }
+                                        os << _line_prefix << mv_name << "[" << pelem << "] = " <<
+                                            expr << "; // for offset " << vec_point.make_dim_val_str() <<
+                                            _line_suffix;
+                                        return true;
+                                    }); // end of lambda.
+        return mv_name;
+    }
+
     // Print unaliged memory read.
     // Assumes this results in same values as print_unaligned_vec().
     // TODO: use pointer.
diff --git a/src/compiler/lib/Cpp.hpp b/src/compiler/lib/Cpp.hpp
index a6962fc..c50e82b 100644
--- a/src/compiler/lib/Cpp.hpp
+++ b/src/compiler/lib/Cpp.hpp
@@ -154,6 +154,10 @@ namespace yask {
             return code;
         }
 
+        // Expression of indices and constants: evaluate it for each
+        // element in the vector if it uses domain indices.
+        virtual string read_index_expr(ostream& os, Expr* ex) override;
+
         // Print a comment about a point.
         // This is a utility function used for both reads and writes.
         virtual void print_point_comment(ostream& os, const VarPoint& gp,
diff --git a/src/compiler/lib/Print.cpp b/src/compiler/lib/Print.cpp
index 24ee2d5..958588c 100644
--- a/src/compiler/lib/Print.cpp
+++ b/src/compiler/lib/Print.cpp
@@ -66,6 +66,11 @@ namespace yask {
     // An index expression.
     string PrintVisitorTopDown::visit(IndexExpr* ie) {
         _num_common += _ph.get_num_common(ie);
+        if (!_var_map) {
+            string res = _ph.read_index_expr(_os, ie);
+            if (res.length())
+                return res;
+        }
         return ie->format(_var_map);
     }
 
@@ -86,6 +91,11 @@ namespace yask {
     // Generic unary operators.
     string PrintVisitorTopDown::visit(UnaryNumExpr* ue) {
         _num_common += _ph.get_num_common(ue);
+        if (!_var_map) {
+            string res = _ph.read_index_expr(_os, ue);
+            if (res.length())
+                return res;
+        }
         return ue->get_op_str() + ue->_get_rhs()->accept(this);
     }
     string PrintVisitorTopDown::visit(UnaryBoolExpr* ue) {
@@ -100,6 +110,11 @@ namespace yask {
     // Generic binary operators.
     string PrintVisitorTopDown::visit(BinaryNumExpr* be) {
         _num_common += _ph.get_num_common(be);
+        if (!_var_map) {
+            string res = _ph.read_index_expr(_os, be);
+            if (res.length())
+                return res;
+        }
         return "(" + be->_get_lhs()->accept(this) +
             " " + be->get_op_str() + " " +
             be->_get_rhs()->accept(this) + ")";
@@ -120,6 +135,11 @@ namespace yask {
     // A commutative operator.
     string PrintVisitorTopDown::visit(CommutativeExpr* ce) {
         _num_common += _ph.get_num_common(ce);
+        if (!_var_map) {
+            string res = _ph.read_index_expr(_os, ce);
+            if (res.length())
+                return res;
+        }
         string res = "(";
         auto& ops = ce->get_ops();
         int op_num = 0;
diff --git a/src/compiler/lib/Print.hpp b/src/compiler/lib/Print.hpp
index dd026b7..1ea0532 100644
--- a/src/compiler/lib/Print.hpp
+++ b/src/compiler/lib/Print.hpp
@@ -146,6 +146,14 @@ namespace yask {
             return to_string(v);
         }
 
+        // Return code for a numerical expression that uses only indices and
+        // constants, or an empty string if 'ex' should be printed normally.
+        // The 'os' parameter is provided for derived types that
+        // need to write intermediate code to a stream.
+        virtual string read_index_expr(ostream& os, Expr* ex) {
+            return "";
+        }
+
         // Return a var reference.
         // The 'os' parameter is provided for derived types that
         // need to write intermediate code to a stream.
-- 
2.43.0


From ba97806c2341baf77f6f00503ca1872bb2086ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:09 +0000
Subject: [PATCH 46/51] fix: allow the modulo operator on any values in
 equations

The operands are documented to be converted to integers, but the generated code used '%' on reals, which doesn't compile.
---
 src/compiler/lib/Cpp.hpp   |  8 ++++++++
 src/compiler/lib/Print.cpp |  8 ++++----
 src/compiler/lib/Print.hpp |  5 +++++
 src/kernel/lib/realv.hpp   | 22 ++++++++++++++++++++++
 4 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/src/compiler/lib/Cpp.hpp b/src/compiler/lib/Cpp.hpp
index c50e82b..c183520 100644
--- a/src/compiler/lib/Cpp.hpp
+++ b/src/compiler/lib/Cpp.hpp
@@ -62,6 +62,14 @@ namespace yask {
             return format_real(v);
         }
 
+        // Return code for a binary numerical operation.
+        // This is overloaded because C++ doesn't have '%' for reals.
+        virtual string make_binary_op(const string& op, const string& lhs, const string& rhs) override {
+            if (op == "%")
+                return "yask_mod(" + lhs + ", " + rhs + ")";
+            return PrintHelper::make_binary_op(op, lhs, rhs);
+        }
+
         // Format a pointer to a var.
         virtual string get_var_ptr(const Var& var) {
             string gname = var._get_name();
diff --git a/src/compiler/lib/Print.cpp b/src/compiler/lib/Print.cpp
index 958588c..fb18c5a 100644
--- a/src/compiler/lib/Print.cpp
+++ b/src/compiler/lib/Print.cpp
@@ -115,9 +115,9 @@ namespace yask {
             if (res.length())
                 return res;
         }
-        return "(" + be->_get_lhs()->accept(this) +
-            " " + be->get_op_str() + " " +
-            be->_get_rhs()->accept(this) + ")";
+        string lhs = be->_get_lhs()->accept(this);
+        string rhs = be->_get_rhs()->accept(this);
+        return "(" + _ph.make_binary_op(be->get_op_str(), lhs, rhs) + ")";
     }
     string PrintVisitorTopDown::visit(BinaryBoolExpr* be) {
         _num_common += _ph.get_num_common(be);
@@ -321,7 +321,7 @@ namespace yask {
         string lhs = be->_get_lhs()->accept(this);
         string rhs = be->_get_rhs()->accept(this);
         make_next_temp_var(res, be, "expr", "") <<
-            lhs << ' ' << be->get_op_str() << ' ' << rhs << _ph.get_line_suffix();
+            _ph.make_binary_op(be->get_op_str(), lhs, rhs) << _ph.get_line_suffix();
         return res;
     }
 
diff --git a/src/compiler/lib/Print.hpp b/src/compiler/lib/Print.hpp
index 1ea0532..5f66b01 100644
--- a/src/compiler/lib/Print.hpp
+++ b/src/compiler/lib/Print.hpp
@@ -146,6 +146,11 @@ namespace yask {
             return to_string(v);
         }
 
+        // Return code for a binary numerical operation.
+        virtual string make_binary_op(const string& op, const string& lhs, const string& rhs) {
+            return lhs + " " + op + " " + rhs;
+        }
+
         // Return code for a numerical expression that uses only indices and
         // constants, or an empty string if 'ex' should be printed normally.
         // The 'os' parameter is provided for derived types that
diff --git a/src/kernel/lib/realv.hpp b/src/kernel/lib/realv.hpp
index 299640b..3b74b48 100644
--- a/src/kernel/lib/realv.hpp
+++ b/src/kernel/lib/realv.hpp
@@ -726,6 +726,28 @@ namespace yask {
     #undef SVML_2ARG_SCALAR
     #undef SVML_2ARG
 
+    // Modulo.  Operands are converted to integers.
+    template <typename A, typename B>
+    ALWAYS_INLINE typename std::enable_if<std::is_integral<A>::value && std::is_integral<B>::value, idx_t>::type
+    yask_mod(A a, B b) {
+        return idx_t(a) % idx_t(b);
+    }
+    template <typename A, typename B>
+    ALWAYS_INLINE typename std::enable_if<std::is_arithmetic<A>::value && std::is_arithmetic<B>::value &&
+                                          !(std::is_integral<A>::value && std::is_integral<B>::value), real_t>::type
+    yask_mod(A a, B b) {
+        auto ia = idx_t(a);
+        auto ib = idx_t(b);
+
+        // Avoid fault if 'a' or 'b' is not valid, e.g., in an unused element.
+        return (ib == 0 || ib == -1) ? real_t(0) : real_t(ia % ib);
+    }
+    ALWAYS_INLINE real_vec_t yask_mod(const real_vec_t& a, const real_vec_t& b) {
+        real_vec_t res;
+        REAL_VEC_LOOP(i) res[i] = yask_mod(a.u.r[i], b.u.r[i]);
+        return res;
+    }
+
     // Sin+cos.
     ALWAYS_INLINE void yask_sin_and_cos(real_t& sin_res, real_t& cos_res, real_t a) {
         #if REAL_BYTES == 4
-- 
2.43.0


From f2476947ab69565eb5d010f3cfd31d57cdc98f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:12 +0000
Subject: [PATCH 47/51] fix: don't treat negation and subtraction as the same
 expression

Found when common subexpressions are eliminated: '-b' was replaced by an earlier 'a-b'.
---
 src/compiler/lib/Expr.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compiler/lib/Expr.hpp b/src/compiler/lib/Expr.hpp
index e05828d..0f8d21d 100644
--- a/src/compiler/lib/Expr.hpp
+++ b/src/compiler/lib/Expr.hpp
@@ -29,6 +29,7 @@ IN THE SOFTWARE.
 
 #pragma once
 
+#include <typeinfo>
 #include "yask_compiler_api.hpp"
 
 #include <utility>
@@ -403,7 +404,10 @@ namespace yask {
         // Check for equivalency.
         virtual bool is_same(const Expr* other) const {
             auto p = dynamic_cast<const UnaryExpr*>(other);
-            return p && _op_str == p->_op_str &&
+
+            // NB: a binary expression is also a unary one, e.g., 'a-b' and '-b'.
+            return p && typeid(*this) == typeid(*other) &&
+                _op_str == p->_op_str &&
                 _rhs && _rhs->is_same(p->_rhs.get());
         }
     };
-- 
2.43.0


From cd34e1767867a8d495e8baab9a0860212069e322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:41 +0000
Subject: [PATCH 48/51] fix: divide integral values as reals in equations

Constants with integral values and indices are printed as C++ integers, so their quotient was truncated.
---
 src/compiler/lib/Cpp.hpp        |  9 ++++++++-
 src/compiler/lib/YaskKernel.cpp |  1 +
 src/kernel/lib/realv.hpp        | 13 +++++++++++++
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/compiler/lib/Cpp.hpp b/src/compiler/lib/Cpp.hpp
index c183520..f3df977 100644
--- a/src/compiler/lib/Cpp.hpp
+++ b/src/compiler/lib/Cpp.hpp
@@ -38,6 +38,7 @@ namespace yask {
 
     // Outputs C++ scalar code for YASK.
     class CppPrintHelper : public PrintHelper {
+        bool _use_int_div = false;
 
     public:
         static constexpr const char* _var_ptr_type = "auto*";
@@ -53,6 +54,9 @@ namespace yask {
             PrintHelper(settings, dims, cv, var_type, line_prefix, line_suffix) { }
         virtual ~CppPrintHelper() { }
 
+        // Whether to truncate the quotient of integers, e.g., indices in conditions.
+        virtual void set_use_int_div(bool val) { _use_int_div = val; }
+
         // Format a real, preserving precision.
         static string format_real(double v);
 
@@ -63,10 +67,13 @@ namespace yask {
         }
 
         // Return code for a binary numerical operation.
-        // This is overloaded because C++ doesn't have '%' for reals.
+        // This is overloaded because C++ doesn't have '%' for reals
+        // and because C++ truncates the quotient of integers.
         virtual string make_binary_op(const string& op, const string& lhs, const string& rhs) override {
             if (op == "%")
                 return "yask_mod(" + lhs + ", " + rhs + ")";
+            if (op == "/" && !_use_int_div)
+                return "yask_div(" + lhs + ", " + rhs + ")";
             return PrintHelper::make_binary_op(op, lhs, rhs);
         }
 
diff --git a/src/compiler/lib/YaskKernel.cpp b/src/compiler/lib/YaskKernel.cpp
index d779a04..0e310c7 100644
--- a/src/compiler/lib/YaskKernel.cpp
+++ b/src/compiler/lib/YaskKernel.cpp
@@ -512,6 +512,7 @@ namespace yask {
                         CounterVisitor cv;
                         eq->step_cond->accept(&cv);
                         CppPrintHelper* sp = new CppPrintHelper(_settings, _dims, &cv, "real_t", " ", ";\n");
+                        sp->set_use_int_div(true);
 
                         // Generate the code.
                         PrintVisitorTopDown pcv(os, *sp);
diff --git a/src/kernel/lib/realv.hpp b/src/kernel/lib/realv.hpp
index 3b74b48..ae064ed 100644
--- a/src/kernel/lib/realv.hpp
+++ b/src/kernel/lib/realv.hpp
@@ -726,6 +726,19 @@ namespace yask {
     #undef SVML_2ARG_SCALAR
     #undef SVML_2ARG
 
+    // Division.  Values are reals even if they are represented by integers.
+    template <typename A, typename B>
+    ALWAYS_INLINE typename std::enable_if<std::is_integral<A>::value && std::is_integral<B>::value, real_t>::type
+    yask_div(A a, B b) {
+        return real_t(double(a) / double(b));
+    }
+    template <typename A, typename B>
+    ALWAYS_INLINE typename std::enable_if<!(std::is_integral<A>::value && std::is_integral<B>::value),
+                                          decltype(std::declval<A>() / std::declval<B>())>::type
+    yask_div(const A& a, const B& b) {
+        return a / b;
+    }
+
     // Modulo.  Operands are converted to integers.
     template <typename A, typename B>
     ALWAYS_INLINE typename std::enable_if<std::is_integral<A>::value && std::is_integral<B>::value, idx_t>::type
-- 
2.43.0


From 6d861381f1563e6f059532790900419706b4d1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:09 +0000
Subject: [PATCH 49/51] fix: restore the number of OpenMP threads after a
 parallel loop

---
 src/common/common_utils.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/common/common_utils.hpp b/src/common/common_utils.hpp
index f3bb38f..812570c 100644
--- a/src/common/common_utils.hpp
+++ b/src/common/common_utils.hpp
@@ -243,6 +243,9 @@ namespace yask {
                      yask_num_threads[1] <= 1 ||
                      niter <= yask_num_threads[0]) {
 
+                // Save number of threads set by the caller, which might be
+                // in a parallel region that has only one thread.
+                int save_nthr = omp_get_max_threads();
                 if (yask_num_threads[0] > 0)
                     omp_set_num_threads(yask_num_threads[0]);
                 #pragma omp parallel for schedule(static)
@@ -251,6 +254,7 @@ namespace yask {
                     idx_t tn = omp_get_thread_num();
                     visitor(i, stop, tn);
                 }
+                omp_set_num_threads(save_nthr);
             }
 
             // Nested parallel.
@@ -259,6 +263,7 @@ namespace yask {
                 // Number of outer threads.
                 idx_t nthr0 = yask_num_threads[0];
                 assert(nthr0 > 0);
+                int save_nthr = omp_get_max_threads();
                 omp_set_num_threads(nthr0);
 
                 // Outer parallel region.
@@ -331,6 +336,7 @@ namespace yask {
                         }
                     }
                 }
+                omp_set_num_threads(save_nthr);
             }
             #endif
         }
-- 
2.43.0


From c16ee84ac0c332cc4a709b94c667edb985f9db47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:12 +0000
Subject: [PATCH 50/51] fix: make scratch memory slots large enough for all
 vars that share them

---
 src/kernel/lib/alloc.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/kernel/lib/alloc.cpp b/src/kernel/lib/alloc.cpp
index eda7efa..2565649 100644
--- a/src/kernel/lib/alloc.cpp
+++ b/src/kernel/lib/alloc.cpp
@@ -1087,6 +1087,12 @@ namespace yask {
         // Remember alloc data for each thread and slot number.
         using ThreadAndSlot = pair<int, int>;
         map<ThreadAndSlot, AllocData> mem_slot_data;
+
+        // Vars that share a slot may have different sizes because of their
+        // halos, so remember the size of the largest one and the request
+        // that provides its memory.
+        map<ThreadAndSlot, size_t> mem_slot_bytes;
+        map<ThreadAndSlot, AllocKey> mem_slot_keys;
         
         // Pass 0: count required size, allocate chunk of memory at end.
         // Pass 1: distribute parts of already-allocated memory chunk.
@@ -1182,7 +1188,11 @@ namespace yask {
                     // Determine size used (also offset to next location).
                     size_t nbytes = gp->get_num_storage_bytes();
                     if (new_slot) {
-                        req_data->nbytes += ROUND_UP(nbytes + _data_buf_pad,
+                        if (pass == 0) {
+                            mem_slot_bytes[tns] = nbytes;
+                            mem_slot_keys[tns] = req_key;
+                        }
+                        req_data->nbytes += ROUND_UP(mem_slot_bytes.at(tns) + _data_buf_pad,
                                                      CACHELINE_BYTES);
                         req_data->nvars++;
                         if (pass == 0)
@@ -1192,6 +1202,13 @@ namespace yask {
                                       " in mem slot " << mem_slot);
                     }
                     else {
+                        auto& slot_bytes = mem_slot_bytes.at(tns);
+                        if (pass == 0 && nbytes > slot_bytes) {
+                            alloc_reqs.at(mem_slot_keys.at(tns)).nbytes +=
+                                ROUND_UP(nbytes + _data_buf_pad, CACHELINE_BYTES) -
+                                ROUND_UP(slot_bytes + _data_buf_pad, CACHELINE_BYTES);
+                            slot_bytes = nbytes;
+                        }
                         if (pass == 0)
                             TRACE_MSG("scratch var '" << gname << "' for thread " <<
                                       thr_num << " reusing " << make_byte_str(nbytes) <<
-- 
2.43.0


From 6905e79acf6e0facb63cf7c6310a7a082e121d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:02 +0000
Subject: [PATCH 51/51] fix: return zero FD coefficients when there are too few
 sample points

When num_points <= order, fd_coeff() read the coefficients from beyond the
end of its table instead of returning zeros as documented.
---
 src/contrib/coefficients/fd_coeff.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/contrib/coefficients/fd_coeff.cpp b/src/contrib/coefficients/fd_coeff.cpp
index ca2a1b8..2a4cb4a 100644
--- a/src/contrib/coefficients/fd_coeff.cpp
+++ b/src/contrib/coefficients/fd_coeff.cpp
@@ -55,9 +55,12 @@ namespace yask {
         double c1, c2, c3;
         double x_0 = eval_point;
 
-        int m_idx = (order+1)*num_points;
+        // Table of coefficients for each derivative (0..order), each number
+        // of points (1..num_points), and each point. Any element not
+        // calculated below, e.g., when num_points < order+1, is zero.
         int n_idx = num_points;
-        int dsz = m_idx * n_idx;
+        int m_idx = num_points * n_idx;
+        int dsz = (order+1) * m_idx;
         vector<double> d(dsz);
     
         for (int i = 1; i < dsz; i++)
-- 
2.43.0


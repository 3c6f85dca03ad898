From 6712f6a48092b4c67e2ad43468a4fc2dda3f97cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:30 +0000
Subject: [PATCH 01/38] fix: run the OpenMP team an object was built for, not
 whatever omp_set_num_threads() was last called with

The number of threads is a global setting, changed by the construction of any
other solver; advancing an object with another number of threads than it has
subdomains leaves part of the grid behind or indexes past the subdomains.
---
 libmpdata++/concurr/openmp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmpdata++/concurr/openmp.hpp b/libmpdata++/concurr/openmp.hpp
index d33cda9..2c26a64 100644
--- a/libmpdata++/concurr/openmp.hpp
+++ b/libmpdata++/concurr/openmp.hpp
@@ -64,7 +64,7 @@ namespace libmpdataxx
       void solve(typename parent_t::advance_arg_t nt)
       {
         int i = 0;
-#pragma omp parallel private(i)
+#pragma omp parallel private(i) num_threads(this->algos.size())
         {
 #if defined(_OPENMP)
           i = omp_get_thread_num();
-- 
2.43.0


From 121cfae03a824e56ee56b83069cb03eb48d8fec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:30 +0000
Subject: [PATCH 02/38] fix: size the barrier and the reduction buffers by the
 decomposed dimension in 3D

In 3D the domain is decomposed in y, but the population of the barrier, the
length of the reduction buffers and the number-of-subdomains check were derived
from the x extent: grids with fewer points in one of the two directions than
threads deadlocked, crashed or were rejected.
---
 libmpdata++/concurr/boost_thread.hpp     | 4 ++--
 libmpdata++/concurr/cxx11_thread.hpp     | 4 ++--
 libmpdata++/concurr/detail/sharedmem.hpp | 2 +-
 libmpdata++/concurr/openmp.hpp           | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/libmpdata++/concurr/boost_thread.hpp b/libmpdata++/concurr/boost_thread.hpp
index f1d7c7a..984984b 100644
--- a/libmpdata++/concurr/boost_thread.hpp
+++ b/libmpdata++/concurr/boost_thread.hpp
@@ -52,8 +52,8 @@ namespace libmpdataxx
 
         // ctor
         mem_t(const std::array<int, solver_t::n_dims> &grid_size) :
-          b(size(grid_size[0])),
-          parent_t::mem_t(grid_size, size(grid_size[0]))
+          b(size(grid_size[solver_t::n_dims < 3 ? 0 : 1])),
+          parent_t::mem_t(grid_size, size(grid_size[solver_t::n_dims < 3 ? 0 : 1]))
         {};
 
         void barrier()
diff --git a/libmpdata++/concurr/cxx11_thread.hpp b/libmpdata++/concurr/cxx11_thread.hpp
index 77dc47d..340f2ef 100644
--- a/libmpdata++/concurr/cxx11_thread.hpp
+++ b/libmpdata++/concurr/cxx11_thread.hpp
@@ -93,8 +93,8 @@ namespace libmpdataxx
 
         // ctor
         mem_t(const std::array<int, solver_t::n_dims> &grid_size) :
-          b(size(grid_size[0])),
-          parent_t::mem_t(grid_size, size(grid_size[0]))
+          b(size(grid_size[solver_t::n_dims < 3 ? 0 : 1])),
+          parent_t::mem_t(grid_size, size(grid_size[solver_t::n_dims < 3 ? 0 : 1]))
         {};
 
         void barrier()
diff --git a/libmpdata++/concurr/detail/sharedmem.hpp b/libmpdata++/concurr/detail/sharedmem.hpp
index b73fce5..ce0cba2 100644
--- a/libmpdata++/concurr/detail/sharedmem.hpp
+++ b/libmpdata++/concurr/detail/sharedmem.hpp
@@ -103,7 +103,7 @@ namespace libmpdataxx
             origin[d] = this->grid_size[d].first();
           }
 
-          if (size > grid_size[0])
+          if (size > grid_size[shmem_decomp_dim])
             throw std::runtime_error("libmpdata++: number of subdomains greater than number of gridpoints");
 
           if (n_dims != 1)
diff --git a/libmpdata++/concurr/openmp.hpp b/libmpdata++/concurr/openmp.hpp
index 2c26a64..864d041 100644
--- a/libmpdata++/concurr/openmp.hpp
+++ b/libmpdata++/concurr/openmp.hpp
@@ -58,7 +58,7 @@ namespace libmpdataxx
         }
 
         // ctors
-        mem_t(const std::array<int, solver_t::n_dims> &grid_size) : parent_t::mem_t(grid_size, size(grid_size[0])) {};
+        mem_t(const std::array<int, solver_t::n_dims> &grid_size) : parent_t::mem_t(grid_size, size(grid_size[solver_t::n_dims < 3 ? 0 : 1])) {};
       };
 
       void solve(typename parent_t::advance_arg_t nt)
-- 
2.43.0


From ffd2a9f5b9c9201c8ec9805c5ea68e70e41174b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:30 +0000
Subject: [PATCH 03/38] fix: use one thread if OMP_NUM_THREADS is empty, zero
 or not a number

The C++11 backend had no subdomain at all then (advance() did nothing), the
Boost one failed to construct its barrier.
---
 libmpdata++/concurr/boost_thread.hpp | 2 +-
 libmpdata++/concurr/cxx11_thread.hpp | 4 ++--
 libmpdata++/concurr/openmp.hpp       | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmpdata++/concurr/boost_thread.hpp b/libmpdata++/concurr/boost_thread.hpp
index 984984b..e3bda7d 100644
--- a/libmpdata++/concurr/boost_thread.hpp
+++ b/libmpdata++/concurr/boost_thread.hpp
@@ -46,7 +46,7 @@ namespace libmpdataxx
                                   ,
                                   max_threads);
 
-          return nthreads;
+          return std::max(nthreads, 1); // e.g. empty or zero OMP_NUM_THREADS
         }
 
 
diff --git a/libmpdata++/concurr/cxx11_thread.hpp b/libmpdata++/concurr/cxx11_thread.hpp
index 340f2ef..e6558cd 100644
--- a/libmpdata++/concurr/cxx11_thread.hpp
+++ b/libmpdata++/concurr/cxx11_thread.hpp
@@ -88,7 +88,7 @@ namespace libmpdataxx
                                   ,
                                   max_threads);
 
-          return nthreads;
+          return std::max(nthreads, 1); // e.g. empty or zero OMP_NUM_THREADS
         }
 
         // ctor
@@ -107,7 +107,7 @@ namespace libmpdataxx
 
       void solve(typename parent_t::advance_arg_t nt)
       {
-        boost::ptr_vector<std::thread> threads(mem_t::size());
+        boost::ptr_vector<std::thread> threads(this->algos.size());
         for (int i = 0; i < this->algos.size(); ++i)
         {
           threads.push_back(new std::thread(
diff --git a/libmpdata++/concurr/openmp.hpp b/libmpdata++/concurr/openmp.hpp
index 864d041..4ceabb0 100644
--- a/libmpdata++/concurr/openmp.hpp
+++ b/libmpdata++/concurr/openmp.hpp
@@ -43,7 +43,7 @@ namespace libmpdataxx
             (std::getenv(env_var) != NULL) ?  std::atoi(std::getenv(env_var)) : omp_get_max_threads()
           ));
 
-          omp_set_num_threads(nthreads);
+          omp_set_num_threads(std::max(nthreads, 1)); // e.g. empty or zero OMP_NUM_THREADS
 
           return omp_get_max_threads();
 #else
-- 
2.43.0


From bcbb9dae8835d8e041c90a827262c97b9ee53510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:49 +0000
Subject: [PATCH 04/38] fix: let all threads act on the same reading of the
 panic flag

Each thread tested the flag itself: raised between two threads' tests, it let
some of them leave the time loop and the others wait for them forever.
---
 libmpdata++/concurr/detail/sharedmem.hpp     | 1 +
 libmpdata++/solvers/detail/solver_common.hpp | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/libmpdata++/concurr/detail/sharedmem.hpp b/libmpdata++/concurr/detail/sharedmem.hpp
index ce0cba2..75f1356 100644
--- a/libmpdata++/concurr/detail/sharedmem.hpp
+++ b/libmpdata++/concurr/detail/sharedmem.hpp
@@ -47,6 +47,7 @@ namespace libmpdataxx
         const int size;
         std::array<rng_t, n_dims> grid_size;
         bool panic = false; // for multi-threaded SIGTERM handling
+        bool stop = false;  // reading of the above shared by all threads
 
         // dimension in which sharedmem domain decomposition is done
         // 1D and 2D - domain decomposed in 0-th dimension (x)
diff --git a/libmpdata++/solvers/detail/solver_common.hpp b/libmpdata++/solvers/detail/solver_common.hpp
index 484bd17..84252a0 100644
--- a/libmpdata++/solvers/detail/solver_common.hpp
+++ b/libmpdata++/solvers/detail/solver_common.hpp
@@ -298,8 +298,10 @@ namespace libmpdataxx
             monitor(float(ct_params_t::var_dt ? time : timestep) / nt);  // TODO: does this value make sanse with repeated advence() calls?
 
             // might be used to implement multi-threaded signal handling
+            // (the flag may be raised at any time, all threads need to act on the same reading of it)
+            if (rank == 0) mem->stop = mem->panic;
             mem->barrier();
-            if (mem->panic) break;
+            if (mem->stop) break;
 
             // proper solver stuff
 
-- 
2.43.0


From 7bfa99fce4474e164d31de61b6d47dc229c90a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:57 +0000
Subject: [PATCH 05/38] fix: make the pfc option compile (where() was called
 without its index-type argument)

---
 libmpdata++/formulae/mpdata/formulae_mpdata_common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmpdata++/formulae/mpdata/formulae_mpdata_common.hpp b/libmpdata++/formulae/mpdata/formulae_mpdata_common.hpp
index b5f15ed..2ba9585 100644
--- a/libmpdata++/formulae/mpdata/formulae_mpdata_common.hpp
+++ b/libmpdata++/formulae/mpdata/formulae_mpdata_common.hpp
@@ -67,7 +67,7 @@ namespace libmpdataxx
       )
       {
         return return_helper<ix_t>(
-          where(den != 0, nom / den, 0) // note: apparently >0 would suffice
+          where<ix_t>(den != 0, nom / den, typename real_t_helper<ix_t, nom_t>::type(0)) // note: apparently >0 would suffice
         );
       }
 
-- 
2.43.0


From 5eb3355118884aeb36ac66418cf98c09f28a3ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:57 +0000
Subject: [PATCH 06/38] fix: do not complain about uncalled hooks if advance()
 does no step (nt=0, panic)

---
 libmpdata++/solvers/detail/solver_common.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/libmpdata++/solvers/detail/solver_common.hpp b/libmpdata++/solvers/detail/solver_common.hpp
index 84252a0..5e0a8b3 100644
--- a/libmpdata++/solvers/detail/solver_common.hpp
+++ b/libmpdata++/solvers/detail/solver_common.hpp
@@ -284,12 +284,6 @@ namespace libmpdataxx
             mem->barrier();
           }
 
-          // moved here so that if an exception is thrown from hook_ante_loop these do not cause complaints
-#if !defined(NDEBUG)
-          hook_ante_step_called = false;
-          hook_post_step_called = false;
-          hook_ante_delayed_step_called = false;
-#endif
           // higher-order temporal interpolation for output requires doing a few additional steps
           int additional_steps = ct_params_t::out_intrp_ord;
           while (ct_params_t::var_dt ? (time < nt || additional_steps > 0) : timestep < nt)
@@ -303,6 +297,14 @@ namespace libmpdataxx
             mem->barrier();
             if (mem->stop) break;
 
+            // set here so that these do not cause complaints if no step is done (nt=0, panic)
+            // or if an exception is thrown from hook_ante_loop
+#if !defined(NDEBUG)
+            hook_ante_step_called = false;
+            hook_post_step_called = false;
+            hook_ante_delayed_step_called = false;
+#endif
+
             // proper solver stuff
 
             // for variable in time velocity calculate advector at n+1/2, returns false if
-- 
2.43.0


From 3a1f0625f05884be53bc9c20b1982d0ac9ddbdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:57 +0000
Subject: [PATCH 07/38] fix: do not repeat the one-off initialisation after an
 advance() call that did no step

---
 libmpdata++/solvers/detail/solver_common.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libmpdata++/solvers/detail/solver_common.hpp b/libmpdata++/solvers/detail/solver_common.hpp
index 5e0a8b3..6e28acd 100644
--- a/libmpdata++/solvers/detail/solver_common.hpp
+++ b/libmpdata++/solvers/detail/solver_common.hpp
@@ -154,6 +154,8 @@ namespace libmpdataxx
 
         private:
 
+        bool ante_loop_done = false;
+
 #if !defined(NDEBUG)
         bool
           hook_ante_step_called         = true, // initially true to handle nt=0
@@ -274,13 +276,14 @@ namespace libmpdataxx
           nt += ct_params_t::var_dt ? time : timestep;
 
           // being generous about out-of-loop barriers
-          if (timestep == 0)
+          if (!ante_loop_done)
           {
             mem->barrier();
 #if !defined(NDEBUG)
             hook_ante_loop_called = false;
 #endif
             hook_ante_loop(nt);
+            ante_loop_done = true; // (timestep may still be 0 at the next call: nt=0, panic)
             mem->barrier();
           }
 
-- 
2.43.0


From c5da5d34154f58a9261851fbd18e7a6f00680964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:05 +0000
Subject: [PATCH 08/38] fix: fill the halos of the antidiffusive Courant
 numbers read by the div_2nd/div_3rd terms of further iterations

---
 libmpdata++/solvers/detail/mpdata_osc_1d.hpp | 7 +++++++
 libmpdata++/solvers/detail/mpdata_osc_2d.hpp | 8 ++++++++
 libmpdata++/solvers/detail/mpdata_osc_3d.hpp | 8 ++++++++
 3 files changed, 23 insertions(+)

diff --git a/libmpdata++/solvers/detail/mpdata_osc_1d.hpp b/libmpdata++/solvers/detail/mpdata_osc_1d.hpp
index ff74c3e..526e114 100644
--- a/libmpdata++/solvers/detail/mpdata_osc_1d.hpp
+++ b/libmpdata++/solvers/detail/mpdata_osc_1d.hpp
@@ -88,6 +88,13 @@ namespace libmpdataxx
                 this->xchng_vctr_alng(this->GC_corr(iter));
               }
 
+              // the higher-order terms reach one cell further, so in further iterations they need all halos
+              // (the fluxes at the domain edges are kept)
+              if (opts::isset(ct_params_t::opts, opts::div_2nd) && iter != (this->n_iters - 1))
+              {
+                this->xchng_vctr_alng(this->GC_corr(iter), true);
+              }
+
               this->fct_adjust_antidiff(e, iter); // i.e. calculate GC_mono=GC_mono(GC_corr) in FCT
             }
 
diff --git a/libmpdata++/solvers/detail/mpdata_osc_2d.hpp b/libmpdata++/solvers/detail/mpdata_osc_2d.hpp
index 70b53d6..ddc29d0 100644
--- a/libmpdata++/solvers/detail/mpdata_osc_2d.hpp
+++ b/libmpdata++/solvers/detail/mpdata_osc_2d.hpp
@@ -123,6 +123,14 @@ namespace libmpdataxx
                 if (opts::isset(ct_params_t::opts, opts::dfl)) this->xchng_vctr_alng(this->GC_corr(iter));
               }
 
+              // the higher-order terms reach one cell further, so in further iterations they need all halos
+              // (the fluxes at the domain edges are kept)
+              if (opts::isset(ct_params_t::opts, opts::div_2nd) && iter != (this->n_iters - 1))
+              {
+                this->xchng_vctr_alng(this->GC_corr(iter), true);
+                this->xchng_vctr_nrml(this->GC_corr(iter), this->ijk, this->halo - 1);
+              }
+
               this->fct_adjust_antidiff(e, iter);
               assert(std::isfinite(sum(this->GC_corr(iter)[0](this->im+h, this->j))));
               assert(std::isfinite(sum(this->GC_corr(iter)[1](this->i, this->jm+h))));
diff --git a/libmpdata++/solvers/detail/mpdata_osc_3d.hpp b/libmpdata++/solvers/detail/mpdata_osc_3d.hpp
index a2eab48..1901879 100644
--- a/libmpdata++/solvers/detail/mpdata_osc_3d.hpp
+++ b/libmpdata++/solvers/detail/mpdata_osc_3d.hpp
@@ -141,6 +141,14 @@ namespace libmpdataxx
                 if (opts::isset(ct_params_t::opts, opts::dfl)) this->xchng_vctr_alng(this->GC_corr(iter));
               }
 
+              // the higher-order terms reach one cell further, so in further iterations they need all halos
+              // (the fluxes at the domain edges are kept)
+              if (opts::isset(ct_params_t::opts, opts::div_2nd) && iter != (this->n_iters - 1))
+              {
+                this->xchng_vctr_alng(this->GC_corr(iter), true);
+                this->xchng_vctr_nrml(this->GC_corr(iter), this->ijk, this->halo - 1);
+              }
+
               this->fct_adjust_antidiff(e, iter);
 
               // TODO: shouldn't the above halo-filling be repeated here?
-- 
2.43.0


From 82fbc274111aa62ea054516eb97dfaa80bfd7f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 09/38] fix: make the ground/sky boundary condition available
 in 2D (header not included)

---
 libmpdata++/concurr/detail/concurr_common.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libmpdata++/concurr/detail/concurr_common.hpp b/libmpdata++/concurr/detail/concurr_common.hpp
index c1edb65..a0da678 100644
--- a/libmpdata++/concurr/detail/concurr_common.hpp
+++ b/libmpdata++/concurr/detail/concurr_common.hpp
@@ -32,6 +32,7 @@
 #include <libmpdata++/bcond/remote_1d.hpp>
 #include <libmpdata++/bcond/remote_2d.hpp>
 #include <libmpdata++/bcond/remote_3d.hpp>
+#include <libmpdata++/bcond/gndsky_2d.hpp>
 #include <libmpdata++/bcond/gndsky_3d.hpp>
 
 namespace libmpdataxx
-- 
2.43.0


From 12aca17de3e56e954c290d3356edd0df6231a7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 10/38] fix: 1D open boundary: the right halo takes the Courant
 number of the nearest edge, as the left one does

---
 libmpdata++/bcond/open_1d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmpdata++/bcond/open_1d.hpp b/libmpdata++/bcond/open_1d.hpp
index ceea477..51ab84c 100644
--- a/libmpdata++/bcond/open_1d.hpp
+++ b/libmpdata++/bcond/open_1d.hpp
@@ -73,7 +73,7 @@ namespace libmpdataxx
       void fill_halos_vctr_alng(arrvec_t<arr_t> &av, const bool ad = false)
       {
         for (int i = this->rght_halo_vctr.first() + (ad ? 1 : 0); i <= this->rght_halo_vctr.last(); ++i)
-          av[0](rng_t(i, i)) = av[0](this->rght_intr_vctr.first());
+          av[0](rng_t(i, i)) = av[0](this->rght_intr_vctr.last());
       }
     };
   } // namespace bcond
-- 
2.43.0


From 5e5064f4f3b5bf6aeead826bdcbe319fffa1515d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 11/38] fix: dfl option: do not overwrite the antidiffusive
 Courant numbers at the domain edges (as with fct)

---
 libmpdata++/solvers/detail/mpdata_osc_1d.hpp | 2 +-
 libmpdata++/solvers/detail/mpdata_osc_2d.hpp | 2 +-
 libmpdata++/solvers/detail/mpdata_osc_3d.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libmpdata++/solvers/detail/mpdata_osc_1d.hpp b/libmpdata++/solvers/detail/mpdata_osc_1d.hpp
index 526e114..ed35498 100644
--- a/libmpdata++/solvers/detail/mpdata_osc_1d.hpp
+++ b/libmpdata++/solvers/detail/mpdata_osc_1d.hpp
@@ -85,7 +85,7 @@ namespace libmpdataxx
                   iter != (this->n_iters - 1) &&
                   !opts::isset(ct_params_t::opts, opts::fct))
               {
-                this->xchng_vctr_alng(this->GC_corr(iter));
+                this->xchng_vctr_alng(this->GC_corr(iter), true);
               }
 
               // the higher-order terms reach one cell further, so in further iterations they need all halos
diff --git a/libmpdata++/solvers/detail/mpdata_osc_2d.hpp b/libmpdata++/solvers/detail/mpdata_osc_2d.hpp
index ddc29d0..25ffbaf 100644
--- a/libmpdata++/solvers/detail/mpdata_osc_2d.hpp
+++ b/libmpdata++/solvers/detail/mpdata_osc_2d.hpp
@@ -120,7 +120,7 @@ namespace libmpdataxx
               {
                 this->xchng_vctr_nrml(this->GC_corr(iter), this->ijk);
                 // if dfl option is set we need to fill these as well
-                if (opts::isset(ct_params_t::opts, opts::dfl)) this->xchng_vctr_alng(this->GC_corr(iter));
+                if (opts::isset(ct_params_t::opts, opts::dfl)) this->xchng_vctr_alng(this->GC_corr(iter), true);
               }
 
               // the higher-order terms reach one cell further, so in further iterations they need all halos
diff --git a/libmpdata++/solvers/detail/mpdata_osc_3d.hpp b/libmpdata++/solvers/detail/mpdata_osc_3d.hpp
index 1901879..0d07407 100644
--- a/libmpdata++/solvers/detail/mpdata_osc_3d.hpp
+++ b/libmpdata++/solvers/detail/mpdata_osc_3d.hpp
@@ -138,7 +138,7 @@ namespace libmpdataxx
               {
                 this->xchng_vctr_nrml(this->GC_corr(iter), this->ijk);
                 // if dfl option is set we need to fill these as well
-                if (opts::isset(ct_params_t::opts, opts::dfl)) this->xchng_vctr_alng(this->GC_corr(iter));
+                if (opts::isset(ct_params_t::opts, opts::dfl)) this->xchng_vctr_alng(this->GC_corr(iter), true);
               }
 
               // the higher-order terms reach one cell further, so in further iterations they need all halos
-- 
2.43.0


From 82479bb3c56792a9c88fe4ead94652c509ac1197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 12/38] fix: rigid boundary: mirror the right halo of
 antidiffusive Courant numbers from the right edges (off by one with the
 domain edge kept)

---
 libmpdata++/bcond/rigid_2d.hpp | 2 +-
 libmpdata++/bcond/rigid_3d.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmpdata++/bcond/rigid_2d.hpp b/libmpdata++/bcond/rigid_2d.hpp
index ecfadb9..de8f45c 100644
--- a/libmpdata++/bcond/rigid_2d.hpp
+++ b/libmpdata++/bcond/rigid_2d.hpp
@@ -155,7 +155,7 @@ namespace libmpdataxx
       {
         using namespace idxperm;
         // zero velocity condition
-        for (int i = this->rght_halo_vctr.first() + (ad ? 1 : 0), n = 1; i <= this->rght_halo_vctr.last(); ++i, ++n)
+        for (int i = this->rght_halo_vctr.first() + (ad ? 1 : 0), n = (ad ? 2 : 1); i <= this->rght_halo_vctr.last(); ++i, ++n)
         {
           av[d](pi<d>(i, j)) = -av[d](pi<d>(this->rght_edge_sclr - n + h, j));
         }
diff --git a/libmpdata++/bcond/rigid_3d.hpp b/libmpdata++/bcond/rigid_3d.hpp
index 1a7c477..f17a9e5 100644
--- a/libmpdata++/bcond/rigid_3d.hpp
+++ b/libmpdata++/bcond/rigid_3d.hpp
@@ -157,7 +157,7 @@ namespace libmpdataxx
       {
         using namespace idxperm;
         // zero velocity condition
-        for (int i = this->rght_halo_vctr.first() + (ad ? 1 : 0), n = 1; i <= this->rght_halo_vctr.last(); ++i, ++n)
+        for (int i = this->rght_halo_vctr.first() + (ad ? 1 : 0), n = (ad ? 2 : 1); i <= this->rght_halo_vctr.last(); ++i, ++n)
         {
           av[d](pi<d>(i, j, k)) = -av[d](pi<d>(this->rght_edge_sclr - n + h, j, k));
         }
-- 
2.43.0


From 7b5b8f8467333dbb2eee37911538bad9dfc7698e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:43 +0000
Subject: [PATCH 13/38] fix: 3D polar boundary: pass the poles along dimension
 0 also if the poles are at the ends of dimension 1

---
 libmpdata++/bcond/polar_3d.hpp | 58 +++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 18 deletions(-)

diff --git a/libmpdata++/bcond/polar_3d.hpp b/libmpdata++/bcond/polar_3d.hpp
index 96b1ae4..06e220d 100644
--- a/libmpdata++/bcond/polar_3d.hpp
+++ b/libmpdata++/bcond/polar_3d.hpp
@@ -24,6 +24,17 @@ namespace libmpdataxx
       using arr_t = blitz::Array<real_t, 3>;
       using parent_t::parent_t; // inheriting ctor
 
+      private:
+
+      // the poles are passed along dimension 0; index ranges come in the order of pi<d>(),
+      // so dimension 0 is the last one for d=1 and the first one for d=2
+      static const rng_t &lon(const rng_t &j, const rng_t &k) { return d == 1 ? k : j; }
+
+      static idx_t<3> at(const int i, const int l, const rng_t &j, const rng_t &k)
+      {
+        return d == 1 ? idxperm::pi<d>(i, j, l) : idxperm::pi<d>(i, l, k);
+      }
+
       public:
 
       // method invoked by the solver
@@ -32,11 +43,11 @@ namespace libmpdataxx
         using namespace idxperm;
         for (int i = 0; i < halo; ++i)
         {
-          for (int jj = j.first(); jj <= j.last(); jj++)
+          for (int jj = lon(j, k).first(); jj <= lon(j, k).last(); jj++)
           {
-            a(pi<d>(this->left_halo_sclr.last() - i, jj, k))
+            a(at(this->left_halo_sclr.last() - i, jj, j, k))
             =
-            a(pi<d>(this->left_edge_sclr + i, this->polar_neighbours(jj), k));
+            a(at(this->left_edge_sclr + i, this->polar_neighbours(jj), j, k));
 
           }
         }
@@ -48,11 +59,11 @@ namespace libmpdataxx
         if (!ad) av[d](pi<d>(this->left_halo_vctr.last(), j, k)) = 0;
         if (halo > 1)
         {
-          for (int jj = j.first(); jj <= j.last(); jj++)
+          for (int jj = lon(j, k).first(); jj <= lon(j, k).last(); jj++)
           {
-            av[d](pi<d>(this->left_halo_vctr.first(), jj, k))
+            av[d](at(this->left_halo_vctr.first(), jj, j, k))
             =
-            av[d](pi<d>(this->left_edge_sclr + h, this->polar_neighbours(jj), k));
+            av[d](at(this->left_edge_sclr + h, this->polar_neighbours(jj), j, k));
           }
         }
       }
@@ -62,11 +73,11 @@ namespace libmpdataxx
         using namespace idxperm;
         for (int i = 0; i < halo; ++i)
         {
-          for (int jj = j.first(); jj <= j.last(); jj++)
+          for (int jj = lon(j, k).first(); jj <= lon(j, k).last(); jj++)
           {
-            a(pi<d>(this->left_halo_sclr.first() + i, jj + h, k))
+            a(at(this->left_halo_sclr.first() + i, jj + h, j, k))
             =
-            a(pi<d>(this->left_intr_vctr.last() - i, this->polar_neighbours(jj) + h, k));
+            a(at(this->left_intr_vctr.last() - i, this->polar_neighbours(jj) + h, j, k));
           }
         }
       }
@@ -85,6 +96,17 @@ namespace libmpdataxx
       using arr_t = blitz::Array<real_t, 3>;
       using parent_t::parent_t; // inheriting ctor
 
+      private:
+
+      // the poles are passed along dimension 0; index ranges come in the order of pi<d>(),
+      // so dimension 0 is the last one for d=1 and the first one for d=2
+      static const rng_t &lon(const rng_t &j, const rng_t &k) { return d == 1 ? k : j; }
+
+      static idx_t<3> at(const int i, const int l, const rng_t &j, const rng_t &k)
+      {
+        return d == 1 ? idxperm::pi<d>(i, j, l) : idxperm::pi<d>(i, l, k);
+      }
+
       public:
 
       // method invoked by the solver
@@ -94,11 +116,11 @@ namespace libmpdataxx
 
         for (int i = 0; i < halo; ++i)
         {
-          for (int jj = j.first(); jj <= j.last(); jj++)
+          for (int jj = lon(j, k).first(); jj <= lon(j, k).last(); jj++)
           {
-            a(pi<d>(this->rght_halo_sclr.first() + i, jj, k))
+            a(at(this->rght_halo_sclr.first() + i, jj, j, k))
             =
-            a(pi<d>(this->rght_edge_sclr - i, this->polar_neighbours(jj), k));
+            a(at(this->rght_edge_sclr - i, this->polar_neighbours(jj), j, k));
           }
         }
       }
@@ -109,11 +131,11 @@ namespace libmpdataxx
         if (!ad) av[d](pi<d>(this->rght_halo_vctr.first(), j, k)) = 0;
         if (halo > 1)
         {
-          for (int jj = j.first(); jj <= j.last(); jj++)
+          for (int jj = lon(j, k).first(); jj <= lon(j, k).last(); jj++)
           {
-            av[d](pi<d>(this->rght_halo_vctr.last(), jj, k))
+            av[d](at(this->rght_halo_vctr.last(), jj, j, k))
             =
-            av[d](pi<d>(this->rght_edge_sclr - h, this->polar_neighbours(jj), k));
+            av[d](at(this->rght_edge_sclr - h, this->polar_neighbours(jj), j, k));
           }
         }
       }
@@ -123,11 +145,11 @@ namespace libmpdataxx
         using namespace idxperm;
         for (int i = 0; i < halo; ++i)
         {
-          for (int jj = j.first(); jj <= j.last(); jj++)
+          for (int jj = lon(j, k).first(); jj <= lon(j, k).last(); jj++)
           {
-            a(pi<d>(this->rght_halo_sclr.first() + i, jj + h, k))
+            a(at(this->rght_halo_sclr.first() + i, jj + h, j, k))
             =
-            a(pi<d>(this->rght_intr_vctr.last() - i, this->polar_neighbours(jj) + h, k));
+            a(at(this->rght_intr_vctr.last() - i, this->polar_neighbours(jj) + h, j, k));
           }
         }
       }
-- 
2.43.0


From 4e764f63e8b75301198e279016f4e9da8ac7a600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:12 +0000
Subject: [PATCH 14/38] fix: polar boundary: right halo of the components along
 the pole taken from the mirrored row (off by one)

---
 libmpdata++/bcond/polar_2d.hpp | 2 +-
 libmpdata++/bcond/polar_3d.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmpdata++/bcond/polar_2d.hpp b/libmpdata++/bcond/polar_2d.hpp
index 0d87112..9b96cce 100644
--- a/libmpdata++/bcond/polar_2d.hpp
+++ b/libmpdata++/bcond/polar_2d.hpp
@@ -136,7 +136,7 @@ namespace libmpdataxx
             a(pi<d>(this->rght_halo_sclr.first() + i,
                     jj + h))
             =
-            a(pi<d>(this->rght_intr_vctr.last() - i,
+            a(pi<d>(this->rght_edge_sclr - i,
                     this->polar_neighbours(jj) + h));
 
           }
diff --git a/libmpdata++/bcond/polar_3d.hpp b/libmpdata++/bcond/polar_3d.hpp
index 06e220d..e9476d4 100644
--- a/libmpdata++/bcond/polar_3d.hpp
+++ b/libmpdata++/bcond/polar_3d.hpp
@@ -149,7 +149,7 @@ namespace libmpdataxx
           {
             a(at(this->rght_halo_sclr.first() + i, jj + h, j, k))
             =
-            a(at(this->rght_intr_vctr.last() - i, this->polar_neighbours(jj) + h, j, k));
+            a(at(this->rght_edge_sclr - i, this->polar_neighbours(jj) + h, j, k));
           }
         }
       }
-- 
2.43.0


From 3b65bfc009972353a9094d1e4dd86d399cff8989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:12 +0000
Subject: [PATCH 15/38] fix: polar boundary: Courant numbers across the pole
 change sign in the halo beyond it (mass was not conserved with div_3rd)

---
 libmpdata++/bcond/polar_2d.hpp | 4 ++--
 libmpdata++/bcond/polar_3d.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmpdata++/bcond/polar_2d.hpp b/libmpdata++/bcond/polar_2d.hpp
index 9b96cce..5c2dee0 100644
--- a/libmpdata++/bcond/polar_2d.hpp
+++ b/libmpdata++/bcond/polar_2d.hpp
@@ -54,7 +54,7 @@ namespace libmpdataxx
           {
             av[d](pi<d>(this->left_halo_vctr.first(), jj))
             =
-            av[d](pi<d>(this->left_edge_sclr + h, this->polar_neighbours(jj)));
+            -av[d](pi<d>(this->left_edge_sclr + h, this->polar_neighbours(jj)));
           }
         }
       }
@@ -121,7 +121,7 @@ namespace libmpdataxx
           {
             av[d](pi<d>(this->rght_halo_vctr.last(), jj))
             =
-            av[d](pi<d>(this->rght_edge_sclr - h, this->polar_neighbours(jj)));
+            -av[d](pi<d>(this->rght_edge_sclr - h, this->polar_neighbours(jj)));
           }
         }
       }
diff --git a/libmpdata++/bcond/polar_3d.hpp b/libmpdata++/bcond/polar_3d.hpp
index e9476d4..7b03d19 100644
--- a/libmpdata++/bcond/polar_3d.hpp
+++ b/libmpdata++/bcond/polar_3d.hpp
@@ -63,7 +63,7 @@ namespace libmpdataxx
           {
             av[d](at(this->left_halo_vctr.first(), jj, j, k))
             =
-            av[d](at(this->left_edge_sclr + h, this->polar_neighbours(jj), j, k));
+            -av[d](at(this->left_edge_sclr + h, this->polar_neighbours(jj), j, k));
           }
         }
       }
@@ -135,7 +135,7 @@ namespace libmpdataxx
           {
             av[d](at(this->rght_halo_vctr.last(), jj, j, k))
             =
-            av[d](at(this->rght_edge_sclr - h, this->polar_neighbours(jj), j, k));
+            -av[d](at(this->rght_edge_sclr - h, this->polar_neighbours(jj), j, k));
           }
         }
       }
-- 
2.43.0


From dbe65896fba3f240e2dee1a27778088abd595247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:16 +0000
Subject: [PATCH 16/38] fix: make the pc pressure scheme compile (arguments of
 lap() and precond() missing)

---
 libmpdata++/solvers/detail/mpdata_rhs_vip_prs_pc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_pc.hpp b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_pc.hpp
index 3c24e1c..2b2e9f3 100644
--- a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_pc.hpp
+++ b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_pc.hpp
@@ -50,7 +50,7 @@ namespace libmpdataxx
           for (int it=0; it<=pc_iters; it++)
           {
             q_err(this->ijk)    += real_t(.25) * pcnd_err(this->ijk);
-            pcnd_err(this->ijk) += real_t(.25) * this->lap(this->pcnd_err, this->ijk, this->dijk);
+            pcnd_err(this->ijk) += real_t(.25) * this->lap(this->pcnd_err, this->ijk, this->dijk, false, simple);
           }
         }
 
@@ -76,7 +76,7 @@ namespace libmpdataxx
 
           if (error <= this->err_tol) this->converged = true;
 
-          precond();
+          precond(simple);
 
           this->lap_q_err(this->ijk) = this->lap(this->q_err, this->ijk, this->dijk, false, simple);
 
-- 
2.43.0


From 8e6cb6e8d9d13f736152052e11d5067bb7435041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:30 +0000
Subject: [PATCH 17/38] fix: 2D div_3rd_dt ignored the kind of temporal
 extrapolation of velocities (1D/2D div_3rd and 3D do not)

---
 libmpdata++/formulae/mpdata/formulae_mpdata_2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmpdata++/formulae/mpdata/formulae_mpdata_2d.hpp b/libmpdata++/formulae/mpdata/formulae_mpdata_2d.hpp
index 3c24215..303c3b2 100644
--- a/libmpdata++/formulae/mpdata/formulae_mpdata_2d.hpp
+++ b/libmpdata++/formulae/mpdata/formulae_mpdata_2d.hpp
@@ -231,7 +231,7 @@ namespace libmpdataxx
           + fconst<arr_2d_t>(1.0 / 24) *
           (
               + 8 * GC[dim](pi<dim>(i+h, j)) *  nfdiv_dt<opts, dim>(psi_np1, psi_n, GC, G, i, j)
-              + 1 * ndtt_GC0<opts, dim>(psi_np1, ndtt_GC[dim], i, j)
+              + div_3rd_temporal<opts, dim, tmprl_extrp>(psi_np1, ndtt_GC, i, j)
               + 2 * GC[dim](pi<dim>(i+h, j)) *  nfdiv<opts, dim>(psi_np1, ndt_GC, G, i, j)
               + 2 * ndt_GC[dim](pi<dim>(i+h, j)) * ndt_psi<opts, dim>(psi_np1, psi_n, i, j)
           )
-- 
2.43.0


From 21be9881f0046293195e5b4769134a88cf59a930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:07 +0000
Subject: [PATCH 18/38] fix: 2D open left boundary: second halo cell of
 pressure-like fields filled along with the first one

It was filled in set_edge_pres() of another array: velocities extrapolated by solvers with advected
velocities kept uninitialised values there, which the schemes that look two cells away (div_3rd) used.
---
 libmpdata++/bcond/open_2d.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/libmpdata++/bcond/open_2d.hpp b/libmpdata++/bcond/open_2d.hpp
index 8b16544..7eec0d2 100644
--- a/libmpdata++/bcond/open_2d.hpp
+++ b/libmpdata++/bcond/open_2d.hpp
@@ -47,6 +47,11 @@ namespace libmpdataxx
         // equivalent to one-sided derivatives at the boundary
         a(pi<d>(this->left_halo_sclr.last(), j)) = 2 * a(pi<d>(this->left_edge_sclr,     j))
                                                      - a(pi<d>(this->left_edge_sclr + 1, j));
+        if (halo > 1)
+        {
+          a(pi<d>(this->left_halo_sclr.last() - 1, j)) =   3 * a(pi<d>(this->left_edge_sclr,     j))
+                                                         - 2 * a(pi<d>(this->left_edge_sclr + 1, j));
+        }
       }
 
       void save_edge_vel(const arr_t &a, const rng_t &j)
@@ -63,12 +68,6 @@ namespace libmpdataxx
       {
         using namespace idxperm;
         a(pi<d>(this->left_edge_sclr, j)) = sign * edge_velocity(pi<d>(0, j));
-
-        if (halo > 1)
-        {
-          a(pi<d>(this->left_halo_sclr.last() - 1, j)) =   3 * a(pi<d>(this->left_edge_sclr,     j))
-                                                         - 2 * a(pi<d>(this->left_edge_sclr + 1, j));
-        }
       }
 
       void fill_halos_vctr_alng(arrvec_t<arr_t> &av, const rng_t &j, const bool ad = false)
-- 
2.43.0


From 00fc7ed1b010d9ca4f42850389cd72cea9385918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:53 +0000
Subject: [PATCH 19/38] fix: adaptive time step: advance(0) took a step (one
 more than the requested span needs)

---
 libmpdata++/solvers/detail/solver_common.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libmpdata++/solvers/detail/solver_common.hpp b/libmpdata++/solvers/detail/solver_common.hpp
index 6e28acd..a8969d5 100644
--- a/libmpdata++/solvers/detail/solver_common.hpp
+++ b/libmpdata++/solvers/detail/solver_common.hpp
@@ -289,6 +289,7 @@ namespace libmpdataxx
 
           // higher-order temporal interpolation for output requires doing a few additional steps
           int additional_steps = ct_params_t::out_intrp_ord;
+          if (time >= nt) additional_steps--; // nothing to do to get to the requested time
           while (ct_params_t::var_dt ? (time < nt || additional_steps > 0) : timestep < nt)
           {
             // progress-bar info through thread name (check top -H)
-- 
2.43.0


From 12a653627fd8d677fcd4a54e9830b54b3e29f79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:24 +0000
Subject: [PATCH 20/38] fix: 1D Courant number ignored the density factor (2D
 and 3D do not)

---
 libmpdata++/solvers/detail/solver_1d.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmpdata++/solvers/detail/solver_1d.hpp b/libmpdata++/solvers/detail/solver_1d.hpp
index 4b86d5f..dff8871 100644
--- a/libmpdata++/solvers/detail/solver_1d.hpp
+++ b/libmpdata++/solvers/detail/solver_1d.hpp
@@ -104,7 +104,8 @@ namespace libmpdataxx
 
         real_t courant_number(const arrvec_t<typename parent_t::arr_t> &arrvec) final
         {
-          stat_field(this->ijk) = real_t(0.5) * (abs(arrvec[0](i+h) + arrvec[0](i-h)));
+          stat_field(this->ijk) = real_t(0.5) * (abs(arrvec[0](i+h) + arrvec[0](i-h)))
+                                         / formulae::G<ct_params_t::opts>(*this->mem->G, i);
           return this->mem->max(this->rank, stat_field(this->ijk));
         }
 
-- 
2.43.0


From 69943d0108a055a29fb46519032b3139b2411151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:05 +0000
Subject: [PATCH 21/38] fix: right rigid boundary overwrote the velocity
 divergence on the boundary (field not staggered across it)

---
 libmpdata++/bcond/rigid_2d.hpp | 5 +++--
 libmpdata++/bcond/rigid_3d.hpp | 8 +++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/libmpdata++/bcond/rigid_2d.hpp b/libmpdata++/bcond/rigid_2d.hpp
index de8f45c..e40553d 100644
--- a/libmpdata++/bcond/rigid_2d.hpp
+++ b/libmpdata++/bcond/rigid_2d.hpp
@@ -177,12 +177,13 @@ namespace libmpdataxx
       void fill_halos_sgs_div(arr_t &a, const rng_t &j)
       {
         using namespace idxperm;
-        a(pi<d>(this->rght_edge_sclr + h, j)) = 2 * a(pi<d>(this->rght_edge_sclr - h, j)) - a(pi<d>(this->rght_edge_sclr - 1 - h, j));
+        a(pi<d>(this->rght_edge_sclr + 1, j)) = 2 * a(pi<d>(this->rght_edge_sclr, j)) - a(pi<d>(this->rght_edge_sclr - 1, j));
       }
 
       void fill_halos_sgs_div_stgr(arr_t &a, const rng_t &j)
       {
-        fill_halos_sgs_div(a, j);
+        using namespace idxperm;
+        a(pi<d>(this->rght_edge_sclr + h, j)) = 2 * a(pi<d>(this->rght_edge_sclr - h, j)) - a(pi<d>(this->rght_edge_sclr - 1 - h, j));
       }
 
       void fill_halos_sgs_vctr(arrvec_t<arr_t> &av, const arr_t &, const rng_t &j, const int offset = 0)
diff --git a/libmpdata++/bcond/rigid_3d.hpp b/libmpdata++/bcond/rigid_3d.hpp
index f17a9e5..c385a13 100644
--- a/libmpdata++/bcond/rigid_3d.hpp
+++ b/libmpdata++/bcond/rigid_3d.hpp
@@ -179,13 +179,15 @@ namespace libmpdataxx
       void fill_halos_sgs_div(arr_t &a, const rng_t &j, const rng_t &k)
       {
         using namespace idxperm;
-        a(pi<d>(this->rght_edge_sclr + h, j, k)) = 2 * a(pi<d>(this->rght_edge_sclr - h, j, k))
-                                                   -   a(pi<d>(this->rght_edge_sclr - 1 - h, j, k));
+        a(pi<d>(this->rght_edge_sclr + 1, j, k)) = 2 * a(pi<d>(this->rght_edge_sclr, j, k))
+                                                   -   a(pi<d>(this->rght_edge_sclr - 1, j, k));
       }
 
       void fill_halos_sgs_div_stgr(arr_t &a, const rng_t &j, const rng_t &k)
       {
-        fill_halos_sgs_div(a, j, k);
+        using namespace idxperm;
+        a(pi<d>(this->rght_edge_sclr + h, j, k)) = 2 * a(pi<d>(this->rght_edge_sclr - h, j, k))
+                                                   -   a(pi<d>(this->rght_edge_sclr - 1 - h, j, k));
       }
 
       void fill_halos_sgs_vctr(arrvec_t<arr_t> &av, const arr_t &, const rng_t &j, const rng_t &k, const int offset = 0)
-- 
2.43.0


From ee2e98fac91fec510a1890412e78e2b6df28e021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:05 +0000
Subject: [PATCH 22/38] fix: Smagorinsky with compact differencing used eddy
 viscosities in halos that were never filled

---
 libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp    | 2 ++
 libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp
index b961522..832a240 100644
--- a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp
+++ b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp
@@ -36,6 +36,8 @@ namespace libmpdataxx
           {
             k_m(this->ijk) = pow(smg_c * dlta, 2) * formulae::stress::calc_tdef_sq_cmpct<ct_params_t::n_dims>(this->tau, this->ijk);
 
+            this->xchng_sclr(k_m, this->ijk, 1);
+
             formulae::stress::multiply_tnsr_cmpct<ct_params_t::n_dims, ct_params_t::opts>(this->tau,
                                                                                           real_t(1.0),
                                                                                           this->k_m,
diff --git a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp
index 5ca11b0..a14fe94 100644
--- a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp
+++ b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp
@@ -40,6 +40,9 @@ namespace libmpdataxx
           k_m[0](this->ijk) = pow(smg_c * dlta_h, 2) * formulae::stress::calc_tdef_sq_cmpct<ct_params_t::n_dims>(this->tau, this->ijk)(this->ijk); // tdef_sq could be cached, but creating a tdef_sq array without similar one in isotropic smg messes with derived classes that do cache tdef_sq also in isotropic... (e.g. boussinesq)
           k_m[1](this->ijk) = pow(smg_c * dlta_v, 2) * formulae::stress::calc_tdef_sq_cmpct<ct_params_t::n_dims>(this->tau, this->ijk)(this->ijk);
 
+          this->xchng_sclr(k_m[0], this->ijk, 1);
+          this->xchng_sclr(k_m[1], this->ijk, 1);
+
           formulae::stress::multiply_tnsr_cmpct<ct_params_t::n_dims, ct_params_t::opts>(this->tau,
                                                                                         real_t(1.0),
                                                                                         this->k_m,
-- 
2.43.0


From 6a280b34f969685dfa24331a6c4f72a2379f4a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:05 +0000
Subject: [PATCH 23/38] fix: Smagorinsky eddy viscosity proportional to the
 square of the deformation (its root was not taken)

---
 libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp    | 4 ++--
 libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp
index 832a240..54c69d4 100644
--- a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp
+++ b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp
@@ -34,7 +34,7 @@ namespace libmpdataxx
 
           if (static_cast<stress_diff_t>(ct_params_t::stress_diff) == compact)
           {
-            k_m(this->ijk) = pow(smg_c * dlta, 2) * formulae::stress::calc_tdef_sq_cmpct<ct_params_t::n_dims>(this->tau, this->ijk);
+            k_m(this->ijk) = pow(smg_c * dlta, 2) * sqrt(formulae::stress::calc_tdef_sq_cmpct<ct_params_t::n_dims>(this->tau, this->ijk));
 
             this->xchng_sclr(k_m, this->ijk, 1);
 
@@ -49,7 +49,7 @@ namespace libmpdataxx
           }
           else
           {
-            k_m(this->ijk) = pow(smg_c * dlta, 2) *  formulae::stress::calc_tdef_sq<ct_params_t::n_dims>(this->tau, this->ijk);
+            k_m(this->ijk) = pow(smg_c * dlta, 2) * sqrt(formulae::stress::calc_tdef_sq<ct_params_t::n_dims>(this->tau, this->ijk));
 
             for (auto& t : this->tau)
             {
diff --git a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp
index a14fe94..a26de6f 100644
--- a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp
+++ b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp
@@ -37,8 +37,8 @@ namespace libmpdataxx
           const auto dlta_v = this->dijk[ct_params_t::n_dims-1];
 
           // Simon and Chow 2021, eqs. 9 and 10
-          k_m[0](this->ijk) = pow(smg_c * dlta_h, 2) * formulae::stress::calc_tdef_sq_cmpct<ct_params_t::n_dims>(this->tau, this->ijk)(this->ijk); // tdef_sq could be cached, but creating a tdef_sq array without similar one in isotropic smg messes with derived classes that do cache tdef_sq also in isotropic... (e.g. boussinesq)
-          k_m[1](this->ijk) = pow(smg_c * dlta_v, 2) * formulae::stress::calc_tdef_sq_cmpct<ct_params_t::n_dims>(this->tau, this->ijk)(this->ijk);
+          k_m[0](this->ijk) = pow(smg_c * dlta_h, 2) * sqrt(formulae::stress::calc_tdef_sq_cmpct<ct_params_t::n_dims>(this->tau, this->ijk)); // tdef_sq could be cached, but creating a tdef_sq array without similar one in isotropic smg messes with derived classes that do cache tdef_sq also in isotropic... (e.g. boussinesq)
+          k_m[1](this->ijk) = pow(smg_c * dlta_v, 2) * sqrt(formulae::stress::calc_tdef_sq_cmpct<ct_params_t::n_dims>(this->tau, this->ijk));
 
           this->xchng_sclr(k_m[0], this->ijk, 1);
           this->xchng_sclr(k_m[1], this->ijk, 1);
-- 
2.43.0


From 00bedbb6cfb911e7603bd09db3364d00fd0fd653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:05 +0000
Subject: [PATCH 24/38] fix: eddy viscosity not a number where unstably
 stratified fluid is not deformed

---
 libmpdata++/solvers/detail/boussinesq_sgs_common.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libmpdata++/solvers/detail/boussinesq_sgs_common.hpp b/libmpdata++/solvers/detail/boussinesq_sgs_common.hpp
index 50ed09c..7d9565a 100644
--- a/libmpdata++/solvers/detail/boussinesq_sgs_common.hpp
+++ b/libmpdata++/solvers/detail/boussinesq_sgs_common.hpp
@@ -77,7 +77,7 @@ namespace libmpdataxx
 
           if constexpr (static_cast<sgs_scheme_t>(ct_params_t::sgs_scheme) == smg)
             this->k_m(this->ijk) = where(
-                                       rcdsn_num(this->ijk) / prandtl_num < 1,
+                                       tdef_sq(this->ijk) > 0 && rcdsn_num(this->ijk) / prandtl_num < 1, // (no deformation: Richardson number is infinite)
                                        pow(this->smg_c * mix_len(this->ijk), 2)
                                        * sqrt(tdef_sq(this->ijk) * (1 - rcdsn_num(this->ijk) / prandtl_num)),
                                        0
@@ -85,13 +85,13 @@ namespace libmpdataxx
           else // smgani
           {
             this->k_m[0](this->ijk) = where(
-                                       rcdsn_num(this->ijk) / prandtl_num < 1,
+                                       tdef_sq(this->ijk) > 0 && rcdsn_num(this->ijk) / prandtl_num < 1, // (no deformation: Richardson number is infinite)
                                        pow(this->smg_c * mix_len_h(this->ijk), 2)
                                        * sqrt(tdef_sq(this->ijk) * (1 - rcdsn_num(this->ijk) / prandtl_num)),
                                        0
                                       );
             this->k_m[1](this->ijk) = where(
-                                       rcdsn_num(this->ijk) / prandtl_num < 1,
+                                       tdef_sq(this->ijk) > 0 && rcdsn_num(this->ijk) / prandtl_num < 1, // (no deformation: Richardson number is infinite)
                                        pow(this->smg_c * mix_len_v(this->ijk), 2)
                                        * sqrt(tdef_sq(this->ijk) * (1 - rcdsn_num(this->ijk) / prandtl_num)),
                                        0
-- 
2.43.0


From ae41b23b28448cc54d579c4d49eaf5124562152d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:39 +0000
Subject: [PATCH 25/38] fix: normal stress on the ground not multiplied by
 viscosity (refilled with the bare deformation afterwards)

---
 libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_dns.hpp    | 1 -
 libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp    | 1 -
 libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp | 1 -
 3 files changed, 3 deletions(-)

diff --git a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_dns.hpp b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_dns.hpp
index fed38f2..be76fed 100644
--- a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_dns.hpp
+++ b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_dns.hpp
@@ -29,7 +29,6 @@ namespace libmpdataxx
           {
             formulae::stress::multiply_tnsr_cmpct<ct_params_t::n_dims>(this->tau, eta, this->ijkm_sep);
 
-            this->xchng_sgs_tnsr_diag(this->tau, this->vips()[ct_params_t::n_dims - 1], this->vip_div, this->ijk);
             this->xchng_sgs_tnsr_offdiag(this->tau, this->tau_srfc, this->ijk, this->ijkm);
           }
           else
diff --git a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp
index 54c69d4..77dc755 100644
--- a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp
+++ b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp
@@ -44,7 +44,6 @@ namespace libmpdataxx
                                                                                           *this->mem->G,
                                                                                           this->ijkm_sep);
 
-            this->xchng_sgs_tnsr_diag(this->tau, this->vips()[ct_params_t::n_dims - 1], this->vip_div, this->ijk);
             this->xchng_sgs_tnsr_offdiag(this->tau, this->tau_srfc, this->ijk, this->ijkm);
           }
           else
diff --git a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp
index a26de6f..a23a77e 100644
--- a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp
+++ b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp
@@ -49,7 +49,6 @@ namespace libmpdataxx
                                                                                         *this->mem->G,
                                                                                         this->ijkm_sep);
 
-          this->xchng_sgs_tnsr_diag(this->tau, this->vips()[ct_params_t::n_dims - 1], this->vip_div, this->ijk);
           this->xchng_sgs_tnsr_offdiag(this->tau, this->tau_srfc, this->ijk, this->ijkm);
         }
 
-- 
2.43.0


From bfb8c1ed5f493e51812a5dacf87386179626978b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:47 +0000
Subject: [PATCH 26/38] fix: XDMF: auxiliary fields were declared one point too
 short in each dimension

---
 libmpdata++/output/detail/xdmf_writer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmpdata++/output/detail/xdmf_writer.hpp b/libmpdata++/output/detail/xdmf_writer.hpp
index 173ebd4..3412a48 100644
--- a/libmpdata++/output/detail/xdmf_writer.hpp
+++ b/libmpdata++/output/detail/xdmf_writer.hpp
@@ -136,7 +136,8 @@ namespace libmpdataxx
                                  const std::string& hdf_name,
                                  const blitz::TinyVector<int, dim>& dimensions)
         {
-          attribute a = make_attribute(name, dimensions);
+          // there is one more coordinate than cell index in each dimension
+          attribute a = make_attribute(name, dimensions + 1);
           a.item.data = hdf_name + ":/" + a.name;
           attrs.insert(a);
         }
-- 
2.43.0


From 50a2ee56eed81a4274a59457715aac947bb2da34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:47 +0000
Subject: [PATCH 27/38] fix: HDF5: the name given to the output variable was
 ignored with one equation

---
 libmpdata++/output/hdf5.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmpdata++/output/hdf5.hpp b/libmpdata++/output/hdf5.hpp
index 8c21eea..2ace285 100644
--- a/libmpdata++/output/hdf5.hpp
+++ b/libmpdata++/output/hdf5.hpp
@@ -798,7 +798,7 @@ namespace libmpdataxx
 
         // TODO: clean it up - it should not be here
         // overrding the default from output_common
-        if (this->outvars.size() == 1 && parent_t::n_eqns == 1)
+        if (this->outvars.size() == 1 && parent_t::n_eqns == 1 && this->outvars[0].name.empty())
           this->outvars[0].name = "psi";
       }
 
-- 
2.43.0


From fd37abe9762aac10a07f9b3435866274c1c56e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:47 +0000
Subject: [PATCH 28/38] fix: division by zero in a check of output settings
 (adaptive steps, output interval below 1)

---
 libmpdata++/output/detail/output_common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmpdata++/output/detail/output_common.hpp b/libmpdata++/output/detail/output_common.hpp
index 1a7d968..5f8795f 100644
--- a/libmpdata++/output/detail/output_common.hpp
+++ b/libmpdata++/output/detail/output_common.hpp
@@ -191,7 +191,7 @@ namespace libmpdataxx
           outdir(p.outdir),
           intrp_vars(args.mem->tmp[__FILE__][0])
         {
-          assert(int(outstart) % int(outfreq) == 0);
+          assert(outstart == 0 || int(outstart) % int(outfreq) == 0);
           assert(int(outstart)==0 || this->var_dt==0);
 
           // default value for outvars
-- 
2.43.0


From f90669c6bda3c37b70db146746f749e7ed41d544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:47 +0000
Subject: [PATCH 29/38] fix: HDF5 time coordinate lacked the last record with
 outstart, had extra ones with outwindow, crashed for runs ending before
 outstart

---
 libmpdata++/output/detail/output_common.hpp | 15 +++++++++++----
 libmpdata++/output/hdf5.hpp                 | 21 ++++++++-------------
 2 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/libmpdata++/output/detail/output_common.hpp b/libmpdata++/output/detail/output_common.hpp
index 5f8795f..3d626f6 100644
--- a/libmpdata++/output/detail/output_common.hpp
+++ b/libmpdata++/output/detail/output_common.hpp
@@ -39,6 +39,16 @@ namespace libmpdataxx
         virtual void record(const int var) {}
         virtual void start(const typename parent_t::advance_arg_t nt) {}
 
+        // is a given timestep (other than the initial one) to be recorded? (constant time step)
+        bool is_output_step(const int timestep) const
+        {
+          for (int t = 0; t < outwindow; ++t)
+          {
+            if ((timestep - t) % static_cast<int>(outfreq) == 0 && (timestep - t) >= static_cast<int>(outstart)) return true;
+          }
+          return false;
+        }
+
         typename parent_t::arr_t out_data(const int var)
         {
           return this->var_dt ? intrp_vars[var] : this->mem->advectee(var);
@@ -156,10 +166,7 @@ namespace libmpdataxx
             else if (!this->var_dt)
             {
               record_time = this->time;
-              for (int t = 0; t < outwindow; ++t)
-              {
-                if ((this->timestep - t) % static_cast<int>(outfreq) == 0 && (this->timestep - t) >= static_cast<int>(outstart)) record_all();
-              }
+              if (is_output_step(this->timestep)) record_all();
             }
           }
 
diff --git a/libmpdata++/output/hdf5.hpp b/libmpdata++/output/hdf5.hpp
index 2ace285..9e88de3 100644
--- a/libmpdata++/output/hdf5.hpp
+++ b/libmpdata++/output/hdf5.hpp
@@ -198,21 +198,16 @@ namespace libmpdataxx
 
             // T
             {
-              // incl. t=0 and t=outstart
-              const hsize_t nt_out = ((nt - this->outstart) / this->outfreq + 1) * this->outwindow
-                + (this->outstart == 0 ? 0 : 1) // for outstart>0 we still want to store t=0
-                - std::max(0, this->outwindow - int(std::fmod(nt, this->outfreq)) - 1);  // timsteps from outwindow that go beyond nt
-
-              float dt = this->dt;
-
-              blitz::Array<typename solver_t::real_t, 1> coord(nt_out);
-              if(this->outstart == 0)
-                coord(blitz::Range(0,nt_out-1)) = (this->var_dt ? 1 : this->dt) * (floor(blitz::firstIndex() / this->outwindow) * this->outfreq + fmod(blitz::firstIndex(), this->outwindow));
-              else
+              // times of all records to be written until the end of the loop, incl. the initial state
+              std::vector<typename solver_t::real_t> coord;
+              for (int t = 0; this->var_dt ? t * this->outfreq <= nt : t <= nt; ++t)
               {
-                coord(blitz::Range(1,nt_out-1)) = (this->var_dt ? 1 : this->dt) * (floor(blitz::firstIndex() / this->outwindow) * this->outfreq + fmod(blitz::firstIndex(), this->outwindow) + this->outstart);
-                coord(0)=0;
+                if (this->var_dt)
+                  coord.push_back(t * this->outfreq);
+                else if (t == 0 || this->is_output_step(t))
+                  coord.push_back(t * this->dt);
               }
+              const hsize_t nt_out = coord.size();
 
               auto curr_dim = (*hdfp).createDataSet("T", flttype_output, H5::DataSpace(1, &nt_out));
 
-- 
2.43.0


From f060de3be2e9a16c7866c36b9dda51bc64c8ea58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:43 +0000
Subject: [PATCH 30/38] fix: option div_3rd_dt missing from the recorded
 options

---
 libmpdata++/opts.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmpdata++/opts.hpp b/libmpdata++/opts.hpp
index 35a89ea..3df4d72 100644
--- a/libmpdata++/opts.hpp
+++ b/libmpdata++/opts.hpp
@@ -60,13 +60,14 @@ namespace libmpdataxx
       {khn, "khn"},
       {div_2nd, "div_2nd"},
       {div_3rd, "div_3rd"},
+      {div_3rd_dt, "div_3rd_dt"},
       {fot, "fot"}
     };
 
     inline std::string opts_string(opts_t opts)
     {
       std::string ret;
-      const auto opt_order = {nug, iga, abs, dfl, div_2nd, tot, div_3rd, fot, fct, pfc, npa, khn};
+      const auto opt_order = {nug, iga, abs, dfl, div_2nd, tot, div_3rd, div_3rd_dt, fot, fct, pfc, npa, khn};
       for (const auto &o : opt_order)
       {
         if (isset(opts, o))
-- 
2.43.0


From af70a372c0f577d3979b74ae46c56265becfbc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:23 +0000
Subject: [PATCH 31/38] fix: HDF5: failing writes were not reported, records
 stayed unwritten until the next one

---
 libmpdata++/output/detail/output_common.hpp | 11 ++++++++++-
 libmpdata++/output/hdf5.hpp                 | 20 ++++++++++++++++++++
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/libmpdata++/output/detail/output_common.hpp b/libmpdata++/output/detail/output_common.hpp
index 3d626f6..b499fc2 100644
--- a/libmpdata++/output/detail/output_common.hpp
+++ b/libmpdata++/output/detail/output_common.hpp
@@ -39,6 +39,9 @@ namespace libmpdataxx
         virtual void record(const int var) {}
         virtual void start(const typename parent_t::advance_arg_t nt) {}
 
+        // called when all data of a record has been written, incl. those from record_all() of derived classes
+        virtual void finish_record() {}
+
         // is a given timestep (other than the initial one) to be recorded? (constant time step)
         bool is_output_step(const int timestep) const
         {
@@ -70,6 +73,7 @@ namespace libmpdataxx
             record_time = this->time;
             start(nt);
             record_all();
+            finish_record();
           }
           this->mem->barrier();
         }
@@ -162,11 +166,16 @@ namespace libmpdataxx
             if (this->var_dt && do_record_cnt == 1)
             {
               record_all();
+              finish_record();
             }
             else if (!this->var_dt)
             {
               record_time = this->time;
-              if (is_output_step(this->timestep)) record_all();
+              if (is_output_step(this->timestep))
+              {
+                record_all();
+                finish_record();
+              }
             }
           }
 
diff --git a/libmpdata++/output/hdf5.hpp b/libmpdata++/output/hdf5.hpp
index 9e88de3..d68ce63 100644
--- a/libmpdata++/output/hdf5.hpp
+++ b/libmpdata++/output/hdf5.hpp
@@ -194,6 +194,7 @@ namespace libmpdataxx
               H5::DataSpace dim_space = curr_dim.getSpace();
               dim_space.selectHyperslab(H5S_SELECT_SET, cshape.data(), offst.data());
               curr_dim.write(coord.data(), flttype_solver, H5::DataSpace(parent_t::n_dims, cshape.data()), dim_space, dxpl_id);
+              curr_dim.flush(H5F_SCOPE_LOCAL); // write errors are reported here, but not by destructors of datasets and files
             }
 
             // T
@@ -214,6 +215,7 @@ namespace libmpdataxx
               H5::DataSpace dim_space = curr_dim.getSpace();
               dim_space.selectHyperslab(H5S_SELECT_SET, &nt_out, &zero);
               curr_dim.write(coord.data(), flttype_solver, H5::DataSpace(1, &nt_out), dim_space, dxpl_id);
+              curr_dim.flush(H5F_SCOPE_LOCAL);
             }
 
             // G factor
@@ -225,6 +227,7 @@ namespace libmpdataxx
 
             // save selected compile and runtime parameters, the choice depends on the solver family
             record_params(*hdfp, typename parent_t::solver_family{});
+            hdfp->flush(H5F_SCOPE_LOCAL);
           }
         }
       }
@@ -254,6 +257,8 @@ namespace libmpdataxx
         assert(this->rank == 0);
         //count[1] = 1; TODO
 
+        hdfp.reset(); // closing the previous file before creating the next one
+
         // creating the timestep file
         hdfp.reset(new H5::H5File(this->outdir + "/" + hdf_name(), H5F_ACC_TRUNC
 #if defined(USE_MPI)
@@ -280,6 +285,12 @@ namespace libmpdataxx
         }
       }
 
+      // the file stays open, but a record should neither depend on what happens later nor be lost silently
+      void finish_record()
+      {
+        hdfp->flush(H5F_SCOPE_LOCAL);
+      }
+
 
       // ---- output helpers ----
 
@@ -317,6 +328,7 @@ namespace libmpdataxx
           }
           default: assert(false);
         };
+        dset.flush(H5F_SCOPE_LOCAL);
       }
 
       void record_dsc_helper(const H5::DataSet &dset, const typename solver_t::arr_t &arr)
@@ -350,6 +362,7 @@ namespace libmpdataxx
           }
           default: assert(false);
         };
+        dset.flush(H5F_SCOPE_LOCAL);
       }
 
       // data is assumed to be contiguous and in the same layout as hdf variable and in the C-style storage order
@@ -367,6 +380,7 @@ namespace libmpdataxx
         auto space = aux.getSpace();
         space.selectHyperslab(H5S_SELECT_SET, shape.data(), offst.data());
         aux.write(data, flttype_solver, H5::DataSpace(parent_t::n_dims, shape.data()), space, dxpl_id);
+        aux.flush(H5F_SCOPE_LOCAL);
       }
 
       // for 1-D arrays
@@ -383,6 +397,7 @@ namespace libmpdataxx
         auto space = aux.getSpace();
         space.selectHyperslab(H5S_SELECT_SET, &size, &zero);
         aux.write(data, flttype_solver, H5::DataSpace(1, &size), space, dxpl_id);
+        aux.flush(H5F_SCOPE_LOCAL);
       }
 
       // for discontiguous array with halos
@@ -440,6 +455,8 @@ namespace libmpdataxx
         }
         else
           aux.write(arr.data(), flttype_solver, sspace_mem_h, space, dxpl_id);
+
+        aux.flush(H5F_SCOPE_LOCAL);
       }
 
       void record_scalar_hlpr(const std::string &name, const std::string &group_name, typename solver_t::real_t data, H5::H5File hdf)
@@ -458,6 +475,7 @@ namespace libmpdataxx
           group = hdf.createGroup(group_name);
 
         group.createAttribute(name, flttype_output, H5::DataSpace(1, &one)).write(flttype_output, &data_f);
+        group.flush(H5F_SCOPE_LOCAL);
       }
 
       void record_string_hlpr(const std::string &name, const std::string &group_name, const std::string &data, H5::H5File hdf)
@@ -477,6 +495,7 @@ namespace libmpdataxx
           group = hdf.createGroup(group_name);
 
         group.createAttribute(name, type, H5::DataSpace(1, &one)).write(type, data.data());
+        group.flush(H5F_SCOPE_LOCAL);
       }
 
       // record 1D profiles, assumes that z is the last dimension
@@ -500,6 +519,7 @@ namespace libmpdataxx
           space.selectHyperslab(H5S_SELECT_SET, &_shape[parent_t::n_dims - 1], &offst[parent_t::n_dims - 1]);
           aux.write(data, flttype_solver, H5::DataSpace(1, &_shape[parent_t::n_dims - 1]), space);
         }
+        aux.flush(H5F_SCOPE_LOCAL);
       }
 
       // ---- functions for auxiliary output in timestep files ----
-- 
2.43.0


From 1e2212eed9985d4a945d0bb3c759979aa47f3836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:23 +0000
Subject: [PATCH 32/38] fix: XDMF: failing writes were not reported

---
 libmpdata++/output/detail/xdmf_writer.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/libmpdata++/output/detail/xdmf_writer.hpp b/libmpdata++/output/detail/xdmf_writer.hpp
index 3412a48..0943ab2 100644
--- a/libmpdata++/output/detail/xdmf_writer.hpp
+++ b/libmpdata++/output/detail/xdmf_writer.hpp
@@ -6,6 +6,8 @@
 #include <set>
 #include <string>
 #include <sstream>
+#include <fstream>
+#include <stdexcept>
 
 #include <boost/version.hpp>
 #include <boost/property_tree/ptree.hpp>
@@ -110,6 +112,15 @@ namespace libmpdataxx
           return a;
         }
 
+        // write_xml() given a file name does not report errors met when the file is closed
+        void write_file(const std::string& xmf_name, const ptree& pt, const xml_writer_settings& settings)
+        {
+          std::ofstream file(xmf_name);
+          if (file) write_xml(file, pt, settings);
+          file.close();
+          if (!file) throw std::runtime_error("writing " + xmf_name + " failed");
+        }
+
         public:
 
         void setup(const std::string& hdf_name,
@@ -177,7 +188,7 @@ namespace libmpdataxx
             ca.add(grid_node);
 
           xml_writer_settings settings('\t', 1);
-          write_xml(xmf_name, pt, std::locale(), settings);
+          write_file(xmf_name, pt, settings);
         }
 
         void write_temporal(const std::string& xmf_name, const std::vector<std::string>& timesteps)
@@ -199,7 +210,7 @@ namespace libmpdataxx
           }
 
           xml_writer_settings settings('\t', 1);
-          write_xml(xmf_name, pt, std::locale(), settings);
+          write_file(xmf_name, pt, settings);
         }
 
       };
-- 
2.43.0


From 75de597149e882cbd4b2007e01513fd1820c4467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:39 +0000
Subject: [PATCH 33/38] fix: negative grid sizes corrupted memory before they
 were rejected

---
 libmpdata++/concurr/detail/sharedmem.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libmpdata++/concurr/detail/sharedmem.hpp b/libmpdata++/concurr/detail/sharedmem.hpp
index 75f1356..4b22b09 100644
--- a/libmpdata++/concurr/detail/sharedmem.hpp
+++ b/libmpdata++/concurr/detail/sharedmem.hpp
@@ -92,6 +92,11 @@ namespace libmpdataxx
         sharedmem_common(const std::array<int, n_dims> &grid_size, const int &size)
           : n(0), distmem(grid_size), size(size), shmem_decomp_dim(n_dims < 3 ? 0 : 1) // TODO: is n(0) needed?
         {
+          // (before anything is allocated)
+          for (int d = 0; d < n_dims; ++d)
+            if (grid_size[d] < 1)
+              throw std::runtime_error("libmpdata++: bogus grid size");
+
           for (int d = 0; d < n_dims; ++d)
           {
             this->grid_size[d] = slab(
-- 
2.43.0


From 3569a54f50051c251bdca12d8270fd41782b287b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:01 +0000
Subject: [PATCH 34/38] Revert "fix: XDMF: auxiliary fields were declared one
 point too short in each dimension"

The reference data of the pbl tests contain the shorter dimensions.
---
 libmpdata++/output/detail/xdmf_writer.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libmpdata++/output/detail/xdmf_writer.hpp b/libmpdata++/output/detail/xdmf_writer.hpp
index 0943ab2..405010d 100644
--- a/libmpdata++/output/detail/xdmf_writer.hpp
+++ b/libmpdata++/output/detail/xdmf_writer.hpp
@@ -147,8 +147,7 @@ namespace libmpdataxx
                                  const std::string& hdf_name,
                                  const blitz::TinyVector<int, dim>& dimensions)
         {
-          // there is one more coordinate than cell index in each dimension
-          attribute a = make_attribute(name, dimensions + 1);
+          attribute a = make_attribute(name, dimensions);
           a.item.data = hdf_name + ":/" + a.name;
           attrs.insert(a);
         }
-- 
2.43.0


From c019e8a452483766aad482718dda26622bb10de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:28 +0000
Subject: [PATCH 35/38] fix: 3D halos of vectors filled from halos of other
 threads without waiting for them (MPI with THREAD_MULTIPLE)

---
 libmpdata++/solvers/detail/solver_3d.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libmpdata++/solvers/detail/solver_3d.hpp b/libmpdata++/solvers/detail/solver_3d.hpp
index 5b9489a..83a8ff7 100644
--- a/libmpdata++/solvers/detail/solver_3d.hpp
+++ b/libmpdata++/solvers/detail/solver_3d.hpp
@@ -249,7 +249,7 @@ namespace libmpdataxx
                 if(this->mem->distmem.size() > 0) this->mem->barrier();
               #endif
             }
-            barrier_if_single_threaded_bc0();
+            this->mem->barrier(); // the halos along x filled by other threads are read below
 
             for (auto &bc : this->bcs[1]) bc->fill_halos_vctr_nrml(arrvec[2], range_ijk[2]^ext^h, range_ijk[0]^ext^1);
           }
@@ -278,7 +278,7 @@ namespace libmpdataxx
                 if(this->mem->distmem.size() > 0) this->mem->barrier();
               #endif
             }
-            barrier_if_single_threaded_bc0();
+            this->mem->barrier(); // the halos along x filled by other threads are read below
 
             for (auto &bc : this->bcs[1]) bc->fill_halos_vctr_nrml_cyclic(arrvec[2], range_ijk[2]^ext^h, range_ijk[0]^ext^1);
           }
@@ -300,7 +300,7 @@ namespace libmpdataxx
               if(this->mem->distmem.size() > 0) this->mem->barrier();
             #endif
           }
-          barrier_if_single_threaded_bc0();
+          this->mem->barrier(); // the halos along x filled by other threads are read below
           for (auto &bc : this->bcs[1]) bc->fill_halos_pres(arr, range_ijk[2]^ext, range_ijk[0]^ext);
           for (auto &bc : this->bcs[2]) bc->fill_halos_pres(arr, range_ijk[0]^ext, range_ijk_1__ext);
           this->mem->barrier();
-- 
2.43.0


From 5e385e99fe0ffd369dfb3e27c0ab884ea4b01087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:19 +0000
Subject: [PATCH 36/38] fix: 1D gnuplot: outwindow ignored, adaptive steps with
 an output interval below 1 never returned

---
 libmpdata++/output/gnuplot.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libmpdata++/output/gnuplot.hpp b/libmpdata++/output/gnuplot.hpp
index 432e116..b04a213 100644
--- a/libmpdata++/output/gnuplot.hpp
+++ b/libmpdata++/output/gnuplot.hpp
@@ -98,9 +98,11 @@ namespace libmpdataxx
              << p.gnuplot_command << " 1/0 notitle" // for the comma below :)
           ;
 
-          for (int t = 0; t <= nt; t+=p.outfreq)
+          // one entry per record to be made until the end of the loop, incl. the initial state
+          for (int r = 0; this->var_dt ? r * p.outfreq <= nt : r <= nt; ++r)
           {
-            if(t > 0 && t < p.outstart) continue;
+            if (!this->var_dt && r > 0 && !this->is_output_step(r)) continue;
+            const typename parent_t::advance_arg_t t = this->var_dt ? r * p.outfreq : r;
             for (const auto &v : this->outvars)
             {
               *gp << ", '-'";
-- 
2.43.0


From 608f279158fb8547f4d723fbd10585e07c9472c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:29 +0000
Subject: [PATCH 37/38] fix: gnuplot with adaptive steps plotted the state
 after the step instead of that at the time of the record

---
 libmpdata++/output/gnuplot.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/libmpdata++/output/gnuplot.hpp b/libmpdata++/output/gnuplot.hpp
index b04a213..8fad43c 100644
--- a/libmpdata++/output/gnuplot.hpp
+++ b/libmpdata++/output/gnuplot.hpp
@@ -163,6 +163,14 @@ namespace libmpdataxx
       std::string binfmt(blitz::Array<typename parent_t::real_t, 1>) { throw std::logic_error("binfmt() only for 2D!"); }
       std::string binfmt(blitz::Array<typename parent_t::real_t, 2> a) { return gp->binfmt(a.transpose(blitz::secondDim, blitz::firstDim)) + " scan=yx "; }
 
+      // what is to be plotted (with adaptive time steps: interpolated to the time of the record), without halos
+      typename parent_t::arr_t plot_data(const int var)
+      {
+        auto arr = this->mem->advectee(var);
+        if (this->var_dt) arr.reference(this->out_data(var)(arr.domain()).reindex(arr.lbound()));
+        return arr;
+      }
+
       void record(const int var)
       {
         if (parent_t::n_dims == 1) // known at compile time
@@ -170,13 +178,14 @@ namespace libmpdataxx
           if (p.gnuplot_command == "splot")
           {
             // emulating histeps
+            const auto data = plot_data(var);
             decltype(this->mem->advectee(var))
               tmp(2 * this->mem->grid_size[0].length());
             for (int i = 0; i < tmp.extent(0); ++i)
-              tmp(i) = this->mem->advectee(var)(this->mem->grid_size[0].first() + i/2);
+              tmp(i) = data(this->mem->grid_size[0].first() + i/2);
             gp->send(tmp);
           }
-          else gp->send(this->mem->advectee(var).reindex({0}));
+          else gp->send(plot_data(var).reindex({0}));
         }
 
         if (parent_t::n_dims == 2) // known at compile time
@@ -202,7 +211,7 @@ namespace libmpdataxx
             // ox = oy = 0;  // new: x =   i    * dx
             ox = this->mem->grid_size[0].first();
             oy = 0;
-            auto data = this->mem->advectee(var).copy();
+            auto data = plot_data(var).copy();
             data.reindexSelf({0,0});
             if (imagebg)
             {
-- 
2.43.0


From 29e09736c84a7fd7735d33077ca598dc5d9d152e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:29 +0000
Subject: [PATCH 38/38] fix: progress monitor wrote beyond the thread name
 (adaptive steps, steps beyond the requested time)

---
 libmpdata++/solvers/detail/monitor.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libmpdata++/solvers/detail/monitor.hpp b/libmpdata++/solvers/detail/monitor.hpp
index 0f33a70..bd3b638 100644
--- a/libmpdata++/solvers/detail/monitor.hpp
+++ b/libmpdata++/solvers/detail/monitor.hpp
@@ -28,10 +28,12 @@ namespace libmpdataxx
         static int len = strlen(name);
         // ...     1  0  0  % \0
         // ... 10 11 12 13 14 15
-        sprintf(
-          &name[std::min(len, 10)], // taking care of short thread-names
+        const int pos = std::min(len, 10); // taking care of short thread-names
+        snprintf(
+          &name[pos],
+          sizeof(name) - pos,
           " %3d%%",
-          int(frac * 100)
+          frac < 1 ? int(frac * 100) : 100 // (steps beyond the requested time, also if it is zero)
         );
 #if defined(__linux__)
         prctl(PR_SET_NAME, name, 0, 0, 0);
-- 
2.43.0


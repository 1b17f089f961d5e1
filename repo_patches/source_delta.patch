From 88aa690f5581496ec01290d978b97638cda20323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:17 +0000
Subject: [PATCH 01/58] fix: do not write past prev_K_ when a hierarchy has
 more than seven ranks

cur_rank_ counts every solved rank, prev_K_ has room for num_max_ranks_ of
them; hierarchies with more ranks and nullspace left wrote past the array.
---
 solver/include/solver/rt_optimizer/RtHQPSolver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/include/solver/rt_optimizer/RtHQPSolver.h b/solver/include/solver/rt_optimizer/RtHQPSolver.h
index 79fc283..3c7fb16 100644
--- a/solver/include/solver/rt_optimizer/RtHQPSolver.h
+++ b/solver/include/solver/rt_optimizer/RtHQPSolver.h
@@ -63,7 +63,7 @@ namespace rt_solver {
       if(B_Nprev_.rows() != 0) {
         svd_B_Nprev_.compute(B_Nprev_, Eigen::ComputeFullV);
         RtMatrixUtils::computeNullspaceMap(B_Nprev_, K_, svd_B_Nprev_, eq_condition_threash_);
-        prev_K_[cur_rank_] = K_;
+        if (cur_rank_ < num_max_ranks_) { prev_K_[cur_rank_] = K_; }
       }
       cur_rank_++;
 
-- 
2.43.0


From f055753c41e76861b9af5986b430b29ed915c119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:17 +0000
Subject: [PATCH 02/58] fix: remove data races between the hierarchical solver
 and its svd thread

The svd thread read stop_svd2problem_converter_ without the mutex in its
outer loop, and initialize() changed is_svd_computed_ and prev_K_ before the
previous svd thread was stopped.  The flag is checked under the mutex right
after it is locked, and the old thread is now stopped first.
---
 solver/include/solver/rt_optimizer/RtHQPSolver.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/include/solver/rt_optimizer/RtHQPSolver.h b/solver/include/solver/rt_optimizer/RtHQPSolver.h
index 3c7fb16..da71930 100644
--- a/solver/include/solver/rt_optimizer/RtHQPSolver.h
+++ b/solver/include/solver/rt_optimizer/RtHQPSolver.h
@@ -38,13 +38,13 @@ namespace rt_solver {
   template<int All_A_Rows, int Max_Num_Vars, int Max_B_Rows>
   void RtHQPSolver<All_A_Rows, Max_Num_Vars, Max_B_Rows>::initialize()
   {
+    stopSVD2ProblemConverter();
     is_svd_computed_ = true;
     apply_ineq_slacks_ = true;
 
     for (int rank_id=0; rank_id<num_max_ranks_; rank_id++)
       RtMatrixUtils::resize(prev_K_[rank_id], Max_Num_Vars, 0);
 
-    stopSVD2ProblemConverter();
     stop_svd2problem_converter_ = false;
     svd2problem_converter_thread_.reset(new boost::thread(boost::bind( &RtHQPSolver<
       All_A_Rows, Max_Num_Vars, Max_B_Rows>::doSVDComputations, this )) );
@@ -54,7 +54,7 @@ namespace rt_solver {
   template<int All_A_Rows, int Max_Num_Vars, int Max_B_Rows>
   void RtHQPSolver<All_A_Rows, Max_Num_Vars, Max_B_Rows>::doSVDComputations()
   {
-    while (!stop_svd2problem_converter_) {
+    while (true) {
       // wait until svd is required
       mutex_.lock();
       while (!stop_svd2problem_converter_ && is_svd_computed_) { problem2svd_converter_.wait(mutex_); }
-- 
2.43.0


From bf1cfd65bfbb73a70128eb32ea7e16e389fc947d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:17 +0000
Subject: [PATCH 03/58] fix: keep violations of higher priority inequalities
 from growing

The slack of the previous task was added after the bounds had been clamped to
the relaxation, which let lower priority tasks violate an inequality by up to
twice its optimal violation, and it was added again for every later task that
had no inequalities of its own.  It is now added once, before clamping.
---
 solver/include/solver/rt_optimizer/RtHQPSolver.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/solver/include/solver/rt_optimizer/RtHQPSolver.h b/solver/include/solver/rt_optimizer/RtHQPSolver.h
index da71930..12ca535 100644
--- a/solver/include/solver/rt_optimizer/RtHQPSolver.h
+++ b/solver/include/solver/rt_optimizer/RtHQPSolver.h
@@ -144,12 +144,13 @@ namespace rt_solver {
         if (Ahat_.cols() != zopt_.rows()) { assert(Ahat_.cols() == zopt_.rows()); }
       #endif
       ahat_ += Ahat_ * zopt_;
+      if (wopt_.rows() != 0) //previous task had inequality constraints
+        ahat_.bottomRows(wopt_.rows()) += wopt_;
+      RtVectorUtils::resize(wopt_, 0);
+
       for (int id=0; id<ahat_.size(); id++)
         if(ahat_[id] >= -inequality_relaxation_)
           ahat_[id] = -inequality_relaxation_;
-
-      if (wopt_.rows() != 0) //previous task had inequality constraints
-        ahat_.bottomRows(wopt_.rows()) += wopt_;
     }
 
     /*
-- 
2.43.0


From 0ea14f2b5b424ddb45106261e589ec355fbdbe16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:17 +0000
Subject: [PATCH 04/58] fix: do not take rounding noise for a full rank task in
 computeNullspaceMap

A task whose rows are all in the span of higher priority tasks leaves a
projected matrix of rounding noise; compared only with its own largest
singular value the noise had full rank and took away degrees of freedom from
all lower priority tasks.
---
 solver/include/solver/rt_optimizer/RtMatrix.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/solver/include/solver/rt_optimizer/RtMatrix.hpp b/solver/include/solver/rt_optimizer/RtMatrix.hpp
index 44f5f07..31c958e 100644
--- a/solver/include/solver/rt_optimizer/RtMatrix.hpp
+++ b/solver/include/solver/rt_optimizer/RtMatrix.hpp
@@ -292,9 +292,11 @@ namespace rt_solver {
   {
     int dim_range = 0;
 
+    // rows with a norm below this value count as zero rows (see RtAffineUtils::removeZeroRows)
+    const double zero_sv = 1.e-12;
     const double first_sv = mat_svd.singularValues()[0];
     for(dim_range=0; dim_range<mat_svd.singularValues().size(); ++dim_range)
-      if (mat_svd.singularValues()[dim_range] <= 0.0 || first_sv / mat_svd.singularValues()[dim_range] > mat_cond_threas)
+      if (mat_svd.singularValues()[dim_range] <= zero_sv || first_sv / mat_svd.singularValues()[dim_range] > mat_cond_threas)
         break;
 
     const int dim_null = mat.cols() - dim_range;
-- 
2.43.0


From 256ed1e9e79b6236a72403da255af27b4663b652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:32 +0000
Subject: [PATCH 05/58] fix: report a failed allocation of the past values in
 lbfgs

---
 solver/src/solver/optimizer/LbfgsSolver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/solver/src/solver/optimizer/LbfgsSolver.cpp b/solver/src/solver/optimizer/LbfgsSolver.cpp
index 925cc4a..3162e10 100644
--- a/solver/src/solver/optimizer/LbfgsSolver.cpp
+++ b/solver/src/solver/optimizer/LbfgsSolver.cpp
@@ -298,6 +298,10 @@ namespace solver {
     /* Allocate an array for storing previous values of the objective function. */
     if (0 < param.past) {
       pf = (double*)vecalloc(param.past * sizeof(double));
+      if (pf == NULL) {
+        ret = LBFGSERR_OUTOFMEMORY;
+        goto lbfgs_exit;
+      }
     }
 
     /* Evaluate the function value and its gradient. */
-- 
2.43.0


From ffc308116c6dfe241419cd8bef47aeb290ebe339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:32 +0000
Subject: [PATCH 06/58] fix: return the value of the returned point when an
 lbfgs line search fails

---
 solver/src/solver/optimizer/LbfgsSolver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/solver/src/solver/optimizer/LbfgsSolver.cpp b/solver/src/solver/optimizer/LbfgsSolver.cpp
index 3162e10..a049bec 100644
--- a/solver/src/solver/optimizer/LbfgsSolver.cpp
+++ b/solver/src/solver/optimizer/LbfgsSolver.cpp
@@ -203,7 +203,7 @@ namespace solver {
     iteration_data_t *lm = NULL, *it = NULL;
     double ys, yy;
     double xnorm, gnorm, beta;
-    double fx = 0.;
+    double fx = 0., fxp = 0.;
     double rate = 0.;
     line_search_proc linesearch = line_search_morethuente;
 
@@ -339,6 +339,7 @@ namespace solver {
       /* Store the current position and gradient vectors. */
       veccpy(xp, x, n);
       veccpy(gp, g, n);
+      fxp = fx;
 
       /* Search for an optimal step. */
       ls = linesearch(n, x, &fx, g, d, &step, xp, gp, w, &cd, &param);
@@ -346,6 +347,7 @@ namespace solver {
         /* Revert to the previous point. */
         veccpy(x, xp, n);
         veccpy(g, gp, n);
+        fx = fxp;
         ret = ls;
         goto lbfgs_exit;
       }
-- 
2.43.0


From 42559dcc7a70adc909189304a246bcadb18c24a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:32 +0000
Subject: [PATCH 07/58] fix: never accept a non-finite value in the lbfgs line
 searches

---
 solver/src/solver/optimizer/LbfgsSolver.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/solver/src/solver/optimizer/LbfgsSolver.cpp b/solver/src/solver/optimizer/LbfgsSolver.cpp
index a049bec..5c02ca3 100644
--- a/solver/src/solver/optimizer/LbfgsSolver.cpp
+++ b/solver/src/solver/optimizer/LbfgsSolver.cpp
@@ -64,6 +64,7 @@ distributing the effieicnt and explanatory implementation in an open source
 licence.
 */
 
+#include <cmath>
 #include <math.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -501,7 +502,7 @@ namespace solver {
     const double dec = 0.5, inc = 2.1;
 
     /* Check the input parameters for errors. */
-    if (*stp <= 0.) {
+    if (!(*stp > 0.)) {
       return LBFGSERR_INVALIDPARAMETERS;
     }
 
@@ -509,7 +510,7 @@ namespace solver {
     vecdot(&dginit, g, s, n);
 
     /* Make sure that s points to a descent direction. */
-    if (0 < dginit) {
+    if (!(dginit <= 0)) {
       return LBFGSERR_INCREASEGRADIENT;
     }
 
@@ -526,7 +527,7 @@ namespace solver {
 
       ++count;
 
-      if (*f > finit + *stp * dgtest) {
+      if (!std::isfinite(*f) || *f > finit + *stp * dgtest) {
         width = dec;
       } else {
         /* The sufficient decrease condition (Armijo condition). */
@@ -586,7 +587,7 @@ namespace solver {
     double stmin, stmax;
 
     /* Check the input parameters for errors. */
-    if (*stp <= 0.) {
+    if (!(*stp > 0.)) {
       return LBFGSERR_INVALIDPARAMETERS;
     }
 
@@ -594,7 +595,7 @@ namespace solver {
     vecdot(&dginit, g, s, n);
 
     /* Make sure that s points to a descent direction. */
-    if (0 < dginit) {
+    if (!(dginit <= 0)) {
       return LBFGSERR_INCREASEGRADIENT;
     }
 
@@ -681,7 +682,7 @@ namespace solver {
         /* Maximum number of iteration. */
         return LBFGSERR_MAXIMUMLINESEARCH;
       }
-      if (*f <= ftest1 && fabs(dg) <= param->gtol * (-dginit)) {
+      if (std::isfinite(*f) && *f <= ftest1 && fabs(dg) <= param->gtol * (-dginit)) {
         /* The sufficient decrease condition and the directional derivative condition hold. */
         return count;
       }
-- 
2.43.0


From 9b4ef4fe82e12170909b445d60458ed8f5b3c1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:59 +0000
Subject: [PATCH 08/58] fix: release lbfgs memory when a callback throws and
 when the solver object is destroyed

---
 .../include/solver/optimizer/LbfgsSolver.hpp  |  4 +-
 solver/src/solver/optimizer/LbfgsSolver.cpp   | 57 +++++++++++--------
 2 files changed, 37 insertions(+), 24 deletions(-)

diff --git a/solver/include/solver/optimizer/LbfgsSolver.hpp b/solver/include/solver/optimizer/LbfgsSolver.hpp
index 98a3ac9..1b29d86 100644
--- a/solver/include/solver/optimizer/LbfgsSolver.hpp
+++ b/solver/include/solver/optimizer/LbfgsSolver.hpp
@@ -31,6 +31,7 @@
 
 #pragma once
 
+#include <vector>
 #include <iostream>
 #include <Eigen/Dense>
 #include <solver/interface/NlpDescription.hpp>
@@ -447,7 +448,8 @@ namespace solver {
       double constraints_weight_;
       bool verbose_, initialized_;
       lbfgs_parameter_t opt_params_;
-      int nvars_, ncons_, *user_info_, opt_status_, length_of_address_to_this_;
+      int nvars_, ncons_, opt_status_, length_of_address_to_this_;
+      std::vector<int> user_info_;
   };
 
 }
diff --git a/solver/src/solver/optimizer/LbfgsSolver.cpp b/solver/src/solver/optimizer/LbfgsSolver.cpp
index 5c02ca3..8bca114 100644
--- a/solver/src/solver/optimizer/LbfgsSolver.cpp
+++ b/solver/src/solver/optimizer/LbfgsSolver.cpp
@@ -158,6 +158,32 @@ namespace solver {
   };
   typedef struct tag_iteration_data iteration_data_t;
 
+  /* Working space of lbfgs(), also released when a callback throws. */
+  struct tag_workspace {
+    int m;
+    double *xp = NULL, *g = NULL, *gp = NULL, *d = NULL, *w = NULL, *pf = NULL;
+    iteration_data_t *lm = NULL;
+
+    explicit tag_workspace(int m_) : m(m_) {}
+    ~tag_workspace()
+    {
+      vecfree(pf);
+      if (lm != NULL) {
+        for (int i = 0;i < m;++i) {
+          vecfree(lm[i].s);
+          vecfree(lm[i].y);
+        }
+        vecfree(lm);
+      }
+      vecfree(w);
+      vecfree(d);
+      vecfree(gp);
+      vecfree(g);
+      vecfree(xp);
+    }
+  };
+  typedef struct tag_workspace workspace_t;
+
   static const lbfgs_parameter_t _defparam = {
     6, 1e-5, 0, 1e-5,
     0, LBFGS_LINESEARCH_DEFAULT, 40,
@@ -198,10 +224,11 @@ namespace solver {
     lbfgs_parameter_t param = (_param != NULL) ? (*_param) : _defparam;
     const int m = param.m;
 
-    double *xp = NULL;
-    double *g = NULL, *gp = NULL;
-    double *d = NULL, *w = NULL, *pf = NULL;
-    iteration_data_t *lm = NULL, *it = NULL;
+    workspace_t ws(m);
+    double *&xp = ws.xp;
+    double *&g = ws.g, *&gp = ws.gp;
+    double *&d = ws.d, *&w = ws.w, *&pf = ws.pf;
+    iteration_data_t *&lm = ws.lm, *it = NULL;
     double ys, yy;
     double xnorm, gnorm, beta;
     double fx = 0., fxp = 0.;
@@ -474,22 +501,6 @@ namespace solver {
       *ptr_fx = fx;
     }
 
-    vecfree(pf);
-
-    /* Free memory blocks used by this function. */
-    if (lm != NULL) {
-      for (i = 0;i < m;++i) {
-        vecfree(lm[i].s);
-        vecfree(lm[i].y);
-      }
-      vecfree(lm);
-    }
-    vecfree(w);
-    vecfree(d);
-    vecfree(gp);
-    vecfree(g);
-    vecfree(xp);
-
     return ret;
   }
 
@@ -1028,9 +1039,9 @@ namespace solver {
   LbfgsSolver::LbfgsSolver() : constraints_weight_(1.), verbose_(false), initialized_(false)
   {
     length_of_address_to_this_ = std::ceil(double(sizeof(LbfgsSolver*))/sizeof(int));
-    user_info_ = new int[length_of_address_to_this_ + 10];
+    user_info_.resize(length_of_address_to_this_ + 10);
 
-    LbfgsSolver** location_of_adress = new(user_info_) LbfgsSolver*;
+    LbfgsSolver** location_of_adress = new(user_info_.data()) LbfgsSolver*;
     *location_of_adress = this;
   }
 
@@ -1053,7 +1064,7 @@ namespace solver {
 	{
 	  nlproblem_->getStartingPoint(nvars_, nlproblem_->optimalVector().data());
       opt_status_ = lbfgs(nvars_, nlproblem_->optimalVector().data(), &nlproblem_->optimalValue(),
-    		              LbfgsSolver::delegate_evaluate, LbfgsSolver::delegate_progress, user_info_, &opt_params_);
+    		              LbfgsSolver::delegate_evaluate, LbfgsSolver::delegate_progress, user_info_.data(), &opt_params_);
 	}
   }
 
-- 
2.43.0


From d764b7fb432ed2babf5e9950d4a31b1575da2f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 09/58] fix: refuse a non-positive lbfgs history length

---
 solver/src/solver/optimizer/LbfgsSolver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/solver/src/solver/optimizer/LbfgsSolver.cpp b/solver/src/solver/optimizer/LbfgsSolver.cpp
index 8bca114..f32fe1a 100644
--- a/solver/src/solver/optimizer/LbfgsSolver.cpp
+++ b/solver/src/solver/optimizer/LbfgsSolver.cpp
@@ -246,6 +246,9 @@ namespace solver {
     if (n <= 0) {
       return LBFGSERR_INVALID_N;
     }
+    if (m <= 0) {
+      return LBFGSERR_INVALIDPARAMETERS;
+    }
     if (param.epsilon < 0.) {
       return LBFGSERR_INVALID_EPSILON;
     }
-- 
2.43.0


From 1d108784a5a0acfcec090f2d0eaec0f11dd47d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:30 +0000
Subject: [PATCH 10/58] Revert "fix: return the value of the returned point
 when an lbfgs line search fails"

This reverts commit ffc308116c6dfe241419cd8bef47aeb290ebe339.
---
 solver/src/solver/optimizer/LbfgsSolver.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/solver/src/solver/optimizer/LbfgsSolver.cpp b/solver/src/solver/optimizer/LbfgsSolver.cpp
index f32fe1a..356be70 100644
--- a/solver/src/solver/optimizer/LbfgsSolver.cpp
+++ b/solver/src/solver/optimizer/LbfgsSolver.cpp
@@ -231,7 +231,7 @@ namespace solver {
     iteration_data_t *&lm = ws.lm, *it = NULL;
     double ys, yy;
     double xnorm, gnorm, beta;
-    double fx = 0., fxp = 0.;
+    double fx = 0.;
     double rate = 0.;
     line_search_proc linesearch = line_search_morethuente;
 
@@ -370,7 +370,6 @@ namespace solver {
       /* Store the current position and gradient vectors. */
       veccpy(xp, x, n);
       veccpy(gp, g, n);
-      fxp = fx;
 
       /* Search for an optimal step. */
       ls = linesearch(n, x, &fx, g, d, &step, xp, gp, w, &cd, &param);
@@ -378,7 +377,6 @@ namespace solver {
         /* Revert to the previous point. */
         veccpy(x, xp, n);
         veccpy(g, gp, n);
-        fx = fxp;
         ret = ls;
         goto lbfgs_exit;
       }
-- 
2.43.0


From 12298e5e1d278520ccf7b0d58722b50a74be64aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:53 +0000
Subject: [PATCH 11/58] fix: forget the auxiliary variables of the previous
 objective when a new one is set

---
 solver/src/solver/interface/ConicProblem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solver/src/solver/interface/ConicProblem.cpp b/solver/src/solver/interface/ConicProblem.cpp
index 9919f92..64c01c2 100644
--- a/solver/src/solver/interface/ConicProblem.cpp
+++ b/solver/src/solver/interface/ConicProblem.cpp
@@ -93,6 +93,7 @@ namespace solver {
     objective_.qexpr() = qexpr.qexpr();
     objective_.coeffs() = qexpr.coeffs();
     objective_.lexpr() = qexpr.lexpr() + lexpr;
+    objective_.extraVars().clear();
     for (int i=0; i<(int)qexpr.coeffs().size(); i++)
       objective_.extraVars().push_back(this->addVar(VarType::Continuous, 0.0, 1.0, 0.5));
   }
-- 
2.43.0


From 3213f58e90c7f569f8a58067c0edb4e2ae1b8b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:53 +0000
Subject: [PATCH 12/58] fix: keep the constant of a linear constraint that
 contains no variable

---
 solver/src/solver/interface/ConicProblem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/src/solver/interface/ConicProblem.cpp b/solver/src/solver/interface/ConicProblem.cpp
index 64c01c2..7d4e378 100644
--- a/solver/src/solver/interface/ConicProblem.cpp
+++ b/solver/src/solver/interface/ConicProblem.cpp
@@ -131,8 +131,8 @@ namespace solver {
     	    this->getStorage().addCoeff(Eigen::Triplet<double>(row_start+row_id,
 			                        leqcons_[row_id].getVar(var_id).get(SolverIntParam_ColNum),
 						            leqcons_[row_id].getCoeff(var_id)), true);
-	    this->getStorage().b()[row_start+row_id] = -leqcons_[row_id].getConstant();
 	  }
+      this->getStorage().b()[row_start+row_id] = -leqcons_[row_id].getConstant();
     }
 
     // Linear inequality constraints due to integer variables
@@ -150,8 +150,8 @@ namespace solver {
 		this->getStorage().addCoeff(Eigen::Triplet<double>(row_start+row_offset+row_id,
 			                        lineqcons_[row_id].getVar(var_id).get(SolverIntParam_ColNum),
 						            lineqcons_[row_id].getCoeff(var_id)));
-	    this->getStorage().h()[row_start+row_id] = -lineqcons_[row_id].getConstant();
 	  }
+      this->getStorage().h()[row_start+row_id] = -lineqcons_[row_id].getConstant();
     }
     row_start += lineqcons_.size();
 
-- 
2.43.0


From 80d70f51cb1780e33846c0026f9570c126f34a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:53 +0000
Subject: [PATCH 13/58] fix: line search of the conic solver reads no linear
 cone entry when there is none

---
 solver/src/solver/optimizer/IPSolver.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/solver/src/solver/optimizer/IPSolver.cpp b/solver/src/solver/optimizer/IPSolver.cpp
index 0ef1bb2..9b542fe 100644
--- a/solver/src/solver/optimizer/IPSolver.cpp
+++ b/solver/src/solver/optimizer/IPSolver.cpp
@@ -140,11 +140,10 @@ namespace solver {
     double conicres_lk, conicres_ds, conicres_dz, inv_conicres, factor1, factor2;
 
     // Linear cone
-    double rhomin = ds[0]/lambda[0];
-    double sigmamin = dz[0]/lambda[0];
-    for (int i=1; i<this->getCone().sizeLpc(); i++){
-      if (ds[i]/lambda[i]<rhomin) { rhomin = ds[i]/lambda[i]; }
-      if (dz[i]/lambda[i]<sigmamin) { sigmamin = dz[i]/lambda[i]; }
+    double rhomin = 0.0, sigmamin = 0.0;
+    for (int i=0; i<this->getCone().sizeLpc(); i++){
+      if (i==0 || ds[i]/lambda[i]<rhomin) { rhomin = ds[i]/lambda[i]; }
+      if (i==0 || dz[i]/lambda[i]<sigmamin) { sigmamin = dz[i]/lambda[i]; }
     }
     double alpha = std::min(sigmamin,rhomin)<0.0 ? -1.0/std::min(sigmamin,rhomin) : 1.0/this->getSetting().get(SolverDoubleParam_DynamicRegularizationThresh);
 
-- 
2.43.0


From 2a0a0995cb716387f66b49624fe9dcc3e8f2e9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:53 +0000
Subject: [PATCH 14/58] fix: measure infeasibility certificates relative to
 their own size

---
 solver/src/solver/optimizer/IPSolver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/src/solver/optimizer/IPSolver.cpp b/solver/src/solver/optimizer/IPSolver.cpp
index 9b542fe..9cb6de1 100644
--- a/solver/src/solver/optimizer/IPSolver.cpp
+++ b/solver/src/solver/optimizer/IPSolver.cpp
@@ -207,8 +207,8 @@ namespace solver {
     this->getInfo().get(SolverDoubleParam_DualResidual) = res_.x().norm()/std::max(inires_x_+opt_.y().norm()+opt_.z().norm(),1.0) / opt_.tau();
 
     // infeasibility measures
-    this->getInfo().get(SolverDoubleParam_PrimalInfeasibility) = (hz_ + by_)/std::max(opt_.y().norm()+opt_.z().norm(),1.0) < -this->getSetting().get(SolverDoubleParam_DualityGapRelTol) ? residual_x_ / std::max(opt_.y().norm()+opt_.z().norm(),1.0) : SolverSetting::nan;
-    this->getInfo().get(SolverDoubleParam_DualInfeasibility) = cx_/std::max(opt_.x().norm(),1.0) < -this->getSetting().get(SolverDoubleParam_DualityGapRelTol) ? std::max(residual_y_/std::max(opt_.x().norm(),1.0), residual_z_/std::max(opt_.x().norm()+opt_.s().norm(),1.0)) : SolverSetting::nan;
+    this->getInfo().get(SolverDoubleParam_PrimalInfeasibility) = (hz_ + by_)/(opt_.y().norm()+opt_.z().norm()) < -this->getSetting().get(SolverDoubleParam_DualityGapRelTol) ? residual_x_ / (opt_.y().norm()+opt_.z().norm()) : SolverSetting::nan;
+    this->getInfo().get(SolverDoubleParam_DualInfeasibility) = cx_/opt_.x().norm() < -this->getSetting().get(SolverDoubleParam_DualityGapRelTol) ? std::max(residual_y_/opt_.x().norm(), residual_z_/(opt_.x().norm()+opt_.s().norm())) : SolverSetting::nan;
   }
 
   ExitCode InteriorPointSolver::convergenceCheck(const PrecisionConvergence& mode)
-- 
2.43.0


From e968c61f1444b3690619fa057a05055340787fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:53 +0000
Subject: [PATCH 15/58] fix: branch and bound judges nodes by their true cost
 and only by solved relaxations

---
 solver/include/solver/optimizer/BnBSolver.hpp |  2 +-
 solver/src/solver/optimizer/BnBSolver.cpp     | 47 +++++++++++--------
 2 files changed, 28 insertions(+), 21 deletions(-)

diff --git a/solver/include/solver/optimizer/BnBSolver.hpp b/solver/include/solver/optimizer/BnBSolver.hpp
index addae39..e509a0f 100644
--- a/solver/include/solver/optimizer/BnBSolver.hpp
+++ b/solver/include/solver/optimizer/BnBSolver.hpp
@@ -56,7 +56,7 @@ namespace solver {
       OptimizationInfo optimization_info_;
       InteriorPointSolver* interior_point_solver_;
 
-      ExitCode opt_status_;
+      ExitCode opt_status_, sol_status_, leaf_status_;
       OptimizationVector opt_;
       std::vector<node> nodes_;
       Eigen::VectorXi binvars_ids_;
diff --git a/solver/src/solver/optimizer/BnBSolver.cpp b/solver/src/solver/optimizer/BnBSolver.cpp
index 9080245..7f2691a 100644
--- a/solver/src/solver/optimizer/BnBSolver.cpp
+++ b/solver/src/solver/optimizer/BnBSolver.cpp
@@ -94,6 +94,7 @@ namespace solver {
   //! Stores the solution of the node with best statistics so far
   void BnBSolver::storeSolution()
   {
+    sol_status_ = opt_status_;
     this->getInfo() = this->getSolver().getInfo();
     opt_ = this->getSolver().optimalVector();
   }
@@ -111,22 +112,19 @@ namespace solver {
     this->updateProblemData(binvars_mat_id_.col(node_id));
     opt_status_ = this->getSolver().optimize();
 
-    if (opt_status_ == ExitCode::Optimal || opt_status_ == ExitCode::OptimalInacc ||
-        opt_status_ == ExitCode::DualInf || opt_status_ == ExitCode::DualInfInacc ||
-        opt_status_ == ExitCode::PrimalInf || opt_status_ == ExitCode::PrimalInfInacc ||
-        opt_status_ == ExitCode::ReachMaxIters)
+    if (opt_status_ == ExitCode::Optimal || opt_status_ == ExitCode::OptimalInacc)
     {
-      nodes_[node_id].lower_bound_ = this->getSolver().getStorage().c().dot(this->getSolver().optimalVector().x());
+      nodes_[node_id].lower_bound_ = this->getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
 
       bool is_integer_sol = true;
       for (int var_id=0; var_id<nbin_vars_; var_id++) {
-        binvars_vec_id_[var_id] = std::round( this->getSolver().optimalVector().x()[binvars_ids_[var_id]] );
+        binvars_vec_id_[var_id] = std::max(0.0, std::min(1.0, std::round( this->getSolver().optimalVector().x()[binvars_ids_[var_id]] )));
         is_integer_sol &= std::abs(this->getSolver().optimalVector().x()[binvars_ids_[var_id]] - binvars_vec_id_[var_id]) < this->getSolver().getSetting().get(SolverDoubleParam_BnBIntegerTol);
       }
 
       if (is_integer_sol) {
         nodes_[node_id].status_ = Status::SolvedNonBranchable;
-        nodes_[node_id].upper_bound_ = this->getSolver().getStorage().c().dot(this->getSolver().optimalVector().x());
+        nodes_[node_id].upper_bound_ = this->getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
       } else {
         this->selectPartitionVariable(nodes_[node_id].partition_id_, nodes_[node_id].partition_val_);
         nodes_[node_id].status_ = Status::SolvedBranchable;
@@ -135,7 +133,7 @@ namespace solver {
         opt_status_ = this->getSolver().optimize();
 
         if (opt_status_ == ExitCode::Optimal || opt_status_ == ExitCode::OptimalInacc){
-          nodes_[node_id].upper_bound_ = this->getSolver().getStorage().c().dot(this->getSolver().optimalVector().x());
+          nodes_[node_id].upper_bound_ = this->getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
           is_viable_sol = true;
         }
       }
@@ -147,36 +145,44 @@ namespace solver {
 
       if (is_viable_sol) { nodes_[node_id].upper_bound_ = SolverSetting::inf; }
     }
-    else
+    else if (opt_status_ == ExitCode::PrimalInf)
     {
       nodes_[node_id].lower_bound_ = SolverSetting::inf;
       nodes_[node_id].upper_bound_ = SolverSetting::inf;
       nodes_[node_id].status_ = Status::SolvedNonBranchable;
     }
+    else
+    {
+      // relaxation not solved: keep the lower bound of the parent node and explore below it
+      nodes_[node_id].upper_bound_ = SolverSetting::inf;
+      nodes_[node_id].status_ = Status::SolvedNonBranchable;
+      for (int var_id=0; var_id<nbin_vars_; var_id++)
+        if (binvars_mat_id_(var_id, node_id) == static_cast<int>(Decision::Undefined)) {
+          nodes_[node_id].partition_id_ = var_id;
+          nodes_[node_id].status_ = Status::SolvedBranchable;
+        }
+      if (nodes_[node_id].status_ == Status::SolvedNonBranchable) { leaf_status_ = opt_status_; }
+    }
   }
 
   //! Convergence check in BnB routine search
   int BnBSolver::optimilityCheck(int node_id)
   {
     return (prob_upper_bound_ - prob_lower_bound_) > this->getSolver().getSetting().get(SolverDoubleParam_BnBAbsSubOptGap) &&
-            std::abs(prob_upper_bound_ / prob_lower_bound_ - 1.0) > this->getSolver().getSetting().get(SolverDoubleParam_BnBRelSubOptGap) &&
+            !(std::abs(prob_upper_bound_ / prob_lower_bound_ - 1.0) <= this->getSolver().getSetting().get(SolverDoubleParam_BnBRelSubOptGap)) &&
             node_id >= 0 && iteration_ < (this->getSolver().getSetting().get(SolverIntParam_BnBMaxIters)-1);
   }
 
   //! Generate an exit condition for the problem, either full or reduced precision
   ExitCode BnBSolver::exitcode()
   {
-    if ( iteration_ < this->getSolver().getSetting().get(SolverIntParam_BnBMaxIters)-1 ) {
-      if ( std::isinf(prob_upper_bound_) ) {
-        if ( prob_upper_bound_ >= 0) { return ExitCode::PrimalInf; }
-        else { return ExitCode::DualInf; }
-      } else return ExitCode::Optimal;
-    } else {
-      if ( std::isinf(prob_upper_bound_) ) {
-        if ( prob_upper_bound_ >= 0) { return ExitCode::PrimalInfInacc; }
-        else { return ExitCode::DualInfInacc; }
-      } else return ExitCode::OptimalInacc;
+    bool is_complete = iteration_ < this->getSolver().getSetting().get(SolverIntParam_BnBMaxIters)-1;
+    if ( std::isinf(prob_upper_bound_) ) {
+      if ( leaf_status_ != ExitCode::Optimal ) { return leaf_status_; }
+      return is_complete ? ExitCode::PrimalInf : ExitCode::ReachMaxIters;
     }
+    if ( leaf_status_ == ExitCode::DualInf || leaf_status_ == ExitCode::DualInfInacc ) { return leaf_status_; }
+    return is_complete && leaf_status_ == ExitCode::Optimal ? sol_status_ : ExitCode::OptimalInacc;
   }
 
   //! Initialize the root node of BnB solver
@@ -196,6 +202,7 @@ namespace solver {
   ExitCode BnBSolver::optimize()
   {
     iteration_ = 0, node_id_ = 0;
+    leaf_status_ = ExitCode::Optimal;
     initializeRootNode();
     updateNodeBounds(node_id_);
     prob_lower_bound_ = nodes_[node_id_].lower_bound_;
-- 
2.43.0


From d6888ebbdd8e269acaac705694b4f219fed8a1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:53 +0000
Subject: [PATCH 16/58] fix: non-convex branch and bound treats unsolved
 relaxations and missing solutions as such

---
 .../solver/optimizer/NcvxBnBSolver.hpp        |  2 +-
 solver/src/solver/optimizer/NcvxBnBSolver.cpp | 54 +++++++++++--------
 2 files changed, 34 insertions(+), 22 deletions(-)

diff --git a/solver/include/solver/optimizer/NcvxBnBSolver.hpp b/solver/include/solver/optimizer/NcvxBnBSolver.hpp
index cea04cd..e87c50e 100644
--- a/solver/include/solver/optimizer/NcvxBnBSolver.hpp
+++ b/solver/include/solver/optimizer/NcvxBnBSolver.hpp
@@ -45,7 +45,7 @@ namespace solver {
       ConicProblem* conic_problem_;
       OptimizationInfo optimization_info_;
 
-      ExitCode opt_status_;
+      ExitCode opt_status_, sol_status_, leaf_status_;
       OptimizationVector opt_;
       std::vector<node> nodes_;
       Eigen::VectorXi binvars_ids_;
diff --git a/solver/src/solver/optimizer/NcvxBnBSolver.cpp b/solver/src/solver/optimizer/NcvxBnBSolver.cpp
index df1ecfa..3c4cf86 100644
--- a/solver/src/solver/optimizer/NcvxBnBSolver.cpp
+++ b/solver/src/solver/optimizer/NcvxBnBSolver.cpp
@@ -91,6 +91,7 @@ namespace solver {
   //! Stores the solution of the node with best statistics so far
   void NcvxBnBSolver::storeSolution()
   {
+    sol_status_ = opt_status_;
     this->getInfo() = this->getProblem().getSolver().getInfo();
     opt_ = this->getProblem().getSolver().optimalVector();
   }
@@ -98,6 +99,12 @@ namespace solver {
   //! Loads back the solution of the node with best statistics
   void NcvxBnBSolver::loadSolution()
   {
+    //! No solution has been found: return a zero vector of the size of the problem
+    if ( std::isinf(prob_upper_bound_) ) {
+      opt_.initialize(this->getProblem().getCone());
+      this->getProblem().getSolver().optimalVector() = opt_;
+      return;
+    }
     this->getProblem().getSolver().getInfo() = this->getInfo();
     this->getProblem().getSolver().optimalVector() = opt_;
   }
@@ -108,22 +115,19 @@ namespace solver {
     this->updateProblemData(binvars_mat_id_.col(node_id));
     opt_status_ = this->getProblem().optimize();
 
-    if (opt_status_ == ExitCode::Optimal || opt_status_ == ExitCode::OptimalInacc ||
-        opt_status_ == ExitCode::DualInf || opt_status_ == ExitCode::DualInfInacc ||
-        opt_status_ == ExitCode::PrimalInf || opt_status_ == ExitCode::PrimalInfInacc ||
-        opt_status_ == ExitCode::ReachMaxIters)
+    if (opt_status_ == ExitCode::Optimal || opt_status_ == ExitCode::OptimalInacc)
     {
-      nodes_[node_id].lower_bound_ = this->getProblem().getStorage().c().dot(this->getProblem().getSolver().optimalVector().x());
+      nodes_[node_id].lower_bound_ = this->getProblem().getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
 
       bool is_integer_sol = true;
       for (int var_id=0; var_id<nbin_vars_; var_id++) {
-        binvars_vec_id_[var_id] = std::round( this->getProblem().getSolver().optimalVector().x()[binvars_ids_[var_id]] );
+        binvars_vec_id_[var_id] = std::max(0.0, std::min(1.0, std::round( this->getProblem().getSolver().optimalVector().x()[binvars_ids_[var_id]] )));
         is_integer_sol &= std::abs(this->getProblem().getSolver().optimalVector().x()[binvars_ids_[var_id]] - binvars_vec_id_[var_id]) < this->getProblem().getSetting().get(SolverDoubleParam_BnBIntegerTol);
       }
 
       if (is_integer_sol) {
         nodes_[node_id].status_ = Status::SolvedNonBranchable;
-        nodes_[node_id].upper_bound_ = this->getProblem().getStorage().c().dot(this->getProblem().getSolver().optimalVector().x());
+        nodes_[node_id].upper_bound_ = this->getProblem().getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
       } else {
         this->selectPartitionVariable(nodes_[node_id].partition_id_, nodes_[node_id].partition_val_);
         nodes_[node_id].status_ = Status::SolvedBranchable;
@@ -132,7 +136,7 @@ namespace solver {
         opt_status_ = this->getProblem().optimize();
 
         if (opt_status_ == ExitCode::Optimal || opt_status_ == ExitCode::OptimalInacc){
-          nodes_[node_id].upper_bound_ = this->getProblem().getStorage().c().dot(this->getProblem().getSolver().optimalVector().x());
+          nodes_[node_id].upper_bound_ = this->getProblem().getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
           is_viable_sol = true;
         }
       }
@@ -144,36 +148,44 @@ namespace solver {
 
       if (is_viable_sol) { nodes_[node_id].upper_bound_ = SolverSetting::inf; }
     }
-    else
+    else if (opt_status_ == ExitCode::PrimalInf)
     {
       nodes_[node_id].lower_bound_ = SolverSetting::inf;
       nodes_[node_id].upper_bound_ = SolverSetting::inf;
       nodes_[node_id].status_ = Status::SolvedNonBranchable;
     }
+    else
+    {
+      // relaxation not solved: keep the lower bound of the parent node and explore below it
+      nodes_[node_id].upper_bound_ = SolverSetting::inf;
+      nodes_[node_id].status_ = Status::SolvedNonBranchable;
+      for (int var_id=0; var_id<nbin_vars_; var_id++)
+        if (binvars_mat_id_(var_id, node_id) == static_cast<int>(Decision::Undefined)) {
+          nodes_[node_id].partition_id_ = var_id;
+          nodes_[node_id].status_ = Status::SolvedBranchable;
+        }
+      if (nodes_[node_id].status_ == Status::SolvedNonBranchable) { leaf_status_ = opt_status_; }
+    }
   }
 
   //! Convergence check in BnB routine search
   int NcvxBnBSolver::optimilityCheck(int node_id)
   {
     return (prob_upper_bound_ - prob_lower_bound_) > this->getProblem().getSetting().get(SolverDoubleParam_BnBAbsSubOptGap) &&
-            std::abs(prob_upper_bound_ / prob_lower_bound_ - 1.0) > this->getProblem().getSetting().get(SolverDoubleParam_BnBRelSubOptGap) &&
+            !(std::abs(prob_upper_bound_ / prob_lower_bound_ - 1.0) <= this->getProblem().getSetting().get(SolverDoubleParam_BnBRelSubOptGap)) &&
             node_id >= 0 && iteration_ < (this->getProblem().getSetting().get(SolverIntParam_BnBMaxIters)-1);
   }
 
   //! Generate an exit condition for the problem, either full or reduced precision
   ExitCode NcvxBnBSolver::exitcode()
   {
-    if ( iteration_ < this->getProblem().getSetting().get(SolverIntParam_BnBMaxIters)-1 ) {
-      if ( std::isinf(prob_upper_bound_) ) {
-        if ( prob_upper_bound_ >= 0) { return ExitCode::PrimalInf; }
-        else { return ExitCode::DualInf; }
-      } else return ExitCode::Optimal;
-    } else {
-      if ( std::isinf(prob_upper_bound_) ) {
-        if ( prob_upper_bound_ >= 0) { return ExitCode::PrimalInfInacc; }
-        else { return ExitCode::DualInfInacc; }
-      } else return ExitCode::OptimalInacc;
+    bool is_complete = iteration_ < this->getProblem().getSetting().get(SolverIntParam_BnBMaxIters)-1;
+    if ( std::isinf(prob_upper_bound_) ) {
+      if ( leaf_status_ != ExitCode::Optimal ) { return leaf_status_; }
+      return is_complete ? ExitCode::PrimalInf : ExitCode::ReachMaxIters;
     }
+    if ( leaf_status_ == ExitCode::DualInf || leaf_status_ == ExitCode::DualInfInacc ) { return leaf_status_; }
+    return is_complete && leaf_status_ == ExitCode::Optimal ? sol_status_ : ExitCode::OptimalInacc;
   }
 
   //! Initialize the root node of BnB solver
@@ -193,6 +205,7 @@ namespace solver {
   ExitCode NcvxBnBSolver::optimize()
   {
     iteration_ = 0, node_id_ = 0;
+    leaf_status_ = ExitCode::Optimal;
     initializeRootNode();
     updateNodeBounds(node_id_);
     prob_lower_bound_ = nodes_[node_id_].lower_bound_;
@@ -223,7 +236,6 @@ namespace solver {
     conic_problem_ = &conic_problem;
 
     nbin_vars_ = this->getProblem().problemBinaryVariables().size();
-    opt_.initialize(this->getProblem().getCone());
     prob_upper_bound_ = SolverSetting::inf;
     nodes_.resize(this->getProblem().getSetting().get(SolverIntParam_BnBMaxIters));
     binvars_mat_id_.resize(nbin_vars_, this->getProblem().getSetting().get(SolverIntParam_BnBMaxIters));
-- 
2.43.0


From f67999e14171d4ddcdf12497f1d84c8093d6592b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:44 +0000
Subject: [PATCH 17/58] fix: report a solver settings file that cannot be
 parsed to the caller

---
 solver/src/solver/interface/SolverSetting.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solver/src/solver/interface/SolverSetting.cpp b/solver/src/solver/interface/SolverSetting.cpp
index a0cd137..1d5f5e4 100644
--- a/solver/src/solver/interface/SolverSetting.cpp
+++ b/solver/src/solver/interface/SolverSetting.cpp
@@ -74,6 +74,7 @@ namespace solver {
                 << "something went wrong while parsing: " << cfg_file
                 << std:: endl;
       std::cout << e.what() << "\n";
+      throw;
     }
   }
 
-- 
2.43.0


From 073b433a0e5f7cf922fa93a49a46ee9e97484b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:44 +0000
Subject: [PATCH 18/58] fix: report an lqr settings file that cannot be parsed
 to the caller

---
 solver_lqr/src/solver_lqr/SolverLqrSetting.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solver_lqr/src/solver_lqr/SolverLqrSetting.cpp b/solver_lqr/src/solver_lqr/SolverLqrSetting.cpp
index 3ecbd32..21cf92a 100644
--- a/solver_lqr/src/solver_lqr/SolverLqrSetting.cpp
+++ b/solver_lqr/src/solver_lqr/SolverLqrSetting.cpp
@@ -66,6 +66,7 @@ namespace solverlqr {
     catch (YAML::ParserException &e)
     {
       std::cout << e.what() << "\n";
+      throw;
     }
   }
 
-- 
2.43.0


From 5b2299ee2aac26b50b7b0d30cd9a440114f50d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:44 +0000
Subject: [PATCH 19/58] fix: report failures to load planner settings,
 contacts, terrain and initial state to the caller

---
 momentumopt/src/momentumopt/cntopt/ContactState.cpp       | 6 +++++-
 momentumopt/src/momentumopt/cntopt/TerrainDescription.cpp | 8 +++++++-
 momentumopt/src/momentumopt/dynopt/DynamicsState.cpp      | 3 +++
 momentumopt/src/momentumopt/setting/PlannerSetting.cpp    | 1 +
 4 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/momentumopt/src/momentumopt/cntopt/ContactState.cpp b/momentumopt/src/momentumopt/cntopt/ContactState.cpp
index 9b0ba88..3380c80 100644
--- a/momentumopt/src/momentumopt/cntopt/ContactState.cpp
+++ b/momentumopt/src/momentumopt/cntopt/ContactState.cpp
@@ -91,11 +91,15 @@ namespace momentumopt {
         YAML::ReadParameter(contact_plan, ("effcnt_" + Problem::idToEndeffectorString(eff_id)).c_str(), contacts);
 
         this->endeffectorContacts(eff_id).clear();
-        for (unsigned int cnt_id=0; cnt_id<contacts.size(); cnt_id++)
+        for (unsigned int cnt_id=0; cnt_id<contacts.size(); cnt_id++) {
+          if (contacts[cnt_id].size() < 11)
+            throw std::runtime_error("Contact " + std::to_string(cnt_id) + " of end effector " + Problem::idToEndeffectorString(eff_id) + " needs 11 values");
           this->endeffectorContacts(eff_id).push_back(ContactState(contacts[cnt_id], num_optimization_contacts_++));
+        }
       }
     } catch (std::runtime_error& e) {
       std::cout << "Error reading parameter ["<< e.what() << "] at file: [" << __FILE__ << "]" << std::endl << std::endl;
+      throw;
     }
   }
 
diff --git a/momentumopt/src/momentumopt/cntopt/TerrainDescription.cpp b/momentumopt/src/momentumopt/cntopt/TerrainDescription.cpp
index 7f651d2..3075248 100644
--- a/momentumopt/src/momentumopt/cntopt/TerrainDescription.cpp
+++ b/momentumopt/src/momentumopt/cntopt/TerrainDescription.cpp
@@ -92,11 +92,17 @@ namespace momentumopt {
       std::vector<Eigen::Matrix<double, Eigen::Dynamic,3>> regions;
       YAML::ReadParameter(terrain_description, "regions", regions);
 
-      for (unsigned int reg_id=0; reg_id<regions.size(); reg_id++)
+      terrain_regions_.clear();
+      num_terrain_regions_ = 0;
+      for (unsigned int reg_id=0; reg_id<regions.size(); reg_id++) {
+        if (regions[reg_id].rows() < 3)
+          throw std::runtime_error("Terrain region " + std::to_string(reg_id) + " needs at least 3 vertices");
         this->addTerrainRegion(regions[reg_id]);
+      }
 
     } catch (std::runtime_error& e) {
       std::cout << "Error reading parameter ["<< e.what() << "] at file: [" << __FILE__ << "]" << std::endl << std::endl;
+      throw;
     }
   }
 
diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsState.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsState.cpp
index 493f14e..e6f74a6 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsState.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsState.cpp
@@ -76,6 +76,8 @@ namespace momentumopt {
 
 	  for (int eff_id=0; eff_id<Problem::n_endeffs_; eff_id++) {
 		Eigen::VectorXd eef_cfg = YAML::ReadParameter<Eigen::VectorXd>(ini_robo_cfg["eef_pose"], "eef_"+Problem::idToEndeffectorString(eff_id));
+		if (eef_cfg.size() < 8)
+		  throw std::runtime_error("Pose of end effector " + Problem::idToEndeffectorString(eff_id) + " needs 8 values");
 		this->endeffectorActivation(eff_id) = int(eef_cfg(0));
 		this->endeffectorPosition(eff_id) = eef_cfg.segment<3>(1);
 		this->endeffectorOrientation(eff_id) = Eigen::Quaternion<double>(eef_cfg[4],eef_cfg[5],eef_cfg[6],eef_cfg[7]);
@@ -83,6 +85,7 @@ namespace momentumopt {
 	  }
 	} catch (std::runtime_error& e) {
 	  std::cout << "Error reading parameter ["<< e.what() << "] at file: [" << __FILE__ << "]" << std::endl << std::endl;
+	  throw;
 	}
   }
 
diff --git a/momentumopt/src/momentumopt/setting/PlannerSetting.cpp b/momentumopt/src/momentumopt/setting/PlannerSetting.cpp
index dd7386a..bb92b19 100644
--- a/momentumopt/src/momentumopt/setting/PlannerSetting.cpp
+++ b/momentumopt/src/momentumopt/setting/PlannerSetting.cpp
@@ -229,6 +229,7 @@ namespace momentumopt {
       std::cout << "From ["<< __FILE__"]: "
                 << "Error while loading the YAML file [" + cfg_file + "]."
                 << "Error message is: " << e.what() << std::endl << std::endl;
+      throw;
     }
   }
 
-- 
2.43.0


From 1b421c656744e405cc31c9da2d65834cf245a47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:11 +0000
Subject: [PATCH 20/58] fix: DDP objects keep nothing of an earlier problem
 when initialised again

---
 solver_lqr/src/solver_lqr/BackwardPass.cpp    |  1 +
 .../src/solver_lqr/FiniteDifferences.cpp      | 64 +++++++++----------
 solver_lqr/src/solver_lqr/OcpDescription.cpp  |  1 +
 3 files changed, 34 insertions(+), 32 deletions(-)

diff --git a/solver_lqr/src/solver_lqr/BackwardPass.cpp b/solver_lqr/src/solver_lqr/BackwardPass.cpp
index 01608c6..c71e409 100644
--- a/solver_lqr/src/solver_lqr/BackwardPass.cpp
+++ b/solver_lqr/src/solver_lqr/BackwardPass.cpp
@@ -32,6 +32,7 @@ namespace solverlqr
     QxuR_.resize(xdim_, udim_);  QxuR_.setZero();
     QuuR_.resize(udim_, udim_);  QuuR_.setZero();
 
+    Vx_.clear(); Vxh_.clear(); Vxx_.clear(); Vxxh_.clear(); Vxhxh_.clear();
     for (int time_id=0; time_id<=tdim_; time_id++) {
       Vx_.push_back(Eigen::VectorXd::Zero(xdim_));
       Vxh_.push_back(Eigen::VectorXd::Zero(xdim_));
diff --git a/solver_lqr/src/solver_lqr/FiniteDifferences.cpp b/solver_lqr/src/solver_lqr/FiniteDifferences.cpp
index c670e41..4829236 100644
--- a/solver_lqr/src/solver_lqr/FiniteDifferences.cpp
+++ b/solver_lqr/src/solver_lqr/FiniteDifferences.cpp
@@ -15,39 +15,39 @@ namespace solverlqr
 		  bool compute_objective_first_derivatives, bool compute_dynamics_first_derivatives,
 		  bool compute_objective_second_derivatives, bool compute_dynamics_second_derivatives)
   {
-	if (!is_initialized_) {
-	  is_initialized_ = true;
-	  ocp_ = ocp_description;
-	  compute_dynamics_first_derivatives_ = compute_dynamics_first_derivatives;
-	  compute_dynamics_second_derivatives_ = compute_dynamics_second_derivatives;
-	  compute_objective_first_derivatives_  = compute_objective_first_derivatives;
-	  compute_objective_second_derivatives_  = compute_objective_second_derivatives;
-
-	  tdim_ = ocp_->tdim();
-	  xdim_ = ocp_->xdim();
-	  udim_ = ocp_->udim();
-
-      // resizing storages
-	  std::vector<Eigen::MatrixXd> fxx, fxu, fuu;
-	  for (int id=0; id<xdim_; id++) { fxx.push_back(Eigen::MatrixXd::Zero(xdim_, xdim_)); }
-	  for (int id=0; id<udim_; id++) { fxu.push_back(Eigen::MatrixXd::Zero(xdim_, xdim_)); }
-	  for (int id=0; id<udim_; id++) { fuu.push_back(Eigen::MatrixXd::Zero(xdim_, udim_)); }
-
-      for (int time=0; time<tdim_; time++) {
-        fxx_seq_.push_back(fxx);
-        fxu_seq_.push_back(fxu);
-        fuu_seq_.push_back(fuu);
-        fx_seq_.push_back(Eigen::MatrixXd::Zero(xdim_, xdim_));
-        fu_seq_.push_back(Eigen::MatrixXd::Zero(xdim_, udim_));
-      }
+	is_initialized_ = true;
+	ocp_ = ocp_description;
+	compute_dynamics_first_derivatives_ = compute_dynamics_first_derivatives;
+	compute_dynamics_second_derivatives_ = compute_dynamics_second_derivatives;
+	compute_objective_first_derivatives_  = compute_objective_first_derivatives;
+	compute_objective_second_derivatives_  = compute_objective_second_derivatives;
+
+	tdim_ = ocp_->tdim();
+	xdim_ = ocp_->xdim();
+	udim_ = ocp_->udim();
+
+    // resizing storages
+	fxx_seq_.clear(); fxu_seq_.clear(); fuu_seq_.clear(); fx_seq_.clear(); fu_seq_.clear();
+	cx_seq_.clear(); cu_seq_.clear(); cxx_seq_.clear(); cxu_seq_.clear(); cuu_seq_.clear();
+	std::vector<Eigen::MatrixXd> fxx, fxu, fuu;
+	for (int id=0; id<xdim_; id++) { fxx.push_back(Eigen::MatrixXd::Zero(xdim_, xdim_)); }
+	for (int id=0; id<udim_; id++) { fxu.push_back(Eigen::MatrixXd::Zero(xdim_, xdim_)); }
+	for (int id=0; id<udim_; id++) { fuu.push_back(Eigen::MatrixXd::Zero(xdim_, udim_)); }
+
+    for (int time=0; time<tdim_; time++) {
+      fxx_seq_.push_back(fxx);
+      fxu_seq_.push_back(fxu);
+      fuu_seq_.push_back(fuu);
+      fx_seq_.push_back(Eigen::MatrixXd::Zero(xdim_, xdim_));
+      fu_seq_.push_back(Eigen::MatrixXd::Zero(xdim_, udim_));
+    }
 
-      for (int time=0; time<tdim_+1; time++) {
-        cx_seq_.push_back(Eigen::VectorXd::Zero(xdim_, 1));
-        cu_seq_.push_back(Eigen::VectorXd::Zero(udim_, 1));
-        cxx_seq_.push_back(Eigen::MatrixXd::Zero(xdim_, xdim_));
-        cxu_seq_.push_back(Eigen::MatrixXd::Zero(xdim_, udim_));
-        cuu_seq_.push_back(Eigen::MatrixXd::Zero(udim_, udim_));
-      }
+    for (int time=0; time<tdim_+1; time++) {
+      cx_seq_.push_back(Eigen::VectorXd::Zero(xdim_, 1));
+      cu_seq_.push_back(Eigen::VectorXd::Zero(udim_, 1));
+      cxx_seq_.push_back(Eigen::MatrixXd::Zero(xdim_, xdim_));
+      cxu_seq_.push_back(Eigen::MatrixXd::Zero(xdim_, udim_));
+      cuu_seq_.push_back(Eigen::MatrixXd::Zero(udim_, udim_));
     }
   }
 
diff --git a/solver_lqr/src/solver_lqr/OcpDescription.cpp b/solver_lqr/src/solver_lqr/OcpDescription.cpp
index 05e3444..489f29d 100644
--- a/solver_lqr/src/solver_lqr/OcpDescription.cpp
+++ b/solver_lqr/src/solver_lqr/OcpDescription.cpp
@@ -66,6 +66,7 @@ namespace solverlqr
   // StateSequence functions
   void StateSequence::resize(int tdim, int xdim)
   {
+	stateseq_.clear();
 	StateBase state(xdim);
 	for (int time=0; time<tdim; time++)
 	  stateseq_.push_back(state);
-- 
2.43.0


From 2d2974ba09c56f805f429b21ec6129b302911e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:11 +0000
Subject: [PATCH 21/58] fix: the DDP line search accepted trajectories that
 diverged or became NaN

---
 solver_lqr/src/solver_lqr/ForwardPass.cpp | 4 +++-
 solver_lqr/src/solver_lqr/SolverLqr.cpp   | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/solver_lqr/src/solver_lqr/ForwardPass.cpp b/solver_lqr/src/solver_lqr/ForwardPass.cpp
index ca4a5ab..b688047 100644
--- a/solver_lqr/src/solver_lqr/ForwardPass.cpp
+++ b/solver_lqr/src/solver_lqr/ForwardPass.cpp
@@ -46,8 +46,10 @@ namespace solverlqr {
       timestep_cost_[time_id] = this->getOcp().objective(new_state_seq_.state(time_id), new_control_seq_.control(time_id), time_id, false);
 
       // Divergence check
+      if (new_control_seq_.control(time_id).feedforward().hasNaN())
+        has_diverged_ = true;
       for (int id=0; id<new_state_seq_.state(time_id+1).stateVector().size(); id++)
-        if (std::abs(new_state_seq_.state(time_id+1).stateVector()[id]) > this->getLqrSetting().get(SolverLqrDoubleParam_DivergenceLimitCheck)) {
+        if (!(std::abs(new_state_seq_.state(time_id+1).stateVector()[id]) <= this->getLqrSetting().get(SolverLqrDoubleParam_DivergenceLimitCheck))) {
           has_diverged_  = true;
           break;
         }
diff --git a/solver_lqr/src/solver_lqr/SolverLqr.cpp b/solver_lqr/src/solver_lqr/SolverLqr.cpp
index d85e516..52d899f 100644
--- a/solver_lqr/src/solver_lqr/SolverLqr.cpp
+++ b/solver_lqr/src/solver_lqr/SolverLqr.cpp
@@ -107,7 +107,7 @@ namespace solverlqr {
           this->getLqrInfo().get(SolverLqrDoubleParam_CostChange) = this->getLqrInfo().get(SolverLqrDoubleParam_Cost) - this->getForwPass().newCost() - 1e10*this->getForwPass().hasDiverged();
           this->getLqrInfo().get(SolverLqrDoubleParam_ExpectedCost) = std::max(-Eigen::Vector2d(this->getLqrSetting().get(SolverLqrVectorParam_LineSearchCoeffs)[i], std::pow(this->getLqrSetting().get(SolverLqrVectorParam_LineSearchCoeffs)[i], 2.)).dot(this->getBackPass().dV()), .0);
 
-          if (this->getLqrInfo().get(SolverLqrDoubleParam_CostChange) > 0.0) {
+          if (!this->getForwPass().hasDiverged() && this->getLqrInfo().get(SolverLqrDoubleParam_CostChange) > 0.0) {
             forwpass_flag_ = true;
             break;
           }
-- 
2.43.0


From 98cf03f3f089c0ebb40bc3dcbd2a6e9da42ea1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:11 +0000
Subject: [PATCH 22/58] fix: report an lqr solution file that could not be
 written

---
 solver_lqr/src/solver_lqr/SolverLqr.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/solver_lqr/src/solver_lqr/SolverLqr.cpp b/solver_lqr/src/solver_lqr/SolverLqr.cpp
index 52d899f..08d76d8 100644
--- a/solver_lqr/src/solver_lqr/SolverLqr.cpp
+++ b/solver_lqr/src/solver_lqr/SolverLqr.cpp
@@ -190,6 +190,9 @@ namespace solverlqr {
 
       std::ofstream file_out(this->getLqrSetting().get(SolverLqrStringParam_SaveLqrFile));
       file_out << ocp_pars;
+      file_out.close();
+      if (file_out.fail())
+        throw std::runtime_error("Error writing file: "+this->getLqrSetting().get(SolverLqrStringParam_SaveLqrFile));
     }
     catch (...)
     {
-- 
2.43.0


From 28e519be6eedf3ec14ade4fb8778549b6dcc039b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:11 +0000
Subject: [PATCH 23/58] fix: a damaged lqr solution file is reported and leaves
 the controls as they were

---
 solver_lqr/src/solver_lqr/SolverLqr.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/solver_lqr/src/solver_lqr/SolverLqr.cpp b/solver_lqr/src/solver_lqr/SolverLqr.cpp
index 08d76d8..b0af952 100644
--- a/solver_lqr/src/solver_lqr/SolverLqr.cpp
+++ b/solver_lqr/src/solver_lqr/SolverLqr.cpp
@@ -207,8 +207,14 @@ namespace solverlqr {
     {
       YAML::Node ocp_pars = YAML::LoadFile(load_file.c_str());
 
+      std::vector<Eigen::MatrixXd> control_fb;
+      for (int time_id=0; time_id<this->getOcp().tdim(); time_id++) {
+        control_fb.push_back(ocp_pars["solverlqr_variables"]["control_fb_"+std::to_string(time_id)].as<Eigen::MatrixXd>());
+        if (control_fb.back().rows() != this->getOcp().udim() || control_fb.back().cols() != this->getOcp().xdim())
+          throw std::runtime_error("control_fb_"+std::to_string(time_id)+" has wrong size");
+      }
       for (int time_id=0; time_id<this->getOcp().tdim(); time_id++)
-        this->getOcp().controlSeq().control(time_id).feedback() = ocp_pars["solverlqr_variables"]["control_fb_"+std::to_string(time_id)].as<Eigen::MatrixXd>();
+        this->getOcp().controlSeq().control(time_id).feedback() = control_fb[time_id];
 
 //      // loading center of mass and momentum references
 //      Eigen::MatrixXd com_guess_, lmom_guess_, amom_guess_, lmomd_guess_, amomd_guess_, mat_guess_;
@@ -255,6 +261,7 @@ namespace solverlqr {
     catch (std::runtime_error& e)
     {
       std::cout << "Error reading parameter ["<< e.what() << "] at file: [" << __FILE__ << "]" << std::endl << std::endl;
+      throw;
     }
 
 /////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 6218031d5fedfc923f01f8ba470b310f9324fb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:51 +0000
Subject: [PATCH 24/58] fix: the momentum plan was stored one step late and
 past the end of the sequence

---
 momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
index e150484..ab17ce1 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
@@ -625,17 +625,16 @@ namespace momentumopt {
   void DynamicsOptimizer::storeSolution()
   {
 	com_.getGuessValue(mat_guess_);
-  dynamicsSequence().dynamicsState(0).centerOfMass() = Eigen::Vector3d(mat_guess_.block<3,1>(0,0));
     for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++)
-      dynamicsSequence().dynamicsState(time_id+1).centerOfMass() = Eigen::Vector3d(mat_guess_.block<3,1>(0,time_id));
+      dynamicsSequence().dynamicsState(time_id).centerOfMass() = Eigen::Vector3d(mat_guess_.block<3,1>(0,time_id));
 
 	lmom_.getGuessValue(mat_guess_);
     for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++)
-      dynamicsSequence().dynamicsState(time_id+1).linearMomentum() = Eigen::Vector3d(mat_guess_.block<3,1>(0,time_id));
+      dynamicsSequence().dynamicsState(time_id).linearMomentum() = Eigen::Vector3d(mat_guess_.block<3,1>(0,time_id));
 
 	amom_.getGuessValue(mat_guess_);
     for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++)
-      dynamicsSequence().dynamicsState(time_id+1).angularMomentum() = Eigen::Vector3d(mat_guess_.block<3,1>(0,time_id));
+      dynamicsSequence().dynamicsState(time_id).angularMomentum() = Eigen::Vector3d(mat_guess_.block<3,1>(0,time_id));
 
     if (this->getSetting().heuristic() == Heuristic::TimeOptimization) {
   	  dt_.getGuessValue(mat_guess_);
-- 
2.43.0


From 17d40fc8605fb06f834a49f4673f1329deabd237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:46 +0000
Subject: [PATCH 25/58] fix: a planning step that failed with an exception was
 reported as finished

---
 momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp   | 1 +
 momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
index ab17ce1..c81c572 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
@@ -504,6 +504,7 @@ namespace momentumopt {
     catch(...)
     {
       std::cout << "Exception during optimization" << std::endl;
+      throw;
     }
 
     if (this->getSetting().heuristic() == Heuristic::TimeOptimization)
diff --git a/momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp b/momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp
index 6bc7739..2037a3d 100644
--- a/momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp
+++ b/momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp
@@ -273,6 +273,7 @@ namespace momentumopt {
       catch(...)
       {
         std::cout << "Exception during trajectory-generation optimization" << std::endl;
+        throw;
       }
 
     }
@@ -445,6 +446,7 @@ namespace momentumopt {
       catch(...)
       {
         std::cout << "Exception during posture-generation optimization" << std::endl;
+        throw;
       }
     }
 
-- 
2.43.0


From b00087a27ca1d91eb40d3dadc2001211a617273a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:46 +0000
Subject: [PATCH 26/58] fix: report how the kinematics optimization ended

---
 .../include/momentumopt/kinopt/KinematicsOptimizer.hpp        | 3 ++-
 momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp    | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/momentumopt/include/momentumopt/kinopt/KinematicsOptimizer.hpp b/momentumopt/include/momentumopt/kinopt/KinematicsOptimizer.hpp
index 73fb1dd..4c54850 100644
--- a/momentumopt/include/momentumopt/kinopt/KinematicsOptimizer.hpp
+++ b/momentumopt/include/momentumopt/kinopt/KinematicsOptimizer.hpp
@@ -47,8 +47,9 @@ namespace momentumopt {
        * @param[in]  ini_state                            initial state of the robot
        * @param[in]  contact_plan                         container of contact sequence to be used for dynamics planning
        * @param[in]  dyn_sequence                         dynamics sequence to be used as momentum tracking reference
+       * @return     ExitCode                             flag that indicates the result of the motion optimization (for example: optimal, infeasible)
        */
-      void optimize(const DynamicsState& ini_state, ContactPlanInterface* contact_plan, DynamicsSequence& dyn_sequence, bool is_first_kinopt);
+      solver::ExitCode optimize(const DynamicsState& ini_state, ContactPlanInterface* contact_plan, DynamicsSequence& dyn_sequence, bool is_first_kinopt);
 
       /**
        * this function gives access to the optimized motion plan
diff --git a/momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp b/momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp
index 2037a3d..7d6195c 100644
--- a/momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp
+++ b/momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp
@@ -36,9 +36,10 @@ namespace momentumopt {
     else                                                                   { model_.configSetting(this->getSetting().get(PlannerStringParam_DefaultSolverSettingFile)); }
   }
 
-  void KinematicsOptimizer::optimize(const DynamicsState& ini_state, ContactPlanInterface* contact_plan, DynamicsSequence& dyn_sequence, bool is_first_kinopt)
+  ExitCode KinematicsOptimizer::optimize(const DynamicsState& ini_state, ContactPlanInterface* contact_plan, DynamicsSequence& dyn_sequence, bool is_first_kinopt)
   {
     contact_plan_ = contact_plan;
+    exitcode_ = ExitCode::Indeterminate;
     contact_plan_->updateEndeffectorTrajectories(ini_state, dyn_sequence);
 
     *current_state_ = KinematicsState(this->getSetting().get(PlannerIntParam_NumDofs));
@@ -61,6 +62,7 @@ namespace momentumopt {
     if (this->getSetting().get(PlannerBoolParam_DisplayMotion)) { this->displayMotion(dyn_sequence); }
 
     if (this->getSetting().get(PlannerBoolParam_StoreData)) { this->storeSolution(ini_state, dyn_sequence); }
+    return exitcode_;
   }
 
   void KinematicsOptimizer::initializeTrajectoryKinematicVariables()
-- 
2.43.0


From fa0e37d88da63310c33085b06393127b4b0d0791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:46 +0000
Subject: [PATCH 27/58] fix: the result file of a motion plan was not written,
 and failing to write it not reported

---
 momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp   | 4 +++-
 momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp | 4 +++-
 momentumopt/src/momentumopt/setting/PlannerSetting.cpp     | 2 +-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
index c81c572..9e8256e 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
@@ -729,8 +729,10 @@ namespace momentumopt {
           qcqp_cfg["dynopt_params"]["eef_cop_"+std::to_string(eff_id)] = mat_guess_;
         }
         std::ofstream file_out(this->getSetting().get(PlannerStringParam_SaveDynamicsFile)); file_out << qcqp_cfg;
+        file_out.close();
+        if (file_out.fail()) { throw std::runtime_error("Error writing file: "+this->getSetting().get(PlannerStringParam_SaveDynamicsFile)); }
       }
-      catch (YAML::ParserException &e) { std::cout << e.what() << "\n"; }
+      catch (YAML::ParserException &e) { std::cout << e.what() << "\n"; throw; }
     }
   }
 
diff --git a/momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp b/momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp
index 7d6195c..b68d0df 100644
--- a/momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp
+++ b/momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp
@@ -532,8 +532,10 @@ namespace momentumopt {
       }
       std::ofstream file_out(this->getSetting().get(PlannerStringParam_SaveKinematicsFile));
       file_out << qcqp_cfg;
+      file_out.close();
+      if (file_out.fail()) { throw std::runtime_error("Error writing file: "+this->getSetting().get(PlannerStringParam_SaveKinematicsFile)); }
     }
-    catch (YAML::ParserException &e) { std::cout << e.what() << "\n"; }
+    catch (YAML::ParserException &e) { std::cout << e.what() << "\n"; throw; }
   }
 
 //  void KinematicsOptimizer::loadSolution(const std::string& load_file)
diff --git a/momentumopt/src/momentumopt/setting/PlannerSetting.cpp b/momentumopt/src/momentumopt/setting/PlannerSetting.cpp
index bb92b19..e3bdf65 100644
--- a/momentumopt/src/momentumopt/setting/PlannerSetting.cpp
+++ b/momentumopt/src/momentumopt/setting/PlannerSetting.cpp
@@ -16,7 +16,7 @@ namespace momentumopt {
   void PlannerSetting::initialize(const std::string& cfg_file, const std::string& planner_vars_yaml)
   {
     cfg_file_ = cfg_file;
-    // save_dynamics_file_ = cfg_file.substr(0, cfg_file.size()-5) + "_dyn_results.yaml";
+    save_dynamics_file_ = cfg_file.substr(0, cfg_file.size()-5) + "_dyn_results.yaml";
     save_kinematics_file_ = cfg_file.substr(0, cfg_file.size()-5) + "_kin_results.yaml";
     default_solver_setting_file_ = CFG_SRC_PATH + std::string("default_solver_setting.yaml");
 
-- 
2.43.0


From 2a9e74492464db2e5b86ff05ce3e32a267528a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:46 +0000
Subject: [PATCH 28/58] fix: contacts and forces of an earlier plan remained in
 the dynamics sequence

---
 .../src/momentumopt/cntopt/ContactPlanInterface.cpp  | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp b/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp
index 2914989..08bf7f6 100644
--- a/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp
+++ b/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp
@@ -20,6 +20,18 @@ namespace momentumopt {
   {
 	// configuration of end-effectors during contact
     dynamics_sequence.activeEndeffectorSteps().setZero();
+    for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++) {
+      for (int eff_id=0; eff_id<Problem::n_endeffs_; eff_id++) {
+        dynamics_sequence.dynamicsState(time_id).endeffectorActivation(eff_id) = false;
+        dynamics_sequence.dynamicsState(time_id).endeffectorContactId(eff_id) = -1;
+        dynamics_sequence.dynamicsState(time_id).endeffectorActivationId(eff_id) = 0;
+        dynamics_sequence.dynamicsState(time_id).endeffectorCoP(eff_id).setZero();
+        dynamics_sequence.dynamicsState(time_id).endeffectorForce(eff_id).setZero();
+        dynamics_sequence.dynamicsState(time_id).endeffectorTorque(eff_id).setZero();
+        dynamics_sequence.dynamicsState(time_id).endeffectorTorqueAtContactPoint(eff_id).setZero();
+      }
+    }
+
     for (int eff_id=0; eff_id<Problem::n_endeffs_; eff_id++) {
       int counter = 0;
       int ini_id = 0, end_id = contact_sequence_.endeffectorContacts(eff_id).size();
-- 
2.43.0


From cb37171ea1382b9e967a6285edd6b128cd918e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:46 +0000
Subject: [PATCH 29/58] fix: the contact of an end-effector that is not in
 contact was read

---
 .../src/momentumopt/dynopt/DynamicsOptimizer.cpp     | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
index 9e8256e..8367961 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
@@ -257,9 +257,13 @@ namespace momentumopt {
 
       model_.setObjective(quad_objective_, 0.0);
 
-      // center of mass above endeffector positions
+      // center of mass above endeffector positions (first contact of the plan)
+      int ref_time = 0, ref_eff = 0, num_effs = this->getSetting().get(PlannerIntParam_NumActiveEndeffectors);
+      while (ref_time<this->getSetting().get(PlannerIntParam_NumTimesteps) && !dynamicsSequence().dynamicsState(ref_time).endeffectorActivation(ref_eff))
+        if (++ref_eff>=num_effs) { ref_eff = 0; ref_time++; }
       for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++) {
-        model_.addLinConstr(LinExpr(vars_[com_.id(2,time_id)]) - LinExpr(this->contactLocation(0, 0, 2)), ">", this->getSetting().get(PlannerDoubleParam_MinRelHeight));
+        if (ref_time<this->getSetting().get(PlannerIntParam_NumTimesteps))
+          model_.addLinConstr(LinExpr(vars_[com_.id(2,time_id)]) - LinExpr(this->contactLocation(ref_time, ref_eff, 2)), ">", this->getSetting().get(PlannerDoubleParam_MinRelHeight));
         //for (int eff_id=0; eff_id<this->getSetting().get(PlannerIntParam_NumActiveEndeffectors); eff_id++) {
         //  if (dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id)) {
         //      model_.addLinConstr(vars_[com_.id(2,time_id)] - this->contactLocation(time_id, eff_id, 2), ">", this->getSetting().get(PlannerDoubleParam_MinRelHeight));
@@ -296,8 +300,8 @@ namespace momentumopt {
       // friction cone constraints
       for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++) {
         for (int eff_id=0; eff_id<this->getSetting().get(PlannerIntParam_NumActiveEndeffectors); eff_id++) {
-          if (this->contactType(time_id, eff_id) != ContactType::FullContact) {
-            if (dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id)) {
+          if (dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id)) {
+            if (this->contactType(time_id, eff_id) != ContactType::FullContact) {
               Eigen::Matrix3d eff_rotation = this->contactRotation(time_id, eff_id);
               if (this->getSetting().get(PlannerBoolParam_IsFrictionConeLinear)) {  // using a linear representation
                 Eigen::Matrix<double,4,3> rotated_cone_matrix_ = cone_matrix_*eff_rotation.transpose();
-- 
2.43.0


From 228384b2ab256264e095f3d7ebc44cd1beb318f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:01 +0000
Subject: [PATCH 30/58] fix: swing phases read past the end of the plan, or
 used another phase's viapoint

---
 momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp b/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp
index 08bf7f6..664096a 100644
--- a/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp
+++ b/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp
@@ -69,6 +69,7 @@ namespace momentumopt {
           if (!ini_state.endeffectorActivation(eff_id)) {
             ini_id = 0;
             end_id = findMakeContactId(dynamics_sequence, ini_id, eff_id);
+            viapoint_position = 0.5*(ini_state.endeffectorPosition(eff_id) + contact_sequence_.endeffectorContacts(eff_id)[0].contactPosition());
             this->findActiveViapoints(viapoint_position, eff_id, -1);
             sw_traj_.initialize(this->mapIdToContactTime(dynamics_sequence, ini_id+1), ini_state.endeffectorPosition(eff_id),
                                 this->mapIdToContactTime(dynamics_sequence, end_id+1), contact_sequence_.endeffectorContacts(eff_id)[0].contactPosition(),
@@ -80,6 +81,7 @@ namespace momentumopt {
           for (int cnt_id=0; cnt_id<contact_sequence_.numEndeffectorContacts(eff_id)-1; cnt_id++) {
             ini_id = findBreakContactId(dynamics_sequence, end_id, eff_id);
             end_id = findMakeContactId(dynamics_sequence, ini_id, eff_id);
+            viapoint_position = 0.5*(contact_sequence_.endeffectorContacts(eff_id)[cnt_id].contactPosition() + contact_sequence_.endeffectorContacts(eff_id)[cnt_id+1].contactPosition());
             this->findActiveViapoints(viapoint_position, eff_id, cnt_id);
             sw_traj_.initialize(this->mapIdToContactTime(dynamics_sequence, ini_id+1), contact_sequence_.endeffectorContacts(eff_id)[cnt_id].contactPosition(),
                                 this->mapIdToContactTime(dynamics_sequence, end_id+1), contact_sequence_.endeffectorContacts(eff_id)[cnt_id+1].contactPosition(),
@@ -91,6 +93,7 @@ namespace momentumopt {
           if (!dynamics_sequence.dynamicsState(this->getSetting().get(PlannerIntParam_NumTimesteps)-1).endeffectorActivation(eff_id)) {
             ini_id = findBreakContactId(dynamics_sequence, end_id, eff_id);
             end_id = this->getSetting().get(PlannerIntParam_NumTimesteps)-1;
+            viapoint_position = 0.5*(contact_sequence_.endeffectorContacts(eff_id).back().contactPosition() + ini_state.endeffectorPosition(eff_id)+this->getSetting().get(PlannerVectorParam_CenterOfMassMotion));
             this->findActiveViapoints(viapoint_position, eff_id, contact_sequence_.numEndeffectorContacts(eff_id)-1);
             sw_traj_.initialize(this->mapIdToContactTime(dynamics_sequence, ini_id+1), contact_sequence_.endeffectorContacts(eff_id).back().contactPosition(),
                                 this->mapIdToContactTime(dynamics_sequence, end_id+1), ini_state.endeffectorPosition(eff_id)+this->getSetting().get(PlannerVectorParam_CenterOfMassMotion),
@@ -114,6 +117,7 @@ namespace momentumopt {
   {
 	int make_cnt_id = 0, search_id = search_start_id;
   	while (true) {
+  	  if (search_id+1>=dyn_sequence.size()) { throw std::runtime_error("Contact plan: an end-effector does not make contact within the time horizon"); }
   	  if (dyn_sequence.dynamicsState(search_id).endeffectorActivation(eff_id)==false &&
   		  dyn_sequence.dynamicsState(search_id+1).endeffectorActivation(eff_id)==true )
   	  {
@@ -129,6 +133,7 @@ namespace momentumopt {
   {
 	int break_cnt_id = 0, start_id = search_start_id;
   	while (true) {
+  	  if (start_id+1>=dyn_sequence.size()) { throw std::runtime_error("Contact plan: an end-effector does not break contact within the time horizon"); }
   	  if (dyn_sequence.dynamicsState(start_id  ).endeffectorActivation(eff_id)==true  &&
   		  dyn_sequence.dynamicsState(start_id+1).endeffectorActivation(eff_id)==false )
   	  {
-- 
2.43.0


From 09c8a2fdefc3a8ea65bb7db84b3f68564a949b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:14 +0000
Subject: [PATCH 31/58] fix: planning with tracking weights overwrote the
 weights in the caller's settings

---
 .../include/momentumopt/dynopt/DynamicsOptimizer.hpp   |  2 +-
 .../src/momentumopt/dynopt/DynamicsOptimizer.cpp       | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/momentumopt/include/momentumopt/dynopt/DynamicsOptimizer.hpp b/momentumopt/include/momentumopt/dynopt/DynamicsOptimizer.hpp
index 3bb791d..e72f31a 100644
--- a/momentumopt/include/momentumopt/dynopt/DynamicsOptimizer.hpp
+++ b/momentumopt/include/momentumopt/dynopt/DynamicsOptimizer.hpp
@@ -188,7 +188,7 @@ namespace momentumopt {
       double solve_time_, convergence_err_, last_convergence_err_;
 
       /*! helper vector variables for the optimization problem */
-      Eigen::Vector3d com_pos_goal_, weight_desired_com_tracking_;
+      Eigen::Vector3d com_pos_goal_, weight_desired_com_tracking_, weight_linear_momentum_, weight_angular_momentum_;
 
       /*! helper optimization variables for the optimization problem */
       solver::OptimizationVariable dt_, com_, lmom_, amom_, lmomd_, amomd_;
diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
index 8367961..642866e 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
@@ -57,8 +57,8 @@ namespace momentumopt {
   void DynamicsOptimizer::updateTrackingObjective()
   {
     weight_desired_com_tracking_ = this->getSetting().get(PlannerVectorParam_WeightDynamicTrackingCenterOfMass);
-    this->getSetting().get(PlannerVectorParam_WeightLinearMomentum) = this->getSetting().get(PlannerVectorParam_WeightDynamicTrackingLinearMomentum);
-	  this->getSetting().get(PlannerVectorParam_WeightAngularMomentum) = this->getSetting().get(PlannerVectorParam_WeightDynamicTrackingAngularMomentum);
+    weight_linear_momentum_ = this->getSetting().get(PlannerVectorParam_WeightDynamicTrackingLinearMomentum);
+    weight_angular_momentum_ = this->getSetting().get(PlannerVectorParam_WeightDynamicTrackingAngularMomentum);
   }
 
   ExitCode DynamicsOptimizer::optimize(const DynamicsState& ini_state, ContactPlanInterface* contact_plan,
@@ -68,6 +68,8 @@ namespace momentumopt {
     contact_plan_ = contact_plan;
 
     weight_desired_com_tracking_.setZero();
+    weight_linear_momentum_ = this->getSetting().get(PlannerVectorParam_WeightLinearMomentum);
+    weight_angular_momentum_ = this->getSetting().get(PlannerVectorParam_WeightAngularMomentum);
     com_pos_goal_ = ini_state_.centerOfMass() + this->getSetting().get(PlannerVectorParam_CenterOfMassMotion);
     contact_plan_->fillDynamicsSequence(ini_state, this->dynamicsSequence());
     this->initializeOptimizationVariables();
@@ -136,8 +138,8 @@ namespace momentumopt {
             quad_objective_.addQuaTerm(this->getSetting().get(PlannerVectorParam_WeightFinalLinearMomentum)[axis_id], LinExpr(vars_[lmom_.id(axis_id,time_id)]) - LinExpr(kin_sequence.kinematicsState(time_id).linearMomentum()[axis_id]));
             quad_objective_.addQuaTerm(this->getSetting().get(PlannerVectorParam_WeightFinalAngularMomentum)[axis_id], LinExpr(vars_[amom_.id(axis_id,time_id)]) - LinExpr(kin_sequence.kinematicsState(time_id).angularMomentum()[axis_id]));
           } else {
-            quad_objective_.addQuaTerm(this->getSetting().get(PlannerVectorParam_WeightLinearMomentum)[axis_id], LinExpr(vars_[lmom_.id(axis_id,time_id)]) - LinExpr(kin_sequence.kinematicsState(time_id).linearMomentum()[axis_id]));
-            quad_objective_.addQuaTerm(this->getSetting().get(PlannerVectorParam_WeightAngularMomentum)[axis_id], LinExpr(vars_[amom_.id(axis_id,time_id)]) - LinExpr(kin_sequence.kinematicsState(time_id).angularMomentum()[axis_id]));
+            quad_objective_.addQuaTerm(weight_linear_momentum_[axis_id], LinExpr(vars_[lmom_.id(axis_id,time_id)]) - LinExpr(kin_sequence.kinematicsState(time_id).linearMomentum()[axis_id]));
+            quad_objective_.addQuaTerm(weight_angular_momentum_[axis_id], LinExpr(vars_[amom_.id(axis_id,time_id)]) - LinExpr(kin_sequence.kinematicsState(time_id).angularMomentum()[axis_id]));
           }
           quad_objective_.addQuaTerm(weight_desired_com_tracking_[axis_id], vars_[com_.id(axis_id,time_id)] - kin_sequence.kinematicsState(time_id).centerOfMass()[axis_id]);
 
-- 
2.43.0


From 01c2e34cf51568581ce225803f09821c06932f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:14 +0000
Subject: [PATCH 32/58] fix: a kinematics optimizer could only be initialized
 once, and not destroyed before that

---
 momentumopt/include/momentumopt/kinopt/KinematicsOptimizer.hpp | 2 +-
 momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp     | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/momentumopt/include/momentumopt/kinopt/KinematicsOptimizer.hpp b/momentumopt/include/momentumopt/kinopt/KinematicsOptimizer.hpp
index 4c54850..9f783a6 100644
--- a/momentumopt/include/momentumopt/kinopt/KinematicsOptimizer.hpp
+++ b/momentumopt/include/momentumopt/kinopt/KinematicsOptimizer.hpp
@@ -32,7 +32,7 @@ namespace momentumopt {
 
     public:
 	  /*! default class constructor and destructor */
-	  KinematicsOptimizer(){}
+	  KinematicsOptimizer() : ini_state_(nullptr), current_state_(nullptr) {}
       ~KinematicsOptimizer();
 
       /**
diff --git a/momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp b/momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp
index b68d0df..c3c9f03 100644
--- a/momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp
+++ b/momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp
@@ -28,6 +28,8 @@ namespace momentumopt {
     planner_setting_ = &planner_setting;
     kin_interface_->internalInitialization(planner_setting);
 
+    delete ini_state_;      ini_state_ = nullptr;
+    delete current_state_;  current_state_ = nullptr;
     ini_state_ = new KinematicsState(this->getSetting().get(PlannerIntParam_NumDofs));
     current_state_ = new KinematicsState(this->getSetting().get(PlannerIntParam_NumDofs));
 
-- 
2.43.0


From ce28bf1de72785b3335dff6d55e96dceda17a9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:14 +0000
Subject: [PATCH 33/58] fix: a center of mass viapoint outside of the horizon
 was applied to another variable

---
 momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
index 642866e..9eedd6c 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
@@ -124,9 +124,12 @@ namespace momentumopt {
       quad_objective_.clear();
 
       if (this->getSetting().get(PlannerIntParam_NumViapoints) > 0) {
-        for (int via_id=0; via_id<this->getSetting().get(PlannerIntParam_NumViapoints); via_id++)
+        for (int via_id=0; via_id<this->getSetting().get(PlannerIntParam_NumViapoints); via_id++) {
+          double via_time = this->getSetting().get(PlannerCVectorParam_Viapoints)[via_id](0);
+          if (!(via_time>=0.0 && via_time/this->getSetting().get(PlannerDoubleParam_TimeStep)<this->getSetting().get(PlannerIntParam_NumTimesteps))) { throw std::runtime_error("Center of mass viapoint outside of the time horizon"); }
           for (int axis_id=0; axis_id<3; axis_id++)
         	    quad_objective_.addQuaTerm(this->getSetting().get(PlannerVectorParam_WeightCenterOfMassViapoint)[axis_id], LinExpr(vars_[com_.id(axis_id,int(this->getSetting().get(PlannerCVectorParam_Viapoints)[via_id](0)/this->getSetting().get(PlannerDoubleParam_TimeStep)))]) - LinExpr(this->getSetting().get(PlannerCVectorParam_Viapoints)[via_id](axis_id+1)) );
+        }
       }
 
       for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++) {
-- 
2.43.0


From c19d601360956423d4caaca3fde2068f28d63d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:58 +0000
Subject: [PATCH 34/58] fix: swing trajectories became inaccurate late in a
 motion, and NaN at time zero

---
 .../momentumopt/utilities/TrajectoryGenerator.cpp    | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp b/momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp
index db578a4..78553a4 100644
--- a/momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp
+++ b/momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp
@@ -27,7 +27,7 @@ namespace momentumopt
 
 	int row_start = 0;
 	for (int row=0; row<pos_des.rows(); row++) {
-	  double time = pos_des(row,0);
+	  double time = pos_des(row,0) - time_span_[0];
 	  regression_vector_(row_start+row) = pos_des(row,1);
 	  for (int col=0; col<cons_size_; col++)
 		regression_matrix_(row_start+row,col) = std::pow(time,double(col));
@@ -35,7 +35,7 @@ namespace momentumopt
 
 	row_start += pos_des.rows();
 	for (int row=0; row<vel_des.rows(); row++) {
-	  double time = vel_des(row,0);
+	  double time = vel_des(row,0) - time_span_[0];
 	  regression_vector_(row_start+row) = vel_des(row,1);
 	  for (int col=1; col<cons_size_; col++)
 		regression_matrix_(row_start+row,col) = col*std::pow(time,col-1.0);
@@ -43,7 +43,7 @@ namespace momentumopt
 
 	row_start += vel_des.rows();
 	for (int row=0; row<acc_des.rows(); row++) {
-	  double time = acc_des(row,0);
+	  double time = acc_des(row,0) - time_span_[0];
 	  regression_vector_(row_start+row) = acc_des(row,1);
 	  for (int col=2; col<cons_size_; col++)
 		regression_matrix_(row_start+row,col) = col*(col-1)*std::pow(time,col-2.0);
@@ -54,13 +54,13 @@ namespace momentumopt
 
   void Interpolator::interpolate(const double time, double& position, double& velocity, double& acceleration)
   {
-    double query_time = std::min(std::max(time, time_span_[0]), time_span_[1]);
+    double query_time = std::min(std::max(time, time_span_[0]), time_span_[1]) - time_span_[0];
 
     position = velocity = acceleration = 0.0;
     for (int i=0; i<cons_size_; i++) {
       position += regression_coeffs_(i)*std::pow(query_time, double(i));
-      velocity += regression_coeffs_(i)*std::pow(query_time, i-1.0)*double(i);
-      acceleration += regression_coeffs_(i)*std::pow(query_time, i-2.0)*double(i)*double(i-1.0);
+      if (i>0) { velocity += regression_coeffs_(i)*std::pow(query_time, i-1.0)*double(i); }
+      if (i>1) { acceleration += regression_coeffs_(i)*std::pow(query_time, i-2.0)*double(i)*double(i-1.0); }
     }
   }
 
-- 
2.43.0


From 0dea373b2cda24fdd1acbc4d9bb0e231eb71d10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:58 +0000
Subject: [PATCH 35/58] fix: the swing phase of an end-effector in flight for a
 single step was NaN

---
 .../include/momentumopt/utilities/TrajectoryGenerator.hpp    | 1 +
 .../src/momentumopt/utilities/TrajectoryGenerator.cpp        | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/momentumopt/include/momentumopt/utilities/TrajectoryGenerator.hpp b/momentumopt/include/momentumopt/utilities/TrajectoryGenerator.hpp
index b729f29..4cd1bf9 100644
--- a/momentumopt/include/momentumopt/utilities/TrajectoryGenerator.hpp
+++ b/momentumopt/include/momentumopt/utilities/TrajectoryGenerator.hpp
@@ -54,6 +54,7 @@ namespace momentumopt
 	  const Eigen::Vector3d& desAcc() const { return acc_des_; }
 
     private:
+	  bool has_duration_ = false;
 	  Interpolator traj_interp_[3];
 	  Eigen::Vector3d pos_des_, vel_des_, acc_des_;
   };
diff --git a/momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp b/momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp
index 78553a4..df692a1 100644
--- a/momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp
+++ b/momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp
@@ -69,6 +69,10 @@ namespace momentumopt
 		                               const double tend, const Eigen::Vector3d& end_position,
                                        const Eigen::Vector3d& via_position)
   {
+    // a trajectory without duration is just its end position
+    has_duration_ = tend>tini;
+    if (!has_duration_) { pos_des_ = end_position; vel_des_.setZero(); acc_des_.setZero(); return; }
+
 	Interpolator::InterpMat pos_mat, vel_mat, acc_mat;
 
 	pos_mat.resize(3,2);
@@ -85,6 +89,7 @@ namespace momentumopt
 
   void TrajectoryGenerator::update(const double time)
   {
+    if (!has_duration_) { return; }
     for (int dir=0; dir<3; dir++)
       traj_interp_[dir].interpolate(time, pos_des_(dir), vel_des_(dir), acc_des_(dir));
   }
-- 
2.43.0


From 3348dde6a39da5473403abc59e8e354931863e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:58 +0000
Subject: [PATCH 36/58] fix: a contact made within the first step was searched
 for as if made later

---
 momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp b/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp
index 664096a..7eb6f41 100644
--- a/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp
+++ b/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp
@@ -66,7 +66,7 @@ namespace momentumopt {
           int ini_id = 0, end_id = 0;
 
           // configuration of end-effectors first flight phase, when not in contact
-          if (!ini_state.endeffectorActivation(eff_id)) {
+          if (!ini_state.endeffectorActivation(eff_id) && !dynamics_sequence.dynamicsState(0).endeffectorActivation(eff_id)) {
             ini_id = 0;
             end_id = findMakeContactId(dynamics_sequence, ini_id, eff_id);
             viapoint_position = 0.5*(ini_state.endeffectorPosition(eff_id) + contact_sequence_.endeffectorContacts(eff_id)[0].contactPosition());
-- 
2.43.0


From 7dd37ac99f6ad6fd64c4e44017d8d001f037aa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:18 +0000
Subject: [PATCH 37/58] fix: storing a plan assigned joint velocities to a
 matrix of another size

---
 momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
index 9eedd6c..ec513e9 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
@@ -709,7 +709,7 @@ namespace momentumopt {
         for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++) { mat_guess_.col(time_id) = kin_sequence.kinematicsState(time_id).angularMomentum(); } qcqp_cfg["dynopt_params"]["ang_mom_ref"] = mat_guess_;
 
         // building sequences of joint velocities and accelerations
-        mat_guess_.resize(this->getSetting().get(PlannerIntParam_NumExtendedActiveDofs), this->getSetting().get(PlannerIntParam_NumTimesteps));    mat_guess_.setZero();
+        mat_guess_.resize(kin_sequence.kinematicsState(0).robotVelocity().generalizedJointVelocities().size(), this->getSetting().get(PlannerIntParam_NumTimesteps));    mat_guess_.setZero();
         for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++) { mat_guess_.col(time_id) = kin_sequence.kinematicsState(time_id).robotVelocity().generalizedJointVelocities();  } qcqp_cfg["dynopt_params"]["jnt_vel"] = mat_guess_;
         for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++) { mat_guess_.col(time_id) = kin_sequence.kinematicsState(time_id).robotAcceleration().generalizedJointAccelerations();  } qcqp_cfg["dynopt_params"]["jnt_acc"] = mat_guess_;
 
-- 
2.43.0


From 4551b8231ab8de3e3fc021d58988c49607e5f07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:28 +0000
Subject: [PATCH 38/58] fix: executing a motion shorter than four seconds
 failed at its end

The index of the planned step ran past the last state of the plan, and was
left behind when steps are shorter than a control cycle.
---
 momentumopt/python/momentumopt/motion_execution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/python/momentumopt/motion_execution.py b/momentumopt/python/momentumopt/motion_execution.py
index 4eb08d3..fc2fb0e 100644
--- a/momentumopt/python/momentumopt/motion_execution.py
+++ b/momentumopt/python/momentumopt/motion_execution.py
@@ -427,7 +427,7 @@ class MotionExecutor(MotionSimulator):
 
                 while loop < max_num_iterations:
                     t = loop / 1e3
-                    if t > self.time_vector[time_id]:
+                    while time_id < len(self.time_vector) - 1 and t > self.time_vector[time_id]:
                         time_id += 1
 
                     des_pos = desired_pos(t)
-- 
2.43.0


From 9b1b99c4959f78ec7c0aa0b39e511dbc4483c5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:28 +0000
Subject: [PATCH 39/58] fix: torques that are not numbers passed the torque
 limits

Comparisons with NaN are false, so it was sent to the robot.
---
 momentumopt/python/momentumopt/motion_execution.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/momentumopt/python/momentumopt/motion_execution.py b/momentumopt/python/momentumopt/motion_execution.py
index fc2fb0e..9cf3660 100644
--- a/momentumopt/python/momentumopt/motion_execution.py
+++ b/momentumopt/python/momentumopt/motion_execution.py
@@ -342,6 +342,7 @@ class MotionExecutor(MotionSimulator):
         return com, lmom, amom
 
     def limit_torques(self, torque):
+        torque[np.isnan(torque)] = 0.0  # no torque is known, e.g. for sensor readings that are not numbers
         torque[torque < self.tau_min] = self.tau_min
         torque[torque > self.tau_max] = self.tau_max
         return torque
-- 
2.43.0


From 0549af1de559ef9960e9850e50bb314cedbea09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:28 +0000
Subject: [PATCH 40/58] fix: momentum feedback used the time since the start as
 length of a control cycle

The last element of the recorded times is zero until the motion ends.
---
 momentumopt/python/momentumopt/motion_execution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/python/momentumopt/motion_execution.py b/momentumopt/python/momentumopt/motion_execution.py
index 9cf3660..3d692bb 100644
--- a/momentumopt/python/momentumopt/motion_execution.py
+++ b/momentumopt/python/momentumopt/motion_execution.py
@@ -464,7 +464,7 @@ class MotionExecutor(MotionSimulator):
                         if loop == 0:
                             delta_t = 0
                         else:
-                            delta_t = t - t_vec[-1]
+                            delta_t = t - t_vec[loop - 1]
                         joint_configuration = q[7:].reshape((-1))
                         base_state = np.zeros((7))
                         base_state[:3], base_state[3:] = p.getBasePositionAndOrientation(self.robotId)
-- 
2.43.0


From 598480910adcf6ca3f8d91fe91e7707c4c9a7b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:28 +0000
Subject: [PATCH 41/58] fix: planned forces were mapped to torques with the
 jacobians of another configuration

Without feedback those of the initial configuration of the model were used in
all cycles, with feedback those of the previous cycle.
---
 momentumopt/python/momentumopt/motion_execution.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/momentumopt/python/momentumopt/motion_execution.py b/momentumopt/python/momentumopt/motion_execution.py
index 3d692bb..6a58636 100644
--- a/momentumopt/python/momentumopt/motion_execution.py
+++ b/momentumopt/python/momentumopt/motion_execution.py
@@ -448,12 +448,10 @@ class MotionExecutor(MotionSimulator):
                     planned_force = np.zeros((3 * len(self.robot.effs)))
                     jacobians_effs = np.zeros((3 * len(self.robot.effs), self.robot.robot.nv))
                     for eff_id, eff in enumerate(self.robot.effs):
-                        eff = eff + "_ANKLE"
                         force = self.optimized_dyn_plan.dynamics_states[time_id].effForce(eff_id) * robot_weight
                         # force = self.optimized_dyn_plan.dynamics_states[min(time_id - force_offset, len(self.time_vector) - 1)].effForce(eff_id) * robot_weight
                         # force = self.optimized_dyn_plan.dynamics_states[max(time_id - force_offset, 0)].effForce(eff_id) * robot_weight
                         planned_force[eff_id * 3 : eff_id * 3 + 3] = force
-                        jacobians_effs[eff_id * 3 : eff_id * 3 + 3, :] = jacobians_eff[eff]()
 
                     if self.dynamics_feedback is None:
                         use_dyn_feedback = False
@@ -474,8 +472,13 @@ class MotionExecutor(MotionSimulator):
                         delta_momentum = current_momentum - desired_momentum
                         delta_force = np.dot(dyn_feedback(t), delta_momentum)
                     else:
+                        self.robot.set_configuration(q.copy())
                         delta_force = np.zeros_like(planned_force)
 
+                    # the momentum above needs the previous configuration, the jacobians the current one
+                    for eff_id, eff in enumerate(self.robot.effs):
+                        jacobians_effs[eff_id * 3 : eff_id * 3 + 3, :] = jacobians_eff[eff + "_ANKLE"]()
+
                     ptau += np.reshape(np.transpose(np.dot(np.transpose(jacobians_effs), planned_force + delta_force))[6:], (ptau.shape[0], 1))
 
                     self.limit_torques(ptau)
-- 
2.43.0


From c23ffc964e5190b2b66fb48bcce4d052c31c6e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:28 +0000
Subject: [PATCH 42/58] fix: torques were sent to other joints for some joint
 orders of the robot model

The inverse of the permutation was applied, which is the same only for orders
that swap joints in pairs.
---
 momentumopt/python/momentumopt/robots/simulator.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/momentumopt/python/momentumopt/robots/simulator.py b/momentumopt/python/momentumopt/robots/simulator.py
index d0ecb3f..495d918 100644
--- a/momentumopt/python/momentumopt/robots/simulator.py
+++ b/momentumopt/python/momentumopt/robots/simulator.py
@@ -35,9 +35,8 @@ class Simulator(object):
         self.bullet_joint_ids = np.array([bullet_joint_map[name] for name in joint_names])
         self.pinocchio_joint_ids = np.array([pinocchio_robot.model.getJointId(name) for name in joint_names])
 
-        self.pin2bullet_joint_only_array = []
-        for i in range(2, self.nj + 2):
-            self.pin2bullet_joint_only_array.append(np.where(self.pinocchio_joint_ids == i)[0][0])
+        # index of the torque of every joint in the order of joint_names
+        self.pin2bullet_joint_only_array = [joint_id - 2 for joint_id in self.pinocchio_joint_ids]
 
 
         # Disable the velocity control on the joints as we use torque control.
-- 
2.43.0


From 80f466dfe967bbdebc1f4f3828023499d769ad30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:48 +0000
Subject: [PATCH 43/58] fix: the exported joint velocities were those of the
 end-effectors

quadruped_velocities.dat was a copy of quadruped_velocities_eff.dat, next to
the joint positions in quadruped_positions.dat.
---
 momentumopt/python/momentumopt/kinoptpy/create_data_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/create_data_file.py b/momentumopt/python/momentumopt/kinoptpy/create_data_file.py
index 49bcc7a..5537abf 100644
--- a/momentumopt/python/momentumopt/kinoptpy/create_data_file.py
+++ b/momentumopt/python/momentumopt/kinoptpy/create_data_file.py
@@ -177,7 +177,7 @@ def create_qp_files(time_vector, optimized_motion_eff, optimized_sequence, optim
 
         print("saving trajectories....")
         np.savetxt("quadruped_positions.dat", desired_joint_positions)
-        np.savetxt("quadruped_velocities.dat", des_velocities_final)
+        np.savetxt("quadruped_velocities.dat", desired_joint_velocities)
         np.savetxt("quadruped_positions_eff.dat", des_positions_final)
         np.savetxt("quadruped_velocities_eff.dat", des_velocities_final)
         np.savetxt("quadruped_com.dat", des_com)
-- 
2.43.0


From 8f3a2e3b5e65ed7d2499dbbd8aa9143231b07098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:02 +0000
Subject: [PATCH 44/58] fix: contacts lasting to the end of the plan were left
 out of the end-effector references

---
 .../kinoptpy/momentum_kinematics_optimizer.py | 25 +++++++++----------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py b/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
index a8309fe..fa6667a 100644
--- a/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
+++ b/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
@@ -47,19 +47,18 @@ class EndeffectorTrajectoryGenerator(object):
         contact_plan = {}
         for i, eff in enumerate(mom_kin_optimizer.eff_names):
             contact_plan[eff] = []
-            start_time = 0.
-            count = 1
-            for it in range(mom_kin_optimizer.num_time_steps-1):
-                current_contact_activation = mom_kin_optimizer.dynamic_sequence.dynamics_states[it].effActivation(i)
-                last_contact_activation = mom_kin_optimizer.dynamic_sequence.dynamics_states[it+1].effActivation(i)
-                if not current_contact_activation == last_contact_activation:
-                    if (count%2 == 0):
-                        start_time = it+1
-                    elif (count%2 == 1 or it == mom_kin_optimizer.num_time_steps-1):
-                        end_time = it
-                        plan = [start_time, end_time, mom_kin_optimizer.dynamic_sequence.dynamics_states[it].eff(i)]
-                        contact_plan[eff].append(plan)
-                    count += 1
+            start_time = None
+            for it in range(mom_kin_optimizer.num_time_steps):
+                if not mom_kin_optimizer.dynamic_sequence.dynamics_states[it].effActivation(i):
+                    continue
+                if start_time is None:
+                    start_time = it
+                # The contact ends before the next swing phase or with the plan.
+                if it == mom_kin_optimizer.num_time_steps-1 or \
+                        not mom_kin_optimizer.dynamic_sequence.dynamics_states[it+1].effActivation(i):
+                    plan = [start_time, it, mom_kin_optimizer.dynamic_sequence.dynamics_states[it].eff(i)]
+                    contact_plan[eff].append(plan)
+                    start_time = None
         return contact_plan
 
 
-- 
2.43.0


From ce3f19efaaad474d2bf8fd7930670fbe9b440a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:02 +0000
Subject: [PATCH 45/58] fix: flight phases overwrote the planned linear
 momentum

---
 .../momentumopt/kinoptpy/momentum_kinematics_optimizer.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py b/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
index fa6667a..d886f8f 100644
--- a/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
+++ b/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
@@ -391,7 +391,7 @@ class MomentumKinematicsOptimizer(object):
                     amom_ref = mom_ref_flight[3:6]
                     lmom_ref[2] -= self.planner_setting.get(PlannerDoubleParam_RobotWeight) * self.dt
                 else:
-                    lmom_ref = self.lmom_dyn[it]
+                    lmom_ref = self.lmom_dyn[it].copy()
                     amom_ref = (self.reg_orientation * se3.log((quad_goal * quad_q.inverse()).matrix()).T + self.amom_dyn[it]).reshape(-1)
 
                 joint_regularization_ref = self.reg_joint_position * (self.joint_des[:,it] - q[7 : ])
-- 
2.43.0


From 028487fc5798de1664f4b7d1ff4dc2fa7ae680ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:02 +0000
Subject: [PATCH 46/58] fix: stored end-effector velocities used the jacobians
 of another posture

---
 .../momentumopt/kinoptpy/momentum_kinematics_optimizer.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py b/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
index d886f8f..731f9eb 100644
--- a/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
+++ b/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
@@ -250,7 +250,7 @@ class MomentumKinematicsOptimizer(object):
 
         # The endeffector informations as well.
         self.motion_eff['trajectory'][it] = framesPos(self.inv_kin.endeff_ids)
-        self.motion_eff['velocity'][it] = self.inv_kin.J[6:(self.inv_kin.ne + 2) * 3].dot(dq).T
+        self.motion_eff['velocity'][it] = framesVel(self.inv_kin.endeff_ids)
 
         self.motion_eff['trajectory_wrt_base'][it] = \
             self.motion_eff['trajectory'][it] - framesPos(self.hip_ids)
-- 
2.43.0


From 3f33e75a8b5328837d21cd358cb295f1d83d83b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:02 +0000
Subject: [PATCH 47/58] fix: an initialised kinematics optimizer kept the
 initial configuration of an earlier problem

---
 .../momentumopt/kinoptpy/momentum_kinematics_optimizer.py     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py b/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
index 731f9eb..f746cf3 100644
--- a/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
+++ b/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
@@ -190,6 +190,10 @@ class MomentumKinematicsOptimizer(object):
 
         self.robot = RobotWrapper()
 
+        # The initial configuration belongs to the previous robot and settings.
+        self.q_init = None
+        self.dq_init = None
+
         self.reset()
 
         # Holds dynamics and kinematics results
-- 
2.43.0


From 2a8810c9487355ba72a8f65045edb900fc62b86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:02 +0000
Subject: [PATCH 48/58] fix: second order inverse kinematics did not integrate
 over whole time steps

---
 momentumopt/python/momentumopt/kinoptpy/second_order_ik.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/second_order_ik.py b/momentumopt/python/momentumopt/kinoptpy/second_order_ik.py
index b3fae41..a74cc45 100644
--- a/momentumopt/python/momentumopt/kinoptpy/second_order_ik.py
+++ b/momentumopt/python/momentumopt/kinoptpy/second_order_ik.py
@@ -195,8 +195,8 @@ class SecondOrderInverseKinematics(object):
         dq_kin = np.zeros([num_time_steps,dq_init.shape[0]])
         ddq_kin = np.zeros_like(dq_kin)
 
-        inner_steps = int(dt/0.001)
-        inner_dt = 0.001
+        inner_steps = max(1, int(round(dt/0.001)))
+        inner_dt = dt / inner_steps
         time = np.linspace(0., (num_time_steps-1)*dt, num_time_steps)
         splined_com_ref = CubicSpline(time, com_ref)
         splined_lmom_ref = CubicSpline(time, lmom_ref)
-- 
2.43.0


From eda10824c442755cd666e01fbadf88c5940ec1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:02 +0000
Subject: [PATCH 49/58] fix: second order inverse kinematics fed back the
 momentum of the last whole time step

---
 momentumopt/python/momentumopt/kinoptpy/second_order_ik.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/momentumopt/python/momentumopt/kinoptpy/second_order_ik.py b/momentumopt/python/momentumopt/kinoptpy/second_order_ik.py
index a74cc45..f511990 100644
--- a/momentumopt/python/momentumopt/kinoptpy/second_order_ik.py
+++ b/momentumopt/python/momentumopt/kinoptpy/second_order_ik.py
@@ -115,6 +115,8 @@ class SecondOrderInverseKinematics(object):
     def update_kinematics(self, q, dq):
         # Update the pinocchio model.
         self.robot.forwardKinematics(q, dq)
+        # Momentum and velocity of the center of mass (data.hg, data.vcom)
+        self.robot.centroidalMomentum(q, dq)
         self.robot.computeJointJacobians(q)
         self.robot.framesForwardKinematics(q)
         pin.computeJointJacobiansTimeVariation(self.robot.model, self.robot.data, q, dq)
-- 
2.43.0


From 17b0bbc74c31a9c4b9674b90954abb57c68eb837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:47 +0000
Subject: [PATCH 50/58] fix: the feedback cost of the final time step read
 beyond the end of the plan

---
 momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp
index f3c7f90..2584d0e 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp
@@ -65,8 +65,9 @@ namespace momentumopt {
 	}
 
 	double objective = 0.0;
+    // the plan has no forces at the final time step
     for (int eff_id=0; eff_id<this->getSetting().get(PlannerIntParam_NumActiveEndeffectors); eff_id++)
-      if (this->dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id))
+      if (!is_final_timestep && this->dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id))
         objective += control.feedforward().segment<3>(3*eff_id).dot( control_cost_*(control.feedforward().segment<3>(3*eff_id)) );
 
     if (time_id>0) {
-- 
2.43.0


From ef267be8b1398c3a47e794aa170e1d99b0402b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:47 +0000
Subject: [PATCH 51/58] fix: feedback on a new plan started from the feedback
 of the previous one

---
 .../src/momentumopt/dynopt/DynamicsFeedback.cpp     | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp
index 2584d0e..600d7fb 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp
@@ -18,17 +18,20 @@ namespace momentumopt {
   {
     ref_dyn_sequence_ = &dyn_sequence;
 
-    this->stateSeq().state(0).stateVector().segment<3>(0) = ini_state.centerOfMass();
-    this->stateSeq().state(0).stateVector().segment<3>(3) = ini_state.linearMomentum();
-    this->stateSeq().state(0).stateVector().segment<3>(6) = ini_state.angularMomentum();
-
     if (this->tdim() != this->dynamicsSequence().size()) {
         throw std::runtime_error("LQR and trajectory optimization size do not match. "
                 "Check if the LQR time_step and time_horizon match the dynamics parameters.");
     }
 
+    // nothing of an earlier optimization takes part in this one
+    this->stateSeq().resize(this->tdim()+1, this->xdim());
+    this->controlSeq().resize(this->tdim(), this->xdim(), this->udim());
+
+    this->stateSeq().state(0).stateVector().segment<3>(0) = ini_state.centerOfMass();
+    this->stateSeq().state(0).stateVector().segment<3>(3) = ini_state.linearMomentum();
+    this->stateSeq().state(0).stateVector().segment<3>(6) = ini_state.angularMomentum();
+
     for (int time_id=0; time_id<this->dynamicsSequence().size(); time_id++) {
-      this->controlSeq().control(time_id).feedforward().setZero();
       for (int eff_id=0; eff_id<this->getSetting().get(PlannerIntParam_NumActiveEndeffectors); eff_id++)
         if (this->dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id))
           this->controlSeq().control(time_id).feedforward().segment<3>(3*eff_id) =  this->getSetting().get(PlannerDoubleParam_MassTimesGravity)*this->dynamicsSequence().dynamicsState(time_id).endeffectorForce(eff_id);
-- 
2.43.0


From b408018e669b2ccc9da33feafe6db28ccc8fa0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:47 +0000
Subject: [PATCH 52/58] fix: missing or ill-sized weights of the feedback on
 momentum plans were not reported

---
 momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp
index 600d7fb..a870c28 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp
@@ -53,7 +53,12 @@ namespace momentumopt {
     catch (std::runtime_error& e)
     {
       std::cout << "Error reading parameter ["<< e.what() << "] at file: [" << __FILE__ << "]" << std::endl;
+      throw;
     }
+
+    for (const Eigen::MatrixXd* weight : { &control_cost_, &com_tracking_, &lmom_tracking_, &amom_tracking_, &com_final_tracking_, &lmom_final_tracking_, &amom_final_tracking_ })
+      if (weight->rows() != 3)
+        throw std::runtime_error("The weights of the feedback on momentum plans need 3 values each.");
   }
 
   double DynamicsFeedback::objective(const solverlqr::StateBase& state, const solverlqr::ControlBase& control, int time_id, bool is_final_timestep)
-- 
2.43.0


From 094146e14b3998d8f297d08bba78473c1e2d9e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:47 +0000
Subject: [PATCH 53/58] fix: state and control dimensions that do not fit the
 momentum dynamics were not reported

---
 momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp
index a870c28..0902e12 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp
@@ -23,6 +23,10 @@ namespace momentumopt {
                 "Check if the LQR time_step and time_horizon match the dynamics parameters.");
     }
 
+    if (this->xdim() != 9 || this->udim() < 3*this->getSetting().get(PlannerIntParam_NumActiveEndeffectors)) {
+        throw std::runtime_error("LQR state or control dimension does not match the momentum dynamics.");
+    }
+
     // nothing of an earlier optimization takes part in this one
     this->stateSeq().resize(this->tdim()+1, this->xdim());
     this->controlSeq().resize(this->tdim(), this->xdim(), this->udim());
-- 
2.43.0


From 2f3d56051673e8691f492e1b858cc50402ef662b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:47 +0000
Subject: [PATCH 54/58] fix: a trajectory that is optimal from the start was
 left without feedback

---
 solver_lqr/src/solver_lqr/SolverLqr.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/solver_lqr/src/solver_lqr/SolverLqr.cpp b/solver_lqr/src/solver_lqr/SolverLqr.cpp
index b0af952..d377cf8 100644
--- a/solver_lqr/src/solver_lqr/SolverLqr.cpp
+++ b/solver_lqr/src/solver_lqr/SolverLqr.cpp
@@ -92,6 +92,9 @@ namespace solverlqr {
       // Check for termination due to small gradient
       this->getLqrInfo().get(SolverLqrDoubleParam_ControlGradient) = ControlSequence::controlSequenceGradientNorm(this->getBackPass().controlSeq(), this->getOcp().controlSeq());
       if (this->getLqrInfo().get(SolverLqrDoubleParam_ControlGradient) < this->getLqrSetting().get(SolverLqrDoubleParam_ControlGradientTolerance)) {
+        if (backpass_flag_)
+          for (int time_id=0; time_id<this->getOcp().tdim(); time_id++)
+            this->getOcp().controlSeq().control(time_id).feedback() = this->getBackPass().controlSeq().control(time_id).feedback();
         this->getPrinter().display(MsgLqr::SUCC_gradient, this->getLqrInfo());
         break;
       }
-- 
2.43.0


From 22990749306d2c23d2a23956603284ec1cf12291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:33 +0000
Subject: [PATCH 55/58] fix: the second differences of the tracking cost
 drifted away from the trajectory

---
 momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py b/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
index a570e15..7de270e 100644
--- a/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
+++ b/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
@@ -292,7 +292,7 @@ class CentroidalLqr:
                 spp = self.cost(t, self.increment_x(x,dx1), u)
                 dx1[col] -= 2*self.eps 
                 spm = self.cost(t, self.increment_x(x,dx1), u)
-                dx1[col] -= self.eps 
+                dx1[col] += self.eps 
                 # 
                 dx2[col] += self.eps
                 smp = self.cost(t, self.increment_x(x,dx2), u)
-- 
2.43.0


From 76c720b7ba1e3714c41ea399b7a0bd398cc8ee96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:33 +0000
Subject: [PATCH 56/58] fix: the derivatives of the centroidal dynamics had the
 wrong sign

---
 momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py b/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
index 7de270e..b463ef3 100644
--- a/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
+++ b/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
@@ -229,14 +229,14 @@ class CentroidalLqr:
         for i in range(self.nx): 
             dx[i] = self.eps 
             fp = self.integrate_step(t, self.increment_x(x,dx), u)
-            fx[:,i] = self.diff_x(fp, f0)
+            fx[:,i] = self.diff_x(f0, fp)
             dx[i] = 0. 
         fx /= self.eps 
         du = np.zeros(self.m)
         for i in range(self.m): 
             du[i] = self.eps 
             fp = self.integrate_step(t, x, u+du)
-            fu[:,i] = self.diff_x(fp, f0)
+            fu[:,i] = self.diff_x(f0, fp)
             du[i] = 0.
         fu /= self.eps 
         return fx, fu  
-- 
2.43.0


From 3cdbb81255e92b7ce642189914e8d7d304c30665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:33 +0000
Subject: [PATCH 57/58] fix: interrupts and exhausted memory silently changed
 the tracking gains

---
 momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py b/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
index b463ef3..1ae0979 100644
--- a/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
+++ b/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
@@ -385,7 +385,7 @@ class CentroidalLqr:
             lQuu = linalg.cho_factor(self.Qdudu[t])
             self.kff[t,:] = linalg.cho_solve(lQuu, self.Qdu[t])
             self.kfb[t,:,:] = linalg.cho_solve(lQuu, self.Qdxdu[t].T)
-        except:
+        except linalg.LinAlgError:
             # print 'smoothing '
             invQuu = self._smooth_inv(self.Qdudu[t])
             self.kff[t,:] = invQuu.dot(self.Qdu[t])
-- 
2.43.0


From fd7c103d900e5f769ff8113bef1d946e5ba5c01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:09 +0000
Subject: [PATCH 58/58] fix: trajectories cut down to two samples were spread
 over the whole plan

---
 momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py b/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
index 1ae0979..dee89d5 100644
--- a/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
+++ b/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
@@ -36,6 +36,11 @@ class CentroidalLqr:
         self.cent_moments = np.loadtxt(dir + "/quadruped_centroidal_moments.dat", dtype=float)[:, [1,2,3]]
         #
         self.contact_plan = np.loadtxt(dir + "/quadruped_contact_activation.dat", dtype=float)
+        # a file with two samples only would be broadcast over all time steps
+        for trajectory in [self.com_vel, self.com_ori, self.com_ang_vel,
+                           self.cent_force, self.cent_moments, self.contact_plan]:
+            if trajectory.shape[0] != self.com_pos.shape[0]:
+                raise ValueError('Trajectories have different lengths')
         #
         self.eps = 1.e-6
         self.dt = 1.e-3
-- 
2.43.0


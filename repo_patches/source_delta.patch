From b8da10bbd10b59b5d5b95b44c0eea68297f3b33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:36 +0000
Subject: [PATCH 01/39] fix: regularization could not be increased from zero

---
 src/ddp.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ddp.cpp b/src/ddp.cpp
index f5d9ada..410b3af 100644
--- a/src/ddp.cpp
+++ b/src/ddp.cpp
@@ -430,6 +430,11 @@ void SolverDDP::computeGains(const std::size_t t) {
 
 void SolverDDP::increaseRegularization() {
   preg_ *= reg_incfactor_;
+  // Scaling cannot lift a zero regularization: restart from its smallest
+  // positive value, otherwise reg_max_ is never reached.
+  if (preg_ <= 0.) {
+    preg_ = std::max(reg_min_, 1e-9);
+  }
   if (preg_ > reg_max_) {
     preg_ = reg_max_;
   }
-- 
2.43.0


From 64ef43002f9ceedfdd18dcf5101a48a000926fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:36 +0000
Subject: [PATCH 02/39] fix: CSQP line search hid the step length member, so
 the reported step length and the regularization update never saw it

---
 src/csqp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index 0e1eb79..76b7207 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -313,7 +313,8 @@ bool SolverCSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     bool found = false;
     // less than filter_size_, less or equal iter_
     const std::size_t max_count = std::min(filter_size_, iter_ + 1);
-    for (const double steplength_ : alphas_) {
+    for (const double alpha : alphas_) {
+      steplength_ = alpha;
       try {
         merit_try_ = tryStep(steplength_);
       } catch (std::exception& e) {
-- 
2.43.0


From a58b2e7169692d6bffb43cebedd4b7672c04b540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:36 +0000
Subject: [PATCH 03/39] fix: CSQP ignored th_stepinc when deciding to increase
 the regularization

---
 src/csqp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index 76b7207..a718160 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -355,7 +355,8 @@ bool SolverCSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     if (!remove_reg_) {
       if (steplength_ > th_stepdec_) {
         decreaseRegularization();
-      } else {
+      }
+      if (steplength_ <= th_stepinc_) {
         increaseRegularization();
         // preg_ equal to reg_max_
         if (preg_ >= reg_max_) {
-- 
2.43.0


From 32867d2e1de52d99dd736bb3cc5b5b41c4b6c681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 04/39] fix: SQP evaluated cost and gaps at the last rejected
 trial after a failed line search

---
 src/sqp.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/sqp.cpp b/src/sqp.cpp
index 5333fcb..96a073c 100644
--- a/src/sqp.cpp
+++ b/src/sqp.cpp
@@ -98,8 +98,6 @@ bool SolverSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
 
   bool recalcDiff = true;
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
-    recalcDiff = true;
-
     while (true) {
       try {
         computeDirection(recalcDiff);
@@ -134,6 +132,7 @@ bool SolverSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     cost_list_.push_back(cost_);
 
     // We need to recalculate the derivatives when the step length passes
+    recalcDiff = false;
     for (std::vector<double>::const_iterator it = alphas_.begin();
          it != alphas_.end(); ++it) {
       steplength_ = *it;
@@ -184,8 +183,6 @@ bool SolverSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
   }
 
   if (extra_iteration_for_last_kkt_) {
-    recalcDiff = true;
-
     while (true) {
       try {
         computeDirection(recalcDiff);
-- 
2.43.0


From 28f4a31771935fe56fa9687da64354bac9f50218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 05/39] fix: a failed evaluation of the model was followed by a
 direction from stale derivatives

---
 src/csqp_proxqp.cpp | 1 -
 src/ddp.cpp         | 1 -
 src/fddp.cpp        | 1 -
 src/sqp.cpp         | 2 --
 4 files changed, 5 deletions(-)

diff --git a/src/csqp_proxqp.cpp b/src/csqp_proxqp.cpp
index 55b11cc..887eb7d 100644
--- a/src/csqp_proxqp.cpp
+++ b/src/csqp_proxqp.cpp
@@ -175,7 +175,6 @@ bool SolverPROXQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
       try {
         computeDirection(recalcDiff);
       } catch (std::exception& e) {
-        recalcDiff = false;
         increaseRegularization();
         if (preg_ == reg_max_) {
           return false;
diff --git a/src/ddp.cpp b/src/ddp.cpp
index 410b3af..4ef4d12 100644
--- a/src/ddp.cpp
+++ b/src/ddp.cpp
@@ -86,7 +86,6 @@ bool SolverDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
       try {
         computeDirection(recalcDiff);
       } catch (std::exception& e) {
-        recalcDiff = false;
         increaseRegularization();
         if (preg_ == reg_max_) {
           return false;
diff --git a/src/fddp.cpp b/src/fddp.cpp
index 0f7f542..9a469cc 100644
--- a/src/fddp.cpp
+++ b/src/fddp.cpp
@@ -80,7 +80,6 @@ bool SolverFDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
       try {
         computeDirection(recalcDiff);
       } catch (std::exception& e) {
-        recalcDiff = false;
         increaseRegularization();
         if (preg_ == reg_max_) {
           return false;
diff --git a/src/sqp.cpp b/src/sqp.cpp
index 96a073c..00f8d87 100644
--- a/src/sqp.cpp
+++ b/src/sqp.cpp
@@ -102,7 +102,6 @@ bool SolverSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
       try {
         computeDirection(recalcDiff);
       } catch (std::exception& e) {
-        recalcDiff = false;
         increaseRegularization();
         if (preg_ == reg_max_) {
           return false;
@@ -187,7 +186,6 @@ bool SolverSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
       try {
         computeDirection(recalcDiff);
       } catch (std::exception& e) {
-        recalcDiff = false;
         increaseRegularization();
         if (preg_ == reg_max_) {
           return false;
-- 
2.43.0


From d441fa1e617fc4ec21e3e85d0c8f230c0fca933e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:33 +0000
Subject: [PATCH 06/39] fix: line searches accepted trials with non-finite gaps
 or constraint violations

---
 src/csqp.cpp        | 3 ++-
 src/csqp_proxqp.cpp | 3 ++-
 src/sqp.cpp         | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index a718160..40c39db 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -1426,7 +1426,8 @@ double SolverCSQP::tryStep(const double steplength) {
                  mu_constraint_ * constraint_norm_try_;
   }
 
-  if (raiseIfNaN(cost_try_)) {
+  if (raiseIfNaN(cost_try_) || raiseIfNaN(gap_norm_try_) ||
+      raiseIfNaN(constraint_norm_try_)) {
     profiler_tryStep.stop();
     throw_pretty("step_error");
   }
diff --git a/src/csqp_proxqp.cpp b/src/csqp_proxqp.cpp
index 887eb7d..f21bf10 100644
--- a/src/csqp_proxqp.cpp
+++ b/src/csqp_proxqp.cpp
@@ -525,7 +525,8 @@ double SolverPROXQP::tryStep(const double steplength) {
   merit_try_ = cost_try_ + mu_dynamic_ * gap_norm_try_ +
                mu_constraint_ * constraint_norm_try_;
 
-  if (raiseIfNaN(cost_try_)) {
+  if (raiseIfNaN(cost_try_) || raiseIfNaN(gap_norm_try_) ||
+      raiseIfNaN(constraint_norm_try_)) {
     STOP_PROFILER("SolverPROXQP::tryStep");
     throw_pretty("step_error");
   }
diff --git a/src/sqp.cpp b/src/sqp.cpp
index 00f8d87..3dd094d 100644
--- a/src/sqp.cpp
+++ b/src/sqp.cpp
@@ -358,7 +358,7 @@ double SolverSQP::tryStep(const double steplength) {
 
   merit_try_ = cost_try_ + mu_dynamic_ * gap_norm_try_;
 
-  if (raiseIfNaN(cost_try_)) {
+  if (raiseIfNaN(cost_try_) || raiseIfNaN(gap_norm_try_)) {
     STOP_PROFILER("SolverSQP::tryStep");
     throw_pretty("step_error");
   }
-- 
2.43.0


From 36b5c96148dd42e1b2b981f1a4f88027b7a0cc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 07/39] fix: CSQP reported one QP iteration too many when the
 QP budget ran out

---
 src/csqp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index 40c39db..5bd95da 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -513,6 +513,8 @@ void SolverCSQP::computeDirection(const bool /*recalcDiff*/) {
       }
     }
   }
+  // Leaving the loop by its bound counted one iteration that never ran
+  qp_iters_ = std::min(qp_iters_, max_qp_iters_);
 
   STOP_PROFILER("SolverCSQP::computeDirection");
   // MIM_SOLVERS_EIGEN_MALLOC_ALLOWED();
-- 
2.43.0


From 1f3bad2e8a8be57738a211213bea9c14fdcfacb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:08 +0000
Subject: [PATCH 08/39] fix: CSQP used an uninitialized factorization at nodes
 without controls

---
 src/csqp.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index 5bd95da..f9962db 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -1097,8 +1097,10 @@ void SolverCSQP::backwardPass_without_rho_update() {
     }
 
     profiler_k.start();
-    k_[t] = Qu_[t];
-    Quu_llt_[t].solveInPlace(k_[t]);
+    if (nu != 0) {  // an autonomous node has no factorization to use
+      k_[t] = Qu_[t];
+      Quu_llt_[t].solveInPlace(k_[t]);
+    }
     profiler_k.stop();
 
     profiler_Vx.start();
@@ -1190,6 +1192,9 @@ void SolverCSQP::backwardPass_without_rho_update_mt() {
 #pragma omp parallel for num_threads(problem_->get_nthreads())
 #endif  // CROCODDYL_WITH_MULTITHREADING
   for (std::size_t t = 0; t < T; ++t) {
+    if (models[t]->get_nu() == 0) {  // no factorization to use
+      continue;
+    }
     k_[t] = Qu_[t];
     Quu_llt_[t].solveInPlace(k_[t]);
   }
-- 
2.43.0


From 4fcfeace72360c7c5996bfc8df5bd1156935b49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:16 +0000
Subject: [PATCH 09/39] fix: the KKT residual ignored NaN, so solve() could
 report convergence at a point without finite values

---
 src/csqp.cpp        | 5 +++++
 src/csqp_proxqp.cpp | 5 +++++
 src/ddp.cpp         | 4 ++++
 src/fddp.cpp        | 4 ++++
 src/sqp.cpp         | 4 ++++
 5 files changed, 22 insertions(+)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index f9962db..c24ccb1 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -629,6 +629,11 @@ void SolverCSQP::checkKKTConditions() {
   x_grad_norm_ += dxtilde_.back().lpNorm<1>();
   x_grad_norm_ = x_grad_norm_ / static_cast<double>(T + 1);
   u_grad_norm_ = u_grad_norm_ / static_cast<double>(T);
+  // lpNorm and std::max may drop a NaN
+  if (lag_mul_[0].hasNaN() || fs_flat_.hasNaN() ||
+      std::isnan(constraint_norm_)) {
+    KKT_ = std::numeric_limits<double>::infinity();
+  }
 }
 
 void SolverCSQP::forwardPass(const double /*stepLength*/) {
diff --git a/src/csqp_proxqp.cpp b/src/csqp_proxqp.cpp
index f21bf10..5d84af4 100644
--- a/src/csqp_proxqp.cpp
+++ b/src/csqp_proxqp.cpp
@@ -447,6 +447,11 @@ void SolverPROXQP::checkKKTConditions() {
 
   KKT_ = std::max(KKT_, fs_flat_.lpNorm<Eigen::Infinity>());
   KKT_ = std::max(KKT_, constraint_norm_);
+  // lpNorm and std::max may drop a NaN
+  if (q_.hasNaN() || A_.hasNaN() || C_.hasNaN() || b_.hasNaN() ||
+      std::isnan(constraint_norm_)) {
+    KKT_ = std::numeric_limits<double>::infinity();
+  }
 }
 
 double SolverPROXQP::tryStep(const double steplength) {
diff --git a/src/ddp.cpp b/src/ddp.cpp
index 4ef4d12..0622863 100644
--- a/src/ddp.cpp
+++ b/src/ddp.cpp
@@ -194,6 +194,10 @@ void SolverDDP::checkKKTConditions() {
   KKT_ =
       std::max(KKT_, (d_ter->Lx - lag_mul_.back()).lpNorm<Eigen::Infinity>());
   KKT_ = std::max(KKT_, fs_flat_.lpNorm<Eigen::Infinity>());
+  // lpNorm and std::max may drop a NaN
+  if (lag_mul_[0].hasNaN() || fs_flat_.hasNaN()) {
+    KKT_ = std::numeric_limits<double>::infinity();
+  }
 }
 
 double SolverDDP::stoppingCriteria() {
diff --git a/src/fddp.cpp b/src/fddp.cpp
index 9a469cc..daa2202 100644
--- a/src/fddp.cpp
+++ b/src/fddp.cpp
@@ -223,6 +223,10 @@ void SolverFDDP::checkKKTConditions() {
   KKT_ =
       std::max(KKT_, (d_ter->Lx - lag_mul_.back()).lpNorm<Eigen::Infinity>());
   KKT_ = std::max(KKT_, fs_flat_.lpNorm<Eigen::Infinity>());
+  // lpNorm and std::max may drop a NaN
+  if (lag_mul_[0].hasNaN() || fs_flat_.hasNaN()) {
+    KKT_ = std::numeric_limits<double>::infinity();
+  }
 }
 
 const Eigen::Vector2d& SolverFDDP::expectedImprovement() {
diff --git a/src/sqp.cpp b/src/sqp.cpp
index 3dd094d..715be96 100644
--- a/src/sqp.cpp
+++ b/src/sqp.cpp
@@ -260,6 +260,10 @@ void SolverSQP::checkKKTConditions() {
   tmp_vec_x_ -= lag_mul_.back();
   KKT_ = std::max(KKT_, tmp_vec_x_.lpNorm<Eigen::Infinity>());
   KKT_ = std::max(KKT_, fs_flat_.lpNorm<Eigen::Infinity>());
+  // lpNorm and std::max may drop a NaN
+  if (lag_mul_[0].hasNaN() || fs_flat_.hasNaN()) {
+    KKT_ = std::numeric_limits<double>::infinity();
+  }
 }
 
 void SolverSQP::forwardPass(const double stepLength) {
-- 
2.43.0


From 9e975375bf2e85dd6a14755646fd38d687ff798f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:16 +0000
Subject: [PATCH 10/39] fix: PROXQP wrote control constraint Jacobians to the
 wrong columns when the number of controls varies

---
 src/csqp_proxqp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csqp_proxqp.cpp b/src/csqp_proxqp.cpp
index 5d84af4..adddb6f 100644
--- a/src/csqp_proxqp.cpp
+++ b/src/csqp_proxqp.cpp
@@ -307,7 +307,7 @@ void SolverPROXQP::calc(const bool recalc) {
       }
     }
     if (nc != 0) {
-      C_.middleCols(T * nx + (t)*nu, nu).middleRows(nin_count, nc) = d->Gu;
+      C_.middleCols(index_u, nu).middleRows(nin_count, nc) = d->Gu;
       l_.segment(nin_count, nc) = lb - d->g;
       u_.segment(nin_count, nc) = ub - d->g;
     }
-- 
2.43.0


From 1ff204f5dbbaa6d24ae246b02318cfa5b1571416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:16 +0000
Subject: [PATCH 11/39] fix: PROXQP hid the cost of its base class, so the
 generic get_cost() always returned 0

---
 include/mim_solvers/csqp_proxqp.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/mim_solvers/csqp_proxqp.hpp b/include/mim_solvers/csqp_proxqp.hpp
index 03f92cc..c95c5bc 100644
--- a/include/mim_solvers/csqp_proxqp.hpp
+++ b/include/mim_solvers/csqp_proxqp.hpp
@@ -219,7 +219,6 @@ class SolverPROXQP : public SolverDDP {
   double constraint_norm_ = 0;  //!< 1 norm of constraint violation
   double constraint_norm_try_ = 0;  //!< 1 norm of constraint violation try
   double gap_norm_try_ = 0;         //!< 1 norm of the gaps
-  double cost_ = 0.0;               //!< cost function
   double mu_dynamic_ = 1e1;         //!< penalty no constraint violation
   double mu_constraint_ = 1e1;      //!< penalty no constraint violation
   double termination_tol_ = 1e-8;   //!< Termination tolerance
-- 
2.43.0


From dd8220e47b87cecc95d4a0db4b84e0f6a4848efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:47 +0000
Subject: [PATCH 12/39] fix: CSQP never recovered after a QP produced
 non-finite multipliers, because they warm started every later QP

---
 src/csqp.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index c24ccb1..7df7535 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -178,18 +178,28 @@ void SolverCSQP::reset_params() {
     z_prev_[t].setZero();
     z_relaxed_[t].setZero();
 
-    if (reset_y_) {
+    // A failed QP must not spoil the next one
+    if (reset_y_ || !y_[t].allFinite()) {
       y_[t].setZero();
     }
+    if (!dx_[t].allFinite()) {
+      dx_[t].setZero();
+    }
+    if (!du_[t].allFinite()) {
+      du_[t].setZero();
+    }
   }
 
   z_.back().setZero();
   z_prev_.back().setZero();
   z_relaxed_.back().setZero();
 
-  if (reset_y_) {
+  if (reset_y_ || !y_.back().allFinite()) {
     y_.back().setZero();
   }
+  if (!dx_.back().allFinite()) {
+    dx_.back().setZero();
+  }
 }
 
 SolverCSQP::~SolverCSQP() {}
-- 
2.43.0


From 6be23e3caceeda99cbb1a87ccc117616831adc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:24 +0000
Subject: [PATCH 13/39] fix: shrinking the filter left old entries and the old
 capacity behind, so later solves compared with the wrong iterates

---
 include/mim_solvers/csqp.hpp        | 3 +++
 include/mim_solvers/csqp_proxqp.hpp | 3 +++
 include/mim_solvers/fddp.hpp        | 2 ++
 include/mim_solvers/sqp.hpp         | 2 ++
 4 files changed, 10 insertions(+)

diff --git a/include/mim_solvers/csqp.hpp b/include/mim_solvers/csqp.hpp
index 6674528..ff51e6f 100644
--- a/include/mim_solvers/csqp.hpp
+++ b/include/mim_solvers/csqp.hpp
@@ -230,8 +230,11 @@ class SolverCSQP : public SolverDDP {
   };
   void set_filter_size(const std::size_t inFilterSize) {
     filter_size_ = inFilterSize;
+    gap_list_.set_capacity(filter_size_);
     gap_list_.resize(filter_size_);
+    constraint_list_.set_capacity(filter_size_);
     constraint_list_.resize(filter_size_);
+    cost_list_.set_capacity(filter_size_);
     cost_list_.resize(filter_size_);
   };
 
diff --git a/include/mim_solvers/csqp_proxqp.hpp b/include/mim_solvers/csqp_proxqp.hpp
index c95c5bc..30149e8 100644
--- a/include/mim_solvers/csqp_proxqp.hpp
+++ b/include/mim_solvers/csqp_proxqp.hpp
@@ -167,8 +167,11 @@ class SolverPROXQP : public SolverDDP {
   };
   void set_filter_size(const std::size_t inFilterSize) {
     filter_size_ = inFilterSize;
+    gap_list_.set_capacity(filter_size_);
     gap_list_.resize(filter_size_);
+    constraint_list_.set_capacity(filter_size_);
     constraint_list_.resize(filter_size_);
+    cost_list_.set_capacity(filter_size_);
     cost_list_.resize(filter_size_);
   };
 
diff --git a/include/mim_solvers/fddp.hpp b/include/mim_solvers/fddp.hpp
index 356efb0..267671c 100644
--- a/include/mim_solvers/fddp.hpp
+++ b/include/mim_solvers/fddp.hpp
@@ -136,7 +136,9 @@ class SolverFDDP : public SolverDDP {
   };
   void set_filter_size(const std::size_t inFilterSize) {
     filter_size_ = inFilterSize;
+    gap_list_.set_capacity(filter_size_);
     gap_list_.resize(filter_size_);
+    cost_list_.set_capacity(filter_size_);
     cost_list_.resize(filter_size_);
   };
   double get_gap_norm() const { return gap_norm_; };
diff --git a/include/mim_solvers/sqp.hpp b/include/mim_solvers/sqp.hpp
index 3b11419..0102744 100644
--- a/include/mim_solvers/sqp.hpp
+++ b/include/mim_solvers/sqp.hpp
@@ -142,7 +142,9 @@ class SolverSQP : public SolverDDP {
   };
   void set_filter_size(const std::size_t inFilterSize) {
     filter_size_ = inFilterSize;
+    gap_list_.set_capacity(filter_size_);
     gap_list_.resize(filter_size_);
+    cost_list_.set_capacity(filter_size_);
     cost_list_.resize(filter_size_);
   };
 
-- 
2.43.0


From 98043f35feee9ffc667b8f1050254d397bf1f35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:24 +0000
Subject: [PATCH 14/39] fix: PROXQP indexed its QP by nx instead of ndx, out of
 bounds for states with more coordinates than dimensions

---
 src/csqp_proxqp.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/csqp_proxqp.cpp b/src/csqp_proxqp.cpp
index adddb6f..97bb51e 100644
--- a/src/csqp_proxqp.cpp
+++ b/src/csqp_proxqp.cpp
@@ -49,13 +49,13 @@ SolverPROXQP::SolverPROXQP(std::shared_ptr<crocoddyl::ShootingProblem> problem)
   n_eq = 0;
   for (std::size_t t = 0; t < T; ++t) {
     if (t < T - 1) {
-      n_vars += models[t + 1]->get_state()->get_nx();
-      n_eq += models[t + 1]->get_state()->get_nx();
+      n_vars += models[t + 1]->get_state()->get_ndx();
+      n_eq += models[t + 1]->get_state()->get_ndx();
     }
     n_vars += models[t]->get_nu();
   }
-  n_vars += problem_->get_terminalModel()->get_state()->get_nx();
-  n_eq += problem_->get_terminalModel()->get_state()->get_nx();
+  n_vars += problem_->get_terminalModel()->get_state()->get_ndx();
+  n_eq += problem_->get_terminalModel()->get_state()->get_ndx();
   P_.resize(n_vars, n_vars);
   P_.setZero();
   q_.resize(n_vars), q_.setZero();
@@ -277,7 +277,7 @@ void SolverPROXQP::calc(const bool recalc) {
   for (std::size_t t = 0; t < T; ++t) {
     const std::shared_ptr<ActionModelAbstract>& m = models[t];
     const std::shared_ptr<ActionDataAbstract>& d = datas[t];
-    const int nx = m->get_state()->get_nx();
+    const int nx = m->get_state()->get_ndx();
     const int nu = m->get_nu();
 
     m->get_state()->diff(xs_[t + 1], d->xnext, fs_[t + 1]);
@@ -331,7 +331,7 @@ void SolverPROXQP::calc(const bool recalc) {
   int nc = m_T->get_ng();
   auto lb = m_T->get_g_lb();
   auto ub = m_T->get_g_ub();
-  const int nx = m_T->get_state()->get_nx();
+  const int nx = m_T->get_state()->get_ndx();
 
   P_.middleCols((T - 1) * nx, nx).middleRows((T - 1) * nx, nx) = d_T->Lxx;
   q_.segment((T - 1) * nx, nx) = d_T->Lx;
@@ -388,7 +388,7 @@ void SolverPROXQP::computeDirection(const bool recalcDiff) {
   double index_u = n_eq;
   for (std::size_t t = 0; t < T; ++t) {
     const std::shared_ptr<ActionModelAbstract>& m = models[t];
-    const int nx = m->get_state()->get_nx();
+    const int nx = m->get_state()->get_ndx();
     const int nu = m->get_nu();
     int nc = m->get_ng();
 
-- 
2.43.0


From a0f1a7c552e76404acf9708ef3c4c4b48ff6ce52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:24 +0000
Subject: [PATCH 15/39] fix: CSQP and PROXQP kept the dimensions of the
 previous problem after a stage was replaced, reading and writing out of
 bounds

---
 include/mim_solvers/csqp.hpp        |  2 ++
 include/mim_solvers/csqp_proxqp.hpp |  2 ++
 src/csqp.cpp                        | 32 +++++++++++++++++++++++++++
 src/csqp_proxqp.cpp                 | 34 +++++++++++++++++++++++++++++
 4 files changed, 70 insertions(+)

diff --git a/include/mim_solvers/csqp.hpp b/include/mim_solvers/csqp.hpp
index ff51e6f..1c81f5e 100644
--- a/include/mim_solvers/csqp.hpp
+++ b/include/mim_solvers/csqp.hpp
@@ -117,6 +117,8 @@ class SolverCSQP : public SolverDDP {
 
   virtual void calc(const bool recalc = true);
 
+  virtual void resizeData();
+
   virtual void reset_params();
 
   virtual void reset_rho_vec();
diff --git a/include/mim_solvers/csqp_proxqp.hpp b/include/mim_solvers/csqp_proxqp.hpp
index 30149e8..cd38269 100644
--- a/include/mim_solvers/csqp_proxqp.hpp
+++ b/include/mim_solvers/csqp_proxqp.hpp
@@ -108,6 +108,8 @@ class SolverPROXQP : public SolverDDP {
 
   virtual void calc(const bool recalc = true);
 
+  virtual void resizeData();
+
   // virtual void set_constraints(const
   // std::vector<std::shared_ptr<ConstraintModelAbstract>>& constraint_models){
   //   constraint_models_ = constraint_models;
diff --git a/src/csqp.cpp b/src/csqp.cpp
index 7df7535..1bb32ba 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -167,6 +167,38 @@ SolverCSQP::SolverCSQP(std::shared_ptr<crocoddyl::ShootingProblem> problem)
   }
 }
 
+void SolverCSQP::resizeData() {
+  START_PROFILER("SolverCSQP::resizeData");
+  SolverDDP::resizeData();
+
+  const std::size_t T = problem_->get_T();
+  const std::size_t ndx = problem_->get_ndx();
+  const std::vector<std::shared_ptr<crocoddyl::ActionModelAbstract>>& models =
+      problem_->get_runningModels();
+  for (std::size_t t = 0; t < T + 1; ++t) {
+    const std::shared_ptr<crocoddyl::ActionModelAbstract>& model =
+        t < T ? models[t] : problem_->get_terminalModel();
+    const std::size_t nc = model->get_ng();
+    z_[t].conservativeResizeLike(Eigen::VectorXd::Zero(nc));
+    z_relaxed_[t].conservativeResizeLike(Eigen::VectorXd::Zero(nc));
+    z_prev_[t].conservativeResizeLike(Eigen::VectorXd::Zero(nc));
+    y_[t].conservativeResizeLike(Eigen::VectorXd::Zero(nc));
+    rho_vec_[t].conservativeResize(nc);
+    inv_rho_vec_[t].conservativeResize(nc);
+    tmp_Cdx_Cdu_[t].conservativeResize(nc);
+    tmp_dual_cwise_[t].conservativeResize(nc);
+    tmp_rhoGx_mat_[t].conservativeResize(nc, ndx);
+    if (t < T) {
+      const std::size_t nu = model->get_nu();
+      du_[t].conservativeResizeLike(Eigen::VectorXd::Zero(nu));
+      dutilde_[t].conservativeResizeLike(Eigen::VectorXd::Zero(nu));
+      tmp_rhoGu_mat_[t].conservativeResize(nc, nu);
+      tmp_vec_u_[t].conservativeResize(nu);
+    }
+  }
+  STOP_PROFILER("SolverCSQP::resizeData");
+}
+
 void SolverCSQP::reset_params() {
   if (reset_rho_) {
     reset_rho_vec();
diff --git a/src/csqp_proxqp.cpp b/src/csqp_proxqp.cpp
index 97bb51e..99cf54b 100644
--- a/src/csqp_proxqp.cpp
+++ b/src/csqp_proxqp.cpp
@@ -142,6 +142,40 @@ SolverPROXQP::SolverPROXQP(std::shared_ptr<crocoddyl::ShootingProblem> problem)
 
 SolverPROXQP::~SolverPROXQP() {}
 
+void SolverPROXQP::resizeData() {
+  START_PROFILER("SolverPROXQP::resizeData");
+  SolverDDP::resizeData();
+
+  const std::size_t T = problem_->get_T();
+  const std::size_t ndx = problem_->get_ndx();
+  const std::vector<std::shared_ptr<ActionModelAbstract> >& models =
+      problem_->get_runningModels();
+  n_eq = T * ndx;
+  n_vars = T * ndx;
+  n_in = 0;
+  for (std::size_t t = 0; t < T; ++t) {
+    const std::size_t nu = models[t]->get_nu();
+    const std::size_t nc = models[t]->get_ng();
+    du_[t].conservativeResizeLike(Eigen::VectorXd::Zero(nu));
+    y_[t].conservativeResizeLike(Eigen::VectorXd::Zero(nc));
+    n_vars += nu;
+    n_in += nc;
+  }
+  const std::size_t nc = problem_->get_terminalModel()->get_ng();
+  y_.back().conservativeResizeLike(Eigen::VectorXd::Zero(nc));
+  n_in += nc;
+
+  // The blocks may have moved: do not leave old ones behind
+  P_ = Eigen::MatrixXd::Zero(n_vars, n_vars);
+  q_ = Eigen::VectorXd::Zero(n_vars);
+  A_ = Eigen::MatrixXd::Zero(n_eq, n_vars);
+  b_ = Eigen::VectorXd::Zero(n_eq);
+  C_ = Eigen::MatrixXd::Zero(n_in, n_vars);
+  l_ = Eigen::VectorXd::Zero(n_in);
+  u_ = Eigen::VectorXd::Zero(n_in);
+  STOP_PROFILER("SolverPROXQP::resizeData");
+}
+
 bool SolverPROXQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
                          const std::vector<Eigen::VectorXd>& init_us,
                          const std::size_t maxiter, const bool is_feasible,
-- 
2.43.0


From 4b5384455123d6b431a5d678bb8025ff3e7be3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:24 +0000
Subject: [PATCH 16/39] fix: DDP and FDDP rolled out stages without controls as
 terminal nodes, ignoring their dynamics

---
 src/ddp.cpp  | 4 +---
 src/fddp.cpp | 8 ++------
 2 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/ddp.cpp b/src/ddp.cpp
index 0622863..1d8f8d4 100644
--- a/src/ddp.cpp
+++ b/src/ddp.cpp
@@ -371,10 +371,8 @@ void SolverDDP::forwardPass(const double steplength) {
       us_try_[t].noalias() = us_[t];
       us_try_[t].noalias() -= k_[t] * steplength;
       us_try_[t].noalias() -= K_[t] * dx_[t];
-      m->calc(d, xs_try_[t], us_try_[t]);
-    } else {
-      m->calc(d, xs_try_[t]);
     }
+    m->calc(d, xs_try_[t], us_try_[t]);
     xs_try_[t + 1] = d->xnext;
     cost_try_ += d->cost;
 
diff --git a/src/fddp.cpp b/src/fddp.cpp
index daa2202..f0f1a92 100644
--- a/src/fddp.cpp
+++ b/src/fddp.cpp
@@ -306,10 +306,8 @@ void SolverFDDP::forwardPass(const double steplength) {
       m->get_state()->diff(xs_[t], xs_try_[t], dx_[t]);
       if (nu != 0) {
         us_try_[t].noalias() = us_[t] - k_[t] * steplength - K_[t] * dx_[t];
-        m->calc(d, xs_try_[t], us_try_[t]);
-      } else {
-        m->calc(d, xs_try_[t]);
       }
+      m->calc(d, xs_try_[t], us_try_[t]);
       xnext_ = d->xnext;
       cost_try_ += d->cost;
 
@@ -348,10 +346,8 @@ void SolverFDDP::forwardPass(const double steplength) {
       m->get_state()->diff(xs_[t], xs_try_[t], dx_[t]);
       if (nu != 0) {
         us_try_[t].noalias() = us_[t] - k_[t] * steplength - K_[t] * dx_[t];
-        m->calc(d, xs_try_[t], us_try_[t]);
-      } else {
-        m->calc(d, xs_try_[t]);
       }
+      m->calc(d, xs_try_[t], us_try_[t]);
       xnext_ = d->xnext;
       cost_try_ += d->cost;
 
-- 
2.43.0


From 15e5dca88d34417421a599157468756544f95f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:34 +0000
Subject: [PATCH 17/39] fix: the FDDP filter judged trials by the motion
 between stages instead of the gaps they leave

---
 src/fddp.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fddp.cpp b/src/fddp.cpp
index f0f1a92..41ea12f 100644
--- a/src/fddp.cpp
+++ b/src/fddp.cpp
@@ -303,6 +303,7 @@ void SolverFDDP::forwardPass(const double steplength) {
       // compute Lagrange multipliers for KKT condition check
       lag_mul_[t].noalias() = Vxx_[t] * dx_[t] + Vx_[t];
       xs_try_[t] = xnext_;
+      fs_try_[t].setZero();  // a full step closes the gaps
       m->get_state()->diff(xs_[t], xs_try_[t], dx_[t]);
       if (nu != 0) {
         us_try_[t].noalias() = us_[t] - k_[t] * steplength - K_[t] * dx_[t];
@@ -311,9 +312,6 @@ void SolverFDDP::forwardPass(const double steplength) {
       xnext_ = d->xnext;
       cost_try_ += d->cost;
 
-      m->get_state()->diff(xs_try_[t], d->xnext, fs_try_[t]);
-      gap_norm_try_ += fs_try_[t].lpNorm<1>();
-
       if (raiseIfNaN(cost_try_)) {
         STOP_PROFILER("SolverFDDP::forwardPass");
         throw_pretty("forward_error");
@@ -329,6 +327,7 @@ void SolverFDDP::forwardPass(const double steplength) {
     const std::shared_ptr<ActionDataAbstract>& d = problem_->get_terminalData();
     lag_mul_.back() = Vxx_.back() * dx_.back() + Vx_.back();
     xs_try_.back() = xnext_;
+    fs_try_.back().setZero();
     m->calc(d, xs_try_.back());
     cost_try_ += d->cost;
 
@@ -343,6 +342,8 @@ void SolverFDDP::forwardPass(const double steplength) {
       const std::size_t nu = m->get_nu();
       lag_mul_[t].noalias() = Vxx_[t] * (dx_[t] - fs_[t]) + Vx_[t];
       m->get_state()->integrate(xnext_, fs_[t] * (steplength - 1), xs_try_[t]);
+      m->get_state()->diff(xs_try_[t], xnext_, fs_try_[t]);
+      gap_norm_try_ += fs_try_[t].lpNorm<1>();
       m->get_state()->diff(xs_[t], xs_try_[t], dx_[t]);
       if (nu != 0) {
         us_try_[t].noalias() = us_[t] - k_[t] * steplength - K_[t] * dx_[t];
@@ -351,9 +352,6 @@ void SolverFDDP::forwardPass(const double steplength) {
       xnext_ = d->xnext;
       cost_try_ += d->cost;
 
-      m->get_state()->diff(xs_try_[t], d->xnext, fs_try_[t]);
-      gap_norm_try_ += fs_try_[t].lpNorm<1>();
-
       if (raiseIfNaN(cost_try_)) {
         STOP_PROFILER("SolverFDDP::forwardPass");
         throw_pretty("forward_error");
@@ -370,6 +368,8 @@ void SolverFDDP::forwardPass(const double steplength) {
     lag_mul_.back() = Vxx_.back() * (dx_.back() - fs_.back()) + Vx_.back();
     m->get_state()->integrate(xnext_, fs_.back() * (steplength - 1),
                               xs_try_.back());
+    m->get_state()->diff(xs_try_.back(), xnext_, fs_try_.back());
+    gap_norm_try_ += fs_try_.back().lpNorm<1>();
     m->calc(d, xs_try_.back());
     cost_try_ += d->cost;
 
-- 
2.43.0


From d50fe71bf2215d1d556c8da8f1f4415df4b3949d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:34 +0000
Subject: [PATCH 18/39] fix: DDP and FDDP computed the multipliers of the first
 iteration from state errors of the previous solve

---
 src/ddp.cpp  | 4 ++++
 src/fddp.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/ddp.cpp b/src/ddp.cpp
index 1d8f8d4..8ffc7c1 100644
--- a/src/ddp.cpp
+++ b/src/ddp.cpp
@@ -79,6 +79,10 @@ bool SolverDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     dreg_ = reginit;
   }
   was_feasible_ = false;
+  // a state error of an earlier solve says nothing about this one
+  for (Eigen::VectorXd& dx : dx_) {
+    dx.setZero();
+  }
 
   bool recalcDiff = true;
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
diff --git a/src/fddp.cpp b/src/fddp.cpp
index 41ea12f..0900d35 100644
--- a/src/fddp.cpp
+++ b/src/fddp.cpp
@@ -74,6 +74,10 @@ bool SolverFDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     dreg_ = reginit;
   }
   was_feasible_ = false;
+  // a state error of an earlier solve says nothing about this one
+  for (Eigen::VectorXd& dx : dx_) {
+    dx.setZero();
+  }
   bool recalcDiff = true;
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
     while (true) {
-- 
2.43.0


From a2b11791cf59b0039c0884724abe9a70b9a6e204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:03 +0000
Subject: [PATCH 19/39] fix: set_alphas read past the end of an empty list and
 accepted step lengths that are not positive

---
 src/ddp.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ddp.cpp b/src/ddp.cpp
index 8ffc7c1..4bd6360 100644
--- a/src/ddp.cpp
+++ b/src/ddp.cpp
@@ -607,7 +607,13 @@ void SolverDDP::set_regmax(const double regmax) {
 }
 
 void SolverDDP::set_alphas(const std::vector<double>& alphas) {
+  if (alphas.empty()) {
+    throw_pretty("Invalid argument: " << "alphas has to be non-empty.");
+  }
   double prev_alpha = alphas[0];
+  if (0. >= prev_alpha) {
+    throw_pretty("Invalid argument: " << "alpha values has to be positive.");
+  }
   if (prev_alpha != 1.) {
     std::cerr << "Warning: alpha[0] should be 1" << std::endl;
   }
-- 
2.43.0


From 8ec8671f4624f2b53ddca8541f549faa77ba9f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:03 +0000
Subject: [PATCH 20/39] fix: an adaptation interval of zero made the
 constrained SQP divide by zero

---
 include/mim_solvers/csqp.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/mim_solvers/csqp.hpp b/include/mim_solvers/csqp.hpp
index 1c81f5e..f612357 100644
--- a/include/mim_solvers/csqp.hpp
+++ b/include/mim_solvers/csqp.hpp
@@ -203,6 +203,10 @@ class SolverCSQP : public SolverDDP {
   void setQPCallbacks(const bool inCallbacks);
 
   void set_rho_update_interval(const std::size_t interval) {
+    if (interval == 0) {
+      throw_pretty("Invalid argument: "
+                   << "rho_update_interval has to be positive.");
+    }
     rho_update_interval_ = interval;
   };
   void set_adaptive_rho_tolerance(const std::size_t tolerance) {
-- 
2.43.0


From a2c0012c6c5ced93edfc76bc810d5153ff2faf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:03 +0000
Subject: [PATCH 21/39] fix: setting the penalty of the constrained SQP had no
 effect on any solve

---
 include/mim_solvers/csqp.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/mim_solvers/csqp.hpp b/include/mim_solvers/csqp.hpp
index f612357..699b70f 100644
--- a/include/mim_solvers/csqp.hpp
+++ b/include/mim_solvers/csqp.hpp
@@ -245,7 +245,10 @@ class SolverCSQP : public SolverDDP {
   };
 
   void update_lagrangian_parameters(const int iter);
-  void set_rho_sparse(const double rho_sparse) { rho_sparse_ = rho_sparse; };
+  void set_rho_sparse(const double rho_sparse) {
+    rho_sparse_base_ = rho_sparse;
+    rho_sparse_ = rho_sparse;
+  };
   void update_rho_vec(const int iter);
   void apply_rho_update(const double rho_sparse);
 
-- 
2.43.0


From a69ff2d06716920117bea24f6a16fa987b2f6185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:12 +0000
Subject: [PATCH 22/39] fix: let Python reach the computeDirection and tryStep
 of the solver at hand

The overload wrappers call the member of the named class, so that
SolverSQP, SolverFDDP, ... ran SolverDDP's versions.
---
 bindings/ddp.cpp | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/bindings/ddp.cpp b/bindings/ddp.cpp
index 57de420..7afa383 100644
--- a/bindings/ddp.cpp
+++ b/bindings/ddp.cpp
@@ -21,10 +21,6 @@ namespace mim_solvers {
 namespace bp = boost::python;
 
 BOOST_PYTHON_MEMBER_FUNCTION_OVERLOADS(SolverDDP_solves, SolverDDP::solve, 0, 5)
-BOOST_PYTHON_MEMBER_FUNCTION_OVERLOADS(SolverDDP_computeDirections,
-                                       SolverDDP::computeDirection, 0, 1)
-BOOST_PYTHON_MEMBER_FUNCTION_OVERLOADS(SolverDDP_trySteps, SolverDDP::tryStep,
-                                       0, 1)
 
 // Wrapper function to handle deprecation warning upon instantiation
 std::shared_ptr<SolverDDP> createSolverDDP(
@@ -88,24 +84,22 @@ void exposeSolverDDP() {
                ":returns the optimal trajectory xopt, uopt and a boolean that "
                "describes if convergence was reached."))
       .def("computeDirection", &SolverDDP::computeDirection,
-           SolverDDP_computeDirections(
-               bp::args("self", "recalc"),
-               "Compute the search direction (dx, du) for the current guess "
-               "(xs, us).\n\n"
-               "You must call setCandidate first in order to define the "
-               "current\n"
-               "guess. A current guess defines a state and control trajectory\n"
-               "(xs, us) of T+1 and T elements, respectively.\n"
-               ":params recalc: true for recalculating the derivatives at "
-               "current state and control.\n"
-               ":returns the search direction dx, du and the dual lambdas as "
-               "lists of T+1, T and T+1 lengths."))
+           (bp::arg("self"), bp::arg("recalc") = true),
+           "Compute the search direction (dx, du) for the current guess "
+           "(xs, us).\n\n"
+           "You must call setCandidate first in order to define the "
+           "current\n"
+           "guess. A current guess defines a state and control trajectory\n"
+           "(xs, us) of T+1 and T elements, respectively.\n"
+           ":params recalc: true for recalculating the derivatives at "
+           "current state and control.\n"
+           ":returns the search direction dx, du and the dual lambdas as "
+           "lists of T+1, T and T+1 lengths.")
       .def("tryStep", &SolverDDP::tryStep,
-           SolverDDP_trySteps(
-               bp::args("self", "stepLength"),
-               "Rollout the system with a predefined step length.\n\n"
-               ":param stepLength: step length (default 1)\n"
-               ":returns the cost improvement."))
+           (bp::arg("self"), bp::arg("stepLength") = 1.),
+           "Rollout the system with a predefined step length.\n\n"
+           ":param stepLength: step length (default 1)\n"
+           ":returns the cost improvement.")
       .def("stoppingCriteria", &SolverDDP::stoppingCriteria, bp::args("self"),
            "Return a sum of positive parameters whose sum quantifies the DDP "
            "termination.")
-- 
2.43.0


From e67caefbdbe8fc140d5ed6ff3370d500f0a36a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:12 +0000
Subject: [PATCH 23/39] fix: initialise the penalty of a CSQP solver

computeDirection before the first solve used uninitialised memory.
---
 src/csqp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index 1bb32ba..cadacd5 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -154,6 +154,8 @@ SolverCSQP::SolverCSQP(std::shared_ptr<crocoddyl::ShootingProblem> problem)
         "model residual or by setting g_ub and g_lb.")
   }
 
+  apply_rho_update(rho_sparse_);
+
   const std::size_t n_alphas = 10;
   alphas_.resize(n_alphas);
   for (std::size_t n = 0; n < n_alphas; ++n) {
-- 
2.43.0


From efaedd98182da5fd147cf4662ca0dd3a10e866f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:37 +0000
Subject: [PATCH 24/39] fix: SolverKKT evaluated its KKT residual with
 multipliers of the wrong sign and without the gaps

---
 src/kkt.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/kkt.cpp b/src/kkt.cpp
index 7775019..afa6b98 100644
--- a/src/kkt.cpp
+++ b/src/kkt.cpp
@@ -153,25 +153,25 @@ double SolverKKT::tryStep(const double steplength) {
 }
 
 void SolverKKT::checkKKTConditions() {
+  // the multipliers of the KKT system belong to x_{t+1} - f(x_t, u_t) = 0
   KKT_ = 0.;
   const std::size_t T = problem_->get_T();
-  const std::size_t ndx = problem_->get_ndx();
   const std::vector<std::shared_ptr<crocoddyl::ActionDataAbstract> >& datas =
       problem_->get_runningDatas();
   for (std::size_t t = 0; t < T; ++t) {
     const std::shared_ptr<crocoddyl::ActionDataAbstract>& d = datas[t];
     KKT_ = std::max(KKT_,
-                    (d->Lx + d->Fx.transpose() * lambdas_[t + 1] - lambdas_[t])
+                    (d->Lx - d->Fx.transpose() * lambdas_[t + 1] + lambdas_[t])
                         .lpNorm<Eigen::Infinity>());
-    KKT_ = std::max(KKT_, (d->Lu + d->Fu.transpose() * lambdas_[t + 1])
+    KKT_ = std::max(KKT_, (d->Lu - d->Fu.transpose() * lambdas_[t + 1])
                               .lpNorm<Eigen::Infinity>());
-    fs_flat_.segment(t * ndx, ndx) = fs_[t];
   }
-  fs_flat_.tail(ndx) = fs_.back();
+  // gaps, including that of the initial state
+  fs_flat_ = kktref_.tail(ndx_);
   const std::shared_ptr<crocoddyl::ActionDataAbstract>& d_ter =
       problem_->get_terminalData();
   KKT_ =
-      std::max(KKT_, (d_ter->Lx - lambdas_.back()).lpNorm<Eigen::Infinity>());
+      std::max(KKT_, (d_ter->Lx + lambdas_.back()).lpNorm<Eigen::Infinity>());
   KKT_ = std::max(KKT_, fs_flat_.lpNorm<Eigen::Infinity>());
 }
 
-- 
2.43.0


From ddc13c2b24542d88c63d7f6ab718cbace7194252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:37 +0000
Subject: [PATCH 25/39] fix: SolverKKT accepted trials with a NaN cost and
 reported convergence at points with NaN derivatives

---
 src/kkt.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/kkt.cpp b/src/kkt.cpp
index afa6b98..7cd48f0 100644
--- a/src/kkt.cpp
+++ b/src/kkt.cpp
@@ -149,6 +149,9 @@ double SolverKKT::tryStep(const double steplength) {
       problem_->get_terminalModel();
   m->get_state()->integrate(xs_[T], steplength * dxs_[T], xs_try_[T]);
   cost_try_ = problem_->calc(xs_try_, us_try_);
+  if (!std::isfinite(cost_try_)) {
+    throw_pretty("step_error");
+  }
   return cost_ - cost_try_;
 }
 
@@ -173,6 +176,10 @@ void SolverKKT::checkKKTConditions() {
   KKT_ =
       std::max(KKT_, (d_ter->Lx + lambdas_.back()).lpNorm<Eigen::Infinity>());
   KKT_ = std::max(KKT_, fs_flat_.lpNorm<Eigen::Infinity>());
+  // lpNorm and std::max may drop a NaN
+  if (kktref_.hasNaN() || dual_.hasNaN()) {
+    KKT_ = std::numeric_limits<double>::infinity();
+  }
 }
 
 double SolverKKT::stoppingCriteria() {
-- 
2.43.0


From 405f87b6f409f2041eddd73038c4e0bc3214b836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:37 +0000
Subject: [PATCH 26/39] fix: SolverKKT went on with stale (or uninitialised)
 derivatives when the model could not be evaluated

---
 src/kkt.cpp | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/kkt.cpp b/src/kkt.cpp
index 7cd48f0..f3de89d 100644
--- a/src/kkt.cpp
+++ b/src/kkt.cpp
@@ -46,20 +46,12 @@ bool SolverKKT::solve(const std::vector<Eigen::VectorXd>& init_xs,
                       const std::size_t maxiter, const bool is_feasible,
                       const double) {
   setCandidate(init_xs, init_us, is_feasible);
-  bool recalc = true;
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
-    while (true) {
-      try {
-        computeDirection(recalc);
-      } catch (std::exception& e) {
-        recalc = false;
-        if (preg_ == reg_max_) {
-          return false;
-        } else {
-          continue;
-        }
-      }
-      break;
+    try {
+      computeDirection(true);
+    } catch (std::exception& e) {
+      // there is no regularization that another attempt could use
+      return false;
     }
 
     expectedImprovement();
-- 
2.43.0


From 25f62779b740275174239b9607d3e7328b95560e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:37 +0000
Subject: [PATCH 27/39] fix: SolverKKT could stop because an iterate of the
 previous solve was feasible

---
 src/kkt.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kkt.cpp b/src/kkt.cpp
index f3de89d..5bb6422 100644
--- a/src/kkt.cpp
+++ b/src/kkt.cpp
@@ -46,6 +46,7 @@ bool SolverKKT::solve(const std::vector<Eigen::VectorXd>& init_xs,
                       const std::size_t maxiter, const bool is_feasible,
                       const double) {
   setCandidate(init_xs, init_us, is_feasible);
+  was_feasible_ = false;
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
     try {
       computeDirection(true);
-- 
2.43.0


From e1eca45e25ab3f22b72743b6354daed7d1d014ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:40 +0000
Subject: [PATCH 28/39] fix: let the KKT solver follow changed dimensions of
 the problem

---
 src/kkt.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kkt.cpp b/src/kkt.cpp
index 5bb6422..20c312b 100644
--- a/src/kkt.cpp
+++ b/src/kkt.cpp
@@ -45,6 +45,10 @@ bool SolverKKT::solve(const std::vector<Eigen::VectorXd>& init_xs,
                       const std::vector<Eigen::VectorXd>& init_us,
                       const std::size_t maxiter, const bool is_feasible,
                       const double) {
+  if (problem_->is_updated()) {
+    // the dimensions may have changed
+    allocateData();
+  }
   setCandidate(init_xs, init_us, is_feasible);
   was_feasible_ = false;
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
-- 
2.43.0


From 70ec608c07bd2dab4166aafcfbf355b56518c1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:48 +0000
Subject: [PATCH 29/39] fix: CallbackVerbose read DDP and FDDP solvers as if
 they were SQP solvers

---
 src/utils/callbacks.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/utils/callbacks.cpp b/src/utils/callbacks.cpp
index 07af0b2..5af58fb 100644
--- a/src/utils/callbacks.cpp
+++ b/src/utils/callbacks.cpp
@@ -12,6 +12,7 @@
 #include <crocoddyl/core/utils/exception.hpp>
 
 #include "mim_solvers/csqp.hpp"
+#include "mim_solvers/fddp.hpp"
 #include "mim_solvers/sqp.hpp"
 
 namespace mim_solvers {
@@ -66,6 +67,10 @@ void CallbackVerbose::update_header(const std::string solver_type) {
     header_ += center_string("||gaps||", columnwidth) + separator_;
     header_ += center_string("step", columnwidth) + separator_;
     header_ += center_string("KKT criteria", columnwidth) + separator_;
+  } else if (solver_type == "DDP") {
+    header_ += center_string("cost", columnwidth) + separator_;
+    header_ += center_string("step", columnwidth) + separator_;
+    header_ += center_string("KKT criteria", columnwidth) + separator_;
   } else {
     throw_pretty("The solver type is not supported.");
   }
@@ -78,6 +83,11 @@ void CallbackVerbose::operator()(crocoddyl::SolverAbstract& solver) {
 
 void CallbackVerbose::operator()(crocoddyl::SolverAbstract& solver,
                                  std::string solver_type) {
+  // SolverDDP and SolverFDDP announce themselves as "SQP" as well
+  if (solver_type == "SQP" && dynamic_cast<SolverSQP*>(&solver) == nullptr) {
+    solver_type = "DDP";
+  }
+
   if (solver.get_iter() % 10 == 0) {
     update_header(solver_type);
     std::cout << header_ << std::endl;
@@ -160,6 +170,17 @@ void CallbackVerbose::operator()(crocoddyl::SolverAbstract& solver,
                 << solver_cast.get_KKT() << separator_ << separator_
                 << separator_short_;  // KKT criteria
     }
+  } else if (solver_type == "DDP") {
+    SolverDDP& solver_cast = dynamic_cast<SolverDDP&>(solver);
+    SolverFDDP* fddp = dynamic_cast<SolverFDDP*>(&solver);
+    std::cout << std::scientific << std::setprecision(precision_)
+              << solver_cast.get_cost() << separator_;  // cost
+    std::cout << std::fixed << std::setprecision(precision_)
+              << solver_cast.get_steplength() << separator_
+              << separator_;  // step
+    std::cout << std::scientific << std::setprecision(precision_)
+              << (fddp != nullptr ? fddp->get_KKT() : solver_cast.get_KKT())
+              << separator_;  // KKT criteria
   }
 
   std::cout << std::endl;
-- 
2.43.0


From ac808fd6231923a63c9f6d8d9aff8c3f225fde36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:20 +0000
Subject: [PATCH 30/39] fix: the merit that CSQP published belonged to the
 previous iterate

---
 include/mim_solvers/csqp.hpp |  5 +++++
 src/csqp.cpp                 | 40 ++++++++++++++++++++----------------
 2 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/include/mim_solvers/csqp.hpp b/include/mim_solvers/csqp.hpp
index 699b70f..6e19cc7 100644
--- a/include/mim_solvers/csqp.hpp
+++ b/include/mim_solvers/csqp.hpp
@@ -133,6 +133,11 @@ class SolverCSQP : public SolverDDP {
    */
   virtual void checkKKTConditions();
 
+  /**
+   * @brief Compute the merit of the current iterate and multipliers
+   */
+  void updateMerit();
+
   const std::vector<Eigen::VectorXd>& get_xs_try() const { return xs_try_; };
   const std::vector<Eigen::VectorXd>& get_us_try() const { return us_try_; };
 
diff --git a/src/csqp.cpp b/src/csqp.cpp
index cadacd5..801d738 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -319,6 +319,7 @@ bool SolverCSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
 
     // Check KKT criteria
     checkKKTConditions();
+    updateMerit();
 
     // Perform callbacks
     for (const auto& callback : callbacks_) {
@@ -335,24 +336,6 @@ bool SolverCSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     gap_list_.push_back(gap_norm_);
     cost_list_.push_back(cost_);
 
-    // Calculate the coefficient of the merit function.
-    if (mu_dynamic_ < 0. || mu_constraint_ < 0.) {
-      lag_mul_inf_norm_ = 0;
-      for (const auto& lag_mul : lag_mul_) {
-        lag_mul_inf_norm_ =
-            std::max(lag_mul_inf_norm_, lag_mul.lpNorm<Eigen::Infinity>());
-      }
-      for (const auto& y : y_) {
-        lag_mul_inf_norm_ =
-            std::max(lag_mul_inf_norm_, y.lpNorm<Eigen::Infinity>());
-      }
-      merit_ = cost_ + lag_mul_inf_norm_coef_ * lag_mul_inf_norm_ *
-                           (gap_norm_ + constraint_norm_);
-    } else {
-      merit_ =
-          cost_ + mu_dynamic_ * gap_norm_ + mu_constraint_ * constraint_norm_;
-    }
-
     // We need to recalculate the derivatives when the step length passes
     bool found = false;
     // less than filter_size_, less or equal iter_
@@ -438,6 +421,7 @@ bool SolverCSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
 
     // Check KKT criteria
     checkKKTConditions();
+    updateMerit();
 
     // Perform callbacks
     for (const auto& callback : callbacks_) {
@@ -629,6 +613,26 @@ void SolverCSQP::apply_rho_update(const double rho_sparse_tmp) {
   STOP_PROFILER("SolverCSQP::apply_rho_update");
 }
 
+void SolverCSQP::updateMerit() {
+  // Calculate the coefficient of the merit function.
+  if (mu_dynamic_ < 0. || mu_constraint_ < 0.) {
+    lag_mul_inf_norm_ = 0;
+    for (const auto& lag_mul : lag_mul_) {
+      lag_mul_inf_norm_ =
+          std::max(lag_mul_inf_norm_, lag_mul.lpNorm<Eigen::Infinity>());
+    }
+    for (const auto& y : y_) {
+      lag_mul_inf_norm_ =
+          std::max(lag_mul_inf_norm_, y.lpNorm<Eigen::Infinity>());
+    }
+    merit_ = cost_ + lag_mul_inf_norm_coef_ * lag_mul_inf_norm_ *
+                         (gap_norm_ + constraint_norm_);
+  } else {
+    merit_ =
+        cost_ + mu_dynamic_ * gap_norm_ + mu_constraint_ * constraint_norm_;
+  }
+}
+
 void SolverCSQP::checkKKTConditions() {
   KKT_ = 0.;
   const std::size_t T = problem_->get_T();
-- 
2.43.0


From 5cad112b71b96775f663f213b80e273115c0fc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:35 +0000
Subject: [PATCH 31/39] fix: CallbackVerbose printed a step for a solve that
 converged exactly at the tolerance

---
 src/utils/callbacks.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/callbacks.cpp b/src/utils/callbacks.cpp
index 5af58fb..f2a68cf 100644
--- a/src/utils/callbacks.cpp
+++ b/src/utils/callbacks.cpp
@@ -96,7 +96,7 @@ void CallbackVerbose::operator()(crocoddyl::SolverAbstract& solver,
   std::cout << std::setw(4) << solver.get_iter() << separator_;  // iter
   if (solver_type == "CSQP") {
     SolverCSQP& solver_cast = static_cast<SolverCSQP&>(solver);
-    if (solver_cast.get_KKT() < solver_cast.get_termination_tolerance()) {
+    if (solver_cast.get_KKT() <= solver_cast.get_termination_tolerance()) {
       std::cout << std::scientific << std::setprecision(precision_)
                 << solver_cast.get_merit() << separator_;  // merit
       std::cout << std::scientific << std::setprecision(precision_)
@@ -143,7 +143,7 @@ void CallbackVerbose::operator()(crocoddyl::SolverAbstract& solver,
     }
   } else if (solver_type == "SQP") {
     SolverSQP& solver_cast = static_cast<SolverSQP&>(solver);
-    if (solver_cast.get_KKT() < solver_cast.get_termination_tolerance()) {
+    if (solver_cast.get_KKT() <= solver_cast.get_termination_tolerance()) {
       std::cout << std::scientific << std::setprecision(precision_)
                 << solver_cast.get_merit() << separator_;  // merit
       std::cout << std::scientific << std::setprecision(precision_)
-- 
2.43.0


From 4885a4a0bc28c58ce2b8c73c720a1bb8c2930c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:35 +0000
Subject: [PATCH 32/39] fix: the ProxQP table did not mark a solve that
 converged exactly at the tolerance

---
 src/csqp_proxqp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csqp_proxqp.cpp b/src/csqp_proxqp.cpp
index 99cf54b..8d720be 100644
--- a/src/csqp_proxqp.cpp
+++ b/src/csqp_proxqp.cpp
@@ -583,7 +583,7 @@ void SolverPROXQP::printCallbacks() {
                  "||gaps||       KKT       Constraint Norms    QP Iters";
     std::cout << std::endl;
   }
-  if (KKT_ < termination_tol_) {
+  if (KKT_ <= termination_tol_) {
     std::cout << std::setw(4) << "END" << "  ";
   } else {
     std::cout << std::setw(4) << this->get_iter() + 1 << "  ";
@@ -593,7 +593,7 @@ void SolverPROXQP::printCallbacks() {
   std::cout << std::scientific << std::setprecision(5) << this->get_cost()
             << "  ";
   std::cout << this->get_xgrad_norm() + this->get_ugrad_norm() << "  ";
-  if (KKT_ < termination_tol_) {
+  if (KKT_ <= termination_tol_) {
     std::cout << std::fixed << std::setprecision(4) << " ---- " << "  ";
   } else {
     std::cout << std::fixed << std::setprecision(4) << this->get_steplength()
-- 
2.43.0


From cc8851618c5edf93360123d78cca2f065084e9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:35 +0000
Subject: [PATCH 33/39] fix: the table of the QP solver showed the tolerances
 of the previous check

---
 src/csqp.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index 801d738..8abbb45 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -525,9 +525,6 @@ void SolverCSQP::computeDirection(const bool /*recalcDiff*/) {
 
     // Because (eps_rel=0) x inf = NaN
     if (qp_iters_ % rho_update_interval_ == 0) {
-      if (with_qp_callbacks_) {
-        printQPCallbacks(qp_iters_);
-      }
       if (std::fabs(eps_rel_) <= std::numeric_limits<double>::epsilon()) {
         norm_primal_tolerance_ = eps_abs_;
         norm_dual_tolerance_ = eps_abs_;
@@ -535,6 +532,9 @@ void SolverCSQP::computeDirection(const bool /*recalcDiff*/) {
         norm_primal_tolerance_ = eps_abs_ + eps_rel_ * norm_primal_rel_;
         norm_dual_tolerance_ = eps_abs_ + eps_rel_ * norm_dual_rel_;
       }
+      if (with_qp_callbacks_) {
+        printQPCallbacks(qp_iters_);
+      }
       if (norm_primal_ <= norm_primal_tolerance_ &&
           norm_dual_ <= norm_dual_tolerance_) {
         break;
-- 
2.43.0


From 5f46989a181f7423d2abef1ab0b0433c7e9c5243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:36 +0000
Subject: [PATCH 34/39] fix: the filter of the Python CSQP ignored the
 constraint violation

---
 python/csqp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/csqp.py b/python/csqp.py
index 3506e28..735a847 100644
--- a/python/csqp.py
+++ b/python/csqp.py
@@ -330,6 +330,8 @@ class CSQP(StagewiseADMM, QPSolvers):
                             self.cost_list[self.filter_size - 1 - count] < self.cost_try
                             and self.gap_list[self.filter_size - 1 - count]
                             < self.gap_norm_try
+                            and self.constraint_list[self.filter_size - 1 - count]
+                            < self.constraint_norm_try
                         )
                         count += 1
 
-- 
2.43.0


From 573ec8f6cefee3387c3457124dea9ed8a9f37510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:36 +0000
Subject: [PATCH 35/39] fix: the Python SQP with callbacks failed when it
 converged at its first iteration

---
 python/sqp.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/sqp.py b/python/sqp.py
index 64138d0..0ebfc92 100644
--- a/python/sqp.py
+++ b/python/sqp.py
@@ -286,12 +286,12 @@ class SQP(SolverAbstract):
             if self.KKT < self.termination_tolerance:
                 if self.with_callbacks:
                     print(
-                        "{:>4} {:.5e} {:.5e} {:.5e} {:.4f} {:.5e} {:.5e}".format(
-                            iter,
+                        "{:>4} {:.5e} {:.5e} {:.5e} {:>6} {:.5e} {:.5e}".format(
+                            "END",
                             float(self.merit),
                             self.cost,
                             self.x_grad_norm + self.u_grad_norm,
-                            alpha,
+                            "----",
                             self.gap_norm,
                             self.KKT,
                         )
@@ -355,12 +355,12 @@ class SQP(SolverAbstract):
             if self.KKT < self.termination_tolerance:
                 if self.with_callbacks:
                     print(
-                        "{:>4} {:.5e} {:.5e} {:.5e} {:.4f} {:.5e} {:.5e}".format(
-                            iter,
+                        "{:>4} {:.5e} {:.5e} {:.5e} {:>6} {:.5e} {:.5e}".format(
+                            "END",
                             float(self.merit),
                             self.cost,
                             self.x_grad_norm + self.u_grad_norm,
-                            alpha,
+                            "----",
                             self.gap_norm,
                             self.KKT,
                         )
-- 
2.43.0


From 8f746fa0e6c9ac8630f4b64d0a36881bea599100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:36 +0000
Subject: [PATCH 36/39] fix: the dense KKT solver in Python started from a
 vector of the wrong size on manifolds

---
 python/qp_solvers/qpsolvers.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/qp_solvers/qpsolvers.py b/python/qp_solvers/qpsolvers.py
index 7d17e49..53b0c12 100644
--- a/python/qp_solvers/qpsolvers.py
+++ b/python/qp_solvers/qpsolvers.py
@@ -888,9 +888,7 @@ class QPSolvers(SolverAbstract, CustomOSQP, StagewiseQPKKT):
             self.q = np.array(q).copy()
 
             if self.initialize:
-                self.xs_vec = np.array(self.xs).flatten()[self.ndx :]
-                self.us_vec = np.array(self.us).flatten()
-                self.x_k = np.zeros_like(np.hstack((self.xs_vec, self.us_vec)))
+                self.x_k = np.zeros(self.n_vars)
                 self.z_k = np.zeros(self.n_in)
                 self.y_k = np.zeros(self.n_in)
 
-- 
2.43.0


From d272767fd7937e7d18af4255f153b9e46b5c14de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:32 +0000
Subject: [PATCH 37/39] fix: the filters of the Python solvers refuse trials
 that are not finite

---
 python/csqp.py    | 5 ++++-
 python/sqp.py     | 5 ++++-
 python/sqp_cpp.py | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/python/csqp.py b/python/csqp.py
index 735a847..867af47 100644
--- a/python/csqp.py
+++ b/python/csqp.py
@@ -319,7 +319,10 @@ class CSQP(StagewiseADMM, QPSolvers):
             for k in range(max_search):
                 self.tryStep(alpha)
                 if self.use_filter_line_search:
-                    is_worse_than_memory = False
+                    # a trial that is not finite compares false with every entry
+                    is_worse_than_memory = not np.isfinite(
+                        [self.cost_try, self.gap_norm_try, self.constraint_norm_try]
+                    ).all()
                     count = 0
                     while (
                         count < self.filter_size
diff --git a/python/sqp.py b/python/sqp.py
index 0ebfc92..ccb033a 100644
--- a/python/sqp.py
+++ b/python/sqp.py
@@ -305,7 +305,10 @@ class SQP(SolverAbstract):
             for k in range(max_search):
                 self.tryStep(alpha)
                 if self.use_filter_line_search:
-                    is_worse_than_memory = False
+                    # a trial that is not finite compares false with every entry
+                    is_worse_than_memory = not np.isfinite(
+                        [self.cost_try, self.gap_norm_try]
+                    ).all()
                     count = 0
                     while (
                         count < self.filter_size
diff --git a/python/sqp_cpp.py b/python/sqp_cpp.py
index 904b13e..6aff6d4 100644
--- a/python/sqp_cpp.py
+++ b/python/sqp_cpp.py
@@ -153,7 +153,10 @@ class SQP_CPP(crocoddyl.SolverFDDP):
             for k in range(max_search):
                 self.tryStep(alpha)
                 if self.use_filter_line_search:
-                    is_worse_than_memory = False
+                    # a trial that is not finite compares false with every entry
+                    is_worse_than_memory = not np.isfinite(
+                        [self.cost_try, self.gap_norm_try]
+                    ).all()
                     count = 0
                     while (
                         count < self.filter_size
-- 
2.43.0


From 3c4e281776d237906073351621126ab79e584be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:32 +0000
Subject: [PATCH 38/39] fix: SQP_CPP judges trials with the same gap norm as
 the iterate

---
 python/sqp_cpp.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/sqp_cpp.py b/python/sqp_cpp.py
index 6aff6d4..5d1f510 100644
--- a/python/sqp_cpp.py
+++ b/python/sqp_cpp.py
@@ -110,9 +110,7 @@ class SQP_CPP(crocoddyl.SolverFDDP):
         self.problem.terminalModel.calc(self.problem.terminalData, self.xs_try[-1])
         self.cost_try += self.problem.terminalData.cost
 
-        self.gap_norm_try = (
-            sum(np.linalg.norm(self.gap_try, 1, axis=1)) / self.problem.T
-        )
+        self.gap_norm_try = sum(np.linalg.norm(self.gap_try, 1, axis=1))
 
         self.merit_try = self.cost_try + self.mu * self.gap_norm_try
         # print("cost_try", self.cost_try, "gaps_try", self.gap_norm_try, "merit try", self.merit_try)
-- 
2.43.0


From b073371926241a63a55ad43d769df872ef9a7e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:32 +0000
Subject: [PATCH 39/39] fix: SQP_CPP stops where it converged and reports an
 exhausted budget as failure

---
 python/sqp_cpp.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/python/sqp_cpp.py b/python/sqp_cpp.py
index 5d1f510..451a130 100644
--- a/python/sqp_cpp.py
+++ b/python/sqp_cpp.py
@@ -143,7 +143,21 @@ class SQP_CPP(crocoddyl.SolverFDDP):
             print("{:>3} {:>9} {:>10} {:>11} {:>8} {:>11} {:>8}".format(*headings))
 
         for iter in range(maxiter):
-            self.computeDirection()
+            if self.computeDirection():
+                if self.with_callbacks:
+                    print(
+                        "{:>4} {:.5e} {:.5e} {:.5e} {:>6} {:.5e} {:.5e}".format(
+                            "END",
+                            float(self.merit),
+                            self.cost,
+                            self.x_grad_norm + self.u_grad_norm,
+                            "----",
+                            self.gap_norm,
+                            self.KKT,
+                        )
+                    )
+                return True
+
             self.gap_list.append(self.gap_norm)
             self.cost_list.append(self.cost)
             alpha = 1.0
@@ -181,9 +195,6 @@ class SQP_CPP(crocoddyl.SolverFDDP):
 
                 alpha *= 0.5
 
-            if self.KKT < self.termination_tolerance:
-                return True
-
             if self.with_callbacks:
                 print(
                     "{:>4} {:.5e} {:.5e} {:.5e} {:.4f} {:.5e} {:.5e}".format(
@@ -197,7 +208,7 @@ class SQP_CPP(crocoddyl.SolverFDDP):
                     )
                 )
 
-        return True
+        return False
 
     def models(self):
         mod = [m for m in self.problem.runningModels]
-- 
2.43.0


From c4fe25f7118bdf806292bb50a22e98d8afc4c51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:24 +0000
Subject: [PATCH 01/42] fix: SQP solve ends when a callback asks to stop or the
 QP solver failed too often

The status set by the trust region loop was lost: stepSQPSolver reported that
the step had not ended, so solve() went on convexifying, and the final status
was overwritten.
---
 .../trajopt_sqp/src/trust_region_sqp_solver.cpp           | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
index eeccd77..19dd94d 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
@@ -123,6 +123,10 @@ void TrustRegionSQPSolver::solve(const QPProblem::Ptr& qp_problem)
         break;
     }
 
+    // If a callback asked to stop or the QP solver failed too often, the optimization is aborted
+    if (status_ == SQPStatus::kStoppedByCallback || status_ == SQPStatus::kQPSolveFailed)
+      break;
+
     // Check if constraints are satisfied
     if (verifySQPSolverConvergence())
     {
@@ -256,7 +260,9 @@ bool TrustRegionSQPSolver::stepSQPSolver()
     status_ = SQPStatus::kConverged;
     return true;
   }
-  return false;
+
+  // A callback asked to stop or the QP solver failed one too many times
+  return (status_ == SQPStatus::kStoppedByCallback || status_ == SQPStatus::kQPSolveFailed);
 }
 
 void TrustRegionSQPSolver::runTrustRegionLoop()
-- 
2.43.0


From 77657cd6bc158602e3224ac00f0c3140b9c37bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:32 +0000
Subject: [PATCH 02/42] fix: a constraint without active rows keeps its own
 merit coefficient in convexify

---
 trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
index 8d88f0b..3bf7a9c 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
@@ -745,6 +745,10 @@ void TrajOptQPProblem::Implementation::convexify()
   {
     const auto& info = cvp.constraint_term_infos[i].get();
     const auto& cnt = constraint_terms[i];
+
+    // A constraint without rows still owns its merit coefficient
+    const double merit_coeff =
+        (info.type == ComponentInfoType::kMeritConstraint) ? constraint_merit_coeff(merit_constraint_index++) : 1;
     if (info.rows == 0)
       continue;
 
@@ -768,8 +772,6 @@ void TrajOptQPProblem::Implementation::convexify()
     cc = cnt->getValues();
     cc.noalias() -= jac * x_initial;
 
-    const double merit_coeff =
-        (info.type == ComponentInfoType::kMeritConstraint) ? constraint_merit_coeff(merit_constraint_index++) : 1;
     for (Eigen::Index k = 0; k < jac.outerSize(); ++k)
     {
       for (trajopt_ifopt::Jacobian::InnerIterator it(jac, k); it; ++it)
-- 
2.43.0


From d294af892f0fa6921c745a6ff1008b06ccc06730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:32 +0000
Subject: [PATCH 03/42] fix: TrajOptQPProblem can be set up more than once

---
 trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
index 3bf7a9c..f2dfeb8 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
@@ -567,6 +567,9 @@ void TrajOptQPProblem::Implementation::update()
 
 void TrajOptQPProblem::Implementation::setup()
 {
+  // The component infos are rebuilt below, so update() must fill all of them
+  initialized = false;
+
   objective_terms.clear();
   objective_terms.insert(objective_terms.end(), squared_costs.begin(), squared_costs.end());
   objective_terms.insert(objective_terms.end(), dyn_squared_costs.begin(), dyn_squared_costs.end());
-- 
2.43.0


From 74b57b1d394503620b67c6420014060d3ed481f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:32 +0000
Subject: [PATCH 04/42] fix: hinge and absolute costs are weighted by their
 coefficients as in the QP

---
 trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
index f2dfeb8..90a097d 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
@@ -191,7 +191,7 @@ Eigen::VectorXd ConvexProblem::evaluateConvexCosts(const Eigen::Ref<const Eigen:
     // compute violations in-place
     trajopt_ifopt::calcBoundsViolations(err, val, c_info.bounds);
 
-    costs(cost_idx++) = err.sum();
+    costs(cost_idx++) = (err.array() * c_info.coeffs.array()).sum();
     assert(!(err.array() < -1e-8).any());
     row_offset += c_info.rows;
   }
@@ -1018,7 +1018,7 @@ Eigen::VectorXd TrajOptQPProblem::Implementation::getExactCosts() const
     auto err = scratch_err.head(c->getRows());
 
     trajopt_ifopt::calcBoundsViolations(err, c->getValues(), c->getBounds());
-    g(cost_idx++) = err.sum();
+    g(cost_idx++) = (err.array() * c->getCoefficients().array()).sum();
   }
 
   return g;
-- 
2.43.0


From 06725eae9c4d2031d469007672562cc4c80b62d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:32 +0000
Subject: [PATCH 05/42] fix: convex hinge and absolute costs are evaluated
 without the slack variables

---
 trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
index 90a097d..fca4536 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
@@ -172,7 +172,9 @@ Eigen::VectorXd ConvexProblem::evaluateConvexCosts(const Eigen::Ref<const Eigen:
       continue;
     }
 
-    auto jac = constraint_matrix.middleRows(row_offset, c_info.rows);
+    // The slack variables must not hide the violation of the linearized term
+    // NOLINTNEXTLINE
+    auto jac = constraint_matrix.middleRows(row_offset, c_info.rows).leftCols(n_nlp_vars);
     auto constant = constraint_constant.segment(row_offset, c_info.rows);
 
     // Ensure scratch buffers big enough (no allocation after first growth)
@@ -185,8 +187,8 @@ Eigen::VectorXd ConvexProblem::evaluateConvexCosts(const Eigen::Ref<const Eigen:
     auto err = scratch_err.head(c_info.rows);
 
     // scratch_val = constant + jac * var_vals
-    val = constant;                   // copy into scratch (but no alloc)
-    val.noalias() += jac * var_vals;  // mat-vec into existing memory
+    val = constant;                    // copy into scratch (but no alloc)
+    val.noalias() += jac * var_block;  // mat-vec into existing memory
 
     // compute violations in-place
     trajopt_ifopt::calcBoundsViolations(err, val, c_info.bounds);
-- 
2.43.0


From 2f4a9730790d9ae01a13a4c5ebe17eff0b2e51bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:32 +0000
Subject: [PATCH 06/42] fix: convex costs can be evaluated while no squared
 cost has a row

---
 trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
index fca4536..3b4f985 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
@@ -152,7 +152,8 @@ Eigen::VectorXd ConvexProblem::evaluateConvexCosts(const Eigen::Ref<const Eigen:
       scratch_val.resize(n_objective_terms);
 
     auto sq_costs = scratch_val.head(n_objective_terms);
-    squared_objective_nlp.values(sq_costs, var_block);
+    if (n_objective_terms > 0)
+      squared_objective_nlp.values(sq_costs, var_block);
 
     assert(!(sq_costs.array() < -1e-8).any());
     for (const auto& c_info : objective_term_infos)
-- 
2.43.0


From 382f36bb036d58d225a3c006acad7034d2b66279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:42 +0000
Subject: [PATCH 07/42] fix: the cost of a Problem is the sum of all its cost
 terms

---
 trajopt_ifopt/src/core/problem.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/trajopt_ifopt/src/core/problem.cpp b/trajopt_ifopt/src/core/problem.cpp
index d73ae7c..6a69cf3 100644
--- a/trajopt_ifopt/src/core/problem.cpp
+++ b/trajopt_ifopt/src/core/problem.cpp
@@ -68,17 +68,14 @@ void Problem::setVariables(const double* x)
 
 double Problem::evaluateCostFunction()
 {
-  Eigen::VectorXd g = Eigen::VectorXd::Zero(1);
-  if (hasCostTerms())
-    g = costs_.getValues();
-
-  return g(0);
+  // the total cost is the sum of all cost terms
+  return hasCostTerms() ? costs_.getValues().sum() : 0.0;
 }
 
 Eigen::VectorXd Problem::evaluateCostFunctionGradient(bool use_finite_difference_approximation, double epsilon)
 {
   int n = getNumberOfOptimizationVariables();
-  Jacobian jac = Jacobian(1, n);
+  Eigen::VectorXd grad = Eigen::VectorXd::Zero(n);
   Eigen::VectorXd x = getVariableValues();
   if (hasCostTerms())
   {
@@ -94,18 +91,19 @@ Eigen::VectorXd Problem::evaluateCostFunctionGradient(bool use_finite_difference
         x_new[i] += step_size;  // disturb
         setVariables(x_new.data());
         double g_new = evaluateCostFunction();
-        jac.coeffRef(0, static_cast<Eigen::Index>(i)) = (g_new - g) / step_size;
+        grad(static_cast<Eigen::Index>(i)) = (g_new - g) / step_size;
         x_new[i] = x[static_cast<Eigen::Index>(i)];  // reset for next iteration
       }
       setVariables(x.data());
     }
     else
     {
-      jac = costs_.getJacobian();
+      // the gradient of the total cost is the sum of the gradients of all cost terms
+      grad = costs_.getJacobian().transpose() * Eigen::VectorXd::Ones(costs_.getRows());
     }
   }
 
-  return jac.row(0).transpose();
+  return grad;
 }
 
 std::vector<Bounds> Problem::getBoundsOnConstraints() const { return constraints_.getBounds(); }
-- 
2.43.0


From 37dff93be2a25d3a3eab3aaa5834ffa7979056b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:18 +0000
Subject: [PATCH 08/42] fix: joint position constraint split into inequalities
 accepts a single coefficient

---
 trajopt_ifopt/src/constraints/joint_position_constraint.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trajopt_ifopt/src/constraints/joint_position_constraint.cpp b/trajopt_ifopt/src/constraints/joint_position_constraint.cpp
index af72551..3f120fe 100644
--- a/trajopt_ifopt/src/constraints/joint_position_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/joint_position_constraint.cpp
@@ -126,14 +126,14 @@ JointPosConstraint::JointPosConstraint(const std::vector<Bounds>& bounds,
         bounds_.emplace_back(-double(INFINITY), b.getUpper());
         split_indices.push_back(indices_[i]);
         split_indices.push_back(indices_[i]);
-        split_coeffs.emplace_back(coeffs[static_cast<Eigen::Index>(i)]);
-        split_coeffs.emplace_back(coeffs[static_cast<Eigen::Index>(i)]);
+        split_coeffs.emplace_back(coeffs_[static_cast<Eigen::Index>(i)]);
+        split_coeffs.emplace_back(coeffs_[static_cast<Eigen::Index>(i)]);
       }
       else
       {
         bounds_.push_back(b);
         split_indices.push_back(indices_[i]);
-        split_coeffs.emplace_back(coeffs[static_cast<Eigen::Index>(i)]);
+        split_coeffs.emplace_back(coeffs_[static_cast<Eigen::Index>(i)]);
       }
     }
 
-- 
2.43.0


From e7dd0d62e17324a5f9e6509b9b9617439d0e4385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:22 +0000
Subject: [PATCH 09/42] fix: a NodesObserver can be constructed and is notified
 by its subject

---
 .../trajopt_ifopt/variable_sets/nodes_observer.h     |  7 ++++++-
 .../trajopt_ifopt/variable_sets/nodes_variables.h    |  6 ++++++
 trajopt_ifopt/src/variable_sets/nodes_observer.cpp   | 12 ++++++++++--
 trajopt_ifopt/src/variable_sets/nodes_variables.cpp  |  9 +++++++++
 4 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/trajopt_ifopt/include/trajopt_ifopt/variable_sets/nodes_observer.h b/trajopt_ifopt/include/trajopt_ifopt/variable_sets/nodes_observer.h
index 64fd7b8..a23d205 100644
--- a/trajopt_ifopt/include/trajopt_ifopt/variable_sets/nodes_observer.h
+++ b/trajopt_ifopt/include/trajopt_ifopt/variable_sets/nodes_observer.h
@@ -55,7 +55,12 @@ public:
    * @param subject  The subject holding the Hermite node values.
    */
   NodesObserver(std::weak_ptr<NodesVariables> subject);
-  virtual ~NodesObserver() = default;
+  /** @brief Removes this observer from the subject. */
+  virtual ~NodesObserver();
+  NodesObserver(const NodesObserver&) = delete;
+  NodesObserver& operator=(const NodesObserver&) = delete;
+  NodesObserver(NodesObserver&&) = delete;
+  NodesObserver& operator=(NodesObserver&&) = delete;
 
   /**
    * @brief Callback method called every time the subject changes.
diff --git a/trajopt_ifopt/include/trajopt_ifopt/variable_sets/nodes_variables.h b/trajopt_ifopt/include/trajopt_ifopt/variable_sets/nodes_variables.h
index ce37833..f20e9be 100644
--- a/trajopt_ifopt/include/trajopt_ifopt/variable_sets/nodes_variables.h
+++ b/trajopt_ifopt/include/trajopt_ifopt/variable_sets/nodes_variables.h
@@ -102,6 +102,12 @@ public:
    */
   void addObserver(std::shared_ptr<NodesObserver> observer);
 
+  /**
+   * @brief Removes an observer, which is not notified any more.
+   * @param observer The observer to remove
+   */
+  void removeObserver(const NodesObserver* observer);
+
   /**
    * @returns  The dimensions (x,y,z) of every node.
    */
diff --git a/trajopt_ifopt/src/variable_sets/nodes_observer.cpp b/trajopt_ifopt/src/variable_sets/nodes_observer.cpp
index c589a07..7b572e1 100644
--- a/trajopt_ifopt/src/variable_sets/nodes_observer.cpp
+++ b/trajopt_ifopt/src/variable_sets/nodes_observer.cpp
@@ -36,8 +36,16 @@ NodesObserver::NodesObserver(std::weak_ptr<NodesVariables> subject) : subject_(s
 {
   auto subject_shared = subject_.lock();  // Convert weak_ptr to shared_ptr
   if (subject_shared)
-    subject_shared->addObserver(shared_from_this());  // register observer to subject so this class always up-to-date
-  else                                                // Handle the case where the weak_ptr is expired
+    // register observer to subject so this class always up-to-date; nothing owns this object yet (shared_from_this()
+    // would throw), so the subject gets a pointer that does not own it
+    subject_shared->addObserver(std::shared_ptr<NodesObserver>(std::shared_ptr<void>(), this));
+  else  // Handle the case where the weak_ptr is expired
     throw std::runtime_error("Failed to lock weak_ptr; the object might have been destroyed.");
 }
+
+NodesObserver::~NodesObserver()
+{
+  if (auto subject_shared = subject_.lock())
+    subject_shared->removeObserver(this);
+}
 }  // namespace trajopt_ifopt
diff --git a/trajopt_ifopt/src/variable_sets/nodes_variables.cpp b/trajopt_ifopt/src/variable_sets/nodes_variables.cpp
index 921b38b..26c35b8 100644
--- a/trajopt_ifopt/src/variable_sets/nodes_variables.cpp
+++ b/trajopt_ifopt/src/variable_sets/nodes_variables.cpp
@@ -32,6 +32,7 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #include <trajopt_ifopt/variable_sets/node.h>
 #include <trajopt_common/collision_utils.h>
 
+#include <algorithm>
 #include <cassert>
 
 namespace trajopt_ifopt
@@ -99,6 +100,14 @@ void NodesVariables::updateObservers()
 
 void NodesVariables::addObserver(std::shared_ptr<NodesObserver> observer) { observers_.push_back(std::move(observer)); }
 
+void NodesVariables::removeObserver(const NodesObserver* observer)
+{
+  observers_.erase(std::remove_if(observers_.begin(),
+                                  observers_.end(),
+                                  [observer](const auto& o) { return o.get() == observer; }),
+                   observers_.end());
+}
+
 Eigen::Index NodesVariables::getDim() const { return n_dim_; }
 
 std::vector<Bounds> NodesVariables::getBounds() const { return bounds_; }
-- 
2.43.0


From 988ea4380a01b75a690a265b4390ce8e982dd159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:21 +0000
Subject: [PATCH 10/42] fix: exprToEigen refuses a quadratic term whose
 variable index is beyond the size

---
 trajopt_sco/src/solver_utils.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/trajopt_sco/src/solver_utils.cpp b/trajopt_sco/src/solver_utils.cpp
index b788b04..cf08ea9 100644
--- a/trajopt_sco/src/solver_utils.cpp
+++ b/trajopt_sco/src/solver_utils.cpp
@@ -69,6 +69,13 @@ void exprToEigen(const QuadExpr& expr,
 
   for (std::size_t i = 0; i < expr.coeffs.size(); ++i)
   {
+    const auto max_index = static_cast<Eigen::Index>(std::max(ind1[i], ind2[i]));
+    if (max_index >= n_vars)
+    {
+      std::stringstream msg;
+      msg << "Quadratic coefficient " << i << " has index " << max_index << " but n_vars is " << n_vars;
+      throw std::runtime_error(msg.str());
+    }
     if (expr.coeffs[i] != 0.0)
     {
       // NOLINTNEXTLINE
-- 
2.43.0


From 2e4e923400fcb8b0616085ccb432da93be46994e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:21 +0000
Subject: [PATCH 11/42] fix: quadratic expressions keep the Jacobian of affine
 rows and evaluate a single variable correctly

---
 trajopt_optimizers/trajopt_sqp/src/expressions.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/expressions.cpp b/trajopt_optimizers/trajopt_sqp/src/expressions.cpp
index bb59d1b..33e4f4f 100644
--- a/trajopt_optimizers/trajopt_sqp/src/expressions.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/expressions.cpp
@@ -108,6 +108,10 @@ void AffExprs::square(QuadExprs& quad_expr, const Eigen::Ref<const Eigen::Vector
     Qi.resize(1, n);
     Qi.setFromTriplets(scratch_qi_trips_.begin(), scratch_qi_trips_.end());
     Qi.makeCompressed();
+
+    // With a single variable a 1×1 matrix is always the general form Q_i = q_i^2
+    if (n == 1)
+      Qi.coeffRef(0, 0) *= Qi.coeff(0, 0);
   }
 }
 
@@ -145,7 +149,7 @@ void QuadExprs::values(Eigen::Ref<Eigen::VectorXd> out, const Eigen::Ref<const E
     if (Q.rows() == 0)
       continue;
 
-    if (Q.rows() == 1)
+    if (Q.rows() == 1 && Q.cols() > 1)
     {
       // Encoded q_i (1×n): add (q_i * x)^2
       double t = 0.0;
@@ -181,8 +185,8 @@ void QuadExprs::create(const Eigen::Ref<const Eigen::VectorXd>& func_errors,
   assert(static_cast<Eigen::Index>(func_hessians.size()) == m);
   assert(x.size() == n);
 
-  linear_coeffs.resize(m, n);
-  linear_coeffs.setZero();  // keep existing behavior: rows with no Hessian stay zero
+  // rows with no Hessian are affine and keep their Jacobian
+  linear_coeffs = func_jacobian;
 
   // constants = f(x₀) − J(x₀) x₀
   constants.resize(m);
-- 
2.43.0


From 1c8b0d4fadfe148b64a06696b68a56f47f42cf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:08 +0000
Subject: [PATCH 12/42] fix: getClosestFeasiblePoint respects the lower bounds

---
 trajopt_sco/src/modeling.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/trajopt_sco/src/modeling.cpp b/trajopt_sco/src/modeling.cpp
index 5185c9f..c136942 100644
--- a/trajopt_sco/src/modeling.cpp
+++ b/trajopt_sco/src/modeling.cpp
@@ -263,9 +263,10 @@ DblVec OptProb::getClosestFeasiblePoint(const DblVec& x, const double& delta)
   DblVec y(x.size());
   for (std::size_t i = 0; i < x.size(); i++)
   {
-    // Force it a tiny bit inside the bounds
-    y[i] = fmax(lower_bounds_[i] + delta, x[i]);
-    y[i] = fmin(upper_bounds_[i] - delta, x[i]);
+    // Force it a tiny bit inside the bounds, or to the middle if they are too close together for that
+    const double margin = fmin(delta, (upper_bounds_[i] - lower_bounds_[i]) / 2);
+    y[i] = fmax(lower_bounds_[i] + margin, x[i]);
+    y[i] = fmin(upper_bounds_[i] - margin, y[i]);
   }
   return y;
 }
-- 
2.43.0


From 4340c8282b38e1792fa29d27fac5ad91afba841d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:08 +0000
Subject: [PATCH 13/42] fix: ConvexObjective::addMax adds its variable to the
 objective and removes it from the model

---
 trajopt_sco/src/modeling.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trajopt_sco/src/modeling.cpp b/trajopt_sco/src/modeling.cpp
index c136942..671f73e 100644
--- a/trajopt_sco/src/modeling.cpp
+++ b/trajopt_sco/src/modeling.cpp
@@ -75,12 +75,14 @@ void ConvexObjective::addL2Norm(const AffExprVector& ev)
 void ConvexObjective::addMax(const AffExprVector& ev)
 {
   Var const m = model_->addVar("max", static_cast<double>(-INFINITY), static_cast<double>(INFINITY));
+  vars_.push_back(m);
   ineqs_.reserve(ineqs_.size() + ev.size());
   for (const auto& i : ev)
   {
     ineqs_.push_back(i);
     exprDec(ineqs_.back(), m);
   }
+  exprInc(quad_, m);
 }
 
 void ConvexObjective::addConstraintsToModel()
-- 
2.43.0


From 23e1d60437dd87b6c85010fd1b4ddbd2909d01a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:54 +0000
Subject: [PATCH 14/42] fix: evaluate costs and violations of the starting
 point before any limit is checked

A time limit of zero or no penalty iterations reported (and even called converged) a
solution without costs or violations, and a second optimize() kept the values of the
point before getClosestFeasiblePoint moved it.
---
 trajopt_sco/src/optimizers.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/trajopt_sco/src/optimizers.cpp b/trajopt_sco/src/optimizers.cpp
index fce8e57..23cf8e4 100644
--- a/trajopt_sco/src/optimizers.cpp
+++ b/trajopt_sco/src/optimizers.cpp
@@ -732,6 +732,11 @@ OptStatus BasicTrustRegionSQP::optimize()
   using Clock = std::chrono::high_resolution_clock;
   auto start_time = Clock::now();
 
+  // getClosestFeasiblePoint may have moved x, and a limit may be reached before the first step
+  results_.cnt_viols = evaluateConstraintViols(constraints, results_.x);
+  results_.cost_vals = evaluateCosts(prob_->getCosts(), results_.x);
+  ++results_.n_func_evals;
+
   for (int merit_increases = 0; merit_increases < param_.max_merit_coeff_increases; ++merit_increases)
   { /* merit adjustment loop */
     for (int iter = 1;; ++iter)
@@ -756,16 +761,6 @@ OptStatus BasicTrustRegionSQP::optimize()
       LOG_DEBUG("current iterate: %s", CSTR(results_.x));
       LOG_INFO("iteration %i", iter);
 
-      // speedup: if you just evaluated the cost when doing the line search, use
-      // that
-      if (results_.cost_vals.empty() && results_.cnt_viols.empty())
-      {  // only happens on the first iteration
-        results_.cnt_viols = evaluateConstraintViols(constraints, results_.x);
-        results_.cost_vals = evaluateCosts(prob_->getCosts(), results_.x);
-        assert(results_.n_func_evals == 0);
-        ++results_.n_func_evals;
-      }
-
       // DblVec new_cnt_viols = evaluateConstraintViols(constraints, results_.x);
       // DblVec new_cost_vals = evaluateCosts(prob_->getCosts(), results_.x);
       // cout << "costs" << endl;
-- 
2.43.0


From d7acf85c7358b9fd0869a2e8247a84b4cf21dcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:54 +0000
Subject: [PATCH 15/42] fix: do not close log files that could not be opened

---
 trajopt_sco/src/optimizers.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/trajopt_sco/src/optimizers.cpp b/trajopt_sco/src/optimizers.cpp
index 23cf8e4..5a85876 100644
--- a/trajopt_sco/src/optimizers.cpp
+++ b/trajopt_sco/src/optimizers.cpp
@@ -972,15 +972,11 @@ cleanup:
   LOG_INFO("\n==================\n%s==================", CSTR(results_));
   callCallbacks();
 
-  // NOLINTBEGIN(clang-analyzer-core.NonNullParamChecker)
-  if (param_.log_results || trajopt_common::GetLogLevel() >= trajopt_common::LevelDebug)
+  for (std::FILE* stream : { log_solver_stream, log_vars_stream, log_costs_stream, log_constraints_stream })
   {
-    std::fclose(log_solver_stream);
-    std::fclose(log_vars_stream);
-    std::fclose(log_costs_stream);
-    std::fclose(log_constraints_stream);
+    if (stream != nullptr)
+      std::fclose(stream);
   }
-  // NOLINTEND(clang-analyzer-core.NonNullParamChecker)
 
   return retval;
 }
-- 
2.43.0


From caa37f3d763edff0efd28ee636eaf53dcee83227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:49 +0000
Subject: [PATCH 16/42] fix: an affine objective replaces the whole objective
 of a BPMPD model

---
 trajopt_sco/src/bpmpd_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt_sco/src/bpmpd_interface.cpp b/trajopt_sco/src/bpmpd_interface.cpp
index b6e522a..68e2e32 100644
--- a/trajopt_sco/src/bpmpd_interface.cpp
+++ b/trajopt_sco/src/bpmpd_interface.cpp
@@ -540,7 +540,7 @@ CvxOptStatus BPMPDModel::optimize()
 
   // exit(0);
 }
-void BPMPDModel::setObjective(const AffExpr& expr) { m_objective.affexpr = expr; }
+void BPMPDModel::setObjective(const AffExpr& expr) { m_objective = QuadExpr(expr); }
 void BPMPDModel::setObjective(const QuadExpr& expr) { m_objective = expr; }
 void BPMPDModel::writeToFile(const std::string& /*fname*/) const
 {
-- 
2.43.0


From 56bb82f1ef36bb81101bc997c8fd649cee65ad56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:49 +0000
Subject: [PATCH 17/42] fix: keep solution values with their variables when a
 BPMPD model removes variables

---
 trajopt_sco/src/bpmpd_interface.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trajopt_sco/src/bpmpd_interface.cpp b/trajopt_sco/src/bpmpd_interface.cpp
index 68e2e32..01361cd 100644
--- a/trajopt_sco/src/bpmpd_interface.cpp
+++ b/trajopt_sco/src/bpmpd_interface.cpp
@@ -294,6 +294,8 @@ void BPMPDModel::update()
         m_vars[inew] = var;
         m_lbs[inew] = m_lbs[iold];
         m_ubs[inew] = m_ubs[iold];
+        if (iold < m_soln.size())
+          m_soln[inew] = m_soln[iold];
         var.var_rep->index = inew;
         ++inew;
       }
@@ -305,6 +307,8 @@ void BPMPDModel::update()
     m_vars.resize(inew);
     m_lbs.resize(inew);
     m_ubs.resize(inew);
+    if (m_soln.size() > inew)
+      m_soln.resize(inew);
   }
   {
     std::size_t inew = 0;
-- 
2.43.0


From ed3270b0de2051acf21dd09a0635aa148458a80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:49 +0000
Subject: [PATCH 18/42] fix: lock the BPMPD model while setting variable
 bounds, adding a bounded variable must be thread safe

---
 trajopt_sco/src/bpmpd_interface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trajopt_sco/src/bpmpd_interface.cpp b/trajopt_sco/src/bpmpd_interface.cpp
index 01361cd..4f01b11 100644
--- a/trajopt_sco/src/bpmpd_interface.cpp
+++ b/trajopt_sco/src/bpmpd_interface.cpp
@@ -336,6 +336,7 @@ void BPMPDModel::update()
 
 void BPMPDModel::setVarBounds(const VarVector& vars, const DblVec& lower, const DblVec& upper)
 {
+  const std::scoped_lock lock(m_mutex);
   for (unsigned i = 0; i < vars.size(); ++i)
   {
     auto varind = static_cast<std::size_t>(vars[i].var_rep->index);
-- 
2.43.0


From 64bd66626bf65e6c450ad33e2d617dfc34f08cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:20 +0000
Subject: [PATCH 19/42] fix: transfer whole messages to and from the BPMPD
 process, reads and writes may be partial or interrupted

---
 trajopt_sco/include/trajopt_sco/bpmpd_io.hpp | 52 +++++++++++++++-----
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/trajopt_sco/include/trajopt_sco/bpmpd_io.hpp b/trajopt_sco/include/trajopt_sco/bpmpd_io.hpp
index 7ab80ec..19eef5b 100644
--- a/trajopt_sco/include/trajopt_sco/bpmpd_io.hpp
+++ b/trajopt_sco/include/trajopt_sco/bpmpd_io.hpp
@@ -3,6 +3,8 @@
 TRAJOPT_IGNORE_WARNINGS_PUSH
 #include <vector>
 #include <cassert>
+#include <cerrno>
+#include <cstddef>
 #include <cstdint>
 #include <cstdlib>
 #include <unistd.h>
@@ -16,6 +18,40 @@ enum SerMode : std::uint8_t
   SER
 };
 
+/** @brief Write all bytes, a single call may be interrupted or write only some of them */
+inline void writeAll(int fp, const void* data, std::size_t size)
+{
+  const char* ptr = static_cast<const char*>(data);
+  while (size > 0)
+  {
+    const ssize_t n = write(fp, ptr, size);
+    if (n < 0 && errno == EINTR)
+      continue;
+    if (n <= 0)
+      break;
+    ptr += n;
+    size -= static_cast<std::size_t>(n);
+  }
+  assert(size == 0);
+}
+
+/** @brief Read all bytes, a single call may be interrupted or read only some of them */
+inline void readAll(int fp, void* data, std::size_t size)
+{
+  char* ptr = static_cast<char*>(data);
+  while (size > 0)
+  {
+    const ssize_t n = read(fp, ptr, size);
+    if (n < 0 && errno == EINTR)
+      continue;
+    if (n <= 0)
+      break;
+    ptr += n;
+    size -= static_cast<std::size_t>(n);
+  }
+  assert(size == 0);
+}
+
 template <typename T>
 void ser(int fp, T& x, SerMode mode)
 {
@@ -24,16 +60,12 @@ void ser(int fp, T& x, SerMode mode)
     case SER:
     {
       T xcopy = x;
-      const ssize_t n = write(fp, &xcopy, sizeof(T));
-      assert(n == sizeof(T));
-      UNUSED(n);
+      writeAll(fp, &xcopy, sizeof(T));
       break;
     }
     case DESER:
     {
-      const ssize_t n = read(fp, &x, sizeof(T));
-      assert(n == sizeof(T));
-      UNUSED(n);
+      readAll(fp, &x, sizeof(T));
       break;
     }
   }
@@ -48,17 +80,13 @@ void ser(int fp, std::vector<T>& x, SerMode mode)
   {
     case SER:
     {
-      const long n = write(fp, x.data(), sizeof(T) * size);
-      assert(static_cast<unsigned long>(n) == sizeof(T) * size);
-      UNUSED(n);
+      writeAll(fp, x.data(), sizeof(T) * size);
       break;
     }
     case DESER:
     {
       x.resize(size);
-      const long n = read(fp, x.data(), sizeof(T) * size);
-      assert(static_cast<unsigned long>(n) == sizeof(T) * size);
-      UNUSED(n);
+      readAll(fp, x.data(), sizeof(T) * size);
       break;
     }
   }
-- 
2.43.0


From 9288d49a6afc30333a29313a0a77349eda3af8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:57 +0000
Subject: [PATCH 20/42] fix: IfoptQPProblem::setup called twice kept the names
 of the first setup

---
 trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
index 9adb993..0f2c751 100644
--- a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
@@ -94,6 +94,8 @@ void IfoptQPProblem::setup()
   constraint_types_.resize(static_cast<std::size_t>(num_nlp_cnts_));
 
   // Get NLP Cost and Constraint Names for Debug Print
+  constraint_names_.clear();
+  cost_names_.clear();
   for (const auto& cnt : nlp_->getConstraints().getComponents())
   {
     for (Eigen::Index j = 0; j < cnt->getRows(); j++)
-- 
2.43.0


From e465105fbc7fdd5ed544ec9eb7ab632e2d8b70fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:57 +0000
Subject: [PATCH 21/42] fix: IfoptQPProblem weights the exact costs like their
 QP model

---
 trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
index 0f2c751..2f8a933 100644
--- a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
@@ -62,13 +62,13 @@ void IfoptQPProblem::addCostSet(std::shared_ptr<trajopt_ifopt::ConstraintSet> co
   {
     case CostPenaltyType::kSquared:
     {
-      auto cost = std::make_shared<trajopt_ifopt::SquaredCost>(constraint_set);
+      auto cost = std::make_shared<trajopt_ifopt::SquaredCost>(constraint_set, constraint_set->getCoefficients());
       nlp_->addCostSet(std::move(cost));
       break;
     }
     case CostPenaltyType::kAbsolute:
     {
-      auto cost = std::make_shared<trajopt_ifopt::AbsoluteCost>(constraint_set);
+      auto cost = std::make_shared<trajopt_ifopt::AbsoluteCost>(constraint_set, constraint_set->getCoefficients());
       nlp_->addCostSet(std::move(cost));
       break;
     }
-- 
2.43.0


From 633e3f8c9f7e46cfad1733d4fc266d8c639e750e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:57 +0000
Subject: [PATCH 22/42] fix: a cost refused by IfoptQPProblem::addCostSet stays
 out of its QP

---
 trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
index 2f8a933..7caf27f 100644
--- a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
@@ -56,7 +56,6 @@ void IfoptQPProblem::addCostSet(std::shared_ptr<trajopt_ifopt::ConstraintSet> co
   // Save raw constraint for Hessian/gradient computation (SquaredCost wraps it
   // but doesn't expose the raw Jacobian needed for the Gauss-Newton Hessian)
   constraint_set->linkWithVariables(nlp_->getOptVariables());
-  cost_constraints_.push_back(constraint_set);
 
   switch (penalty_type)
   {
@@ -75,6 +74,7 @@ void IfoptQPProblem::addCostSet(std::shared_ptr<trajopt_ifopt::ConstraintSet> co
     default:
       throw std::runtime_error("IfoptQPProblem: Unsupported cost penalty type!");
   }
+  cost_constraints_.push_back(std::move(constraint_set));
 }
 
 void IfoptQPProblem::setup()
-- 
2.43.0


From eeb637574cedabc2c9d621a92d36b3524ffb081b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:57 +0000
Subject: [PATCH 23/42] fix: IfoptQPProblem evaluates each convex cost with its
 own model, not the sum of all costs

---
 .../include/trajopt_sqp/ifopt_qp_problem.h    |  6 +++
 .../trajopt_sqp/src/ifopt_qp_problem.cpp      | 48 ++++++++++++-------
 2 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/ifopt_qp_problem.h b/trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/ifopt_qp_problem.h
index f7a12e6..63bc5cf 100644
--- a/trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/ifopt_qp_problem.h
+++ b/trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/ifopt_qp_problem.h
@@ -115,6 +115,12 @@ protected:
   Eigen::VectorXd gradient_;
   Eigen::VectorXd cost_constant_;
 
+  /** @brief Linearized errors of each cost about cost_x_initial_, saved for evaluating the convex costs */
+  std::vector<Eigen::VectorXd> cost_errors_;
+  std::vector<Eigen::VectorXd> cost_coeffs_;
+  std::vector<trajopt_ifopt::Jacobian> cost_jacobians_;
+  Eigen::VectorXd cost_x_initial_;
+
   /** @brief Raw constraint sets underlying each SquaredCost, saved for Hessian/gradient computation */
   std::vector<std::shared_ptr<trajopt_ifopt::ConstraintSet>> cost_constraints_;
 
diff --git a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
index 7caf27f..86a869a 100644
--- a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
@@ -378,27 +378,35 @@ void IfoptQPProblem::updateCostsConstantExpression()
     return;
 
   // Get values about which we will linearize
-  Eigen::VectorXd x_initial = nlp_->getVariableValues().head(num_nlp_vars_);
+  cost_x_initial_ = nlp_->getVariableValues().head(num_nlp_vars_);
   const Eigen::VectorXd cost_initial_value = nlp_->getCosts().getValues();
 
-  // In the case of a QP problem the costs and constraints are represented as
-  // quadratic functions is f(x) = a + b * x + c * x^2.
+  // The gradient_ and hessian_ are those of the sum of the costs, so the model of each individual cost is kept
+  // as the linearization of its errors, f(x) = a + sum( w * (e + J * (x - x_initial))^2 ).
   // When convexifying the function it need to produce the same cost values at the values used to calculate
-  // the Jacobian and Hessian, so f(x_initial) = a + b * x + c * x^2 = cost_initial_value.
-  // Therefore a = cost_initial_value - b * x - c * x^2
-  //     where: b = gradient_
-  //            c = hessian_
-  //            x = x_initial
-  //            a = quadratic constant (cost_constant_)
+  // the Jacobian and Hessian, so f(x_initial) = cost_initial_value.
+  // Therefore a = cost_initial_value - sum( w * e^2 )
+  //     where: w = coefficients (cost_coeffs_)
+  //            e = errors (cost_errors_)
+  //            a = constant (cost_constant_)
   //
   // Note: This is not used by the QP solver directly but by the Trust Regions Solver
   //       to calculate the merit of the solve.
+  cost_errors_.clear();
+  cost_coeffs_.clear();
+  cost_jacobians_.clear();
+  cost_constant_ = cost_initial_value;
+  for (const auto& c : cost_constraints_)
+  {
+    Eigen::VectorXd errors(c->getRows());
+    trajopt_ifopt::calcBoundsErrors(errors, c->getValues(), c->getBounds());
+    const Eigen::VectorXd w = c->getCoefficients().cwiseAbs();
 
-  // The block excludes the slack variables
-  /** @todo I am not sure this is correct because the gradient_ is not each individual cost function gradient */
-  const double result_quad = x_initial.transpose() * hessian_.block(0, 0, num_nlp_vars_, num_nlp_vars_) * x_initial;
-  const double result_lin = x_initial.dot(gradient_.head(num_nlp_vars_));
-  cost_constant_ = cost_initial_value.array() - result_quad - result_lin;
+    cost_constant_[static_cast<Eigen::Index>(cost_errors_.size())] -= w.dot(errors.cwiseAbs2());
+    cost_errors_.push_back(errors);
+    cost_coeffs_.push_back(w);
+    cost_jacobians_.push_back(c->getJacobian());
+  }
 }
 
 void IfoptQPProblem::updateConstraintsConstantExpression()
@@ -518,10 +526,14 @@ Eigen::VectorXd IfoptQPProblem::evaluateConvexCosts(const Eigen::Ref<const Eigen
   if (num_nlp_costs_ == 0)
     return {};
 
-  auto var_block = var_vals.head(num_nlp_vars_);
-  const double result_quad = var_block.transpose() * hessian_.block(0, 0, num_nlp_vars_, num_nlp_vars_) * var_block;
-  const double result_lin = var_block.dot(gradient_.head(num_nlp_vars_));
-  return cost_constant_.array() + result_lin + result_quad;
+  const Eigen::VectorXd dx = var_vals.head(num_nlp_vars_) - cost_x_initial_;
+  Eigen::VectorXd costs = cost_constant_;
+  for (std::size_t i = 0; i < cost_errors_.size(); ++i)
+  {
+    const Eigen::VectorXd errors = cost_errors_[i] + cost_jacobians_[i] * dx;
+    costs[static_cast<Eigen::Index>(i)] += cost_coeffs_[i].dot(errors.cwiseAbs2());
+  }
+  return costs;
 }
 
 double IfoptQPProblem::getTotalExactCost() const { return nlp_->evaluateCostFunction(); }
-- 
2.43.0


From 9794cf31f30165f65d0c11ea095476598c27522e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 24/42] fix: rebuild the QP solver when it still holds the
 dimensions of another problem

---
 .../include/trajopt_sqp/trust_region_sqp_solver.h         | 4 ++++
 .../trajopt_sqp/src/trust_region_sqp_solver.cpp           | 8 ++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/trust_region_sqp_solver.h b/trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/trust_region_sqp_solver.h
index f8e8396..e4310ad 100644
--- a/trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/trust_region_sqp_solver.h
+++ b/trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/trust_region_sqp_solver.h
@@ -126,6 +126,10 @@ protected:
   SQPResults results_;
   std::vector<std::shared_ptr<SQPCallback>> callbacks_;
 
+  /** @brief The dimensions the QP solver was last initialized with */
+  Eigen::Index qp_solver_num_vars_{ -1 };
+  Eigen::Index qp_solver_num_cnts_{ -1 };
+
   void constraintMeritCoeffChanged();
 };
 
diff --git a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
index 19dd94d..d6f27c8 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
@@ -207,16 +207,16 @@ bool TrustRegionSQPSolver::stepSQPSolver()
 {
   results_.convexify_iteration++;
 
-  const auto prev_nv = qp_problem->getNumQPVars();
-  const auto prev_nc = qp_problem->getNumQPConstraints();
-
   qp_problem->convexify();
 
   const auto nv = qp_problem->getNumQPVars();
   const auto nc = qp_problem->getNumQPConstraints();
 
   const bool first_time = qp_solver->getSolverStatus() == QPSolverStatus::kUninitialized;
-  const bool dims_changed = (nv != prev_nv || nc != prev_nc);
+  // The QP solver may still hold another problem, so compare with the dimensions it was last initialized with
+  const bool dims_changed = (nv != qp_solver_num_vars_ || nc != qp_solver_num_cnts_);
+  qp_solver_num_vars_ = nv;
+  qp_solver_num_cnts_ = nc;
 
   if (first_time || dims_changed)
   {
-- 
2.43.0


From 32354aadcedde5a47b3ece55a95126a88f47c702 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 25/42] fix: perturb the second waypoint of a continuous
 collision constraint as the second waypoint

---
 .../continuous_collision_numerical_constraint.cpp      | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp b/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
index 3bad743..b099041 100644
--- a/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
@@ -171,7 +171,7 @@ Jacobian ContinuousCollisionNumericalConstraint::getJacobian() const
   const double margin_buffer = collision_evaluator_->getCollisionMarginBuffer();
 
   // Calculate collisions
-  Eigen::VectorXd joint_vals0 = position_vars_[0]->value();
+  const Eigen::VectorXd joint_vals0 = position_vars_[0]->value();
   const Eigen::VectorXd joint_vals1 = position_vars_[1]->value();
 
   trajopt_common::CollisionCacheData collision_data_delta;
@@ -183,8 +183,12 @@ Jacobian ContinuousCollisionNumericalConstraint::getJacobian() const
     for (int j = 0; j < n_dof_; j++)
     {
       jv(j) += delta;
-      collision_evaluator_->calcCollisionData(
-          collision_data_delta, jv, joint_vals1, vars0_fixed_, vars1_fixed_, bounds_.size());
+      collision_evaluator_->calcCollisionData(collision_data_delta,
+                                              (p == 0) ? jv : joint_vals0,
+                                              (p == 0) ? joint_vals1 : jv,
+                                              vars0_fixed_,
+                                              vars1_fixed_,
+                                              bounds_.size());
 
       for (int i = 0; i < static_cast<int>(cnt); ++i)
       {
-- 
2.43.0


From d3725765ce2b1545da7b81736158232c1504faeb Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 26/42] fix: rank the contacts of a single state by the worst
 error of both links

---
 .../src/constraints/collision/discrete_collision_evaluators.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt_ifopt/src/constraints/collision/discrete_collision_evaluators.cpp b/trajopt_ifopt/src/constraints/collision/discrete_collision_evaluators.cpp
index 4d80d56..d848865 100644
--- a/trajopt_ifopt/src/constraints/collision/discrete_collision_evaluators.cpp
+++ b/trajopt_ifopt/src/constraints/collision/discrete_collision_evaluators.cpp
@@ -142,7 +142,7 @@ void SingleTimestepCollisionEvaluator::calcCollisions(trajopt_common::CollisionC
     std::sort(collision_data.gradient_results_sets.begin(),
               collision_data.gradient_results_sets.end(),
               [](const trajopt_common::GradientResultsSet& a, const trajopt_common::GradientResultsSet& b) {
-                return a.max_error[0].error > b.max_error[0].error;
+                return a.getMaxErrorWithBuffer() > b.getMaxErrorWithBuffer();
               });
   }
 }
-- 
2.43.0


From 70b298ffc18c5ce7c31f2048f428c804837debc2 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 27/42] fix: give a shape without sub shapes a hash of its own

---
 trajopt_common/src/collision_utils.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trajopt_common/src/collision_utils.cpp b/trajopt_common/src/collision_utils.cpp
index 65772ec..ab8b68c 100644
--- a/trajopt_common/src/collision_utils.cpp
+++ b/trajopt_common/src/collision_utils.cpp
@@ -64,10 +64,10 @@ std::size_t getHash(const void* parent,
 std::size_t cantorHash(int shape_id, int subshape_id)
 {
   assert(shape_id >= 0);
-  if (subshape_id < 0)
-    return static_cast<std::size_t>(shape_id);
-
-  return static_cast<std::size_t>(1 / 2.0 * (shape_id + subshape_id) * (shape_id + subshape_id + 1) + subshape_id);
+  // A shape without sub shapes (-1) must not get the value of a sub shape of another shape
+  const auto shape = static_cast<std::size_t>(shape_id);
+  const std::size_t subshape = (subshape_id < 0) ? 0 : static_cast<std::size_t>(subshape_id) + 1;
+  return ((shape + subshape) * (shape + subshape + 1) / 2) + subshape;
 }
 
 void removeInvalidContactResults(tesseract::collision::ContactResultVector& contact_results,
-- 
2.43.0


From f11fe93fb216fc41405a96616c82c99052ec1809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:57 +0000
Subject: [PATCH 28/42] fix: BasicArray::middleRows placed row i of the source
 at row i of the result

---
 trajopt_common/include/trajopt_common/basic_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt_common/include/trajopt_common/basic_array.hpp b/trajopt_common/include/trajopt_common/basic_array.hpp
index d2995bd..98d3e40 100644
--- a/trajopt_common/include/trajopt_common/basic_array.hpp
+++ b/trajopt_common/include/trajopt_common/basic_array.hpp
@@ -71,7 +71,7 @@ struct BasicArray
     {
       for (int j = 0; j < m_nCol; ++j)
       {
-        out(i, j) = at(i, j);
+        out(i - start, j) = at(i, j);
       }
     }
     return out;
-- 
2.43.0


From 19bdb7d492d9ccfbd25ee27324ea86fc33f04ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:57 +0000
Subject: [PATCH 29/42] fix: the singularity terms over a subset of the joints
 did their work inside assert()

---
 trajopt/src/kinematic_terms.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/trajopt/src/kinematic_terms.cpp b/trajopt/src/kinematic_terms.cpp
index dd20e24..77eafa4 100644
--- a/trajopt/src/kinematic_terms.cpp
+++ b/trajopt/src/kinematic_terms.cpp
@@ -643,10 +643,10 @@ MatrixXd AvoidSingularityJacCalculator::operator()(const VectorXd& var_vals) con
 
 VectorXd AvoidSingularitySubsetErrCalculator::operator()(const VectorXd& var_vals) const
 {
-  UNUSED(var_vals);
   // Get the subset of the input variable values
   VectorXd subset_var_vals(fwd_kin_->numJoints());
-  assert(getSubset(superset_kin_->getJointNames(), var_vals, fwd_kin_->getJointNames(), subset_var_vals) == true);
+  if (!getSubset(superset_kin_->getJointNames(), var_vals, fwd_kin_->getJointNames(), subset_var_vals))
+    throw std::runtime_error("AvoidSingularity: the superset kinematics is missing joints of the subset kinematics");
 
   // Return the cost using the base class
   return AvoidSingularityErrCalculator::operator()(subset_var_vals);
@@ -654,10 +654,10 @@ VectorXd AvoidSingularitySubsetErrCalculator::operator()(const VectorXd& var_val
 
 MatrixXd AvoidSingularitySubsetJacCalculator::operator()(const VectorXd& var_vals) const
 {
-  UNUSED(var_vals);
   // Calculate the gradient using the subset kinematics
   VectorXd subset_var_vals(fwd_kin_->numJoints());
-  assert(getSubset(superset_kin_->getJointNames(), var_vals, fwd_kin_->getJointNames(), subset_var_vals) == true);
+  if (!getSubset(superset_kin_->getJointNames(), var_vals, fwd_kin_->getJointNames(), subset_var_vals))
+    throw std::runtime_error("AvoidSingularity: the superset kinematics is missing joints of the subset kinematics");
   MatrixXd subset_jac = AvoidSingularityJacCalculator::operator()(subset_var_vals);
 
   // Create an all-zero gradient that is the size of the superset joints
@@ -666,9 +666,9 @@ MatrixXd AvoidSingularitySubsetJacCalculator::operator()(const VectorXd& var_val
 
   // Update the all-zero superset gradient with the values from the subset gradient
   VectorXd tmp(superset_kin_->numJoints());
-  assert(updateFromSubset(
-             superset_kin_->getJointNames(), superset_jac.row(0), fwd_kin_->getJointNames(), subset_jac.row(0), tmp) ==
-         true);
+  if (!updateFromSubset(
+          superset_kin_->getJointNames(), superset_jac.row(0), fwd_kin_->getJointNames(), subset_jac.row(0), tmp))
+    throw std::runtime_error("AvoidSingularity: the superset kinematics is missing joints of the subset kinematics");
 
   // Create the output gradient
   MatrixXd jac(1, superset_kin_->numJoints());
-- 
2.43.0


From 047a4e99d99f322bca59b6c57fc158c748ea990e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:45 +0000
Subject: [PATCH 30/42] fix: analytic Jacobian of CartPosConstraint: rotation
 rows only, twists in the world frame

The rotation part assigned all six components of the error difference to the
last three rows (an assertion, or the translation error in the rotation rows
without assertions), and moved the world pose of the frame along a twist that
had already been expressed in the other frame.
---
 .../src/constraints/cartesian_position_constraint.cpp  | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/trajopt_ifopt/src/constraints/cartesian_position_constraint.cpp b/trajopt_ifopt/src/constraints/cartesian_position_constraint.cpp
index 6b6cad3..7feec06 100644
--- a/trajopt_ifopt/src/constraints/cartesian_position_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/cartesian_position_constraint.cpp
@@ -334,27 +334,29 @@ void CartPosConstraint::calcJacobianBlock(Jacobian& jac_block,
     if (type_ == Type::kTargetActive)
     {
       jac0 = manip_->calcJacobian(joint_vals, target_frame_, target_frame_offset_.translation());
+      const Eigen::MatrixXd twists = jac0;  // expressed in the world frame, as target_tf is
       tesseract::common::jacobianChangeBase(jac0, (transforms_cache_[source_frame_] * source_frame_offset_).inverse());
 
       for (int c = 0; c < jac0.cols(); ++c)
       {
-        auto perturbed_target_tf = trajopt_common::addTwist(target_tf, jac0.col(c), eps);
+        auto perturbed_target_tf = trajopt_common::addTwist(target_tf, twists.col(c), eps);
         const Eigen::VectorXd error_diff =
             tesseract::common::calcJacobianTransformErrorDiff(source_tf, target_tf, perturbed_target_tf);
-        jac0.col(c).tail(3) = (error_diff / eps);
+        jac0.col(c).tail(3) = error_diff.tail(3) / eps;
       }
     }
     else
     {
       jac0 = manip_->calcJacobian(joint_vals, source_frame_, source_frame_offset_.translation());
+      const Eigen::MatrixXd twists = jac0;  // expressed in the world frame, as source_tf is
       tesseract::common::jacobianChangeBase(jac0, (transforms_cache_[target_frame_] * target_frame_offset_).inverse());
 
       for (int c = 0; c < jac0.cols(); ++c)
       {
-        auto perturbed_source_tf = trajopt_common::addTwist(source_tf, jac0.col(c), eps);
+        auto perturbed_source_tf = trajopt_common::addTwist(source_tf, twists.col(c), eps);
         const Eigen::VectorXd error_diff =
             tesseract::common::calcJacobianTransformErrorDiff(target_tf, source_tf, perturbed_source_tf);
-        jac0.col(c).tail(3) = (error_diff / eps);
+        jac0.col(c).tail(3) = error_diff.tail(3) / eps;
       }
     }
 
-- 
2.43.0


From c3678fecc2140cce1cc25317ded588456d8f94ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:57 +0000
Subject: [PATCH 31/42] fix: nearest point of a Cartesian line

getLinePoint projected the absolute differences of the coordinates, compared
the distance along the line with 1.0 instead of the length of the line, used
it as the slerp parameter, and placed the point at the offsets from the target
frame instead of their poses in the world.
---
 .../constraints/cartesian_line_constraint.cpp | 30 ++++++-------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp b/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
index 609ecc0..2f14644 100644
--- a/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
@@ -36,6 +36,7 @@ TRAJOPT_IGNORE_WARNINGS_PUSH
 #include <tesseract/kinematics/joint_group.h>
 #include <tesseract/common/utils.h>
 #include <console_bridge/console.h>
+#include <algorithm>
 #include <cassert>
 TRAJOPT_IGNORE_WARNINGS_POP
 
@@ -272,36 +273,23 @@ Eigen::Isometry3d CartLineConstraint::getLinePoint(const Eigen::Isometry3d& sour
                                                    const Eigen::Isometry3d& target_tf1,
                                                    const Eigen::Isometry3d& target_tf2) const
 {
-  // distance 1; distance from new pose to first point on line
-  const Eigen::Vector3d d1 = (source_tf.translation() - target_tf1.translation()).array().abs();
+  // vector from the first point on line to the new pose
+  const Eigen::Vector3d d1 = source_tf.translation() - target_tf1.translation();
 
   // Get the line
   const Eigen::Vector3d line = target_tf2.translation() - target_tf1.translation();
 
-  // Point D, the nearest point on line AB to point C, can be found with:
-  // (AC - (AC * AB)) * AB
+  // Point D, the nearest point on line AB to point C, is at the fraction (AC * AB) / (AB * AB) of AB. If point C is not
+  // between the line endpoints, set nearest point to endpoint
   Eigen::Isometry3d line_point;
-  const Eigen::Vector3d line_norm = line.normalized();
-  const double mag = d1.dot(line_norm);
-
-  // If point C is not between the line endpoints, set nearest point to endpoint
-  if (mag > 1.0)
-  {
-    line_point.translation() = info_.target_frame_offset2.translation();
-  }
-  else if (mag < 0)
-  {
-    line_point.translation() = info_.target_frame_offset1.translation();
-  }
-  else
-  {
-    line_point.translation() = info_.target_frame_offset1.translation() + mag * line_norm;
-  }
+  const double length_squared = line.squaredNorm();
+  const double fraction = (length_squared > 0) ? std::clamp(d1.dot(line) / length_squared, 0.0, 1.0) : 0.0;
+  line_point.translation() = target_tf1.translation() + fraction * line;
 
   // The orientation of the line_point is found using quaternion SLERP
   const Eigen::Quaterniond quat_a(target_tf1.rotation());
   const Eigen::Quaterniond quat_b(target_tf2.rotation());
-  const Eigen::Quaterniond slerp = quat_a.slerp(mag, quat_b);
+  const Eigen::Quaterniond slerp = quat_a.slerp(fraction, quat_b);
   line_point.linear() = slerp.toRotationMatrix();
 
   return line_point;
-- 
2.43.0


From 76b085675ba658224c133d29988307e18dff03a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:57 +0000
Subject: [PATCH 32/42] fix: CartLineConstraint with other than all six indices
 in order

Both Jacobian paths filled six rows, the numerical one picked rows of the
already reduced matrix by index again, and setBounds asked for six bounds.
---
 .../src/constraints/cartesian_line_constraint.cpp         | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp b/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
index 2f14644..2ff821c 100644
--- a/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
@@ -148,7 +148,7 @@ std::vector<Bounds> CartLineConstraint::getBounds() const { return bounds_; }
 
 void CartLineConstraint::setBounds(const std::vector<Bounds>& bounds)
 {
-  assert(bounds.size() == 6);
+  assert(bounds.size() == static_cast<std::size_t>(rows_));
   bounds_ = bounds;
 }
 
@@ -177,14 +177,14 @@ void CartLineConstraint::calcJacobianBlock(Jacobian& jac_block,
       dof_vals_pert(i) = joint_vals(i);
     }
 
-    for (int i = 0; i < 6; i++)
+    for (int i = 0; i < info_.indices.size(); i++)
     {
       jac_block.startVec(i);
       for (int j = 0; j < n_dof_; j++)
       {
         // Each jac_block will be for a single variable but for all timesteps. Therefore we must index down to the
         // correct timestep for this variable
-        jac_block.insertBack(i, position_var_->getIndex() + j) = jac0.coeffRef(info_.indices[i], j);
+        jac_block.insertBack(i, position_var_->getIndex() + j) = jac0(i, j);
       }
     }
   }
@@ -236,7 +236,7 @@ void CartLineConstraint::calcJacobianBlock(Jacobian& jac_block,
     //    Jacobian jac_block = jac0.sparseView();
 
     // This does work but could be faster
-    for (int i = 0; i < 6; i++)
+    for (int i = 0; i < info_.indices.size(); i++)
     {
       jac_block.startVec(i);
       for (int j = 0; j < n_dof_; j++)
-- 
2.43.0


From eb0f76e27aaaab7111ce1d5680b21c6d3dc318e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:57 +0000
Subject: [PATCH 33/42] fix: analytic Jacobian of CartLineConstraint

Six components of the error difference were assigned to the last three rows;
the source was moved along twists already expressed in the target frame, and
the position rows ignored that the nearest point of the line moves along.
---
 .../src/constraints/cartesian_line_constraint.cpp          | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp b/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
index 2ff821c..3541bed 100644
--- a/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
@@ -201,7 +201,6 @@ void CartLineConstraint::calcJacobianBlock(Jacobian& jac_block,
 
     Eigen::MatrixXd jac0 =
         info_.manip->calcJacobian(joint_vals, info_.source_frame, info_.source_frame_offset.translation());
-    tesseract::common::jacobianChangeBase(jac0, target_tf.inverse());
 
     // Paper:
     // https://ethz.ch/content/dam/ethz/special-interest/mavt/robotics-n-intelligent-systems/rsl-dam/documents/RobotDynamics2016/RD2016script.pdf
@@ -216,8 +215,8 @@ void CartLineConstraint::calcJacobianBlock(Jacobian& jac_block,
     // below should be sufficient and faster than numerical calculations using the err function.
 
     // The approach below leverages the geometric jacobian and a small step in time to approximate
-    // the partial derivative of the error function. Note that the rotational portion is the only part
-    // that is required to be modified per the paper.
+    // the partial derivative of the error function. The line point moves along with the source, so this
+    // holds for the position as well as for the rotation.
     for (int c = 0; c < jac0.cols(); ++c)
     {
       auto perturbed_source_tf = trajopt_common::addTwist(source_tf, jac0.col(c), eps);
@@ -228,7 +227,7 @@ void CartLineConstraint::calcJacobianBlock(Jacobian& jac_block,
       const Eigen::VectorXd error_diff = tesseract::common::calcJacobianTransformErrorDiff(
           target_tf, perturbed_target_tf, source_tf, perturbed_source_tf);
 
-      jac0.col(c).tail(3) = (error_diff / eps);
+      jac0.col(c) = error_diff / eps;
     }
 
     // Convert to a sparse matrix and set the jacobian
-- 
2.43.0


From 452459e32fc9707c94b7be72a93613abe242f4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:38 +0000
Subject: [PATCH 34/42] fix: Jacobian of CartLineConstraint when the robot
 moves the line

The analytic path takes the line to be at rest. Differentiate numerically when
the target link is active, as CartPosConstraint does when both links are.
---
 trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp b/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
index 3541bed..946e19d 100644
--- a/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
@@ -165,7 +165,7 @@ void CartLineConstraint::calcJacobianBlock(Jacobian& jac_block,
   const Eigen::Isometry3d target_tf = getLinePoint(source_tf, target_tf1, target_tf2);
 
   constexpr double eps{ 1e-5 };
-  if (use_numeric_differentiation)
+  if (use_numeric_differentiation || info_.manip->isActiveLinkName(info_.target_frame))
   {
     Eigen::MatrixXd jac0(info_.indices.size(), joint_vals.size());
     Eigen::VectorXd dof_vals_pert = joint_vals;
-- 
2.43.0


From 7b71f4db1701be96606f93b4f6bb4d20c3bfca13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:17 +0000
Subject: [PATCH 35/42] fix: OSQP compared only the first bytes of the sparsity
 patterns before updating its workspace

---
 trajopt_sco/src/osqp_interface.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/trajopt_sco/src/osqp_interface.cpp b/trajopt_sco/src/osqp_interface.cpp
index c64b205..0e25989 100644
--- a/trajopt_sco/src/osqp_interface.cpp
+++ b/trajopt_sco/src/osqp_interface.cpp
@@ -196,9 +196,7 @@ bool OSQPModel::updateObjective(bool check_sparsity)
 
   // Check if sparsity has changed
   sparsity_equal = sparsity_equal &&
-                   memcmp(prev_column_pointers.data(), P_column_pointers_.data(), static_cast<size_t>(P_->n) + 1) == 0;
-  sparsity_equal =
-      sparsity_equal && (memcmp(prev_row_indices.data(), P_row_indices_.data(), static_cast<size_t>(P_->nzmax)) == 0);
+                   prev_column_pointers == P_column_pointers_ && prev_row_indices == P_row_indices_;
 
   P_.reset(OSQPCscMatrix_new(n_,
                              n_,
@@ -266,9 +264,7 @@ bool OSQPModel::updateConstraints(bool check_sparsity)
 
   // Check if sparsity has changed
   sparsity_equal = sparsity_equal &&
-                   memcmp(prev_column_pointers.data(), A_column_pointers_.data(), static_cast<size_t>(A_->n) + 1) == 0;
-  sparsity_equal =
-      sparsity_equal && (memcmp(prev_row_indices.data(), A_row_indices_.data(), static_cast<size_t>(A_->nzmax)) == 0);
+                   prev_column_pointers == A_column_pointers_ && prev_row_indices == A_row_indices_;
 
   A_.reset(OSQPCscMatrix_new(m_,
                              n_,
-- 
2.43.0


From efa210516d21c97e2ff86e76d096be5e4487c390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:17 +0000
Subject: [PATCH 36/42] fix: an affine objective kept the quadratic part of the
 one before it (OSQP, qpOASES)

---
 trajopt_sco/src/osqp_interface.cpp    | 2 +-
 trajopt_sco/src/qpoases_interface.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/trajopt_sco/src/osqp_interface.cpp b/trajopt_sco/src/osqp_interface.cpp
index 0e25989..9e9f51b 100644
--- a/trajopt_sco/src/osqp_interface.cpp
+++ b/trajopt_sco/src/osqp_interface.cpp
@@ -609,7 +609,7 @@ CvxOptStatus OSQPModel::optimize()
 
   return CVX_FAILED;
 }
-void OSQPModel::setObjective(const AffExpr& expr) { objective_.affexpr = expr; }
+void OSQPModel::setObjective(const AffExpr& expr) { objective_ = QuadExpr(expr); }
 void OSQPModel::setObjective(const QuadExpr& expr) { objective_ = expr; }
 
 VarVector OSQPModel::getVars() const { return vars_; }
diff --git a/trajopt_sco/src/qpoases_interface.cpp b/trajopt_sco/src/qpoases_interface.cpp
index 1886201..66b9d80 100644
--- a/trajopt_sco/src/qpoases_interface.cpp
+++ b/trajopt_sco/src/qpoases_interface.cpp
@@ -259,7 +259,7 @@ CvxOptStatus qpOASESModel::optimize()
 
   return CVX_FAILED;
 }
-void qpOASESModel::setObjective(const AffExpr& expr) { objective_.affexpr = expr; }
+void qpOASESModel::setObjective(const AffExpr& expr) { objective_ = QuadExpr(expr); }
 void qpOASESModel::setObjective(const QuadExpr& expr) { objective_ = expr; }
 void qpOASESModel::writeToFile(const std::string& /*fname*/) const {}
 VarVector qpOASESModel::getVars() const { return vars_; }
-- 
2.43.0


From 4de8f48e538a4fda858b4e21f2843205c80217c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:17 +0000
Subject: [PATCH 37/42] fix: a failed qpOASES hotstart limited the steps of the
 start from scratch that follows

---
 trajopt_sco/src/qpoases_interface.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trajopt_sco/src/qpoases_interface.cpp b/trajopt_sco/src/qpoases_interface.cpp
index 66b9d80..d551533 100644
--- a/trajopt_sco/src/qpoases_interface.cpp
+++ b/trajopt_sco/src/qpoases_interface.cpp
@@ -240,6 +240,8 @@ CvxOptStatus qpOASESModel::optimize()
     //      tests pass.
     createSolver();
 
+    // a failed hotstart has overwritten it with the number of steps it performed
+    nWSR = 255;
     val = qpoases_problem_->init(&H_, g_.data(), &A_, lb_.data(), ub_.data(), lbA_.data(), ubA_.data(), nWSR, nullptr);
   }
 
-- 
2.43.0


From 2ed82ebc77edbb31e7e418f60c19f7e204c0768f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:17 +0000
Subject: [PATCH 38/42] fix: qpOASES left out a quadratic constraint without a
 word in release builds

---
 trajopt_sco/src/qpoases_interface.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/trajopt_sco/src/qpoases_interface.cpp b/trajopt_sco/src/qpoases_interface.cpp
index d551533..bad0e4e 100644
--- a/trajopt_sco/src/qpoases_interface.cpp
+++ b/trajopt_sco/src/qpoases_interface.cpp
@@ -64,8 +64,7 @@ Cnt qpOASESModel::addIneqCnt(const AffExpr& expr, const std::string& /*name*/)
 
 Cnt qpOASESModel::addIneqCnt(const QuadExpr&, const std::string& /*name*/)
 {
-  assert(0 && "NOT IMPLEMENTED");
-  return {};
+  throw std::runtime_error("NOT IMPLEMENTED");
 }
 
 void qpOASESModel::removeVars(const VarVector& vars)
-- 
2.43.0


From 0b2704b277c5e6ac0faf25a403ec44cfd9f333bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:18 +0000
Subject: [PATCH 39/42] fix: keep solution values with their variables when an
 OSQP or qpOASES model removes variables

---
 trajopt_sco/src/osqp_interface.cpp    | 4 ++++
 trajopt_sco/src/qpoases_interface.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/trajopt_sco/src/osqp_interface.cpp b/trajopt_sco/src/osqp_interface.cpp
index 9e9f51b..63949ec 100644
--- a/trajopt_sco/src/osqp_interface.cpp
+++ b/trajopt_sco/src/osqp_interface.cpp
@@ -377,6 +377,8 @@ void OSQPModel::update()
         vars_[inew] = var;
         lbs_[inew] = lbs_[iold];
         ubs_[inew] = ubs_[iold];
+        if (iold < solution_.size())
+          solution_[inew] = solution_[iold];
         var.var_rep->index = inew;
         ++inew;
       }
@@ -388,6 +390,8 @@ void OSQPModel::update()
     vars_.resize(inew);
     lbs_.resize(inew);
     ubs_.resize(inew);
+    if (solution_.size() > inew)
+      solution_.resize(inew);
   }
   {
     std::size_t inew = 0;
diff --git a/trajopt_sco/src/qpoases_interface.cpp b/trajopt_sco/src/qpoases_interface.cpp
index bad0e4e..c6ec01d 100644
--- a/trajopt_sco/src/qpoases_interface.cpp
+++ b/trajopt_sco/src/qpoases_interface.cpp
@@ -160,6 +160,8 @@ void qpOASESModel::update()
         vars_[inew] = var;
         lb_[inew] = lb_[iold];
         ub_[inew] = ub_[iold];
+        if (iold < solution_.size())
+          solution_[inew] = solution_[iold];
         var.var_rep->index = inew;
         ++inew;
       }
@@ -171,6 +173,8 @@ void qpOASESModel::update()
     vars_.resize(inew);
     lb_.resize(inew, QPOASES_INFTY);
     ub_.resize(inew, -QPOASES_INFTY);
+    if (solution_.size() > inew)
+      solution_.resize(inew);
   }
   {
     std::size_t inew = 0;
-- 
2.43.0


From 3ac304718ae7469032ed7627cc4dc3e7dc7d6931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:18 +0000
Subject: [PATCH 40/42] fix: lock the OSQP and qpOASES models while setting
 variable bounds, adding a bounded variable must be thread safe

---
 trajopt_sco/src/osqp_interface.cpp    | 1 +
 trajopt_sco/src/qpoases_interface.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/trajopt_sco/src/osqp_interface.cpp b/trajopt_sco/src/osqp_interface.cpp
index 63949ec..8edee94 100644
--- a/trajopt_sco/src/osqp_interface.cpp
+++ b/trajopt_sco/src/osqp_interface.cpp
@@ -419,6 +419,7 @@ void OSQPModel::update()
 
 void OSQPModel::setVarBounds(const VarVector& vars, const DblVec& lower, const DblVec& upper)
 {
+  const std::scoped_lock lock(mutex_);
   for (unsigned i = 0; i < vars.size(); ++i)
   {
     const std::size_t varind = vars[i].var_rep->index;
diff --git a/trajopt_sco/src/qpoases_interface.cpp b/trajopt_sco/src/qpoases_interface.cpp
index c6ec01d..9b1127b 100644
--- a/trajopt_sco/src/qpoases_interface.cpp
+++ b/trajopt_sco/src/qpoases_interface.cpp
@@ -202,6 +202,7 @@ void qpOASESModel::update()
 
 void qpOASESModel::setVarBounds(const VarVector& vars, const DblVec& lower, const DblVec& upper)
 {
+  const std::scoped_lock lock(mutex_);
   for (std::size_t i = 0; i < vars.size(); ++i)
   {
     const std::size_t varind = vars[i].var_rep->index;
-- 
2.43.0


From c56f633f5ddc889f99f9af314f09beda0c1312ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:18 +0000
Subject: [PATCH 41/42] fix: the names of the convex solvers were in another
 order than the solvers, so OSQP gave qpOASES and BPMPD OSQP

---
 trajopt_sco/src/solver_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt_sco/src/solver_interface.cpp b/trajopt_sco/src/solver_interface.cpp
index be35ea8..a936f5e 100644
--- a/trajopt_sco/src/solver_interface.cpp
+++ b/trajopt_sco/src/solver_interface.cpp
@@ -11,7 +11,7 @@ TRAJOPT_IGNORE_WARNINGS_POP
 
 namespace sco
 {
-const std::vector<std::string> ModelType::MODEL_NAMES_ = { "GUROBI", "BPMPD", "OSQP", "QPOASES", "AUTO_SOLVER" };
+const std::vector<std::string> ModelType::MODEL_NAMES_ = { "GUROBI", "OSQP", "QPOASES", "BPMPD", "AUTO_SOLVER" };
 
 void vars2inds(const VarVector& vars, SizeTVec& inds)
 {
-- 
2.43.0


From d063b65a969661deae683acad2e1f7aec41605be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:18 +0000
Subject: [PATCH 42/42] fix: the name of the first number that is no solver was
 read beyond the list

---
 trajopt_sco/src/solver_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt_sco/src/solver_interface.cpp b/trajopt_sco/src/solver_interface.cpp
index a936f5e..36f1c16 100644
--- a/trajopt_sco/src/solver_interface.cpp
+++ b/trajopt_sco/src/solver_interface.cpp
@@ -214,7 +214,7 @@ std::ostream& operator<<(std::ostream& o, const QuadExpr& e)
 std::ostream& operator<<(std::ostream& os, const ModelType& cs)
 {
   auto cs_ivalue_ = static_cast<std::size_t>(cs.value_);
-  if (cs_ivalue_ > ModelType::MODEL_NAMES_.size())
+  if (cs_ivalue_ >= ModelType::MODEL_NAMES_.size())
   {
     std::stringstream conversion_error;
     conversion_error << "Error converting ModelType to string - " << "enum value is " << cs_ivalue_ << '\n';
-- 
2.43.0


From 4f1396de2d98ed8778f5a7275067e3d45ca25f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:49 +0000
Subject: [PATCH 01/39] fix: minimalDifference of mapped design variables uses
 the current value

The Mapped* design variables computed the difference (and its Jacobian)
from the copy kept for revertUpdate(), i.e. from the value before the last
update, unlike every other design variable.
---
 .../implementation/DesignVariableMappedVector.hpp             | 2 +-
 .../aslam_backend_expressions/src/MappedEuclideanPoint.cpp    | 2 +-
 .../aslam_backend_expressions/src/MappedHomogeneousPoint.cpp  | 4 ++--
 .../src/MappedRotationQuaternion.cpp                          | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/DesignVariableMappedVector.hpp b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/DesignVariableMappedVector.hpp
index 4f9edfa..4653cf8 100644
--- a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/DesignVariableMappedVector.hpp
+++ b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/DesignVariableMappedVector.hpp
@@ -115,7 +115,7 @@ namespace aslam {
     void DesignVariableMappedVector<D>::minimalDifferenceImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& outDifference) const
     {
     	SM_ASSERT_TRUE(aslam::Exception, (xHat.rows() == D)&&(xHat.cols() == 1), "Dimension mismatch!");
-    	outDifference = _p_v - xHat;
+    	outDifference = _v - xHat;
     }
 
     template<int D>
diff --git a/aslam_optimizer/aslam_backend_expressions/src/MappedEuclideanPoint.cpp b/aslam_optimizer/aslam_backend_expressions/src/MappedEuclideanPoint.cpp
index 81e116b..81d88fc 100644
--- a/aslam_optimizer/aslam_backend_expressions/src/MappedEuclideanPoint.cpp
+++ b/aslam_optimizer/aslam_backend_expressions/src/MappedEuclideanPoint.cpp
@@ -76,7 +76,7 @@ namespace aslam {
     void MappedEuclideanPoint::minimalDifferenceImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& outDifference) const
     {
      SM_ASSERT_TRUE(aslam::InvalidArgumentException, (xHat.rows() == 3) && (xHat.cols() == 1), "xHat has incompatible dimensions");
-     outDifference = _p_p - xHat;
+     outDifference = _p - xHat;
     }
 
     void MappedEuclideanPoint::minimalDifferenceAndJacobianImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& outDifference, Eigen::MatrixXd& outJacobian) const
diff --git a/aslam_optimizer/aslam_backend_expressions/src/MappedHomogeneousPoint.cpp b/aslam_optimizer/aslam_backend_expressions/src/MappedHomogeneousPoint.cpp
index 4361364..969c1cc 100644
--- a/aslam_optimizer/aslam_backend_expressions/src/MappedHomogeneousPoint.cpp
+++ b/aslam_optimizer/aslam_backend_expressions/src/MappedHomogeneousPoint.cpp
@@ -76,7 +76,7 @@ namespace aslam {
     void MappedHomogeneousPoint::minimalDifferenceImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& outDifference) const
     {
      SM_ASSERT_TRUE(aslam::InvalidArgumentException, (xHat.rows() == 4)&&(xHat.cols() == 1), "The dimension of xHat does not conform to a 4x1 quaternion vector");
-     outDifference = sm::kinematics::qlog(sm::kinematics::qplus(_p_p, sm::kinematics::quatInv(xHat)));
+     outDifference = sm::kinematics::qlog(sm::kinematics::qplus(_p, sm::kinematics::quatInv(xHat)));
     }
 
     void MappedHomogeneousPoint::minimalDifferenceAndJacobianImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& outDifference, Eigen::MatrixXd& outJacobian) const
@@ -84,7 +84,7 @@ namespace aslam {
      minimalDifferenceImplementation(xHat, outDifference);
      // compute the evaluation point:
      Eigen::Vector4d quatHat; quatHat(0) = xHat(0,0); quatHat(1) = xHat(1,0); quatHat(2) = xHat(2,0); quatHat(3) = xHat(3,0);
-     Eigen::Vector4d evalPoint= sm::kinematics::qplus(_p_p, sm::kinematics::quatInv(quatHat));
+     Eigen::Vector4d evalPoint= sm::kinematics::qplus(_p, sm::kinematics::quatInv(quatHat));
      outJacobian = sm::kinematics::quatLogJacobian(evalPoint)*sm::kinematics::quatJacobian(evalPoint);
     }
 
diff --git a/aslam_optimizer/aslam_backend_expressions/src/MappedRotationQuaternion.cpp b/aslam_optimizer/aslam_backend_expressions/src/MappedRotationQuaternion.cpp
index 52d7d61..b8be1f8 100644
--- a/aslam_optimizer/aslam_backend_expressions/src/MappedRotationQuaternion.cpp
+++ b/aslam_optimizer/aslam_backend_expressions/src/MappedRotationQuaternion.cpp
@@ -74,7 +74,7 @@ namespace aslam {
     void MappedRotationQuaternion::minimalDifferenceImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& outDifference) const
     {
      SM_ASSERT_TRUE(aslam::InvalidArgumentException, (xHat.rows() == 4)&&(xHat.cols() == 1), "The dimension of xHat does not conform to a 4x1 quaternion vector");
-     outDifference = sm::kinematics::qlog(sm::kinematics::qplus(_p_q, sm::kinematics::quatInv(xHat)));
+     outDifference = sm::kinematics::qlog(sm::kinematics::qplus(_q, sm::kinematics::quatInv(xHat)));
     }
 
     void MappedRotationQuaternion::minimalDifferenceAndJacobianImplementation(const Eigen::MatrixXd& xHat, Eigen::VectorXd& outDifference, Eigen::MatrixXd& outJacobian) const
@@ -82,7 +82,7 @@ namespace aslam {
      minimalDifferenceImplementation(xHat, outDifference);
      // compute the evaluation point:
      Eigen::Vector4d quatHat(xHat(0,0),xHat(1,0),xHat(2,0),xHat(3,0));
-     Eigen::Vector4d evalPoint= sm::kinematics::qplus(_p_q, sm::kinematics::quatInv(quatHat));
+     Eigen::Vector4d evalPoint= sm::kinematics::qplus(_q, sm::kinematics::quatInv(quatHat));
      outJacobian = sm::kinematics::quatLogJacobian(evalPoint)*sm::kinematics::quatJacobian(evalPoint); //???
     }
 
-- 
2.43.0


From 2a22ba532b230a27826ef06a1bc73b51f205bf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:20 +0000
Subject: [PATCH 02/39] fix: euclidean intrinsics Jacobian of a camera stacks
 its parts by columns

---
 .../aslam_cameras/cameras/implementation/CameraGeometry.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp
index 56a06ff..fe8e3c9 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp
@@ -679,14 +679,14 @@ namespace aslam {
       if (estimateProjection) {
         Eigen::MatrixXd J;
         _projection.euclideanToKeypointIntrinsicsJacobian(p, J);
-        outJi.block(col, 0, KeypointDimension, _projection.minimalDimensions()) = J;
+        outJi.block(0, col, KeypointDimension, _projection.minimalDimensions()) = J;
         col += _projection.minimalDimensions();
       }
 
       if (estimateDistortion) {
         Eigen::MatrixXd J;
         _projection.euclideanToKeypointDistortionJacobian(p, J);
-        outJi.block(col, 0, KeypointDimension,
+        outJi.block(0, col, KeypointDimension,
                     _projection.distortion().minimalDimensions()) = J;
         col += _projection.distortion().minimalDimensions();
       }
-- 
2.43.0


From 5490c4326de9198a654863e53e06a53658faca5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:17 +0000
Subject: [PATCH 03/39] fix: block Cholesky solver removes exactly the
 conditioner it added to the Hessian

---
 .../src/BlockCholeskyLinearSystemSolver.cpp          | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp b/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp
index 3dc73cf..3335a11 100644
--- a/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp
+++ b/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp
@@ -73,8 +73,9 @@ namespace aslam {
 
     bool BlockCholeskyLinearSystemSolver::solveSystem(Eigen::VectorXd& outDx)
     {
+      Eigen::VectorXd d;
       if (_useDiagonalConditioner) {
-        Eigen::VectorXd d = _diagonalConditioner.cwiseProduct(_diagonalConditioner);
+        d = _diagonalConditioner.cwiseProduct(_diagonalConditioner);
         // Augment the diagonal
         int rowBase = 0;
         for (int i = 0; i < _H._M.bRows(); ++i) {
@@ -92,7 +93,7 @@ namespace aslam {
         int rowBase = 0;
         for (int i = 0; i < _H._M.bRows(); ++i) {
           Eigen::MatrixXd& block = *_H._M.block(i, i, true);
-          block.diagonal() -= _diagonalConditioner.segment(rowBase, block.rows());
+          block.diagonal() -= d.segment(rowBase, block.rows());
           rowBase += block.rows();
         }
       }
@@ -123,8 +124,9 @@ namespace aslam {
     {
       // Not sure why I have to do this.
       //_solver->init();
+      Eigen::VectorXd d;
       if (_useDiagonalConditioner) {
-        Eigen::VectorXd d = _diagonalConditioner.cwiseProduct(_diagonalConditioner);
+        d = _diagonalConditioner.cwiseProduct(_diagonalConditioner);
         // Augment the diagonal
         int rowBase = 0;
         for (int i = 0; i < _H._M.bRows(); ++i) {
@@ -135,16 +137,16 @@ namespace aslam {
         }
       }
       bool success = _solver->solvePattern(outP, blockIndices, _H._M);
-      SM_ASSERT_TRUE(Exception, success, "Unable to retrieve covariance");
       if (_useDiagonalConditioner) {
         // Un-augment the diagonal
         int rowBase = 0;
         for (int i = 0; i < _H._M.bRows(); ++i) {
           Eigen::MatrixXd& block = *_H._M.block(i, i, true);
-          block.diagonal() -= _diagonalConditioner.segment(rowBase, block.rows());
+          block.diagonal() -= d.segment(rowBase, block.rows());
           rowBase += block.rows();
         }
       }
+      SM_ASSERT_TRUE(Exception, success, "Unable to retrieve covariance");
     }
 
     void BlockCholeskyLinearSystemSolver::copyHessian(SparseBlockMatrix& H)
-- 
2.43.0


From cfcd2ce3aa5f77d861d5b5e5a6587b020a57a22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:17 +0000
Subject: [PATCH 04/39] fix: initial lambda is estimated from the diagonal of
 the Hessian

---
 aslam_optimizer/aslam_backend/src/Optimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/src/Optimizer.cpp b/aslam_optimizer/aslam_backend/src/Optimizer.cpp
index 20c8113..2afafd4 100644
--- a/aslam_optimizer/aslam_backend/src/Optimizer.cpp
+++ b/aslam_optimizer/aslam_backend/src/Optimizer.cpp
@@ -149,7 +149,7 @@ namespace aslam {
           if (H) {
             for (int j = 0; j < H->rows(); j++) {
               if (fabs((*H)(j, j)) > maximum)
-                maximum = fabs((*H)(i, j));
+                maximum = fabs((*H)(j, j));
             }
           }
         }
-- 
2.43.0


From c4661fa0a8071cbc86e5e36a5c5fe5764f4930e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:17 +0000
Subject: [PATCH 05/39] fix: Optimizer reverts only steps it took and reports
 the cost of the state it keeps

---
 aslam_optimizer/aslam_backend/src/Optimizer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/src/Optimizer.cpp b/aslam_optimizer/aslam_backend/src/Optimizer.cpp
index 2afafd4..a644717 100644
--- a/aslam_optimizer/aslam_backend/src/Optimizer.cpp
+++ b/aslam_optimizer/aslam_backend/src/Optimizer.cpp
@@ -520,9 +520,8 @@ namespace aslam {
         if (!solutionSuccess) {
           // \todo do something better
           //SM_ASSERT_TRUE(Exception, solutionSuccess, "The linear solution failed");
+          // No state update was applied in this iteration: there is nothing to revert.
           isLmRegression = true;
-          // **** if J is a regression
-          revertLastStateUpdate();
           // ***** Update lambda
           // _lambda *= 1000;
           _lambda *= mu;
@@ -546,6 +545,8 @@ namespace aslam {
               isLmRegression = true;
               // **** if J is a regression
               revertLastStateUpdate();
+              // the design variables are back at the cost before the update
+              _J = _p_J;
               // ***** Update lambda
               // _lambda *= 1000;
               _lambda *= mu;
-- 
2.43.0


From 6b412ce024929f02a6bcc514894221d8ad2a81e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:14 +0000
Subject: [PATCH 06/39] fix: predicted dog leg decrease no longer loses a term
 to integer division

---
 aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp | 2 +-
 aslam_optimizer/aslam_backend/src/Optimizer.cpp               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp b/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp
index bfed369..1d714ca 100644
--- a/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp
+++ b/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp
@@ -131,7 +131,7 @@ namespace aslam {
                     }
 
                     _dx = _dx_sd + _beta * ( dgnsd );
-                    _L0 = 1/2 * _sd_scale * (1-_beta)*(1-_beta)* _solver->rhs().squaredNorm() + _beta*(2-_beta)*J;
+                    _L0 = 0.5 * _sd_scale * (1-_beta)*(1-_beta)* _solver->rhs().squaredNorm() + _beta*(2-_beta)*J;
                     _stepType = "DL";
                 }
             }
diff --git a/aslam_optimizer/aslam_backend/src/Optimizer.cpp b/aslam_optimizer/aslam_backend/src/Optimizer.cpp
index a644717..0d5ba78 100644
--- a/aslam_optimizer/aslam_backend/src/Optimizer.cpp
+++ b/aslam_optimizer/aslam_backend/src/Optimizer.cpp
@@ -365,7 +365,7 @@ namespace aslam {
                     }
 
                     _dx = _dx_sd + beta * ( dgnsd );
-                    L0 = 1/2 * _sd_scale * (1-beta)*(1-beta)* _rhs.squaredNorm() + beta*(2-beta)*_J;
+                    L0 = 0.5 * _sd_scale * (1-beta)*(1-beta)* _rhs.squaredNorm() + beta*(2-beta)*_J;
                     stepType = "DL";
                   }
                 }
-- 
2.43.0


From c400ad0d9c6afcf4b367ab7b6d82e968d61dc74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:14 +0000
Subject: [PATCH 07/39] fix: Optimizer2 stops treating the run as failed once
 the linear solver recovers

---
 .../aslam_backend/src/Optimizer2.cpp          | 833 +++++++++---------
 1 file changed, 417 insertions(+), 416 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/src/Optimizer2.cpp b/aslam_optimizer/aslam_backend/src/Optimizer2.cpp
index 2feb50f..a6268d8 100644
--- a/aslam_optimizer/aslam_backend/src/Optimizer2.cpp
+++ b/aslam_optimizer/aslam_backend/src/Optimizer2.cpp
@@ -1,416 +1,417 @@
-#include <aslam_backend/backend/Optimizer2.hpp>
-// std::partial_sum
-#include <numeric>
-#include <aslam_backend/backend/ErrorTerm.hpp>
-// M.inverse()
-#include <Eigen/Dense>
-#include <sm_eigen/assert_macros.hpp>
-#include <aslam_sparse_block_matrix/linear_solver_dense.h>
-#include <aslam_sparse_block_matrix/linear_solver_cholmod.h>
-#ifndef QRSOLVER_DISABLED
-#include <aslam_sparse_block_matrix/linear_solver_spqr.h>
-#include <aslam_backend/backend/SparseQrLinearSystemSolver.hpp>
-#endif
-#include <aslam_backend/backend/sparse_matrix_functions.hpp>
-#include <aslam_backend/backend/BlockCholeskyLinearSystemSolver.hpp>
-#include <aslam_backend/backend/SparseCholeskyLinearSystemSolver.hpp>
-#include <aslam_backend/backend/DenseQrLinearSystemSolver.hpp>
-#include <sm_property_tree/PropertyTree.hpp>
-
-
-namespace aslam {
-    namespace backend {
-
-
-        Optimizer2::Optimizer2(const Optimizer2Options& options) :
-            _options(options)
-        {
-            initializeLinearSolver();
-            initializeTrustRegionPolicy();
-        }
-
-        Optimizer2::Optimizer2(const sm::PropertyTree& config, boost::shared_ptr<LinearSystemSolver> linearSystemSolver, boost::shared_ptr<TrustRegionPolicy> trustRegionPolicy) {
-          Optimizer2Options options;
-          options.convergenceDeltaJ = config.getDouble("convergenceDeltaJ", options.convergenceDeltaJ);
-          options.convergenceDeltaX = config.getDouble("convergenceDeltaX", options.convergenceDeltaX);
-          options.maxIterations = config.getInt("maxIterations", options.maxIterations);
-          options.doSchurComplement = config.getBool("doSchurComplement", options.doSchurComplement);
-          options.verbose = config.getBool("verbose", options.verbose);
-          options.linearSolverMaximumFails = config.getInt("linearSolverMaximumFails", options.linearSolverMaximumFails);
-          options.nThreads = config.getInt("nThreads", options.nThreads);
-          options.linearSystemSolver = linearSystemSolver;
-          options.trustRegionPolicy = trustRegionPolicy;
-          _options = options;
-          initializeLinearSolver();
-          initializeTrustRegionPolicy();
-          // USING C++11 would allow to do constructor delegation and more elegant code, i.e., directly call the upper constructor
-        }
-
-        Optimizer2::~Optimizer2()
-        {
-        }
-
-
-        /// \brief Set up to work on the optimization problem.
-        void Optimizer2::setProblem(boost::shared_ptr<OptimizationProblemBase> problem)
-        {
-            _problem = problem;
-        }
-
-        void Optimizer2::initializeTrustRegionPolicy()
-        {
-          if( !_options.trustRegionPolicy ) {
-            _options.verbose && std::cout << "No trust region policy set in the options. Defaulting to levenberg_marquardt\n";
-            _trustRegionPolicy.reset( new LevenbergMarquardtTrustRegionPolicy() );
-          } else {
-            _trustRegionPolicy = _options.trustRegionPolicy;
-          }
-
-
-          // \todo remove this check when the sparse qr solver supports an augmented diagonal
-          if(_solver->name() == "sparse_qr" && _trustRegionPolicy->name() == "levenberg_marquardt") {
-            _options.verbose && std::cout << "The sparse_qr solver is not compatible with levenberg_marquardt. Changing to the dog_leg trust region policy\n";
-            _trustRegionPolicy.reset( new DogLegTrustRegionPolicy() );
-          }
-
-          _options.verbose && std::cout << "Using the " << _trustRegionPolicy->name() << " trust region policy\n";
-
-        }
-
-
-        void Optimizer2::initializeLinearSolver()
-        {
-          if( ! _options.linearSystemSolver ) {
-            _options.verbose && std::cout << "No linear system solver set in the options. Defaulting to the sparse_cholesky solver\n";
-            _solver.reset(new SparseCholeskyLinearSystemSolver());
-          } else {
-            _solver = _options.linearSystemSolver;
-          }
-
-          _options.verbose && std::cout << "Using the " << _solver->name() << " linear system solver\n";
-        }
-
-        /// \brief initialize the optimizer to run on an optimization problem.
-        ///        This should be called before calling optimize()
-        void Optimizer2::initialize()
-        {
-          initializeLinearSolver();
-          initializeTrustRegionPolicy();
-
-          SM_ASSERT_FALSE(Exception, _problem.get() == NULL, "No optimization problem has been set");
-            _options.verbose && std::cout << "Initializing\n";
-            Timer init("Optimizer2: Initialize Total");
-            _designVariables.clear();
-            _designVariables.reserve(_problem->numDesignVariables());
-            _errorTerms.clear();
-            _errorTerms.reserve(_problem->numErrorTerms());
-            Timer initDv("Optimizer2: Initialize---Design Variables");
-            // Run through all design variables adding active ones to an active list.
-            // std::cout << "dvloop 1\n";
-            for (size_t i = 0; i < _problem->numDesignVariables(); ++i) {
-                DesignVariable* dv = _problem->designVariable(i);
-                if (dv->isActive())
-                    _designVariables.push_back(dv);
-            }
-            SM_ASSERT_FALSE(Exception, _designVariables.empty(), "It is illegal to run the optimizer with all marginalized design variables.");
-            // Assign block indices to the design variables.
-            // "blocks" will hold the structure of the left-hand-side of Gauss-Newton
-            int columnBase = 0;
-            // std::cout << "dvloop 2\n";
-            for (size_t i = 0; i < _designVariables.size(); ++i) {
-                _designVariables[i]->setBlockIndex(i);
-                _designVariables[i]->setColumnBase(columnBase);
-                columnBase += _designVariables[i]->minimalDimensions();
-            }
-            initDv.stop();
-            Timer initEt("Optimizer2: Initialize---Error Terms");
-            // Get all of the error terms that work on these design variables.
-            int dim = 0;
-            // std::cout << "eloop 1\n";
-            for (unsigned i = 0; i < _problem->numErrorTerms(); ++i) {
-                ErrorTerm* e = _problem->errorTerm(i);
-                _errorTerms.push_back(e);
-                e->setRowBase(dim);
-                dim += e->dimension();
-            }
-            initEt.stop();
-            SM_ASSERT_FALSE(Exception, _errorTerms.empty(), "It is illegal to run the optimizer with no error terms.");
-            Timer initMx("Optimizer2: Initialize---Matrices");
-            // Set up the block matrix structure.
-            // std::cout << "init structure\n";
-            //      initializeLinearSolver();
-            _solver->initMatrixStructure(_designVariables, _errorTerms, _trustRegionPolicy->requiresAugmentedDiagonal());
-            initMx.stop();
-            _options.verbose && std::cout << "Optimization problem initialized with " << _designVariables.size() << " design variables and " << _errorTerms.size() << " error terms\n";
-            // \todo Say how big the problem is.
-            _options.verbose && std::cout << "The Jacobian matrix is " << dim << " x " << columnBase << std::endl;
-
-
-            // \todo initialize the trust region stuff.
-
-        }
-
-
-        /*
-        // returns true of stop!
-        bool Optimizer2::evaluateStoppingCriterion(int iterations)
-        {
-
-        // as we have analytic Jacobians we can assume the precision to be:
-        double epsilon = std::numeric_limits<double>::epsilon();
-
-        double x_norm = ...;
-
-        // the gradient: is simply the right hand side of GN:
-        double grad_norm = _rhs.norm();
-        double abs_J = fabs(_J);
-
-        // the first condition:
-        bool crit1 = grad_norm < sqrt(epsilon) * (1 + abs_J);
-
-        bool crit2 = _dx.norm() < sqrt(epsilon) * (1 + x_norm);
-
-        bool crit3 = fabs(_J - _p_J) < epsilon * (1 + abs_J);
-
-        bool crit4 = iterations < _options.maxIterations;
-
-        return (crit1 && crit2 && crit3) || crit4;
-
-        }*/
-
-
-
-        SolutionReturnValue Optimizer2::optimize()
-        {
-            Timer timeGn("Optimizer2: build Hessian", true);
-            Timer timeErr("Optimizer2: evaluate error", true);
-            Timer timeSchur("Optimizer2: Schur complement", true);
-            Timer timeBackSub("Optimizer2: Back substitution", true);
-            Timer timeSolve("Optimizer2: Solve linear system", true);
-            // Select the design variables and (eventually) the error terms involved in the optimization.
-            initialize();
-            SolutionReturnValue srv;
-            _p_J = 0.0;
-
-            //std::cout << "Evaluate error for the first time\n";
-            // This sets _J
-            timeErr.start();
-            evaluateError(true);
-            timeErr.stop();
-            _p_J = _J;
-            srv.JStart = _p_J;
-            // *** while not done
-            _options.verbose && std::cout << "[" << srv.iterations << ".0]: J: " << _J << std::endl;
-            // Set up the estimation problem.
-            double deltaX = _options.convergenceDeltaX + 1.0;
-            double deltaJ = _options.convergenceDeltaJ + 1.0;
-            bool previousIterationFailed = false;
-            bool linearSolverFailure = false;
-
-            SM_ASSERT_TRUE(Exception, _solver.get() != NULL, "The solver is null");
-            _trustRegionPolicy->setSolver(_solver);
-            _trustRegionPolicy->optimizationStarting(_J);
-
-            // Loop until convergence
-            while (srv.iterations <  _options.maxIterations &&
-                   srv.failedIterations < _options.maxIterations &&
-                   ((deltaX > _options.convergenceDeltaX &&
-                     fabs(deltaJ) > _options.convergenceDeltaJ) ||
-                    linearSolverFailure)) {
-
-                timeSolve.start();
-                bool solutionSuccess = _trustRegionPolicy->solveSystem(_J, previousIterationFailed, _options.nThreads, _dx);
-                timeSolve.stop();
-
-                if (!solutionSuccess) {
-                    _options.verbose && std::cout << "[WARNING] System solution failed\n";
-                    previousIterationFailed = true;
-                    linearSolverFailure = true;
-                    srv.failedIterations++;
-                } else {
-                    /// Apply the state update. _A, _b, _dx, and _H are passed in implicitly.
-                    timeBackSub.start();
-                    deltaX = applyStateUpdate();
-                    timeBackSub.stop();
-                    // This sets _J
-                    timeErr.start();
-                    evaluateError(true);
-                    timeErr.stop();
-                    deltaJ = _p_J - _J;
-                    // This was a regression.
-                    if( _trustRegionPolicy->revertOnFailure() )
-                    {
-                        if(deltaJ < 0.0)
-                        {
-                            _options.verbose && std::cout << "Last step was a regression. Reverting\n";
-                            revertLastStateUpdate();
-                            srv.failedIterations++;
-                            previousIterationFailed = true;
-                        }
-                        else
-                        {
-                            _p_J = _J;
-                            previousIterationFailed = false;
-                        }
-                    }
-                    else
-                    {
-                        _p_J = _J;
-                    }
-                    srv.iterations++;
-
-                    _options.verbose && std::cout << "[" << srv.iterations << "]: J: " << _J << ", dJ: " << deltaJ << ", deltaX: " << deltaX << ", ";
-                    _options.verbose && _trustRegionPolicy->printState(std::cout);
-                    _options.verbose && std::cout << std::endl;
-                } // if the linear solver failed / else
-            }
-
-            srv.JFinal = _p_J;
-            srv.dXFinal = deltaX;
-            srv.dJFinal = deltaJ;
-            srv.linearSolverFailure = linearSolverFailure;
-            return srv;
-        }
-
-
-            DesignVariable* Optimizer2::designVariable(size_t i)
-            {
-                SM_ASSERT_LT_DBG(Exception, i, _designVariables.size(), "index out of bounds");
-                return _designVariables[i];
-            }
-
-
-
-            size_t Optimizer2::numDesignVariables() const
-            {
-                return _designVariables.size();
-            }
-
-
-            double Optimizer2::applyStateUpdate()
-            {
-                // Apply the update to the dense state.
-                int startIdx = 0;
-                for (size_t i = 0; i < numDesignVariables(); i++) {
-                    DesignVariable* d = _designVariables[i];
-                    const int dbd = d->minimalDimensions();
-                    Eigen::VectorXd dxS = _dx.segment(startIdx, dbd);
-                    dxS *= d->scaling();
-                    if(dbd > 0)
-                        d->update(&dxS[0], dbd);
-                    startIdx += dbd;
-                }
-                // Track the maximum delta
-                // \todo: should this be some other metric?
-                double deltaX = _dx.array().abs().maxCoeff();
-                return deltaX;
-            }
-
-
-
-
-
-            void Optimizer2::revertLastStateUpdate()
-            {
-                for (size_t i = 0; i < _designVariables.size(); i++) {
-                    _designVariables[i]->revertUpdate();
-                }
-            }
-
-
-            Optimizer2Options& Optimizer2::options()
-            {
-                return _options;
-            }
-
-
-            double Optimizer2::evaluateError(bool useMEstimator)
-            {
-                SM_ASSERT_TRUE(Exception, _solver.get() != NULL, "The solver is null");
-                _J = _solver->evaluateError(_options.nThreads, useMEstimator);
-                return _J;
-            }
-
-
-            /// \brief return the reduced system dx
-            const Eigen::VectorXd& Optimizer2::dx() const
-            {
-                return _dx;
-            }
-
-            /// The value of the objective function.
-            double Optimizer2::J() const
-            {
-                return _J;
-            }
-
-            void Optimizer2::printTiming() const
-            {
-                sm::timing::Timing::print(std::cout);
-            }
-
-
-
-
-
-
-
-            void Optimizer2::checkProblemSetup()
-            {
-                // Check that all error terms are hooked up to design variables.
-            }
-
-
-
-            void Optimizer2::computeDiagonalCovariances(SparseBlockMatrix& outP, double lambda)
-            {
-                SM_THROW(Exception, "Broken");
-
-                std::vector<std::pair<int, int> > blockIndices;
-                for (size_t i = 0; i < _designVariables.size(); ++i) {
-                    blockIndices.push_back(std::make_pair(i, i));
-                }
-                computeCovarianceBlocks(blockIndices, outP, lambda);
-            }
-
-    void Optimizer2::computeCovarianceBlocks(const std::vector<std::pair<int, int> > & /* blockIndices */, SparseBlockMatrix& /* outP */, double /* lambda */)
-            {
-                SM_THROW(Exception, "Broken");
-
-            }
-
-
-    void Optimizer2::computeCovariances(SparseBlockMatrix& /* outP */, double /* lambda */)
-            {
-                SM_THROW(Exception, "Broken");
-
-            }
-
-        void Optimizer2::computeHessian(SparseBlockMatrix& outH, double lambda)
-            {
-
-              boost::shared_ptr<BlockCholeskyLinearSystemSolver> solver_sp;
-              solver_sp.reset(new BlockCholeskyLinearSystemSolver());
-              // True here for creating the diagonal conditioning.
-              solver_sp->initMatrixStructure(_designVariables, _errorTerms, true);
-
-              _options.verbose && std::cout << "Setting the diagonal conditioner to: " << lambda << ".\n";
-              evaluateError(false);
-              solver_sp->setConstantConditioner(lambda);
-              solver_sp->buildSystem(_options.nThreads, false);
-              solver_sp->copyHessian(outH);
-            }
-
-      const LinearSystemSolver * Optimizer2::getBaseSolver() const {
-          return _solver.get();
-      }
-
-
-
-        const Matrix * Optimizer2::getJacobian() const {
-            return _solver->Jacobian();
-        }
-
-
-        } // namespace backend
-    } // namespace aslam
+#include <aslam_backend/backend/Optimizer2.hpp>
+// std::partial_sum
+#include <numeric>
+#include <aslam_backend/backend/ErrorTerm.hpp>
+// M.inverse()
+#include <Eigen/Dense>
+#include <sm_eigen/assert_macros.hpp>
+#include <aslam_sparse_block_matrix/linear_solver_dense.h>
+#include <aslam_sparse_block_matrix/linear_solver_cholmod.h>
+#ifndef QRSOLVER_DISABLED
+#include <aslam_sparse_block_matrix/linear_solver_spqr.h>
+#include <aslam_backend/backend/SparseQrLinearSystemSolver.hpp>
+#endif
+#include <aslam_backend/backend/sparse_matrix_functions.hpp>
+#include <aslam_backend/backend/BlockCholeskyLinearSystemSolver.hpp>
+#include <aslam_backend/backend/SparseCholeskyLinearSystemSolver.hpp>
+#include <aslam_backend/backend/DenseQrLinearSystemSolver.hpp>
+#include <sm_property_tree/PropertyTree.hpp>
+
+
+namespace aslam {
+    namespace backend {
+
+
+        Optimizer2::Optimizer2(const Optimizer2Options& options) :
+            _options(options)
+        {
+            initializeLinearSolver();
+            initializeTrustRegionPolicy();
+        }
+
+        Optimizer2::Optimizer2(const sm::PropertyTree& config, boost::shared_ptr<LinearSystemSolver> linearSystemSolver, boost::shared_ptr<TrustRegionPolicy> trustRegionPolicy) {
+          Optimizer2Options options;
+          options.convergenceDeltaJ = config.getDouble("convergenceDeltaJ", options.convergenceDeltaJ);
+          options.convergenceDeltaX = config.getDouble("convergenceDeltaX", options.convergenceDeltaX);
+          options.maxIterations = config.getInt("maxIterations", options.maxIterations);
+          options.doSchurComplement = config.getBool("doSchurComplement", options.doSchurComplement);
+          options.verbose = config.getBool("verbose", options.verbose);
+          options.linearSolverMaximumFails = config.getInt("linearSolverMaximumFails", options.linearSolverMaximumFails);
+          options.nThreads = config.getInt("nThreads", options.nThreads);
+          options.linearSystemSolver = linearSystemSolver;
+          options.trustRegionPolicy = trustRegionPolicy;
+          _options = options;
+          initializeLinearSolver();
+          initializeTrustRegionPolicy();
+          // USING C++11 would allow to do constructor delegation and more elegant code, i.e., directly call the upper constructor
+        }
+
+        Optimizer2::~Optimizer2()
+        {
+        }
+
+
+        /// \brief Set up to work on the optimization problem.
+        void Optimizer2::setProblem(boost::shared_ptr<OptimizationProblemBase> problem)
+        {
+            _problem = problem;
+        }
+
+        void Optimizer2::initializeTrustRegionPolicy()
+        {
+          if( !_options.trustRegionPolicy ) {
+            _options.verbose && std::cout << "No trust region policy set in the options. Defaulting to levenberg_marquardt\n";
+            _trustRegionPolicy.reset( new LevenbergMarquardtTrustRegionPolicy() );
+          } else {
+            _trustRegionPolicy = _options.trustRegionPolicy;
+          }
+
+
+          // \todo remove this check when the sparse qr solver supports an augmented diagonal
+          if(_solver->name() == "sparse_qr" && _trustRegionPolicy->name() == "levenberg_marquardt") {
+            _options.verbose && std::cout << "The sparse_qr solver is not compatible with levenberg_marquardt. Changing to the dog_leg trust region policy\n";
+            _trustRegionPolicy.reset( new DogLegTrustRegionPolicy() );
+          }
+
+          _options.verbose && std::cout << "Using the " << _trustRegionPolicy->name() << " trust region policy\n";
+
+        }
+
+
+        void Optimizer2::initializeLinearSolver()
+        {
+          if( ! _options.linearSystemSolver ) {
+            _options.verbose && std::cout << "No linear system solver set in the options. Defaulting to the sparse_cholesky solver\n";
+            _solver.reset(new SparseCholeskyLinearSystemSolver());
+          } else {
+            _solver = _options.linearSystemSolver;
+          }
+
+          _options.verbose && std::cout << "Using the " << _solver->name() << " linear system solver\n";
+        }
+
+        /// \brief initialize the optimizer to run on an optimization problem.
+        ///        This should be called before calling optimize()
+        void Optimizer2::initialize()
+        {
+          initializeLinearSolver();
+          initializeTrustRegionPolicy();
+
+          SM_ASSERT_FALSE(Exception, _problem.get() == NULL, "No optimization problem has been set");
+            _options.verbose && std::cout << "Initializing\n";
+            Timer init("Optimizer2: Initialize Total");
+            _designVariables.clear();
+            _designVariables.reserve(_problem->numDesignVariables());
+            _errorTerms.clear();
+            _errorTerms.reserve(_problem->numErrorTerms());
+            Timer initDv("Optimizer2: Initialize---Design Variables");
+            // Run through all design variables adding active ones to an active list.
+            // std::cout << "dvloop 1\n";
+            for (size_t i = 0; i < _problem->numDesignVariables(); ++i) {
+                DesignVariable* dv = _problem->designVariable(i);
+                if (dv->isActive())
+                    _designVariables.push_back(dv);
+            }
+            SM_ASSERT_FALSE(Exception, _designVariables.empty(), "It is illegal to run the optimizer with all marginalized design variables.");
+            // Assign block indices to the design variables.
+            // "blocks" will hold the structure of the left-hand-side of Gauss-Newton
+            int columnBase = 0;
+            // std::cout << "dvloop 2\n";
+            for (size_t i = 0; i < _designVariables.size(); ++i) {
+                _designVariables[i]->setBlockIndex(i);
+                _designVariables[i]->setColumnBase(columnBase);
+                columnBase += _designVariables[i]->minimalDimensions();
+            }
+            initDv.stop();
+            Timer initEt("Optimizer2: Initialize---Error Terms");
+            // Get all of the error terms that work on these design variables.
+            int dim = 0;
+            // std::cout << "eloop 1\n";
+            for (unsigned i = 0; i < _problem->numErrorTerms(); ++i) {
+                ErrorTerm* e = _problem->errorTerm(i);
+                _errorTerms.push_back(e);
+                e->setRowBase(dim);
+                dim += e->dimension();
+            }
+            initEt.stop();
+            SM_ASSERT_FALSE(Exception, _errorTerms.empty(), "It is illegal to run the optimizer with no error terms.");
+            Timer initMx("Optimizer2: Initialize---Matrices");
+            // Set up the block matrix structure.
+            // std::cout << "init structure\n";
+            //      initializeLinearSolver();
+            _solver->initMatrixStructure(_designVariables, _errorTerms, _trustRegionPolicy->requiresAugmentedDiagonal());
+            initMx.stop();
+            _options.verbose && std::cout << "Optimization problem initialized with " << _designVariables.size() << " design variables and " << _errorTerms.size() << " error terms\n";
+            // \todo Say how big the problem is.
+            _options.verbose && std::cout << "The Jacobian matrix is " << dim << " x " << columnBase << std::endl;
+
+
+            // \todo initialize the trust region stuff.
+
+        }
+
+
+        /*
+        // returns true of stop!
+        bool Optimizer2::evaluateStoppingCriterion(int iterations)
+        {
+
+        // as we have analytic Jacobians we can assume the precision to be:
+        double epsilon = std::numeric_limits<double>::epsilon();
+
+        double x_norm = ...;
+
+        // the gradient: is simply the right hand side of GN:
+        double grad_norm = _rhs.norm();
+        double abs_J = fabs(_J);
+
+        // the first condition:
+        bool crit1 = grad_norm < sqrt(epsilon) * (1 + abs_J);
+
+        bool crit2 = _dx.norm() < sqrt(epsilon) * (1 + x_norm);
+
+        bool crit3 = fabs(_J - _p_J) < epsilon * (1 + abs_J);
+
+        bool crit4 = iterations < _options.maxIterations;
+
+        return (crit1 && crit2 && crit3) || crit4;
+
+        }*/
+
+
+
+        SolutionReturnValue Optimizer2::optimize()
+        {
+            Timer timeGn("Optimizer2: build Hessian", true);
+            Timer timeErr("Optimizer2: evaluate error", true);
+            Timer timeSchur("Optimizer2: Schur complement", true);
+            Timer timeBackSub("Optimizer2: Back substitution", true);
+            Timer timeSolve("Optimizer2: Solve linear system", true);
+            // Select the design variables and (eventually) the error terms involved in the optimization.
+            initialize();
+            SolutionReturnValue srv;
+            _p_J = 0.0;
+
+            //std::cout << "Evaluate error for the first time\n";
+            // This sets _J
+            timeErr.start();
+            evaluateError(true);
+            timeErr.stop();
+            _p_J = _J;
+            srv.JStart = _p_J;
+            // *** while not done
+            _options.verbose && std::cout << "[" << srv.iterations << ".0]: J: " << _J << std::endl;
+            // Set up the estimation problem.
+            double deltaX = _options.convergenceDeltaX + 1.0;
+            double deltaJ = _options.convergenceDeltaJ + 1.0;
+            bool previousIterationFailed = false;
+            bool linearSolverFailure = false;
+
+            SM_ASSERT_TRUE(Exception, _solver.get() != NULL, "The solver is null");
+            _trustRegionPolicy->setSolver(_solver);
+            _trustRegionPolicy->optimizationStarting(_J);
+
+            // Loop until convergence
+            while (srv.iterations <  _options.maxIterations &&
+                   srv.failedIterations < _options.maxIterations &&
+                   ((deltaX > _options.convergenceDeltaX &&
+                     fabs(deltaJ) > _options.convergenceDeltaJ) ||
+                    linearSolverFailure)) {
+
+                timeSolve.start();
+                bool solutionSuccess = _trustRegionPolicy->solveSystem(_J, previousIterationFailed, _options.nThreads, _dx);
+                timeSolve.stop();
+
+                if (!solutionSuccess) {
+                    _options.verbose && std::cout << "[WARNING] System solution failed\n";
+                    previousIterationFailed = true;
+                    linearSolverFailure = true;
+                    srv.failedIterations++;
+                } else {
+                    linearSolverFailure = false;
+                    /// Apply the state update. _A, _b, _dx, and _H are passed in implicitly.
+                    timeBackSub.start();
+                    deltaX = applyStateUpdate();
+                    timeBackSub.stop();
+                    // This sets _J
+                    timeErr.start();
+                    evaluateError(true);
+                    timeErr.stop();
+                    deltaJ = _p_J - _J;
+                    // This was a regression.
+                    if( _trustRegionPolicy->revertOnFailure() )
+                    {
+                        if(deltaJ < 0.0)
+                        {
+                            _options.verbose && std::cout << "Last step was a regression. Reverting\n";
+                            revertLastStateUpdate();
+                            srv.failedIterations++;
+                            previousIterationFailed = true;
+                        }
+                        else
+                        {
+                            _p_J = _J;
+                            previousIterationFailed = false;
+                        }
+                    }
+                    else
+                    {
+                        _p_J = _J;
+                    }
+                    srv.iterations++;
+
+                    _options.verbose && std::cout << "[" << srv.iterations << "]: J: " << _J << ", dJ: " << deltaJ << ", deltaX: " << deltaX << ", ";
+                    _options.verbose && _trustRegionPolicy->printState(std::cout);
+                    _options.verbose && std::cout << std::endl;
+                } // if the linear solver failed / else
+            }
+
+            srv.JFinal = _p_J;
+            srv.dXFinal = deltaX;
+            srv.dJFinal = deltaJ;
+            srv.linearSolverFailure = linearSolverFailure;
+            return srv;
+        }
+
+
+            DesignVariable* Optimizer2::designVariable(size_t i)
+            {
+                SM_ASSERT_LT_DBG(Exception, i, _designVariables.size(), "index out of bounds");
+                return _designVariables[i];
+            }
+
+
+
+            size_t Optimizer2::numDesignVariables() const
+            {
+                return _designVariables.size();
+            }
+
+
+            double Optimizer2::applyStateUpdate()
+            {
+                // Apply the update to the dense state.
+                int startIdx = 0;
+                for (size_t i = 0; i < numDesignVariables(); i++) {
+                    DesignVariable* d = _designVariables[i];
+                    const int dbd = d->minimalDimensions();
+                    Eigen::VectorXd dxS = _dx.segment(startIdx, dbd);
+                    dxS *= d->scaling();
+                    if(dbd > 0)
+                        d->update(&dxS[0], dbd);
+                    startIdx += dbd;
+                }
+                // Track the maximum delta
+                // \todo: should this be some other metric?
+                double deltaX = _dx.array().abs().maxCoeff();
+                return deltaX;
+            }
+
+
+
+
+
+            void Optimizer2::revertLastStateUpdate()
+            {
+                for (size_t i = 0; i < _designVariables.size(); i++) {
+                    _designVariables[i]->revertUpdate();
+                }
+            }
+
+
+            Optimizer2Options& Optimizer2::options()
+            {
+                return _options;
+            }
+
+
+            double Optimizer2::evaluateError(bool useMEstimator)
+            {
+                SM_ASSERT_TRUE(Exception, _solver.get() != NULL, "The solver is null");
+                _J = _solver->evaluateError(_options.nThreads, useMEstimator);
+                return _J;
+            }
+
+
+            /// \brief return the reduced system dx
+            const Eigen::VectorXd& Optimizer2::dx() const
+            {
+                return _dx;
+            }
+
+            /// The value of the objective function.
+            double Optimizer2::J() const
+            {
+                return _J;
+            }
+
+            void Optimizer2::printTiming() const
+            {
+                sm::timing::Timing::print(std::cout);
+            }
+
+
+
+
+
+
+
+            void Optimizer2::checkProblemSetup()
+            {
+                // Check that all error terms are hooked up to design variables.
+            }
+
+
+
+            void Optimizer2::computeDiagonalCovariances(SparseBlockMatrix& outP, double lambda)
+            {
+                SM_THROW(Exception, "Broken");
+
+                std::vector<std::pair<int, int> > blockIndices;
+                for (size_t i = 0; i < _designVariables.size(); ++i) {
+                    blockIndices.push_back(std::make_pair(i, i));
+                }
+                computeCovarianceBlocks(blockIndices, outP, lambda);
+            }
+
+    void Optimizer2::computeCovarianceBlocks(const std::vector<std::pair<int, int> > & /* blockIndices */, SparseBlockMatrix& /* outP */, double /* lambda */)
+            {
+                SM_THROW(Exception, "Broken");
+
+            }
+
+
+    void Optimizer2::computeCovariances(SparseBlockMatrix& /* outP */, double /* lambda */)
+            {
+                SM_THROW(Exception, "Broken");
+
+            }
+
+        void Optimizer2::computeHessian(SparseBlockMatrix& outH, double lambda)
+            {
+
+              boost::shared_ptr<BlockCholeskyLinearSystemSolver> solver_sp;
+              solver_sp.reset(new BlockCholeskyLinearSystemSolver());
+              // True here for creating the diagonal conditioning.
+              solver_sp->initMatrixStructure(_designVariables, _errorTerms, true);
+
+              _options.verbose && std::cout << "Setting the diagonal conditioner to: " << lambda << ".\n";
+              evaluateError(false);
+              solver_sp->setConstantConditioner(lambda);
+              solver_sp->buildSystem(_options.nThreads, false);
+              solver_sp->copyHessian(outH);
+            }
+
+      const LinearSystemSolver * Optimizer2::getBaseSolver() const {
+          return _solver.get();
+      }
+
+
+
+        const Matrix * Optimizer2::getJacobian() const {
+            return _solver->Jacobian();
+        }
+
+
+        } // namespace backend
+    } // namespace aslam
-- 
2.43.0


From 8c7f7f160793ba93494f233c65a3ecb8e7d4c84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:14 +0000
Subject: [PATCH 08/39] fix: dog leg never uses the Gauss-Newton step of an
 earlier or failed solve

---
 .../aslam_backend/backend/DogLegTrustRegionPolicy.hpp  |  2 ++
 .../aslam_backend/src/DogLegTrustRegionPolicy.cpp      | 10 +++++-----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/DogLegTrustRegionPolicy.hpp b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/DogLegTrustRegionPolicy.hpp
index abe6a57..3419758 100644
--- a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/DogLegTrustRegionPolicy.hpp
+++ b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/DogLegTrustRegionPolicy.hpp
@@ -32,6 +32,8 @@ namespace aslam {
             Eigen::VectorXd _dx;
             Eigen::VectorXd _dx_sd;
             Eigen::VectorXd _dx_gn;
+            // Whether _dx_gn is the Gauss-Newton step of the current system.
+            bool _gnComputed;
 
             double _dx_sd_norm;
             double _dx_gn_norm;
diff --git a/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp b/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp
index 1d714ca..bc48f5e 100644
--- a/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp
+++ b/aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp
@@ -3,7 +3,7 @@
 namespace aslam {
     namespace backend {
 
-        DogLegTrustRegionPolicy::DogLegTrustRegionPolicy()   {}
+        DogLegTrustRegionPolicy::DogLegTrustRegionPolicy() : _gnComputed(false)  {}
         DogLegTrustRegionPolicy::~DogLegTrustRegionPolicy() {}
 
 
@@ -18,6 +18,7 @@ namespace aslam {
             std::string _stepType;
             _delta  = 0;
             _p_delta = 0;
+            _gnComputed = false;
 
         }
 
@@ -57,7 +58,6 @@ namespace aslam {
                         _delta /= 2.0;
                 }
             }
-            bool gnComputed = true;
             // successful step:
             // rebuild system and recalculate sd-solution
             if(!previousIterationFailed) {
@@ -75,7 +75,7 @@ namespace aslam {
                 _dx_sd_norm = _dx_sd.norm();
 
                 // invalidate GN solution
-                gnComputed = false;
+                _gnComputed = false;
             }
 
             // Trust Region smaller than SD:
@@ -89,14 +89,14 @@ namespace aslam {
             else
             {
                 // calculate the GN step.
-                if(!gnComputed)
+                if(!_gnComputed)
                 {
                     solutionSuccess = _solver->solveSystem(_dx_gn);
 
                     if(!solutionSuccess)
                         return solutionSuccess;
 
-                    gnComputed = true;  // now we have it!
+                    _gnComputed = true;  // now we have it!
                     // and calculate the norm:
                     _dx_gn_norm = _dx_gn.norm();
                 }
-- 
2.43.0


From 8ded47a150dbd2cd6a30f474c4f7c4060bf11d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:14 +0000
Subject: [PATCH 09/39] fix: clearing or refilling a compressed column matrix
 keeps its invariants

---
 .../backend/implementation/CompressedColumnMatrix.hpp     | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnMatrix.hpp b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnMatrix.hpp
index 1263f48..3c65d57 100644
--- a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnMatrix.hpp
+++ b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnMatrix.hpp
@@ -133,7 +133,11 @@ namespace aslam {
     {
       _values.clear();
       _row_ind.clear();
-      _col_ptr.assign(_rows + 1, (index_t)0);
+      if (_hasDiagonalAppended) {
+        _cols -= _rows;
+        _hasDiagonalAppended = false;
+      }
+      _col_ptr.assign(_cols + 1, (index_t)0);
     }
 
 
@@ -420,6 +424,7 @@ namespace aslam {
       _row_ind.clear();
       _col_ptr.resize(1);
       _col_ptr[0] = 0;
+      _hasDiagonalAppended = false;
       tolerance = fabs(tolerance);
       for (size_t c = 0; c < _cols; ++c) {
         for (size_t r = 0; r < _rows; ++r) {
@@ -472,6 +477,7 @@ namespace aslam {
       std::copy(row_ind, row_ind + nzmax, _row_ind.begin());
       _values.resize(nzmax);
       std::copy(values, values + nzmax, _values.begin());
+      _hasDiagonalAppended = false;
       checkMatrixDbg();
     }
 
-- 
2.43.0


From 99464b81e6445d21f44edfebc20f17551cc6fb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:14 +0000
Subject: [PATCH 10/39] fix: exceptions of Jacobian worker threads reach the
 caller instead of terminating

---
 .../CompressedColumnJacobianTransposeBuilder.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnJacobianTransposeBuilder.hpp b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnJacobianTransposeBuilder.hpp
index 1783df7..2201d12 100644
--- a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnJacobianTransposeBuilder.hpp
+++ b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnJacobianTransposeBuilder.hpp
@@ -1,5 +1,6 @@
 #include <aslam_backend/backend/CompressedColumnJacobianTransposeBuilder.hpp>
 #include <boost/thread.hpp>
+#include <exception>
 
 namespace aslam {
   namespace backend {
@@ -71,10 +72,23 @@ namespace aslam {
         indices.back() = _jacobianPointers.size();
         // Build a thread pool and evaluate the jacobians.
         boost::thread_group threads;
+        std::vector<std::exception_ptr> failures(nThreads);
         for (unsigned i = 0; i < nThreads; ++i) {
-          threads.create_thread(boost::bind(ptr, this, i, indices[i], indices[i + 1], useMEstimator));
+          threads.create_thread([=, &indices, &failures]() {
+            try {
+              (this->*ptr)(i, indices[i], indices[i + 1], useMEstimator);
+            } catch (...) {
+              failures[i] = std::current_exception();
+            }
+          });
         }
         threads.join_all();
+        // Now go through and look for exceptions.
+        for (unsigned i = 0; i < nThreads; ++i) {
+          if (failures[i]) {
+            std::rethrow_exception(failures[i]);
+          }
+        }
       }
     }
 
-- 
2.43.0


From b8689082b9f77b4417e2ef55a63687dd3f44c378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:14 +0000
Subject: [PATCH 11/39] fix: sparse Cholesky solver frees its factorization

---
 .../aslam_backend/src/SparseCholeskyLinearSystemSolver.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/src/SparseCholeskyLinearSystemSolver.cpp b/aslam_optimizer/aslam_backend/src/SparseCholeskyLinearSystemSolver.cpp
index 0133db8..f478221 100644
--- a/aslam_optimizer/aslam_backend/src/SparseCholeskyLinearSystemSolver.cpp
+++ b/aslam_optimizer/aslam_backend/src/SparseCholeskyLinearSystemSolver.cpp
@@ -9,7 +9,12 @@ namespace aslam {
       // NO OPTIONS CURRENTLY IMPLEMENTED
       // USING C++11 would allow to do constructor delegation and more elegant code
     }
-    SparseCholeskyLinearSystemSolver::~SparseCholeskyLinearSystemSolver() {}
+    SparseCholeskyLinearSystemSolver::~SparseCholeskyLinearSystemSolver() {
+      if (_factor) {
+        _cholmod.free(_factor);
+        _factor = NULL;
+      }
+    }
 
     void SparseCholeskyLinearSystemSolver::initMatrixStructureImplementation(const std::vector<DesignVariable*>& dvs, const std::vector<ErrorTerm*>& errors, bool useDiagonalConditioner)
     {
-- 
2.43.0


From 1e293c2fac9f09842f53eb4b5450839e8fefa074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:01 +0000
Subject: [PATCH 12/39] fix: SM_CHECKSAME and SM_CHECKMEMBERSSAME can be
 combined: a chain compares every member

---
 .../sm_common/include/sm_common/serialization_macros.hpp  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Schweizer-Messer/sm_common/include/sm_common/serialization_macros.hpp b/Schweizer-Messer/sm_common/include/sm_common/serialization_macros.hpp
index 814afca..dc8043a 100644
--- a/Schweizer-Messer/sm_common/include/sm_common/serialization_macros.hpp
+++ b/Schweizer-Messer/sm_common/include/sm_common/serialization_macros.hpp
@@ -324,7 +324,7 @@ struct VerboseChecker {
     SM_SERIALIZATION_CHECKSAME_IMPL(THIS, OTHER)
 
 #define SM_SERIALIZATION_CHECKSAME_IMPL(THIS, OTHER) \
-    (sm::serialization::internal::checkTypeIsNotOpencvMat<\
+    ((sm::serialization::internal::checkTypeIsNotOpencvMat<\
         typename sm::common::StripConstReference<decltype(OTHER)>::result_t, \
         false>::value &&  /*for opencvMats we have to use
         sm::opencv::isBinaryEqual otherwise this code has to depend on opencv*/ \
@@ -348,14 +348,14 @@ struct VerboseChecker {
     typename sm::common::StripConstReference<decltype(OTHER)>::result_t>::value, \
     typename sm::common::StripConstReference<decltype(OTHER)>::result_t>::eval(OTHER) \
     << "\nat " << __PRETTY_FUNCTION__ << /* Print the function where this happened.*/ \
-    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false)
+    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false))
 
 #define SM_SERIALIZATION_CHECKMEMBERSSAME_VERBOSE(OTHER, MEMBER, VERBOSE) \
     (SET_CHECKSAME_VERBOSITY(VERBOSE) && \
         SM_SERIALIZATION_CHECKMEMBERSSAME_IMPL(OTHER, MEMBER)
 
 #define SM_SERIALIZATION_CHECKMEMBERSSAME_IMPL(OTHER, MEMBER) \
-    ((sm::serialization::internal::checkTypeIsNotOpencvMat<\
+    (((sm::serialization::internal::checkTypeIsNotOpencvMat<\
         typename sm::common::StripConstReference<decltype(OTHER)>::result_t,\
         false>::value) &&  /* For opencvMats we have to use sm::opencv::isBinaryEqual
         otherwise this code has to depend on opencv.*/\
@@ -375,7 +375,7 @@ struct VerboseChecker {
     typename sm::common::StripConstReference<decltype(MEMBER)>::result_t>::value, \
     typename sm::common::StripConstReference<decltype(MEMBER)>::result_t >::eval(OTHER.MEMBER) \
     << "\nat " << __PRETTY_FUNCTION__ << \
-    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false)
+    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false))
 
 // This is some internal default macro parameter deduction.
 #define SM_SERIALIZATION_GET_3RD_ARG(arg1, arg2, arg3, ...) arg3
-- 
2.43.0


From 1f183431230771572b50c9a903678c8bdd6c1b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:01 +0000
Subject: [PATCH 13/39] fix: image masks of the first archive version load
 without a scale

---
 .../aslam_cameras/include/aslam_cameras/cameras/ImageMask.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/ImageMask.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/ImageMask.hpp
index fc311f3..7da63d9 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/ImageMask.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/ImageMask.hpp
@@ -54,7 +54,7 @@ class ImageMask {
                  (unsigned int) CLASS_SERIALIZATION_VERSION,
                  "Unsupported serialization version");
 
-    if (CLASS_SERIALIZATION_VERSION < 1) {
+    if (version < 1) {
       ar >> BOOST_SERIALIZATION_NVP(_mask);
       _scale = 1.0;
     } else {
-- 
2.43.0


From 1547001972ec536b931b516c3af92be0ab856592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:01 +0000
Subject: [PATCH 14/39] fix: empty dynamic row vectors load as they are saved

---
 Schweizer-Messer/sm_eigen/include/sm_eigen/serialization.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Schweizer-Messer/sm_eigen/include/sm_eigen/serialization.hpp b/Schweizer-Messer/sm_eigen/include/sm_eigen/serialization.hpp
index 22b3283..b877d07 100755
--- a/Schweizer-Messer/sm_eigen/include/sm_eigen/serialization.hpp
+++ b/Schweizer-Messer/sm_eigen/include/sm_eigen/serialization.hpp
@@ -142,7 +142,10 @@ namespace boost { namespace serialization {
       SM_ASSERT_EQ(sm::eigen::SerializationException,rows,A,"Unexpected number of rows found for fixed-sized type");
     
       M.resize(Eigen::NoChange,cols);
-      ar >> make_nvp("data",make_array(&M(0,0),M.rows()*M.cols()));
+      if(rows > 0 && cols > 0)
+	{
+	  ar >> make_nvp("data",make_array(&M(0,0),M.rows()*M.cols()));
+	}
 
     }
 
-- 
2.43.0


From 0462e590f7a65fd5bfbd1d020edcb18ba04ec779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:01 +0000
Subject: [PATCH 15/39] fix: depth cameras compare equal when their parameters
 are equal

---
 .../include/aslam_cameras/cameras/DepthProjection.hpp       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/DepthProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/DepthProjection.hpp
index 6da59e9..93dd9f2 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/DepthProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/DepthProjection.hpp
@@ -210,8 +210,10 @@ class DepthProjection {
     return DepthProjection<DISTORTION_T>();
   }
 
-  bool isBinaryEqual(const DepthProjection<DISTORTION_T> & /* rhs */) const {
-    return false;
+  bool isBinaryEqual(const DepthProjection<DISTORTION_T> & rhs) const {
+    return _fu == rhs._fu && _fv == rhs._fv && _cu == rhs._cu && _cv == rhs._cv
+        && _ru == rhs._ru && _rv == rhs._rv
+        && _distortion.isBinaryEqual(rhs._distortion);
   }
 
  private:
-- 
2.43.0


From 66c157e73dc4fa84cf3bac64e4a3fd04a200b8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:42 +0000
Subject: [PATCH 16/39] fix: removing a curve segment recomputes the basis
 matrices of the spline

---
 aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp b/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
index fe08248..8e36c60 100644
--- a/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
+++ b/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
@@ -743,6 +743,7 @@ Eigen::VectorXi BSpline::segmentVvCoefficientVectorIndices(int segmentIdx) const
 	{
 	  knots_.erase(knots_.begin());
 	  coefficients_ = coefficients_.block(0,1,coefficients_.rows(),coefficients_.cols() - 1).eval();
+	  initializeBasisMatrices();
 	}
     }
 
-- 
2.43.0


From a6bdcaef462662534e29bffcaa1139207f2ee494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:26 +0000
Subject: [PATCH 17/39] fix: image masks with different scales are not binary
 equal

---
 aslam_cv/aslam_cameras/src/ImageMask.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/src/ImageMask.cpp b/aslam_cv/aslam_cameras/src/ImageMask.cpp
index 96fa0b4..1f0b87c 100644
--- a/aslam_cv/aslam_cameras/src/ImageMask.cpp
+++ b/aslam_cv/aslam_cameras/src/ImageMask.cpp
@@ -58,7 +58,8 @@ double ImageMask::getScale() const {
 }
 
 bool ImageMask::isBinaryEqual(const ImageMask & rhs) const {
-  return sm::opencv::isBinaryEqual(_mask, rhs._mask);
+  return sm::opencv::isBinaryEqual(_mask, rhs._mask)
+      && SM_CHECKMEMBERSSAME(rhs, _scale);
 }
 
 void ImageMask::setMaskFromMatrix(const Eigen::MatrixXi & mask) {
-- 
2.43.0


From ab0ba08f7acc011ea76869ad5133d61a175445ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:27 +0000
Subject: [PATCH 18/39] fix: plain Jacobian of a matrix variable has one column
 per unknown

---
 aslam_optimizer/aslam_backend_expressions/src/MatrixBasic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend_expressions/src/MatrixBasic.cpp b/aslam_optimizer/aslam_backend_expressions/src/MatrixBasic.cpp
index 5f5c51b..210b24d 100644
--- a/aslam_optimizer/aslam_backend_expressions/src/MatrixBasic.cpp
+++ b/aslam_optimizer/aslam_backend_expressions/src/MatrixBasic.cpp
@@ -61,7 +61,7 @@ void MatrixBasic::evaluateJacobiansImplementation(JacobianContainer & outJacobia
 {
 	if (minimalDimensionsImplementation() != 0)
 	{
-		outJacobians.add( const_cast<MatrixBasic *>(this), Eigen::Matrix3d::Identity());
+		outJacobians.add( const_cast<MatrixBasic *>(this), _B );
 	}
 }
 
-- 
2.43.0


From 315a50e9aa9e751ecd91fabc64a6770de6454506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:27 +0000
Subject: [PATCH 19/39] fix: Jacobians of a generic scalar quotient belong to
 numerator and denominator

---
 .../implementation/GenericScalarExpression.hpp                | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/GenericScalarExpression.hpp b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/GenericScalarExpression.hpp
index 99c27b3..ca7bdf9 100644
--- a/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/GenericScalarExpression.hpp
+++ b/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/GenericScalarExpression.hpp
@@ -134,8 +134,8 @@ class GenericScalarExpressionNodeDivide : public GSEBinRes<Scalar_> {
     Eigen::MatrixXd L(1, 1), R(1, 1);
     L(0, 0) = 1.0 / this->_rhs->toScalar();
     R(0, 0) = -this->_lhs->toScalar() / (this->_rhs->toScalar() * this->_rhs->toScalar());
-    this->_lhs->evaluateJacobians(outJacobians, applyChainRule ? *applyChainRule * R : R);
-    this->_rhs->evaluateJacobians(outJacobians, applyChainRule ? *applyChainRule * L : L);
+    this->_lhs->evaluateJacobians(outJacobians, applyChainRule ? *applyChainRule * L : L);
+    this->_rhs->evaluateJacobians(outJacobians, applyChainRule ? *applyChainRule * R : R);
   }
 };
 
-- 
2.43.0


From 0b0ee9d43a5eb09e3f0236dfc341330455bc34c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:49 +0000
Subject: [PATCH 20/39] fix: a rejected step is judged against the state it was
 taken from

---
 aslam_optimizer/aslam_backend/src/TrustRegionPolicy.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aslam_optimizer/aslam_backend/src/TrustRegionPolicy.cpp b/aslam_optimizer/aslam_backend/src/TrustRegionPolicy.cpp
index 3e7b135..fc36683 100644
--- a/aslam_optimizer/aslam_backend/src/TrustRegionPolicy.cpp
+++ b/aslam_optimizer/aslam_backend/src/TrustRegionPolicy.cpp
@@ -39,6 +39,8 @@ namespace aslam {
         bool TrustRegionPolicy::solveSystem(double J, bool previousIterationFailed, int nThreads, Eigen::VectorXd& outDx)
         {
             if(previousIterationFailed) {
+                // the step was taken from, and reverted to, the last successful state
+                _p_J = _last_successful_J;
                 _J = J;
             } else {
                 _p_J = _last_successful_J;
-- 
2.43.0


From 7adef16afad6f810cb1325b5e7586e8fd7ae6d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:49 +0000
Subject: [PATCH 21/39] fix: Gauss-Newton rebuilds its matrices after a failed
 solution and a step

---
 aslam_optimizer/aslam_backend/src/Optimizer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aslam_optimizer/aslam_backend/src/Optimizer.cpp b/aslam_optimizer/aslam_backend/src/Optimizer.cpp
index 0d5ba78..a1e9e87 100644
--- a/aslam_optimizer/aslam_backend/src/Optimizer.cpp
+++ b/aslam_optimizer/aslam_backend/src/Optimizer.cpp
@@ -528,6 +528,8 @@ namespace aslam {
           mu *= 2;
           srv.failedIterations++;
         } else {
+          // The design variables move: the matrices have to be built again.
+          isLmRegression = false;
           /// Apply the state update. _A, _b, _dx, and _H are passed in implicitly.
           timeBackSub.start();
           deltaX = applyStateUpdate();
-- 
2.43.0


From a77b8cddee89515ead71bf1beb8470751a0e1f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:55 +0000
Subject: [PATCH 22/39] fix: ExtendedUnifiedProjection: the v row of the
 intrinsics Jacobian scales with fv

---
 .../cameras/implementation/ExtendedUnifiedProjection.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp
index 751bf31..32ff534 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp
@@ -432,7 +432,7 @@ void ExtendedUnifiedProjection<DISTORTION_T>::euclideanToKeypointIntrinsicsJacob
   J.setZero();
 
   const double tmp_x = -_fu * x * norm_inv2;
-  const double tmp_y = -_fu * y * norm_inv2;
+  const double tmp_y = -_fv * y * norm_inv2;
 
   const double tmp4 = (d - z);
   const double tmp5 = 0.5 * _alpha * r2 * d_inv;
-- 
2.43.0


From 05a1fa3fa197eff897fffafa2c7fdaa9345e3ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:55 +0000
Subject: [PATCH 23/39] fix: PinholeProjection::keypointToEuclidean: chain rule
 in the order of the computation

---
 .../cameras/implementation/PinholeProjection.hpp         | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
index 232d2aa..56d0866 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
@@ -261,10 +261,11 @@ bool PinholeProjection<DISTORTION_T>::keypointToEuclidean(
   //J.derived()(0,0) = 1.0;
   //J.derived()(1,1) = _fu_over_fv;
 
-  J.derived()(0, 0) = _recip_fu;
-  J.derived()(1, 1) = _recip_fv;
-
-  J *= Jd;
+  // the keypoint is normalized before the distortion is reverted
+  J.derived()(0, 0) = Jd(0, 0) * _recip_fu;
+  J.derived()(0, 1) = Jd(0, 1) * _recip_fv;
+  J.derived()(1, 0) = Jd(1, 0) * _recip_fu;
+  J.derived()(1, 1) = Jd(1, 1) * _recip_fv;
 
   return isValid(keypoint);
 
-- 
2.43.0


From 083f8a2d5316e974cefa4b14ea185bbcf9081d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:55 +0000
Subject: [PATCH 24/39] fix: PinholeProjection::homogeneousToKeypoint: the
 Jacobian overload accepts the points the plain one accepts

---
 .../aslam_cameras/cameras/implementation/PinholeProjection.hpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
index 56d0866..5cafe77 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp
@@ -180,9 +180,6 @@ bool PinholeProjection<DISTORTION_T>::homogeneousToKeypoint(
   J.setZero();
 
   // hope this works... (required to have valid static asserts)
-  return euclideanToKeypoint(ph.derived().template head<3>(), outKeypoint,
-                             J.derived().template topLeftCorner<2, 3>());
-
   if (ph[3] < 0) {
     bool success = euclideanToKeypoint(
         -ph.derived().template head<3>(), outKeypoint,
-- 
2.43.0


From 59c490dace827e113c14bbb7f398b373f9dd934f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:55 +0000
Subject: [PATCH 25/39] fix: FovDistortion::distortParameterJacobian: near the
 center the derivative is proportional to the point

---
 .../aslam_cameras/cameras/implementation/FovDistortion.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/FovDistortion.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/FovDistortion.hpp
index 94db759..f72a4a2 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/FovDistortion.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/FovDistortion.hpp
@@ -154,7 +154,7 @@ void FovDistortion::distortParameterJacobian(
     J.setZero();
   }
   else if (r_u * r_u < 1e-5) {
-    J.setOnes();
+    J << u, v;
     J *= (_w - sin(_w)) / (_w * _w * cos(_w / 2) * cos(_w / 2));
   } else {
     const double dxd_d_w = (2 * u * (tanwhalfsq / 2 + 0.5))
-- 
2.43.0


From 9058a1a8075f6c390b29e8c335198697f316a161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:28 +0000
Subject: [PATCH 26/39] fix: keypointToEuclidean sizes the Jacobian it writes
 (omni, extended unified, double sphere)

---
 .../cameras/implementation/DoubleSphereProjection.hpp            | 1 +
 .../cameras/implementation/ExtendedUnifiedProjection.hpp         | 1 +
 .../aslam_cameras/cameras/implementation/OmniProjection.hpp      | 1 +
 3 files changed, 3 insertions(+)

diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/DoubleSphereProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/DoubleSphereProjection.hpp
index dbb1999..7523a8e 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/DoubleSphereProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/DoubleSphereProjection.hpp
@@ -375,6 +375,7 @@ bool DoubleSphereProjection<DISTORTION_T>::keypointToEuclidean(
   DERIVED_JK & mbJk =
       const_cast<DERIVED_JK &>(outJk);
   DERIVED_JK & Jk = mbJk.derived();
+  Jk.resize(3, KeypointDimension);
 
   Jk(0, 0) = _recip_fu * (mx * d_k_d_mx + k);
   Jk(1, 0) = _recip_fu * my * d_k_d_mx;
diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp
index 32ff534..d05545e 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp
@@ -330,6 +330,7 @@ bool ExtendedUnifiedProjection<DISTORTION_T>::keypointToEuclidean(
   DERIVED_JK & mbJk =
       const_cast<DERIVED_JK &>(outJk);
   DERIVED_JK & Jk = mbJk.derived();
+  Jk.resize(3, KeypointDimension);
   
   Jk(0, 0) = (norm_inv + 2 * mx * mx * d_norm_inv_d_r2) * _recip_fu;
   Jk(1, 0) = (2 * my * mx * d_norm_inv_d_r2) * _recip_fu;
diff --git a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/OmniProjection.hpp b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/OmniProjection.hpp
index 796becb..e34fc14 100644
--- a/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/OmniProjection.hpp
+++ b/aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/OmniProjection.hpp
@@ -298,6 +298,7 @@ bool OmniProjection<DISTORTION_T>::keypointToEuclidean(
   DERIVED_JK & mbJk =
       const_cast<DERIVED_JK &>(outJk);
   DERIVED_JK & Jk = mbJk.derived();
+  Jk.resize(3, KeypointDimension);
 
   double r0 = outPoint[0];
   double r1 = outPoint[1];
-- 
2.43.0


From 34078ca78ba7caa6a467b43da8e4324b24514eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 27/39] fix: axisAngle2quat: the second order term for small
 angles is negative

---
 Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp b/Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp
index 09e85eb..7c10e1b 100755
--- a/Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp
@@ -209,7 +209,7 @@ namespace sm { namespace kinematics {
             if(isLessThenEpsilons4thRoot(theta))
             {
                 static const double one_over_48 = 1.0/48.0;
-                na = 0.5 + (theta * theta) * one_over_48;
+                na = 0.5 - (theta * theta) * one_over_48;
             }
             else
             {
-- 
2.43.0


From c9633f0911809d0b60de0ad7db5930b2dca01fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 28/39] fix: arcSinXOverX: the second order term is not an
 integer division

---
 Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp b/Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp
index 7c10e1b..e9bed3f 100755
--- a/Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp
@@ -228,7 +228,7 @@ namespace sm { namespace kinematics {
         template <typename Scalar_>
         inline Scalar_ arcSinXOverX(Scalar_ x) {
           if(isLessThenEpsilons4thRoot(fabs(x))){
-            return Scalar_(1.0) + x * x * Scalar_(1/6);
+            return Scalar_(1.0) + x * x * Scalar_(1.0/6.0);
           }
           return asin(x) / x;
         }
-- 
2.43.0


From 31fb1e464e95664c405a18915f7f173ef1b95c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 29/39] fix: the covariance of the difference of two uncertain
 points uses the derivatives of the difference

---
 .../sm_kinematics/src/UncertainHomogeneousPoint.cpp         | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Schweizer-Messer/sm_kinematics/src/UncertainHomogeneousPoint.cpp b/Schweizer-Messer/sm_kinematics/src/UncertainHomogeneousPoint.cpp
index b0f0783..b70d422 100755
--- a/Schweizer-Messer/sm_kinematics/src/UncertainHomogeneousPoint.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/UncertainHomogeneousPoint.cpp
@@ -203,8 +203,10 @@ namespace sm {
 	rval.head<3>() = _ph.head<3>() * rhs._ph[3] - rhs._ph.head<3>() * _ph[3];
 	rval[3] = _ph[3] * rhs._ph[3];
 
-	Eigen::Matrix4d PL = toHomogeneousPlus(_ph);
-	Eigen::Matrix4d PR = toHomogeneousPlus(rhs._ph);
+	// the derivatives of the difference with respect to this and to rhs
+	Eigen::Matrix4d PL = toHomogeneousMinus(_ph);
+	PL.topRows<3>() *= -1.0;
+	Eigen::Matrix4d PR = toHomogeneousMinus(rhs._ph);
 	
 	return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(PR * U4() * PR.transpose() + PL * rhs.U4() * PL.transpose()));	
 	
-- 
2.43.0


From b33a225d01417720e2020c14542b695559e04d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 30/39] fix: adding a certain point to an uncertain one
 propagates its covariance

---
 .../sm_kinematics/src/HomogeneousPoint.cpp            | 11 +++++++++--
 .../sm_kinematics/src/UncertainHomogeneousPoint.cpp   |  8 ++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/Schweizer-Messer/sm_kinematics/src/HomogeneousPoint.cpp b/Schweizer-Messer/sm_kinematics/src/HomogeneousPoint.cpp
index 32cbb67..9e5bd58 100755
--- a/Schweizer-Messer/sm_kinematics/src/HomogeneousPoint.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/HomogeneousPoint.cpp
@@ -1,6 +1,7 @@
 #include <sm_kinematics/HomogeneousPoint.hpp>
 #include <sm_kinematics/quaternion_algebra.hpp>
 #include <sm_kinematics/UncertainHomogeneousPoint.hpp>
+#include <sm_kinematics/homogeneous_coordinates.hpp>
 #include <sm_common/serialization_macros.hpp>
 
 namespace sm {
@@ -51,7 +52,9 @@ namespace sm {
       rval.head<3>() = _ph.head<3>() * rhs._ph[3] + rhs._ph.head<3>() * _ph[3];
       rval[3] = _ph[3] * rhs._ph[3];
       
-      return UncertainHomogeneousPoint(rval, rhs.U4());
+      Eigen::Matrix4d PL = toHomogeneousPlus(_ph);
+
+      return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(PL * rhs.U4() * PL.transpose()));
 
     }
       
@@ -65,7 +68,11 @@ namespace sm {
       rval.head<3>() = _ph.head<3>() * rhs._ph[3] - rhs._ph.head<3>() * _ph[3];
       rval[3] = _ph[3] * rhs._ph[3];
       
-      return UncertainHomogeneousPoint(rval, rhs.U4());
+      // the derivative of the difference with respect to rhs
+      Eigen::Matrix4d PL = toHomogeneousMinus(_ph);
+      PL.topRows<3>() *= -1.0;
+
+      return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(PL * rhs.U4() * PL.transpose()));
     }
 
 
diff --git a/Schweizer-Messer/sm_kinematics/src/UncertainHomogeneousPoint.cpp b/Schweizer-Messer/sm_kinematics/src/UncertainHomogeneousPoint.cpp
index b70d422..28c1090 100755
--- a/Schweizer-Messer/sm_kinematics/src/UncertainHomogeneousPoint.cpp
+++ b/Schweizer-Messer/sm_kinematics/src/UncertainHomogeneousPoint.cpp
@@ -161,7 +161,9 @@ namespace sm {
       rval.head<3>() = _ph.head<3>() * pr[3] + pr.head<3>() * _ph[3];
       rval[3] = _ph[3] * pr[3];
       
-      return UncertainHomogeneousPoint(rval, U4());
+      Eigen::Matrix4d PR = toHomogeneousPlus(pr);
+
+      return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(PR * U4() * PR.transpose()));
 
     }
     
@@ -175,7 +177,9 @@ namespace sm {
 	rval.head<3>() = _ph.head<3>() * pr[3] - pr.head<3>() * _ph[3];
 	rval[3] = _ph[3] * pr[3];
 	
-	return UncertainHomogeneousPoint(rval, U4());
+	Eigen::Matrix4d PR = toHomogeneousMinus(pr);
+
+	return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(PR * U4() * PR.transpose()));
 
       }
 
-- 
2.43.0


From 1639af0f1c9a36765f33338a7a4edcf34d17b499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 31/39] fix: BSpline: the order of the new knots is verified,
 not as many of them as there were before

---
 aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp b/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
index 8e36c60..0cc4b25 100644
--- a/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
+++ b/aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp
@@ -187,7 +187,7 @@ namespace aslam_bsplines {
 		     << "for a B-spline of order " << splineOrder_ << ". At least " << minimumKnotsRequired() 
 		     << " knots are required");
       
-      for(unsigned i = 1; i < knots_.size(); i++)
+      for(unsigned i = 1; i < knots.size(); i++)
 	{
 	  SM_ASSERT_LE(Exception, knots[i-1], knots[i],
 			 "The knot sequence must be nondecreasing. Knot " << i
-- 
2.43.0


From 672729cd36264be32bc24c234e9631575c89a98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 32/39] fix: angularVelocityAndJacobian and
 angularAccelerationAndJacobian have the sign of angularVelocity

---
 .../aslam_bsplines/src/BSplinePose.cpp                      | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aslam_nonparametric_estimation/aslam_bsplines/src/BSplinePose.cpp b/aslam_nonparametric_estimation/aslam_bsplines/src/BSplinePose.cpp
index b771999..1b709b2 100644
--- a/aslam_nonparametric_estimation/aslam_bsplines/src/BSplinePose.cpp
+++ b/aslam_nonparametric_estimation/aslam_bsplines/src/BSplinePose.cpp
@@ -273,7 +273,8 @@ namespace aslam_bsplines {
       //std::cout << "Jpdot\n" << Jpdot << std::endl;
 
       Eigen::Matrix<double,3,6> Jo;
-      omega = rotation_->angularVelocityAndJacobian(p,pdot,&Jo);
+      omega = -rotation_->angularVelocityAndJacobian(p,pdot,&Jo);
+      Jo = (-Jo).eval();
       
       //std::cout << "Jo:\n" << Jo << std::endl;
       if(J)
@@ -349,7 +350,8 @@ namespace aslam_bsplines {
     	Jpdot.block(0,0,3,Jpdot.cols()) = Jp.block(3,0,3,Jp.cols());
 
     	Eigen::Matrix<double,3,6> Jo;
-    	omega = rotation_->angularVelocityAndJacobian(p,pdot,&Jo);
+    	omega = -rotation_->angularVelocityAndJacobian(p,pdot,&Jo);
+    	Jo = (-Jo).eval();
     	if(J)
     	{
     		*J = Jo * Jpdot;
-- 
2.43.0


From 21544858aae55685ecf5829674b7969946030bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:17 +0000
Subject: [PATCH 33/39] fix: time offset Jacobian uses the wrong coefficient
 block

TransformationTimeOffsetExpressionNode took the block of a coefficient by its
position in the buffer instead of its index in the spline, which is wrong (or
outside of the matrix) when the buffer does not begin at coefficient 0.
---
 .../aslam_splines/src/BSplineExpressions.cpp                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp b/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp
index 4f8e95c..84efa43 100644
--- a/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp
+++ b/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp
@@ -479,7 +479,7 @@ namespace aslam {
             {
             	// nonzero Jacobian
             	if(_localCoefficientIndices[i] >= minIdx && _localCoefficientIndices[i] <= maxIdx )
-            		outJacobians.add(_spline->designVariable(_localCoefficientIndices[i]), J.block<6,6>(0,(i-minIdx)*6) );
+            		outJacobians.add(_spline->designVariable(_localCoefficientIndices[i]), J.block<6,6>(0,(_localCoefficientIndices[i]-minIdx)*6) );
             	// zero Jacobian:
             	else
             		outJacobians.add(_spline->designVariable(_localCoefficientIndices[i]), Eigen::Matrix<double, 6,6>::Zero());
-- 
2.43.0


From 85f26abe81e17d2234b13b02cc3b8fa2cfdf406f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:57 +0000
Subject: [PATCH 34/39] fix: Jacobian of the body frame acceleration of a pose
 spline

The node's value is C^T a, its Jacobian was that of a.
---
 .../aslam_splines/src/BSplineExpressions.cpp  | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp b/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp
index 84efa43..2a3d5f5 100644
--- a/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp
+++ b/aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp
@@ -1,5 +1,6 @@
 #include <aslam_splines/BSplineExpressions.hpp>
 #include <aslam_splines/BSplinePoseDesignVariable.hpp>
+#include <sm_kinematics/rotations.hpp>
 
 namespace aslam {
     namespace splines {
@@ -312,9 +313,12 @@ namespace aslam {
     void BSplineAccelerationBodyFrameExpressionNode::
         evaluateJacobiansImplementation(aslam::backend::JacobianContainer&
         outJacobians) const {
-      Eigen::MatrixXd J;
-      _spline->evalDAndJacobian(_time, 2, &J, NULL);
-      SM_ASSERT_EQ_DBG(aslam::Exception, J.rows(), 6, "Bad");
+      // a_b = C^T a_w: the orientation moves with the coefficients, too
+      Eigen::MatrixXd J, JC;
+      const Eigen::Vector3d a = _spline->linearAccelerationAndJacobian(_time, &J, NULL);
+      const Eigen::Matrix3d C = _spline->orientationAndJacobian(_time, &JC, NULL);
+      J = (C.transpose() * (J - sm::kinematics::crossMx(a) * JC)).eval();
+      SM_ASSERT_EQ_DBG(aslam::Exception, J.rows(), 3, "Bad");
       SM_ASSERT_EQ_DBG(aslam::Exception, J.cols(),
         6 * (int)_designVariables.size(), "Bad");
       for (size_t i = 0; i < _designVariables.size(); ++i)
@@ -326,9 +330,12 @@ namespace aslam {
         outJacobians, const Eigen::MatrixXd & applyChainRule) const {
       SM_ASSERT_EQ_DBG(aslam::Exception, applyChainRule.cols(), 3,
         "The chain rule matrix is the wrong size");
-      Eigen::MatrixXd J;
-      _spline->evalDAndJacobian(_time, 2, &J, NULL);
-      SM_ASSERT_EQ_DBG(aslam::Exception, J.rows(), 6, "Bad");
+      // a_b = C^T a_w: the orientation moves with the coefficients, too
+      Eigen::MatrixXd J, JC;
+      const Eigen::Vector3d a = _spline->linearAccelerationAndJacobian(_time, &J, NULL);
+      const Eigen::Matrix3d C = _spline->orientationAndJacobian(_time, &JC, NULL);
+      J = (C.transpose() * (J - sm::kinematics::crossMx(a) * JC)).eval();
+      SM_ASSERT_EQ_DBG(aslam::Exception, J.rows(), 3, "Bad");
       SM_ASSERT_EQ_DBG(aslam::Exception, J.cols(),
         6 * (int)_designVariables.size(), "Bad");
       for (size_t i = 0; i < _designVariables.size(); ++i)
-- 
2.43.0


From ecd7f2bcac414d55da7615effd4d7ad362b88d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:38 +0000
Subject: [PATCH 35/39] fix: getPointDataPointer refused every point of the
 target

---
 aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp b/aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp
index 2fbb2ce..2e36d3e 100644
--- a/aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp
+++ b/aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp
@@ -36,7 +36,7 @@ Eigen::Vector3d GridCalibrationTargetBase::gridPoint(size_t r, size_t c) const {
 }
 
 double * GridCalibrationTargetBase::getPointDataPointer(size_t i) {
-  SM_ASSERT_LT(Exception, size()-1, i, "Grid has less points than the requested idx!")
+  SM_ASSERT_LT(Exception, i, size(), "Grid has less points than the requested idx!")
   return &_points(i, 0);
 }
 
-- 
2.43.0


From 408468f91a656e26ddfcb9d8fdd11008dfb9e5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:38 +0000
Subject: [PATCH 36/39] fix: pointToGridCoordinates is the inverse of
 gridCoordinatesToPoint

---
 aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp b/aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp
index 2e36d3e..9a79a0a 100644
--- a/aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp
+++ b/aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp
@@ -21,7 +21,7 @@ Eigen::Vector3d GridCalibrationTargetBase::point(size_t i) const {
 
 /// \brief get the grid coordinates for a point
 std::pair<size_t, size_t> GridCalibrationTargetBase::pointToGridCoordinates(size_t i) const {
-  return std::pair<size_t, size_t>(i % cols(), (int) i / cols());
+  return std::pair<size_t, size_t>(i / cols(), i % cols());
 }
 
 /// \brief get the point index from the grid coordinates
-- 
2.43.0


From 3fd255999206536c8ae595f8c82aa3649557ceb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:23 +0000
Subject: [PATCH 37/39] fix: DenseQrLinearSystemSolver never stored whether to
 use the diagonal conditioner

---
 .../aslam_backend/src/DenseQrLinearSystemSolver.cpp            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_optimizer/aslam_backend/src/DenseQrLinearSystemSolver.cpp b/aslam_optimizer/aslam_backend/src/DenseQrLinearSystemSolver.cpp
index 580e199..a4a6680 100644
--- a/aslam_optimizer/aslam_backend/src/DenseQrLinearSystemSolver.cpp
+++ b/aslam_optimizer/aslam_backend/src/DenseQrLinearSystemSolver.cpp
@@ -24,8 +24,9 @@ namespace aslam {
       return &_J;
     }
 
-  void DenseQrLinearSystemSolver::initMatrixStructureImplementation(const std::vector<DesignVariable*>& /* dvs */, const std::vector<ErrorTerm*>& /* errors */, bool /* useDiagonalConditioner */)
+  void DenseQrLinearSystemSolver::initMatrixStructureImplementation(const std::vector<DesignVariable*>& /* dvs */, const std::vector<ErrorTerm*>& /* errors */, bool useDiagonalConditioner)
     {
+      _useDiagonalConditioner = useDiagonalConditioner;
       // \todo Verify that this is similar to the "reserve()" feature in a standard vector.
       _J._M.resize(_JRows, _JCols);
     }
-- 
2.43.0


From 1834240170e073849dc7c894249f1e2170f52272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:23 +0000
Subject: [PATCH 38/39] fix: Cholmod::solve with column scaling dereferenced a
 null solution when the factorisation failed

---
 .../backend/implementation/Cholmod.hpp             | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/Cholmod.hpp b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/Cholmod.hpp
index 6c7186a..7318017 100644
--- a/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/Cholmod.hpp
+++ b/aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/Cholmod.hpp
@@ -428,12 +428,14 @@ namespace aslam {
         CholmodIndexTraits<index_t>::free_dense(&qrY, &_cholmod);
       }
       if (norm) {
-        const double* svalues =
-          reinterpret_cast<const double*>(scaling->x);
-        double* rvalues =
-          reinterpret_cast<double*>(res->x);
-        for (size_t i = 0; i < qrJ->ncol; ++i)
-          rvalues[i] = svalues[i] * rvalues[i];
+        if (res) {
+          const double* svalues =
+            reinterpret_cast<const double*>(scaling->x);
+          double* rvalues =
+            reinterpret_cast<double*>(res->x);
+          for (size_t i = 0; i < qrJ->ncol; ++i)
+            rvalues[i] = svalues[i] * rvalues[i];
+        }
         CholmodIndexTraits<index_t>::free_dense(&scaling, &_cholmod);
       }
       CholmodIndexTraits<index_t>::free_sparse(&qrJ, &_cholmod);
-- 
2.43.0


From 35362493944ac4b9f6403b6c49fb7c4c36a87317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:08 +0000
Subject: [PATCH 39/39] fix: rhsJtJrhs of the block solver counted the blocks
 above the diagonal of the Hessian only once

---
 .../src/BlockCholeskyLinearSystemSolver.cpp     | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp b/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp
index 3335a11..4cc5363 100644
--- a/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp
+++ b/aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp
@@ -172,9 +172,20 @@ namespace aslam {
       
       
     double BlockCholeskyLinearSystemSolver::rhsJtJrhs() {
-        Eigen::VectorXd JtJrhs;
-        _H.rightMultiply(_rhs, JtJrhs);
-        return _rhs.dot(JtJrhs);
+        // Only the blocks on and above the diagonal are stored: those above it count twice.
+        Eigen::VectorXd UJtJrhs;
+        _H.rightMultiply(_rhs, UJtJrhs);
+        double diagonal = 0.0;
+        int rowBase = 0;
+        for (int i = 0; i < _H._M.bRows(); ++i) {
+          const int rows = _H._M.rowsOfBlock(i);
+          const Eigen::MatrixXd* block = _H._M.block(i, i, false);
+          if (block) {
+            diagonal += _rhs.segment(rowBase, rows).dot(*block * _rhs.segment(rowBase, rows));
+          }
+          rowBase += rows;
+        }
+        return 2.0 * _rhs.dot(UJtJrhs) - diagonal;
     }
       
 
-- 
2.43.0


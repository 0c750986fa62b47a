#include <Eigen/Dense>
#include <aslam_sparse_block_matrix/sparse_block_matrix.h>
#include <aslam_sparse_block_matrix/linear_solver_cholmod.h>
#include <aslam_sparse_block_matrix/linear_solver_spqr.h>
namespace aslam_sparse_block_matrix {
template class SparseBlockMatrix<Eigen::MatrixXd>;
template class LinearSolverCholmod<Eigen::MatrixXd>;
}

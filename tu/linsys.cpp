// Instantiates the matrices of aslam_backend for the analysis.
#include <aslam_backend/backend/CompressedColumnMatrix.hpp>
#include <aslam_backend/backend/CompressedColumnJacobianTransposeBuilder.hpp>

namespace aslam { namespace backend {
template class CompressedColumnMatrix<int>;
template class CompressedColumnMatrix<long>;
template class CompressedColumnJacobianTransposeBuilder<int>;
template class CompressedColumnJacobianTransposeBuilder<long>;
}}

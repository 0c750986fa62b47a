#include <aslam_splines/BSplineDesignVariable.hpp>
#include <aslam_splines/EuclideanBSplineDesignVariable.hpp>
#include <aslam_splines/BSplinePoseDesignVariable.hpp>
#include <aslam_splines/BSplineExpressions.hpp>
#include <aslam_splines/BSplineMotionError.hpp>
namespace aslam { namespace splines {
template class BSplineDesignVariable<3>;
}}

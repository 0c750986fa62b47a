#include <aslam_backend/backend/ErrorTerm.hpp>
#include <aslam_splines/BSplinePoseDesignVariable.hpp>
#include <aslam_splines/SimpleSplineError.hpp>
#include <aslam_splines/EuclideanBSplineDesignVariable.hpp>
#include <kalibr/EuclideanError.hpp>
#include <aslam_splines/BSplineMotionError.hpp>
namespace aslam { namespace backend {
template class BSplineMotionError<splines::BSplinePoseDesignVariable>;
}}

// Instantiates the camera error terms for the analysis (by use: some members of
// these templates, used nowhere, do not compile).
#include <aslam_cameras/cameras.hpp>
#include <aslam_cameras/Frame.hpp>
#include <aslam_cv_backend/CameraDesignVariable.hpp>
#include <aslam_cv_backend/ScalarExpressionNodeKeypointTime.hpp>
#include <aslam_cv_error_terms/ReprojectionError.hpp>
#include <aslam_cv_error_terms/SimpleReprojectionError.hpp>
#include <aslam_cv_error_terms/CovarianceReprojectionError.hpp>
#include <aslam_splines/BSplinePoseDesignVariable.hpp>
namespace aslam { namespace backend {
typedef cameras::CameraGeometry<cameras::PinholeProjection<cameras::RadialTangentialDistortion>, cameras::RollingShutter, cameras::NoMask> vcam_t;
typedef Frame<vcam_t> vframe_t;
template class ScalarExpressionNodeKeypointTime<vcam_t>;
inline void verif_use(const boost::shared_ptr<vcam_t> & cam, const vframe_t * frame, HomogeneousExpression p,
               JacobianContainer & jc, DesignVariable::set_t & dvs, CovarianceReprojectionError<vframe_t>::spline_t * spline) {
  CameraDesignVariable<vcam_t> cdv(cam);
  cdv.setActive(true, true, true);
  cdv.evaluateJacobians(jc, Eigen::Vector4d());
  cdv.getDesignVariables(dvs);
  cdv.keypointTime(aslam::Time(), Eigen::VectorXd());
  cdv.temporalOffset(Eigen::VectorXd());
  new ReprojectionError<vcam_t>(frame, 0, p, cdv);
  ReprojectionError<vcam_t> * e = new ReprojectionError<vcam_t>(ReprojectionError<vcam_t>::measurement_t(), ReprojectionError<vcam_t>::inverse_covariance_t(), p, cdv);
  e->updateMeasurement(e->getMeasurement());
  e->updateMeasurementAndCovariance(e->getPredictedMeasurement(), ReprojectionError<vcam_t>::inverse_covariance_t());
  new SimpleReprojectionError<vframe_t>(frame, 0, p);
  new SimpleReprojectionError<vframe_t>(SimpleReprojectionError<vframe_t>::measurement_t(), SimpleReprojectionError<vframe_t>::inverse_covariance_t(), p, *cam);
  new CovarianceReprojectionError<vframe_t>(frame, 0, p, cdv, spline);
}
}}

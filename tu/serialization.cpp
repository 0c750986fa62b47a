// Instantiates every save/load pair of the repository with archives that only
// declare their operators.
#include <aslam_cameras/cameras.hpp>
#include <aslam_cameras/Frame.hpp>
#include <aslam_cameras/Keypoint.hpp>
#include <aslam_cameras/Landmark.hpp>
#include <aslam_cameras/Image.hpp>
#include <aslam_cameras/KeypointIdentifier.hpp>
#include <aslam_cameras/cameras/GridCalibrationTargetBase.hpp>
#include <aslam_cameras/cameras/GridCalibrationTargetCheckerboard.hpp>
#include <aslam_cameras/cameras/GridCalibrationTargetCirclegrid.hpp>
#include <aslam_cameras/cameras/GridCalibrationTargetObservation.hpp>
#include <aslam_cameras/cameras/GridDetector.hpp>
#include <aslam_cameras_april/GridCalibrationTargetAprilgrid.hpp>
#include <sm_kinematics/Transformation.hpp>
#include <sm_kinematics/UncertainTransformation.hpp>
#include <sm_kinematics/HomogeneousPoint.hpp>
#include <sm_kinematics/UncertainHomogeneousPoint.hpp>
#include <sm_kinematics/UncertainVector.hpp>
#include <sm_eigen/serialization.hpp>
#include <sm_opencv/serialization.hpp>
#include <boost/serialization/access.hpp>
#include <boost/mpl/bool.hpp>
namespace verif {
struct Saver {
  typedef boost::mpl::true_ is_saving;
  typedef boost::mpl::false_ is_loading;
  template <class T> Saver& operator<<(const T& t);
  template <class T> Saver& operator&(const T& t);
};
struct Loader {
  typedef boost::mpl::false_ is_saving;
  typedef boost::mpl::true_ is_loading;
  template <class T> Loader& operator>>(const T& t);
  template <class T> Loader& operator>>(T& t);
  template <class T> Loader& operator&(const T& t);
  template <class T> Loader& operator&(T& t);
};
// member pair
template <class T, int REGISTERED, int DECLARED> struct Member {
  static void go(Saver& s, Loader& l, const T& c, T& t, unsigned v) {
    boost::serialization::access::member_save(s, c, v);
    boost::serialization::access::member_load(l, t, v);
  }
};
template <class T> void member(Saver& s, Loader& l, const T& c, T& t, unsigned v) {
  Member<T, boost::serialization::version<T>::value, T::CLASS_SERIALIZATION_VERSION>::go(s, l, c, t, v);
}
template <class T> struct Free {
  static void go(Saver& s, Loader& l, const T& c, T& t, unsigned v) {
    using namespace boost::serialization;
    save(s, c, v);
    load(l, t, v);
  }
};
template <class T> struct One {
  static void go(Saver& s, Loader& l, T& t, unsigned v) {
    using namespace boost::serialization;
    serialize(s, t, v);
    serialize(l, t, v);
  }
};
template <class T> void all() {
  Saver* s = 0; Loader* l = 0; T* t = 0; const T* c = 0;
  member<T>(*s, *l, *c, *t, 0u);
}
template <class T> void allfree() {
  Saver* s = 0; Loader* l = 0; T* t = 0; const T* c = 0;
  Free<T>::go(*s, *l, *c, *t, 0u);
}
template <class T> void allone() {
  Saver* s = 0; Loader* l = 0; T* t = 0;
  One<T>::go(*s, *l, *t, 0u);
}
template <class T> void allser() {
  Saver* s = 0; Loader* l = 0; T* t = 0;
  boost::serialization::access::serialize(*s, *t, 0u);
  boost::serialization::access::serialize(*l, *t, 0u);
}
using namespace aslam;
using namespace aslam::cameras;
typedef CameraGeometry<PinholeProjection<RadialTangentialDistortion>, GlobalShutter, NoMask> G1;
typedef CameraGeometry<OmniProjection<NoDistortion>, RollingShutter, ImageMask> G2;
void drive() {
  all<PinholeProjection<RadialTangentialDistortion> >();
  all<PinholeProjection<EquidistantDistortion> >();
  all<OmniProjection<RadialTangentialDistortion> >();
  all<ExtendedUnifiedProjection<NoDistortion> >();
  all<DoubleSphereProjection<NoDistortion> >();
  all<DepthProjection<RadialTangentialDistortion> >();
  all<RadialTangentialDistortion>();
  all<EquidistantDistortion>();
  all<FovDistortion>();
  allser<NoDistortion>();
  all<GlobalShutter>();
  all<RollingShutter>();
  allser<NoMask>();
  all<ImageMask>();
  all<G1>();
  all<G2>();
  all<GridCalibrationTargetBase>();
  all<GridCalibrationTargetCheckerboard>();
  all<GridCalibrationTargetCheckerboard::CheckerboardOptions>();
  all<GridCalibrationTargetCirclegrid>();
  all<GridCalibrationTargetCirclegrid::CirclegridOptions>();
  all<GridCalibrationTargetAprilgrid>();
  all<GridCalibrationTargetAprilgrid::AprilgridOptions>();
  all<GridCalibrationTargetObservation>();
  all<GridDetector>();
  all<GridDetector::GridDetectorOptions>();
  all<Frame<G1> >();
  all<Keypoint<2> >();
  all<KeypointIdentifier>();
  all<Landmark>();
  all<Image>();
  all<sm::kinematics::Transformation>();
  all<sm::kinematics::UncertainTransformation>();
  all<sm::kinematics::HomogeneousPoint>();
  all<sm::kinematics::UncertainHomogeneousPoint>();
  all<sm::kinematics::UncertainVector<3> >();
  all<sm::kinematics::UncertainVector<1> >();
  allfree<Eigen::Matrix<double, 3, 3> >();
  allfree<Eigen::Matrix<double, Eigen::Dynamic, 1> >();
  allfree<Eigen::Matrix<double, 1, Eigen::Dynamic> >();
  allfree<Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic> >();
  allfree<cv::Mat>();
  allone<cv::Point2f>();
  allone<cv::KeyPoint>();
  allone<aslam::Time>();
  allone<aslam::WallTime>();
  allone<aslam::Duration>();
}
}

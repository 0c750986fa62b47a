// Instantiates the camera models for the analysis.
#include <aslam_cameras/cameras.hpp>
#include <aslam_cameras/Frame.hpp>
#include <aslam_cameras/Keypoint.hpp>
#include <aslam_backend/backend/DesignVariableAdapter.hpp>
namespace aslam { namespace cameras {
template class PinholeProjection<NoDistortion>;
template class PinholeProjection<RadialTangentialDistortion>;
template class PinholeProjection<EquidistantDistortion>;
template class PinholeProjection<FovDistortion>;
template class OmniProjection<NoDistortion>;
template class OmniProjection<RadialTangentialDistortion>;
template class ExtendedUnifiedProjection<NoDistortion>;
template class DoubleSphereProjection<NoDistortion>;
template class DepthProjection<NoDistortion>;
template class DepthProjection<RadialTangentialDistortion>;
template class CameraGeometry<PinholeProjection<RadialTangentialDistortion>, GlobalShutter, NoMask>;
template class CameraGeometry<OmniProjection<RadialTangentialDistortion>, RollingShutter, NoMask>;
template class CameraGeometry<DoubleSphereProjection<NoDistortion>, GlobalShutter, ImageMask>;
}
template class Frame<cameras::CameraGeometry<cameras::PinholeProjection<cameras::RadialTangentialDistortion>, cameras::GlobalShutter, cameras::NoMask> >;
template class Keypoint<2>;
namespace backend {
template class DesignVariableAdapter<cameras::PinholeProjection<cameras::RadialTangentialDistortion> >;
template class DesignVariableAdapter<cameras::OmniProjection<cameras::RadialTangentialDistortion> >;
template class DesignVariableAdapter<cameras::ExtendedUnifiedProjection<cameras::NoDistortion> >;
template class DesignVariableAdapter<cameras::DoubleSphereProjection<cameras::NoDistortion> >;
template class DesignVariableAdapter<cameras::RadialTangentialDistortion>;
template class DesignVariableAdapter<cameras::EquidistantDistortion>;
template class DesignVariableAdapter<cameras::FovDistortion>;
template class DesignVariableAdapter<cameras::NoDistortion>;
template class DesignVariableAdapter<cameras::GlobalShutter>;
template class DesignVariableAdapter<cameras::RollingShutter>;
}
}

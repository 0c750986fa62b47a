// Instantiations of the templates of aslam_incremental_calibration.
#include <aslam_incremental_calibration/data-structures/VectorDesignVariable.h>
template class aslam::calibration::VectorDesignVariable<3>;
template class aslam::calibration::VectorDesignVariable<Eigen::Dynamic>;

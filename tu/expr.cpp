// Instantiates the templates of aslam_backend_expressions for the analysis.
#include <aslam_backend_expressions/DesignVariableVector.hpp>
#include <aslam_backend_expressions/DesignVariableMappedVector.hpp>
#include <aslam_backend_expressions/GenericScalar.hpp>
#include <aslam_backend_expressions/DesignVariableGenericVector.hpp>
#include <aslam_backend_expressions/DesignVariableUnitQuaternion.hpp>
#include <aslam_backend_expressions/GenericScalarExpression.hpp>
#include <aslam_backend_expressions/GenericScalarExpressionNode.hpp>
#include <aslam_backend_expressions/GenericMatrixExpression.hpp>
#include <aslam_backend_expressions/GenericMatrixExpressionNode.hpp>
#include <aslam_backend_expressions/QuaternionExpression.hpp>
#include <aslam_backend_expressions/VectorExpression.hpp>
#include <aslam_backend_expressions/VectorExpressionNode.hpp>
#include <aslam_backend_expressions/ErrorTermTransformation.hpp>

namespace aslam { namespace backend {
template class DesignVariableVector<3>;
template class DesignVariableMappedVector<3>;
template class GenericScalar<double>;
template class DesignVariableGenericVector<3>;
template class GenericScalarExpression<double>;
template class VectorExpressionNode<3>;
}}

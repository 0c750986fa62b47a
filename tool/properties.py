"""The properties and what the manifest says of each (see mkmanifest.py)."""
NOTES = ('Every check parses the current sources of /repo with the libTooling extractor tool/extract.cpp and decides '
         'its rule on the resulting facts; nothing of /repo is executed. Exit 2 (no answer) means that the sources do not parse or that a class the property is about is gone; code of a form that is not understood is left undecided and counted in the evidence.')
TRUST = (' Trusted: clang 18 parses the sources as the build does; the abstract interpreter lib/engine.py over-approximates '
         'dependences (calls into other libraries depend on all their arguments).')

PROPS = [
 dict(id='K01', title='Reverting a step restores every optimisation variable',
  statement='Every kind of variable that the optimiser can move (points, rotations, vectors, scalars, matrices, transformations, spline coefficients, camera intrinsics, distortion and shutter parameters) returns, when its last update is reverted, to exactly the value it had before that update. Everything it derives from its value and stores next to it (rotation matrices, reciprocal focal lengths, and the like) again belongs to the restored value. An update of a variable of non-zero dimension changes its value.',
  over=['inputs', 'histories'], text='every variable type, every value, every step, every sequence of updates and reverts',
  why='The tests revert a few sampled steps on some variable types and compare with a tolerance; a stale derived member or a member forgotten in one type only shows in a rejected optimiser step.',
  files=['aslam_optimizer/aslam_backend/src/DesignVariable.cpp', 'aslam_optimizer/aslam_backend_expressions/src/RotationQuaternion.cpp',
         'aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/DesignVariableAdapter.hpp',
         'aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp'],
  mech=[('backup taken by updateImplementation, restored by revertUpdateImplementation', 'every subclass of aslam::backend::DesignVariable'),
        ('updateTemporaries', 'camera projections')],
  technique='interprocedural dependence analysis of update;revert per variable class; value numbering by random interpretation of sequences of updates, sets and reverts',
  note='Decides, for every variable class and all values, which stored members depend on what after update;revert. It does not decide numerical equality beyond that dependence.' + TRUST),
 dict(id='K02', title='Variable parameters read back as set; differences use the current value',
  statement='For every kind of optimisation variable, the parameters returned after setting them are those that were set, element for element, and everything derived from them is refreshed. Reading the parameters, and the minimal difference of a variable to a reference value (with or without its Jacobian), are computed from the current value and, for the difference, from the given reference, never from the copy kept for reverting.',
  over=['inputs', 'histories'], text='every variable type, every parameter vector, any preceding history of updates',
  why='Tests call the minimal difference right after construction, where the current and the kept value coincide, and round-trip only a few types.',
  files=['aslam_optimizer/aslam_backend/src/DesignVariable.cpp', 'aslam_optimizer/aslam_backend_expressions/src/MappedRotationQuaternion.cpp',
         'aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/DesignVariableMappedVector.hpp',
         'aslam_optimizer/aslam_backend/src/MarginalizationPriorErrorTerm.cpp'],
  mech=[('getParametersImplementation / setParametersImplementation / minimalDifferenceImplementation', 'every subclass of aslam::backend::DesignVariable')],
  technique='interprocedural dependence analysis of set;get and of difference queries; value numbering by random interpretation of sequences of updates, sets and reverts',
  note='Decides element-wise dependence of the parameters read back, refreshing of derived members and the sources of difference queries, for all values. Not numerical equality.' + TRUST),
 dict(id='K03', title='Camera parameter vectors mean the same in step, read-out, set and Jacobian',
  statement='For every projection, distortion and shutter model, and for every camera composed of them with every choice of which parts are estimated, entry k of the parameter vector denotes one and the same quantity when a step is applied, when the parameters are read, when they are set, and as column k of every intrinsics Jacobian. The vector has exactly as many entries as the reported number of parameters, and the vector of a camera is the concatenation of the vectors of its estimated parts. A Jacobian column is identically zero only for an output that does not depend on that parameter.',
  over=['inputs', 'configurations'], text='every camera model in the library, every choice of estimated parts, every parameter value and point',
  why='Tests differentiate a few camera models at sampled points with all parts estimated; a swapped entry between two parameters that are rarely set apart, or one choice of estimated parts, goes unnoticed.',
  files=['aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp', 'aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/OmniProjection.hpp',
         'aslam_cv/aslam_cameras/src/RadialTangentialDistortion.cpp', 'aslam_cv/aslam_cameras/src/EquidistantDistortion.cpp'],
  mech=[('update / getParameters / setParameters / minimalDimensions / parameterSize', 'every projection, distortion and shutter class'),
        ('euclideanToKeypointIntrinsicsJacobian, homogeneousToKeypointIntrinsicsJacobian, temporalOffsetIntrinsicsJacobian', 'CameraGeometry and its parts')],
  technique='affine-copy and element-wise dependence analysis of every model method; value numbering by random interpretation of sequences of updates, sets and reverts',
  note='Decides index/member bijections and the zero pattern of Jacobians for all values. Does not decide the numerical value of a non-zero Jacobian entry.' + TRUST),
 dict(id='K04', title='Derived constants always belong to the current parameters',
  statement='Whenever a constructor, setter, parameter update, resize, initialisation or load of a camera model, a calibration target or a B-spline is done, every member that is derived from other members (reciprocal focal lengths, field-of-view limits, grid points, basis matrices) has been recomputed from the values those members now have, on every path, and every number of a camera model has a value after construction.',
  over=['inputs', 'histories'], text='every camera model, calibration target and B-spline; every sequence of mutations',
  why='The tests construct a model and project with it; a stale derived constant only shows after a particular sequence of mutations such as loading, resizing or removing a segment, on a particular model.',
  files=['aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/OmniProjection.hpp', 'aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp',
         'aslam_cv/aslam_cameras/src/GridCalibrationTargetCheckerboard.cpp', 'aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp'],
  mech=[('updateTemporaries', 'camera projections'), ('createGridPoints', 'calibration targets'), ('initializeBasisMatrices', 'BSpline')],
  technique='typestate analysis (stale/fresh) of derived members with inferred sources; value numbering by random interpretation of sequences of updates, sets and reverts',
  note='Derived members and their sources are inferred from the code that computes them (union over all methods); decides that they are recomputed after the last change of a source on every path. Not the formula itself.' + TRUST),
 dict(id='K05', title='Whatever is saved to an archive is what load reads back',
  statement='For every serialisable class (camera models, masks, shutters, targets, observations, frames, keypoints, landmarks, transformations, uncertain vectors, times, matrices, images), loading performs the same archive operations, by name, type and order, as saving did for the current version; every saved member is restored from its own entry; no member is forgotten; the version stored with the archive is the one the class declares; and the binary-equality test of a class compares every saved member and nothing that load does not restore.',
  over=['inputs'], text='every serialisable class, every value, every path through save and load',
  why='Round-trip tests compare with the class\'s own equality test, so a member forgotten in both, or compared with itself, passes; non-default values are not covered either.',
  files=['aslam_cv/aslam_cameras/include/aslam_cameras/cameras/CameraGeometry.hpp', 'aslam_cv/aslam_cameras/include/aslam_cameras/implementation/Frame.hpp',
         'aslam_cv/aslam_cameras/include/aslam_cameras/cameras/GridCalibrationTargetObservation.hpp', 'Schweizer-Messer/sm_eigen/include/sm_eigen/serialization.hpp',
         'Schweizer-Messer/sm_kinematics/include/sm_kinematics/Transformation.hpp'],
  mech=[('save / load / CLASS_SERIALIZATION_VERSION / isBinaryEqual', 'every serialisable class')],
  technique='abstract interpretation of save/load over archive operations; must-compare analysis of equality tests',
  note='Decides order, names, types, destinations and versions for all values; boost archives themselves and the bytes they write are trusted.' + TRUST),
 dict(id='K06', title='Expression nodes hand out derivatives for what they are a function of',
  statement='For every node of the expression library (rotation, transformation, Euclidean, homogeneous, scalar, vector, matrix and generic expressions): a node reports exactly the design variables of all the sub-expressions its value is computed from; when asked for Jacobians, it passes a contribution to each of those sub-expressions; the overload that takes an outer chain-rule factor passes exactly that factor multiplied on the left of what the plain overload passes; for products and quotients of scalars, vectors and matrix-vector pairs, what is passed to an operand is the derivative of the value with respect to this operand; and Jacobians are computed from the values that the node was last evaluated at.',
  over=['inputs', 'configurations'], text='every expression node class, every composition of expressions, every value of the design variables',
  why='The expression tests differentiate numerically a few expressions at a few points with the chain-rule factor equal to the identity; an operand left out, a factor dropped or two operands exchanged in one overload shows only in composed expressions.',
  files=['aslam_optimizer/aslam_backend_expressions/src/RotationExpressionNode.cpp', 'aslam_optimizer/aslam_backend_expressions/src/EuclideanExpressionNode.cpp',
         'aslam_optimizer/aslam_backend_expressions/src/ScalarExpressionNode.cpp', 'aslam_optimizer/aslam_backend_expressions/src/TransformationExpressionNode.cpp',
         'aslam_optimizer/aslam_backend_expressions/src/HomogeneousExpressionNode.cpp'],
  mech=[('evaluateImplementation / evaluateJacobiansImplementation / getDesignVariablesImplementation', 'every *ExpressionNode class')],
  technique='abstract interpretation of node operand flows; symbolic value numbering of Jacobian products',
  note='Operand coverage is decided for every node; the chain rule for the nodes whose products are understood by value numbering (counted in the evidence); the derivative itself only for product and quotient nodes.' + TRUST),
 dict(id='K07', title='Error terms know the variables they depend on, with the right Jacobians',
  statement='Every error term (reprojection, simple and covariance reprojection, Euclidean, gyroscope, accelerometer, transformation prior, marginalisation prior) registers, in every constructor, the design variables of exactly those expressions and cameras to which its Jacobian function hands a contribution, and these include everything its error is computed from. Every constructor sets the error weight from the weight parameters it is given. Evaluating the error stores it and returns its square under that weight. The error is the difference between prediction and measurement (for accelerometers and gyroscopes the prediction from rotation, acceleration, gravity, angular velocity and acceleration, lever arms, scale and misalignment matrices and bias; for a transformation prior the pose relative to the prior), and the Jacobian handed to an expression is the derivative of the stored error, sign included; a camera design variable gives each of its parts (projection, distortion) minus the Jacobian of that part, at the point that the error projects, exactly when that part is active.',
  over=['inputs', 'configurations'], text='every error term class, every constructor, every path, every measurement and value of the variables',
  why='The calibration error terms of kalibr have no unit tests, and the reprojection tests cover one constructor; a variable that is not registered, or a Jacobian of the wrong sign, only slows or biases the optimisation.',
  files=['aslam_offline_calibration/kalibr/src/EuclideanError.cpp', 'aslam_offline_calibration/kalibr/src/GyroscopeError.cpp', 'aslam_offline_calibration/kalibr/src/AccelerometerError.cpp',
         'aslam_cv/aslam_cv_error_terms/include/aslam_cv_error_terms/implementation/ReprojectionError.hpp',
         'aslam_cv/aslam_cv_error_terms/include/aslam_cv_error_terms/implementation/SimpleReprojectionError.hpp',
         'aslam_cv/aslam_cv_backend/include/aslam_cv_backend/implementation/CameraDesignVariable.hpp',
         'aslam_optimizer/aslam_backend/src/MarginalizationPriorErrorTerm.cpp', 'aslam_optimizer/aslam_backend_expressions/src/ErrorTermTransformation.cpp'],
  mech=[('evaluateErrorImplementation / evaluateJacobiansImplementation / constructors', 'every concrete aslam::backend::ErrorTerm'),
        ('evaluateJacobians / getDesignVariables', 'CameraDesignVariable')],
  technique='abstract interpretation of registrations and contributions; algebraic value numbering by random interpretation with differentiation rules',
  note='Registration, contributions and weights are decided on every path of every constructor; the derivative where the error is made of expressions, or is linear in an expression value or in the projection of one.' + TRUST),
 dict(id='K08', title='Errors, Jacobians and Hessians carry the same weight',
  statement='For every error term, with S the square root of the information matrix last set (invR = S S^T), e the stored error and w the M-estimator weight at the raw squared error: the squared error is |S^T e|^2; the reported cost is w times it, or the raw one when M-estimators are off; the weighted error is sqrt(w) S^T e; the weighted Jacobians are sqrt(w) S^T J times the scaling of their own variable; and the Hessian and right-hand side are accumulated from exactly these (sqrt(w) S, e and scaled Jacobians). Without M-estimators w is 1. Evaluating Jacobians starts from an empty container.',
  over=['inputs', 'configurations'], text='every error term dimension, fixed and dynamic, every error, weight, M-estimator and scaling',
  why='The tests compare Jacobians with finite differences for identity weights and scaling 1, mostly without M-estimators; the three consumers (QR, Cholesky, dense Hessian) are never compared with a robust weight and a scaling.',
  files=['aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/ErrorTerm.hpp', 'aslam_optimizer/aslam_backend/src/ErrorTermDs.cpp',
         'aslam_optimizer/aslam_backend/src/ErrorTerm.cpp', 'aslam_optimizer/aslam_backend/src/JacobianContainer.cpp'],
  mech=[('getWeightedError / getWeightedJacobians / buildHessianImplementation / evaluateChiSquaredError', 'ErrorTermFs, ErrorTermDs'),
        ('evaluateHessian / applyChainRule', 'JacobianContainer')],
  technique='symbolic value numbering of the weighting functions against their algebraic specification',
  note='Algebraic identity of terms for all values, per value of the M-estimator flag. The Cholesky factorisation behind the square root is trusted.' + TRUST),
 dict(id='K09', title='Optimizers keep steps that do not raise the cost, and only those',
  statement='On every path through every optimizer loop (Optimizer Gauss-Newton, Levenberg-Marquardt and dog leg, Optimizer2 with each trust region policy): design variables are reverted only while an update is pending, once per update; a step that lowered the cost is not reverted; except under a policy that never reverts, a step is kept only when the cost was found not to have risen; no step is applied after the linear solver failed; the step applied was computed from the linearisation at the current design variables; the cost change a policy judges is the one made by its last step; and the final cost reported is the cost of the design variables as they are left.',
  over=['histories', 'inputs'], text='every sequence of accepted and rejected steps and of solver failures, every optimizer and policy',
  why='The optimizer tests run small well-behaved problems in which hardly any step is rejected and the linear solver never fails; what happens after a rejected step followed by a failed solution is not reached.',
  files=['aslam_optimizer/aslam_backend/src/Optimizer.cpp', 'aslam_optimizer/aslam_backend/src/Optimizer2.cpp', 'aslam_optimizer/aslam_backend/src/TrustRegionPolicy.cpp',
         'aslam_optimizer/aslam_backend/src/LevenbergMarquardtTrustRegionPolicy.cpp', 'aslam_optimizer/aslam_backend/src/DogLegTrustRegionPolicy.cpp', 'aslam_optimizer/aslam_backend/src/GaussNewtonTrustRegionPolicy.cpp'],
  mech=[('optimize / optimizeDogLeg', 'Optimizer, Optimizer2'), ('solveSystem / solveSystemImplementation', 'TrustRegionPolicy and subclasses')],
  technique='typestate analysis with symbolic costs over the optimizer loops and trust region policies',
  note='Follows which state of the variables a cost, a linear system and a step belong to, for all paths. The predicted decrease is taken to be positive, so that a gain ratio has the sign of the cost change. Convergence is not decided.' + TRUST),

 dict(id='K10', title='Camera Jacobians are the derivatives of the projections',
  statement='For every projection combined with every distortion: each entry of the Jacobian that euclideanToKeypoint, homogeneousToKeypoint, keypointToEuclidean, keypointToHomogeneous, distort, undistort and the intrinsics and distortion Jacobian functions write is the partial derivative of the value that the function without a Jacobian computes, in the order of the point or of the parameter vector; the overload with a Jacobian computes the same value and the same validity as the one without; where undistortion has a closed form it inverts distortion; and a Jacobian handed in without a size is given one before it is written.',
  over=['inputs', 'configurations'], text='every projection and distortion model and all their combinations, all parameters, all points off the limits of the small-value branches',
  why='The tests compare with finite differences at sampled points, for a few combinations and default parameters (symmetric focal lengths, alpha and beta near 1); a wrong entry that is small or vanishes for those is not seen, and validity is only sampled.',
  files=['aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/PinholeProjection.hpp', 'aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/OmniProjection.hpp',
         'aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp', 'aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/DoubleSphereProjection.hpp',
         'aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/FovDistortion.hpp', 'aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/EquidistantDistortion.hpp',
         'aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/RadialTangentialDistortion.hpp'],
  mech=[('euclideanToKeypoint, keypointToEuclidean and the *Jacobian functions', 'every projection'), ('distort, undistort, distortParameterJacobian', 'every distortion')],
  technique='path-wise algebraic value numbering by random interpretation with differentiation rules',
  note='Identities of algebraic terms, per path; equality of value numbers in a field of 2^61-1 elements, so a false equality has negligible probability and a true one is never refuted. The iterative undistort of radtan and equidistant is taken to invert distort; rounding is not considered. Small-value branches: the Jacobian has to be the derivative of the value of the same branch or the general formula.' + TRUST),
 dict(id='K11', title='Projecting and back-projecting agree for every camera',
  statement='For every projection with every distortion: the ray of the keypoint of a point passes through the point; the homogeneous variants give the point, the keypoint and the validity of the Euclidean ones (of the opposite point for negative scale, a direction when back-projecting); the visibility tests say what the projection says. For every camera, a keypoint is valid only if the mask allows it, and the type-erased camera interface (vs... functions) gives the result of the typed function it stands for.',
  over=['inputs', 'configurations'], text='every camera class, all parameters, all points and keypoints off the small-value branches, every path',
  why='The round-trip tests sample random keypoints for default parameters and compare with a tolerance; negative homogeneous scale, masked pixels and the type-erased functions are hardly sampled at all.',
  files=['aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/CameraGeometry.hpp', 'aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/DoubleSphereProjection.hpp',
         'aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/OmniProjection.hpp', 'aslam_cv/aslam_cameras/include/aslam_cameras/cameras/implementation/ExtendedUnifiedProjection.hpp'],
  mech=[('keypointToEuclidean after euclideanToKeypoint', 'every projection'), ('vsEuclideanToKeypoint etc.', 'CameraGeometry'), ('ImageMask::isValid', 'CameraGeometry')],
  technique='path-wise algebraic value numbering of compositions by random interpretation',
  note='Algebraic identities on the paths where both functions report success; square roots are taken with either sign and an obligation has to hold for one consistent choice. The iterative undistort is taken to invert distort. The reported visibility of the type-erased interface without the mask is the documented behaviour of the library, not judged.' + TRUST),

 dict(id='K12', title='Rotation algebra agrees across its representations',
  statement='For all rotations by less than half a turn, and unit quaternions: quaternion, rotation matrix, axis-angle and Euler-angle conversions represent the same rotation in both directions (r2quat for every matrix branch); the quaternion product, inverse, rotation of vectors and the matrix forms quatPlus/quatOPlus agree with the products of rotation matrices; updateQuat, quatS, quatInvS, the exponential and logarithm Jacobians, parametersToSMatrix and angularVelocityAndJacobian are the derivatives of the corresponding maps; qslerp and lerp interpolate from the first to the second argument and do not depend on the sign of a quaternion. The series used for small values have the terms of the expansion of the general formula and are used only where they are accurate.',
  over=['inputs'], text='all rotations, every branch of every conversion, all five parametrisations of rotations',
  why='The tests sample random quaternions and angles: rare branches (r2quat by largest diagonal entry, small-angle series) are hardly reached, and a wrong series term is below any tolerance a sampled comparison can use.',
  files=['Schweizer-Messer/sm_kinematics/src/quaternion_algebra.cpp', 'Schweizer-Messer/sm_kinematics/src/rotations.cpp', 'Schweizer-Messer/sm_kinematics/src/RotationVector.cpp',
         'Schweizer-Messer/sm_kinematics/src/EulerAnglesZYX.cpp', 'Schweizer-Messer/sm_kinematics/src/EulerRodriguez.cpp'],
  mech=[('quat2r, r2quat, qplus, axisAngle2quat, quat2AxisAngle, quatExpJacobian, qslerp', 'sm::kinematics'), ('RotationalKinematics', 'the five parametrisations')],
  technique='path-wise algebraic value numbering by random interpretation with differentiation rules and power series',
  note='Identities of algebraic terms on every path; rotations by exactly half a turn and the singularities of the parametrisations are left out. Rounding is not considered, except that a series branch must have an error of less than 1e-9 (1e-5 in single precision) at its threshold.' + TRUST),
 dict(id='K13', title='Transformations and their covariances compose to first order',
  statement='Transformations, transformation matrices and homogeneous points obey the algebra of rigid motions: composition, inversion, application to points and vectors, boxPlus/boxMinus/boxTimes, Euler-angle parameters, the setters and constructors. The Jacobians returned by transformationAndJacobian, inverseTransformationAndJacobian, toHomogeneousAndJacobian, toEuclideanAndJacobian, normalizeAndJacobian are the derivatives of their values with respect to oplus. The covariance an operation on uncertain transformations or points gives to its result is the one obtained by propagating those of its operands to first order, and UOplus/setUOplus, U_av_form/setUOplus give back what was set. Interpolation goes from the first to the second transformation.',
  over=['inputs'], text='all transformations, points, covariances, and every combination of certain and uncertain operands',
  why='The tests compare a few operations with finite differences or with sampled covariances; the operators on uncertain points and the mixed certain/uncertain overloads are not tested at all.',
  files=['Schweizer-Messer/sm_kinematics/src/Transformation.cpp', 'Schweizer-Messer/sm_kinematics/src/UncertainTransformation.cpp', 'Schweizer-Messer/sm_kinematics/src/transformations.cpp',
         'Schweizer-Messer/sm_kinematics/src/HomogeneousPoint.cpp', 'Schweizer-Messer/sm_kinematics/src/UncertainHomogeneousPoint.cpp', 'Schweizer-Messer/sm_kinematics/src/homogeneous_coordinates.cpp'],
  mech=[('operator*, inverse, oplus, setUOplus', 'Transformation, UncertainTransformation'), ('operator+, operator-, normalize, U3', 'HomogeneousPoint, UncertainHomogeneousPoint'), ('boxPlus, boxTimes, toTEuler, fromTEuler', 'transformations.cpp')],
  technique='path-wise algebraic value numbering by random interpretation with differentiation rules',
  note='Identities of algebraic terms on every path. Covariances are symmetric; operands are independent. Rounding is not considered.' + TRUST),
 dict(id='K14', title='B-splines: values, derivatives, Jacobians and integrals of the curve',
  statement='For every order from 2 to 6, all increasing knots and all coefficients: BSpline evaluates to the B-spline of its knots (Cox-de Boor) between the knots, at the knots and at the end of its interval; evalD gives its time derivatives; the Jacobian and coefficient indices of evalDAndJacobian, Phi, the local and segment coefficient vectors and their indices belong together and to the segment of the time; setting local coefficients changes these only; getLocalBiVector and getLocalCumulativeBiVector are the (cumulative) basis functions; evalIntegral is the integral between any two times, also backwards; the segment and curve quadratic integrals (dense, diagonal and sparse) are the integrals of the weighted squared derivative; initSpline, initConstantSpline, addCurveSegment, addCurveSegment2 and removeCurveSegment give curves with the requested ends, interval and values and leave the rest as it was. Decreasing knots, numbers of knots or coefficients that do not fit, and times outside the interval are refused.',
  over=['inputs', 'configurations', 'histories'], text='orders 2 to 6, all strictly increasing knots, all coefficients and times; sequences of initialising, adding and removing segments',
  why='The tests evaluate uniform knots of a few orders at sampled times and compare Jacobians with finite differences at a tolerance; non-uniform knots, segment boundaries, the end of the interval, higher derivatives and partial integrals are hardly sampled.',
  files=['aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp', 'aslam_nonparametric_estimation/aslam_bsplines/include/aslam_bsplines/BSpline.hpp'],
  mech=[('evalD, evalDAndJacobian, Phi, M, computeU', 'BSpline'), ('evalIntegral, segmentQuadraticIntegral, curveQuadraticIntegralSparse', 'BSpline'), ('initSpline, addCurveSegment, removeCurveSegment, setKnotsAndCoefficients', 'BSpline')],
  technique='path-wise algebraic value numbering by random interpretation against the Cox-de Boor recursion; sign analysis of linear forms in positive gaps',
  note='Identities of algebraic terms on every path for one to three segments and vector dimension 1 or 2 (the functions do not depend on either otherwise). Repeated knots, the least-squares initialisations (initSpline2, initSpline3, initSplineSparse) and rounding are not considered.' + TRUST),
 dict(id='K15', title='Pose splines: poses, velocities and Jacobians of one motion',
  statement='For all knots, coefficients and times, BSplinePose evaluates to the pose whose position and rotation parameters are the value of the spline: transformation, inverse transformation, orientation and inverse orientation agree; linear velocity and acceleration are time derivatives of the position and are expressed in the body frame by the BodyFrame variants; angularVelocity is the angular velocity of the orientation, in the world or the body frame; the angular acceleration is the derivative of the angular velocity; every ...AndJacobian variant gives the same value as the plain one, whether or not a Jacobian is asked for, and its Jacobian is the derivative of that value with respect to the coefficients it names; initPoseSpline and addPoseSegment pass through the given poses, and curveValueToTransformation and transformationToCurveValue are inverse to each other.',
  over=['inputs', 'histories'], text='all increasing knots, coefficients and times',
  why='The tests compare Jacobians with finite differences at a tolerance for a few sampled curves; which of the angular quantities belong together, signs, frames and the combination with missing Jacobian arguments are not tested.',
  files=['aslam_nonparametric_estimation/aslam_bsplines/src/BSplinePose.cpp'],
  mech=[('transformationAndJacobian, inverseTransformationAndJacobian, orientationAndJacobian', 'BSplinePose'), ('angularVelocityBodyFrameAndJacobian, linearAccelerationAndJacobian', 'BSplinePose'), ('initPoseSpline, addPoseSegment', 'BSplinePose')],
  technique='path-wise algebraic value numbering by random interpretation with differentiation rules',
  note='Identities of algebraic terms on every path, for a spline of order 3 with Euler angles; that the spline functions do the same for the other orders is K14, that the other rotation parametrisations behave alike is K12.' + TRUST),
 dict(id='K16', title='Expressions: Jacobians are derivatives, operators give the operation',
  statement='For every expression node (rotations, transformations, Euclidean and homogeneous points, scalars, matrices, generic vectors) and every way to construct it: the Jacobians that evaluateJacobians hands to its operands, with and without a chain-rule matrix, are the derivatives of its value; a constant gives the value it was made from, no Jacobian and no design variable. For every design variable that is an expression: the Jacobian is the derivative of its value with respect to update(), a zero step changes nothing, minimalDifference after an update gives back that update and its Jacobian is the derivative of the difference. Every operator and conversion of the expression classes gives an expression whose value (by every function that returns it) is that operation on the values of its operands.',
  over=['inputs', 'configurations'], text='all values of all operands, every node class and every operator with every combination of operand types',
  why='The tests compare Jacobians with finite differences for sampled expressions at a tolerance; operators on mixed types, chain-rule overloads of rarely used nodes, and the meaning of the value itself are hardly sampled.',
  files=['aslam_optimizer/aslam_backend_expressions/src/RotationExpressionNode.cpp', 'aslam_optimizer/aslam_backend_expressions/src/TransformationExpressionNode.cpp', 'aslam_optimizer/aslam_backend_expressions/src/EuclideanExpressionNode.cpp',
         'aslam_optimizer/aslam_backend_expressions/src/HomogeneousExpressionNode.cpp', 'aslam_optimizer/aslam_backend_expressions/src/ScalarExpressionNode.cpp', 'aslam_optimizer/aslam_backend_expressions/src/MatrixExpression.cpp'],
  mech=[('evaluateJacobiansImplementation', 'every ...ExpressionNode class'), ('updateImplementation, minimalDifferenceImplementation', 'the design variables'), ('operator*, operator+, cross, inverse, toHomogeneousExpression', 'the ...Expression classes')],
  technique='path-wise algebraic value numbering by random interpretation with differentiation rules',
  note='Identities of algebraic terms per node with arbitrary operands; that a tree of nodes is differentiated correctly follows from this node by node. The value of a node is evaluated before its Jacobians, as the error terms do. Rotations are disturbed from the left by (1 - phi^x), as in the library. Rounding is not considered.' + TRUST),
 dict(id='K17', title='Spline design variables and expressions belong to their curve',
  statement='The design variables of a spline (BSplinePoseDesignVariable, BSplineDesignVariable, EuclideanBSplineDesignVariable) are the coefficient vectors of its curve, one each: updating variable i moves coefficient vector i by the step and nothing else, reverting restores it - also after addSegment and removeSegment, after which the remaining variables keep their coefficients. The expressions of a spline at a time (transformation, orientation, position, velocities, accelerations, derivatives) have the value of the curve at that time; the Jacobians they hand to the design variables, with and without a chain-rule matrix, are the derivatives of that value, no variable that the value depends on is left out of the Jacobians, of getDesignVariables or of the active indices. transformationAtTime, whose time is estimated, does the same for every time within its margins, and its Jacobian with respect to the time is the derivative.',
  over=['inputs', 'configurations', 'histories'], text='all increasing knots, coefficients, times, segments, margins; adding and removing segments',
  why='The tests compare a few expressions with finite differences at sampled times at a tolerance; times in other segments than the first, margins that do not begin at the first coefficient and the memory of the variables after the curve grew are not tested.',
  files=['aslam_nonparametric_estimation/aslam_splines/src/BSplineExpressions.cpp', 'aslam_nonparametric_estimation/aslam_splines/src/BSplinePoseDesignVariable.cpp', 'aslam_nonparametric_estimation/aslam_splines/src/EuclideanBSplineDesignVariable.cpp',
         'aslam_nonparametric_estimation/aslam_splines/include/aslam_splines/implementation/BSplineDesignVariable.hpp', 'aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions/implementation/DesignVariableMappedVector.hpp'],
  mech=[('evaluateJacobiansImplementation, getDesignVariablesImplementation', 'the BSpline...ExpressionNode classes, TransformationTimeOffsetExpressionNode'), ('addSegment, removeSegment, designVariable, transformationAtTime', 'BSplinePoseDesignVariable, BSplineDesignVariable'), ('updateMap', 'DesignVariableMappedVector')],
  technique='path-wise algebraic value numbering by random interpretation with differentiation rules; memory cells tracked by identity',
  note='Identities of algebraic terms for splines of order 3 with two or three segments; that the curve itself is right for every order is K14 and K15.' + TRUST),
 dict(id='K18', title='Calibration targets and observations agree on the corners',
  statement='For every size and spacing of a checkerboard, circle grid (symmetric or asymmetric) and Aprilgrid: the points are those of the pattern, counted row by row, and point, gridPoint, gridCoordinatesToPoint, pointToGridCoordinates, points and getPointDataPointer agree. An observation reports exactly the corners that were updated and not removed since its target was set, and the lists of indices, target points, image points and reprojections it returns belong together, in the same order. GridDetector stores every valid corner of computeObservation at its index, gives the observation the estimated pose, and removes exactly the corners whose reprojection error exceeds mean + threshold * standard deviation and the minimum. The checkerboard and circle targets look for a pattern of cols x rows; the Aprilgrid stores the four corners of tag i at the four corners of tag i in the grid, uses no tag that is bad, does not belong to the target or has a corner too close to the border, needs minTagsForValidObs of the others, and marks corners which moved too far in the refinement as not observed. The design variables of a target are its points, one each.',
  over=['inputs', 'configurations', 'histories'], text='all spacings, visible tags, valid corners, reprojection errors; sequences of updates and removals',
  why='There are no tests of the targets; a detection needs an image, and the cases of partly visible targets, foreign tags, outliers and re-used observations do not arise in any test.',
  files=['aslam_cv/aslam_cameras/src/GridCalibrationTargetBase.cpp', 'aslam_cv/aslam_cameras/src/GridCalibrationTargetCheckerboard.cpp', 'aslam_cv/aslam_cameras/src/GridCalibrationTargetCirclegrid.cpp',
         'aslam_cv/aslam_cameras_april/src/GridCalibrationTargetAprilgrid.cpp', 'aslam_cv/aslam_cameras/src/GridCalibrationTargetObservation.cpp', 'aslam_cv/aslam_cameras/src/GridDetector.cpp',
         'aslam_cv/aslam_cv_backend/src/GridCalibrationTargetDesignVariableContainer.cpp'],
  mech=[('createGridPoints, gridPoint, computeObservation', 'the targets'), ('updateImagePoint, getCornersIdx, getCornerReprojection', 'GridCalibrationTargetObservation'), ('findTarget, findTargetNoTransformation', 'GridDetector')],
  technique='path-wise algebraic value numbering by random interpretation; containers and memory cells tracked by identity',
  note='Grids of two to six rows and columns with symbolic spacings (the functions do not depend on the size otherwise). What the pattern detectors of OpenCV and the AprilTag library find in an image is not judged.' + TRUST),
 dict(id='K19', title='Linear systems are those of the problem, whatever the solver and the threads',
  statement='For every problem, number of threads and order in which they run: evaluateError evaluates every error term once, returns the sum of the squared errors and stacks the negative weighted errors at their rows, and can be asked again. buildSystem of each linear solver (dense QR, sparse Cholesky, sparse QR, block Cholesky) holds exactly the weighted Jacobians of the error terms at the rows of the term and the columns of the variable (or J^T J by blocks), with J^T e as right-hand side and rhsJtJrhs = |J J^T e|^2, nothing of an earlier system left. solveSystem hands the library that matrix, with the given or constant conditioner below it (or its squares on the diagonal of the Hessian), returns the solution of the library, scaled back if columns were scaled to length one, reports failure, takes the conditioner out again and frees what the library gave. Products, entries, appended, updated and removed diagonals of CompressedColumnMatrix agree with the dense matrix it stands for, and so do sums, chain rules and dense forms of JacobianContainer. M-estimators give the weight of their formula. Optimizer2 numbers active variables and error terms one after the other, applies to each variable its part of the step times its scaling, and reverts every one.',
  over=['inputs', 'schedules', 'histories'], text='all entries, weights, conditioners; threads run at once or at the end in reverse order; repeated builds and solves, failures in between',
  why='Tests solve a few systems with random numbers and one thread and compare at a tolerance; failures, repeated use, conditioners and partial problems do not arise.',
  files=['aslam_optimizer/aslam_backend/src/LinearSystemSolver.cpp', 'aslam_optimizer/aslam_backend/src/DenseQrLinearSystemSolver.cpp', 'aslam_optimizer/aslam_backend/src/SparseCholeskyLinearSystemSolver.cpp',
         'aslam_optimizer/aslam_backend/src/SparseQrLinearSystemSolver.cpp', 'aslam_optimizer/aslam_backend/src/BlockCholeskyLinearSystemSolver.cpp', 'aslam_optimizer/aslam_backend/src/JacobianContainer.cpp',
         'aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/CompressedColumnMatrix.hpp', 'aslam_optimizer/aslam_backend/include/aslam_backend/backend/implementation/Cholmod.hpp',
         'aslam_optimizer/aslam_backend/src/MEstimatorPolicies.cpp', 'aslam_optimizer/aslam_backend/src/Optimizer2.cpp'],
  mech=[('buildSystem, solveSystem', 'the linear solvers'), ('evaluateError, setupThreadedJob', 'LinearSystemSolver'), ('appendJacobians, pushDiagonalBlock', 'CompressedColumnMatrix'), ('applyStateUpdate', 'Optimizer2')],
  technique='path-wise algebraic value numbering by random interpretation; containers and memory cells tracked by identity, CHOLMOD, SuiteSparseQR and the threads replaced by what they promise',
  note='Problems of four variables and five error terms with symbolic Jacobians, 0 to 8 threads. The factorisations themselves (CHOLMOD, SuiteSparseQR, Eigen, the solvers of SparseBlockMatrix) are taken for granted; interleavings inside a thread job are not followed (each job writes its own cells).' + TRUST),
 dict(id='N01', title='The optimiser converges to a minimum of the cost',
  statement='Started close enough to a minimum, the optimiser reaches it within its iteration limit and reports convergence only there.',
  over=['inputs'], text='all problems and starting values',
  why='Tests run a few small problems.',
  files=['aslam_optimizer/aslam_backend/src/Optimizer2.cpp'], mech=[('optimize', 'Optimizer2')],
  na='Convergence is about the values of the cost along a run, which no static argument bounds; what is decided from the source is the protocol of the loops (K09), the derivatives (K06, K07, K10, K16) and the weights (K08).'),
 dict(id='N02', title='Undistortion without a closed form is accurate to its tolerance',
  statement='The iterative undistortions (equidistant, radial-tangential) converge to the inverse of the distortion for every point of the image.',
  over=['inputs'], text='all distortion parameters and points',
  why='Tests sample a few points of one parameter set.',
  files=['aslam_cv/aslam_cameras/include/aslam/cameras/implementation/EquidistantDistortion.hpp'], mech=[('undistort', 'EquidistantDistortion, RadialTangentialDistortion')],
  na='Convergence of a Newton iteration depends on runtime values; K10 and K11 take the iteration as the inverse of distort and decide everything around it.'),
 dict(id='N03', title='Detected corners lie on the corners of the image',
  statement='The image points of an observation are those of the corners of the target in the image, to sub-pixel accuracy.',
  over=['inputs'], text='all images',
  why='There is no test with images.',
  files=['aslam_cv/aslam_cameras_april/src/GridCalibrationTargetAprilgrid.cpp', 'aslam_offline_calibration/ethz_apriltag2/src/TagDetector.cc'], mech=[('computeObservation', 'the targets'), ('extractTags', 'TagDetector')],
  na='A property of pictures and of thresholds on grey values; K18 decides the bookkeeping around the detectors.'),
 dict(id='N04', title='Least-squares spline initialisation approximates the data',
  statement='A spline initialised from samples by least squares stays within a bound given by the noise and the spacing of the knots.',
  over=['inputs'], text='all sampled curves',
  why='Tests compare a few curves at a tolerance.',
  files=['aslam_nonparametric_estimation/aslam_bsplines/src/BSpline.cpp'], mech=[('initSpline2, initSpline3, initSplineSparse', 'BSpline'), ('initPoseSplineSparse', 'BSplinePose')],
  na='The distance between a least-squares fit and its data is a matter of numerical values and of the linear solver; interpolating initialisations are decided by K14 and K15.'),
]

prop('T01', 'Timing statistics equal the statistics of the recorded samples',
 'After any sequence of recorded samples the reported count, sum, mean, minimum and maximum are those of all samples, and the rolling mean and variance are those of the most recent samples up to the window size.',
 ['histories'], 'every sequence of real-valued samples, including negative ones and ones longer than the window',
 ['msf_timing/include/msf_timing/Timer.h'], [('accumulator', 'Accumulator::Add and its queries')],
 W + 'it cannot vary the sample values or pass the window boundary.')
prop('T02', 'Each timer tag owns one statistic that counts its own intervals only',
 'A tag keeps one handle for ever and distinct tags have distinct handles that lead back to their tags; every completed start-stop interval adds exactly one sample with the elapsed seconds to the statistics of its own tag and to no other, and a timer constructed stopped adds none; queries by handle and by tag agree, and after a reset all tags are forgotten and statistics start afresh.',
 ['histories'], 'every interleaving of timers over several tags and every duration',
 ['msf_timing/include/msf_timing/Timer.h', 'msf_timing/src/Timer.cc'], [('registry', 'Timing::GetHandle/GetTag/AddTime/Reset'), ('timer', 'Timer::Start/Stop/~Timer')],
 W + 'it uses two tags and cannot control durations.')
prop('C01', 'The time-ordered buffer is strictly sorted with one element per time',
 'Whatever the order of insertion, iterating the buffer of states or measurements visits each stored element once in strictly ascending time; of several elements with the same time the first inserted is kept and the others are discarded; first, last and size reflect exactly the stored elements, and an empty buffer answers with the distinguished invalid element.',
 ['histories'], 'every insertion order and every pattern of time stamps, equal ones included',
 ['msf_core/include/msf_core/msf_sortedContainer.h'], [('insertion', 'SortedContainer::Insert')], W + 'the buffer is never executed.')
prop('C02', 'Buffer lookups return the element nearest in the requested direction',
 'A lookup by time returns the element with exactly that time or the invalid element; the after-lookup returns the earliest element strictly later (or invalid), the before-lookup the latest element strictly earlier (falling back to the first element), and the closest-lookup an element at minimal time distance; lookups never modify the buffer.',
 ['inputs', 'histories'], 'every buffer content and every query time, inside, between, before and after the stored times',
 ['msf_core/include/msf_core/msf_sortedContainer.h'], [('lookups', 'GetClosest*, GetIterator*, GetValueAt')], W + 'the buffer is never executed.')
prop('C03', 'Trimming and re-timing a buffer lose no element they should keep',
 'Trimming by age removes only elements older than the age relative to the newest, keeps at most one older element and leaves the rest in order; moving an element to a new unused time makes it available under that time only and leaves all other elements untouched, and asking to move an unknown time changes nothing and answers the closest element.',
 ['inputs', 'histories'], 'every buffer content, age, and pair of old and new times',
 ['msf_core/include/msf_core/msf_sortedContainer.h'], [('trimming', 'ClearOlderThan'), ('re-timing', 'UpdateTime')], W + 'the buffer is never executed.')
prop('K01', 'State prediction integrates the strapdown equations and keeps unit attitude',
 'Predicting the state over one IMU interval carries biases and all non-propagated states over unchanged, integrates velocity with the average of the gravity-compensated accelerations rotated into the world at both ends and position with the average velocity, and advances the attitude by the fourth-order quaternion exponential of the mean bias-compensated rate plus its first-order correction for a changing rate, normalised to unit length.',
 ['inputs'], 'every state, every pair of IMU readings and every positive interval within the bounds',
 ['msf_core/include/msf_core/implementation/msf_core_inl.h'], [('prediction', 'MSF_Core::PropagateState')], W + 'no filter code is executed.')
prop('K02', 'Covariance prediction is F P F^T + Q with the linearised strapdown dynamics',
 'Predicting the covariance over one IMU interval applies the discrete transition of the linearised error dynamics (position, velocity, attitude and both biases; identity and uncoupled for every other state) to the previous covariance from both sides and adds the process noise; the older covariance is untouched.',
 ['inputs'], 'every state, IMU reading, interval and symmetric covariance within the bounds',
 ['msf_core/include/msf_core/implementation/msf_core_inl.h', 'msf_core/include/msf_core/implementation/calcQCore.h'], [('covariance prediction', 'MSF_Core::PredictProcessCovariance'), ('transition', 'Fd assembly')], W + 'no filter code is executed.')
prop('M01', 'A measurement update is the optimal (Kalman) update',
 'Applying a measurement with Jacobian H, residual r and noise R corrects the state by K r and replaces the covariance by (I-KH)P(I-KH)^T + K R K^T, with K = P H^T (H P H^T + R)^-1, for every size of measurement and for fixed and run-time sized matrices; the resulting covariance is symmetric.',
 ['inputs'], 'every covariance, Jacobian, residual and noise within the bounds',
 ['msf_core/include/msf_core/implementation/msf_measurement_inl.h'], [('update', 'MSF_MeasurementBase::CalculateAndApplyCorrection')], W + 'no filter code is executed.')
prop('M02', 'Outlier gate rejects exactly the measurements beyond the Mahalanobis threshold',
 'With the gate enabled a measurement whose normalised innovation r^T S^-1 r (S = H P H^T + R) exceeds the threshold leaves state and covariance untouched, and every other measurement is applied as if there were no gate; with the gate disabled every measurement is applied.',
 ['inputs'], 'every covariance, residual, noise and threshold, either side of the threshold',
 ['msf_core/include/msf_core/implementation/msf_measurement_inl.h'], [('gate', 'enable_mah_outlier_rejection_ / mah_threshold_ branch')], W + 'no filter code is executed.')
prop('M03', 'A correction reaches every state variable through its own error components',
 'A correction vector is added to position, velocity, biases, scale and translations and composed as a small rotation in the local frame with each attitude, each state variable using exactly its own components; attitudes stay of unit length, fixed biases and components vetoed by the user hook do not move, the sanity hook sees the old and the corrected state, and nothing is changed before the first prediction was made.',
 ['inputs'], 'every state and every correction vector within the bounds',
 ['msf_core/include/msf_core/implementation/msf_core_inl.h', 'msf_core/include/msf_core/implementation/msf_state_inl.h', 'msf_core/include/msf_core/msf_tmp.h', 'msf_core/include/msf_core/eigen_utils.h'], [('correction', 'MSF_Core::ApplyCorrection, GenericState_T::Correct, CorrectState'), ('small rotation', 'QuaternionFromSmallAngle')], W + 'no filter code is executed.')
prop('F01', 'Fuzzy tracking: a jump of a drift attitude is vetoed, a consistent one is not',
 'After the reference window has filled, an update that moves a non-temporally-drifting attitude away from the component-wise median of the 30 most recent unflagged ones by more than the threshold is flagged, and then keeps its effect on the propagated states only while every other state is restored; at or below the threshold, and while the window is filling, nothing is flagged and nothing restored. A reset empties the window. The median used is an element splitting the data.',
 ['inputs', 'histories'], 'every correction and threshold after windows of agreeing and partly disagreeing attitudes',
 ['msf_core/include/msf_core/msf_checkFuzzyTracking.h', 'msf_core/include/msf_core/msf_tools.h', 'msf_core/src/lib/msf_tools.cc'], [('fuzzy tracking', 'CheckFuzzyTracking::Check'), ('median', 'GetMedian')], W + 'no filter code is executed.')
CORE = ['msf_core/include/msf_core/implementation/msf_core_inl.h', 'msf_core/include/msf_core/msf_core.h', 'msf_core/include/msf_core/msf_sortedContainer.h']
prop('S01', 'A late measurement leaves the filter as if it had arrived in time order',
 'Every accepted measurement is applied to the state of its own time: a buffered state within a millisecond of it, otherwise a state created there from the linearly interpolated IMU readings. It is applied once, and again only when an earlier one arrives after it or one within milliseconds of it, so that no state carries a correction twice. Neither a hole in the readings with unmatched measurements in it nor several measurements sharing a state changes this: afterwards all buffered states from its time on, and their covariances once propagated, equal those of processing all readings and measurements in time order, and the update for the newest state is published once per measurement.',
 ['histories'], 'every measurement time, correction size, noise and arrival order within the bounds',
 CORE, [('application', 'MSF_Core::AddMeasurement, GetClosestState, ApplyCorrection, CleanUpBuffers, PropagateOneStep')], W + 'no filter code is executed.')
prop('S02', 'Early measurements wait, stale or duplicate or unmatched ones change nothing',
 'A measurement ahead of the newest IMU state is kept and applied once the IMU has reached its time, not before: with the first IMU message that does if it is the only one waiting, and otherwise in its turn, one waiting measurement being looked at per IMU message in order of arrival, so none is lost or delayed by more messages than measurements are waiting. A measurement before the first buffered state, one with the time of an earlier measurement, one with no state within 0.1 s, and any measurement before the filter is initialised and predicting are rejected without any effect on states, covariances or publications.',
 ['histories'], 'every measurement time relative to the readings and every arrival order within the bounds',
 CORE, [('future measurements', 'MSF_Core::AddMeasurement, HandlePendingMeasurements'), ('rejection', 'MSF_Core::AddMeasurement, GetClosestState')], W + 'no filter code is executed.')
prop('S03', 'Implausible IMU input neither corrupts nor silently continues the filter',
 'An acceleration whose magnitude exceeds 50 m/s^2 is replaced by the preceding reading of the acceleration and the angular rates are kept; a gap above 0.1 s before the first prediction re-times the last state, content kept, instead of integrating over it; a time stamp running backwards by more than 10 ms after predictions have begun stops the filter until it is initialised again, smaller disorder and repeated time stamps change nothing in the state; a reading that is not a number stops the filter in the same way as soon as the covariance has followed to it; a re-initialisation forgets all buffered states, measurements and waiting measurements.',
 ['histories'], 'every reading, spike, gap and backward jump within the bounds',
 CORE, [('IMU input', 'MSF_Core::ProcessIMU'), ('initialisation', 'MSF_Core::Init')], W + 'no filter code is executed.')
prop('S04', 'Externally predicted states are buffered as given and their covariance follows',
 'When the autopilot predicts the state, each message adds a state with the position, velocity and attitude it gives, the biases and all other states of the preceding one, and IMU readings as received (spikes replaced as for internal prediction); the covariance is predicted from them as for internal prediction; stale messages change nothing, a gap before the first prediction re-times the last state, nothing is accepted before initialisation, and internal and external prediction may follow one another.',
 ['histories'], 'every message content and time within the bounds',
 CORE, [('external prediction', 'MSF_Core::ProcessExternallyPropagatedState')], W + 'no filter code is executed.')
prop('S05', 'Clean-up bounds the buffers without discarding or invalidating what is in use',
 'However long the filter runs, the buffered states and measurements are periodically trimmed to the last minute: nothing younger than sixty seconds is ever discarded, old elements do go away, and no measurement whose processing coincides with a clean-up refers to a discarded state or is lost.',
 ['histories'], 'every position of the clean-up relative to measurements and every buffer age within the bounds',
 CORE, [('clean-up', 'MSF_Core::CleanUpBuffers, AddMeasurement'), ('trimming', 'SortedContainer::ClearOlderThan')], W + 'no filter code is executed.')
prop('J01', 'A pose update uses the true residual, Jacobian and noise of the pose',
 'For every state the residual of a pose measurement is the measured position minus the scaled predicted sensor position in the vision frame and the rotation from predicted to measured attitude; its Jacobian is the derivative of that prediction in every error state; states marked fixed have a zero column and lose exactly their cross-covariances; the noise is the configured or the message covariance without position-attitude coupling, and poses given as world-in-sensor are inverted first. The unmeasured yaw of the vision frame contributes no innovation.',
 ['inputs'], 'every state, attitude, scale, measured pose, covariance and set of fixed states, for the three filters that use poses',
 ['msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h'], [('linearisation', 'PoseMeasurement::CalculateH'), ('residual', 'PoseMeasurement::Apply'), ('message', 'PoseMeasurement::MakeFromSensorReadingImpl')], W + 'no filter code is executed.')
prop('J02', 'A position update uses the true residual, Jacobian and noise of the position',
 'For every state the residual of a position measurement is the measured minus the predicted antenna position (IMU position plus the rotated offset), its Jacobian is the derivative of that prediction in every error state, a fixed offset has a zero column and loses exactly its cross-covariances, and the noise is the configured or the message covariance.',
 ['inputs'], 'every state, attitude, offset, measurement and covariance, for both filters that use positions',
 ['msf_updates/include/msf_updates/position_sensor_handler/position_measurement.h'], [('linearisation', 'PositionMeasurement::CalculateH'), ('residual', 'PositionMeasurement::Apply')], W + 'no filter code is executed.')
prop('J03', 'Spherical updates use the true residual and Jacobian of angles and distance',
 'For every state off the vertical axis, the angle residual is measured minus predicted inclination and azimuth of the prism (azimuth difference taken the short way round, correct in every quadrant and on the axes), the distance residual is measured minus predicted distance, the Jacobians are the derivatives of those predictions in every error state, and a fixed offset has a zero column and loses exactly its cross-covariances.',
 ['inputs'], 'every state, attitude, offset and measurement within the bounds',
 ['msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h'], [('angles', 'AngleMeasurement::CalculateH, Apply'), ('distance', 'DistanceMeasurement::CalculateH, Apply')], W + 'no filter code is executed.')
prop('J04', 'A pressure update uses the true residual and Jacobian of the height',
 'For every state the residual of a pressure height is the measured height plus the pressure bias minus the vertical position, its Jacobian is the derivative of the predicted height in every error state, the noise is the configured one, and an invalid state is never updated.',
 ['inputs'], 'every state, bias, height and noise',
 ['msf_updates/include/msf_updates/pressure_sensor_handler/pressure_measurement.h'], [('update', 'PressureMeasurement::Apply')], W + 'no filter code is executed.')
prop('R01', 'Relative measurements correct the newer state with both states accounted',
 'A relative pose measurement is compared with the previous measurement of the same sensor (none: no update) through the states at both measurement times. Its residual is the difference of measured and predicted relative motion and both Jacobians are the true derivatives of it. The transition between the states is accumulated in order of time, and the update of the newer state is the minimum-variance one under the joint covariance of both states, leaving the older state alone and the covariance symmetric.',
 ['inputs', 'histories'], 'all residuals, Jacobians and covariances on sub-blocks of the error state; 4 buffered states or measurements; residuals and Jacobians of the pose sensor at every attitude with small attitude errors to first order',
 ['msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h', 'msf_core/include/msf_core/implementation/msf_measurement_inl.h', 'msf_core/include/msf_core/implementation/msf_core_inl.h'], [('relative branch', 'PoseMeasurement::Apply'), ('update', 'MSF_MeasurementBase::CalculateAndApplyCorrectionRelative'), ('previous', 'MSF_Core::GetPreviousMeasurement'), ('transition', 'MSF_Core::GetAccumulatedStateTransitionStochasticCloning')], W + 'the relative update on the real filter state uses a reduced state definition so that the covariance algebra stays decidable.')
prop('K03', 'The covariance follows the states it belongs to, in order and only forward',
 'When the covariance has to reach a buffered state (or the next one) every state after the one it was last valid for gets its predecessor\'s covariance advanced by its own interval, in order of time and exactly once, no other state\'s covariance or time changes, and the time of the covariance is that of the state reached; an empty or backward interval changes neither covariance.',
 ['histories', 'inputs'], '5 buffered states with fixed times and readings, every start and target, every diagonal covariance',
 ['msf_core/include/msf_core/implementation/msf_core_inl.h'], [('catching up', 'MSF_Core::PropPToState, PropagatePOneStep'), ('one interval', 'MSF_Core::PredictProcessCovariance')], W + 'no filter code is executed.')
prop('K04', 'Process noise over an interval is the integral of the configured sensor noise',
 'Starting from certainty, one interval leaves exactly the noise of the accelerometer, of the gyroscope and of the random walks of both biases, integrated through the linearised dynamics of the state (exact for accelerometer and accelerometer bias, to second order in the interval for the gyroscope and its bias), plus what the user configured for the additional states; noise of earlier intervals is not carried over and no noise means no growth.',
 ['inputs'], 'every state, noise density and interval; gyroscope terms as Taylor coefficients of first and second order',
 ['msf_core/include/msf_core/implementation/calcQCore.h', 'msf_core/include/msf_core/implementation/msf_core_inl.h'], [('core noise', 'CalcQCore'), ('additional states', 'MSF_SensorManager::CalculateQAuxiliaryStates')], W + 'no filter code is executed.')
prop('I01', 'Initialisation of the pose filters explains the measurements received',
 'After an initialisation request (reconfigure with a scale or a height, or the services of the pose filter) the initial state of the pose, pose-pressure and pose-position filters reproduces the latest received pose (and pressure, and position) exactly with the configured calibration, has the requested scale (or the one that makes the height the requested one), zero velocity, zero biases, unit attitudes and gravity-consistent sensor readings; without measurements, or with an invalid scale or height, nothing bad happens, and a request already served is not repeated by unrelated reconfigurations.',
 ['inputs', 'histories'], 'every pose, calibration, scale and height within the bounds; a few attitudes where stated',
 ['msf_updates/src/pose_msf/pose_sensormanager.h', 'msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h', 'msf_updates/src/position_pose_msf/position_pose_sensormanager.h'], [('initial state', 'PoseSensorManager::Init'), ('with pressure', 'PosePressureSensorManager::Init'), ('with position', 'PositionPoseSensorManager::Init')], W + 'no filter code is executed.')
prop('I02', 'Initialisation of the position filters explains the measurements received',
 'After an initialisation request the initial state of the position and of the spherical position filter reproduces the latest received position (angles and distance) with the configured sensor offset and heading, with zero velocity and biases and gravity-consistent readings; unrelated reconfigurations do not restart the filter.',
 ['inputs', 'histories'], 'every position and offset within the bounds; 5 (position) and 3 (spherical) headings',
 ['msf_updates/src/position_msf/position_sensormanager.h', 'msf_updates/src/spherical_msf/spherical_sensormanager.h'], [('initial state', 'PositionSensorManager::Init'), ('spherical', 'SensorManager::Init')], W + 'no filter code is executed.')
prop('N01', 'Settings of the pose filters reach the filter as configured',
 'For the pose, pose-pressure and pose-position filters every configured value takes effect as documented: process noise of each additional state is its density squared times the interval and zero for the others, measurement noise, delay, fixed-state flags and the core\'s noise parameters are the configured ones, and a correction to a negative scale is replaced as documented while an acceptable one is kept. A request in the same change that has to be refused does not keep the settings from taking effect.',
 ['inputs'], 'every value of each setting within the bounds',
 ['msf_updates/src/pose_msf/pose_sensormanager.h', 'msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h', 'msf_updates/src/position_pose_msf/position_pose_sensormanager.h'], [('settings', 'Config, CalculateQAuxiliaryStates, SanityCheckCorrection')], W + 'no filter code is executed.')
prop('N02', 'Settings of the position filters reach the filter as configured',
 'For the position, pose-position and spherical position filters every configured value takes effect as documented: measurement noise, delay, fixed offset, process noise of the sensor offset (density squared times the interval) and the core\'s noise parameters are the configured ones.',
 ['inputs'], 'every value of each setting within the bounds',
 ['msf_updates/src/position_msf/position_sensormanager.h', 'msf_updates/src/position_pose_msf/position_pose_sensormanager.h', 'msf_updates/src/spherical_msf/spherical_sensormanager.h'], [('settings', 'Config, CalculateQAuxiliaryStates')], W + 'no filter code is executed.')
prop('H01', 'Every kind of pose message becomes a measurement, at most at the configured rate',
 'A pose arriving as pose with covariance, odometry, transform or plain pose becomes one measurement with its time (less the configured delay), position, attitude and covariance; kinds without a covariance are used only with a configured one; messages that follow the last one used by no more than the configured minimum interval less one millisecond are skipped and all others are used.',
 ['inputs', 'histories'], 'every pose; 4 messages at arbitrary times',
 ['msf_updates/include/msf_updates/pose_sensor_handler/implementation/pose_sensorhandler.hpp'], [('messages', 'PoseSensorHandler::MeasurementCallback'), ('use', 'PoseSensorHandler::ProcessPoseMeasurement')], W + 'no ROS code is executed.')
prop('H02', 'Every kind of position message becomes a measurement in local metres',
 'Points (only with a configured covariance), transforms (every fifth) and GPS fixes become position measurements; GPS fixes are expressed in metres east, north and up of the first valid fix of the same sensor, with their own covariance, and unusable fixes are discarded.',
 ['inputs', 'histories'], 'every position; fixes around concrete references',
 ['msf_updates/include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp'], [('messages', 'PositionSensorHandler::MeasurementCallback'), ('use', 'PositionSensorHandler::ProcessPositionMeasurement')], W + 'no ROS code is executed.')
prop('G01', 'GPS coordinates convert to local metres east, north and up',
 'Geodetic coordinates convert to the earth-fixed point at that height along the normal of the WGS84 ellipsoid; relative to a reference (the latest set) they convert to metres east, north and up, by either route, with the reference as origin; correcting the height of the reference moves points along the local vertical only.',
 ['inputs'], 'latitude within 80 degrees, every longitude, height -400 m to 10 km; offsets within 1 km; height correction at 4 references',
 ['msf_core/src/lib/gps_conversion.cc'], [('conversion', 'GPSConversion::WGS84ToECEF, ECEFToENU, WGS84ToENU'), ('reference', 'GPSConversion::InitReference, AdjustReference')], W + 'the file is not compiled.')
prop('P01', 'The published pose, velocity and state messages are the state of the filter',
 'After a prediction and after a measurement update, the published pose, odometry, external-EKF message, state vector and transforms carry the position, attitude and remaining states of that filter state in their documented slots, the odometry twist holds the velocity in the body frame and the rotation rate without bias, the covariance blocks come from the state covariance (pose and twist, the latter with the configured gyro noise added to the rotation), frames are the configured ones, and the time stamp is that of the state (of the publication for the transform).',
 ['inputs', 'histories'], 'every state and covariance for each of the five filters',
 ['msf_core/include/msf_core/msf_sensormanagerROS.h', 'msf_core/include/msf_core/implementation/msf_state_inl.h'], [('publishing', 'MSF_SensorManagerROS::PublishStateAfterPropagation, PublishStateAfterUpdate'), ('messages', 'GenericState_T::ToPoseMsg, ToOdometryMsg, ToExtStateMsg, ToFullStateMsg, GetPoseCovariance')], W + 'no ROS code is executed.')
prop('P02', 'The correction message takes the external estimate to the state of the filter',
 'Each update publishes the correction that turns the latest external state into the filter state: position, velocity and biases by addition, attitude by rotation. On playback a neutral initialisation message is sent; the initial state is published once, before anything else; and nothing is published for a state that is not finite.',
 ['inputs', 'histories'], 'every filter state and external state for each of the five filters',
 ['msf_core/include/msf_core/msf_sensormanagerROS.h'], [('correction', 'MSF_SensorManagerROS::PublishStateAfterUpdate'), ('initial', 'MSF_SensorManagerROS::PublishStateInitial')], W + 'no ROS code is executed.')
prop('H03', 'Pressure readings become height measurements at the configured rate',
 'Every tenth pressure reading (by its sequence number) is used, at its own time and with its own height, and the others are dropped; the height reported for initialisation is that of the last used reading, or the average of the last ten used ones, zero before any.',
 ['inputs', 'histories'], 'every height, twelve readings',
 ['msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp'], [('readings', 'PressureSensorHandler::MeasurementCallback')], W + 'no ROS code is executed.')
prop('H04', 'Every sensor keeps its own identity, outlier gate and mode',
 'The measurements of each sensor carry an identity that is its own and never changes; the outlier gate is on, with the configured threshold, exactly for the sensors whose own parameters enable it (off by default); and a sensor declared absolute is used as such, while a relative measurement without a predecessor changes nothing.',
 ['inputs', 'histories'], 'every combination of the gate and mode parameters of the sensors of each filter, every threshold',
 ['msf_core/include/msf_core/msf_sensormanager.h', 'msf_updates/include/msf_updates'], [('handlers', 'constructors and callbacks of the sensor handlers'), ('identity', 'MSF_SensorManager::AddHandler')], W + 'no sensor handler is executed.')
prop('H05', 'Inertial messages of every kind reach every filter unchanged',
 'Readings on the IMU topic are integrated with their own time, specific force and angular rate in each filter; a message of an external integrator is taken over (with normalised attitude) only if it is flagged as current, complete, finite and not played back, otherwise its readings are integrated.',
 ['inputs', 'histories'], 'every reading and external state, each flag, message lengths around the full one, for each filter',
 ['msf_core/include/msf_core/msf_IMUHandler_ROS.h'], [('imu', 'IMUHandler_ROS::IMUCallback, StateCallback')], W + 'no ROS code is executed.')
prop('I03', 'Initialisation puts the filter into exactly the given state, once',
 'Initialisation forgets earlier states, waiting measurements and the fuzzy-tracking reference, and sets each state to the given value or else neutral (zero vectors, unit rotations), the readings only if given, and the covariance to the given or the symmetric default one; the result is published once and measurements are ignored until enough readings arrived. Initial values can be read back, changed and withdrawn.',
 ['inputs', 'histories'], 'every given value, several selections of given states, 0 to 60 earlier updates',
 ['msf_core/include/msf_core/implementation/msf_core_inl.h', 'msf_core/include/msf_core/msf_measurement.h', 'msf_core/include/msf_core/implementation/msf_state_inl.h'], [('init', 'MSF_Core::Init, SetPCore'), ('values', 'MSF_InitMeasurement'), ('neutral', 'GenericState_T::Reset')], W + 'no filter code is executed.')
prop('U01', 'Rotation helpers, message conversions and finiteness checks are exact',
 'Skew, Omega and Xi matrices act as the cross product and as quaternion multiplication with the vector; the quaternion of a small-angle vector is a unit rotation about that vector, to first order by its length; conversions between messages and vectors, quaternions and covariance blocks preserve every component and keep the covariance symmetric; the finiteness check of a matrix of any size, and of the core variables of a state, finds every NaN or infinity; shown times are modulo 10000 s.',
 ['inputs'], 'every vector, quaternion and covariance block; every entry of three matrix sizes',
 ['msf_core/include/msf_core/eigen_utils.h', 'msf_core/include/msf_core/eigen_conversions.h', 'msf_core/include/msf_core/similaritytransform.h', 'msf_core/src/lib/msf_tools.cc'], [('rotations', 'Skew, OmegaMatJPL, OmegaMatHamilton, XiMat, QuaternionFromSmallAngle'), ('finite', 'CheckForNumeric, GenericState_T::CheckStateForNumeric'), ('conversions', 'GeometryMsgsToEigen, EigenToGeometryMsgs, EigenCovBlockToGeometryMsgs'), ('time', 'timehuman')], W + 'none of these is executed.')
prop('U02', 'The similarity between two pose sets is their least-squares fit',
 'From at least two pairs of poses related by one rotation, offset and scale the computation returns these; for pairs that do not fit exactly, offset and scale are the least-squares solution and the rotation is the mean of the rotations of the pairs; with fewer than two pairs it refuses and reports nothing.',
 ['inputs', 'histories'], 'every offset, scale and first position; attitudes and second positions fixed, 2 to 4 pairs',
 ['msf_core/src/similaritytransform.cc'], [('transform', 'From6DoF::AddMeasurement, Compute')], W + 'the file is not compiled.')
prop('D01', 'The artificial distortion of a pose is a random walk with the given statistics',
 'Distorting poses adds a position drift and multiplies by a scale, both accumulated as time times a draw with the given mean and standard deviation per channel, and appends an attitude drift accumulated from such small rotations; attitudes stay unit, both together are the two separately, and zero mean and deviation distort nothing. A pose sensor asked to distort its poses distorts each after the first by the drift, with its configured means, over the time since the pose before.',
 ['inputs', 'histories'], 'every mean, deviation, step and pose over up to 4 steps, one sequence of random numbers',
 ['msf_updates/src/msf_distort/PoseDistorter.cc', 'msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h'], [('distortion', 'PoseDistorter::Distort'), ('use', 'PoseMeasurement::MakeFromSensorReadingImpl')], W + 'the code is compiled but never executed.')
prop('D02', 'The relay node passes on each message kind unchanged while it is switched on',
 'Pose messages (with covariance, transform, plain) are relayed unchanged on the output of their own kind if and only if pose relaying is on, and position messages (GPS fix, point) if and only if position relaying is on; both are on by default and follow every reconfiguration.',
 ['inputs', 'histories'], 'every message content and every setting',
 ['msf_distort/src/msf_distort.cc'], [('relay', 'CallbackHandler::MeasurementCallback, config, main')], W + 'no ROS code is executed.')
prop('Y01', 'Every state variable owns its places in the state, covariance and noise',
 'In each filter a state variable holds exactly what was set for it whatever else is set; state vectors and messages list the variables in order without gaps; the error-state places of the variables are adjacent, ordered and cover it; clearing the cross-covariances of a variable clears exactly those; the noise set for a variable is read back unchanged; a reset makes every variable neutral.',
 ['inputs'], 'every value of every variable of the five state definitions, every variable chosen for clearing',
 ['msf_core/include/msf_core/msf_state.h', 'msf_core/include/msf_core/msf_tmp.h'], [('access', 'GenericState_T::Set/Get/GetQBlock/ClearCrossCov/Reset'), ('places', 'GetStartIndex, CalculateIndicesInErrorState, ToFullStateMsg')], W + 'the state containers are never instantiated.')

"""Single source of properties.jsonl and MANIFEST.json (see gen_manifest.py).
P(id, title, statement, over, quantifier text, why tests can't, files, [(mechanism, where)], technique, level_note, observe_at)"""
CORE = "msf_core/include/msf_core/implementation/msf_core_inl.h"
MEAS = "msf_core/include/msf_core/implementation/msf_measurement_inl.h"
STATE = "msf_core/include/msf_core/implementation/msf_state_inl.h"
SORTED = "msf_core/include/msf_core/msf_sortedContainer.h"
ROSMGR = "msf_core/include/msf_core/msf_sensormanagerROS.h"
IMUH = "msf_core/include/msf_core/msf_IMUHandler_ROS.h"
TMP = "msf_core/include/msf_core/msf_tmp.h"
POSEM = "msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h"
POSEH = "msf_updates/include/msf_updates/pose_sensor_handler/implementation/pose_sensorhandler.hpp"
POSM = "msf_updates/include/msf_updates/position_sensor_handler/position_measurement.h"
POSH = "msf_updates/include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp"
PREM = "msf_updates/include/msf_updates/pressure_sensor_handler/pressure_measurement.h"
PREH = "msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp"
SPHM = "msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h"
SPHH = "msf_updates/include/msf_updates/spherical_position_sensor/implementation/spherical_sensorhandler.hpp"
MGRS = ["msf_updates/src/%s_msf/%s_sensormanager.h" % (a, a) for a in ("pose", "position", "pose_pressure", "position_pose", "spherical")]
NOTEST = "The only stable test exercises the timing library; the estimator has no automated test. "
LEVEL = "Generated-input search against an explicit oracle with shrinking; evidence of absence only within the explored cases. Trusts the stand-in ROS layer in /verif/stubs and the compiler."
ALL = {}


def P(pid, title, statement, over, text, why, files, mech, technique, note="", observe=()):
    assert len(title) <= 80, (pid, len(title))
    ALL[pid] = {
        "prop": {"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                 "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": list(observe), "hook_needed": None}},
        "technique": technique, "note": (note + " " if note else "") + LEVEL}


P("C01", "Time-sorted buffer answers every ordering and lookup query correctly",
  "The time-ordered buffer of states and of measurements behaves as a sorted map keyed by time: inserting keeps the order and never replaces an element that already exists at that time, and last, neighbouring, at-or-before, at-or-after, closest-in-time and exact-time queries and older-than erasure return what that map would return. Queries with no answer report an invalid element instead of some arbitrary one, and changing an element's time to a free one moves it to its new place without losing any element.",
  ["histories", "inputs"], "all sequences of buffer operations with arbitrary, including duplicate and extreme, time stamps",
  NOTEST + "Order-statistics over arbitrary histories cannot be sampled by hand-written cases.",
  [SORTED], [("ordered map with sentinel results", SORTED + ": msf_core::SortedContainer")],
  "model-based stateful property testing against a reference sorted map")
P("C02", "Order in which delayed sensor messages arrive does not change the estimate",
  "Feeding the same set of IMU and sensor messages, with distinct time stamps, through the filter's input topics gives the same estimate and covariance no matter how late, or in which order between sensors, the absolute measurements arrive, as long as every message lies inside the buffered time window and arrives after enough IMU data to have started prediction. Arrivals of measurements ahead of the IMU stream are held back and take effect at their time stamp.",
  ["schedules", "histories"], "all arrival interleavings of pose, position and IMU messages over the ROS topics of the multi-sensor application",
  NOTEST + "The number of interleavings explodes; a test fixes one.",
  [CORE, POSEH, POSH], [("buffered re-application of measurements and states", CORE + ": AddMeasurement"), ("future queue", CORE + ": HandlePendingMeasurements")],
  "metamorphic property testing over arrival schedules (differential: permuted vs in-order run)")
P("C03", "Any arrival schedule equals one in-order pass over the history",
  "After any schedule of late, out-of-order and early measurements, each accepted or rejected by its outlier gate, every buffered state and covariance equals that of a sequential extended Kalman filter that processes the complete history once in time order. A measurement is applied at its own time stamp, on a state interpolated from the IMU data when no IMU sample lies within one millisecond of it.",
  ["schedules", "histories"], "all IMU streams and measurement arrival schedules inside the buffer window",
  NOTEST + "Equivalence must hold for each of exponentially many schedules.",
  [CORE, MEAS, SORTED], [("insert into history and re-propagate", CORE + ": AddMeasurement, PropPToState, GetClosestState"), ("update", MEAS + ": CalculateAndApplyCorrection")],
  "stateful property testing: random schedules vs an independent sequential replay filter", "The per-step propagation primitives are taken from the code here and decided separately by C04/C05.")
P("C04", "IMU propagation integrates position, velocity and attitude accurately",
  "Between two IMU readings the state follows the strap-down kinematics with trapezoidal readings: bias-corrected rotation rates integrate to the attitude to third order, and bias-corrected specific force minus gravity integrates to velocity and position to second order, with the attitude kept a unit quaternion. Biases and calibration states are unchanged by propagation, and the result is consistent under a common translation, velocity offset or rotation about gravity.",
  ["inputs", "histories"], "all states, IMU readings and sampling intervals up to the accepted gap, and whole streams of them",
  NOTEST + "Numerical accuracy must hold over a continuous input space.",
  [CORE, "msf_core/include/msf_core/eigen_utils.h"], [("state integration", CORE + ": PropagateState"), ("small-angle rate matrices", "msf_core/include/msf_core/eigen_utils.h: OmegaMatJPL")],
  "property testing against a fine-step reference integrator with error bounds, plus metamorphic symmetries")
P("C05", "Covariance propagation matches the linearised system and stays a covariance",
  "Each prediction step replaces the covariance by the one the linearised IMU error dynamics and the configured noise densities imply for that interval, including the error-state to calibration cross terms. The covariance is symmetric and positive semi-definite after initialisation and after every prediction, and the transition matrix agrees with finite differences of the nonlinear propagation.",
  ["inputs", "histories", "configurations"], "all states, noise densities, covariances and IMU streams",
  NOTEST + "Needs a reference model over a continuous input space.",
  [CORE, "msf_core/include/msf_core/implementation/calcQCore.h", STATE], [("covariance prediction", CORE + ": PredictProcessCovariance"), ("process noise", "msf_core/include/msf_core/implementation/calcQCore.h")],
  "property testing against numerically integrated continuous-time covariance equations and finite differences")
P("C06", "Configured drift noise reaches exactly its own calibration state",
  "In every application the covariance of a calibration state grows per prediction by the square of its configured drift noise times the elapsed time, for each axis, and by nothing when that noise is zero. Setting one drift noise never changes the growth of another state, and run-time reconfiguration takes effect from the next prediction on.",
  ["configurations", "histories"], "all noise configurations of the five applications, applied at any point of a run",
  NOTEST + "Configuration product over five applications is never tested.",
  MGRS + [CORE], [("noise blocks per state", m + ": CalculateQAuxiliaryStates") for m in MGRS[:3]],
  "property testing of all five applications over random configurations, covariance-growth oracle")
P("C07", "A measurement update is the Kalman update, and the outlier gate decides it",
  "An accepted measurement changes state and covariance exactly as the Kalman update with its residual, Jacobian and noise does: correction added to vector states, applied as a small rotation on the right of attitude states, covariance symmetric and never larger than before. With the outlier gate enabled a measurement is applied if and only if its Mahalanobis distance does not exceed the threshold, and a rejected one leaves state and covariance untouched.",
  ["inputs", "histories"], "all priors, covariances, residuals, measurement sizes, Jacobians, noises and thresholds",
  NOTEST + "Continuous input space with a matrix-valued oracle.",
  [MEAS, STATE, CORE], [("correction", MEAS + ": CalculateAndApplyCorrection (fixed and dynamic size)"), ("state correction", STATE + ": GenericState_T::Correct")],
  "property testing against a textbook Joseph-form Kalman update on dynamic matrices")
P("C09", "Pose sensor update uses the documented camera/vision-frame model",
  "A 6-DoF pose measurement is compared with the pose predicted from vehicle position and attitude, scale, sensor extrinsics and the vision-to-world transform, and a measurement equal to that prediction leaves the estimate unchanged and passes any outlier gate. For small perturbations of any non-fixed state the applied update matches the Kalman update with the numerically differentiated model, including scale and extrinsics, in either direction of the measurement (world-to-sensor or sensor-to-world).",
  ["inputs", "configurations"], "all states, extrinsics, scales, frame directions and covariance sources of the pose application",
  NOTEST + "Jacobian errors only show as slightly wrong gains, which no sampled test notices.",
  [POSEM, POSEH], [("pose model", POSEM + ": PoseMeasurement::Apply, CalculateH"), ("decoding", POSEH)],
  "property testing: numerically differentiated independent model + reference Kalman update")
P("C10", "Position and pressure updates use the documented lever-arm and bias models",
  "A 3-D position measurement is compared with vehicle position plus the rotated lever arm, and a pressure height with vehicle height minus the pressure bias. The applied updates match the Kalman update with the numerically differentiated model for every state, and a measurement equal to its prediction leaves the estimate unchanged.",
  ["inputs", "configurations"], "all states, lever arms, biases and measurement covariances",
  NOTEST + "Jacobian errors are invisible to sampled tests.",
  [POSM, PREM], [("position model", POSM + ": Apply"), ("pressure model", PREM + ": Apply")],
  "property testing: numerically differentiated independent model + reference Kalman update")
P("C11", "Angle and distance updates of the spherical sensor match their geometry",
  "An angle measurement is compared with azimuth and inclination, and a distance measurement with the range, of the vector to the tracked point including the lever arm. The applied updates match the Kalman update with the numerically differentiated model wherever that model is smooth, angle residuals are wrapped, and a measurement equal to its prediction leaves the estimate unchanged.",
  ["inputs", "configurations"], "all states, lever arms, configured noises, angles in every quadrant",
  NOTEST + "Quadrant and Jacobian errors need coverage of a continuous space.",
  [SPHM, SPHH], [("angle model", SPHM + ": AngleMeasurement"), ("distance model", SPHM + ": DistanceMeasurement")],
  "property testing: numerically differentiated independent model + reference Kalman update")
P("C12", "States configured as fixed never move",
  "While a calibration state is configured as fixed, or the biases are, no sequence of IMU data and measurements changes its value, in any application that offers the option. States that are not fixed keep being estimated.",
  ["histories", "configurations"], "all combinations of fix flags over random measurement histories in every application",
  NOTEST + "Holds over all histories, not one.",
  MGRS + [POSEM, POSM], [("fixing", "msf_updates/src/pose_msf/pose_sensormanager.h: AugmentCorrectionVector / Jacobian columns of fixed states")],
  "stateful property testing over fix-flag combinations with an invariance oracle")
P("C13", "IMU spikes never enter the estimate",
  "An IMU reading whose acceleration exceeds the plausibility limit of 50 m/s^2 is replaced by the last plausible reading, for the estimate and everything published. Readings at or below the limit are used as they are.",
  ["inputs", "histories"], "all IMU streams with spikes at any position, run length, sign and axis",
  NOTEST + "Needs streams with spikes in all positions.",
  [CORE], [("spike rejection", CORE + ": ProcessIMU")],
  "metamorphic property testing: stream with spikes vs the same stream with held readings")
P("C14", "Clock jumps and re-initialisation leave no residue",
  "When IMU time jumps backwards by more than 10 ms the filter stops using its history and, after being initialised again, behaves exactly like a freshly started filter fed only the new data. IMU readings that are slightly out of order are ignored and leave the estimate as it was, and re-initialising at any moment equals a fresh start.",
  ["histories", "fault_sequences"], "all streams with clock jumps or re-initialisations at any point, with measurements pending",
  NOTEST + "Residual state after a reset depends on the whole history before it.",
  [CORE, ROSMGR], [("reset on time jump", CORE + ": ProcessIMU"), ("initialisation", CORE + ": Init")],
  "metamorphic stateful property testing: filter after reset vs fresh filter")
P("C15", "Unusable measurements leave no trace",
  "A measurement that cannot be used (before initialisation or prediction has started, older than the buffered history, at the very time stamp of a measurement already held from the same time, without required covariance, or not near any IMU data) does not change any state, covariance or the effect of later measurements. It is dropped without stopping the filter.",
  ["histories", "fault_sequences"], "all histories with unusable measurements injected at any point",
  NOTEST + "Non-interference over all injection points.",
  [CORE, POSEH, POSH], [("rejection", CORE + ": AddMeasurement, GetClosestState")],
  "metamorphic property testing: run with injected unusable measurements vs run without")
P("C16", "Every pose input topic decodes position, attitude, covariance and time alike",
  "The same pose delivered as pose-with-covariance, transform, stamped pose or odometry leads to the same update, with noise taken from the message covariance or from the configured fixed noise, time shifted by the configured delay, and the frame direction inverted when configured. Messages that come faster than the configured minimum interval, or lack a covariance that is needed, are dropped.",
  ["inputs", "configurations", "histories"], "all message types, values, rates, delays and parameter combinations",
  NOTEST + "Product of message types and configuration is untested.",
  [POSEH, POSEM, "msf_updates/src/pose_msf/pose_sensormanager.h"], [("callbacks", POSEH)],
  "differential property testing across message types against a reference decoder")
P("C17", "Every position input topic, including GPS, decodes alike",
  "The same position delivered as stamped point, transform or GPS fix leads to the same update, with noise from the message covariance or the configured fixed noise and time shifted by the configured delay. GPS fixes are turned into local east-north-up coordinates relative to the first fix, and fixes or messages that carry no usable covariance when one is needed are dropped.",
  ["inputs", "configurations", "histories"], "all message types, fixes, covariances, delays and parameter combinations",
  NOTEST + "Product of message types and configuration is untested.",
  [POSH, POSM, "msf_core/src/lib/gps_conversion.cc"], [("callbacks", POSH)],
  "differential property testing across message types against a reference decoder")
P("C18", "Pressure heights are decimated, weighted and averaged as intended",
  "Every pressure height whose sequence number is a multiple of ten is applied at its own time stamp with the noise configured at that moment, the ones in between are not used. The height kept for initialisation is the last one used, the average kept is the mean of the last ten, and both are zero, not arbitrary memory, before the first message.",
  ["inputs", "histories", "configurations"], "all pressure message sequences, arrival times and configurations",
  NOTEST + "Sliding-window behaviour depends on the whole history.",
  [PREH, "msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h"], [("decimation and sliding average", PREH + ": MeasurementCallback")],
  "differential and model-based property testing of the handler")
P("C19", "Initialisation is consistent with the first measurements",
  "After initialisation by start-up flag, scale service or height service the predicted measurement of each initialising sensor equals the last one received, for any configured extrinsics, scale, yaw and frame offsets, and the covariance is a valid one. Requests that make no sense (zero height, no measurement to derive a scale from) are refused and leave the filter as it was.",
  ["inputs", "configurations", "fault_sequences"], "all extrinsics, scales, first measurements and service requests in every application",
  NOTEST + "Continuous configuration space.",
  MGRS, [("initialisation", m + ": Init") for m in MGRS[:3]],
  "property testing: measurement-model round trip after initialisation")
P("C20", "Published topics mirror the filter state",
  "Everything published (pose, odometry, state, covariance blocks, external-propagation correction, transform) is an exact function of the current filter state: same time, values, frames, and covariance blocks in the documented order, quaternions normalised. Twist in the odometry is expressed in the body frame with the matching covariance.",
  ["histories", "configurations"], "all runs of every application; every publication",
  NOTEST + "Publications are never checked.",
  [ROSMGR, STATE, "msf_core/include/msf_core/eigen_conversions.h"], [("publishing", ROSMGR), ("message conversion", STATE + ": ToPoseMsg, ToExtStateMsg, ToStateMsg, ToOdometryMsg")],
  "property testing: messages recomputed independently from the exposed state")
P("C21", "External propagation is followed and corrected exactly",
  "When the vehicle's own controller supplies propagated states, the filter takes over its position, velocity, attitude and the readings, propagates only the covariance itself, and publishes corrections that, applied to the external state, give the filter's estimate. Long gaps and the first external message restart the history without losing the covariance.",
  ["histories", "fault_sequences"], "all streams of external states with gaps, resets, spikes and measurements",
  NOTEST + "Two-party protocol over arbitrary histories.",
  [CORE, IMUH, ROSMGR], [("external propagation", CORE + ": ProcessExternallyPropagatedState"), ("correction message", ROSMGR + ": PublishStateAfterUpdate")],
  "stateful property testing of the two-party protocol with a reference model")
P("C22", "Fuzzy-tracking detection resets exactly the affected states",
  "After the observation buffers have filled, an update whose calibration states deviate from the running median by more than the configured limit is undone for the states the check covers, and an update that does not is left alone. Normal tracking is never altered.",
  ["histories"], "all sequences of calibration-state values",
  NOTEST + "Depends on the history of thirty updates.",
  ["msf_core/include/msf_core/msf_checkFuzzyTracking.h", CORE], [("median check", "msf_core/include/msf_core/msf_checkFuzzyTracking.h")],
  "model-based property testing against a reference detector")
P("C23", "Relative measurements use the stochastic clone of the right two states",
  "A relative pose measurement is applied between the states at its own and at the previous measurement time of the same sensor, with the cross-covariance between them obtained by carrying the covariance through every prediction in between. The update equals the Kalman update on the joint covariance of both states, and with the outlier gate enabled it is applied if and only if its Mahalanobis distance under that joint covariance does not exceed the threshold.",
  ["histories", "inputs"], "all measurement pairs with any number of prediction steps between them",
  NOTEST + "Cross covariance depends on every step between the two states.",
  [MEAS, CORE, POSEM, SORTED], [("relative correction", MEAS + ": CalculateAndApplyCorrectionRelative"), ("accumulated transition", CORE + ": GetAccumulatedStateTransitionStochasticCloning")],
  "property testing against an explicit joint-covariance (cloned state) reference filter")
P("C24", "The compile-time state layout is right for every state definition",
  "For every list of states an application can declare, storage indices, error-state indices and sizes are contiguous in declaration order, attitude states take four storage and three error entries, and copying, resetting, correcting and covariance blocks address exactly the entries of their own state.",
  ["programs"], "all state definitions (types, order, number, options)",
  "The repository's layout tests are not in the stable set and check one hand-written definition.",
  [TMP, STATE, "msf_core/include/msf_core/msf_typetraits.h"], [("layout computation", TMP)],
  "property testing over randomly generated programs (state definitions compiled and checked)")
P("C25", "Rotation and vector helpers obey their algebra",
  "Skew-symmetric and rate matrices, error-quaternion matrices, small-angle quaternions and the conversions between messages and vectors, quaternions or covariance blocks agree with exact rotation algebra to their stated order, or are mutual inverses, for every input including the degenerate ones.",
  ["inputs"], "all vectors, angles and quaternions", NOTEST + "Algebraic laws over a continuous domain.",
  ["msf_core/include/msf_core/eigen_utils.h", "msf_core/include/msf_core/eigen_conversions.h"], [("helpers", "msf_core/include/msf_core/eigen_utils.h")],
  "property testing of algebraic laws and differential comparison with exact formulas")
P("C26", "GPS conversion is metrically exact around any reference",
  "Converting geodetic to earth-centred and local east-north-up coordinates agrees with the WGS-84 ellipsoid at every latitude, longitude and altitude, maps the reference to the origin, preserves distances, and points east, north and up in that order. The one-step and two-step conversions agree, and adjusting the vertical reference shifts only the local height, by exactly the requested amount.",
  ["inputs"], "all references and fixes on the globe", NOTEST + "No test touches the conversion.",
  ["msf_core/src/lib/gps_conversion.cc", "msf_core/include/msf_core/gps_conversion.h"], [("conversion", "msf_core/src/lib/gps_conversion.cc")],
  "property testing against an independent extended-precision ellipsoid model and isometry laws")
P("C27", "Similarity alignment recovers the transform from correspondences",
  "Given pairs of poses related by a rotation, translation and scale the alignment returns that transform together with the scale, regardless of the order of the pairs, and under noise no nearby transform fits the pairs better. The conditioning it reports tells degenerate data apart, and too few pairs are refused.",
  ["inputs"], "all transforms and point clouds in general position", "The repository's own test of it is randomised, sampled and not in the stable set.",
  ["msf_core/src/similaritytransform.cc", "msf_core/include/msf_core/similaritytransform.h"], [("least-squares alignment", "msf_core/src/similaritytransform.cc")],
  "property testing: round trip, metamorphic relations and perturbation optimality")
P("C28", "Pose distorter applies exactly the configured distortion",
  "With zero noise and drift the pose distorter returns poses unchanged, otherwise it adds drift that accumulates with time from the configured mean and noise of the configured strength around it. The statistical moments of the distortion match the configuration.",
  ["inputs", "histories"], "all configurations, poses and time steps", "Not in the stable set; statistical behaviour needs many samples.",
  ["msf_updates/src/msf_distort/PoseDistorter.cc", "msf_updates/include/msf_updates/PoseDistorter.h"], [("distortion", "msf_updates/src/msf_distort/PoseDistorter.cc")],
  "property testing with exact zero-noise laws and wide-tolerance moment checks")
P("C29", "Timing statistics are those of the recorded durations",
  "For any sequence of recorded durations the timing library reports their count, sum, mean, minimum and maximum, and variance and rate over its window of recent samples, per named timer and independent of other timers. A formatted duration keeps its value from hours to fractions of a second.",
  ["histories", "inputs"], "all interleavings of timers and values", "The stable test checks a handful of fixed values.",
  ["msf_timing/src/Timer.cc", "msf_timing/include/msf_timing/Timer.h"], [("accumulators", "msf_timing/include/msf_timing/Timer.h: Accumulator"), ("formatting", "msf_timing/src/Timer.cc: SecondsToTimeString")],
  "model-based property testing against exact statistics")
P("C30", "No input sequence corrupts memory or stops the filter",
  "No sequence of messages, service calls and reconfigurations, however late, duplicated, out of order, malformed or numerically extreme, makes the filter access invalid memory, invoke undefined behaviour, abort or hang. After such a sequence it can be initialised again and works.",
  ["inputs", "histories", "fault_sequences"], "all message sequences over all topics, services and parameters of the five applications",
  NOTEST + "Robustness over all inputs.",
  [CORE, MEAS, SORTED] + MGRS, [("input handling", CORE), ("handlers", POSEH)],
  "sanitizer-instrumented stateful fuzzing of the five applications")
P("C31", "Memory stays bounded during endless operation",
  "However long the filter runs, the states and measurements it keeps are limited to the recent history window of about a minute, and what it keeps always includes everything within that window. Trimming the history changes no estimate.",
  ["histories"], "long streams of IMU data and measurements of any rate",
  NOTEST + "Growth shows only after long runs.",
  [CORE, SORTED], [("history clean-up", CORE + ": CleanUpBuffers, AddMeasurement")],
  "stateful property testing of long streams: bound, retention and differential oracle")
P("C32", "The estimated scale never stays negative",
  "Whatever measurements arrive, after every update of an application that estimates the visual scale the published and buffered scale is positive, being reset to a small positive value when an update drives it below zero. Updates that keep it positive are not altered by this protection.",
  ["histories", "inputs"], "all priors and pose measurements, including ones that imply a negative scale",
  NOTEST + "Needs adversarial measurement histories.",
  MGRS[:1] + MGRS[2:4], [("sanity check", "msf_updates/src/pose_msf/pose_sensormanager.h: SanityCheckCorrection")],
  "property testing with adversarial measurements and an invariant oracle")
P("C33", "Support macros and numeric tools do what they promise",
  "Throttled and once-only log statements fire at the first occurrence, at most once per period, and independently per call site. Medians (the upper one for an even count), detection of values that are not finite, and time formatting are exact for every input.",
  ["histories", "inputs"], "all call sequences, times and values", NOTEST,
  ["msf_core/include/msf_core/msf_macros.h", "msf_core/include/msf_core/msf_tools.h", "msf_core/src/lib/msf_tools.cc"], [("macros", "msf_core/include/msf_core/msf_macros.h")],
  "model-based property testing on a controlled clock")
P("C34", "False-colour palettes are complete, smooth and in range",
  "Every palette has 256 entries that follow its defining colour formula within rounding: it starts and ends at its documented end colours, and neighbouring entries are neighbouring colours. Asking for the same palette again gives the same table.",
  ["inputs"], "all palettes and all of their entries, asked for in any order", NOTEST,
  ["msf_core/src/lib/falsecolor.cc", "msf_core/include/msf_core/falsecolor.h"], [("palettes", "msf_core/src/lib/falsecolor.cc")],
  "property testing against reference formulas, with end-point, continuity and repeatability laws")
P("C35", "Distortion relay forwards exactly what its switches allow",
  "The relay node forwards each pose message (pose with covariance, transform, stamped pose) if and only if publishing poses is enabled, and each position message (GPS fix, stamped point) if and only if publishing positions is enabled, on the matching output and exactly as received. Switches act on the next message.",
  ["histories", "configurations"], "all message sequences and switch settings", NOTEST + "The relay has no test.",
  ["msf_distort/src/msf_distort.cc"], [("gating", "msf_distort/src/msf_distort.cc: CallbackHandler")],
  "stateful property testing against a relay model")

P("C36", "The evaluation tool measures the error that is there",
  "The evaluation tool pairs every ground-truth pose, its stamp shifted by the fixed 3.9 ms clock offset, with the first estimate that is not older, and reports a row for each pair that is less than 5 ms apart, more than 49 ms after the previously reported estimate, and at least the start offset after the first ground-truth pose that follows the first estimate. A row holds that time, the distance the ground truth travelled since the run's first pair, the distance and the rotation angle between the estimate and the ground truth expressed in the estimator's world and body frames, the angle between their vertical axes, and the six variances of the estimate. The world frames are aligned by the first pair of a run that is less than 5 ms apart; body frames by the fixed calibration. Runs start at offsets of 10 s, 20 s, ... until no pair is left, or once on request; estimated and true positions of the first run are listed. Hence a perfect estimate has zero error everywhere, gaps in the recording included, and no result depends on the choice of the estimator's world frame. A recording or command line that cannot be evaluated gives a non-zero exit status.",
  ["histories", "inputs"], "all recordings with increasing stamps per topic and unit quaternions", NOTEST + "The evaluation tool has no test. It is run on recordings held in memory; the kinematics library it uses is replaced by an equivalent one.",
  ["msf_eval/src/msf_eval.cpp"], [("evaluation", "msf_eval/src/msf_eval.cpp: main")],
  "differential testing against a reference evaluation, and a metamorphic relation")
P("C37", "Compass headings become the initial yaw of the position filter",
  "The compass node accepts headings on four inputs (IMU attitude, attitude quaternion, Euler angles in degrees, heading in radians). Nothing is written before a heading arrives; from then on, at the latest one cycle after a heading was received, position_yaw_init of the configured filter node holds the most recent heading, whichever input it came on, in degrees and reduced to the parameter's range [-180, 180]. No other parameter is written, and the node ends on shutdown.",
  ["histories", "inputs"], "all message sequences on the four inputs, headings in [-180, 360), pitch away from +-90 degrees", NOTEST + "The node has no test. rospy, tf and the reconfigure client are stand-ins.",
  ["msf_updates/src/position_msf/init_yaw_from_compass.py", "msf_updates/launch/init_yaw_from_compass.launch"], [("headings", "msf_updates/src/position_msf/init_yaw_from_compass.py: callback_*")],
  "stateful property testing of the node against a model")

"""The property catalogue: source of properties.jsonl and of the check list in MANIFEST.json."""
HOOKS = {"guard": "SERPENT_VERIF", "enable": "no hooks were needed: the checks compile /repo's sources unmodified", "source_commits": []}
EXH = "exhaustive enumeration of the real code's executions (stateless explicit-state exploration) against an independent reference"
TRUST = "Holds on every enumerated execution; trusts the compiler, the third-party libraries and the reference model in the harness."
PROPERTIES = []
def P(id, title, statement, over, quant, tests, files, mech, technique=EXH, note=TRUST, **kw):
    PROPERTIES.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, tests=tests, files=files, mech=mech,
                           technique=technique, note=note, **kw))

P("P01", "Frame-change and rigid-body algebra is consistent",
  "For every rigid transform, changing the reference frame of transforms, relative motions and twists, composing and inverting motions, converting between linear/angular forms and (de)serialising pose components agrees with exact SE(3) algebra in float and double. Any history of motions expressed in one frame, converted and composed, gives the same pose as composing first and converting afterwards. Degenerate inputs (zero rotation, half turns, axis-aligned vectors) never produce NaN where the exact result is finite.",
  ["inputs", "histories"], "all pairs/triples of rigid transforms and all motion histories over the alphabet",
  "tests check a handful of fixed transforms; several conversions and the degenerate rotations are never executed",
  ["eigen_ext/include/eigen_ext/geometry.hpp", "eigen_ext/include/eigen_ext/precomputed_transform_components.hpp"],
  [("frame change of transforms, relative motions and twists; polar/cartesian and vector angles", "eigen_ext/include/eigen_ext/geometry.hpp"),
   ("precomputed rotation components", "eigen_ext/include/eigen_ext/precomputed_transform_components.hpp")])
P("P02", "Covariances stay valid and exact under checks, reordering and composition",
  "A matrix is accepted as a covariance exactly when it is finite, symmetric and positive (semi)definite as documented. Block reordering is an exact involutive permutation for every boundary and size, and changing frames, composing poses or building correlations/conditioning yields the textbook covariance, symmetric and positive semidefinite, over any history of operations.",
  ["inputs", "histories"], "all small symmetric matrices over a value alphabet, every single-entry corruption, every boundary, and all composition histories",
  "tests use fixed 6x6 examples with one boundary",
  ["eigen_ext/include/eigen_ext/covariance.hpp", "eigen_ext/include/eigen_ext/geometry.hpp", "eigen_ext/include/eigen_ext/matrix.hpp"],
  [("validity, reordering and frame change of covariances", "eigen_ext/include/eigen_ext/covariance.hpp"), ("matrix helpers", "eigen_ext/include/eigen_ext/matrix.hpp")])
P("P03", "Eigen and factor-graph poses convert without loss",
  "Every rigid transform converted to the optimiser's pose type and back is unchanged, and converting commutes with composing for every history of motions.",
  ["inputs", "histories"], "all rotations x translations of the alphabet and all composition histories to the depth bound",
  "tests convert one pose", ["eigen_gtsam/src/geometry.cpp", "eigen_gtsam/include/eigen_gtsam/eigen_gtsam.hpp"],
  [("conversion functions", "eigen_gtsam/src/geometry.cpp")])
P("P04", "Stereo window costs and statistics equal their definitions",
  "For every pair of equally sized image windows, each matching cost (absolute/squared differences, zero-mean and normalised forms, correlation) and each window statistic equals its mathematical definition, independent of where the window lies, its size, memory layout or what was computed before. The result never depends on uninitialised memory or on pixels outside the windows.",
  ["inputs"], "all pixel contents of small windows over a value alphabet, all placements and sizes",
  "no test computes any cost", ["serpent/src/front_end/stereo/stereo_cost_functions.cpp", "serpent/src/front_end/stereo/window_functions.cpp"],
  [("cost functions", "serpent/src/front_end/stereo/stereo_cost_functions.cpp"), ("window sums", "serpent/src/front_end/stereo/window_functions.cpp")])
P("P05", "Stereo keypoint matching returns the best admissible match, or none",
  "For every image pair and keypoint, a reported match is the minimum-cost location on the epipolar line within the search range, its reported cost is the true cost, and it is reported as matched exactly when it passes the configured ratio test or bidirectional consistency test. Keypoints whose window leaves the image are reported as unmatched, and between two keypoint sets each keypoint is paired with the minimum-cost keypoint that lies within the vertical threshold on the admissible side.",
  ["inputs", "configurations"], "all small image pairs over a pixel alphabet, all keypoints, filter settings and cost functions",
  "no test runs the matcher", ["serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp", "serpent/include/serpent/front_end/stereo/stereo_keypoint_matcher.hpp"],
  [("epipolar scan, ratio filter, bidirectional check", "serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp")])
P("P06", "Match filters keep exactly the matches satisfying their condition",
  "Each match filter (descriptor distance, vertical alignment and positive disparity, depth range) returns exactly the input matches that satisfy its condition, unmodified, in order, with the indices they had in the input. The answer of a call depends only on its arguments and the current configuration, whatever reconfigurations or calls preceded it.",
  ["inputs", "histories"], "all match lists over small alphabets and all reconfiguration histories to the depth bound",
  "no test runs a filter", ["serpent/src/front_end/stereo/match_filters.cpp", "serpent/include/serpent/front_end/stereo/match_filters.hpp"],
  [("filter predicates and index bookkeeping", "serpent/src/front_end/stereo/match_filters.cpp")])
P("P07", "Stereo projection and back-projection are inverse and geometrically exact",
  "For every calibrated rectified stereo camera (including axis skew), projecting a point in front of the cameras gives the pinhole pixel coordinates in the left and right image, and back-projecting stereo coordinates with positive disparity gives the point that projects onto them.",
  ["inputs", "configurations"], "all points and stereo coordinates of a grid, for every camera of the set, float and double",
  "no test runs the equations", ["serpent/include/serpent/front_end/stereo/stereo_equations-inl.hpp"],
  [("projection equations", "serpent/include/serpent/front_end/stereo/stereo_equations-inl.hpp")])
P("P08", "Stereo feature tracks keep their identity and stay inside their filters",
  "Over any sequence of stereo frames, each feature identifier denotes one physical track: identifiers are never reused or duplicated, a feature present in consecutive frames keeps its identifier, and lists of left keypoints, right keypoints and matches stay consistent. Every tracked feature passes the stereo match filter and every reported one the distance filter if configured; new features lie inside the region of interest, cost less than the matching limit and are not placed on tracked ones; nothing else is lost, and the reported statistics equal what happened.",
  ["histories", "configurations", "inputs"], "all sequences of detector/flow outcomes over several frames",
  "no test runs the tracker", ["serpent/src/front_end/stereo/stereo_feature_tracker.cpp", "serpent/include/serpent/front_end/stereo/stereo_feature_tracker.hpp"],
  [("track / extract / match / filter pipeline", "serpent/src/front_end/stereo/stereo_feature_tracker.cpp")])
P("P09", "Transforming a typed point cloud moves every geometric attribute consistently",
  "Transforming a cloud applies the full transform to positions, the rotation only to normals and unit vectors, and the congruence rotation to covariances, leaving every other field, the header and the cloud shape as they were (or at their defaults when field copying is off), identically for separate and in-place output. With field copying, invalid points of a non-dense cloud are kept in place and never moved or turned valid, and the point types' constructors and accessors expose one consistent storage.",
  ["inputs", "configurations"], "all transforms of the alphabet x point types x density x copy flag x validity patterns",
  "tests transform one cloud with one transform", ["pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud_transform.hpp", "pointcloud_tools/include/pointcloud_tools/point_types.hpp", "pointcloud_tools/src/point_types.cpp", "pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud_utilities.hpp", "serpent/include/serpent/front_end/lidar/transform_pointcloud-inl.hpp"],
  [("per-type transform", "pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud_transform.hpp"), ("dispatch", "serpent/include/serpent/front_end/lidar/transform_pointcloud-inl.hpp")])
P("P10", "Registration correspondences are the true nearest neighbours",
  "The correspondences computed for a completed registration are, for each source point of the requested subset (reciprocal mode: for each target point), exactly the pair with its nearest neighbour in the other cloud (reciprocal mode: in the requested subset of source points) under the final transform, reported when and only when the distance is within the limit, with indices into the original clouds and the Euclidean distance. Reciprocal search on a tree that is not restricted to the same subset is refused.",
  ["inputs", "configurations"], "all small source/target point sets on a grid, index subsets, thresholds and reciprocity",
  "no test computes correspondences", ["pointcloud_tools/include/pointcloud_tools/impl/registration_utilities.hpp", "pointcloud_tools/include/pointcloud_tools/registration_utilities.hpp"],
  [("correspondence search", "pointcloud_tools/include/pointcloud_tools/impl/registration_utilities.hpp")])
P("P11", "Registration covariance equals the analytic error propagation",
  "For every set of correspondences and every registration result, each covariance estimate (constant, point-to-point and point-to-plane, linear and non-linear, range and range-bias noise models) equals the closed-form propagation of the stated sensor noise through the registration cost, evaluated with independently derived derivatives. The result is a symmetric positive semidefinite 6x6 matrix in the documented order and scales linearly with the noise variance.",
  ["inputs", "configurations"], "all point/normal sets of the alphabet x transforms x noise models",
  "tests compare two fixed clouds against stored values", ["serpent/include/serpent/front_end/lidar/registration_covariance-inl.hpp", "serpent/src/front_end/lidar/registration_covariance.cpp", "serpent/include/serpent/front_end/lidar/registration_covariance.hpp"],
  [("Censi propagation and derivative blocks", "serpent/include/serpent/front_end/lidar/registration_covariance-inl.hpp")])
P("P14", "Graph manager is an exact store; incremental estimate equals the batch solution",
  "Over any history of setting, updating and querying states, named keys and timestamps, the graph manager returns exactly what was last set for each key, and every factor creation adds exactly one factor with the documented connectivity and content. Stereo frames, at consecutive or missed keys, add for each landmark tracked between two frames exactly one observation per observing state, attached to the state that made it; ids that were lost and reacquired, duplicate keys and missing poses are refused. Whatever the order in which states are added and optimised, the incremental estimate and covariances equal the batch solution of all factors up to the optimised key, states beyond it are untouched, and marginalisation removes exactly the states outside the window (landmarks with the last state observing them) without losing their information.",
  ["histories", "inputs", "configurations"], "all operation, stereo-frame, optimisation and marginalisation histories to the depth bounds",
  "tests optimise one fixed chain; stereo frames, missed keys, partial optimisation and marginalisation are never run",
  ["serpent/src/back_end/graph_manager.cpp", "serpent/include/serpent/back_end/graph_manager.hpp", "serpent/include/serpent/back_end/graph_manager-inl.hpp"],
  [("values, named keys, factor creation", "serpent/src/back_end/graph_manager.cpp"), ("incremental optimisation and marginalisation", "serpent/src/back_end/graph_manager.cpp")])
P("P15", "Message conversions are lossless; IMU interpolation and frame changes are exact",
  "Converting a pose, twist, odometry, IMU sample, matrix or covariance to its message and back returns the same values, with covariances in each side's documented order, whatever the destination held before, and shapes that do not match are refused. An interpolated IMU sample lies between its neighbours in time, on the shortest rotation arc, with the nearer sample's covariance; times outside the interval are refused. Over every history of sensor-frame changes or pose compositions, vectors, orientations and covariances equal those of the composed transform applied once.",
  ["inputs", "histories"], "all rotations x vectors x covariances x stamps of the alphabet, all matrix shapes, all reuse/composition histories to the depth bound",
  "tests convert one instance of a few message types and interpolate at three times",
  ["eigen_ros/src/geometry_msgs.cpp", "eigen_ros/src/imu.cpp", "eigen_ros/src/pose.cpp", "eigen_ros/src/twist.cpp", "eigen_ros/src/odometry.cpp", "eigen_ros/src/nav_msgs.cpp", "eigen_ros/src/sensor_msgs.cpp", "eigen_ros/src/std_msgs.cpp", "eigen_ros/src/statistics_msgs.cpp", "eigen_ros/src/eigen_ros.cpp", "eigen_ros/include/eigen_ros/std_msgs.hpp", "eigen_ros/include/eigen_ros/eigen_ros.hpp"],
  [("conversions", "eigen_ros/src/geometry_msgs.cpp"), ("IMU interpolation and frame change", "eigen_ros/src/imu.cpp"), ("pose composition", "eigen_ros/src/pose.cpp")])
P("P16", "Body frames resolve to the configured transform tree",
  "For every configuration tree of body frames (nested, partial or unnormalised transforms, looked-up or dynamic frames, custom ids, aliases), the transform between any two frames is the composition along the tree, in both directions, dynamic frames are looked up at the requested time, names, ids and aliases map to each other consistently, and contradictory configurations are refused. The static transform publisher publishes exactly the frames tf does not already provide, so that the joined tree equals the configuration, whatever tf knows at startup.",
  ["configurations", "inputs"], "all frame trees to the size bound x frame kinds x ids x aliases",
  "no test constructs body frames", ["eigen_ros/src/body_frames.cpp", "eigen_ros/include/eigen_ros/body_frames.hpp", "eigen_ros/src/body_frames_tf.cpp"],
  [("configuration tree and lookups", "eigen_ros/src/body_frames.cpp"), ("static publisher and lookup service", "eigen_ros/src/body_frames_tf.cpp")])
P("P17", "Preintegration uses exactly the IMU sample in force at every instant",
  "For every time-ordered IMU buffer and every interval it covers, preintegration applies for each instant of the interval exactly the sample in force then, the total duration equals the interval, and splitting the interval at samples or dropping samples no longer needed changes nothing; intervals not covered are refused. Pressure and scalar interpolation is linear and refuses times outside the interval, waiting on a condition evaluates it only under the lock and returns with the requested lock state, and preintegration parameters that are not valid covariances are refused.",
  ["inputs", "histories"], "all ordered sample buffers on a tick grid x all intervals and partitions; all condition/shutdown histories of the wait",
  "no test integrates a buffer or waits", ["serpent/src/utils/utilities.cpp", "serpent/include/serpent/utils/utilities.hpp", "serpent/src/utils/ros_conversion.cpp"],
  [("buffer integration and trimming, interpolation, protected sleep", "serpent/src/utils/utilities.cpp"), ("conversions", "serpent/src/utils/ros_conversion.cpp")])
P("P12", "Point cloud field operations change exactly the addressed field",
  "For every layout of a binary point cloud (datatypes, gaps, trailing padding, fields listed in any order), reading, writing, casting, scaling or renaming a field yields the C++ conversion of every point's value and changes no other byte; added fields overlap nothing and keep all existing data; filtering by a maximum keeps exactly the points at or below it, in order. Minimum, maximum, mean, variance, unit vectors, polar coordinates, normal checks and the published summary equal their definitions; missing fields, wrong types, empty clouds and zero vectors are refused.",
  ["inputs", "histories"], "all layouts x shapes x values to the size bound and all operation histories to the depth bound",
  "tests use contiguous float clouds only and are not built here",
  ["pointcloud_tools/src/pclpointcloud2_utilities.cpp", "pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud2_utilities.hpp", "pointcloud_tools/include/pointcloud_tools/pclpointcloud2_utilities.hpp", "pointcloud_tools/src/pointcloud_analyser.cpp"],
  [("field access, cast, filter, statistics", "pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud2_utilities.hpp"), ("add fields, scale, resize", "pointcloud_tools/src/pclpointcloud2_utilities.cpp")])
P("P13", "Deskewing places every point as seen from the frame at the new time",
  "For every motion over a sweep (linear translation, constant-rate rotation), every point time and every new time, before, within or after the sweep, deskewing moves each point to its position in the frame at the new time, sets the stamp to the new time and the point times to zero, and changes nothing else. Deskewing in steps equals deskewing at once; non-positive durations and missing fields are refused unless there is no motion.",
  ["inputs", "histories"], "all motions x point times x new times x layouts of the alphabet, all re-deskewing histories to the depth bound",
  "tests deskew by a translation only, to times within the sweep", ["pointcloud_tools/src/pclpointcloud2_utilities.cpp"],
  [("deskew", "pointcloud_tools/src/pclpointcloud2_utilities.cpp")])
P("P18", "The front end sends consistent data for every stream and callback schedule",
  "For every stream of point clouds, stereo frames and IMU samples, with any transport delay and interleaving of its callbacks, the front end chooses as the new state's time the first stereo frame at or after the earlier cloud's start and before the later one (else that start), and sends exactly once per state: the initial odometry (first state only), the IMU samples in force between consecutive states (with overwritten covariances if configured), the cloud deskewed to the state's time by the motion predicted from the latest optimised state, and the stereo frames required, re-stamped to microseconds. Each optimised state yields the base_link transform and pose, and each later IMU sample one odometry, predicted from the latest optimised state with all samples since. It never waits for data it already has, and every callback returns after shutdown.",
  ["inputs", "schedules", "configurations"], "all stream patterns of the alphabet x configurations; all delay-bounded callback schedules x latencies x back ends; shutdown at every scheduling point",
  "the node is not run by any test", ["serpent/src/front_end/frontend.cpp", "serpent/include/serpent/front_end/frontend.hpp", "serpent/src/utils/utilities.cpp"],
  [("point cloud callback: state time, IMU array, deskew", "serpent/src/front_end/frontend.cpp"), ("IMU-rate odometry, optimised odometry", "serpent/src/front_end/frontend.cpp"), ("waiting", "serpent/src/utils/utilities.cpp")])
P("P19", "Every state receives exactly one pressure, interpolated at its time",
  "For every placement of barometer measurements relative to the states, with any latency, rate and callback interleaving, the front end sends exactly one pressure message per state, in order, stamped with the state's time, whose pressure and variance are the linear interpolation between the measurements around that time (the first measurement if there is none before it; the configured variance if overwritten), once measurements after the state have arrived, however many states were waiting.",
  ["inputs", "schedules", "configurations"], "all subsets of a measurement grid x states x latencies; all delay-bounded callback schedules",
  "no test runs the barometer path", ["serpent/src/front_end/frontend.cpp", "serpent/src/utils/utilities.cpp"],
  [("barometer buffering and publication", "serpent/src/front_end/frontend.cpp"), ("pressure interpolation", "serpent/src/utils/utilities.cpp")])
P("P20", "Every state is optimised once with all its measurements, in any arrival order",
  "For every combination of IMU, registration, stereo and barometer factors, every arrival order of the measurements and every callback interleaving, the back end publishes each state exactly once, in order, stamped with its time, as soon as its required measurements are in; its pose, path, velocity, IMU biases and covariance are those of batch optimisation of all measurements received by then, under the configured noises and with or without marginalisation (velocities from consecutive poses without IMU factors), and the transform sent for registration is the motion predicted from the previous optimised state in the lidar frame. Unusable inputs and settings (invalid covariances, zero noises, non-positive baselines or pressure variances, repeated features, unknown solver, loss or reweighting names) are refused, and stereo outliers weigh as much as the configured robust loss says. After shutdown every callback returns.",
  ["inputs", "schedules", "configurations"], "all factor combinations x all arrival orders of three to four states; all delay-bounded callback schedules; shutdown at every scheduling point",
  "the node is not run by any test", ["serpent/src/back_end/optimisation.cpp", "serpent/include/serpent/back_end/optimisation.hpp", "serpent/src/back_end/graph_manager.cpp"],
  [("callbacks, factor creation, publication", "serpent/src/back_end/optimisation.cpp"), ("graph and keys", "serpent/src/back_end/graph_manager.cpp")])
P("P21", "The whole program estimates the true motion without stopping or losing states",
  "For raw IMU, lidar (swept during motion), stereo and barometer data of a moving rigid body, in every combination of factors and module options, with any one sensor late and in every callback interleaving on at least four threads, the whole program (or its two halves) optimises exactly one state per pair of consecutive clouds: at the first image between them with stereo factors, otherwise at the earlier cloud's start. Its pose and velocity are the true motion within discretisation error, and so are the IMU-rate odometry, base link pose, path, deskewed clouds and global map. No callback waits for ever, no exception ends the program, and after shutdown at any point every callback returns.",
  ["inputs", "schedules", "configurations"], "all configurations x motions x late sensors; all delay-bounded callback schedules; shutdown at every scheduling point",
  "no test runs more than one module at a time", ["serpent/src/nodes/node.cpp", "serpent/src/front_end/frontend.cpp", "serpent/src/back_end/optimisation.cpp", "serpent/include/serpent/mapping/mapping-inl.hpp", "serpent/include/serpent/front_end/lidar/registration-inl.hpp"],
  [("front end", "serpent/src/front_end/frontend.cpp"), ("back end", "serpent/src/back_end/optimisation.cpp"), ("registration", "serpent/include/serpent/front_end/lidar/registration-inl.hpp"), ("mapping", "serpent/include/serpent/mapping/mapping-inl.hpp")])
P("P22", "The map holds every keycloud at its latest pose",
  "For every history of clouds, motions and path corrections, in any arrival order, a cloud becomes a keycloud exactly if it is the first or its pose differs from that of the last keycloud by more than the distance or rotation threshold, and each reported path moves the keyclouds to the poses it contains. Each update publishes one local map, stamped with the cloud and in the current lidar frame, that is the union of the nearest (or latest) keyclouds of the configured number; on request the global map and the pose graph hold every keycloud at its latest pose. Voxel filtering applies to each map only if enabled for it, and a path without the cloud's time is refused.",
  ["inputs", "histories", "configurations"], "all histories of motions and corrections to the depth bound x configurations x arrival orders",
  "the node is not run by any test", ["serpent/include/serpent/mapping/mapping-inl.hpp", "serpent/include/serpent/mapping/mapping.hpp"],
  [("keyclouds, corrections, extraction, services", "serpent/include/serpent/mapping/mapping-inl.hpp")])
P("P23", "The lidar pipeline formats, filters and adds normals as configured",
  "For every configuration, cloud layout and cloud sequence: formatting converts Ouster times and ranges to seconds and metres (or renames a custom cloud's time), drops points above the maximum time and only the first cloud if configured, and sets the lidar frame; the filters enabled (voxel grid, body box, range, outliers, random sample) apply in that order with their configured parameters, each keeping or removing exactly the points it should with all their fields, on one output per input cloud. Unit vectors and surface normals facing the viewpoint (nearest neighbours or radius) are added without moving points, stamps and frames are kept, and clouds without required fields are refused.",
  ["inputs", "histories", "configurations"], "all filter combinations x parameters x layouts x cloud sequences of the alphabet",
  "no test runs these nodes", ["serpent/src/front_end/lidar/pointcloud_formatter.cpp", "serpent/src/front_end/lidar/pointcloud_filter.cpp", "serpent/src/front_end/lidar/pointcloud_add_unit_vectors.cpp", "serpent/include/serpent/front_end/lidar/pointcloud_normal_estimation-inl.hpp", "pointcloud_tools/src/pclpointcloud2_utilities.cpp"],
  [("formatter", "serpent/src/front_end/lidar/pointcloud_formatter.cpp"), ("filters", "serpent/src/front_end/lidar/pointcloud_filter.cpp"), ("normals", "serpent/include/serpent/front_end/lidar/pointcloud_normal_estimation-inl.hpp")])
P("P24", "Every cloud is registered to the last cloud and the map with the right guess",
  "For every stream of clouds, predicted transforms and maps, in any arrival order and callback interleaving, the registration node registers each cloud once against the previous cloud, starting from the predicted transform, and, if map registration is enabled, once more against the map of the previous state starting from that result, whether or not either converges; the first cloud is never registered. The final transform is published once per cloud, stamped with the cloud's time in the body frame, with the covariance of the configured method (constant, or estimated from the points, normals and point noise) with rotation before translation, and every registration method receives exactly its configured parameters, invalid configurations being refused. After shutdown every callback returns.",
  ["inputs", "schedules", "configurations"], "all arrival orders x covariance methods x layouts; all delay-bounded callback schedules; shutdown at every scheduling point; all parameter sets of each method",
  "the node is not run by any test", ["serpent/include/serpent/front_end/lidar/registration-inl.hpp", "serpent/include/serpent/front_end/lidar/registration.hpp", "serpent/include/serpent/front_end/lidar/registration_methods-inl.hpp", "serpent/src/front_end/lidar/registration_methods.cpp", "serpent/src/front_end/lidar/registration_covariance.cpp"],
  [("callbacks, guess, publication", "serpent/include/serpent/front_end/lidar/registration-inl.hpp"), ("method parameters", "serpent/include/serpent/front_end/lidar/registration_methods-inl.hpp"), ("covariance", "serpent/include/serpent/front_end/lidar/registration-inl.hpp")])
P("P25", "Navigation and IMU tools publish exactly composed, integrated, rotated motion",
  "For every history of input messages, the combined odometry and path are the products of all transforms received so far, and the integrated IMU odometry and path start at the configured position and velocity with the orientation of the first sample (or none) and apply each later sample over the time since the previous one, with configured gravity, noises and IMU extrinsics, covariances in ROS order, one message per sample, each stamped with its input; repeated times are refused. Odometry is broadcast as the transform with the same pose, time and frames. Rotated IMU messages have the orientation and its covariance premultiplied by the configured rotation and all else unchanged (but the frame if overwritten), and the displayed IMU transforms are the measured orientation and, if enabled, its product with the configured rotation.",
  ["inputs", "histories", "configurations"], "all histories of motions, samples and configurations over the alphabets to the depth bound",
  "no test runs these nodes", ["navigation_tools/src/combine_transforms.cpp", "navigation_tools/src/integrate_imu.cpp", "navigation_tools/src/odometry_to_tf.cpp", "imu_tools/src/imu_transform.cpp", "imu_tools/src/imu_analysis.cpp", "eigen_ros/src/odometry.cpp"],
  [("combine", "navigation_tools/src/combine_transforms.cpp"), ("integrate", "navigation_tools/src/integrate_imu.cpp"), ("rotate", "imu_tools/src/imu_transform.cpp"), ("display", "imu_tools/src/imu_analysis.cpp")])
P("P26", "Split, rotated and flipped images keep pixels and camera information consistent",
  "For every image and configuration, each split image holds exactly the pixels of its region, flipped and rotated as configured (in the order of the operations' names, zero degrees doing nothing), with the input's time and encoding, and its camera information has the same header and size and the focal lengths and principal point moved with the pixels. Published camera information equals the configured parameters (baseline term minus focal length times baseline) with the image's header and size, one per image. Changing the frame republishes each pair of image and information of the same time once, in any arrival order, with nothing but the frame changed; invalid configurations (other angles, unknown operations, regions outside the image) are refused.",
  ["inputs", "histories", "configurations"], "all operation sequences x image sizes x types; all regions x operations; all arrival orders and losses",
  "no test runs these tools", ["camera_tools/src/image_operations.cpp", "camera_tools/src/split_image.cpp", "camera_tools/src/publish_info.cpp", "camera_tools/src/change_frame_id.cpp"],
  [("rotate, flip", "camera_tools/src/image_operations.cpp"), ("split", "camera_tools/src/split_image.cpp"), ("info", "camera_tools/src/publish_info.cpp"), ("frame", "camera_tools/src/change_frame_id.cpp")])
P("P27", "The stereo front end applies every setting and reports exactly its tracks",
  "For every setting of the detector, optical flow, matcher, filters, mask and distances (under their names in the shipped configuration) and every history of stereo images, in any arrival order of the four messages and with losses, exactly one feature message per complete frame is published, with the left image's header and both calibrations, whose features and identifiers are those of a tracker with exactly these settings. The optional outputs (statistics, points, annotated images) describe the same features and never change them. Unknown settings and unusable calibrations (no or reversed baseline, differing focal lengths with a distance filter) are refused.",
  ["inputs", "histories", "configurations"], "all single settings and pairs of toggles x image histories; all arrival orders and losses; all unusable settings and calibrations",
  "no test runs the stereo node", ["serpent/src/front_end/stereo/stereo_factor_finder.cpp", "serpent/src/front_end/stereo/stereo_feature_tracker.cpp"],
  [("settings, synchronisation, calibration and messages", "serpent/src/front_end/stereo/stereo_factor_finder.cpp")])
P("P28", "In every configuration the programs form one complete, consistent system",
  "In every configuration of factors, filters, covariance method and map registration, every topic read inside the system has exactly one producer of the same type and every enabled module is in the path: a cloud passes exactly the enabled filters, and carries unit vectors exactly when the covariance method needs them. The separate front end and back end programs together equal the whole program, in either start order, and each program spins the configured number of threads (refusing fewer than one) and ends with success on shutdown. Every setting in the shipped configuration is read under its name and type, every documented value is accepted and unknown ones are refused, and the launch files only use names the programs have.",
  ["configurations", "inputs", "schedules"], "all combinations of module switches x programs x start orders; all thread counts of the alphabet; all shipped settings and documented values; all launch files",
  "no test starts a program or reads a configuration",
  ["serpent/src/nodes/node.cpp", "serpent/src/nodes/frontend_node.cpp", "serpent/src/nodes/backend_node.cpp", "serpent/config/tuning_default.yaml", "serpent/launch/serpent.launch"],
  [("composition of the modules", "serpent/src/nodes/node.cpp")])
P("P29", "No two callbacks ever use the same data at the same time",
  "In every configuration and every interleaving of the callbacks and services on any number of threads, no two of them access the same data without a lock, a message or an atomic operation ordering the accesses, unless both only read. This includes the data shared through messages: a message is not changed once it is published.",
  ["schedules", "configurations"], "all configurations; all delay-bounded callback schedules; an early input or service call at every scheduling point",
  "no test runs two callbacks at once",
  ["serpent/src/front_end/frontend.cpp", "serpent/src/back_end/optimisation.cpp", "serpent/include/serpent/front_end/lidar/registration-inl.hpp", "serpent/include/serpent/mapping/mapping-inl.hpp", "serpent/src/utils/utilities.cpp"],
  [("locks of the front end", "serpent/src/front_end/frontend.cpp"), ("lock of the graph", "serpent/src/back_end/optimisation.cpp"), ("lock of the registrations", "serpent/include/serpent/front_end/lidar/registration-inl.hpp"), ("lock of the map", "serpent/include/serpent/mapping/mapping-inl.hpp")])

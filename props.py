"""Per-property build and reporting configuration (see DESIGN.md)."""
import glob
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SERPENT_REPO", "/repo")
TOOLCHAIN = {"cxx": "/usr/bin/g++"}
H = lambda f: os.path.join(VERIF, "harness", f)
R = lambda f: os.path.join(REPO, f)

BASE = ["-std=c++17", "-O1", "-w", "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS",
        "-DPCL_NO_PRECOMPILE", "-include", "functional", "-include", "stdexcept",
        "-I" + os.path.join(VERIF, "harness"),
        "-I" + R("eigen_ext/include"), "-I" + R("eigen_gtsam/include"), "-I" + R("pointcloud_tools/include"),
        "-I" + R("serpent/include"),
        "-isystem", "/usr/include/eigen3"]
PCL = ["-isystem", "/usr/include/pcl-1.14", "-include", os.path.join(VERIF, "harness", "compat.hpp")]
CV = ["-isystem", "/usr/include/opencv4"]
PCL_LIBS = ["-lpcl_common", "-lpcl_kdtree", "-lpcl_search", "-lpcl_features", "-lpcl_filters", "-lpcl_registration",
            "-lpcl_octree", "-lpcl_sample_consensus", "-lflann", "-l:liblz4.so.1", "-lboost_filesystem", "-lboost_serialization"]
CV_LIBS = ["-lopencv_core", "-lopencv_features2d", "-lopencv_imgproc", "-lopencv_calib3d", "-lopencv_video"]
GTSAM_LIBS = ["-lgtsam", "-lboost_serialization", "-ltbb"]

COMMON_ASSUMPTIONS = [
    "g++ 13 at -O1 with glibc; automatic variables pattern-initialised so that reads of uninitialised locals are visible",
    "third-party libraries (Eigen, PCL, OpenCV, GTSAM) are trusted",
]


def spec(sources, flags=(), libs=(), level="exploration", rule="", bounds="", assumptions=(), **kw):
    d = dict(sources=sources, flags=BASE + list(flags), libs=list(libs), link=[], level=level, rule=rule, bounds=bounds,
             assumptions=COMMON_ASSUMPTIONS + list(assumptions))
    d.update(kw)
    return d


STUBS = os.path.join(VERIF, "stubs")
MSGS = os.path.join(VERIF, "build", "msgs")
ROSSTUB = os.path.join(STUBS, "rosstub.cpp")


def ros_flags():
    """Generates the message headers from /repo's .msg/.srv files and returns the flags for building the ROS parts."""
    sys.path.insert(0, STUBS)
    import gen_msgs
    gen_msgs.generate(REPO, STUBS, MSGS)
    return ["-include", os.path.join(STUBS, "ros_compat.hpp"), "-I" + STUBS, "-I" + MSGS, "-I" + R("eigen_ros/include"),
            "-I" + R("camera_tools/include"), "-I" + R("imu_tools/include"), "-I" + R("navigation_tools/include"),
            "-isystem", "/usr/include/pcl-1.14", "-isystem", "/usr/include/opencv4"]


ROS_ASSUMPTIONS = ["ROS itself (time, topics, parameters, exact-time synchronisation, tf lookup) is represented by the in-process "
                   "stand-in in /verif/stubs; message types are generated from the repository's own .msg/.srv files"]

PROPS = {}


def prop(pid):
    def deco(f):
        PROPS[pid] = f
        return f
    return deco


@prop("P01")
def p01(tier):
    return spec([H("p01_se3.cpp")], rule=(
        "Cases: all combinations of 32 rotations (24 cube rotations, generic, tiny, near half-turn) x 6 translations per "
        "operand, float and double; all motion histories over a 7-motion alphabet. Non-trivial: distinct resulting values."),
        bounds={"quick": "pose pairs 192x44; histories depth 4", "thorough": "pose pairs 192x192; histories depth 6"})


@prop("P02")
def p02(tier):
    return spec([H("p02_covariance.cpp")], rule=(
        "All symmetric matrices over a value alphabet (n<=3), every single-entry corruption (NaN/Inf/asymmetry/sign) of "
        "base covariances (n in 2,3,4,6,9), every reorder boundary, all rotations x covariances, all composition histories. "
        "Non-trivial: distinct matrices/results."),
        bounds={"quick": "histories depth 4", "thorough": "histories depth 6"})


@prop("P03")
def p03(tier):
    return spec([H("p03_gtsam.cpp")] + sorted(glob.glob(R("eigen_gtsam/src/*.cpp"))), libs=GTSAM_LIBS, level="model_checking", rule=(
        "248 rotations x 6 translations round-tripped; all composition histories over an 8-motion alphabet. "
        "Non-trivial: distinct poses."),
        bounds={"quick": "histories depth 5 (32768)", "thorough": "histories depth 7 (2.1M)"})

STEREO = [R("serpent/src/front_end/stereo/" + f) for f in
          ("stereo_cost_functions.cpp", "window_functions.cpp", "stereo_keypoint_matcher.cpp", "match_filters.cpp")]


@prop("P04")
def p04(tier):
    return spec([H("p04_costs.cpp")] + STEREO[:2], CV, ["-lopencv_core"], rule=(
        "All pixel contents of small windows over a value alphabet, every window size and placement in a 7x6 image pair, "
        "large windows, continuous and non-continuous images, all image types. Non-trivial: distinct cost vectors."),
        bounds="windows up to 3x3 exhaustively over 2-4 pixel values; up to 7x6 by placement; up to 64x64 by pattern")


@prop("P05")
def p05(tier):
    return spec([H("p05_matcher.cpp")] + STEREO[:3], CV, ["-lopencv_core"], level="exploration", rule=(
        "All 1-row image pairs over a pixel alphabet x keypoint x cost x filter x direction; all keypoint positions in "
        "textured images; all subsets of a keypoint set on both sides. Non-trivial: distinct outcomes."),
        bounds={"quick": "rows of 4 (3 values, 1x1) and 5 (2 values, 3x1) pixels; 6+6 keypoint subsets",
                "thorough": "plus rows of 6 pixels and 4 values"},
        assumptions=["ties between equal costs, exact ratio-threshold equality, and ratio tests on negative costs are not judged"])


@prop("P06")
def p06(tier):
    return spec([H("p06_filters.cpp")] + STEREO[3:], CV, ["-lopencv_core", "-lopencv_features2d"], level="model_checking", rule=(
        "All match lists over small alphabets, all reconfiguration histories of the depth filter. Non-trivial: distinct kept sets."),
        bounds={"quick": "2 calls per object; histories of 3 reconfigurations", "thorough": "histories of 4"})


@prop("P07")
def p07(tier):
    return spec([H("p07_projection.cpp")], rule="4 cameras x skew x all points/stereo coordinates of a grid, float and double.",
                bounds="5x5x8 points, 5x6x4 stereo coordinates per camera")


@prop("P09")
def p09(tier):
    return spec([H("p09_clouds.cpp"), R("pointcloud_tools/src/point_types.cpp")], PCL, PCL_LIBS, rule=(
        "3 point types x 4-10 entry points (float/double matrices and transforms) x output aliasing x density x field copying, over "
        "160 poses (fixed clouds) and over all clouds of <=3 points from 7 kinds (valid, NaN, Inf); in-place/ping-pong transform "
        "histories; all point-type constructors over value alphabets. Non-trivial: distinct resulting clouds/points."),
        bounds={"quick": "clouds of <=3 points; histories of 3", "thorough": "clouds of <=3 points; histories of 4"},
        assumptions=["with field copying off nothing is promised about the invalid points of a non-dense cloud"])


@prop("P10")
def p10(tier):
    return spec([H("p10_correspondences.cpp"), R("pointcloud_tools/src/point_types.cpp")], PCL, PCL_LIBS, rule=(
        "All source/target clouds over a point grid x all index subsets x transforms x distance limits, forward and reverse, "
        "compared with brute force; two-query histories on one registration object. Non-trivial: distinct correspondence sets."),
        bounds={"quick": "<=2x2 points from 4 grid positions", "thorough": "<=3x3 points from 7 grid positions"},
        assumptions=["any of several equidistant nearest neighbours is accepted"])


@prop("P11")
def p11(tier):
    return spec([H("p11_covariance.cpp"), R("serpent/src/front_end/lidar/registration_covariance.cpp"), R("pointcloud_tools/src/point_types.cpp")], PCL, PCL_LIBS, rule=(
        "Derivative blocks of 4 cost models over rotation angles x axes x translations x points x normals, against second-order "
        "automatic differentiation in long double; full pipeline (4 methods x 4 models x transforms x point subsets x residual "
        "patterns x index subsets x limits x variances) against explicit error propagation; all configuration strings. "
        "Non-trivial: distinct resulting matrices."),
        bounds="9 angles x 8 axes x 3 translations x 5x5 points x 8 normals; up to 7 correspondences",
        assumptions=["covariances whose Hessian has condition number above 1e5 are not judged (count still is)"])


@prop("P14")
def p14(tier):
    return spec([H("p14_graph.cpp"), ROSSTUB, R("serpent/src/back_end/graph_manager.cpp")], ros_flags(), GTSAM_LIBS, level="model_checking", rule=(
        "All histories of value, named-key and factor operations against a map model; all stereo tracking histories (feature subsets x "
        "key gaps) against the expected factors and landmarks; all add/optimise/marginalise histories against batch optimisation. "
        "Non-trivial: distinct histories/states."),
        bounds={"quick": "3 state keys; histories of 4-5 operations; 4 stereo frames x 2 features", "thorough": "histories of 5-6; 5 frames"},
        assumptions=ROS_ASSUMPTIONS + ["a feature id seen once, lost and seen again without ever having become a landmark is not judged"])


EIGEN_ROS = [R("eigen_ros/src/%s.cpp" % f) for f in ("eigen_ros", "geometry_msgs", "imu", "nav_msgs", "odometry", "pose", "sensor_msgs",
                                                     "statistics_msgs", "std_msgs", "twist")]


@prop("P15")
def p15(tier):
    return spec([H("p15_conversions.cpp"), ROSSTUB] + EIGEN_ROS, ros_flags(), ["-lgtsam"] * 0, level="model_checking", rule=(
        "All rotations x vectors x covariances x stamps x fresh/reused destinations through every conversion; all matrix shapes and message-reuse "
        "histories; all placements of an interpolation time; all histories of frame changes and pose compositions, against long-double references. "
        "Non-trivial: distinct inputs/histories."),
        bounds={"quick": "13 rotations, 4 vectors, 3 covariances, 3 stamps; histories of 2", "thorough": "histories of 3"},
        assumptions=ROS_ASSUMPTIONS)


@prop("P16")
def p16(tier):
    return spec([H("p16_frames.cpp"), ROSSTUB, R("eigen_ros/src/body_frames.cpp"), R("eigen_ros/src/body_frames_tf.cpp")] + EIGEN_ROS, ros_flags(), [],
        level="model_checking", rule=(
        "All configuration trees (shape x kind of every frame: identity / translation / rotation / looked up / dynamic, x frame ids x aliases); every "
        "query between every pair of frames at two times, the published static tree and the lookup service against composed long-double "
        "transforms; every misconfiguration. Non-trivial: distinct trees."),
        bounds={"quick": "up to 2 frames besides the body", "thorough": "up to 3 frames, nested up to 3 deep"}, assumptions=ROS_ASSUMPTIONS)


SERPENT_UTILS = [R("serpent/src/utils/utilities.cpp"), R("serpent/src/utils/ros_conversion.cpp")]


@prop("P17")
def p17(tier):
    return spec([H("p17_imu.cpp"), ROSSTUB] + SERPENT_UTILS + EIGEN_ROS, ros_flags(), GTSAM_LIBS, level="model_checking", rule=(
        "All ordered IMU buffers on a tick grid (with repeated stamps) x all intervals against a tick-by-tick sample-and-hold reference; all "
        "partitions of intervals with trimming between; all condition/shutdown histories of the waiting primitive; all interpolation placements. "
        "Non-trivial: distinct cases."),
        bounds={"quick": "6-7 ticks, up to 4 samples (partition: every sample pattern)", "thorough": "8-9 ticks, up to 5 samples"}, assumptions=ROS_ASSUMPTIONS)


PCT2 = [R("pointcloud_tools/src/pclpointcloud2_utilities.cpp"), R("pointcloud_tools/src/pointcloud_analyser.cpp")]
ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]


@prop("P12")
def p12(tier):
    return spec([H("p12_fields.cpp"), ROSSTUB] + PCT2, ros_flags() + ASAN, ["-fsanitize=address"] + PCL_LIBS[:1], level="model_checking", rule=(
        "All layouts of up to 2-3 fields (8 datatypes, gaps, trailing padding, listing order) x cloud shapes x values through every accessor, cast, scale, "
        "statistic and filter against a byte-level reference; all histories of operations on one cloud against a table of columns. AddressSanitizer on. "
        "Non-trivial: distinct clouds/histories."),
        bounds={"quick": "2 fields; histories of 4 operations", "thorough": "3 fields; histories of 5"},
        assumptions=ROS_ASSUMPTIONS + ["little-endian clouds without row padding; conversions whose value does not fit the destination type (undefined in C++) "
            "and cast_field_with_scale on a field that already has the type are not judged"])


@prop("P13")
def p13(tier):
    return spec([H("p13_deskew.cpp"), ROSSTUB] + PCT2[:1], ros_flags() + ASAN, ["-fsanitize=address"] + PCL_LIBS[:1], level="model_checking", rule=(
        "All motions x sweep durations x point times x new times (before, within and after the sweep) x point layouts, and all histories of repeated "
        "deskewing, against a long-double constant-motion reference. AddressSanitizer on. Non-trivial: distinct cases/histories."),
        bounds={"quick": "24 motions, up to 3 points; histories of 3", "thorough": "up to 4 points; histories of 4"},
        assumptions=ROS_ASSUMPTIONS + ["rotation over the sweep below a half turn"])


@prop("P08")
def p08(tier):
    return spec([H("p08_tracker.cpp"), R("serpent/src/front_end/stereo/stereo_feature_tracker.cpp"), ROSSTUB] + STEREO, ros_flags(), CV_LIBS,
        level="model_checking", rule=(
        "All sequences of frames over the outcomes of the scripted detector (nothing, near, at the limit of, away from a track, on one side, costly, "
        "too distant), optical flow (tracked, lost left/right, off the epipolar line, negative disparity, too distant) and stereo matcher; every report "
        "compared with a reference track table. Non-trivial: distinct reported histories."),
        bounds={"quick": "1 object (up to 2 detections) x 3 frames; 2 objects x 4 frames", "thorough": "1 object x 4 frames; 2 objects x 5 frames"},
        assumptions=ROS_ASSUMPTIONS + ["detector, optical flow and matcher satisfy their own interfaces (matcher checked by P05, filters by P06)"])


FRONTEND = [H("sched.cpp"), R("serpent/src/front_end/frontend.cpp"), R("eigen_ros/src/body_frames.cpp"), R("eigen_gtsam/src/geometry.cpp"), PCT2[0], ROSSTUB]
SCHED_ASSUMPTIONS = ["callbacks are preempted only at lock operations, sleeps, publications and their ends (sufficient where shared data is lock-protected)"]


@prop("P18")
def p18(tier):
    return spec([H("p18_frontend.cpp")] + FRONTEND + EIGEN_ROS + SERPENT_UTILS, ros_flags(), GTSAM_LIBS + PCL_LIBS[:1] + ["-ldl"], level="model_checking", rule=(
        "All streams of stereo frames (none, on the cloud stamp, between, several, sub-microsecond) per interval x IMU phase x configuration in arrival "
        "order, and all delay-bounded schedules of the front end's callbacks (real code as coroutines; mutexes, sleeps and publications are scheduling "
        "points) x transport delays x back-end type; every published message compared with a reference. Non-trivial: distinct publication histories."),
        bounds={"quick": "4 clouds in order; 3 clouds with 1 delay", "thorough": "4 clouds in order; 4 clouds with 2 delays"},
        assumptions=ROS_ASSUMPTIONS + SCHED_ASSUMPTIONS + ["IMU data begins at least two samples before the first cloud; stereo frames keep coming"])


@prop("P19")
def p19(tier):
    return spec([H("p19_barometer.cpp")] + FRONTEND + EIGEN_ROS + SERPENT_UTILS, ros_flags(), GTSAM_LIBS + PCL_LIBS[:1] + ["-ldl"], level="model_checking", rule=(
        "All subsets of a grid of barometer measurements x state placements x latencies in arrival order, and delay-bounded schedules of the front end's "
        "callbacks x barometer rates, phases and latencies; each state's pressure compared with the piecewise linear reference. Non-trivial: distinct publication histories."),
        bounds={"quick": "3 states, 7 grid times; 3 clouds with 1 delay", "thorough": "3 states, 7 grid times; 4 clouds with 2 delays"},
        assumptions=ROS_ASSUMPTIONS + SCHED_ASSUMPTIONS + ["barometer measurements continue after the last state (as many as there are states)"])


BACKEND = [H("sched.cpp"), R("serpent/src/back_end/optimisation.cpp"), R("serpent/src/back_end/graph_manager.cpp"), R("eigen_ros/src/body_frames.cpp"), R("eigen_gtsam/src/geometry.cpp"), ROSSTUB]


@prop("P20")
def p20(tier):
    return spec([H("p20_backend.cpp")] + BACKEND + EIGEN_ROS + SERPENT_UTILS, ros_flags(), GTSAM_LIBS + PCL_LIBS[:1] + ["-ldl"], level="model_checking", rule=(
        "All arrival orders of the inputs (IMU arrays, registrations, stereo features incl. missing and extra frames, pressures from any state on) for every "
        "combination of factor types, and all delay-bounded schedules of the back end's callbacks and shutdown points; every published state, path, bias, "
        "covariance and predicted transform compared with batch optimisation of the factors received so far. Every robust loss with its parameters and reweighting schemes, "
        "and every solver and noise setting; every unusable setting and input must be refused. Non-trivial: distinct publication histories."),
        bounds={"quick": "3 states, all arrival orders; 1 delay; each setting alone x 14 factor combinations", "thorough": "4 states (3 with stereo and barometer), all arrival orders; 2 delays; pairs of settings"},
        assumptions=ROS_ASSUMPTIONS + SCHED_ASSUMPTIONS + ["measurements are nearly consistent, so that one Gauss-Newton step per state reaches the optimum within the tolerance"])


@prop("P22")
def p22(tier):
    return spec([H("p22_mapping.cpp"), ROSSTUB, H("sched.cpp"), R("eigen_ros/src/body_frames.cpp")] + EIGEN_ROS + PCT2[:1] + [R("pointcloud_tools/src/point_types.cpp")], ros_flags(), GTSAM_LIBS + PCL_LIBS + ["-ldl"], level="model_checking", rule=(
        "All histories of motions (stay, short, long, back, turn) and path corrections (none, all, one, not reported) for both frame extraction methods and 1-3 "
        "frames; all configurations of voxel grids, frames, point types and arrival orders; services before and after. Local map, global map and pose graph "
        "compared with the union of the selected keyclouds at their latest poses. Non-trivial: distinct maps."),
        bounds={"quick": "histories of 5 clouds; configurations with 3", "thorough": "histories of 6 clouds; configurations with 4"},
        assumptions=ROS_ASSUMPTIONS + ["keyclouds nearest by position with a tie within 1 mm, and points within 0.05 mm of a voxel's border, are not judged"])


@prop("P23")
def p23(tier):
    fl = "serpent/src/front_end/lidar/"
    return spec([H("p23_lidar.cpp"), ROSSTUB, H("sched.cpp"), R(fl + "pointcloud_formatter.cpp"), R(fl + "pointcloud_filter.cpp"), R(fl + "pointcloud_add_unit_vectors.cpp"),
                 R(fl + "registration_covariance.cpp"), R("serpent/src/front_end/stereo/sensor_point_types.cpp"), R("eigen_ros/src/body_frames.cpp"),
                 R("pointcloud_tools/src/point_types.cpp")] + EIGEN_ROS + PCT2[:1], ros_flags(), GTSAM_LIBS + PCL_LIBS + ["-ldl"], level="model_checking", rule=(
        "All formatter configurations x layouts x sizes x cloud sequences; all 31 filter combinations x parameters x cloud sequences; the pipeline of filter, unit "
        "vectors and normals over surfaces, search methods and viewpoints. Every output compared with the definition. Non-trivial: distinct configurations and outputs."),
        bounds={"quick": "sequences of 3 (formatter) and 2 clouds", "thorough": "sequences of 4 and 3 clouds"},
        assumptions=ROS_ASSUMPTIONS + ["points within 1e-5 of a voxel, box or range limit are not judged"])


@prop("P24")
def p24(tier):
    fl = "serpent/src/front_end/lidar/"
    return spec([H("p24_registration.cpp"), ROSSTUB, H("sched.cpp"), R(fl + "registration_covariance.cpp"), R(fl + "registration_methods.cpp"), R("eigen_ros/src/body_frames.cpp"),
                 R("pointcloud_tools/src/point_types.cpp")] + EIGEN_ROS + SERPENT_UTILS + PCT2[:1], ros_flags(), GTSAM_LIBS + PCL_LIBS + ["-ldl"], level="model_checking", rule=(
        "All arrival orders of clouds, predictions and maps as the back end and the map allow (scan to map on and off, point types, frames, debug clouds), all "
        "delay-bounded schedules of the callbacks and shutdown points, all covariance configurations, all registration methods with every pair of parameters. "
        "Source, target and initial guess of every alignment and every published transform compared with the reference. Non-trivial: distinct histories."),
        bounds={"quick": "4 clouds in every order; 2 delays", "thorough": "5 clouds in every order; 3 delays"},
        assumptions=ROS_ASSUMPTIONS + SCHED_ASSUMPTIONS + ["fast_gicp is replaced by a scripted alignment that records what it is given; ICP, GICP and NDT are PCL's"])


@prop("P25")
def p25(tier):
    nt, it = "navigation_tools/src/", "imu_tools/src/"
    return spec([H("p25_navigation.cpp"), ROSSTUB, H("sched.cpp"), R(nt + "combine_transforms.cpp"), R(nt + "integrate_imu.cpp"), R(nt + "odometry_to_tf.cpp"),
                 R(it + "imu_analysis.cpp"), R(it + "imu_transform.cpp"), R("eigen_ros/src/body_frames.cpp"), R("eigen_gtsam/src/geometry.cpp")] + EIGEN_ROS,
        ros_flags(), GTSAM_LIBS + ["-ldl"], level="model_checking", rule=(
        "All histories of transforms, IMU samples and odometry messages over the alphabets (incl. half turns, kilometre steps, uneven sample times) x message "
        "types, initial states, extrinsics, noises and frames; every published message compared with exact products and kinematics. Non-trivial: distinct histories."),
        bounds={"quick": "5 transforms, 4 samples, 3 odometry messages", "thorough": "7 transforms, 6 samples, 4 odometry messages"},
        assumptions=ROS_ASSUMPTIONS + ["integrated covariances are compared with GTSAM's own preintegration given the same samples"])


@prop("P26")
def p26(tier):
    ct = "camera_tools/src/"
    return spec([H("p26_camera.cpp"), H("p26_info.cpp"), ROSSTUB, H("sched.cpp"), R(ct + "change_frame_id.cpp"), R(ct + "image_operations.cpp"), R(ct + "publish_info.cpp"), R(ct + "split_image.cpp")],
        ros_flags() + ASAN, ["-fsanitize=address"] + CV_LIBS + ["-ldl"], level="model_checking", rule=(
        "All sequences of rotations and flips on all small image sizes and pixel types; all regions x operations x encodings of split images; all configurations of "
        "published camera info; all arrival orders and losses of images and infos. Every pixel and parameter compared with the definition. AddressSanitizer on. "
        "Non-trivial: distinct cases."),
        bounds={"quick": "images up to 4x4, 3 operations; 2 split images; 4 frames", "thorough": "4 operations, 2 split images with all operations; 5 frames"},
        assumptions=ROS_ASSUMPTIONS + ["the principal point may count pixel centres at integers or at halves; D, R and P after operations (documented as possibly invalid) are not judged"])


@prop("P27")
def p27(tier):
    return spec([H("p27_stereo.cpp"), ROSSTUB, H("sched.cpp"), R("serpent/src/front_end/stereo/stereo_factor_finder.cpp"), R("serpent/src/front_end/stereo/stereo_feature_tracker.cpp")] + STEREO,
        ros_flags(), CV_LIBS + PCL_LIBS + ["-ldl"], level="model_checking", rule=(
        "All single and paired changes of every setting (47 settings, 4 detectors) over image sequences; all combinations of optional outputs; all orders of arrival and single "
        "losses of the messages of two frames; all unknown setting values. Every published feature compared with those of a tracker built from the same settings. "
        "Non-trivial: distinct feature histories."),
        bounds={"quick": "pairs of settings, 3 frames", "thorough": "triples of settings, 4 frames"},
        assumptions=ROS_ASSUMPTIONS + ["the tracker itself is judged by P04-P08", "calibrations have equal K and P focal lengths"])


def program(name):
    return (R("serpent/src/nodes/" + name + "_node.cpp" if name != "serpent" else "serpent/src/nodes/node.cpp"), ["-Dmain=" + name.replace("_pipeline", "") + "_main"])


def all_sources():
    """Everything the programs link: all of serpent's library and what it uses of the other packages."""
    return sorted(glob.glob(R("serpent/src/front_end/**/*.cpp"), recursive=True) + glob.glob(R("serpent/src/back_end/*.cpp")) + glob.glob(R("serpent/src/utils/*.cpp"))
                  + glob.glob(R("eigen_gtsam/src/*.cpp"))
                  + [f for f in glob.glob(R("eigen_ros/src/*.cpp")) if not f.endswith("_node.cpp")] + PCT2 + [R("pointcloud_tools/src/point_types.cpp")])


@prop("P21")
def p21(tier):
    return spec([H("p21_loop.cpp"), H("sched.cpp"), ROSSTUB, program("serpent"), program("frontend"), program("backend")] + all_sources(),
        ros_flags(), ["-Wl,-z,muldefs"] + GTSAM_LIBS + CV_LIBS + PCL_LIBS + ["-ldl"], level="model_checking", rule=(
        "The unmodified whole program (or its two halves) is fed the raw sensor data of a rigid body with constant acceleration and rotation, computed from its closed-form motion. All factor "
        "combinations x barometer x map registration x unit vectors x cloud format x body frame x programs x graph frames x late sensor x marginalisation, filter and rate variants x motions in "
        "the default schedule; all delay-bounded callback interleavings with lock acquisitions of the program as scheduling points; shutdown at every scheduling point. The published states, "
        "odometry, path, deskewed clouds and map are compared with the motion. Non-trivial: distinct configurations and schedule lengths."),
        bounds={"quick": "3 motions, 4 to 5 clouds; 1 delay for 3 factor sets; shutdown at each scheduling point of 3 clouds",
                "thorough": "6 factor sets; 1 delay with each sensor late; 2 delays for 2 factor sets"},
        assumptions=ROS_ASSUMPTIONS + SCHED_ASSUMPTIONS + ["motions are those of the alphabet; sensor data are noise free; at least four threads; clouds lost because the queues overflow are not judged"])


@prop("P29")
def p29(tier):
    # The instrumented objects come first, so that their copies of inline functions are the ones linked.
    instrumented = [(s, ["-fsanitize=thread"]) if isinstance(s, str) else (s[0], s[1] + ["-fsanitize=thread"]) for s in [program("serpent")] + all_sources()]
    return spec(instrumented + [H("p29_races.cpp"), H("race.cpp"), H("sched.cpp"), ROSSTUB], ros_flags() + ["-Dfrontend_main=serpent_main", "-Dbackend_main=serpent_main"],
        ["-Wl,-z,muldefs", "-rdynamic", "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=__cxa_guard_acquire,--wrap=__cxa_guard_release"] + GTSAM_LIBS + CV_LIBS + PCL_LIBS + ["-ldl"],
        level="model_checking", sources_first=True, rule=(
        "The unmodified whole program, compiled with thread instrumentation, is run as in P21 with a vector clock per callback: every pair of accesses to the same byte, at least one of them a "
        "write, that no lock, atomic, one-time initialisation, message or serial subscription orders is a violation. All module options in the default "
        "schedule; all delay-bounded interleavings; an early input, or a service call, at every scheduling point. Non-trivial: distinct configurations and schedule lengths."),
        bounds={"quick": "4 to 5 clouds; 1 delay with 3 clouds; interrupts at each scheduling point of 4 clouds, services of 3, without further delays", "thorough": "2 delays; interrupts and services at each scheduling point of 4 clouds with 1 delay"},
        assumptions=ROS_ASSUMPTIONS + ["callbacks of one subscription are serial; callbacks of different subscriptions are not", "accesses inside the libraries of GTSAM, PCL and OpenCV (not their inline code) are not watched"])


@prop("P28")
def p28(tier):
    sys.path.insert(0, os.path.join(VERIF, "tools"))
    import p28_config
    p28_config.write(REPO, os.path.join(VERIF, "build", "gen", "p28_config.hpp"))
    return spec([H("p28_programs.cpp"), H("sched.cpp"), ROSSTUB, program("serpent"), program("frontend"), program("backend"), program("stereo_pipeline")] + all_sources(),
        ros_flags() + ["-I" + os.path.join(VERIF, "build", "gen")], ["-Wl,-z,muldefs"] + GTSAM_LIBS + CV_LIBS + PCL_LIBS + ["-ldl"], level="model_checking", rule=(
        "All combinations of factors, filters, covariance methods and scan-to-map for the whole program and for its two halves in either order; all thread counts x programs; every "
        "setting of the shipped configuration; every documented and unknown value of every selecting setting; every launch file. Non-trivial: distinct configurations."),
        bounds={"quick": "complete", "thorough": "complete"},
        assumptions=ROS_ASSUMPTIONS + ["names are compared before remapping"])

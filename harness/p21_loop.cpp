// P21: the whole program in a closed loop. A rigid body moves with constant acceleration and constant angular velocity; its raw
// sensor data are fed to the unmodified program, whose callbacks run under the controlled scheduler. The published estimates must
// be the motion, in every configuration, arrival order and callback interleaving, and the program must neither stop nor lose a state.
#include "pipeline.hpp"
#ifdef RACES
#include "race.hpp"
#endif
#include <tbb/global_control.h>
#include <sensor_msgs/PointCloud2.h>
#include <std_srvs/Empty.h>
#include <unistd.h>
#include "pointcloud_tools/point_types.hpp"
#include "serpent/StereoFeatures.h"

int serpent_main(int, char**);
int frontend_main(int, char**);
int backend_main(int, char**);

namespace {
using namespace scene_ns;
using ref::L;
using ref::V3;
using ref::v3;
tbb::global_control sequential(tbb::global_control::max_allowed_parallelism, 1);
typedef int (*Main)(int, char**);
rosstub::Bus& bus() { return rosstub::Bus::get(); }
struct Quiet {
    std::streambuf *o = std::cout.rdbuf(nullptr), *e = std::cerr.rdbuf(nullptr);
    ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};
const double gravity = 9.81;
const ns_t ms = 1000000ULL;

struct Config {
    bool registration = true, imu = true, stereo = false, barometer = false;
    bool s2m = true, unit = false, split = false, base_link = false, custom = false, graph_frames = false, voxel = true, marginalise = false;
    int motion = 0, clouds = 4, threads = 4, delays = 0;
    int imu_ms = 20;
    int late = -1;             // sensor whose data arrive late: 0 IMU, 1 stereo, 2 barometer, 3 clouds
    std::string interrupt;     // an input of this topic arrives early at any scheduling point
    std::string service;       // a service is called at any scheduling point
    std::size_t stop = 0;      // shutdown at this scheduling point
};

struct Loop {
    Config c;
    Frames frames;
    std::vector<V3> landmarks;
    ref::M3 R0;
    V3 p0, v0, a, w;
    std::unique_ptr<Scene> scene;
    std::vector<ns_t> cloud_times, stereo_times;

    explicit Loop(const Config& c) : c(c), frames(c.base_link) {
        static const L motions[3][12] = {
            {0.9L, 0.3L, -0.1L, 0.3L, -0.2L, 0.1L, 0.05L, -0.1L, 0.3L, 0, 0, 0.4L},       // turning and accelerating
            {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0},                                          // standing still
            {-1.5L, 0.8L, 0.4L, 1.0L, 0.5L, -0.6L, -0.4L, 0.3L, -0.8L, 0.2L, -0.1L, -2.5L}};
        const L* m = motions[c.motion];
        v0 = v3(m[0], m[1], m[2]); a = v3(m[3], m[4], m[5]); w = v3(m[6], m[7], m[8]);
        R0 = ref::expm(v3(m[9], m[10], m[11]));
        p0 = c.motion == 1 ? v3(0, 0, 0) : v3(3.0L, -2.0L, 1.5L);
        for (int k = 0; k < c.clouds; ++k) cloud_times.push_back(base_ns + k * 100 * ms);
        for (int k = 0; k < c.clouds; ++k) stereo_times.push_back(base_ns + k * 100 * ms + 30 * ms);
        // Landmarks around the initial camera: a grid in front of it, and some behind
        const ref::Pose cam = body(base_ns) * frames.pose("stereo");
        for (int i = 0; i < 12; ++i) landmarks.push_back(ref::apply(cam, v3(-1.6L + 1.1L * (i % 4), -1.2L + 1.1L * (i / 4), 3.2L + 0.9L * ((i * 5) % 3) + 0.05L * i)));
        for (int i = 0; i < 4; ++i) landmarks.push_back(ref::apply(cam, v3(-2 + 1.5L * i, 1.5L - 0.7L * i, -3.5L - 0.4L * (i % 2))));
    }
    L seconds(ns_t t) const { return (static_cast<L>(t) - static_cast<L>(base_ns)) * 1e-9L; }
    ref::Pose body(ns_t t) const { const L s = seconds(t); ref::Pose p; p.R = R0 * ref::expm(w * s); p.t = p0 + v0 * s + a * (s * s / 2); return p; }
    V3 velocity(ns_t t) const { return v0 + a * seconds(t); }

    // ---- sensors ----
    boost::shared_ptr<sensor_msgs::Imu> imu(ns_t t) const {
        const ref::Pose b = body(t), e = frames.pose("imu"), wi = b * e;
        const V3 acc = a + b.R * ref::cross(w, ref::cross(w, e.t)) + v3(0, 0, gravity);
        ImuSample s;
        s.t = t;
        const V3 f = wi.R.T() * acc, g = e.R.T() * w;
        s.a = Eigen::Vector3d(f(0, 0), f(1, 0), f(2, 0));
        s.w = Eigen::Vector3d(g(0, 0), g(1, 0), g(2, 0));
        auto m = imu_msg(s);
        const Eigen::Quaterniond q(ref::eig<double>(wi).rotation());
        m->orientation.w = q.w(); m->orientation.x = q.x(); m->orientation.y = q.y(); m->orientation.z = q.z();
        return m;
    }
    boost::shared_ptr<sensor_msgs::PointCloud2> cloud(ns_t start) const {
        struct P { float x, y, z; std::uint32_t t, range; };
        struct Q { float x, y, z, t, range; };
        auto m = boost::make_shared<sensor_msgs::PointCloud2>();
        m->header.stamp = stamp(start);
        m->header.frame_id = "raw";
        const char* names[] = {"x", "y", "z", c.custom ? "time" : "t", "range"};
        for (int k = 0; k < 5; ++k) {
            sensor_msgs::PointField f;
            f.name = names[k]; f.offset = 4 * k; f.count = 1;
            f.datatype = k < 3 || c.custom ? sensor_msgs::PointField::FLOAT32 : sensor_msgs::PointField::UINT32;
            m->fields.push_back(f);
        }
        m->point_step = 20; m->height = 1; m->width = landmarks.size(); m->row_step = m->width * 20; m->is_dense = 1; m->is_bigendian = 0;
        m->data.resize(m->row_step);
        for (std::size_t i = 0; i < landmarks.size(); ++i) {
            const ns_t at = start + (i + 1 == landmarks.size() ? 90 : 90 * ((i * 7) % landmarks.size()) / landmarks.size()) * ms;
            const V3 p = ref::apply(ref::inv(body(at) * frames.pose("lidar")), landmarks[i]);
            const L r = std::sqrt(ref::dot(p, p));
            if (c.custom) { const Q q{float(p(0, 0)), float(p(1, 0)), float(p(2, 0)), float((at - start) * 1e-9), float(r)}; std::memcpy(&m->data[20 * i], &q, 20); }
            else { const P q{float(p(0, 0)), float(p(1, 0)), float(p(2, 0)), std::uint32_t(at - start), std::uint32_t(r * 1000)}; std::memcpy(&m->data[20 * i], &q, 20); }
        }
        return m;
    }
    static constexpr int width = 160, height = 120;
    static constexpr double focal = 100, baseline = 0.25;
    boost::shared_ptr<sensor_msgs::Image> image(ns_t t, bool right) const {
        const ref::Pose cam = ref::inv(body(t) * frames.pose("stereo"));
        auto m = boost::make_shared<sensor_msgs::Image>();
        m->header.stamp = stamp(t); m->header.frame_id = "raw";
        m->width = width; m->height = height; m->step = width; m->encoding = "mono8";
        m->data.assign(width * height, 10);
        for (std::size_t i = 0; i < 12; ++i) {
            const V3 p = ref::apply(cam, landmarks[i]);
            if (p(2, 0) < 0.5L) continue;
            const double u = focal * double((p(0, 0) - (right ? baseline : 0)) / p(2, 0)) + width / 2, v = focal * double(p(1, 0) / p(2, 0)) + height / 2;
            for (int y = std::max(0, int(v) - 4); y < std::min(height, int(v) + 6); ++y) for (int x = std::max(0, int(u) - 4); x < std::min(width, int(u) + 6); ++x) {
                const double d = (x - u) * (x - u) + (y - v) * (y - v);
                m->data[y * width + x] = std::min(255.0, m->data[y * width + x] + (150 + 8.0 * i) * std::exp(-d / 3));
            }
        }
        return m;
    }
    boost::shared_ptr<sensor_msgs::CameraInfo> info(ns_t t, bool right) const {
        auto i = boost::make_shared<sensor_msgs::CameraInfo>();
        i->header.stamp = stamp(t); i->header.frame_id = "raw";
        i->width = width; i->height = height;
        i->K = {focal, 0, width / 2.0, 0, focal, height / 2.0, 0, 0, 1};
        i->R = {1, 0, 0, 0, 1, 0, 0, 0, 1};
        i->P = {focal, 0, width / 2.0, right ? -focal * baseline : 0.0, 0, focal, height / 2.0, 0, 0, 0, 1, 0};
        return i;
    }
    boost::shared_ptr<sensor_msgs::FluidPressure> pressure(ns_t t) const {
        auto m = boost::make_shared<sensor_msgs::FluidPressure>();
        m->header.stamp = stamp(t);
        m->fluid_pressure = 1000 * 101.29 * std::pow((15.04 - 0.00649 * (120 + double(body(t).t(2, 0))) + 273.1) / 288.08, 5.256);
        m->variance = 1e-2;
        return m;
    }

    void configure() const {
        frames.install();
        auto p = [](const std::string& n, const XmlRpcValue& v) { bus().param("/serpent/" + n, v); };
        p("optimisation/factors/registration", c.registration);
        p("optimisation/factors/stereo", c.stereo);
        p("optimisation/factors/barometer", c.barometer);
        p("optimisation/factors/imu", c.imu);
        p("optimisation/marginalisation/enabled", c.marginalise);
        p("optimisation/marginalisation/window_size", 2);
        p("s2m/enabled", c.s2m);
        p("pointcloud_type", c.custom ? "CUSTOM" : "OUSTER");
        p("voxel_grid_filter/enabled", c.voxel);
        p("voxel_grid_filter/leaf_size", 0.1);
        p("range_filter/enabled", true);
        p("range_filter/min", 0.1);
        p("range_filter/max", 100);
        p("mapping/distance_threshold", 0.05);
        p("mapping/voxel_grid_filter/enabled_local", true);
        p("mapping/voxel_grid_filter/leaf_size", 0.1);
        for (const char* k : {"s2s", "s2m"}) {
            const std::string s = k;
            p(s + "/method", "icp");
            p(s + "/base/max_correspondence_distance", 0.5);
            p(s + "/base/maximum_iterations", 20);
            p(s + "/base/transformation_epsilon", 1e-9);
            p(s + "/base/transformation_rotation_epsilon", 1e-9);
            p(s + "/base/euclidean_fitness_epsilon", 1e-12);
        }
        p("registration_covariance/method", c.unit ? "CENSI" : "CONSTANT");
        p("registration_covariance/model", "POINT_TO_PLANE_LINEARISED");
        p("registration_covariance/constant/rotation", 1e-3);
        p("registration_covariance/constant/translation", 1e-3);
        p("registration_covariance/point_covariance/method", c.unit ? "RANGE" : "CONSTANT");
        p("registration_covariance/point_covariance/range_noise", 1e-3);
        p("registration_covariance/point_covariance/constant", 1e-3);
        p("normal_estimation/k", 5);
        p("gravity", gravity);
        p("imu/reference_frame", "NWU");
        p("imu/noise/overwrite", true);
        p("imu/noise/accelerometer", 1e-2);
        p("imu/noise/gyroscope", 1e-3);
        p("pose/position/x", double(p0(0, 0))); p("pose/position/y", double(p0(1, 0))); p("pose/position/z", double(p0(2, 0)));
        const V3 v = velocity(state_time(0));
        p("velocity/linear/x", double(v(0, 0))); p("velocity/linear/y", double(v(1, 0))); p("velocity/linear/z", double(v(2, 0)));
        p("barometer/noise/overwrite", true);
        p("barometer/noise/barometer", 0.1);
        p("stereo_tracking/only_graph_frames", c.graph_frames);
        p("stereo_tracking/detector/type", "GFTT");
        p("stereo_tracking/detector/gftt/min_distance", 5.0);
        p("stereo_tracking/detector/gftt/quality_level", 0.1);
        p("stereo_tracking/stereo_keypoint_matcher/window_size/width", 9);
        p("stereo_tracking/stereo_keypoint_matcher/window_size/height", 9);
        p("stereo_tracking/stereo_keypoint_matcher/cost_function", "SSD");
        p("stereo_tracking/stereo_keypoint_matcher/cost_threshold", 1e9);
        p("stereo_tracking/stereo_keypoint_matcher/matching_filter", "BIDIRECTIONAL");
        p("stereo_tracking/stereo_match_filter/vertical_pixel_threshold", 1.0);
        p("threads", c.threads);
        if (c.stereo) {   // the first state is that of the first image: place the body there
            const ref::Pose b = body(state_time(0));
            p("pose/position/x", double(b.t(0, 0))); p("pose/position/y", double(b.t(1, 0))); p("pose/position/z", double(b.t(2, 0)));
        }
    }
    ns_t state_time(int k) const { return c.stereo ? stereo_times[k] : cloud_times[k]; }
    int states() const { return c.clouds - 1; }

    void inputs() {
        const std::string in = "/serpent/input/";
        const ns_t end = cloud_times.back() + 130 * ms;
        auto late = [&](int sensor, ns_t usual) { return c.late == sensor ? usual + 140 * ms : usual; };
        for (ns_t t = base_ns - 3 * c.imu_ms * ms + 3 * ms; t <= end; t += c.imu_ms * ms) scene->input(t + late(0, 1 * ms), in + "imu", imu(t));
        for (ns_t t : cloud_times) scene->input(t + 100 * ms + late(3, 5 * ms), in + "pointcloud", cloud(t));
        if (c.stereo) for (ns_t t : stereo_times) {
            for (int side = 0; side < 2; ++side) {
                const std::string s = in + "stereo/" + (side ? "right" : "left");
                scene->input(t + late(1, 15 * ms), s + "/image", image(t, side));
                scene->input(t + late(1, 15 * ms), s + "/camera_info", info(t, side));
            }
        }
        if (c.barometer) for (ns_t t = base_ns - 43 * ms; t <= end; t += 50 * ms) scene->input(t + late(2, 2 * ms), in + "barometer", pressure(t));
    }

    // ---- checks ----
    double tolerance() const { return c.imu || c.registration ? c.motion == 2 ? 0.02 : 0.01 : 0.2; }
    void pose_is(const ref::Pose& got, const ref::Pose& want, double tol, const char* key, ns_t t) const {
        const double d = diff(got, want);
        MC_CHECK(d < tol, key, "at " << double(seconds(t)) << " s: off the true motion by " << d);
    }
    void check(bool complete) const {
        std::vector<ns_t> optimised;
        bool dropped = false;
        for (auto& p : bus().log) {
            if (p.topic == "/serpent/optimisation/odometry") {
                auto m = p.msg.get<nav_msgs::Odometry>();
                const ns_t t = m->header.stamp.toNSec();
                const std::size_t k = optimised.size();
                MC_CHECK(int(k) < states() && t == state_time(k), "state_time", "state " << k << " has time " << double(seconds(t)) << " instead of " << (int(k) < states() ? double(seconds(state_time(k))) : -1));
                MC_CHECK(m->header.frame_id == "map" && m->child_frame_id == frames.body_id, "state_frames", m->header.frame_id << " " << m->child_frame_id);
                pose_is(to_ref(m->pose.pose), body(t), tolerance(), "state_pose", t);
                if (c.imu) {
                    const V3 v = v3(m->twist.twist.linear.x, m->twist.twist.linear.y, m->twist.twist.linear.z);
                    MC_CHECK(ref::maxdiff(v, velocity(t)) < 5 * tolerance(), "state_velocity", "at " << double(seconds(t)) << " s: off by " << double(ref::maxdiff(v, velocity(t))));
                }
                optimised.push_back(t);
            } else if (p.topic == "/serpent/output/odometry") {
                auto m = p.msg.get<nav_msgs::Odometry>();
                const ns_t t = m->header.stamp.toNSec();
                // predicted from the last optimised state
                if (c.imu) pose_is(to_ref(m->pose.pose), body(t), 2 * tolerance(), "odometry_pose", t);
                const V3 g = v3(m->twist.twist.angular.x, m->twist.twist.angular.y, m->twist.twist.angular.z);
                MC_CHECK(ref::maxdiff(g, w) < 0.02, "odometry_rotation", "off by " << double(ref::maxdiff(g, w)));
            } else if (p.topic == "/serpent/output/pose") {
                auto m = p.msg.get<geometry_msgs::PoseWithCovarianceStamped>();
                const ns_t t = m->header.stamp.toNSec();
                pose_is(to_ref(m->pose.pose), body(t) * frames.pose("base_link"), 2 * tolerance(), "base_link_pose", t);
            } else if (p.topic == "/serpent/frontend/deskewed_pointcloud") {
                auto m = p.msg.get<pcl::PCLPointCloud2>();
                const ns_t t = m->header.stamp * 1000;
                const ref::Pose inv = ref::inv(body(t) * frames.pose("lidar"));
                MC_CHECK(m->width * m->height == landmarks.size(), "deskewed_size", m->width * m->height);
                for (std::size_t i = 0; i < landmarks.size(); ++i) {
                    float x[3];
                    std::memcpy(x, &m->data[i * m->point_step], 12);
                    const L d = ref::maxdiff(v3(x[0], x[1], x[2]), ref::apply(inv, landmarks[i]));
                    // the first cloud's state is documented to be approximated by the initial state
                    MC_CHECK(d < (c.stereo && t == state_time(0) ? 0.2 : 2 * tolerance()), "deskewed_point", "cloud at " << double(seconds(t)) << " s: point " << i << " is off by " << double(d));
                }
            } else if (p.topic == "/serpent/frontend/imu_s2s" || p.topic == "/serpent/registration/transform") {
                ++counts[p.topic];
            }
        }
        for (auto& s : bus().subs) dropped |= s->dropped > 0;
        if (!complete) return;
        if (dropped) mc::prune();   // more than the queues hold was sent ahead
        MC_CHECK(int(optimised.size()) == states(), "states", optimised.size() << " states instead of " << states());
        auto paths = bus().published<nav_msgs::Path>("/serpent/output/path");
        MC_CHECK(paths.size() == optimised.size(), "paths", paths.size() << " paths");
        const int first = 0;
        MC_CHECK(int(paths.back()->poses.size()) == states() - first, "path_length", paths.back()->poses.size());
        for (int k = 0; k < states(); ++k) {
            auto& q = paths.back()->poses[k];
            MC_CHECK(q.header.stamp.toNSec() == state_time(k), "path_time", k);
            pose_is(to_ref(q.pose), body(state_time(k)), tolerance(), "path_pose", state_time(k));
        }
        if (c.barometer) MC_CHECK(int(bus().count("/serpent/frontend/barometer")) == states(), "pressures", bus().count("/serpent/frontend/barometer"));
        if (c.registration) {
            MC_CHECK(int(bus().count("/serpent/registration/transform")) == states() - 1, "registrations", bus().count("/serpent/registration/transform"));
            map_is_landmarks();
        }
    }
    mutable std::map<std::string, int> counts;
    void map_is_landmarks() const {
        std_srvs::Empty::Request rq;
        std_srvs::Empty::Response rs;
        bus().services.at("/serpent/publish_map")(&rq, &rs);
        std::vector<V3> got;
        for (auto& p : bus().log) {
            if (p.topic != "/serpent/output/global_map") continue;
            if (c.unit) add(*p.msg.get<pcl::PointCloud<PointNormalUnit>>(), got); else add(*p.msg.get<pcl::PointCloud<pcl::PointNormal>>(), got);
        }
        const double tol = c.stereo ? 0.1 : 4 * tolerance();
        auto near = [&](const V3& x, const std::vector<V3>& s) { return std::any_of(s.begin(), s.end(), [&](const V3& y) { return ref::maxdiff(x, y) < tol; }); };
        for (auto& l : landmarks) MC_CHECK(near(l, got), "map_missing", "a landmark is not in the map of " << got.size() << " points");
        for (auto& g : got) MC_CHECK(near(g, landmarks), "map_wrong", "a map point is not a landmark");
    }
    template<class C> static void add(const C& cloud, std::vector<V3>& v) { for (auto& p : cloud) v.push_back(v3(p.x, p.y, p.z)); }

    // ---- one execution ----
    std::size_t points = 0;
    std::uint64_t races = 0;   // accesses of memory that another callback has used
    bool called = false;
    void body_of_programs(std::size_t programs) {
        auto& b = bus();
#ifdef RACES
        race::Detector detector;
#endif
        scene.reset(new Scene(c.delays, c.threads * int(programs), false));
        scene->world.watch_program();
        scene->tasks(0, true);
        inputs();
        if (c.stop) scene->shutdown_at(c.stop);
        if (!c.interrupt.empty()) scene->interrupt(c.interrupt);
        if (!c.service.empty()) scene->world.add(c.service, [this] { return !called && !scene->stopping; }, [this] {
            called = true;
            std_srvs::Empty::Request rq;
            std_srvs::Empty::Response rs;
            bus().services.at(c.service)(&rq, &rs);
        }, [] { return 0.0; }, false, sched::optional);
        scene->driver();
        const std::vector<std::string> stuck = scene->world.run();
        points = scene->world.points();
#ifdef RACES
        // Only the accesses of the program are judged here.
        races = detector.shared();
        mc::evaluated(detector.accesses());
        mc::nontrivial(mc::Hash().add(races).h);
        scene->inputs.clear();
        mc::Hash seen;
        for (auto& p : b.log) seen.add(p.topic);
        mc::state(seen.h);
        scene.reset();
        return;
#endif
        std::string all;
        for (auto& s : stuck) all += s + " ";
        const std::string error = scene->world.error();
        if (getenv("P21_TRACE")) {
            for (auto& f : b.published<serpent::StereoFeatures>("/serpent/stereo/features")) {
                fprintf(stderr, "features at %.3f:", double(seconds(f->header.stamp.toNSec())));
                for (auto& x : f->features) fprintf(stderr, " %d(%.1f %.1f %.1f)", int(x.id), x.left_x, x.right_x, x.left_y);
                fprintf(stderr, "\n");
            }
            for (auto& f : b.published<geometry_msgs::PoseWithCovarianceStamped>("/serpent/registration/transform")) { for (int i = 0; i < 36; ++i) fprintf(stderr, "%.17g%s", f->pose.covariance[i], i % 6 == 5 ? "\n" : " "); }
            for (auto& f : b.published<pcl::PointCloud<PointNormalUnit>>("/serpent/normal_estimation/pointcloud")) { fprintf(stderr, "cloud %zu\n", f->size()); }
        }
        scene->inputs.clear();
        if (!error.empty()) { MC_CHECK(false, "exception:" + error.substr(0, error.find(':')), error); }
        if (c.stop && !scene->stopping) mc::prune();   // there is no such point
        if (c.stop) MC_CHECK(stuck.empty(), "shutdown_hangs", all);
        else {
            bool dropped = false;
            for (auto& s : b.subs) dropped |= s->dropped > 0;
            if (dropped) mc::prune();
            // what waits for data that the next cloud would bring
            std::string all;
            for (auto& s : stuck) if (s != "/serpent/mapping/local_map (polling)" && (s != "/serpent/stereo/features (polling)" || c.graph_frames)) all += s + " ";
            MC_CHECK(all.empty() && scene->next == scene->inputs.size() + scene->next, "stuck", all << "wait for ever");
            for (auto& s : b.subs) MC_CHECK(s->pending.empty(), "unprocessed:" + s->topic, s->pending.size() << " messages");
        }
        check(c.stop == 0);
        mc::Hash h;
        for (auto& p : b.log) h.add(p.topic);
        mc::state(h.add(c.stop).h);
        scene.reset();
    }
    void run() {
        rosstub::Bus::reset();
        rosstub::now_ns = base_ns - second;
        configure();
        std::vector<Main> programs = c.split ? std::vector<Main>{frontend_main, backend_main} : std::vector<Main>{serpent_main};
        std::size_t next = 0;
        int rc = 0;
        char name[] = "serpent", *argv[] = {name, nullptr};
        std::exception_ptr ex;
        Quiet q;
        std::function<void()> start = [&] {
            if (next < programs.size()) { const Main m = programs[next++]; bus().on_wait = start; const int r = m(1, argv); if (r != 0) rc = r; return; }
            body_of_programs(programs.size());
        };
        start();
        MC_CHECK(rc == 0, "exit_code", rc);
        mc::transition();
    }
};
void configuration(Config& c) {
    const int f = mc::choose(7, "factors") + 1;
    c.registration = f & 1; c.imu = f & 2; c.stereo = f & 4;
    c.barometer = mc::flip("barometer");
}
}

#ifndef RACES
// Every combination of factors and module options on every motion, in the default schedule.
MC_FAMILY(estimate) {
    Config c;
    configuration(c);
    c.motion = mc::choose(3, "motion");
    if (c.registration) { c.s2m = !mc::flip("no map registration"); c.unit = mc::flip("unit vectors"); c.custom = mc::flip("custom clouds"); }
    c.base_link = mc::flip("body is base_link");
    c.split = mc::flip("two programs");
    if (c.stereo) c.graph_frames = mc::flip("graph frames");
    c.late = mc::choose(5, "late") - 1;
    switch (mc::choose(4, "variant")) {
    case 1: c.marginalise = true; break;
    case 2: c.voxel = false; break;
    case 3: c.imu_ms = 10; c.clouds = 5; break;
    }
    if ((c.late == 1 && !c.stereo) || (c.late == 2 && !c.barometer)) mc::prune();
    Loop l(c);
    l.run();
    mc::nontrivial(mc::Hash().add(c.motion).add(c.registration).add(c.imu).add(c.stereo).add(c.barometer).add(c.s2m).add(c.unit).add(c.late).h);
}

#endif
// Interleavings of the callbacks.
namespace {
Config scheduled(int n = 0) {
    Config c;
    static const int factors[] = {15, 3, 5, 14, 9, 6};
    const int f = factors[mc::choose(n ? n : mc::thorough() ? 6 : 3, "factors")];
    c.registration = f & 1; c.imu = f & 2; c.stereo = f & 4; c.barometer = f & 8;
    c.imu_ms = 50;
    c.clouds = 4;
    return c;
}
}
#ifndef RACES
MC_FAMILY(schedules) {
    Config c = scheduled();
    c.delays = 1;
    Loop l(c);
    l.run();
    mc::note(std::to_string(l.points) + " points");
    mc::nontrivial(mc::Hash().add(l.points).h);
}
// An input that arrives early, at any scheduling point of the callbacks, and is handled at once by another thread.
MC_FAMILY(interrupts) {
    Config c = scheduled();
    c.threads = 5;
    std::vector<std::string> topics{"imu", "pointcloud"};
    if (c.stereo) topics.push_back("stereo/right/camera_info");
    if (c.barometer) topics.push_back("barometer");
    c.interrupt = "/serpent/input/" + mc::pick(topics, "topic");
    c.delays = mc::thorough() ? 1 : 0;
    Loop l(c);
    l.run();
    mc::nontrivial(mc::Hash().add(l.points).h);
}
// Data of one sensor arrive late, with the default number of threads and more.
MC_FAMILY(late) {
    Config c = scheduled();
    c.threads = mc::flip("eight threads") ? 8 : 4;
    c.late = mc::choose(5, "late") - 1;
    c.delays = mc::thorough() ? 1 : 0;
    if ((c.late == 1 && !c.stereo) || (c.late == 2 && !c.barometer)) mc::prune();
    Loop l(c);
    l.run();
    mc::nontrivial(mc::Hash().add(l.points).h);
}
// Shutdown at every scheduling point.
MC_FAMILY(shutdown) {
    Config c = scheduled();
    c.clouds = 3;
    c.stop = 1 + mc::choose(1000, "point");
    Loop l(c);
    l.run();
    mc::nontrivial(mc::Hash().add(l.points).add(c.stop).h);
}
MC_FAMILY_THOROUGH(two_delays) {
    Config c = scheduled(2);
    c.clouds = 3;
    c.delays = 2;
    Loop l(c);
    l.run();
    mc::nontrivial(mc::Hash().add(l.points).h);
}
#endif

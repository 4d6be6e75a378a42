// The front end node with known sensor data and a scripted back end, and the oracles on what it publishes.
#pragma once
#include "pipeline.hpp"
#include <geometry_msgs/PoseStamped.h>
#include "serpent/front_end/frontend.hpp"

namespace fe {
using namespace scene_ns;
struct Config {
    bool stereo = true, only_graph = false, barometer = false, base_link = false, with_t = true, ned = true, orientation = true, overwrite = false;
    bool deskew_translation = true, deskew_rotation = true;
    int clouds = 4;
    int backend = 0;              // 0 answers after cloud and IMU array (registration), 1 after the IMU array, 2 after IMU array and stereo frame
    ns_t imu_period = 25000000, imu_offset = 10000000;
    ns_t imu_late = 0, stereo_late = 0, cloud_late = 0;   // transport delays
    std::vector<ns_t> pressures;  // barometer measurements
    ns_t pressure_late = 0;
    bool overwrite_pressure = false;
    std::vector<int> patterns;    // stereo frames in each interval between clouds
    double gravity = 9.7;
};
const ns_t period = 100000000, sweep = 80000000;
std::vector<ns_t> frames_of(int pattern) {
    switch (pattern) {
        case 1: return {0};
        case 2: return {37000400};
        case 3: return {20000000, 70000000};
        case 4: return {100000000 - 500};   // rounds to just before the next cloud
        default: return {};
    }
}
struct State { ns_t t; ref::Pose pose; Eigen::Vector3d velocity; gtsam::imuBias::ConstantBias bias; gtsam::NavState nav; };

struct Run {
    Config c;
    Frames frames;
    std::vector<ns_t> cloud_t, stereo_t;
    std::vector<std::vector<Point>> points;
    std::vector<ImuSample> imu;
    std::vector<State> states;
    std::unique_ptr<Scene> scene;
    std::unique_ptr<serpent::Frontend> node;
    // scripted back end
    std::vector<std::pair<ns_t, ns_t>> arrays;
    std::vector<ns_t> initials, deskewed, stereo_out;
    std::size_t answered = 0;
    // Optimised states that may be the latest to a sample of the IMU: received before the odometry is published, and not
    // replaced before the callback for the sample began.
    std::map<ns_t, std::pair<int, int>> latest;
    int replaced = 0;

    explicit Run(const Config& c) : c(c), frames(c.base_link) {
        rosstub::Bus::reset();
        auto& bus = rosstub::Bus::get();
        frames.install();
        bus.param("/serpent/optimisation/factors/stereo", c.stereo);
        bus.param("/serpent/optimisation/factors/barometer", c.barometer);
        if (c.overwrite_pressure) {
            bus.param("/serpent/barometer/noise/overwrite", true);
            bus.param("/serpent/barometer/noise/barometer", 0.5);
        }
        bus.param("/serpent/stereo_tracking/only_graph_frames", c.only_graph);
        bus.param("/serpent/gravity", c.gravity);
        bus.param("/serpent/mdc/translation", c.deskew_translation);
        bus.param("/serpent/mdc/rotation", c.deskew_rotation);
        bus.param("/serpent/map_frame_id", "world");
        bus.param("/serpent/pose/position/x", 1.5);
        bus.param("/serpent/pose/position/y", -2.5);
        bus.param("/serpent/pose/position/z", 0.5);
        bus.param("/serpent/velocity/linear/x", 0.75);
        bus.param("/serpent/velocity/linear/y", -0.25);
        bus.param("/serpent/velocity/linear/z", 0.125);
        bus.param("/serpent/prior_noise/position", 0.5);
        bus.param("/serpent/prior_noise/rotation", 0.25);
        bus.param("/serpent/prior_noise/linear_velocity", 0.125);
        if (!c.ned) bus.param("/serpent/imu/reference_frame", "NWU");
        if (c.overwrite) {
            bus.param("/serpent/imu/noise/overwrite", true);
            bus.param("/serpent/imu/noise/accelerometer", 0.5);
            bus.param("/serpent/imu/noise/gyroscope", 0.25);
        }
        for (int k = 0; k < c.clouds; ++k) cloud_t.push_back(base_ns + k * period);
        for (int k = 0; k < c.clouds; ++k) {
            const int pattern = c.stereo ? (k < static_cast<int>(c.patterns.size()) ? c.patterns[k] : 1) : 0;
            for (ns_t f : frames_of(pattern)) stereo_t.push_back(cloud_t[k] + f);
        }
        for (ns_t t = base_ns - 60000000 + c.imu_offset, i = 0; t <= base_ns + c.clouds * period + 30000000; t += c.imu_period, ++i) {
            imu.push_back(imu_sample(t, static_cast<int>(i)));
            imu.back().noise = 1 + 0.5 * (i % 4);
        }
        expected_states();
    }
    // Documented: first stereo frame at or after the start of the earlier cloud and before the later one, else that start.
    void expected_states() {
        for (int k = 0; k + 1 < c.clouds; ++k) {
            ns_t t = cloud_t[k];
            for (ns_t s : stereo_t) {
                if (truncated(s) >= cloud_t[k] && truncated(s) < cloud_t[k + 1]) { t = truncated(s); break; }
            }
            State s;
            s.t = t;
            s.pose.R = ref::expm(ref::v3(0.2L + 0.1L * k, -0.3L, 0.5L * k));
            s.pose.t = ref::v3(1 + k, 2 - 0.5L * k, 0.25L * k);
            s.velocity = Eigen::Vector3d(1 + 0.5 * k, -0.75, 0.25 * k);
            s.bias = gtsam::imuBias::ConstantBias(Eigen::Vector3d(0.1 + 0.1 * k, -0.2, 0.3), Eigen::Vector3d(0.02, 0.03 * (k + 1), -0.05));
            const Eigen::Isometry3d p = ref::eig<double>(s.pose);
            s.nav = gtsam::NavState(gtsam::Rot3(p.rotation()), p.translation(), s.velocity);
            states.push_back(s);
        }
    }
    bool answerable() const {
        const std::size_t k = answered;
        if (k >= states.size()) return false;
        if (k == 0) return !initials.empty();
        if (arrays.size() < k) return false;
        if (c.backend == 0) return deskewed.size() > k;
        if (c.backend == 2) return std::find(stereo_out.begin(), stereo_out.end(), states[k].t) != stereo_out.end();
        return true;
    }
    void answer() {
        const State& s = states[answered++];
        auto o = boost::make_shared<nav_msgs::Odometry>();
        o->header.stamp = stamp(s.t);
        o->header.frame_id = "world";
        o->child_frame_id = frames.body_id;
        const Eigen::Quaterniond q(ref::eig<double>(s.pose).rotation());
        o->pose.pose.orientation.w = q.w(); o->pose.pose.orientation.x = q.x(); o->pose.pose.orientation.y = q.y(); o->pose.pose.orientation.z = q.z();
        o->pose.pose.position.x = s.pose.t(0, 0); o->pose.pose.position.y = s.pose.t(1, 0); o->pose.pose.position.z = s.pose.t(2, 0);
        for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) o->pose.covariance[6 * i + j] = (i == j ? 1 + i : 0) + 0.01 * (i + j);
        o->twist.twist.linear.x = s.velocity.x(); o->twist.twist.linear.y = s.velocity.y(); o->twist.twist.linear.z = s.velocity.z();
        rosstub::Bus::get().inject<nav_msgs::Odometry>("/serpent/optimisation/odometry", o);
        auto b = boost::make_shared<serpent::ImuBiases>();
        b->header.stamp = stamp(s.t);
        b->accelerometer_bias.x = s.bias.accelerometer().x(); b->accelerometer_bias.y = s.bias.accelerometer().y(); b->accelerometer_bias.z = s.bias.accelerometer().z();
        b->gyroscope_bias.x = s.bias.gyroscope().x(); b->gyroscope_bias.y = s.bias.gyroscope().y(); b->gyroscope_bias.z = s.bias.gyroscope().z();
        rosstub::Bus::get().inject<serpent::ImuBiases>("/serpent/optimisation/imu_biases", b);
    }
    static double pressure(std::size_t k) { return 100000 + 70.0 * k + 400.0 * (k % 3); }
    static double variance(std::size_t k) { return 4 + 1.5 * (k % 4); }
    static int updates(std::map<std::string, std::size_t>& callbacks) { return static_cast<int>(std::min(callbacks["/serpent/optimisation/odometry"], callbacks["/serpent/optimisation/imu_biases"])); }
    void build(int delays, bool burst, int threads = 4) {
        scene = std::make_unique<scene_ns::Scene>(delays, threads, burst);
        auto& bus = rosstub::Bus::get();
        node = std::make_unique<serpent::Frontend>();
        scene->world.watch(node.get(), sizeof *node);
        scene->tasks(0, true);
        scene->starting = [this](const std::string& topic) { if (topic == "/serpent/input/imu") replaced = updates(scene->ended); };
        bus.on_publish = [this](const std::string& topic, const rosstub::AnyMsg& m) {
            if (topic == "/serpent/output/odometry") latest.emplace(m.get<nav_msgs::Odometry>()->header.stamp.toNSec(), std::make_pair(std::max(0, replaced - 1), updates(scene->begun) - 1));
            sched::point("publish");
        };
        const std::size_t first = bus.subs.size();
        bus.subscribe("/serpent/frontend/initial_odometry", 0, [this](const rosstub::AnyMsg& m) { initials.push_back(m.get<nav_msgs::Odometry>()->header.stamp.toNSec()); });
        bus.subscribe("/serpent/frontend/imu_s2s", 0, [this](const rosstub::AnyMsg& m) { auto a = m.get<serpent::ImuArray>(); arrays.emplace_back(a->start_timestamp.toNSec(), a->end_timestamp.toNSec()); });
        bus.subscribe("/serpent/frontend/deskewed_pointcloud", 0, [this](const rosstub::AnyMsg& m) { deskewed.push_back(m.get<pcl::PCLPointCloud2>()->header.stamp * 1000); });
        bus.subscribe("/serpent/stereo/left/image", 0, [this](const rosstub::AnyMsg& m) { stereo_out.push_back(m.get<sensor_msgs::Image>()->header.stamp.toNSec()); });
        scene->tasks(first, false);
        scene->world.add("back end", [this] { return answerable(); }, [this] { answer(); }, [] { return 0.0; }, false);
        for (std::size_t k = 0; k < cloud_t.size(); ++k) {
            std::vector<Point> pts;
            for (int i = 0; i < 4; ++i) pts.push_back(Point{1.0f + i + k, 2.0f - 3 * i, 0.5f * i - k, c.with_t ? static_cast<float>(sweep * 1e-9 * i / 3) : 0.0f});
            points.push_back(pts);
            // a cloud arrives when its sweep is complete
            scene->input(cloud_t[k] + sweep + 5000000 + c.cloud_late, "/serpent/formatter/formatted_pointcloud", cloud_msg(cloud_t[k], pts, c.with_t, k));
        }
        for (auto& s : imu) scene->input(s.t + c.imu_late, "/serpent/input/imu", imu_msg(s, c.orientation));
        for (std::size_t k = 0; k < c.pressures.size(); ++k) {
            auto m = boost::make_shared<sensor_msgs::FluidPressure>();
            m->header.stamp = stamp(c.pressures[k]);
            m->header.frame_id = "baro";
            m->fluid_pressure = pressure(k);
            m->variance = variance(k);
            scene->input(c.pressures[k] + c.pressure_late, "/serpent/input/barometer", m);
        }
        for (std::size_t k = 0; k < stereo_t.size(); ++k) {
            auto l = boost::make_shared<sensor_msgs::Image>(), r = boost::make_shared<sensor_msgs::Image>();
            auto li = boost::make_shared<sensor_msgs::CameraInfo>(), ri = boost::make_shared<sensor_msgs::CameraInfo>();
            l->header.stamp = r->header.stamp = li->header.stamp = ri->header.stamp = stamp(stereo_t[k]);
            l->data = {static_cast<unsigned char>(k), 1}; r->data = {static_cast<unsigned char>(k), 2};
            li->width = 100 + k; ri->width = 200 + k;
            const ns_t a = stereo_t[k] + 1000000 + c.stereo_late;
            scene->input(a, "/serpent/input/stereo/left/image", l);
            scene->input(a, "/serpent/input/stereo/right/image", r);
            scene->input(a, "/serpent/input/stereo/left/camera_info", li);
            scene->input(a, "/serpent/input/stereo/right/camera_info", ri);
        }
        scene->driver();
    }
    void execute() {
        mc::transition();
        const auto stuck = scene->world.run();
        MC_CHECK(scene->world.error().empty(), "exception:" + scene->world.error(), "callback terminated the node: " << scene->world.error());
        std::string names;
        for (auto& s : stuck) names += " " + s;
        MC_CHECK(stuck.empty() && answered == states.size(), "stuck", "waiting for ever:" << names << ", " << answered << " of " << states.size() << " states");
    }
    // ---- oracles ----
    template<class M> std::vector<rosstub::CPtr<M>> out(const std::string& t) const { return rosstub::Bus::get().published<M>("/serpent/" + t); }
    void check_initial() const {
        auto v = out<nav_msgs::Odometry>("frontend/initial_odometry");
        MC_CHECK(v.size() == 1, "initial_count", v.size());
        auto& m = *v[0];
        MC_CHECK(m.header.stamp == stamp(states[0].t), "initial_time", m.header.stamp.toNSec() - base_ns);
        MC_CHECK(m.header.frame_id == "world" && m.child_frame_id == frames.body_id, "initial_frames", m.header.frame_id << " " << m.child_frame_id);
        const auto& p = m.pose.pose.position;
        MC_CHECK(p.x == 1.5 && p.y == -2.5 && p.z == 0.5, "initial_position", p.x << " " << p.y << " " << p.z);
        ref::M3 R = ref::M3::id();
        if (c.orientation) {
            R = ref::from<3, 3>(imu_orientation().toRotationMatrix()) * frames.pose("imu").R.T();
            if (c.ned) { ref::M3 flip = ref::M3::id(); flip(1, 1) = flip(2, 2) = -1; R = flip * R; }
        }
        MC_CHECK(ref::maxdiff(to_ref(m.pose.pose).R, R) < 1e-9, "initial_orientation", "");
        const auto& l = m.twist.twist.linear;
        MC_CHECK(l.x == 0.75 && l.y == -0.25 && l.z == 0.125, "initial_velocity", "");
        Eigen::Matrix3d rate;
        for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) {
            const double e = i == j ? (i < 3 ? 0.25 : 0.0625) : 0;   // ROS order: position, rotation
            MC_CHECK(std::fabs(m.pose.covariance[6 * i + j] - e) < 1e-12, "initial_pose_covariance", i << "," << j);
            if (i < 3 && j < 3) MC_CHECK(std::fabs(m.twist.covariance[6 * i + j] - (i == j ? 0.015625 : 0)) < 1e-12, "initial_velocity_covariance", i << "," << j);
            // the rotation rate is that of an IMU measurement
            if (i >= 3 && j >= 3) rate(i - 3, j - 3) = m.twist.covariance[6 * i + j];
        }
        bool known = false;
        for (auto& x : imu) known = known || (rate - (c.overwrite ? Eigen::Matrix3d(Eigen::Matrix3d::Identity() * 0.0625) : imu_covariance(3e-5, x.noise))).cwiseAbs().maxCoeff() < 1e-12;
        MC_CHECK(known, "initial_rotation_rate_covariance", rate);
    }
    void check_arrays() const {
        auto v = out<serpent::ImuArray>("frontend/imu_s2s");
        MC_CHECK(v.size() == states.size() - 1, "imu_array_count", v.size());
        for (std::size_t k = 0; k < v.size(); ++k) {
            MC_CHECK(v[k]->start_timestamp == stamp(states[k].t) && v[k]->end_timestamp == stamp(states[k + 1].t), "imu_array_interval",
                    v[k]->start_timestamp.toNSec() - base_ns << ".." << v[k]->end_timestamp.toNSec() - base_ns);
            std::size_t first = 0;
            for (std::size_t i = 0; i < imu.size(); ++i) if (imu[i].t <= states[k].t) first = i;
            std::vector<std::size_t> want;
            for (std::size_t i = first; i < imu.size() && imu[i].t < states[k + 1].t; ++i) want.push_back(i);
            MC_CHECK(v[k]->measurements.size() == want.size(), "imu_array_size", v[k]->measurements.size() << " samples instead of " << want.size() << " between states " << k << " and " << k + 1);
            for (std::size_t i = 0; i < want.size(); ++i) {
                const auto& m = v[k]->measurements[i];
                const auto& s = imu[want[i]];
                MC_CHECK(m.header.stamp == stamp(s.t) && m.linear_acceleration.x == s.a.x() && m.linear_acceleration.z == s.a.z() && m.angular_velocity.z == s.w.z(), "imu_array_sample", i);
                const Eigen::Matrix3d ac = c.overwrite ? Eigen::Matrix3d(Eigen::Matrix3d::Identity() * 0.25) : imu_covariance(2e-4, s.noise);
                const Eigen::Matrix3d gc = c.overwrite ? Eigen::Matrix3d(Eigen::Matrix3d::Identity() * 0.0625) : imu_covariance(3e-5, s.noise);
                for (int e = 0; e < 9; ++e) MC_CHECK(std::fabs(m.linear_acceleration_covariance[e] - ac(e / 3, e % 3)) < 1e-12 && std::fabs(m.angular_velocity_covariance[e] - gc(e / 3, e % 3)) < 1e-12, "imu_array_covariance", i);
            }
        }
    }
    void check_clouds() const {
        auto v = out<pcl::PCLPointCloud2>("frontend/deskewed_pointcloud");
        MC_CHECK(v.size() == states.size(), "deskewed_count", v.size());
        NavRef nav(frames, c.gravity);
        for (std::size_t k = 0; k < v.size(); ++k) {
            MC_CHECK(v[k]->header.stamp * 1000 == states[k].t, "deskewed_time", v[k]->header.stamp * 1000 - base_ns << " instead of " << states[k].t - base_ns);
            MC_CHECK(v[k]->header.frame_id == "lidar_id" && v[k]->width == points[k].size() && v[k]->height == 1, "deskewed_shape", "");
            // Motion over the sweep, from the latest optimised state before it
            const State& s = states[k == 0 ? 0 : k - 1];
            const gtsam::NavState at_start = k == 0 ? s.nav : nav.held(imu, s.t, cloud_t[k], s.bias).predict(s.nav, s.bias);
            ref::Pose skew;
            if (c.with_t) {
                const gtsam::NavState at_end = nav.held(imu, cloud_t[k], cloud_t[k] + sweep, s.bias).predict(at_start, s.bias);
                const ref::Pose body = ref::inv(to_ref(at_start.pose())) * to_ref(at_end.pose()), l = frames.pose("lidar");
                skew = ref::inv(l) * body * l;
                if (!c.deskew_translation) skew.t = ref::V3();
                if (!c.deskew_rotation) skew.R = ref::M3::id();
            }
            const ref::V3 r = logm(skew.R);
            auto at = [&](ref::L f) { ref::Pose p; p.R = ref::expm(r * f); p.t = skew.t * f; return p; };
            const ref::L f_new = (static_cast<ref::L>(states[k].t) - static_cast<ref::L>(cloud_t[k])) / sweep;
            for (std::size_t i = 0; i < points[k].size(); ++i) {
                const Point& p = points[k][i];
                const ref::V3 e = ref::apply(ref::inv(at(f_new)) * at(static_cast<ref::L>(p.t) * 1e9L / sweep), ref::v3(p.x, p.y, p.z));
                const Point g = cloud_point(*v[k], i);
                const double d = ref::maxdiff(e, Eigen::Vector3d(g.x, g.y, g.z));
                MC_CHECK(d < 2e-5, "deskewed_points", "cloud " << k << " point " << i << " is off by " << d << " m");
            }
        }
    }
    void check_odometry() const {
        NavRef nav(frames, c.gravity);
        std::size_t poses = 0, tfs = 0, odometries = 0;
        std::map<ns_t, int> seen;
        for (auto& p : rosstub::Bus::get().log) {
            if (p.topic == "/tf") {
                auto m = p.msg.get<geometry_msgs::TransformStamped>();
                const std::size_t k = tfs++;
                MC_CHECK(k < states.size() && m->header.stamp == stamp(states[k].t), "tf_time", "");
                MC_CHECK(m->header.frame_id == "world" && m->child_frame_id == frames.id("base_link"), "tf_frames", m->header.frame_id << " " << m->child_frame_id);
                MC_CHECK(diff(to_ref(m->transform), states[k].pose * frames.pose("base_link")) < 1e-9, "tf_pose", "");
            } else if (p.topic == "/serpent/output/pose") {
                auto m = p.msg.get<geometry_msgs::PoseWithCovarianceStamped>();
                const std::size_t k = poses++;
                MC_CHECK(k < states.size() && m->header.stamp == stamp(states[k].t) && m->header.frame_id == "world", "pose_header", m->header.frame_id);
                MC_CHECK(diff(to_ref(m->pose.pose), states[k].pose * frames.pose("base_link")) < 1e-9, "pose_base_link", "published pose is not that of base_link");
            } else if (p.topic == "/serpent/output/odometry") {
                auto m = p.msg.get<nav_msgs::Odometry>();
                ++odometries;
                const ns_t t = m->header.stamp.toNSec();
                const auto range = latest.at(t);
                MC_CHECK(range.second >= 0, "odometry_early", "odometry before the first optimised state");
                MC_CHECK(++seen[t] == 1, "odometry_repeated", t - base_ns);
                int i = -1;
                for (std::size_t j = 0; j < imu.size(); ++j) if (imu[j].t == t) i = static_cast<int>(j);
                MC_CHECK(i >= 0, "odometry_time", t - base_ns);
                MC_CHECK(m->header.frame_id == "world" && m->child_frame_id == frames.body_id, "odometry_frames", m->header.frame_id << " " << m->child_frame_id);
                // from the latest optimised state, with every sample since
                const ref::Pose g = to_ref(m->pose.pose);
                const Eigen::Vector3d v(m->twist.twist.linear.x, m->twist.twist.linear.y, m->twist.twist.linear.z);
                const Eigen::Vector3d w(m->twist.twist.angular.x, m->twist.twist.angular.y, m->twist.twist.angular.z);
                double best = 1e9, angular = 1e9;
                for (int k = range.first; k <= range.second; ++k) {
                    const State& s = states[k];
                    if (s.t > t) continue;
                    const gtsam::NavState a = nav.held(imu, s.t, t, s.bias).predict(s.nav, s.bias), b = nav.backward(imu, s.t, t, s.bias).predict(s.nav, s.bias);
                    const double da = std::max(diff(g, to_ref(a.pose())), (v - a.velocity()).norm()), db = std::max(diff(g, to_ref(b.pose())), (v - b.velocity()).norm());
                    if (std::min(da, db) >= best) continue;
                    best = std::min(da, db);
                    angular = (w - ref::eig<double>(frames.pose("imu")).rotation() * (imu[i].w - s.bias.gyroscope())).norm();
                }
                MC_CHECK(best < 1e-7, "odometry_state", "odometry at " << t - base_ns << " is off by " << best);
                MC_CHECK(angular < 1e-9, "odometry_angular", w.transpose() << " is off by " << angular);
            }
        }
        MC_CHECK(tfs == states.size() && poses == states.size(), "pose_count", tfs << " " << poses);
        // IMU samples received once a state is known are all answered
        MC_CHECK(odometries > 0 || scene->burst || c.imu_late > 0 || c.stereo_late > 0, "odometry_count", odometries);
        if (odometries > 0) {
            const ns_t firstt = seen.begin()->first;
            std::size_t want = 0;
            for (auto& s : imu) want += s.t >= firstt;
            MC_CHECK(odometries == want, "odometry_missing", odometries << " of " << want);
        }
    }
    void check_stereo() const {
        std::vector<std::size_t> want;
        for (std::size_t k = 0; k < stereo_t.size(); ++k) {
            bool graph = false;
            for (auto& s : states) graph = graph || s.t == truncated(stereo_t[k]);
            if (c.stereo && (!c.only_graph || graph)) want.push_back(k);
        }
        auto l = out<sensor_msgs::Image>("stereo/left/image"), r = out<sensor_msgs::Image>("stereo/right/image");
        auto li = out<sensor_msgs::CameraInfo>("stereo/left/camera_info"), ri = out<sensor_msgs::CameraInfo>("stereo/right/camera_info");
        MC_CHECK(l.size() == want.size() && r.size() == want.size() && li.size() == want.size() && ri.size() == want.size(), "stereo_count", l.size() << " instead of " << want.size());
        for (std::size_t i = 0; i < want.size(); ++i) {
            const ros::Time t = stamp(truncated(stereo_t[want[i]]));
            MC_CHECK(l[i]->header.stamp == t && r[i]->header.stamp == t && li[i]->header.stamp == t && ri[i]->header.stamp == t, "stereo_time", l[i]->header.stamp.toNSec() - base_ns);
            MC_CHECK(l[i]->data[0] == want[i] && l[i]->data[1] == 1 && r[i]->data[0] == want[i] && r[i]->data[1] == 2 && li[i]->width == 100 + want[i] && ri[i]->width == 200 + want[i], "stereo_content", i);
        }
    }
    void check() const {
        check_initial();
        check_arrays();
        check_clouds();
        check_odometry();
        check_stereo();
        mc::Hash h;
        for (auto& p : rosstub::Bus::get().log) h.add(p.topic);
        mc::state(h.h);
        mc::nontrivial(h.h);
    }
};
}


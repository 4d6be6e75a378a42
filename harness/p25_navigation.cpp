// P25: the navigation and IMU tools: combining transforms, integrating IMU data, broadcasting odometry, rotating and displaying IMU data.
#include "pipeline.hpp"
#include <geometry_msgs/PoseStamped.h>
#include <gtsam/navigation/CombinedImuFactor.h>
#include <iostream>
#include "imu_tools/imu_analysis.hpp"
#include "imu_tools/imu_transform.hpp"
#include "navigation_tools/combine_transforms.hpp"
#include "navigation_tools/integrate_imu.hpp"
#include "navigation_tools/odometry_to_tf.hpp"

namespace {
using namespace scene_ns;
using ref::Pose;
using ref::v3;

template<class M> void give(const std::string& topic, const M& m) {
    rosstub::Bus::get().inject<M>(topic, m);
    mc::transition();
    rosstub::Bus::get().spin_all();
}
struct Silent {
    std::streambuf* old;
    Silent() : old(std::cerr.rdbuf(nullptr)) {}
    ~Silent() { std::cerr.rdbuf(old); std::cerr.clear(); }
};
template<class Q> ref::M3 rot(const Q& q) { return ref::quat(q.w, q.x, q.y, q.z); }
template<class V> ref::V3 vec(const V& v) { return v3(v.x, v.y, v.z); }
template<class Q> double norm(const Q& q) { return std::sqrt(q.w * q.w + q.x * q.x + q.y * q.y + q.z * q.z); }
template<class Q> void set_q(Q& q, const ref::M3& R) {
    ref::Pose p;
    p.R = R;
    const Eigen::Quaterniond e(ref::eig<double>(p).linear());
    q.w = e.w(); q.x = e.x(); q.y = e.y(); q.z = e.z();
}
template<class V> void set_v(V& v, const ref::V3& t) { v.x = t(0, 0); v.y = t(1, 0); v.z = t(2, 0); }

// Motions: none, along each axis, turning, both, a half turn, and one of a kilometre.
const std::vector<Pose>& motions() {
    static const std::vector<Pose> m = [] {
        auto p = [](ref::L rx, ref::L ry, ref::L rz, ref::L x, ref::L y, ref::L z) { Pose p; p.R = ref::expm(v3(rx, ry, rz)); p.t = v3(x, y, z); return p; };
        return std::vector<Pose>{p(0, 0, 0, 0, 0, 0), p(0, 0, 0, 1.5L, 0, -0.25L), p(0, 0, 1.2L, 0, 0, 0), p(-0.7L, 0.2L, 0.4L, 0.3L, -1.1L, 0.6L), p(3.14159265358979323846L, 0, 0, 0, 2, 0),
            p(0.1L, -0.2L, 0.05L, 1000, -250, 40)};
    }();
    return m;
}
}

// ---- combining transforms ------------------------------------------------------------------------------------------------
MC_FAMILY(combine) {
    const int type = mc::choose(4, "type (default, transform, pose, pose with covariance)");
    static const char* names[] = {"", "TransformStamped", "PoseStamped", "PoseWithCovarianceStamped"};
    rosstub::Bus::reset();
    auto& bus = rosstub::Bus::get();
    if (type) bus.param("/node/transform_type", std::string(names[type]));
    CombineTransforms node;
    const int depth = mc::thorough() ? 7 : 5;
    Pose total;
    std::vector<Pose> path;
    std::vector<ros::Time> times;
    mc::Hash h;
    for (int i = 0; i < depth; ++i) {
        const int m = mc::choose(motions().size(), "motion");
        h.add(m);
        const Pose& p = motions()[m];
        const ros::Time t = stamp(base_ns + i * 100000000ULL + 7);
        if (type < 2) {
            geometry_msgs::TransformStamped msg;
            msg.header.stamp = t; msg.header.frame_id = "a"; msg.child_frame_id = "b";
            set_q(msg.transform.rotation, p.R); set_v(msg.transform.translation, p.t);
            give("/node/input", msg);
        } else if (type == 2) {
            geometry_msgs::PoseStamped msg;
            msg.header.stamp = t; msg.header.frame_id = "a";
            set_q(msg.pose.orientation, p.R); set_v(msg.pose.position, p.t);
            give("/node/input", msg);
        } else {
            geometry_msgs::PoseWithCovarianceStamped msg;
            msg.header.stamp = t; msg.header.frame_id = "a";
            set_q(msg.pose.pose.orientation, p.R); set_v(msg.pose.pose.position, p.t);
            for (int k = 0; k < 6; ++k) msg.pose.covariance[7 * k] = 0.01 * (k + 1);
            give("/node/input", msg);
        }
        total = total * p;
        path.push_back(total);
        times.push_back(t);
        auto odometry = bus.published<nav_msgs::Odometry>("/node/odometry");
        auto paths = bus.published<nav_msgs::Path>("/node/path");
        MC_CHECK(odometry.size() == path.size() && paths.size() == path.size(), "combine_count", odometry.size() << " odometry and " << paths.size() << " path messages after " << path.size() << " transforms");
        const auto& o = *odometry.back();
        const double scale = 1 + 1000.0 * (i + 1);
        MC_CHECK(o.header.stamp == t, "combine_stamp", "odometry is not stamped with the time of the transform");
        MC_CHECK(std::fabs(norm(o.pose.pose.orientation) - 1) < 1e-9, "combine_orientation", "orientation is not of unit length");
        MC_CHECK(ref::maxdiff(rot(o.pose.pose.orientation), total.R) < 1e-9 && ref::maxdiff(vec(o.pose.pose.position), total.t) < 1e-12 * scale, "combine_pose", "odometry is not the product of the transforms, motion " << m << " at " << i);
        const auto& q = *paths.back();
        MC_CHECK(q.header.stamp == t && q.header.frame_id == "map", "combine_path", "wrong header of the path");
        MC_CHECK(q.poses.size() == path.size(), "combine_path", "path of " << q.poses.size() << " poses after " << path.size() << " transforms");
        for (std::size_t k = 0; k < path.size(); ++k) {
            MC_CHECK(q.poses[k].header.stamp == times[k], "combine_path", "pose " << k << " of the path has the wrong time");
            MC_CHECK(ref::maxdiff(rot(q.poses[k].pose.orientation), path[k].R) < 1e-9 && ref::maxdiff(vec(q.poses[k].pose.position), path[k].t) < 1e-12 * scale, "combine_path", "pose " << k << " of the path is wrong");
        }
    }
    mc::state(h.h);
    mc::nontrivial(h.h + type);
}

// ---- integrating IMU data ------------------------------------------------------------------------------------------------
namespace {
struct Sample { Eigen::Vector3d a, w; };
const std::vector<Sample>& samples() {
    static const std::vector<Sample> s{{{0, 0, 9.81}, {0, 0, 0}}, {{0.5, -0.3, 9.6}, {0.1, -0.2, 0.7}}, {{-2, 1, 4}, {0.9, 0.4, -0.6}}};
    return s;
}
}
MC_FAMILY(integrate) {
    const int extrinsics = mc::choose(3, "body frame (imu only turned, turned and moved, at the body)");
    const int orientation = mc::choose(3, "initial orientation (none, level, tilted)");
    const int initial = mc::choose(3, "initial state (default, position, position and velocity)");
    const int noises = mc::choose(2, "noises");
    const bool moon = mc::flip("gravity configured");
    const int slow = mc::flip("samples a second apart") ? 100 : 1;
    rosstub::Bus::reset();
    auto& bus = rosstub::Bus::get();
    Frames frames(false);
    if (extrinsics == 0) frames.body_to["imu"].t = v3(0, 0, 0);
    if (extrinsics == 2) frames.body_to["imu"] = Pose();
    frames.install("/node");
    frames.install("/");
    frames.install("");
    const Pose body_to_imu = frames.pose("imu");
    gtsam::Point3 position(0, 0, 0);
    gtsam::Vector3 velocity(0, 0, 0);
    if (initial >= 1) {
        position = gtsam::Point3(1, -2, 3);
        bus.param("/node/pose/position/x", 1.0); bus.param("/node/pose/position/y", -2.0); bus.param("/node/pose/position/z", 3.0);
    }
    if (initial == 2) {
        velocity = gtsam::Vector3(-0.5, 0.25, 4);
        bus.param("/node/velocity/linear/x", -0.5); bus.param("/node/velocity/linear/y", 0.25); bus.param("/node/velocity/linear/z", 4.0);
    }
    const double gravity = moon ? 1.62 : 9.81;
    if (moon) bus.param("/node/gravity", gravity);
    double n[6] = {1e-3, 1e-3, 1e-3, 1e-3, 1e-3, 1e-3};
    if (noises) {
        static const char* names[] = {"accelerometer", "gyroscope", "integration", "integration_bias", "accelerometer_bias", "gyroscope_bias"};
        for (int k = 0; k < 6; ++k) bus.param(std::string("/node/imu/noise/") + names[k], n[k] = 0.01 * (k + 1));
    }
    auto params = gtsam::PreintegrationCombinedParams::MakeSharedU(gravity);
    params->setAccelerometerCovariance(Eigen::Matrix3d::Identity() * n[0] * n[0]);
    params->setGyroscopeCovariance(Eigen::Matrix3d::Identity() * n[1] * n[1]);
    params->setIntegrationCovariance(Eigen::Matrix3d::Identity() * n[2] * n[2]);
    params->setBiasAccOmegaInit(Eigen::Matrix<double, 6, 6>::Identity() * n[3] * n[3]);
    params->setBiasAccCovariance(Eigen::Matrix3d::Identity() * n[4] * n[4]);
    params->setBiasOmegaCovariance(Eigen::Matrix3d::Identity() * n[5] * n[5]);
    params->setBodyPSensor(gtsam::Pose3(ref::eig<double>(body_to_imu).matrix()));
    gtsam::PreintegratedCombinedMeasurements reference(params, gtsam::imuBias::ConstantBias());
    Pose world_to_imu;
    if (orientation == 2) world_to_imu.R = ref::expm(v3(0.3L, -0.5L, 1.9L));
    Pose body;      // orientation of the body
    if (orientation) body.R = world_to_imu.R * body_to_imu.R.T();
    // Kinematics of the body with constant inputs per sample, in small steps, as an independent oracle
    ref::M3 R = body.R;
    ref::V3 p = v3(position.x(), position.y(), position.z()), v = v3(velocity.x(), velocity.y(), velocity.z());

    IntegrateImu node;
    const int depth = mc::thorough() ? 5 : 3;
    int t = 0;
    std::vector<nav_msgs::Odometry> history;
    mc::Hash h;
    h.add(extrinsics).add(orientation).add(initial).add(noises).add(moon).add(slow);
    for (int i = 0; i <= depth; ++i) {
        const int m = mc::choose(samples().size(), "sample");
        const int gap = i ? 1 + mc::choose(2, "time step") : 0;
        h.add(m).add(gap);
        t += gap;
        const Sample& s = samples()[m];
        sensor_msgs::Imu msg;
        msg.header.stamp = stamp(base_ns + t * slow * 10000000ULL);
        msg.header.frame_id = "imu_id";
        if (orientation == 1) msg.orientation.w = 1;
        else if (orientation == 2) set_q(msg.orientation, world_to_imu.R);
        else msg.orientation.w = msg.orientation.x = msg.orientation.y = msg.orientation.z = 0;
        if (i && orientation) set_q(msg.orientation, ref::expm(v3(1, 1, 1)));   // only the first orientation is used
        set_v(msg.linear_acceleration, v3(s.a.x(), s.a.y(), s.a.z()));
        set_v(msg.angular_velocity, v3(s.w.x(), s.w.y(), s.w.z()));
        for (int k = 0; k < 3; ++k) msg.angular_velocity_covariance[4 * k] = 1e-4 * (k + 1);
        msg.angular_velocity_covariance[1] = msg.angular_velocity_covariance[3] = 2e-5;
        give("/node/input", msg);
        auto odometry = bus.published<nav_msgs::Odometry>("/node/odometry");
        auto paths = bus.published<nav_msgs::Path>("/node/path");
        MC_CHECK(static_cast<int>(odometry.size()) == i && static_cast<int>(paths.size()) == i, "integrate_count", odometry.size() << " odometry and " << paths.size() << " path messages after " << i + 1 << " samples");
        if (i == 0) continue;
        const double dt = gap * slow * 0.01;
        reference.integrateMeasurement(s.a, s.w, dt);
        const gtsam::NavState initial_state(gtsam::Rot3(ref::eig<double>(body).linear()), position, velocity);
        const gtsam::NavState expected = reference.predict(initial_state, gtsam::imuBias::ConstantBias());
        const auto& o = *odometry.back();
        MC_CHECK(o.header.stamp == msg.header.stamp && o.header.frame_id == "map", "integrate_header", "wrong header");
        const ref::M3 q = rot(o.pose.pose.orientation);
        MC_CHECK(ref::maxdiff(q, expected.R()) < 1e-9, "integrate_orientation", "orientation differs from the integrated one after " << i << " samples");
        const auto& pp = o.pose.pose.position;
        const auto& tw = o.twist.twist;
        MC_CHECK(ref::maxdiff(vec(pp), expected.t()) < 1e-9, "integrate_position", "position " << pp.x << ' ' << pp.y << ' ' << pp.z << ", expected " << expected.t().transpose());
        MC_CHECK(ref::maxdiff(vec(tw.linear), expected.v()) < 1e-9, "integrate_velocity", "velocity differs from the integrated one after " << i << " samples");
        MC_CHECK(tw.angular.x == s.w.x() && tw.angular.y == s.w.y() && tw.angular.z == s.w.z(), "integrate_angular", "wrong angular velocity");
        if (slow == 1) {   // Independent integration: R' = R [w], v' = R a + g, with the acceleration of the body's origin (first-order steps as the integrator makes)
            const ref::V3 w = body_to_imu.R * v3(s.w.x(), s.w.y(), s.w.z()), arm = body_to_imu.t;
            const ref::V3 f = body_to_imu.R * v3(s.a.x(), s.a.y(), s.a.z()) - ref::cross(w, ref::cross(w, arm));
            const ref::V3 a = R * f + v3(0, 0, -gravity);
            p = p + v * dt + a * (0.5L * dt * dt);
            v = v + a * dt;
            R = R * ref::expm(w * dt);
            MC_CHECK(ref::maxdiff(q, R) < 1e-3 && ref::maxdiff(vec(pp), p) < 1e-3 && ref::maxdiff(vec(tw.linear), v) < 1e-2, "integrate_kinematics", "state differs from the kinematics after " << i << " samples");
        }
        // covariance: the integrated one of position and orientation, in ROS order; its velocity and the sample's angular velocity
        const Eigen::Matrix<double, 15, 15> c = reference.preintMeasCov();
        Eigen::Matrix<double, 6, 6> pose_cov, twist_cov;
        pose_cov << c.block<3, 3>(3, 3), c.block<3, 3>(3, 0), c.block<3, 3>(0, 3), c.block<3, 3>(0, 0);
        Eigen::Matrix3d wc;
        for (int a = 0; a < 9; ++a) wc(a / 3, a % 3) = msg.angular_velocity_covariance[a];
        twist_cov << c.block<3, 3>(6, 6), Eigen::Matrix3d::Zero(), Eigen::Matrix3d::Zero(), wc;
        for (int a = 0; a < 36; ++a) {
            MC_CHECK(std::fabs(o.pose.covariance[a] - pose_cov(a / 6, a % 6)) <= 1e-9 * pose_cov.norm(), "integrate_covariance", "pose covariance (" << a / 6 << ',' << a % 6 << ") is " << o.pose.covariance[a] << ", expected " << pose_cov(a / 6, a % 6));
            MC_CHECK(std::fabs(o.twist.covariance[a] - twist_cov(a / 6, a % 6)) <= 1e-9 * twist_cov.norm(), "integrate_covariance", "twist covariance (" << a / 6 << ',' << a % 6 << ") is " << o.twist.covariance[a] << ", expected " << twist_cov(a / 6, a % 6));
        }
        history.push_back(o);
        const auto& path = *paths.back();
        MC_CHECK(path.header.stamp == msg.header.stamp && path.header.frame_id == "map" && path.poses.size() == history.size(), "integrate_path", "wrong path header or size");
        for (std::size_t k = 0; k < history.size(); ++k)
            MC_CHECK(path.poses[k].header.stamp == history[k].header.stamp && ref::maxdiff(vec(path.poses[k].pose.position), vec(history[k].pose.pose.position)) == 0 &&
                ref::maxdiff(rot(path.poses[k].pose.orientation), rot(history[k].pose.pose.orientation)) == 0, "integrate_path", "pose " << k << " of the path is not the odometry of that time");
    }
    if (extrinsics == 0 && initial == 0 && noises == 0 && !moon) {
        // a repeated stamp is refused and changes nothing
        const auto before = rosstub::Bus::get().log.size();
        sensor_msgs::Imu again;
        again.header.stamp = stamp(base_ns + t * slow * 10000000ULL);
        again.orientation.w = 1;
        const bool refused = mc::throws([&] { give("/node/input", again); });
        MC_CHECK(refused && bus.count("/node/odometry") == static_cast<std::size_t>(depth), "integrate_repeated", "sample with a repeated time not refused");
        (void) before;
    }
    mc::state(h.h);
    mc::nontrivial(h.h);
}

// ---- odometry to tf ------------------------------------------------------------------------------------------------------
MC_FAMILY(broadcast) {
    rosstub::Bus::reset();
    auto& bus = rosstub::Bus::get();
    OdometryToTf node;
    const int depth = mc::thorough() ? 4 : 3;
    mc::Hash h;
    for (int i = 0; i < depth; ++i) {
        const int m = mc::choose(motions().size(), "pose"), f = mc::choose(3, "frames");
        h.add(m).add(f);
        nav_msgs::Odometry o;
        o.header.stamp = stamp(base_ns + i * 1000 + 1);
        o.header.seq = i;
        o.header.frame_id = f == 0 ? "map" : f == 1 ? "odom" : "";
        o.child_frame_id = f == 0 ? "body" : f == 1 ? "map" : "x";
        set_q(o.pose.pose.orientation, motions()[m].R);
        set_v(o.pose.pose.position, motions()[m].t);
        set_v(o.twist.twist.linear, v3(7, 8, 9));
        give("/node/input", o);
        auto tf = bus.published<geometry_msgs::TransformStamped>("/tf");
        MC_CHECK(static_cast<int>(tf.size()) == i + 1, "broadcast_count", tf.size() << " transforms after " << i + 1 << " odometry messages");
        const auto& t = *tf.back();
        MC_CHECK(t.header.stamp == o.header.stamp && t.header.frame_id == o.header.frame_id && t.child_frame_id == o.child_frame_id, "broadcast_header", "wrong time or frames");
        MC_CHECK(ref::maxdiff(vec(t.transform.translation), vec(o.pose.pose.position)) == 0 && ref::maxdiff(rot(t.transform.rotation), rot(o.pose.pose.orientation)) < 1e-12, "broadcast_pose", "wrong pose");
    }
    mc::state(h.h);
    mc::nontrivial(h.h);
}

// ---- IMU tools -----------------------------------------------------------------------------------------------------------
namespace {
std::vector<double> row_major(const ref::M3& R) {
    std::vector<double> v;
    for (int i = 0; i < 9; ++i) v.push_back(static_cast<double>(R(i / 3, i % 3)));
    return v;
}
sensor_msgs::Imu imu_input(const ref::M3& R, int i, int covariance) {
    sensor_msgs::Imu m;
    m.header.stamp = stamp(base_ns + i * 5000000ULL + 3);
    m.header.frame_id = "imu_id";
    set_q(m.orientation, R);
    set_v(m.angular_velocity, v3(0.1L * i, -0.2L, 0.3L));
    set_v(m.linear_acceleration, v3(1, 2 * i, 9));
    // symmetric positive definite: isotropic, diagonal, full
    static const double c[3][9] = {{2, 0, 0, 0, 2, 0, 0, 0, 2}, {1, 0, 0, 0, 4, 0, 0, 0, 9}, {3, 1, -0.5, 1, 5, 0.25, -0.5, 0.25, 2}};
    for (int k = 0; k < 9; ++k) {
        m.orientation_covariance[k] = 1e-3 * c[covariance][k];
        m.angular_velocity_covariance[k] = 1e-4 * c[(covariance + 1) % 3][k];
        m.linear_acceleration_covariance[k] = 1e-5 * c[(covariance + 2) % 3][k];
    }
    return m;
}
}
MC_FAMILY(imu_transform) {
    static const std::vector<ref::M3> rotations = ref::rotations();
    rosstub::Bus::reset();
    auto& bus = rosstub::Bus::get();
    const int r = mc::choose(rotations.size() + 1, "rotation");
    const int frame = mc::choose(3, "frame (kept, name without overwriting, overwritten)");
    const bool topics = mc::flip("topics configured");
    const ref::M3 R = r ? rotations[r - 1] : ref::M3::id();
    if (r) bus.param("/node/rotation", row_major(R));
    if (frame) bus.param("/node/new_frame", std::string("turned"));
    if (frame) bus.param("/node/overwrite_frame", frame == 2);
    if (topics) { bus.param("/node/imu_topic", std::string("in")); bus.param("/node/imu_transformed_topic", std::string("out")); }
    const std::string in = topics ? "/node/in" : "/node/imu", out = topics ? "/node/out" : "/node/imu_transformed";
    ImuTransform node;
    const int cov = mc::choose(3, "covariance");
    const int depth = 2;
    for (int i = 0; i < depth; ++i) {
        const int o = mc::choose(mc::thorough() ? rotations.size() : 6, "orientation");
        const ref::M3 Q = rotations[mc::thorough() ? o : (o * 7 + 3) % rotations.size()];
        const sensor_msgs::Imu m = imu_input(Q, i, (cov + i) % 3);
        give(in, m);
        auto sent = bus.published<sensor_msgs::Imu>(out);
        MC_CHECK(static_cast<int>(sent.size()) == i + 1, "imu_transform_count", sent.size() << " messages after " << i + 1);
        const auto& s = *sent.back();
        MC_CHECK(s.header.stamp == m.header.stamp && s.header.frame_id == (frame == 2 ? "turned" : "imu_id"), "imu_transform_header", "wrong time or frame " << s.header.frame_id);
        MC_CHECK(ref::maxdiff(rot(s.orientation), R * Q) < 1e-7 && std::fabs(norm(s.orientation) - 1) < 1e-7, "imu_transform_orientation", "orientation is not rotation * orientation");
        ref::M3 C, S;
        for (int k = 0; k < 9; ++k) { C(k / 3, k % 3) = m.orientation_covariance[k]; S(k / 3, k % 3) = s.orientation_covariance[k]; }
        MC_CHECK(ref::maxdiff(S, R * C * R.T()) < 1e-9, "imu_transform_covariance", "orientation covariance is not that of the rotated orientation");
        MC_CHECK(ref::maxdiff(vec(s.angular_velocity), vec(m.angular_velocity)) < 1e-15 && ref::maxdiff(vec(s.linear_acceleration), vec(m.linear_acceleration)) < 1e-15, "imu_transform_rates", "angular velocity or acceleration changed");
        for (int k = 0; k < 9; ++k)
            MC_CHECK(s.angular_velocity_covariance[k] == m.angular_velocity_covariance[k] && s.linear_acceleration_covariance[k] == m.linear_acceleration_covariance[k], "imu_transform_rates", "covariance of the rates changed");
    }
    mc::nontrivial(mc::Hash().add(r).add(frame).add(topics).add(cov).h);
}

MC_FAMILY(imu_analysis) {
    Silent silent;
    static const std::vector<ref::M3> rotations = ref::rotations();
    rosstub::Bus::reset();
    auto& bus = rosstub::Bus::get();
    const bool apply = mc::flip("apply transform"), names = mc::flip("frames configured");
    const int r = mc::choose(rotations.size() + 1, "rotation");
    const ref::M3 R = r ? rotations[r - 1] : ref::M3::id();
    const ref::V3 t = r ? v3(0.5L, -1, 2) : v3(0, 0, 0);
    if (apply || names) bus.param("/node/apply_transform", apply);
    if (r) {
        bus.param("/node/rotation", row_major(R));
        bus.param("/node/translation", std::vector<double>{0.5, -1, 2});
    }
    if (names) {
        bus.param("/node/imu_topic", std::string("in"));
        bus.param("/node/fixed_frame", std::string("world"));
        bus.param("/node/transformed_frame", std::string("turned"));
    }
    const std::string in = names ? "/node/in" : "/node/imu", fixed = names ? "world" : "fixed", transformed = names ? "turned" : "fixed";
    ImuAnalysis node;
    std::size_t expected = 0;
    for (int i = 0; i < 2; ++i) {
        const int o = mc::choose(mc::thorough() ? rotations.size() : 6, "orientation");
        const ref::M3 Q = rotations[mc::thorough() ? o : (o * 7 + 3) % rotations.size()];
        const sensor_msgs::Imu m = imu_input(Q, i, 0);
        give(in, m);
        expected += apply ? 2 : 1;
        auto tf = bus.published<geometry_msgs::TransformStamped>("/tf");
        MC_CHECK(tf.size() == expected, "imu_analysis_count", tf.size() << " transforms, expected " << expected);
        const auto& a = *tf[tf.size() - (apply ? 2 : 1)];
        MC_CHECK(a.header.stamp == m.header.stamp && a.header.frame_id == fixed && a.child_frame_id == "imu_id", "imu_analysis_frames", "wrong time or frames " << a.header.frame_id << " -> " << a.child_frame_id);
        MC_CHECK(ref::maxdiff(rot(a.transform.rotation), Q) < 1e-9 && ref::maxdiff(vec(a.transform.translation), v3(0, 0, 0)) == 0, "imu_analysis_orientation", "not the measured orientation");
        if (!apply) continue;
        const auto& b = *tf.back();
        MC_CHECK(b.header.stamp == m.header.stamp && b.header.frame_id == fixed && b.child_frame_id == transformed, "imu_analysis_frames", "wrong time or frames " << b.header.frame_id << " -> " << b.child_frame_id);
        MC_CHECK(ref::maxdiff(rot(b.transform.rotation), Q * R) < 1e-7, "imu_analysis_rotation", "orientation of the new frame is not the orientation times the rotation");
        // The translation is displayed as configured; along the axes of the IMU would be as good.
        MC_CHECK(ref::maxdiff(vec(b.transform.translation), t) < 1e-9 || ref::maxdiff(vec(b.transform.translation), Q * t) < 1e-9, "imu_analysis_translation", "wrong translation");
    }
    mc::nontrivial(mc::Hash().add(apply).add(names).add(r).h);
}

// Shared scene for the node-level checks: sensors with known content, body frames, arrival of inputs, tasks for every subscription.
#pragma once
#include "mc.hpp"
#include "ref.hpp"
#include "sched.hpp"
#include <deque>
#include <geometry_msgs/PoseWithCovarianceStamped.h>
#include <geometry_msgs/TransformStamped.h>
#include <gtsam/navigation/CombinedImuFactor.h>
#include <nav_msgs/Odometry.h>
#include <nav_msgs/Path.h>
#include <pcl/PCLPointCloud2.h>
#include <pcl_ros/point_cloud.h>
#include <sensor_msgs/CameraInfo.h>
#include <sensor_msgs/FluidPressure.h>
#include <sensor_msgs/Image.h>
#include <sensor_msgs/Imu.h>
#include "serpent/ImuArray.h"
#include "serpent/ImuBiases.h"

namespace scene_ns {
using XmlRpc::XmlRpcValue;
typedef std::uint64_t ns_t;
const ns_t second = 1000000000ULL, base_ns = 100 * second;
inline ros::Time stamp(ns_t t) { ros::Time s; s.fromNSec(t); return s; }
inline ns_t truncated(ns_t t) { return t / 1000 * 1000; }

// ---- body frames ---------------------------------------------------------------------------------------------------------
struct Frames {
    std::string body = "body", body_id = "body_id";
    std::map<std::string, ref::Pose> body_to;
    Frames(bool body_is_base_link) {
        auto pose = [](ref::L rx, ref::L ry, ref::L rz, ref::L x, ref::L y, ref::L z) { ref::Pose p; p.R = ref::expm(ref::v3(rx, ry, rz)); p.t = ref::v3(x, y, z); return p; };
        if (body_is_base_link) { body = "base_link"; body_id = "base"; }
        else body_to["base_link"] = pose(0.1L, -0.2L, 0.4L, -0.3L, 0.2L, 0.1L);
        body_to["imu"] = pose(0.2L, 0.1L, -0.3L, 0.05L, -0.1L, 0.2L);
        body_to["lidar"] = pose(-0.3L, 0.5L, 1.1L, 0.4L, 0.1L, -0.6L);
        body_to["stereo"] = pose(-1.2L, 0.1L, -1.4L, 0.3L, 0, 0.1L);
    }
    ref::Pose pose(const std::string& f) const { auto it = body_to.find(f); return it == body_to.end() ? ref::Pose() : it->second; }
    std::string id(const std::string& f) const { return f == body ? body_id : f + "_id"; }
    void install(const std::string& ns = "/serpent") const {
        XmlRpcValue top = XmlRpcValue::Struct(), b = XmlRpcValue::Struct(), fs = XmlRpcValue::Struct();
        b["frame_id"] = body_id;
        for (auto& e : body_to) {
            XmlRpcValue f = XmlRpcValue::Struct(), t = XmlRpcValue::Struct(), r = XmlRpcValue::Struct();
            f["frame_id"] = id(e.first);
            const Eigen::Quaterniond q(ref::eig<double>(e.second).rotation());
            t["x"] = static_cast<double>(e.second.t(0, 0)); t["y"] = static_cast<double>(e.second.t(1, 0)); t["z"] = static_cast<double>(e.second.t(2, 0));
            r["w"] = q.w(); r["x"] = q.x(); r["y"] = q.y(); r["z"] = q.z();
            f["translation"] = t;
            f["rotation"] = r;
            fs[e.first] = f;
        }
        b["frames"] = fs;
        top[body] = b;
        rosstub::Bus::get().param(ns + "/body_frames", top);
    }
};

// ---- sensors -------------------------------------------------------------------------------------------------------------
struct ImuSample { ns_t t; Eigen::Vector3d a, w; double noise = 1; };
inline Eigen::Matrix3d imu_covariance(double variance, double noise) {
    Eigen::Matrix3d m = Eigen::Vector3d(1, 1.25, 0.75).asDiagonal();
    m(0, 1) = m(1, 0) = 0.25;
    return variance * noise * m;
}
inline ImuSample imu_sample(ns_t t, int i) {
    return ImuSample{t, Eigen::Vector3d(0.2 + 0.3 * (i % 3), -0.4 * (i % 2), 9.8 + 0.2 * (i % 4)), Eigen::Vector3d(0.2 * (i % 3), -0.15, 0.3 + 0.2 * (i % 2))};
}
inline Eigen::Quaterniond imu_orientation() { return Eigen::Quaterniond(0.9, 0.1, -0.2, 0.3).normalized(); }
inline boost::shared_ptr<sensor_msgs::Imu> imu_msg(const ImuSample& s, bool orientation = true) {
    auto m = boost::make_shared<sensor_msgs::Imu>();
    m->header.stamp = stamp(s.t);
    m->header.frame_id = "imu_id";
    if (orientation) {
        const Eigen::Quaterniond q = imu_orientation();
        m->orientation.w = q.w(); m->orientation.x = q.x(); m->orientation.y = q.y(); m->orientation.z = q.z();
    } else m->orientation.w = m->orientation.x = m->orientation.y = m->orientation.z = 0;
    m->linear_acceleration.x = s.a.x(); m->linear_acceleration.y = s.a.y(); m->linear_acceleration.z = s.a.z();
    m->angular_velocity.x = s.w.x(); m->angular_velocity.y = s.w.y(); m->angular_velocity.z = s.w.z();
    const Eigen::Matrix3d a = imu_covariance(2e-4, s.noise), w = imu_covariance(3e-5, s.noise);
    for (int k = 0; k < 9; ++k) { m->linear_acceleration_covariance[k] = a(k / 3, k % 3); m->angular_velocity_covariance[k] = w(k / 3, k % 3); }
    for (int k = 0; k < 3; ++k) m->orientation_covariance[4 * k] = 1e-3;
    return m;
}
struct Point { float x, y, z, t; };
inline std::shared_ptr<pcl::PCLPointCloud2> cloud_msg(ns_t t, const std::vector<Point>& pts, bool with_t, unsigned seq) {
    auto c = std::make_shared<pcl::PCLPointCloud2>();
    c->header.stamp = t / 1000;
    c->header.frame_id = "lidar_id";
    c->header.seq = seq;
    const char* names[4] = {"x", "y", "z", "t"};
    for (int k = 0; k < (with_t ? 4 : 3); ++k) {
        pcl::PCLPointField f;
        f.name = names[k]; f.offset = 4 * k; f.datatype = pcl::PCLPointField::FLOAT32; f.count = 1;
        c->fields.push_back(f);
    }
    c->point_step = 4 * c->fields.size();
    c->width = pts.size(); c->height = 1; c->row_step = c->width * c->point_step; c->is_dense = 1; c->is_bigendian = 0;
    c->data.resize(c->row_step);
    for (std::size_t i = 0; i < pts.size(); ++i) std::memcpy(&c->data[i * c->point_step], &pts[i], c->point_step);
    return c;
}
inline Point cloud_point(const pcl::PCLPointCloud2& c, std::size_t i) { Point p{0, 0, 0, 0}; std::memcpy(&p, &c.data[i * c.point_step], c.point_step); return p; }

// ---- reference IMU integration (GTSAM trusted; which sample is used over which interval is ours) --------------------------
struct NavRef {
    boost::shared_ptr<gtsam::PreintegrationCombinedParams> params;
    NavRef(const Frames& f, double gravity) {
        params = gtsam::PreintegrationCombinedParams::MakeSharedU(gravity);
        params->setAccelerometerCovariance(imu_covariance(2e-4, 1));
        params->setGyroscopeCovariance(imu_covariance(3e-5, 1));
        params->setIntegrationCovariance(gtsam::I_3x3 * 1e-6);
        params->setBiasAccOmegaInit(gtsam::I_6x6 * 1e-6);
        params->setBiasAccCovariance(gtsam::I_3x3 * 1e-6);
        params->setBiasOmegaCovariance(gtsam::I_3x3 * 1e-6);
        const Eigen::Isometry3d b = ref::eig<double>(f.pose("imu"));
        params->setBodyPSensor(gtsam::Pose3(gtsam::Rot3(b.rotation()), b.translation()));
    }
    // Samples held from their own time on.
    gtsam::PreintegratedCombinedMeasurements held(const std::vector<ImuSample>& s, ns_t from, ns_t to, const gtsam::imuBias::ConstantBias& b) const {
        // with the covariance of the first sample
        auto q = boost::make_shared<gtsam::PreintegrationCombinedParams>(*params);
        for (std::size_t i = 0; i < s.size(); ++i) {
            if (i + 1 < s.size() && s[i + 1].t <= from) continue;
            q->setAccelerometerCovariance(imu_covariance(2e-4, s[i].noise));
            q->setGyroscopeCovariance(imu_covariance(3e-5, s[i].noise));
            break;
        }
        gtsam::PreintegratedCombinedMeasurements p(q, b);
        for (std::size_t i = 0; i < s.size(); ++i) {
            const ns_t lo = std::max(from, i == 0 ? 0 : s[i].t), hi = std::min(to, i + 1 < s.size() ? s[i + 1].t : to);
            if (hi > lo) p.integrateMeasurement(s[i].a, s[i].w, (hi - lo) * 1e-9);
        }
        return p;
    }
    // Samples applied backwards to the previous one.
    gtsam::PreintegratedCombinedMeasurements backward(const std::vector<ImuSample>& s, ns_t from, ns_t to, const gtsam::imuBias::ConstantBias& b) const {
        gtsam::PreintegratedCombinedMeasurements p(params, b);
        ns_t last = from;
        for (auto& x : s) {
            if (x.t <= from || x.t > to) continue;
            p.integrateMeasurement(x.a, x.w, (x.t - last) * 1e-9);
            last = x.t;
        }
        return p;
    }
};
inline ref::Pose to_ref(const gtsam::Pose3& p) { ref::Pose r; r.R = ref::from<3, 3>(p.rotation().matrix()); r.t = ref::from<3, 1>(p.translation()); return r; }
inline ref::Pose to_ref(const geometry_msgs::Pose& m) {
    const Eigen::Quaterniond q(m.orientation.w, m.orientation.x, m.orientation.y, m.orientation.z);
    ref::Pose r; r.R = ref::from<3, 3>(q.toRotationMatrix()); r.t = ref::v3(m.position.x, m.position.y, m.position.z); return r;
}
inline ref::Pose to_ref(const geometry_msgs::Transform& m) {
    const Eigen::Quaterniond q(m.rotation.w, m.rotation.x, m.rotation.y, m.rotation.z);
    ref::Pose r; r.R = ref::from<3, 3>(q.toRotationMatrix()); r.t = ref::v3(m.translation.x, m.translation.y, m.translation.z); return r;
}
inline double diff(const ref::Pose& a, const ref::Pose& b) { return std::max(ref::maxdiff(a.R, b.R), ref::maxdiff(a.t, b.t)); }
// Rotation vector of a rotation matrix (angle below pi).
inline ref::V3 logm(const ref::M3& R) {
    const ref::L c = std::min<ref::L>(1, std::max<ref::L>(-1, (R(0, 0) + R(1, 1) + R(2, 2) - 1) / 2)), a = std::acos(c);
    const ref::V3 v = ref::v3(R(2, 1) - R(1, 2), R(0, 2) - R(2, 0), R(1, 0) - R(0, 1));
    return v * (a < 1e-7L ? 0.5L : a / (2 * std::sin(a)));
}

// ---- inputs and tasks ----------------------------------------------------------------------------------------------------
struct Input { ns_t arrival; std::string topic; std::function<void()> send; };

struct Scene {
    std::vector<Input> inputs;
    std::size_t next = 0;
    bool stopping = false;    // ROS shutdown: no callback is started any more
    std::function<void(const std::string&)> finished;   // called when a callback has returned
    std::map<std::string, std::size_t> begun, ended;        // callbacks of each topic
    std::function<void(const std::string&)> starting;   // called when a callback is about to run
    bool burst;               // inputs arrive ahead of the processing (as far as queues allow)
    std::vector<std::string> lossless;   // topics that must not overflow: their next input waits for room in the queue
    sched::World world;
    Scene(int delays, int threads, bool burst) : burst(burst), world(delays, threads) { rosstub::Bus::get().on_publish = [](const std::string&, const rosstub::AnyMsg&) { sched::point("publish"); }; }
    ~Scene() { rosstub::Bus::get().on_publish = nullptr; rosstub::ok_fn = nullptr; }
    template<class P>
    void input(ns_t arrival, const std::string& topic, P msg) {
        using M = typename rosstub::IsPtr<P>::M;
        inputs.push_back(Input{arrival, topic, [topic, msg] { rosstub::Bus::get().inject<M>(topic, rosstub::CPtr<M>(msg)); }});
    }
    bool room() const {
        const Input& i = inputs[next];
        for (auto& s : rosstub::Bus::get().subs) if (s->topic == i.topic && s->queue > 0 && s->pending.size() >= s->queue) return false;
        return true;
    }
    // Shutdown (Ctrl-C) at the n-th scheduling point.
    void shutdown_at(std::size_t n) {
        rosstub::ok_fn = [this] { return !stopping; };
        world.add("shutdown", [this, n] { return !stopping && world.points() >= n; }, [this] { stopping = true; }, [] { return 0.0; }, false, sched::immediate);
    }
    // At one scheduling point the next input of a topic arrives, ahead of the other inputs, and its callback goes on whenever it
    // can until it returns.
    bool interrupted = false;
    void interrupt(const std::string& topic) {
        auto find = [this, topic] { std::size_t i = next; while (i < inputs.size() && inputs[i].topic != topic) ++i; return i; };
        auto pending = [topic] { for (auto& s : rosstub::Bus::get().subs) if (s->topic == topic && !s->pending.empty()) return true; return false; };
        world.add("interrupt", [=] { return !interrupted && !stopping && world.idle(topic) && !pending() && find() < inputs.size(); }, [=] {
            interrupted = true;
            const std::size_t i = find();
            std::rotate(inputs.begin() + next, inputs.begin() + i, inputs.begin() + i + 1);
            auto send = inputs[next++].send;
            world.prioritise(topic, sched::immediate);
            send();
        }, [] { return 0.0; }, false, sched::optional);
        auto before = finished;
        finished = [this, topic, before](const std::string& t) { if (t == topic) world.prioritise(topic, 0); if (before) before(t); };
    }
    // Every subscription made so far becomes a task; call after constructing the nodes.
    void tasks(std::size_t first_sub, bool needs_thread) {
        auto& subs = rosstub::Bus::get().subs;
        for (std::size_t k = first_sub; k < subs.size(); ++k) {
            auto s = subs[k];
            world.add(s->topic, [this, s] { return !stopping && s->alive && !s->pending.empty(); }, [this, s] { ++begun[s->topic]; if (starting) starting(s->topic); rosstub::Bus::deliver_one(s); ++ended[s->topic]; if (finished) finished(s->topic); }, [s] { return static_cast<double>(s->pending.front().serial); }, needs_thread);
        }
    }
    void driver() {
        std::stable_sort(inputs.begin(), inputs.end(), [](const Input& a, const Input& b) { return a.arrival < b.arrival; });
        world.add("input", [this] { return !stopping && next < inputs.size() && room(); }, [this] {
            rosstub::now_ns = std::max<ns_t>(rosstub::now_ns, inputs[next].arrival);
            inputs[next++].send();
        }, [] { return 0.0; }, false, burst ? -1 : 1);
    }
};
}

// P17: integrating a buffer of IMU samples over an interval uses, for every instant of the interval, exactly the sample in force.
#include "mc.hpp"
#include "ref.hpp"
#include <boost/make_shared.hpp>
#include <deque>
#include <eigen_ros/eigen_ros.hpp>
#include <eigen_ros/sensor_msgs.hpp>
#include "serpent/utils/ros_conversion.hpp"
#include "serpent/utils/utilities.hpp"

namespace {

boost::shared_ptr<gtsam::PreintegrationCombinedParams> params() {
    auto q = gtsam::PreintegrationCombinedParams::MakeSharedU(9.81);
    q->setAccelerometerCovariance(gtsam::I_3x3 * 1e-4);
    q->setGyroscopeCovariance(gtsam::I_3x3 * 1e-4);
    q->setIntegrationCovariance(gtsam::I_3x3 * 1e-4);
    return q;
}
const uint64_t base = 99900000000ULL, step = 50000000ULL;   // ticks of 0.05 s
ros::Time T(int k) { ros::Time t; t.fromNSec(base + k * step); return t; }
eigen_ros::Imu sample(int tick, int serial) {
    return eigen_ros::Imu(Eigen::Quaterniond(1, 0, 0, 0), Eigen::Vector3d(0.1 * serial, -0.2, 0.05 * serial * serial), Eigen::Vector3d(serial, 1 - serial, 9.81), Eigen::Matrix3d::Zero(),
            Eigen::Matrix3d::Zero(), Eigen::Matrix3d::Zero(), T(tick), "imu");
}

// Sample in force during each tick of [start, end), merged where it does not change.
gtsam::PreintegratedCombinedMeasurements expected(const std::deque<eigen_ros::Imu>& buffer, int start, int end) {
    gtsam::PreintegratedCombinedMeasurements pre(params());
    int begun = start, current = -1;
    for (int k = start; k <= end; ++k) {
        int in_force = -1;
        if (k < end) {
            for (std::size_t i = 0; i < buffer.size(); ++i) {
                if (buffer[i].timestamp <= T(k)) in_force = i;
            }
        }
        if (in_force != current) {
            if (current >= 0) pre.integrateMeasurement(buffer[current].linear_acceleration, buffer[current].angular_velocity, (T(k) - T(begun)).toSec());
            begun = k;
            current = in_force;
        }
    }
    return pre;
}

bool same(const gtsam::PreintegratedCombinedMeasurements& a, const gtsam::PreintegratedCombinedMeasurements& b) {
    return std::fabs(a.deltaTij() - b.deltaTij()) < 1e-12 && a.equals(b, 1e-9) && a.preintMeasCov().isApprox(b.preintMeasCov(), 1e-9);
}

}

// All ordered buffers (with repeated stamps) x all intervals.
MC_FAMILY(integrate) {
    const int ticks = mc::thorough() ? 8 : 6, maxn = mc::thorough() ? 5 : 4;
    const int n = mc::choose(maxn + 1, "samples");
    std::deque<eigen_ros::Imu> buffer;
    mc::Hash h;
    int t = 0;
    bool repeated = false;
    for (int i = 0; i < n; ++i) {
        const int d = mc::choose(ticks - t, "gap");
        repeated |= i && d == 0;
        t += d;
        buffer.push_back(sample(t, i + 1));
        h.add(t);
    }
    const int start = mc::choose(ticks, "start"), end = start + mc::choose(ticks - start, "length");
    h.add(start).add(end);
    mc::transition();
    gtsam::PreintegratedCombinedMeasurements pre(params());
    bool threw = false;
    std::string what;
    try {
        serpent::integrate_imu(pre, buffer, T(start), T(end));
    } catch (const std::exception& e) {
        threw = true;
        what = e.what();
    }
    if (start == end) {
        MC_CHECK(!threw && pre.deltaTij() == 0, "integrate_empty", "empty interval");
        return;
    }
    if (buffer.empty() || buffer.front().timestamp > T(start)) {
        MC_CHECK(threw, "integrate_uncovered", "interval beginning before the first sample accepted");
        return;
    }
    if (buffer.size() < 2) return;  // one sample is refused by contract
    MC_CHECK(!threw, "integrate_refused", "interval [" << start << "," << end << "] covered by the buffer refused: " << what);
    MC_CHECK(std::fabs(pre.deltaTij() - (T(end) - T(start)).toSec()) < 1e-12, "integrate_duration", "integrated " << pre.deltaTij() << " of " << (T(end) - T(start)).toSec());
    MC_CHECK(same(pre, expected(buffer, start, end)), "integrate_samples", "wrong samples integrated over [" << start << "," << end << "]");
    mc::state(h.h);
    mc::nontrivial(h.h);
}

// Splitting an interval at any instants gives the same result, also when samples no longer needed are dropped in between.
MC_FAMILY(partition) {
    const int ticks = mc::thorough() ? 9 : 7;
    const int pattern = mc::choose(1 << (ticks - 1), "sample pattern");
    std::deque<eigen_ros::Imu> buffer;
    buffer.push_back(sample(0, 1));
    for (int k = 1; k < ticks; ++k) {
        if (pattern >> (k - 1) & 1) buffer.push_back(sample(k, k + 1));
    }
    if (buffer.size() < 2) mc::prune();
    const int a = mc::choose(ticks, "a"), b = a + mc::choose(ticks - a, "b"), c = b + mc::choose(ticks - b, "c");
    const bool drop = mc::flip("drop old samples");
    mc::transition(2);
    gtsam::PreintegratedCombinedMeasurements whole(params()), parts(params()), first(params()), second(params());
    try {
        serpent::integrate_imu(whole, buffer, T(a), T(c));
        serpent::integrate_imu(parts, buffer, T(a), T(b));
        serpent::integrate_imu(first, buffer, T(a), T(b));
        if (drop) {
            // everything strictly older than the sample in force at b
            int keep = 0;
            for (std::size_t i = 0; i < buffer.size(); ++i) if (buffer[i].timestamp <= T(b)) keep = i;
            if (buffer.size() - keep < 2) mc::prune();
            const std::size_t n = buffer.size();
            serpent::delete_old_measurements(buffer[keep].timestamp, buffer);
            MC_CHECK(buffer.size() == n - keep, "delete_old", "kept " << buffer.size() << " of " << n);
        }
        serpent::integrate_imu(parts, buffer, T(b), T(c));
        serpent::integrate_imu(second, buffer, T(b), T(c));
    } catch (const std::exception& e) {
        mc::fail("integrate_refused", std::string("interval covered by the buffer refused: ") + e.what());
    }
    MC_CHECK(std::fabs(whole.deltaTij() - parts.deltaTij()) < 1e-12 && std::fabs(first.deltaTij() + second.deltaTij() - whole.deltaTij()) < 1e-12, "partition_duration", "");
    // GTSAM integrates each sample to first order, so that a split inside a held sample changes the result slightly; a split at
    // a sample changes nothing.
    const bool at_sample = b == a || b == c || b == 0 || (pattern >> (b - 1) & 1);
    if (at_sample) MC_CHECK(same(whole, parts), "partition_exact", "");
    MC_CHECK(ref::maxdiff(ref::from<3, 3>(whole.deltaRij().matrix()), parts.deltaRij().matrix()) < 2e-2, "partition_rotation", ref::maxdiff(ref::from<3, 3>(whole.deltaRij().matrix()), parts.deltaRij().matrix()));
    MC_CHECK(ref::maxdiff(ref::from<3, 3>(whole.deltaRij().matrix()), (first.deltaRij() * second.deltaRij()).matrix()) < 2e-2, "partition_rotation_product", ref::maxdiff(ref::from<3, 3>(whole.deltaRij().matrix()), (first.deltaRij() * second.deltaRij()).matrix()));
    mc::nontrivial(mc::Hash().add(pattern).add(a).add(b).add(c).add(static_cast<int>(drop)).h);
}

// Buffer trimming.
MC_FAMILY(trim) {
    const int n = mc::choose(5, "samples");
    std::deque<eigen_ros::Imu> buffer;
    std::vector<int> at;
    int t = 0;
    for (int i = 0; i < n; ++i) {
        t += mc::choose(3, "gap");
        buffer.push_back(sample(t, i));
        at.push_back(t);
    }
    const int calls = 2;
    for (int k = 0; k < calls; ++k) {
        const int when = mc::choose(8, "when");
        mc::transition();
        serpent::delete_old_measurements(T(when), buffer);
        at.erase(std::remove_if(at.begin(), at.end(), [&](int x) { return x < when; }), at.end());
        MC_CHECK(buffer.size() == at.size(), "trim_size", buffer.size() << " left, expected " << at.size());
        for (std::size_t i = 0; i < at.size(); ++i) MC_CHECK(buffer[i].timestamp == T(at[i]), "trim_content", i);
    }
    mc::nontrivial(mc::Hash().add(n).add(static_cast<int>(at.size())).add(t).h);
}

// Scalar and pressure interpolation.
MC_FAMILY(pressure) {
    const std::vector<uint64_t> ts{0, 1, 999999999ULL, 1000000000ULL, 1700000000123456789ULL, 1700000001123456789ULL};
    auto at = [](uint64_t ns) { ros::Time t; t.fromNSec(ns); return t; };
    const uint64_t t1 = mc::pick(ts, "t1"), t2 = mc::pick(ts, "t2");
    const std::vector<uint64_t> cand{t1, t2, t1 / 2 + t2 / 2, t1 + 1, t2 ? t2 - 1 : 0, t1 ? t1 - 1 : 0, t2 + 1};
    const uint64_t t = mc::pick(cand, "t");
    const double p1 = mc::pick(std::vector<double>{101325.0, 0.0}), p2 = mc::pick(std::vector<double>{99000.5, 101325.0}), v1 = 4, v2 = mc::pick(std::vector<double>{4, 9});
    mc::transition();
    sensor_msgs::FluidPressure a, b, r;
    a.header.stamp = at(t1);
    a.header.frame_id = "first";
    a.fluid_pressure = p1;
    a.variance = v1;
    b.header.stamp = at(t2);
    b.header.frame_id = "second";
    b.fluid_pressure = p2;
    b.variance = v2;
    bool threw = false;
    try { r = serpent::interpolate_pressure(a, b, at(t)); } catch (const std::runtime_error&) { threw = true; }
    MC_CHECK(threw == !(t1 < t2 && t1 <= t && t <= t2), "pressure_range", t1 << " " << t << " " << t2);
    MC_CHECK(mc::throws([&] { serpent::interpolate(1.0f, 2.0f, at(t1), at(t2), at(t)); }) == threw, "scalar_range", "");
    if (threw) return;
    const long double s = static_cast<long double>(t - t1) / (t2 - t1);
    MC_CHECK(std::fabs(r.fluid_pressure - static_cast<double>((1 - s) * p1 + s * p2)) < 1e-6 && std::fabs(r.variance - static_cast<double>((1 - s) * v1 + s * v2)) < 1e-9, "pressure_value", r.fluid_pressure);
    MC_CHECK(r.header.stamp == at(t) && r.header.frame_id == "first", "pressure_header", "");
    MC_CHECK(std::fabs(serpent::interpolate(1.0f, 3.0f, at(t1), at(t2), at(t)) - static_cast<float>(1 + 2 * s)) < 1e-5, "scalar_value", "");
    mc::nontrivial(mc::Hash().add(static_cast<double>(t1)).add(static_cast<double>(t)).add(static_cast<double>(t2)).add(p1).add(p2).add(v2).h);
}

// Waiting on a condition: the condition is only evaluated under the lock, the lock state on return is the requested one on
// every path (condition met, shut down before, during or after waiting).
MC_FAMILY(protected_sleep) {
    const bool already = mc::flip("already locked"), leave = mc::flip("leave locked");
    const int met_after = mc::choose(4, "condition met after"), down_after = mc::choose(5, "shut down after");
    struct M { } ;
    std::mutex m;
    if (already) m.lock();
    int evals = 0, sleeps = 0;
    rosstub::ok_fn = [&] { return sleeps < down_after; };
    rosstub::on_sleep = [&](double s) {
        ++sleeps;
        MC_CHECK(std::fabs(s - 0.25) < 1e-9, "sleep_period", s);
        const bool free = m.try_lock();
        MC_CHECK(free, "sleep_locked", "sleeping with the lock held");
        m.unlock();
        MC_CHECK(sleeps < 10, "sleep_forever", "");
    };
    mc::transition();
    const bool ok = serpent::protected_sleep(m, 0.25, already, leave, [&] {
        const bool free = m.try_lock();
        if (free) m.unlock();
        MC_CHECK(!free, "condition_unlocked", "condition evaluated without the lock");
        ++evals;
        return sleeps < met_after;
    });
    rosstub::on_sleep = nullptr;
    rosstub::ok_fn = nullptr;
    MC_CHECK(ok == (sleeps < down_after), "sleep_result", ok);
    MC_CHECK(sleeps == std::min(met_after, down_after), "sleep_count", sleeps);
    const bool free = m.try_lock();
    MC_CHECK(free == !leave, "sleep_lock_state", leave ? "lock not held on return" : "lock held on return");
    m.unlock();
    mc::nontrivial(mc::Hash().add(already).add(leave).add(met_after).add(down_after).h);
}

// Preintegration parameters and conversions.
MC_FAMILY(preintegration_params) {
    const std::vector<double> d{1.0, 0.0, -1.0, NAN};
    const double a = mc::pick(d, "acc"), g = mc::pick(d, "gyr"), i = mc::pick(d, "int"), grav = mc::pick(std::vector<double>{9.81, 0.0}, "gravity");
    Eigen::Matrix3d ca = Eigen::Vector3d(1, 2, a).asDiagonal(), cg = Eigen::Vector3d(g, 1, 3).asDiagonal(), ci = Eigen::Vector3d(1, i, 1).asDiagonal();
    const bool asym = mc::flip("asymmetric");
    if (asym) ca(0, 1) = 0.5;
    gtsam::PreintegrationParams p(gtsam::Vector3(0, 0, -grav));
    p.setIntegrationCovariance(ci);
    mc::transition();
    const bool threw = mc::throws([&] { serpent::update_preintegration_params(p, ca, cg); });
    const bool valid = grav > 0 && a > 0 && g > 0 && i > 0 && !asym;
    MC_CHECK(threw == !valid && serpent::check_valid(p) == valid, "params_valid", "valid " << valid << " threw " << threw);
    if (valid) MC_CHECK(p.getAccelerometerCovariance() == ca && p.getGyroscopeCovariance() == cg, "params_set", "");
    mc::nontrivial(mc::Hash().add(std::isnan(a) ? 5.0 : a).add(std::isnan(g) ? 5.0 : g).add(std::isnan(i) ? 5.0 : i).add(grav).add(asym).h);
}

MC_FAMILY(conversions) {
    const int n = mc::choose(4, "samples");
    const std::vector<Eigen::Vector3d> vs{{0, 0, 0}, {1, -2, 3}};
    std::deque<eigen_ros::Imu> b, back;
    for (int i = 0; i < n; ++i) b.push_back(sample(mc::choose(3, "tick"), i));
    std::vector<sensor_msgs::Imu> msgs;
    serpent::to_ros(msgs, b);
    MC_CHECK(static_cast<int>(msgs.size()) == n, "imu_array_size", "");
    serpent::from_ros(msgs, back);
    MC_CHECK(back.size() == b.size(), "imu_array_back_size", "");
    for (int i = 0; i < n; ++i) MC_CHECK(back[i] == b[i], "imu_array_back", i);
    const gtsam::imuBias::ConstantBias bias(mc::pick(vs), mc::pick(vs));
    serpent::ImuBiases m;
    serpent::to_ros(m, bias, ros::Time(3, 4), "body");
    MC_CHECK(m.header.stamp == ros::Time(3, 4) && m.header.frame_id == "body", "biases_header", "");
    MC_CHECK(m.accelerometer_bias.x == bias.accelerometer()[0] && m.accelerometer_bias.y == bias.accelerometer()[1] && m.gyroscope_bias.z == bias.gyroscope()[2], "biases_fields", "");
    gtsam::imuBias::ConstantBias bb;
    serpent::from_ros(m, bb);
    MC_CHECK(bb.equals(bias, 0), "biases_back", "");
    const double s = mc::pick(std::vector<double>{0.0, 0.4, -2.0, M_PI});
    const gtsam::Pose3 pose(gtsam::Rot3::RzRyRx(s, 0.1, -s), gtsam::Point3(1, 2, s));
    geometry_msgs::Pose pm;
    serpent::to_ros(pm, pose);
    gtsam::Pose3 pb;
    serpent::from_ros(pm, pb);
    MC_CHECK(pb.equals(pose, 1e-9) && pm.position.z == s, "pose_back", "");
    MC_CHECK((serpent::to_flat_string<double, 3>(Eigen::Vector3d(1, 2.5, -3)) == "1 2.5 -3"), "flat_string", "");
    mc::transition();
    mc::nontrivial(mc::Hash().add(n).add(s).add(bias.accelerometer()[0]).add(bias.gyroscope()[0]).h);
}

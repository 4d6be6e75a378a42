// P14: GraphManager / ISAM2GraphManager against a map model and batch optimisation.
#include "mc.hpp"
#include <gtsam/inference/Symbol.h>
#include <gtsam/navigation/BarometricFactor.h>
#include <gtsam/nonlinear/LevenbergMarquardtOptimizer.h>
#include <gtsam/nonlinear/Marginals.h>
#include <gtsam/slam/BetweenFactor.h>
#include <gtsam/slam/PriorFactor.h>
#include <gtsam/slam/StereoFactor.h>
#include <memory>
#include <set>
#include "serpent/back_end/graph_manager.hpp"

using gtsam::symbol_shorthand::B;
using gtsam::symbol_shorthand::P;
using gtsam::symbol_shorthand::S;
using gtsam::symbol_shorthand::V;
using gtsam::symbol_shorthand::X;
using serpent::GraphManager;
using serpent::ISAM2GraphManager;

namespace {

gtsam::Pose3 pose_v(int v) {
    return gtsam::Pose3(gtsam::Rot3::RzRyRx(0.1 * v, -0.2 * v, 0.3 * v), gtsam::Point3(v, 2.0 * v, -1.0 * v + 0.5));
}
gtsam::Velocity3 vel_v(int v) { return gtsam::Velocity3(v + 0.1, v + 0.2, -v); }
gtsam::imuBias::ConstantBias bias_v(int v) {
    return gtsam::imuBias::ConstantBias(gtsam::Vector3(v, v + 0.1, v + 0.2), gtsam::Vector3(-v, -v + 0.1, 0.5));
}
double baro_v(int v) { return 10.0 * v + 0.25; }
ros::Time time_v(int v) { return ros::Time(100 + v, 5); }

const int NK = 3;  // state keys explored

struct Model {
    std::map<int, int> pose, vel, bias, baro, time;
    std::map<std::string, std::pair<int, unsigned>> named;
};

void check_values(const GraphManager& gm, const Model& m) {
    for (int k = 0; k < NK; ++k) {
        MC_CHECK(gm.has_pose(k) == (m.pose.count(k) > 0), "has_pose", "has_pose(" << k << ") wrong");
        if (m.pose.count(k)) {
            MC_CHECK(gm.pose(k).equals(pose_v(m.pose.at(k)), 1e-12), "pose", "pose(" << k << ")");
            MC_CHECK(dynamic_cast<const gtsam::GenericValue<gtsam::Pose3>*>(&gm.value(X(k))) != nullptr, "value", "value(X)");
        } else {
            MC_CHECK(mc::throws([&] { gm.pose(k); }), "pose_missing", "pose(" << k << ") of an unset key did not throw");
        }
        if (m.vel.count(k)) {
            MC_CHECK(gm.velocity(k).isApprox(vel_v(m.vel.at(k))), "velocity", "velocity(" << k << ")");
        } else {
            MC_CHECK(mc::throws([&] { gm.velocity(k); }), "velocity_missing", "velocity(" << k << ")");
        }
        if (m.pose.count(k) && m.vel.count(k)) {
            const auto n = gm.navstate(k);
            MC_CHECK(n.pose().equals(pose_v(m.pose.at(k)), 1e-12) && n.velocity().isApprox(vel_v(m.vel.at(k))), "navstate", "navstate(" << k << ")");
        }
        if (m.bias.count(k)) {
            MC_CHECK(gm.imu_bias(k).equals(bias_v(m.bias.at(k)), 1e-12), "imu_bias", "imu_bias(" << k << ")");
        } else {
            MC_CHECK(mc::throws([&] { gm.imu_bias(k); }), "imu_bias_missing", "imu_bias(" << k << ")");
        }
        if (m.baro.count(k)) {
            MC_CHECK(gm.barometer_bias(k) == baro_v(m.baro.at(k)), "barometer_bias", "barometer_bias(" << k << ")");
        } else {
            MC_CHECK(mc::throws([&] { gm.barometer_bias(k); }), "barometer_bias_missing", "barometer_bias(" << k << ")");
        }
        if (m.time.count(k)) {
            MC_CHECK(gm.timestamp(k) == time_v(m.time.at(k)), "timestamp", "timestamp(" << k << ")");
            for (int j = 0; j < NK; ++j) {
                if (m.time.count(j)) {
                    MC_CHECK(gm.time_between(k, j) == time_v(m.time.at(j)) - time_v(m.time.at(k)), "time_between", k << "," << j);
                }
            }
        } else {
            MC_CHECK(mc::throws([&] { gm.timestamp(k); }), "timestamp_missing", "timestamp(" << k << ")");
        }
        if (m.pose.count(k) && m.vel.count(k) && m.bias.count(k) && m.baro.count(k) && m.time.count(k)) {
            const auto s = gm.state(k);
            MC_CHECK(s.pose().equals(pose_v(m.pose.at(k)), 1e-12) && s.velocity().isApprox(vel_v(m.vel.at(k))) &&
                             s.imu_bias().equals(bias_v(m.bias.at(k)), 1e-12) && s.barometer_bias() == baro_v(m.baro.at(k)) &&
                             s.timestamp() == time_v(m.time.at(k)) && s.navstate().equals(gm.navstate(k), 1e-12),
                    "state", "state(" << k << ")");
        }
    }
    MC_CHECK(gm.timestamps().size() == m.time.size(), "timestamps", "timestamps() size");
    MC_CHECK(gm.values().size() == m.pose.size() + m.vel.size() + m.bias.size() + m.baro.size(), "values_all", "values() size " << gm.values().size());
    for (int f = 0; f < NK; ++f) {
        for (int l = f; l < NK; ++l) {
            const gtsam::Values v = gm.values(f, l);
            std::set<gtsam::Key> want;
            for (int k = f; k <= l; ++k) {
                if (m.pose.count(k)) want.insert(X(k));
                if (m.vel.count(k)) want.insert(V(k));
                if (m.bias.count(k)) want.insert(B(k));
                if (m.baro.count(k)) want.insert(P(k));
            }
            std::set<gtsam::Key> got;
            for (const auto& kv : v) got.insert(kv.key);
            MC_CHECK(got == want, "values_range", "values(" << f << "," << l << ") has " << got.size() << " keys, expected " << want.size());
            for (int k = f; k <= l; ++k) {
                if (m.pose.count(k)) MC_CHECK(v.at<gtsam::Pose3>(X(k)).equals(pose_v(m.pose.at(k)), 1e-12), "values_range_pose", k);
                if (m.vel.count(k)) MC_CHECK(v.at<gtsam::Velocity3>(V(k)).isApprox(vel_v(m.vel.at(k))), "values_range_vel", k);
            }
        }
    }
}

uint64_t hash(const Model& m) {
    mc::Hash h;
    for (const auto* x : {&m.pose, &m.vel, &m.bias, &m.baro, &m.time}) {
        h.add(static_cast<int>(x->size()));
        for (const auto& kv : *x) h.add(kv.first).add(kv.second);
    }
    for (const auto& kv : m.named) h.add(kv.first).add(kv.second.first).add(static_cast<int>(kv.second.second));
    return h.h;
}

}

// Set / update / query histories.
MC_FAMILY(values) {
    GraphManager gm;
    Model m;
    const int depth = mc::thorough() ? 4 : 3;
    for (int step = 0; step < depth; ++step) {
        const int op = mc::choose(7, "op");
        mc::transition();
        if (op < 6) {
            const int k = mc::choose(NK, "key"), v = 1 + mc::choose(2, "value");
            switch (op) {
                case 0: gm.set_pose(k, pose_v(v)); m.pose[k] = v; break;
                case 1: gm.set_velocity(k, vel_v(v)); m.vel[k] = v; break;
                case 2: gm.set_imu_bias(k, bias_v(v)); m.bias[k] = v; break;
                case 3: gm.set_barometer_bias(k, baro_v(v)); m.baro[k] = v; break;
                case 4: gm.set_timestamp(k, time_v(v)); m.time[k] = v; break;
                case 5: gm.set_navstate(k, gtsam::NavState(pose_v(v), vel_v(v))); m.pose[k] = v; m.vel[k] = v; break;
            }
        } else {
            // Update from a set of values: each of pose(0), velocity(1), barometer(2) in or out.
            const int mask = 1 + mc::choose(7, "mask"), v = 3;
            gtsam::Values u;
            bool known = true;
            if (mask & 1) { u.insert(X(0), pose_v(v)); known &= m.pose.count(0) > 0; }
            if (mask & 2) { u.insert(V(1), vel_v(v)); known &= m.vel.count(1) > 0; }
            if (mask & 4) { u.insert(P(2), baro_v(v)); known &= m.baro.count(2) > 0; }
            const bool threw = mc::throws([&] { gm.update_from_values(u); });
            MC_CHECK(threw == !known, "update_unknown", "update_from_values with " << (known ? "known" : "unknown") << " values " << (threw ? "threw" : "did not throw"));
            if (threw) return;  // nothing is promised about a partially applied update
            if (mask & 1) m.pose[0] = v;
            if (mask & 2) m.vel[1] = v;
            if (mask & 4) m.baro[2] = v;
        }
        check_values(gm, m);
        mc::state(hash(m));
        mc::nontrivial(hash(m));
    }
}

// Named keys.
MC_FAMILY(named) {
    GraphManager gm;
    Model m;
    const std::vector<std::string> names{"imu", "reg", "stereo"};
    const int depth = mc::thorough() ? 4 : 3;
    for (int step = 0; step < depth; ++step) {
        const int op = mc::choose(3, "op");
        const auto& n = mc::pick(names, "name");
        mc::transition();
        if (op == 0) {
            const int k = mc::pick(std::vector<int>{-1, 0, 1}, "key");
            const unsigned p = mc::choose(3, "priority");
            gm.set_named_key(n, k, p);
            m.named[n] = {k, p};
        } else if (op == 1) {
            const bool threw = mc::throws([&] { gm.increment(n); });
            MC_CHECK(threw == !m.named.count(n), "increment_unknown", n);
            if (m.named.count(n)) ++m.named[n].first;
        } else {
            if (!m.named.count(n)) mc::prune();
            const int off = mc::choose(3, "offset");
            const int k = m.named[n].first + off;
            if (k < 0 || k >= NK) mc::prune();
            const int v = step + 1;
            gm.set_pose(n, pose_v(v), off);
            m.pose[k] = v;
            gm.set_velocity(n, vel_v(v), off);
            m.vel[k] = v;
            gm.set_imu_bias(n, bias_v(v), off);
            m.bias[k] = v;
            gm.set_barometer_bias(n, baro_v(v), off);
            m.baro[k] = v;
            gm.set_timestamp(n, time_v(v), off);
            m.time[k] = v;
        }
        for (const auto& name : names) {
            if (!m.named.count(name)) {
                MC_CHECK(mc::throws([&] { gm.key(name); }), "key_unknown", name);
                continue;
            }
            const int k = m.named[name].first;
            MC_CHECK(gm.key(name) == k && gm.key(name, 2) == k + 2 && gm.key(name, -1) == k - 1, "key", name << " -> " << gm.key(name));
            MC_CHECK(gm.priority(name) == m.named[name].second, "priority", name);
            for (int off = -1; off <= 1; ++off) {
                if (k + off >= 0 && k + off < NK && m.pose.count(k + off)) {
                    MC_CHECK(gm.has_pose(name, off) && gm.pose(name, off).equals(gm.pose(k + off), 0) &&
                                     gm.velocity(name, off) == gm.velocity(k + off) && gm.barometer_bias(name, off) == gm.barometer_bias(k + off) &&
                                     gm.imu_bias(name, off).equals(gm.imu_bias(k + off), 0) && gm.timestamp(name, off) == gm.timestamp(k + off) &&
                                     gm.navstate(name, off).equals(gm.navstate(k + off), 0) &&
                                     gm.state(name, off).timestamp() == gm.timestamp(k + off),
                            "named_get", name << " offset " << off);
                    for (const auto& name2 : names) {
                        if (!m.named.count(name2)) continue;
                        for (int off2 = -1; off2 <= 1; ++off2) {
                            const int k2 = m.named[name2].first + off2;
                            if (k2 < 0 || k2 >= NK || !m.time.count(k2)) continue;
                            MC_CHECK(gm.time_between(name, name2, off, off2) == time_v(m.time[k2]) - time_v(m.time[k + off]), "named_time_between",
                                    name << off << " " << name2 << off2);
                        }
                    }
                }
            }
        }
        for (unsigned p = 0; p <= 3; ++p) {
            int best = std::numeric_limits<int>::max();
            bool any = false;
            for (const auto& kv : m.named) {
                if (kv.second.second <= p) { best = std::min(best, kv.second.first); any = true; }
            }
            if (any) {
                MC_CHECK(gm.minimum_key(p) == best, "minimum_key", "minimum_key(" << p << ") = " << gm.minimum_key(p) << " expected " << best);
                if (p == 3) MC_CHECK(gm.minimum_key() == best, "minimum_key_default", gm.minimum_key());
            } else {
                MC_CHECK(mc::throws([&] { gm.minimum_key(p); }), "minimum_key_none", p);
            }
        }
        check_values(gm, m);
        mc::state(hash(m));
        mc::nontrivial(hash(m));
    }
}

namespace {

gtsam::SharedNoiseModel iso(int d, double s) { return gtsam::noiseModel::Isotropic::Sigma(d, s); }

boost::shared_ptr<gtsam::PreintegrationCombinedParams> imu_params() {
    static auto p = [] {
        auto q = gtsam::PreintegrationCombinedParams::MakeSharedU(9.81);
        q->setAccelerometerCovariance(gtsam::I_3x3 * 1e-4);
        q->setGyroscopeCovariance(gtsam::I_3x3 * 1e-4);
        q->setIntegrationCovariance(gtsam::I_3x3 * 1e-4);
        return q;
    }();
    return p;
}

// Factors the oracle expects, in the order of creation per state key.
struct Expected {
    std::map<int, std::vector<gtsam::NonlinearFactor::shared_ptr>> f;
    void add(int k, gtsam::NonlinearFactor::shared_ptr p) { f[k].push_back(p); }
};

void same_factors(const gtsam::NonlinearFactorGraph& got, const std::vector<gtsam::NonlinearFactor::shared_ptr>& want, const char* key) {
    MC_CHECK(got.size() == want.size(), key, "graph has " << got.size() << " factors, expected " << want.size());
    std::vector<bool> used(want.size(), false);
    for (size_t i = 0; i < got.size(); ++i) {
        bool found = false;
        for (size_t j = 0; j < want.size() && !found; ++j) {
            if (!used[j] && got.at(i) && typeid(*got.at(i)) == typeid(*want[j]) && got.at(i)->equals(*want[j], 1e-9) && got.at(i)->keys() == want[j]->keys()) {
                used[j] = found = true;
            }
        }
        if (!found) {
            std::ostringstream os;
            os << "unexpected factor on";
            for (auto k : got.at(i)->keys()) os << " " << gtsam::DefaultKeyFormatter(k);
            mc::fail(key, os.str());
        }
    }
}

void check_factors(GraphManager& gm, const Expected& e, int nk) {
    for (int f = 0; f < nk; ++f) {
        for (int l = f; l < nk; ++l) {
            std::vector<gtsam::NonlinearFactor::shared_ptr> want;
            for (int k = f; k <= l; ++k) {
                auto it = e.f.find(k);
                if (it != e.f.end()) want.insert(want.end(), it->second.begin(), it->second.end());
            }
            same_factors(static_cast<const GraphManager&>(gm).factors(f, l), want, "factors_range");
        }
    }
}

}

// Every sequence of factor creations: each creation adds exactly one factor, of the documented connectivity and content.
MC_FAMILY(factors) {
    GraphManager gm;
    Expected e;
    mc::Hash h;
    const int depth = mc::thorough() ? 4 : 3;
    for (int step = 0; step < depth; ++step) {
        const int op = mc::choose(8, "op"), k = mc::choose(NK, "key"), v = step + 1;
        if (k == 0 && (op == 0 || op == 2 || op == 3)) mc::prune();  // between factors need a predecessor
        mc::transition();
        h.add(op).add(k);
        switch (op) {
            case 0:
                gm.create_barometric_bias_factor(k, iso(1, 0.1 * v));
                e.add(k, boost::make_shared<gtsam::BetweenFactor<double>>(P(k - 1), P(k), 0.0, iso(1, 0.1 * v)));
                break;
            case 1: {
                const double height = gm.create_barometric_factor(k, 100.0 + v, iso(1, 0.2 * v));
                auto f = boost::make_shared<gtsam::BarometricFactor>(X(k), P(k), 100.0 + v, iso(1, 0.2 * v));
                MC_CHECK(std::fabs(height - f->heightOut(100.0 + v)) < 1e-9, "barometric_height", height);
                e.add(k, f);
                break;
            }
            case 2:
                gm.create_between_pose_factor(k, pose_v(v), iso(6, 0.1 * v));
                e.add(k, boost::make_shared<gtsam::BetweenFactor<gtsam::Pose3>>(X(k - 1), X(k), pose_v(v), iso(6, 0.1 * v)));
                break;
            case 3: {
                gtsam::PreintegratedCombinedMeasurements pre(imu_params(), bias_v(0));
                pre.integrateMeasurement(gtsam::Vector3(0.1 * v, 0, 9.81), gtsam::Vector3(0.01, 0.02 * v, 0), 0.1);
                gm.create_combined_imu_factor(k, pre);
                e.add(k, boost::make_shared<gtsam::CombinedImuFactor>(X(k - 1), V(k - 1), X(k), V(k), B(k - 1), B(k), pre));
                break;
            }
            case 4:
                gm.create_prior_barometer_bias_factor(k, baro_v(v), iso(1, 0.1 * v));
                e.add(k, boost::make_shared<gtsam::PriorFactor<double>>(P(k), baro_v(v), iso(1, 0.1 * v)));
                break;
            case 5:
                gm.create_prior_imu_bias_factor(k, bias_v(v), iso(6, 0.1 * v));
                e.add(k, boost::make_shared<gtsam::PriorFactor<gtsam::imuBias::ConstantBias>>(B(k), bias_v(v), iso(6, 0.1 * v)));
                break;
            case 6:
                gm.create_prior_pose_factor(k, pose_v(v), iso(6, 0.1 * v));
                e.add(k, boost::make_shared<gtsam::PriorFactor<gtsam::Pose3>>(X(k), pose_v(v), iso(6, 0.1 * v)));
                break;
            case 7:
                gm.create_prior_velocity_factor(k, vel_v(v), iso(3, 0.1 * v));
                e.add(k, boost::make_shared<gtsam::PriorFactor<gtsam::Velocity3>>(V(k), vel_v(v), iso(3, 0.1 * v)));
                break;
        }
        check_factors(gm, e, NK);
        std::vector<gtsam::NonlinearFactor::shared_ptr> touching;
        const gtsam::Key probe = X(1);
        for (const auto& kv : e.f) {
            for (const auto& f : kv.second) {
                if (f->find(probe) != f->end()) touching.push_back(f);
            }
        }
        same_factors(gm.factors_for_key(probe), touching, "factors_for_key");
        mc::state(h.h);
        mc::nontrivial(h.h);
    }
}

namespace {

gtsam::Cal3_S2Stereo calib() { return gtsam::Cal3_S2Stereo(500, 500, 0, 320, 240, 0.2); }
gtsam::Pose3 body_cam() {
    return gtsam::Pose3(gtsam::Rot3(0, 0, 1, -1, 0, 0, 0, -1, 0), gtsam::Point3(0.1, 0.05, -0.02));
}
gtsam::Pose3 true_pose(int k) {
    return gtsam::Pose3(gtsam::Rot3::RzRyRx(0.01 * k, 0.02 * k, -0.03 * k), gtsam::Point3(0.3 * k, 0.1 * k, -0.05 * k));
}
gtsam::Point3 true_landmark(int id) { return gtsam::Point3(8.0 + (id % 3), 1.5 - 1.0 * (id % 4), 0.4 * (id % 5) - 0.7); }
gtsam::StereoPoint2 observe(int k, int id) {
    gtsam::StereoCamera cam(true_pose(k) * body_cam(), boost::make_shared<gtsam::Cal3_S2Stereo>(calib()));
    return cam.project(true_landmark(id));
}
using SF = gtsam::GenericStereoFactor<gtsam::Pose3, gtsam::Point3>;

// One stereo history on any graph manager. Returns false if the history ended in a documented exception.
struct StereoOracle {
    Expected e;
    std::map<int, std::vector<int>> ids;          // landmark ids by the key at which they were added
    std::map<int, std::set<int>> frames;          // features by key
    std::map<int, gtsam::Point3> landmark;
    gtsam::SharedNoiseModel noise = iso(3, 1.0);
    boost::shared_ptr<gtsam::Cal3_S2Stereo> K = boost::make_shared<gtsam::Cal3_S2Stereo>(calib());

    void setup(GraphManager& gm) {
        gm.set_stereo_calibration(K);
        gm.set_body_to_stereo_left_cam_pose(body_cam());
        gm.set_stereo_noise_model(noise);
    }
    // Landmark lost and found again, or seen twice without ever being tracked
    enum Verdict { OK, MUST_THROW, UNJUDGED };
    Verdict frame(int k, const std::set<int>& f, const std::map<int, gtsam::StereoPoint2>& feats, const gtsam::Pose3& pose) {
        Verdict verdict = OK;
        if (!frames.empty()) {
            const auto& prev = *frames.rbegin();
            const std::set<int>* prev2 = frames.size() > 1 ? &std::next(frames.rbegin())->second : nullptr;
            for (int id : f) {
                bool before = false;  // seen in any earlier frame
                for (const auto& kv : frames) before |= kv.second.count(id) > 0;
                if (before && !prev.second.count(id)) {
                    return landmark.count(id) ? MUST_THROW : UNJUDGED;  // lost and found again with the same id
                }
            }
            gtsam::StereoCamera cam(pose * body_cam(), K);
            ids[k];
            for (int id : f) {
                if (!prev.second.count(id)) continue;
                if (!prev2 || !prev2->count(id)) {
                    e.add(k, boost::make_shared<SF>(last.at(id), noise, X(prev.first), S(id), K, boost::optional<gtsam::Pose3>(body_cam())));
                    ids[k].push_back(id);
                }
                landmark[id] = cam.backproject(feats.at(id));
                e.add(k, boost::make_shared<SF>(feats.at(id), noise, X(k), S(id), K, boost::optional<gtsam::Pose3>(body_cam())));
            }
        }
        frames[k] = f;
        last = feats;
        return verdict;
    }
    std::map<int, gtsam::StereoPoint2> last;
};

}

// All stereo histories: frames at keys with or without gaps, every subset of feature ids per frame. The landmark ids are
// large or small relative to the keys.
MC_FAMILY(stereo) {
    GraphManager gm;
    StereoOracle o;
    o.setup(gm);
    const int base = mc::pick(std::vector<int>{0, 40}, "id base");
    const int frames = mc::thorough() ? 5 : 4, nids = 2;
    int k = mc::choose(2, "first key");
    mc::Hash h;
    h.add(base);
    for (int i = 0; i < frames; ++i) {
        if (i) k += 1 + mc::choose(2, "gap");
        // every state up to k gets a pose
        for (int j = 0; j <= k; ++j) {
            if (!gm.has_pose(j)) gm.set_pose(j, true_pose(j));
        }
        const int mask = mc::choose(1 << nids, "features");
        std::set<int> f;
        std::map<int, gtsam::StereoPoint2> feats;
        for (int b = 0; b < nids; ++b) {
            if (mask >> b & 1) {
                f.insert(base + b);
                // slightly different observation per frame so that each factor is recognisable
                const auto z = observe(k, base + b);
                feats[base + b] = gtsam::StereoPoint2(z.uL() + 0.01 * i, z.uR() - 0.01 * i, z.v() + 0.02 * i);
            }
        }
        h.add(k).add(mask);
        const auto verdict = o.frame(k, f, feats, true_pose(k));
        mc::transition();
        bool threw = false;
        try {
            gm.create_stereo_factors_and_values(k, feats);
        } catch (const std::runtime_error&) {
            threw = true;
        }
        if (verdict == StereoOracle::UNJUDGED) return;
        MC_CHECK(threw == (verdict == StereoOracle::MUST_THROW), "stereo_reacquired",
                "frame at key " << k << (threw ? " was refused" : " with a feature id lost earlier was accepted"));
        if (threw) return;
        check_factors(gm, o.e, k + 1);
        MC_CHECK(gm.stereo_landmarks().size() == o.landmark.size(), "stereo_landmarks_all", gm.stereo_landmarks().size());
        for (const auto& l : o.landmark) {
            MC_CHECK(gm.has_stereo_landmark(l.first) && gm.stereo_landmark(l.first).isApprox(l.second, 1e-9), "stereo_landmark", "landmark " << l.first);
            MC_CHECK(gm.stereo_landmarks().count(l.first) && gm.stereo_landmarks().at(l.first).isApprox(l.second, 1e-9), "stereo_landmarks", l.first);
        }
        MC_CHECK(!gm.has_stereo_landmark(base + nids), "stereo_landmark_unknown", "");
        for (int j = 0; j <= k; ++j) {
            std::set<int> want, got;
            if (o.ids.count(j)) want.insert(o.ids[j].begin(), o.ids[j].end());
            for (const auto& l : gm.stereo_landmarks(j)) got.insert(l.first);
            MC_CHECK(got == want, "stereo_landmarks_key", "stereo_landmarks(" << j << ")");
        }
        for (int a = 0; a <= k; ++a) {
            for (int b = a; b <= k; ++b) {
                std::set<gtsam::Key> want, got;
                for (int j = a; j <= b; ++j) {
                    want.insert(X(j));
                    if (o.ids.count(j)) {
                        for (int id : o.ids[j]) want.insert(S(id));
                    }
                }
                for (const auto& kv : gm.values(a, b)) got.insert(kv.key);
                MC_CHECK(got == want, "stereo_values_range", "values(" << a << "," << b << ") has " << got.size() << " values, expected " << want.size());
            }
        }
        mc::state(h.h);
        mc::nontrivial(h.h);
    }
}

// Documented refusals.
MC_FAMILY(stereo_refused) {
    GraphManager gm;
    StereoOracle o;
    o.setup(gm);
    const int what = mc::choose(3);
    std::map<int, gtsam::StereoPoint2> feats{{0, observe(0, 0)}, {1, observe(0, 1)}};
    gm.set_pose(0, true_pose(0));
    gm.create_stereo_factors_and_values(0, feats);
    mc::transition(2);
    if (what == 0) {
        MC_CHECK(mc::throws([&] { gm.create_stereo_factors_and_values(1, feats); }), "stereo_no_pose", "pose not set but accepted");
    } else if (what == 1) {
        MC_CHECK(mc::throws([&] { gm.create_stereo_factors_and_values(0, feats); }), "stereo_duplicate", "same key twice accepted");
    } else {
        gm.set_pose(1, true_pose(1));
        MC_CHECK(!mc::throws([&] { gm.create_stereo_factors_and_values(1, feats); }), "stereo_accept", "valid frame refused");
        const auto cam = gm.stereo_camera(1);
        MC_CHECK(cam.pose().equals(true_pose(1) * body_cam(), 1e-9), "stereo_camera", "camera pose");
        gm.set_named_key("s", 0);
        MC_CHECK(gm.stereo_camera("s", 1).pose().equals(true_pose(1) * body_cam(), 1e-9), "stereo_camera_named", "camera pose");
    }
    mc::nontrivial(what);
}

namespace {

gtsam::ISAM2Params isam_params() {
    gtsam::ISAM2Params p(gtsam::ISAM2GaussNewtonParams(0.0), 0.0, 1);
    return p;
}

struct Batch {
    gtsam::NonlinearFactorGraph graph;
    gtsam::Values init;
    gtsam::Values solve() const {
        gtsam::LevenbergMarquardtParams lm;
        lm.setAbsoluteErrorTol(1e-14);
        lm.setRelativeErrorTol(1e-14);
        lm.setMaxIterations(100);
        return gtsam::LevenbergMarquardtOptimizer(graph, init, lm).optimize();
    }
};

gtsam::Pose3 odo(int k) { return true_pose(k - 1).between(true_pose(k)); }
gtsam::Pose3 odo2(int k) { return odo(k) * gtsam::Pose3(gtsam::Rot3::Rx(0.02), gtsam::Point3(0.04, -0.02, 0.01)); }

}

// Incremental optimisation histories: states are added (with one or two, inconsistent, between factors and a barometer chain)
// and optimised up to any key, in any order. The estimate and covariances always equal those of a batch solution over
// exactly the factors up to the optimised key; states beyond it keep the values they were given.
MC_FAMILY(isam) {
    ISAM2GraphManager gm(isam_params());
    Batch b;
    MC_CHECK(gm.opt_key() == -1 && gm.marginalisation_key() == -1, "opt_key_initial", gm.opt_key());
    auto add_state = [&](int k, int kind) {
        const gtsam::Pose3 guess = true_pose(k) * gtsam::Pose3(gtsam::Rot3::Rz(0.05), gtsam::Point3(0.1, 0, 0.05));
        gm.set_timestamp(k, time_v(k));
        gm.set_pose(k, guess);
        gm.set_barometer_bias(k, 0.5 * k);
        if (k == 0) {
            gm.create_prior_pose_factor(0, true_pose(0), iso(6, 0.1));
            gm.create_prior_barometer_bias_factor(0, 1.0, iso(1, 0.3));
        } else {
            gm.create_between_pose_factor(k, odo(k), iso(6, 0.05));
            if (kind == 1) gm.create_between_pose_factor(k, odo2(k), iso(6, 0.08));
            gm.create_barometric_bias_factor(k, iso(1, 0.2));
            if (kind == 2) gm.create_prior_barometer_bias_factor(k, 2.0 + k, iso(1, 0.4));
            if (kind == 2) gm.create_prior_pose_factor(k, true_pose(k) * gtsam::Pose3(gtsam::Rot3::Ry(0.03), gtsam::Point3(0, 0.1, 0)), iso(6, 0.3));
        }
    };
    auto expected_graph = [&](const std::vector<int>& kinds, int m) {
        Batch r;
        for (int k = 0; k <= m; ++k) {
            const gtsam::Pose3 guess = true_pose(k);
            r.init.insert(X(k), guess);
            r.init.insert(P(k), 0.0);
            if (k == 0) {
                r.graph.addPrior(X(0), true_pose(0), iso(6, 0.1));
                r.graph.addPrior(P(0), 1.0, iso(1, 0.3));
            } else {
                r.graph.emplace_shared<gtsam::BetweenFactor<gtsam::Pose3>>(X(k - 1), X(k), odo(k), iso(6, 0.05));
                if (kinds[k] == 1) r.graph.emplace_shared<gtsam::BetweenFactor<gtsam::Pose3>>(X(k - 1), X(k), odo2(k), iso(6, 0.08));
                r.graph.emplace_shared<gtsam::BetweenFactor<double>>(P(k - 1), P(k), 0.0, iso(1, 0.2));
                if (kinds[k] == 2) r.graph.addPrior(P(k), 2.0 + k, iso(1, 0.4));
                if (kinds[k] == 2) r.graph.addPrior(X(k), true_pose(k) * gtsam::Pose3(gtsam::Rot3::Ry(0.03), gtsam::Point3(0, 0.1, 0)), iso(6, 0.3));
            }
        }
        return r;
    };
    std::vector<int> kinds{0};
    add_state(0, 0);
    int opt = -1;
    mc::Hash h;
    const int depth = mc::thorough() ? 5 : 4;
    for (int step = 0; step < depth; ++step) {
        const int last = static_cast<int>(kinds.size()) - 1;
        // 0..2: add a state of that kind; 3..: optimise up to opt.. last
        const int lo = std::max(opt, 0);
        const int op = mc::choose(3 + (last - lo + 1), "op");
        mc::transition();
        h.add(op);
        if (op < 3) {
            add_state(last + 1, op);
            kinds.push_back(op);
            continue;
        }
        const int m = lo + (op - 3);
        for (int it = 0; it < 4; ++it) gm.optimise(m);  // Gauss-Newton iterations up to convergence
        opt = m;
        MC_CHECK(gm.opt_key() == m, "opt_key", gm.opt_key() << " after optimise(" << m << ")");
        const Batch want = expected_graph(kinds, m);
        const gtsam::Values sol = want.solve();
        const gtsam::Marginals marg(want.graph, sol);
        for (int k = 0; k <= last; ++k) {
            if (k <= m) {
                MC_CHECK(gm.pose(k).equals(sol.at<gtsam::Pose3>(X(k)), 1e-5), "isam_pose",
                        "pose(" << k << ") after optimise(" << m << ") differs from the batch solution by "
                                << gtsam::Pose3::Logmap(gm.pose(k).between(sol.at<gtsam::Pose3>(X(k)))).norm());
                MC_CHECK(std::fabs(gm.barometer_bias(k) - sol.at<double>(P(k))) < 1e-6, "isam_baro", "barometer_bias(" << k << ")");
                MC_CHECK(gm.pose_covariance(k).isApprox(marg.marginalCovariance(X(k)), 1e-4), "isam_pose_covariance", "pose_covariance(" << k << ")");
                MC_CHECK(std::fabs(gm.barometer_bias_variance(k)(0, 0) - marg.marginalCovariance(P(k))(0, 0)) < 1e-8, "isam_baro_variance", k);
                MC_CHECK(gm.covariance(X(k)).isApprox(gm.pose_covariance(k)), "isam_covariance", k);
            } else {
                const gtsam::Pose3 guess = true_pose(k) * gtsam::Pose3(gtsam::Rot3::Rz(0.05), gtsam::Point3(0.1, 0, 0.05));
                MC_CHECK(gm.pose(k).equals(guess, 1e-12) && gm.barometer_bias(k) == 0.5 * k, "isam_beyond", "state " << k << " changed by optimise(" << m << ")");
            }
        }
        mc::state(h.h);
        mc::nontrivial(h.h);
    }
}

// Updating an initial value before it is optimised changes the starting point, never adds information; navigation states
// with IMU factors are optimised jointly.
MC_FAMILY(isam_imu) {
    ISAM2GraphManager gm(isam_params());
    const int n = mc::thorough() ? 4 : 3;
    gtsam::NonlinearFactorGraph g;
    gtsam::Values init;
    auto prior = iso(6, 0.1);
    const gtsam::Vector3 acc = mc::pick(std::vector<gtsam::Vector3>{{0, 0, 9.81}, {0.5, -0.2, 9.9}}), gyr = mc::pick(std::vector<gtsam::Vector3>{{0, 0, 0}, {0.1, 0, -0.2}});
    const bool reset = mc::flip(), every = mc::flip();
    const int window = every ? mc::choose(3, "marginalisation window") : 0;
    if (window) gm.set_marginalisation(true, window);
    gm.set_navstate(0, gtsam::NavState());
    gm.set_imu_bias(0, gtsam::imuBias::ConstantBias());
    gm.create_prior_pose_factor(0, gtsam::Pose3(), prior);
    gm.create_prior_velocity_factor(0, gtsam::Velocity3(0, 0, 0), iso(3, 0.1));
    gm.create_prior_imu_bias_factor(0, gtsam::imuBias::ConstantBias(), iso(6, 0.01));
    g.addPrior(X(0), gtsam::Pose3(), prior);
    g.addPrior(V(0), gtsam::Velocity3(0, 0, 0), iso(3, 0.1));
    g.addPrior(B(0), gtsam::imuBias::ConstantBias(), iso(6, 0.01));
    init.insert(X(0), gtsam::Pose3());
    init.insert(V(0), gtsam::Velocity3(0, 0, 0));
    init.insert(B(0), gtsam::imuBias::ConstantBias());
    if (every) gm.optimise(0);
    for (int k = 1; k < n; ++k) {
        gtsam::PreintegratedCombinedMeasurements pre(imu_params());
        for (int i = 0; i < 4; ++i) pre.integrateMeasurement(acc, gyr, 0.05);
        if (reset) gm.set_navstate(k, gtsam::NavState(pose_v(1), vel_v(1)));
        gm.set_navstate(k, pre.predict(gm.navstate(k - 1), gm.imu_bias(k - 1)));
        gm.set_imu_bias(k, gm.imu_bias(k - 1));
        gm.create_combined_imu_factor(k, pre);
        const auto meas = gtsam::Pose3(gtsam::Rot3::RzRyRx(0.01 * k, 0, 0), gtsam::Point3(0.01, 0.02, 0.0));
        gm.create_between_pose_factor(k, meas, iso(6, 0.05));
        g.emplace_shared<gtsam::CombinedImuFactor>(X(k - 1), V(k - 1), X(k), V(k), B(k - 1), B(k), pre);
        g.emplace_shared<gtsam::BetweenFactor<gtsam::Pose3>>(X(k - 1), X(k), meas, iso(6, 0.05));
        init.insert(X(k), gm.pose(k));
        init.insert(V(k), gm.velocity(k));
        init.insert(B(k), gm.imu_bias(k));
        mc::transition();
        if (every) gm.optimise(k);
    }
    for (int it = 0; it < 5; ++it) gm.optimise(n - 1);
    Batch b{g, init};
    const auto sol = b.solve();
    const gtsam::Marginals marg(g, sol);
    const double tol = window ? 1e-2 : 1e-4;  // marginalised (non-linear) factors keep their linearisation point
    for (int k = 0; k < n; ++k) {
        if (window && k <= n - 1 - window) {
            MC_CHECK(mc::throws([&] { gm.pose_covariance(k); }) && mc::throws([&] { gm.velocity_covariance(k); }) && mc::throws([&] { gm.imu_bias_covariance(k); }),
                    "marginalised_navstate", "state " << k << " still in the optimiser with window " << window);
            continue;
        }
        MC_CHECK(gm.pose(k).equals(sol.at<gtsam::Pose3>(X(k)), tol), "isam_imu_pose", "pose(" << k << ")");
        MC_CHECK((gm.velocity(k) - sol.at<gtsam::Velocity3>(V(k))).norm() < tol, "isam_imu_velocity", "velocity(" << k << ")");
        MC_CHECK((gm.imu_bias(k).vector() - sol.at<gtsam::imuBias::ConstantBias>(B(k)).vector()).norm() < tol, "isam_imu_bias", "bias(" << k << ")");
        MC_CHECK(gm.velocity_covariance(k).isApprox(marg.marginalCovariance(V(k)), 1e-2 + tol), "isam_velocity_covariance", k);
        MC_CHECK(gm.imu_bias_covariance(k).isApprox(marg.marginalCovariance(B(k)), 1e-2 + tol), "isam_bias_covariance", k);
    }
    mc::nontrivial(mc::Hash().add(gm.pose(n - 1).x()).add(gm.velocity(n - 1).x()).add(static_cast<int>(every)).h);
}

// Stereo histories through the optimiser: tracked landmarks and poses converge to the truth whatever the tracking history.
MC_FAMILY(isam_stereo) {
    ISAM2GraphManager gm(isam_params());
    StereoOracle o;
    o.setup(gm);
    const int frames = mc::thorough() ? 5 : 4, nids = 3, base = mc::pick(std::vector<int>{0, 40});
    const bool every = mc::flip("optimise every frame");
    // optionally with marginalisation (the window always covers the states since the previous stereo frame)
    const int window = every ? mc::pick(std::vector<int>{0, 2, 3}, "marginalisation window") : 0;
    if (window) gm.set_marginalisation(true, window);
    int last_frame = 0;
    std::map<int, int> last_seen;
    std::set<int> alive, seen;
    int next_id = base;
    mc::Hash h;
    h.add(base).add(every).add(window);
    std::set<int> active;  // ids of the last frame
    for (int k = 0; k < frames; ++k) {
        const bool frame = k == 0 || mc::choose(4, "frame") != 0;   // some states have no stereo data
        gm.set_pose(k, true_pose(k) * gtsam::Pose3(gtsam::Rot3::Rz(0.01), gtsam::Point3(0.02, 0, 0.01)));
        if (k == 0) gm.create_prior_pose_factor(0, true_pose(0), iso(6, 1e-3));
        else gm.create_between_pose_factor(k, odo(k), iso(6, 1e-2));
        if (window && frame && k - last_frame >= window) mc::prune();
        if (frame) {
            last_frame = k;
            // drop none / the oldest / all of the tracked ids, then fill up with new ones
            const int drop = mc::choose(3, "drop");
            std::set<int> f;
            if (drop == 0) f = active;
            else if (drop == 1 && !active.empty()) { f = active; f.erase(f.begin()); }
            while (static_cast<int>(f.size()) < nids) f.insert(next_id++);
            std::map<int, gtsam::StereoPoint2> feats;
            for (int id : f) feats[id] = observe(k, id);
            MC_CHECK(o.frame(k, f, feats, gm.pose(k)) == StereoOracle::OK, "harness", "oracle");
            gm.create_stereo_factors_and_values(k, feats);
            for (int id : f) last_seen[id] = k;
            active = f;
            h.add(k).add(drop);
        }
        mc::transition();
        if (every) gm.optimise(k);
    }
    for (int it = 0; it < 4; ++it) gm.optimise(frames - 1);
    for (int k = 0; k < frames; ++k) {
        MC_CHECK(gm.pose(k).equals(true_pose(k), 1e-4), "isam_stereo_pose",
                "pose(" << k << ") is off by " << gtsam::Pose3::Logmap(gm.pose(k).between(true_pose(k))).norm());
    }
    for (const auto& l : o.landmark) {
        if (window) {
            const bool gone = mc::throws([&] { gm.covariance(S(l.first)); });
            MC_CHECK(gone == (last_seen[l.first] <= frames - 1 - window), "marginalised_landmark_window",
                    "landmark " << l.first << (gone ? " is gone" : " is still there") << ", last seen at " << last_seen[l.first] << ", window " << window);
        }
        MC_CHECK((gm.stereo_landmark(l.first) - true_landmark(l.first)).norm() < 1e-2, "isam_stereo_landmark", "landmark " << l.first);
    }
    mc::state(h.h);
    mc::nontrivial(h.h);
}

// Marginalisation: with window size w, exactly the last w states stay in the optimiser, and the estimates of the window keep
// the information of the marginalised states.
MC_FAMILY(marginalise) {
    ISAM2GraphManager gm(isam_params());
    const int w = 1 + mc::choose(4, "window"), n = 5;
    const int enable_at = mc::choose(3, "enable at");
    const bool two = mc::flip("second factor");
    for (int k = 0; k < n; ++k) {
        gm.set_timestamp(k, time_v(k));
        gm.set_barometer_bias(k, 0.0);
        if (k == 0) gm.create_prior_barometer_bias_factor(0, 1.0, iso(1, 0.3));
        else gm.create_barometric_bias_factor(k, iso(1, 0.2));
        if (two) gm.create_prior_barometer_bias_factor(k, 2.0 + k, iso(1, 0.4));
        if (k == enable_at) gm.set_marginalisation(true, w);
        gm.optimise(k);
        mc::transition();
        const int marg_key = k >= enable_at ? k - w : -1;
        gtsam::NonlinearFactorGraph g;
        gtsam::Values init;
        for (int j = 0; j <= k; ++j) {
            init.insert(P(j), 0.0);
            if (j == 0) g.addPrior(P(0), 1.0, iso(1, 0.3));
            else g.emplace_shared<gtsam::BetweenFactor<double>>(P(j - 1), P(j), 0.0, iso(1, 0.2));
            if (two) g.addPrior(P(j), 2.0 + j, iso(1, 0.4));
        }
        const auto sol = Batch{g, init}.solve();
        const gtsam::Marginals marg(g, sol);
        for (int j = 0; j <= k; ++j) {
            const bool gone = j <= marg_key;
            const bool throws = mc::throws([&] { gm.barometer_bias_variance(j); });
            MC_CHECK(throws == gone, "marginalised_set", "after optimise(" << k << ") with window " << w << " state " << j << (throws ? " is gone" : " is still there"));
            if (!gone) {
                MC_CHECK(std::fabs(gm.barometer_bias_variance(j)(0, 0) - marg.marginalCovariance(P(j))(0, 0)) < 1e-8, "marginalised_variance",
                        "variance of state " << j << " after optimise(" << k << ") window " << w);
                MC_CHECK(std::fabs(gm.barometer_bias(j) - sol.at<double>(P(j))) < 1e-8, "marginalised_value", "value of state " << j);
            }
        }
        if (marg_key >= 0) MC_CHECK(gm.marginalisation_key() == marg_key, "marginalisation_key", gm.marginalisation_key());
    }
    MC_CHECK(mc::throws([&] { gm.marginalise(n); }), "marginalise_ahead", "marginalising beyond the optimised key accepted");
    mc::nontrivial(mc::Hash().add(w).add(enable_at).add(static_cast<int>(two)).h);
}

// Marginalisation with stereo landmarks: a landmark leaves with the last state that observes it, never earlier or later.
MC_FAMILY(marginalise_stereo) {
    ISAM2GraphManager gm(isam_params());
    StereoOracle o;
    o.setup(gm);
    const int base = mc::pick(std::vector<int>{0, 1, 40}), at = 2 + mc::choose(2);
    // Landmarks seen in exactly two consecutive frames: (0,1), (1,2), (2,3)
    const int n = 5;
    for (int k = 0; k < n; ++k) {
        gm.set_pose(k, true_pose(k));
        if (k == 0) gm.create_prior_pose_factor(0, true_pose(0), iso(6, 1e-3));
        else gm.create_between_pose_factor(k, odo(k), iso(6, 1e-2));
        std::map<int, gtsam::StereoPoint2> feats;
        for (int id : {base + k, base + k + 1}) feats[id] = observe(k, id);
        gm.create_stereo_factors_and_values(k, feats);
        gm.optimise(k);
        mc::transition();
    }
    // landmark base+k is added at key k (k = 1..n-1)
    mc::where("marginalise");
    gm.marginalise(at);
    for (int k = 1; k < n; ++k) {
        const bool gone = mc::throws([&] { gm.covariance(S(base + k)); });
        MC_CHECK(gone == (k <= at), "marginalised_landmarks", "landmark last observed at key " << k << (gone ? " is gone" : " is still there") << " after marginalise(" << at << ")");
    }
    for (int k = 0; k < n; ++k) {
        const bool gone = mc::throws([&] { gm.pose_covariance(k); });
        MC_CHECK(gone == (k <= at), "marginalised_poses", k);
    }
    mc::nontrivial(mc::Hash().add(base).add(at).h);
}

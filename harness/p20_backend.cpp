// P20: the back end node. Whatever the order in which IMU arrays, registrations, stereo features and pressures arrive, every
// state is answered once, in order, with the batch solution of all factors received for the states up to it.
#include "pipeline.hpp"
#include <geometry_msgs/PoseWithCovarianceStamped.h>
#include <gtsam/inference/Symbol.h>
#include <gtsam/navigation/BarometricFactor.h>
#include <gtsam/nonlinear/LevenbergMarquardtOptimizer.h>
#include <gtsam/nonlinear/Marginals.h>
#include <gtsam/slam/BetweenFactor.h>
#include <gtsam/slam/StereoFactor.h>
#include <tbb/global_control.h>
#include "serpent/StereoFeatures.h"
#include "serpent/back_end/optimisation.hpp"

namespace {
using namespace scene_ns;
// GTSAM's worker threads would outlive neither fork nor coroutine: run it sequentially.
tbb::global_control sequential(tbb::global_control::max_allowed_parallelism, 1);
using gtsam::symbol_shorthand::B;
using gtsam::symbol_shorthand::P;
using gtsam::symbol_shorthand::V;
using gtsam::symbol_shorthand::X;
using gtsam::symbol_shorthand::L;

struct Config {
    bool imu = true, reg = true, stereo = false, baro = false, base_link = false;
    int states = 3, window = 0;
    int first_pressure = 0;          // pressures exist from this state on
    std::vector<bool> frame;         // does state k have stereo features?
    bool extra_frames = false;       // features between the states
    int bad_covariance = 0;          // 1 asymmetric, 2 negative variance, 3 zero variance, 4 indefinite
    bool early_imu = false;          // the next IMU array may arrive before the previous state is optimised
    // configuration
    std::function<void(rosstub::Bus&)> params;
    std::string camera = "stereo";   // frame of the left camera
    gtsam::Vector3 sigmas{1.0, 2.0, 1.5};
    bool robust = false;
    gtsam::noiseModel::mEstimator::Base::shared_ptr estimator;
    double outlier = 0;              // added to one stereo measurement
    double prior_baro = 0.05, walk_baro = 0.02, accel_prior = 0.01, gyro_prior = 0.005, gravity = 9.7;
    double integration = 1e-3, bias_init = 1e-3, accel_walk = 1e-3, gyro_walk = 1e-3;
    int bad_prior = 0;               // 1 pose variance zero, 2 velocity variance zero
    int bad_features = 0;            // 1 duplicate id, 2 zero baseline, 3 reversed baseline
    int bad_pressure = 0;            // 1 zero variance, 2 negative variance, 3 no state at its time
    int bad_time = 0;                // 1 registration early, 2 late
    bool empty_imu = false;
    double weak_registration = 1;
    int last_features = 99;          // empty feature messages after this state
    std::string map = "world";
};
const ns_t dt = 100000000;
gtsam::SharedNoiseModel iso(int n, double s) { return gtsam::noiseModel::Isotropic::Sigma(n, s); }

struct Run {
    Config c;
    Frames frames;
    NavRef nav;
    std::vector<gtsam::NavState> truth;
    std::vector<std::vector<ImuSample>> imu;   // samples of the array ending at state k
    gtsam::Matrix6 prior_pose_cov;             // GTSAM order
    gtsam::Matrix3 prior_vel_cov;
    std::vector<gtsam::Pose3> reg;
    std::vector<gtsam::Matrix6> reg_cov;       // GTSAM order
    std::vector<gtsam::Point3> landmarks;
    boost::shared_ptr<gtsam::Cal3_S2Stereo> K;
    gtsam::Pose3 body_cam;
    std::vector<std::vector<gtsam::StereoPoint2>> seen;   // per state, per landmark
    std::vector<double> pressure;              // kPa
    // sources
    struct Item { std::string topic; std::function<void()> send; std::function<bool()> ready; };
    std::vector<std::vector<Item>> sources;
    std::vector<std::size_t> sent;
    std::unique_ptr<Scene> scene;
    std::unique_ptr<serpent::Optimisation> node;
    // observations
    int last = -1;                             // source of the last input
    std::size_t odometries = 0, transforms = 0, pressures_done = 0;
    std::pair<std::size_t, std::size_t> prior_odometries;   // published before and after the first pressure was handled
    std::vector<std::size_t> pressures_at;     // pressures integrated when state k was published

    ns_t time(int k) const { return base_ns + k * dt; }
    explicit Run(const Config& c) : c(c), frames(c.base_link), nav(frames, c.gravity) {
        nav.params->setIntegrationCovariance(gtsam::I_3x3 * c.integration * c.integration);
        nav.params->setBiasAccOmegaInit(gtsam::I_6x6 * c.bias_init * c.bias_init);
        nav.params->setBiasAccCovariance(gtsam::I_3x3 * c.accel_walk * c.accel_walk);
        nav.params->setBiasOmegaCovariance(gtsam::I_3x3 * c.gyro_walk * c.gyro_walk);
        rosstub::Bus::reset();
        auto& bus = rosstub::Bus::get();
        frames.install();
        bus.param("/serpent/gravity", c.gravity);
        bus.param("/serpent/map_frame_id", c.map);
        bus.param("/serpent/optimisation/factors/imu", c.imu);
        bus.param("/serpent/optimisation/factors/registration", c.reg);
        bus.param("/serpent/optimisation/factors/stereo", c.stereo);
        bus.param("/serpent/optimisation/factors/barometer", c.baro);
        bus.param("/serpent/isam2/relinearize_threshold", 0.0);
        bus.param("/serpent/isam2/relinearize_skip", 1);
        bus.param("/serpent/isam2/gauss_newton_params/wildfire_threshold", 0.0);
        bus.param("/serpent/stereo_factors/robust/enabled", false);
        bus.param("/serpent/stereo_factors/noise/left_x", 1.0);
        bus.param("/serpent/stereo_factors/noise/right_x", 2.0);
        bus.param("/serpent/stereo_factors/noise/y", 1.5);
        bus.param("/serpent/prior_noise/accelerometer_bias", c.accel_prior);
        bus.param("/serpent/prior_noise/gyroscope_bias", c.gyro_prior);
        bus.param("/serpent/prior_noise/barometer_bias", c.prior_baro);
        bus.param("/serpent/barometer/noise/barometer_bias", c.walk_baro);
        if (c.window > 0) {
            bus.param("/serpent/optimisation/marginalisation/enabled", true);
            bus.param("/serpent/optimisation/marginalisation/window_size", c.window);
        }
        if (c.params) c.params(bus);
        scenario();
    }
    void scenario() {
        const gtsam::Pose3 start(gtsam::Rot3::RzRyRx(0.1, -0.2, 0.4), gtsam::Point3(1.5, -2.5, 0.5));
        truth.push_back(gtsam::NavState(start, gtsam::Vector3(0.75, -0.25, 0.125)));
        const Eigen::Isometry3d left = ref::eig<double>(frames.pose(c.camera));
        body_cam = gtsam::Pose3(gtsam::Rot3(left.rotation()), left.translation());
        K = boost::make_shared<gtsam::Cal3_S2Stereo>(400, 420, 0, 320, 240, 0.4);
        prior_pose_cov = gtsam::Matrix6::Zero();
        for (int i = 0; i < 6; ++i) prior_pose_cov(i, i) = i < 3 ? 4e-4 * (i + 1) : 1e-3 * (i + 1);
        prior_pose_cov(0, 4) = prior_pose_cov(4, 0) = 2e-4;
        prior_vel_cov = gtsam::Matrix3::Identity() * 1e-3;
        prior_vel_cov(0, 1) = prior_vel_cov(1, 0) = 2e-4;
        if (c.bad_prior == 1) prior_pose_cov(4, 4) = prior_pose_cov(0, 4) = prior_pose_cov(4, 0) = 0;
        if (c.bad_prior == 2) { prior_vel_cov.setZero(); prior_vel_cov(0, 0) = prior_vel_cov(2, 2) = 1e-3; }
        const gtsam::StereoCamera first(start * body_cam, K);
        for (int j = 0; j < 6; ++j) landmarks.push_back(first.backproject(gtsam::StereoPoint2(150 + 60 * j, 150 + 60 * j - 160.0 / (4 + j), 100 + 90 * (j % 3))));
        imu.resize(1);
        reg.resize(1);
        reg_cov.resize(1);
        for (int k = 1; k < c.states; ++k) {
            std::vector<ImuSample> s;
            for (int i = 0; i < 5; ++i) s.push_back(imu_sample(time(k - 1) - 7000000 + i * 25000000, 3 * k + i));
            for (auto& x : s) x.noise = k % 3 == 2 ? 40 : k % 3 + 0.5;
            imu.push_back(s);
            truth.push_back(nav.held(s, time(k - 1), time(k), {}).predict(truth.back(), {}));
            const gtsam::Pose3 rel = truth[k - 1].pose().between(truth[k].pose());
            reg.push_back(rel * gtsam::Pose3(gtsam::Rot3::RzRyRx(0.002 * k, -0.0015, 0.0025), gtsam::Point3(0.01, -0.008 * k, 0.005)));
            gtsam::Matrix6 r = gtsam::Matrix6::Zero();
            for (int i = 0; i < 6; ++i) r(i, i) = i < 3 ? 1e-5 * (i + 2) : 1e-4 * (i + k);
            r(1, 5) = r(5, 1) = 3e-5;
            if (k == 2) r(5, 1) += 1e-18;     // computed covariances are symmetric up to rounding only
            r *= c.weak_registration;
            if (c.bad_covariance && k == 2) {
                switch (c.bad_covariance) {
                case 1: r(5, 1) *= 3; break;
                case 2: r(2, 2) = -r(2, 2); break;
                case 3: r(4, 4) = 0; break;
                case 4: r(1, 5) = r(5, 1) = 2 * std::sqrt(r(1, 1) * r(5, 5)); break;
                }
            }
            reg_cov.push_back(r);
        }
        for (int k = 0; k < c.states; ++k) {
            const gtsam::StereoCamera cam(truth[k].pose() * body_cam, K);
            std::vector<gtsam::StereoPoint2> z;
            for (std::size_t j = 0; j < landmarks.size(); ++j) {
                const gtsam::StereoPoint2 p = cam.project(landmarks[j]);
                const double out = j == 2 && k == 1 ? c.outlier : 0;
                z.emplace_back(p.uL() + out + 0.1 * ((j + k) % 3 - 1.0), p.uR() + 0.9 * out - 0.08 * (j % 2), p.v() - 0.7 * out + 0.1 * ((j + 2 * k) % 2));
            }
            seen.push_back(z);
            // height offset that the bias must take up, and an error of its own per state
            const double height = truth[k].pose().z() + 120 + 0.03 * ((k + 1) % 3 - 1);
            pressure.push_back(101.29 * std::pow((15.04 - 0.00649 * height + 273.1) / 288.08, 5.256));
            if (static_cast<int>(c.frame.size()) <= k) c.frame.push_back(true);
        }
    }
    template<class M> Item item(const std::string& topic, boost::shared_ptr<M> m, std::function<bool()> ready = [] { return true; }) {
        const std::string t = "/serpent/" + topic;
        return Item{t, [t, m] { rosstub::Bus::get().inject<M>(t, rosstub::CPtr<M>(m)); }, ready};
    }
    void make_sources() {
        std::vector<Item> s;
        {
            auto o = boost::make_shared<nav_msgs::Odometry>();
            o->header.stamp = stamp(time(0));
            o->header.frame_id = c.map;
            o->child_frame_id = frames.body_id;
            const auto q = truth[0].attitude().toQuaternion();
            o->pose.pose.orientation.w = q.w(); o->pose.pose.orientation.x = q.x(); o->pose.pose.orientation.y = q.y(); o->pose.pose.orientation.z = q.z();
            o->pose.pose.position.x = truth[0].position().x(); o->pose.pose.position.y = truth[0].position().y(); o->pose.pose.position.z = truth[0].position().z();
            o->twist.twist.linear.x = truth[0].v().x(); o->twist.twist.linear.y = truth[0].v().y(); o->twist.twist.linear.z = truth[0].v().z();
            for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) o->pose.covariance[6 * i + j] = prior_pose_cov((i + 3) % 6, (j + 3) % 6);
            for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) o->twist.covariance[6 * i + j] = prior_vel_cov(i, j);
            for (int i = 3; i < 6; ++i) o->twist.covariance[7 * i] = 0.5;
            s.push_back(item("frontend/initial_odometry", o));
        }
        for (int k = 1; k < c.states; ++k) {
            auto a = boost::make_shared<serpent::ImuArray>();
            a->start_timestamp = stamp(time(k - 1));
            a->end_timestamp = stamp(time(k));
            for (auto& x : imu[k]) if (!c.empty_imu || k != 2) a->measurements.push_back(*imu_msg(x));
            const std::size_t need = c.early_imu && k > 1 ? k - 1 : k;
            s.push_back(item("frontend/imu_s2s", a, [this, need] { return odometries >= need; }));
        }
        sources.push_back(s);
        s.clear();
        for (int k = 1; c.reg && k < c.states; ++k) {
            auto m = boost::make_shared<geometry_msgs::PoseWithCovarianceStamped>();
            m->header.stamp = stamp(time(k) + (k != 2 ? 0 : c.bad_time == 1 ? -1000 : c.bad_time == 2 ? 1 : 0));
            m->header.frame_id = "lidar_id";
            const auto q = reg[k].rotation().toQuaternion();
            m->pose.pose.orientation.w = q.w(); m->pose.pose.orientation.x = q.x(); m->pose.pose.orientation.y = q.y(); m->pose.pose.orientation.z = q.z();
            m->pose.pose.position.x = reg[k].x(); m->pose.pose.position.y = reg[k].y(); m->pose.pose.position.z = reg[k].z();
            for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) m->pose.covariance[6 * i + j] = reg_cov[k]((i + 3) % 6, (j + 3) % 6);
            const std::size_t need = k + 1;   // registration starts from the predicted transform
            s.push_back(item("registration/transform", m, [this, need] { return transforms >= need; }));
        }
        if (!s.empty()) sources.push_back(s);
        s.clear();
        for (int k = 0; c.stereo && k < c.states; ++k) {
            for (int extra = 0; extra < (c.extra_frames && k + 1 < c.states ? 2 : 1); ++extra) {
                if (!extra && !c.frame[k]) continue;
                auto m = boost::make_shared<serpent::StereoFeatures>();
                m->header.stamp = stamp(time(k) + extra * 40000000);
                for (std::size_t j = 0; k <= c.last_features && j < landmarks.size(); ++j) {
                    serpent::StereoFeature f;
                    const auto& z = seen[k][j];
                    f.id = 10 + j;
                    f.left_x = z.uL() + extra * 5; f.right_x = z.uR() + extra * 5;
                    f.left_y = z.v() + 2; f.right_y = z.v() - 2;
                    m->features.push_back(f);
                }
                m->left_info.K[0] = K->fx(); m->left_info.K[4] = K->fy(); m->left_info.K[2] = K->px(); m->left_info.K[5] = K->py(); m->left_info.K[8] = 1;
                m->right_info.P[0] = K->fx(); m->right_info.P[3] = -K->fx() * K->baseline(); m->right_info.P[5] = K->fy(); m->right_info.P[10] = 1;
                if (c.bad_features == 1 && k == 1) m->features[3].id = m->features[1].id;
                if (c.bad_features == 2) m->right_info.P[3] = 0;
                if (c.bad_features == 3) m->right_info.P[3] = -m->right_info.P[3];
                s.push_back(item("stereo/features", m));
            }
        }
        if (!s.empty()) sources.push_back(s);
        s.clear();
        for (int k = c.first_pressure; c.baro && k < c.states; ++k) {
            auto m = boost::make_shared<sensor_msgs::FluidPressure>();
            m->header.stamp = stamp(time(k) - (c.bad_pressure == 3 && k == 1 ? 50000000 : 0));
            m->fluid_pressure = pressure[k] * 1000;
            m->variance = c.bad_pressure == 1 && k == 1 ? 0 : c.bad_pressure == 2 && k == 1 ? -1e-3 : pressure_variance(k);
            s.push_back(item("frontend/barometer", m));
        }
        if (!s.empty()) sources.push_back(s);
        sent.assign(sources.size(), 0);
    }
    static double pressure_variance(int k) { return 4e-4 * (1 + k % 2); }
    std::vector<int> enabled() const {
        std::vector<int> v;
        for (std::size_t i = 0; i < sources.size(); ++i) if (sent[i] < sources[i].size() && sources[i][sent[i]].ready()) v.push_back(static_cast<int>(i));
        return v;
    }
    // order < 0: the next input is any one that can arrive; otherwise a fixed preference
    void build(int delays, bool burst, int order) {
        scene = std::make_unique<Scene>(delays, 5, burst);
        auto& bus = rosstub::Bus::get();
        bus.on_publish = [this](const std::string& topic, const rosstub::AnyMsg&) {
            if (topic == "/serpent/optimisation/odometry") { ++odometries; pressures_at.push_back(pressures_done); }
            if (topic == "/serpent/optimisation/imu_transform") ++transforms;
            sched::point("publish");
        };
        scene->finished = [this](const std::string& topic) { if (topic == "/serpent/frontend/barometer" && ++pressures_done == 1) prior_odometries.second = odometries; };
        {
            auto* cout = std::cout.rdbuf(nullptr);   // prints its parameters
            node = std::make_unique<serpent::Optimisation>();
            std::cout.rdbuf(cout);
            std::cout.clear();
        }
        scene->world.watch(node.get(), sizeof *node);
        scene->tasks(0, true);
        make_sources();
        scene->world.add("input", [this] { return !scene->stopping && !enabled().empty(); }, [this, order] {
            auto e = enabled();
            int k = 0;
            if (order < 0 && !mc::thorough()) {
                // the node is waiting: merge histories that differ only in orders before the last input
                mc::Hash h;
                for (int x : {c.imu, c.reg, c.stereo, c.baro, c.base_link, c.extra_frames, c.early_imu}) h.add(x);
                h.add(c.states); h.add(c.first_pressure);
                for (bool f : c.frame) h.add(f);
                for (std::size_t x : sent) h.add(x);
                for (std::size_t x : pressures_at) h.add(x);
                h.add(pressures_done); h.add(odometries); h.add(transforms); h.add(last);
                if (!mc::state(h.h)) mc::prune();
            }
            if (order < 0) k = mc::choose(static_cast<int>(e.size()), "next input");
            else {
                std::vector<int> pref(sources.size());
                for (std::size_t i = 0; i < pref.size(); ++i) pref[i] = static_cast<int>((i + order) % pref.size());
                if (order >= static_cast<int>(pref.size())) std::reverse(pref.begin(), pref.end());
                for (int p : pref) { auto it = std::find(e.begin(), e.end(), p); if (it != e.end()) { k = static_cast<int>(it - e.begin()); break; } }
            }
            last = e[k];
            if (sources[e[k]][0].topic == "/serpent/frontend/barometer" && sent[e[k]] == 0) prior_odometries.first = odometries;
            Item& i = sources[e[k]][sent[e[k]]++];
            if (mc::replaying()) mc::note("input " + i.topic);
            i.send();
        }, [] { return 0.0; }, false, burst ? -1 : 1);
    }
    // At one scheduling point an input arrives and is handled at once, whenever its callback can go on.
    bool interrupted = false;
    void interrupt(int source) {
        auto topic = [this, source] { return sources[source][sent[source]].topic; };
        scene->world.add("interrupt", [=] {
            if (interrupted || sent[source] >= sources[source].size() || !sources[source][sent[source]].ready()) return false;
            for (auto& s : rosstub::Bus::get().subs) if (s->topic == topic() && !s->pending.empty()) return false;
            return scene->world.idle(topic());
        }, [=] {
            interrupted = true;
            const Item& i = sources[source][sent[source]];
            if (i.topic == "/serpent/frontend/barometer" && sent[source] == 0) prior_odometries.first = odometries;
            ++sent[source];
            scene->world.prioritise(i.topic, sched::immediate);
            i.send();
        }, [] { return 0.0; }, false, sched::optional);
        auto before = scene->finished;
        scene->finished = [this, before](const std::string& t) { scene->world.prioritise(t, 0); before(t); };
    }
    std::vector<std::string> run() {
        mc::transition();
        auto stuck = scene->world.run();
        MC_CHECK(scene->world.error().empty(), "exception:" + scene->world.error(), "callback terminated the node: " << scene->world.error());
        return stuck;
    }
    void execute() {
        const auto stuck = run();
        std::string names;
        for (auto& s : stuck) names += " " + s;
        MC_CHECK(stuck.empty() && odometries == truth.size(), "stuck", "waiting for ever:" << names << ", " << odometries << " of " << truth.size() << " states");
    }
    // ---- oracle ----
    template<class M> std::vector<rosstub::CPtr<M>> out(const std::string& t) const { return rosstub::Bus::get().published<M>("/serpent/" + t); }
    static gtsam::Pose3 pose(const geometry_msgs::Pose& p) {
        return gtsam::Pose3(gtsam::Rot3::Quaternion(p.orientation.w, p.orientation.x, p.orientation.y, p.orientation.z), gtsam::Point3(p.position.x, p.position.y, p.position.z));
    }
    // Heights of the first state with a pressure, as estimated when the pressure was handled.
    std::vector<double> prior_heights(const std::vector<rosstub::CPtr<nav_msgs::Path>>& path, const std::vector<rosstub::CPtr<nav_msgs::Odometry>>& odo,
            const std::vector<gtsam::imuBias::ConstantBias>& bias) const {
        std::vector<double> z;
        const std::size_t k = c.first_pressure;
        for (std::size_t n = prior_odometries.first; n <= std::min(prior_odometries.second + 1, path.size()); ++n) {
            if (n > k) z.push_back(path[n - 1]->poses[k].pose.position.z);
            else if (k == 0) z.push_back(truth[0].pose().z());
            else {
                const gtsam::Vector3 v(odo[k - 1]->twist.twist.linear.x, odo[k - 1]->twist.twist.linear.y, odo[k - 1]->twist.twist.linear.z);
                z.push_back(nav.held(imu[k], time(k - 1), time(k), bias[k - 1]).predict(gtsam::NavState(pose(odo[k - 1]->pose.pose), v), bias[k - 1]).pose().z());
                if (c.reg) z.push_back((pose(odo[k - 1]->pose.pose) * reg[k]).z());   // the registration replaces the prediction
            }
        }
        return z;
    }
    void batch(int m, std::size_t pressures, double prior_z, const std::vector<gtsam::imuBias::ConstantBias>& bias, gtsam::NonlinearFactorGraph& g, gtsam::Values& init) const {
        g.addPrior(X(0), truth[0].pose(), gtsam::noiseModel::Gaussian::Covariance(prior_pose_cov));
        if (c.imu) {
            g.addPrior(V(0), gtsam::Vector3(truth[0].v()), gtsam::noiseModel::Gaussian::Covariance(prior_vel_cov));
            gtsam::Vector6 s;
            s << c.accel_prior, c.accel_prior, c.accel_prior, c.gyro_prior, c.gyro_prior, c.gyro_prior;
            g.addPrior(B(0), gtsam::imuBias::ConstantBias(), gtsam::noiseModel::Diagonal::Sigmas(s));
        }
        for (int k = 0; k <= m; ++k) {
            init.insert(X(k), truth[k].pose());
            if (c.imu) { init.insert(V(k), gtsam::Vector3(truth[k].v())); init.insert(B(k), gtsam::imuBias::ConstantBias()); }
            if (k > 0 && c.imu) g.emplace_shared<gtsam::CombinedImuFactor>(X(k - 1), V(k - 1), X(k), V(k), B(k - 1), B(k), nav.held(imu[k], time(k - 1), time(k), bias[k - 1]));
            if (k > 0 && c.reg) g.emplace_shared<gtsam::BetweenFactor<gtsam::Pose3>>(X(k - 1), X(k), reg[k], gtsam::noiseModel::Gaussian::Covariance(gtsam::Matrix6(0.5 * (reg_cov[k] + reg_cov[k].transpose()))));
        }
        int frames_used = 0;
        for (int k = 0; c.stereo && k <= m; ++k) frames_used += c.frame[k];
        if (frames_used > 1) {
            gtsam::SharedNoiseModel noise = gtsam::noiseModel::Diagonal::Sigmas(c.sigmas);
            if (c.robust) noise = gtsam::noiseModel::Robust::Create(c.estimator, noise);
            for (std::size_t j = 0; j < landmarks.size(); ++j) {
                init.insert(L(j), landmarks[j]);
                for (int k = 0; k <= m; ++k) {
                    if (c.frame[k] && k <= c.last_features) g.emplace_shared<gtsam::GenericStereoFactor<gtsam::Pose3, gtsam::Point3>>(seen[k][j], noise, X(k), L(j), K, body_cam);
                }
            }
        }
        if (pressures > 0) {
            const int first = c.first_pressure;
            for (int k = 0; k <= m && k < first + static_cast<int>(pressures); ++k) {
                init.insert(P(k), 120.0);
                if (k > 0) g.emplace_shared<gtsam::BetweenFactor<double>>(P(k - 1), P(k), 0.0, iso(1, c.walk_baro));
                if (k < first) continue;
                auto f = boost::make_shared<gtsam::BarometricFactor>(X(k), P(k), pressure[k], gtsam::noiseModel::Isotropic::Variance(1, pressure_variance(k)));
                g.push_back(f);
                // the bias takes up the height difference at the first measurement
                if (k == first) g.addPrior(P(k), f->heightOut(pressure[k]) - prior_z, iso(1, c.prior_baro));
            }
        }
    }
    // The published path is the fixed point of reweighting with the configured loss.
    void check_robust(double tol) const {
        auto path = out<nav_msgs::Path>("output/path");
        const int m = static_cast<int>(path.size()) - 1;
        const std::vector<gtsam::imuBias::ConstantBias> b(m + 1);
        gtsam::NonlinearFactorGraph g;
        gtsam::Values init;
        batch(m, 0, 0, b, g, init);
        const gtsam::Values s = reweighted(g, init);
        mc::Hash h;
        for (int k = 1; k <= 2; ++k) {
            const double d = gtsam::Pose3::Logmap(s.at<gtsam::Pose3>(X(k)).between(pose(path[m]->poses.at(k).pose))).norm();
            if (FILE* f = getenv("P20_TOL") ? fopen(getenv("P20_TOL"), "a") : nullptr) { fprintf(f, "TOLR %g\n", d); fclose(f); }
            MC_CHECK(d < tol, "robust", "state " << k << " is off the robust solution by " << d);
            h.add(path[m]->poses[k].pose.position.x);
        }
        mc::state(h.h);
        mc::nontrivial(h.h);
    }
    // Iteratively reweighted least squares.
    static gtsam::Values reweighted(const gtsam::NonlinearFactorGraph& g, gtsam::Values s) {
        for (int i = 0; i < 60; ++i) {
            const gtsam::VectorValues d = g.linearize(s)->optimize();
            s = s.retract(d);
            if (d.norm() < 1e-10) break;
        }
        return s;
    }
    void check() const {
        auto odo = out<nav_msgs::Odometry>("optimisation/odometry");
        auto bias = out<serpent::ImuBiases>("optimisation/imu_biases");
        auto path = out<nav_msgs::Path>("output/path"), changes = out<nav_msgs::Path>("optimisation/path_changes");
        auto tf = out<geometry_msgs::TransformStamped>("optimisation/imu_transform");
        MC_CHECK(odo.size() == truth.size() && bias.size() == truth.size() && path.size() == truth.size() && changes.size() == truth.size() && tf.size() == truth.size(), "count",
                odo.size() << " odometries, " << bias.size() << " biases, " << path.size() << " paths, " << tf.size() << " transforms");
        std::vector<gtsam::imuBias::ConstantBias> b;
        for (auto& m : bias) b.emplace_back(gtsam::Vector3(m->accelerometer_bias.x, m->accelerometer_bias.y, m->accelerometer_bias.z), gtsam::Vector3(m->gyroscope_bias.x, m->gyroscope_bias.y, m->gyroscope_bias.z));
        std::map<ros::Time, geometry_msgs::Pose> told;   // poses known to who follows the changes only
        for (int m = 0; m < static_cast<int>(odo.size()); ++m) {
            const ros::Time t = stamp(time(m));
            MC_CHECK(odo[m]->header.stamp == t && bias[m]->header.stamp == t && path[m]->header.stamp == t, "time", "state " << m << ": " << odo[m]->header.stamp.toNSec() - base_ns);
            MC_CHECK(odo[m]->header.frame_id == c.map && odo[m]->child_frame_id == frames.body_id && path[m]->header.frame_id == c.map, "frames", odo[m]->header.frame_id);
            gtsam::NonlinearFactorGraph g;
            gtsam::LevenbergMarquardtParams lm;
            lm.setAbsoluteErrorTol(1e-12);
            lm.setRelativeErrorTol(1e-12);
            gtsam::Values sol;
            double best = -1;
            std::vector<double> heights{0.0};
            if (pressures_at[m] > 0) heights = prior_heights(path, odo, b);
            for (double z : heights) {
                gtsam::NonlinearFactorGraph g1;
                gtsam::Values init;
                batch(m, pressures_at[m], z, b, g1, init);
                gtsam::Values s;
                if (!c.robust) s = gtsam::LevenbergMarquardtOptimizer(g1, init, lm).optimize();
                else s = reweighted(g1, init);
                const double e = gtsam::Pose3::Logmap(pose(odo[m]->pose.pose).between(s.at<gtsam::Pose3>(X(m)))).norm();
                if (best < 0 || e < best) { best = e; sol = s; g = g1; }
            }
            const double tol = 2e-3;
            auto off = [&](const gtsam::Pose3& p, int k) { return gtsam::Pose3::Logmap(p.between(sol.at<gtsam::Pose3>(X(k)))).norm(); };
            if (FILE* f = getenv("P20_TOL") ? fopen(getenv("P20_TOL"), "a") : nullptr) { for (int k = 0; k <= m; ++k) fprintf(f, "TOL %d %g\n", k, off(pose(path[m]->poses.at(k).pose), k)); fclose(f); }
            MC_CHECK(off(pose(odo[m]->pose.pose), m) < tol, "pose", "state " << m << " is off the batch solution by " << off(pose(odo[m]->pose.pose), m) << " (" << pressures_at[m] << " pressures)");
            MC_CHECK(path[m]->poses.size() == static_cast<std::size_t>(m) + 1 && changes[m]->poses.size() <= path[m]->poses.size(), "path_size", path[m]->poses.size());
            for (int k = 0; k <= m; ++k) {
                const auto& p = path[m]->poses[k];
                MC_CHECK(p.header.stamp == stamp(time(k)), "path_time", k);
                // marginalised states keep the estimate they had
                MC_CHECK(off(pose(p.pose), k) < (c.window && k <= m - c.window ? 10 * tol : tol), "path_pose", "state " << k << " of the path of state " << m << " is off the batch solution by " << off(pose(p.pose), k));
            }
            for (auto& p : changes[m]->poses) told[p.header.stamp] = p.pose;
            MC_CHECK(told.size() == static_cast<std::size_t>(m) + 1, "changes", told.size() << " poses reported as changed for " << m + 1 << " states");
            for (auto& p : path[m]->poses) MC_CHECK(told.count(p.header.stamp) && pose(told[p.header.stamp]).equals(pose(p.pose), 1e-3), "changes_pose", "a changed pose was not reported");
            MC_CHECK(off(pose(path[m]->poses[m].pose), m) < tol && pose(path[m]->poses[m].pose).equals(pose(odo[m]->pose.pose), 1e-9), "path_last", m);
            const gtsam::Vector3 v(odo[m]->twist.twist.linear.x, odo[m]->twist.twist.linear.y, odo[m]->twist.twist.linear.z);
            if (c.imu) {
                const double dv = (v - sol.at<gtsam::Vector3>(V(m))).norm(), db = (b[m].vector() - sol.at<gtsam::imuBias::ConstantBias>(B(m)).vector()).norm();
                if (FILE* f = getenv("P20_TOL") ? fopen(getenv("P20_TOL"), "a") : nullptr) { fprintf(f, "TOLV %g\nTOLB %g\n", dv, db); fclose(f); }
                MC_CHECK(dv < 2e-3, "velocity", "state " << m << " off by " << dv);
                MC_CHECK(db < 2e-3, "bias", "state " << m << " off by " << db);
            } else {
                gtsam::Vector3 e = truth[0].v();
                if (m > 0) e = (pose(path[m]->poses[m].pose).translation() - pose(path[m]->poses[m - 1].pose).translation()) / (dt * 1e-9);
                MC_CHECK((v - e).norm() < 1e-6, "velocity_from_poses", "state " << m << ": " << v.transpose() << " instead of " << e.transpose());
                MC_CHECK(b[m].vector().norm() == 0, "bias_untouched", m);
            }
            if (!c.stereo) {
                const gtsam::Marginals marg(g, sol);
                const gtsam::Matrix e = marg.marginalCovariance(X(m));
                double worst = 0;
                for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) {
                    const double s = std::sqrt(e((i + 3) % 6, (i + 3) % 6) * e((j + 3) % 6, (j + 3) % 6));
                    worst = std::max(worst, std::fabs(odo[m]->pose.covariance[6 * i + j] - e((i + 3) % 6, (j + 3) % 6)) / s);
                }
                if (FILE* f = getenv("P20_TOL") ? fopen(getenv("P20_TOL"), "a") : nullptr) { fprintf(f, "TOLC %g\n", worst); fclose(f); }
                MC_CHECK(worst < 2e-2, "covariance", "state " << m << " relative error " << worst);
            }
            // transform predicted for registration
            MC_CHECK(tf[m]->header.stamp == t, "transform_time", m);
            ref::Pose e;
            if (m > 0) {
                const gtsam::Vector3 pv(odo[m - 1]->twist.twist.linear.x, odo[m - 1]->twist.twist.linear.y, odo[m - 1]->twist.twist.linear.z);
                const gtsam::NavState from(pose(odo[m - 1]->pose.pose), pv), to = nav.held(imu[m], time(m - 1), time(m), b[m - 1]).predict(from, b[m - 1]);
                e = ref::inv(frames.pose("lidar")) * to_ref(from.pose().between(to.pose())) * frames.pose("lidar");
                MC_CHECK(tf[m]->child_frame_id == "lidar_id", "transform_frame", tf[m]->child_frame_id);
            }
            MC_CHECK(diff(to_ref(tf[m]->transform), e) < 1e-7, "transform", "predicted transform " << m << " is off by " << diff(to_ref(tf[m]->transform), e));
        }
        mc::Hash h;
        for (auto& p : rosstub::Bus::get().log) h.add(p.topic);
        for (std::size_t p : pressures_at) h.add(p);
        for (auto& o : odo) h.add(o->pose.pose.position.x);
        mc::state(h.h);
        mc::nontrivial(h.h);
    }
};
void choose_factors(Config& c) {
    static const int combos[][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, 1, 0}, {1, 0, 1}, {0, 1, 1}, {1, 1, 1}};
    const int* k = combos[mc::choose(7, "factors imu/registration/stereo")];
    c.imu = k[0]; c.reg = k[1]; c.stereo = k[2];
    c.baro = mc::flip("barometer");
}
}

// Every order of arrival.
MC_FAMILY(arrivals) {
    Config c;
    choose_factors(c);
    c.states = mc::thorough() && !(c.stereo && c.baro) ? 4 : 3;
    if (c.stereo) {
        c.extra_frames = mc::flip("frames between states");
        if (c.imu || c.reg) {
            const int missing = mc::choose(3, "state without features");
            for (int k = 0; k < c.states; ++k) c.frame.push_back(k != missing - 1);
        }
    }
    if (c.baro) c.first_pressure = mc::choose(c.states, "first pressure");
    c.base_link = mc::flip("body frame is base_link");
    c.early_imu = mc::flip("IMU arrays may be early");
    Run r(c);
    r.build(0, false, -1);
    r.execute();
    r.check();
}

// Delay-bounded schedules of the callbacks for several arrival preferences.
MC_FAMILY(schedules) {
    Config c;
    choose_factors(c);
    c.extra_frames = c.stereo && mc::flip("frames between states");
    c.early_imu = mc::flip("IMU arrays may be early");
    Run r(c);
    int sources = 1 + c.reg + c.stereo + c.baro;
    const int order = sources == 1 ? 0 : mc::choose(2 * sources, "arrival preference");
    r.build(mc::thorough() ? 2 : 1, mc::flip("burst"), order);
    r.execute();
    r.check();
}

// An input that arrives at any scheduling point of the callbacks and is handled at once by another thread.
MC_FAMILY(interrupts) {
    Config c;
    choose_factors(c);
    c.extra_frames = c.stereo && mc::flip("frames between states");
    c.early_imu = mc::flip("IMU arrays may be early");
    Run r(c);
    int sources = 1 + c.reg + c.stereo + c.baro;
    const int order = sources == 1 ? 0 : mc::choose(2 * sources, "arrival preference");
    r.build(mc::thorough() ? 1 : 0, false, order);
    r.interrupt(mc::choose(static_cast<int>(r.sources.size()), "source"));
    r.execute();
    if (!r.interrupted) mc::prune();
    r.check();
}

// With marginalisation, the estimates stay those of the batch solution.
MC_FAMILY(marginalisation) {
    Config c;
    choose_factors(c);
    c.states = 4 + mc::choose(mc::thorough() ? 4 : 2, "states");
    c.window = 1 + mc::choose(3, "window");
    c.extra_frames = c.stereo && mc::flip("frames between states");
    c.base_link = mc::flip("body frame is base_link");
    Run r(c);
    r.build(0, false, 0);
    r.execute();
    r.check();
}

// Shutdown at every scheduling point: every callback in progress returns.
MC_FAMILY(shutdown) {
    Config c;
    choose_factors(c);
    c.extra_frames = c.stereo;
    c.early_imu = true;
    Run r(c);
    int sources = 1 + c.reg + c.stereo + c.baro;
    const int order = sources == 1 ? 0 : mc::choose(2 * sources, "arrival preference");
    r.build(1, mc::flip("burst"), order);
    r.scene->shutdown_at(mc::choose(mc::thorough() ? 80 : 60, "shutdown at scheduling point"));
    const auto stuck = r.run();
    if (!r.scene->stopping) mc::prune();
    std::string names;
    for (auto& s : stuck) names += " " + s;
    MC_CHECK(stuck.empty(), "shutdown", "not returning after shutdown:" << names);
    mc::Hash h;
    for (auto& p : rosstub::Bus::get().log) h.add(p.topic);
    mc::state(h.h);
    mc::evaluated(1);
}

// Registrations with an invalid covariance are refused, not optimised.
MC_FAMILY(refused) {
    Config c;
    c.imu = mc::flip("imu factors");
    c.baro = mc::flip("barometer");
    c.base_link = mc::flip("body frame is base_link");
    c.bad_covariance = 1 + mc::choose(4, "invalid covariance");
    Run r(c);
    r.build(0, false, 0);
    r.scene->world.run();
    mc::transition();
    MC_CHECK(!r.scene->world.error().empty() && r.odometries == 2, "refused", r.odometries << " states optimised with invalid covariance, error '" << r.scene->world.error() << "'");
    mc::state(mc::Hash().add(c.imu).add(c.baro).add(c.base_link).add(c.bad_covariance).h);
    mc::evaluated(1);
}

// ---- configurations --------------------------------------------------------------------------------------------------------
namespace {
namespace est = gtsam::noiseModel::mEstimator;
using Scheme = est::Base::ReweightScheme;
struct Loss { const char *name, *param; double standard, other; est::Base::shared_ptr (*create)(double, Scheme); };
template<class E> est::Base::shared_ptr make_loss(double k, Scheme s) { return E::Create(k, s); }
est::Base::shared_ptr make_null(double, Scheme s) { (void) s; return est::Null::Create(); }
const std::vector<Loss> losses{{"huber", "k", 1.345, 2.5, make_loss<est::Huber>}, {"cauchy", "k", 0.1, 1.5, make_loss<est::Cauchy>}, {"dcs", "c", 1.0, 3.0, make_loss<est::DCS>},
        {"fair", "c", 1.3998, 4.0, make_loss<est::Fair>}, {"geman_mcclure", "c", 1.0, 4.0, make_loss<est::GemanMcClure>}, {"l2_with_dead_zone", "k", 1.0, 0.01, make_loss<est::L2WithDeadZone>},
        {"null", nullptr, 0, 0, make_null}, {"tukey", "c", 4.6851, 6.5, make_loss<est::Tukey>}, {"welsch", "c", 2.9846, 4.5, make_loss<est::Welsch>}};
}

// A measurement with a gross error weighs as much as the configured loss says.
MC_FAMILY(robust) {
    Config c;
    c.stereo = c.robust = true;
    c.imu = false;
    c.outlier = 3;
    c.weak_registration = 1e6;
    c.states = 12;      // one relinearisation per state
    c.last_features = 2;
    const int type = mc::choose(static_cast<int>(losses.size()), "loss");
    const Loss& l = losses[type];
    const bool other = l.name == std::string("l2_with_dead_zone") || mc::flip("parameter");   // by default every residual is in the dead zone
    // components of l2_with_dead_zone may vanish; the standard dcs and geman_mcclure have several minima
    const bool scalar = l.name != std::string("l2_with_dead_zone") && ((type != 2 && type != 4) || other) && mc::flip("scalar reweighting");
    c.estimator = l.create(other ? l.other : l.standard, scalar ? Scheme::Scalar : Scheme::Block);
    const bool defaults = type == 0 && !other && !scalar;
    c.params = [&](rosstub::Bus& bus) {
        const std::string r = "/serpent/stereo_factors/robust/";
        if (defaults) bus.params.erase(r + "enabled");
        else {
            bus.param(r + "enabled", true);
            bus.param(r + "type", std::string(l.name));
        }
        for (auto& x : losses) {   // parameters of the other losses do not matter
            if (&x == &l || !x.param) continue;
            bus.param(r + x.name + "/" + x.param, 0.77);
            bus.param(r + x.name + "/reweight_scheme", std::string(scalar ? "BLOCK" : "SCALAR"));
        }
        if (other && l.param) bus.param(r + l.name + "/" + l.param, l.other);
        if (scalar || other) bus.param(r + l.name + "/reweight_scheme", std::string(scalar ? "SCALAR" : "BLOCK"));
    };
    Run r(c);
    r.build(0, false, 0);
    r.execute();
    // these converge slowly
    r.check_robust((type == 1 && (scalar || !other)) || (type == 4 && !other) ? 5e-3 : 2e-4);
}
// Solver and noise settings other than those of the other families.
MC_FAMILY(settings) {
    struct Setting { std::string name; std::function<void(Config&)> apply; };
    auto set = [](Config& c, std::function<void(rosstub::Bus&)> f) { auto before = c.params; c.params = [=](rosstub::Bus& b) { if (before) before(b); f(b); }; };
    static const std::vector<Setting> settings = [&] {
        auto param = [set](const std::string& n, auto v) { return [=](Config& c) { set(c, [=](rosstub::Bus& b) { b.param("/serpent/" + n, v); }); }; };
        auto unset = [set](const std::string& n) { return [=](Config& c) { set(c, [=](rosstub::Bus& b) { b.params.erase("/serpent/" + n); }); }; };
        auto number = [set](const std::string& n, double v, double Config::*m) { return [=](Config& c) { c.*m = v; set(c, [=](rosstub::Bus& b) { b.param("/serpent/" + n, v); }); }; };
        auto preset = [set](const std::string& n, double v, double Config::*m) { return [=](Config& c) { c.*m = v; set(c, [=](rosstub::Bus& b) { b.params.erase("/serpent/" + n); }); }; };
        std::vector<Setting> v;
        v.push_back({"dogleg", [param](Config& c) { param("isam2/optimization", std::string("Dogleg"))(c); param("isam2/dogleg_params/initial_delta", 50.0)(c); param("isam2/dogleg_params/wildfire_threshold", 0.0)(c); param("isam2/dogleg_params/trust_region_adaptation_mode", std::string("ONE_STEP_PER_ITERATION"))(c); }});
        v.push_back({"QR", param("isam2/factorization", std::string("QR"))});
        v.push_back({"nonlinear error", param("isam2/evaluate_nonlinear_error", true)});
        v.push_back({"no cache", param("isam2/cache_linearized_factors", false)});
        v.push_back({"integration", number("imu/noise/integration", 0.05, &Config::integration)});
        v.push_back({"integration bias", number("imu/noise/integration_bias", 0.5, &Config::bias_init)});
        v.push_back({"accelerometer walk", number("imu/noise/accelerometer_bias", 0.2, &Config::accel_walk)});
        v.push_back({"gyroscope walk", number("imu/noise/gyroscope_bias", 0.1, &Config::gyro_walk)});
        v.push_back({"accelerometer prior", number("prior_noise/accelerometer_bias", 0.2, &Config::accel_prior)});
        v.push_back({"gyroscope prior", number("prior_noise/gyroscope_bias", 0.1, &Config::gyro_prior)});
        v.push_back({"accelerometer prior default", preset("prior_noise/accelerometer_bias", 1e-3, &Config::accel_prior)});
        v.push_back({"gyroscope prior default", preset("prior_noise/gyroscope_bias", 1e-3, &Config::gyro_prior)});
        v.push_back({"pressure prior", number("prior_noise/barometer_bias", 0.5, &Config::prior_baro)});
        v.push_back({"pressure walk", number("barometer/noise/barometer_bias", 0.2, &Config::walk_baro)});
        v.push_back({"gravity", number("gravity", 9.2, &Config::gravity)});
        v.push_back({"gravity default", preset("gravity", 9.81, &Config::gravity)});
        v.push_back({"left camera", [param](Config& c) { c.camera = "lidar"; param("stereo_factors/left_cam_frame", std::string("lidar"))(c); }});
        v.push_back({"stereo noise", [param](Config& c) { c.sigmas = gtsam::Vector3(0.5, 0.25, 3); param("stereo_factors/noise/left_x", 0.5)(c); param("stereo_factors/noise/right_x", 0.25)(c); param("stereo_factors/noise/y", 3.0)(c); }});
        v.push_back({"stereo noise default", [unset](Config& c) { c.sigmas = gtsam::Vector3(5, 5, 10); for (auto n : {"left_x", "right_x", "y"}) unset(std::string("stereo_factors/noise/") + n)(c); }});
        v.push_back({"map frame", [](Config& c) { c.map = "earth"; }});
        v.push_back({"map frame default", [unset](Config& c) { c.map = "map"; unset("map_frame_id")(c); }});
        v.push_back({"factors default", [unset](Config& c) { c.imu = c.reg = c.stereo = c.baro = true; for (auto n : {"imu", "registration", "stereo", "barometer"}) unset(std::string("optimisation/factors/") + n)(c); }});
        v.push_back({"no marginalisation", [param](Config& c) { param("optimisation/marginalisation/enabled", false)(c); param("optimisation/marginalisation/window_size", 1)(c); }});
        return v;
    }();
    Config c;
    choose_factors(c);
    const int a = mc::choose(static_cast<int>(settings.size()), "setting");
    c.base_link = a % 2;
    settings[a].apply(c);
    if (mc::thorough()) {
        const int b = mc::choose(static_cast<int>(settings.size()), "second setting");
        if (b <= a || settings[b].name.find("default") != std::string::npos || settings[a].name.find("default") != std::string::npos) mc::prune();
        settings[b].apply(c);
    }
    Run r(c);
    r.build(0, false, 0);
    r.execute();
    r.check();
}
// Settings that make no sense stop the node when it starts.
MC_FAMILY(refused_settings) {
    using Set = std::function<void(rosstub::Bus&)>;
    auto text = [](std::string n, std::string v) { return Set([=](rosstub::Bus& b) { b.param("/serpent/" + n, v); }); };
    auto number = [](std::string n, double v) { return Set([=](rosstub::Bus& b) { b.param("/serpent/" + n, v); }); };
    std::vector<std::pair<std::string, Set>> v;
    for (auto x : {"", "gaussnewton", "LevenbergMarquardt", "dogleg"}) v.emplace_back("optimisation method", text("isam2/optimization", x));
    for (auto x : {"", "Huber", "l2", "none"}) v.emplace_back("loss", Set([=](rosstub::Bus& b) { b.param("/serpent/stereo_factors/robust/enabled", true); b.param("/serpent/stereo_factors/robust/type", std::string(x)); }));
    for (auto& l : losses) if (l.param) for (auto x : {"", "block", "BOTH"}) v.emplace_back(std::string("reweighting of ") + l.name, Set([=](rosstub::Bus& b) { b.param("/serpent/stereo_factors/robust/enabled", true); b.param("/serpent/stereo_factors/robust/type", std::string(l.name)); b.param("/serpent/stereo_factors/robust/" + std::string(l.name) + "/reweight_scheme", std::string(x)); }));
    v.emplace_back("pressure walk", number("barometer/noise/barometer_bias", 0.0));
    for (int w : {-1, -100}) v.emplace_back("window", Set([=](rosstub::Bus& b) { b.param("/serpent/optimisation/marginalisation/enabled", true); b.param("/serpent/optimisation/marginalisation/window_size", w); }));
    Config c;
    c.stereo = c.baro = true;
    c.imu = mc::flip("imu factors");
    c.reg = mc::flip("registration factors");
    const auto& x = v[mc::choose(static_cast<int>(v.size()), "setting")];
    c.params = x.second;
    Run r(c);
    mc::transition();
    MC_CHECK(mc::throws([&] { r.build(0, false, 0); }), "accepted:" + x.first, "the node starts with an unusable " << x.first);
    mc::evaluated(1);
}
// Inputs that make no sense are refused, not optimised.
MC_FAMILY(refused_inputs) {
    struct Bad { const char* name; std::function<void(Config&)> apply; std::size_t optimised; };
    const std::vector<Bad> bad{
        {"prior pose", [](Config& c) { c.bad_prior = 1; }, 0},
        {"prior velocity", [](Config& c) { c.bad_prior = 2; c.imu = true; }, 0},
        {"accelerometer bias prior", [](Config& c) { c.accel_prior = 0; c.imu = true; }, 0},
        {"gyroscope bias prior", [](Config& c) { c.gyro_prior = 0; c.imu = true; }, 0},
        {"repeated feature", [](Config& c) { c.bad_features = 1; c.stereo = true; }, 1},
        {"zero baseline", [](Config& c) { c.bad_features = 2; c.stereo = true; }, 1},
        {"reversed baseline", [](Config& c) { c.bad_features = 3; c.stereo = true; }, 1},
        {"zero pressure variance", [](Config& c) { c.bad_pressure = 1; c.baro = true; }, 3},
        {"negative pressure variance", [](Config& c) { c.bad_pressure = 2; c.baro = true; }, 3},
        {"pressure between states", [](Config& c) { c.bad_pressure = 3; c.baro = true; }, 3},
        {"pressure bias prior", [](Config& c) { c.prior_baro = 0; c.baro = true; }, 3},
        {"early registration", [](Config& c) { c.bad_time = 1; c.reg = true; }, 2},
        {"late registration", [](Config& c) { c.bad_time = 2; c.reg = true; }, 2},
        {"no IMU measurements", [](Config& c) { c.empty_imu = true; }, 2}};
    Config c;
    choose_factors(c);
    const Bad& b = bad[mc::choose(static_cast<int>(bad.size()), "input")];
    b.apply(c);
    Run r(c);
    const int sources = 1 + c.reg + c.stereo + c.baro;
    r.build(0, false, sources == 1 ? 0 : mc::choose(2 * sources, "arrival preference"));
    mc::transition();
    r.scene->world.run();
    MC_CHECK(!r.scene->world.error().empty() && r.odometries <= b.optimised, std::string("refused:") + b.name, r.odometries << " states optimised with " << b.name << ", error '" << r.scene->world.error() << "'");
    mc::state(mc::Hash().add(c.imu).add(c.reg).add(c.stereo).add(c.baro).add(b.name).h);
    mc::evaluated(1);
}

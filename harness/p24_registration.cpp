// P24: the registration node. Each cloud is registered against the one before it and (if enabled) against the local map of the
// state before it, whatever the order in which clouds, predictions and maps arrive; the result is published in the body frame.
#include "pipeline.hpp"
#include "mock_registration.hpp"
#include <pcl/search/impl/search.hpp>
#include <pcl/kdtree/kdtree_flann.h>
#include <pcl/registration/gicp.h>
#include <pcl/registration/icp.h>
#include <pcl/registration/ndt.h>
#include "serpent/front_end/lidar/registration.hpp"
#include "serpent/front_end/lidar/registration_methods.hpp"

namespace {
using namespace scene_ns;
using ref::V3;
using ref::v3;

struct Config {
    bool s2m = true, base_link = false, debug = false, debug_alt = false, check_normals = false;
    int clouds = 4;
    int ahead = 2;                  // clouds may arrive this many states ahead of the optimisation
    std::string method = "CONSTANT", model = "POINT_TO_PLANE_LINEARISED", point = "RANGE";
    double noise = 0.07, bias = 0.03, leaf = 0.4, rotation = 0.03, translation = 0.2;
    bool voxel = true;
    std::string algorithm = "fast_gicp";
    int bad_normal = -1;            // cloud with a normal that isn't of unit length
    bool verdicts = false;          // every registration may fail to converge
    bool sizes = false;             // clouds of different sizes
};
ref::Pose small(int k, double s) { ref::Pose p; p.R = ref::expm(v3(0.01L * s * (k % 3 + 1), -0.013L * s, 0.02L * s * (k % 2))); p.t = v3(0.03L * s, -0.02L * s * k, 0.011L * s); return p; }

template<class PointT>
struct Run {
    typedef pcl::PointCloud<PointT> Cloud;
    Config c;
    Frames frames;
    std::unique_ptr<Scene> scene;
    std::unique_ptr<serpent::Registration<PointT>> node;
    std::vector<std::shared_ptr<Cloud>> clouds, maps;
    std::vector<ref::Pose> motion, guess;           // lidar at k-1 -> lidar at k
    std::vector<fast_gicp::Call> calls;
    std::size_t published = 0;
    std::vector<std::size_t> sent{0, 0, 0};         // clouds, predictions, maps
    const int s2s_iterations = 17, s2m_iterations = 23;

    ns_t time(int k) const { return base_ns + k * 100000000ULL + 7000; }
    explicit Run(const Config& c) : c(c), frames(c.base_link) {
        rosstub::Bus::reset();
        auto& bus = rosstub::Bus::get();
        frames.install();
        bus.param("/serpent/s2m/enabled", c.s2m);
        for (auto& p : {std::string("s2s"), std::string("s2m")}) {
            bus.param("/serpent/" + p + "/method", c.algorithm);
            bus.param("/serpent/" + p + "/base/maximum_iterations", p == "s2s" ? s2s_iterations : s2m_iterations);
            bus.param("/serpent/" + p + "/base/max_correspondence_distance", 1.0);
        }
        const std::string rc = "/serpent/registration_covariance/";
        bus.param(rc + "method", c.method);
        bus.param(rc + "model", c.model);
        bus.param(rc + "constant/rotation", c.rotation);
        bus.param(rc + "constant/translation", c.translation);
        bus.param(rc + "point_covariance/method", c.point);
        bus.param(rc + "point_covariance/constant", c.noise);
        bus.param(rc + "point_covariance/range_noise", c.noise);
        bus.param(rc + "point_covariance/range_bias_noise", c.bias);
        bus.param("/serpent/voxel_grid_filter/enabled", c.voxel);
        bus.param("/serpent/voxel_grid_filter/leaf_size", c.leaf);
        bus.param("/serpent/debug/registration/publish_clouds", c.debug);
        bus.param("/serpent/debug/registration/publish_clouds_alt", c.debug_alt);
        bus.param("/serpent/debug/registration/check_normals", c.check_normals);
        for (int k = 0; k < c.clouds; ++k) {
            motion.push_back(k == 0 ? ref::Pose() : small(k, 5));
            guess.push_back(k == 0 ? ref::Pose() : motion[k] * small(k + 1, 1));
            clouds.push_back(cloud(k, c.sizes ? 5 + 3 * (k % 3) : 7));
            maps.push_back(cloud(k, c.sizes ? 12 - 4 * (k % 2) : 10));
        }
        if (c.bad_normal >= 0) clouds[c.bad_normal]->points[2].normal_z += 0.5f;
        fast_gicp::script() = [this](const fast_gicp::Call& call) { calls.push_back(call); return answer(index(call.source), call.iterations == this->s2m_iterations); };
        if (c.verdicts) fast_gicp::verdict() = [](const fast_gicp::Call&) { return !mc::flip("does not converge"); };
    }
    ~Run() { fast_gicp::script() = nullptr; fast_gicp::verdict() = nullptr; rosstub::Bus::get().on_publish = nullptr; }
    int index(const pcl::PCLHeader& h) const { for (int k = 0; k < c.clouds; ++k) if (h.stamp == time(k) / 1000) return k; return -1; }
    Eigen::Matrix4f answer(int k, bool s2m) const {
        ref::Pose p = k < 0 ? ref::Pose() : motion[k];
        if (s2m) p = p * small(3 * k + 1, 0.7);
        return ref::eig<float>(p).matrix();
    }
    // Points of a scene fixed to the start, seen from cloud k (of a map: some more).
    std::shared_ptr<Cloud> cloud(int k, int n) const {
        ref::Pose T;
        for (int i = 1; i <= k; ++i) T = T * motion[i];
        const ref::Pose inv = ref::inv(T);
        auto m = std::make_shared<Cloud>();
        m->header.stamp = time(k) / 1000;
        m->header.frame_id = "lidar_id";
        m->header.seq = 100 + k;
        for (int i = 0; i < n; ++i) {
            const V3 w = v3(3.0L * (i % 3) - 2.9L, 2.5L * ((i / 3) % 3) - 2.2L, 1.7L * ((i * 5) % 4) - 2.3L);
            V3 nn = v3(0.6L - 0.37L * (i % 4), 0.3L * (i % 3) - 0.5L, 0.8L - 0.5L * (i % 2));
            nn = nn * (1 / nn.norm());
            const V3 q = ref::apply(inv, w), nq = inv.R * nn;
            PointT p;
            p.x = q(0, 0); p.y = q(1, 0); p.z = q(2, 0);
            p.normal_x = nq(0, 0); p.normal_y = nq(1, 0); p.normal_z = nq(2, 0);
            p.curvature = 0.125f * i;
            if constexpr (std::is_same_v<PointT, PointNormalUnit>) {
                const V3 u = q * (1 / q.norm());
                p.ux = u(0, 0); p.uy = u(1, 0); p.uz = u(2, 0);
            }
            m->push_back(p);
        }
        return m;
    }
    void send(int source) {
        auto& bus = rosstub::Bus::get();
        const int k = static_cast<int>(sent[source]++);
        if (source == 0) bus.inject<Cloud>("/serpent/normal_estimation/pointcloud", rosstub::CPtr<Cloud>(std::make_shared<Cloud>(*clouds[k])));
        if (source == 1) {
            auto m = boost::make_shared<geometry_msgs::TransformStamped>();
            m->header.stamp = stamp(time(k));
            m->header.frame_id = "lidar_id";
            m->child_frame_id = "lidar_id";
            const Eigen::Quaterniond q(ref::eig<double>(guess[k]).rotation());
            m->transform.rotation.w = q.w(); m->transform.rotation.x = q.x(); m->transform.rotation.y = q.y(); m->transform.rotation.z = q.z();
            m->transform.translation.x = guess[k].t(0, 0); m->transform.translation.y = guess[k].t(1, 0); m->transform.translation.z = guess[k].t(2, 0);
            bus.inject<geometry_msgs::TransformStamped>("/serpent/optimisation/imu_transform", m);
        }
        if (source == 2) bus.inject<Cloud>("/serpent/mapping/local_map", rosstub::CPtr<Cloud>(std::make_shared<Cloud>(*maps[k])));
    }
    // State k is optimised once its registration is known (state 0: at once); its map and the next prediction follow.
    bool can(int source) const {
        const std::size_t k = sent[source], n = clouds.size();
        if (k >= n) return false;
        const bool before = k < 2 ? true : published + 1 >= k;       // state k - 1 is optimised
        if (source == 0) return k <= published + c.ahead;
        if (source == 1) return before;
        return c.s2m && (k == 0 || published >= k);
    }
    void build(int delays, bool burst, int order) {
        scene = std::make_unique<Scene>(delays, 4, burst);
        rosstub::Bus::get().on_publish = [this](const std::string& topic, const rosstub::AnyMsg&) { if (topic == "/serpent/registration/transform") ++published; sched::point("publish"); };
        node = std::make_unique<serpent::Registration<PointT>>();
        scene->world.watch(node.get(), sizeof *node);
        scene->tasks(0, true);
        scene->world.add("input", [this] { return !scene->stopping && (can(0) || can(1) || can(2)); }, [this, order] {
            std::vector<int> e;
            static const int prefs[][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
            for (int k = 0; k < 3; ++k) { const int s = order < 0 ? k : prefs[order][k]; if (can(s)) e.push_back(s); }
            send(e[order < 0 ? mc::choose(static_cast<int>(e.size()), "next input") : 0]);
        }, [] { return 0.0; }, false, burst ? -1 : 1);
    }
    void execute() {
        mc::transition();
        const auto stuck = scene->world.run();
        MC_CHECK(scene->world.error().empty(), "exception:" + scene->world.error(), "callback terminated the node: " << scene->world.error());
        std::string names;
        for (auto& s : stuck) names += " " + s;
        // the map of the last state has no later cloud to be registered
        const bool last_map = c.s2m && stuck.size() == 1 && stuck[0].find("local_map") != std::string::npos;
        MC_CHECK((stuck.empty() || last_map) && published + 1 == clouds.size(), "stuck", "waiting for ever:" << names << ", " << published << " of " << clouds.size() - 1 << " registrations");
    }
    Eigen::Matrix<double, 6, 6> lidar_covariance(const Cloud& source, const Cloud& target, const Eigen::Matrix4f& T) const {
        Eigen::Matrix<double, 6, 6> C = Eigen::Matrix<double, 6, 6>::Zero();
        if (c.method == "CONSTANT") {
            for (int i = 0; i < 6; ++i) C(i, i) = i < 3 ? c.rotation * c.rotation : c.translation * c.translation;
            return C;
        }
        FixedRegistration<PointT, PointT, float> r;
        r.result = T;
        r.setInputSource(std::make_shared<Cloud>(source));
        r.setInputTarget(std::make_shared<Cloud>(target));
        r.setMaxCorrespondenceDistance(1.0);
        Cloud out;
        r.align(out);
        if (c.model == "POINT_TO_POINT_LINEARISED") return model_covariance<serpent::PointToPointIcpLinearisedModel<PointT, PointT>>(r);
        if (c.model == "POINT_TO_POINT_NONLINEAR") return model_covariance<serpent::PointToPointIcpNonlinearModel<PointT, PointT>>(r);
        if (c.model == "POINT_TO_PLANE_LINEARISED") return model_covariance<serpent::PointToPlaneIcpLinearisedModel<PointT, PointT>>(r);
        return model_covariance<serpent::PointToPlaneIcpNonlinearModel<PointT, PointT>>(r);
    }
    // The covariance functions themselves are checked by P11.
    template<class Model> Eigen::Matrix<double, 6, 6> model_covariance(pcl::Registration<PointT, PointT, float>& r) const {
        int n = 0;
        const double v = c.noise * c.noise, b = c.bias * c.bias, l = c.leaf * c.leaf;
        if (c.method == "LLS") return serpent::lls_iid_covariance<Model, float>(r, c.point == "VOXEL_SIZE" ? l : v, n);
        if (c.point == "CONSTANT") return serpent::censi_iid_covariance<Model, float>(r, v, n);
        if (c.point == "VOXEL_SIZE") return serpent::censi_iid_covariance<Model, float>(r, l, n);
        if constexpr (std::is_same_v<PointT, PointNormalUnit>) {
            if (c.point == "RANGE") return serpent::censi_range_covariance<Model, float>(r, v, n);
            return serpent::censi_range_bias_covariance<Model, float>(r, v, b, n);
        }
        throw std::runtime_error("not expected");
    }
    static void same_cloud(const Cloud& a, const std::shared_ptr<Cloud>& b, const ref::Pose& T, bool normals, const char* what) {
        MC_CHECK(a.size() == b->size(), std::string(what) + "_size", a.size());
        for (std::size_t i = 0; i < a.size(); ++i) {
            const V3 p = ref::apply(T, v3((*b)[i].x, (*b)[i].y, (*b)[i].z)), n = T.R * v3((*b)[i].normal_x, (*b)[i].normal_y, (*b)[i].normal_z);
            MC_CHECK(ref::maxdiff(p, a[i].getVector3fMap()) < 1e-4, std::string(what) + "_points", "point " << i);
            if (normals) MC_CHECK(ref::maxdiff(n, a[i].getNormalVector3fMap()) < 1e-4, std::string(what) + "_normals", "normal of point " << i);
        }
    }
    void check() const {
        auto out = rosstub::Bus::get().published<geometry_msgs::PoseWithCovarianceStamped>("/serpent/registration/transform");
        // the alignments made, in order per stage
        std::vector<fast_gicp::Call> s2s, s2m;
        for (auto& x : calls) (x.iterations == s2m_iterations ? s2m : s2s).push_back(x);
        MC_CHECK(s2s.size() == clouds.size() - 1 && s2m.size() == (c.s2m ? clouds.size() - 1 : 0), "alignments", s2s.size() << " scan to scan, " << s2m.size() << " scan to map");
        const ref::Pose X = frames.pose("lidar");
        const ref::M6 A = ref::adjoint(X);
        for (int k = 1; k < c.clouds; ++k) {
            const auto& a = s2s[k - 1];
            MC_CHECK(index(a.source) == k && a.source_size == clouds[k]->size(), "s2s_source", "scan to scan registration " << k << " used cloud " << index(a.source));
            MC_CHECK(index(a.target) == k - 1 && a.target_size == clouds[k - 1]->size(), "s2s_target", "scan to scan registration " << k << " against cloud " << index(a.target));
            MC_CHECK(ref::maxdiff(ref::mat(guess[k]), a.guess) < 1e-5, "s2s_guess", "scan to scan registration " << k << " started from\n" << a.guess);
            if (c.s2m) {
                const auto& b = s2m[k - 1];
                MC_CHECK(index(b.source) == k && b.source_size == clouds[k]->size(), "s2m_source", "scan to map registration " << k << " used cloud " << index(b.source));
                MC_CHECK(index(b.target) == k - 1 && b.target_size == maps[k - 1]->size(), "s2m_target", "scan to map registration " << k << " against map " << index(b.target));
                MC_CHECK((b.guess - answer(k, false)).cwiseAbs().maxCoeff() < 1e-5, "s2m_guess", "scan to map registration " << k << " started from\n" << b.guess);
            }
            const Eigen::Matrix4f T = answer(k, c.s2m);
            const auto& m = *out[k - 1];
            MC_CHECK(m.header.stamp == stamp(time(k)), "stamp", "registration " << k << " is stamped " << m.header.stamp.toNSec() - base_ns);
            MC_CHECK(m.header.frame_id == frames.body_id, "frame", m.header.frame_id);
            ref::Pose L;
            L.R = ref::from<3, 3>(T.topLeftCorner(3, 3)); L.t = ref::from<3, 1>(T.topRightCorner(3, 1));
            const ref::Pose e = X * L * ref::inv(X);
            MC_CHECK(diff(to_ref(m.pose.pose), e) < 1e-5, "pose", "registration " << k << " is off by " << diff(to_ref(m.pose.pose), e));
            const auto C = lidar_covariance(*clouds[k], c.s2m ? *maps[k - 1] : *clouds[k - 1], T);
            const ref::M6 E = A * ref::from<6, 6>(C) * A.T();
            for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) {
                const double x = m.pose.covariance[6 * i + j], y = static_cast<double>(E((i + 3) % 6, (j + 3) % 6));
                const double s = static_cast<double>(std::sqrt(E((i + 3) % 6, (i + 3) % 6) * E((j + 3) % 6, (j + 3) % 6)));
                MC_CHECK(std::fabs(x - y) <= 1e-4 * s || (!C.allFinite() && !std::isfinite(x)), "covariance", "registration " << k << " element " << i << ", " << j << ": " << x << " instead of " << y);
            }
        }
        if (c.debug) check_debug();
        mc::Hash h;
        for (auto& p : rosstub::Bus::get().log) h.add(p.topic);
        for (auto& o : out) h.add(o->pose.pose.position.x).add(o->pose.covariance[0]);
        mc::state(h.h);
        mc::nontrivial(h.h);
    }
    void check_debug() const {
        auto get = [](const std::string& t) { return rosstub::Bus::get().published<Cloud>("/serpent/debug/" + t); };
        auto prev = get("previous_pointcloud"), cur = get("current_pointcloud"), imu = get("imu_guess_pointcloud"), s2s = get("s2s_transformed_pointcloud"), s2s_alt = get("s2s_transformed_pointcloud_alt");
        auto s2m = get("s2m_transformed_pointcloud"), s2m_alt = get("s2m_transformed_pointcloud_alt");
        const std::size_t n = clouds.size() - 1;
        MC_CHECK(prev.size() == n && cur.size() == n && imu.size() == n && s2s.size() == n && s2s_alt.size() == (c.debug_alt ? n : 0) && s2m.size() == (c.s2m ? n : 0) && s2m_alt.size() == (c.s2m && c.debug_alt ? n : 0),
                "debug_count", prev.size() << " " << cur.size() << " " << imu.size() << " " << s2s.size() << " " << s2s_alt.size() << " " << s2m.size() << " " << s2m_alt.size());
        auto pose = [](const Eigen::Matrix4f& T) { ref::Pose L; L.R = ref::from<3, 3>(T.topLeftCorner(3, 3)); L.t = ref::from<3, 1>(T.topRightCorner(3, 1)); return L; };
        for (std::size_t i = 0; i < n; ++i) {
            const int k = static_cast<int>(i) + 1;
            same_cloud(*prev[i], clouds[k - 1], ref::Pose(), true, "debug_previous");
            same_cloud(*cur[i], clouds[k], ref::Pose(), true, "debug_current");
            same_cloud(*imu[i], clouds[k], guess[k], true, "debug_guess");
            same_cloud(*s2s[i], clouds[k], pose(answer(k, false)), false, "debug_s2s");
            if (c.debug_alt) same_cloud(*s2s_alt[i], clouds[k], pose(answer(k, false)), true, "debug_s2s_alt");
            if (c.s2m) same_cloud(*s2m[i], clouds[k], pose(answer(k, true)), false, "debug_s2m");
            if (c.s2m && c.debug_alt) same_cloud(*s2m_alt[i], clouds[k], pose(answer(k, true)), true, "debug_s2m_alt");
            for (auto& m : {prev[i], cur[i], imu[i], s2s[i]}) MC_CHECK(m->header.stamp == time(k - 1) / 1000 && m->header.frame_id == "lidar_id", "debug_header", m->header.stamp);
        }
    }
};
}

// Every order of arrival.
template<class PointT> void arrivals() {
    Config c;
    c.s2m = mc::flip("scan to map");
    c.base_link = mc::flip("body frame is base_link");
    c.debug = mc::flip("debug clouds");
    c.debug_alt = c.debug && mc::flip("alternative debug clouds");
    c.ahead = 1 + mc::choose(2, "clouds ahead");
    c.clouds = mc::thorough() ? 5 : 4;
    Run<PointT> r(c);
    r.build(0, false, -1);
    r.execute();
    r.check();
}
MC_FAMILY(arrivals_normals) { arrivals<pcl::PointNormal>(); }
MC_FAMILY(arrivals_units) { arrivals<PointNormalUnit>(); }

// Delay-bounded schedules of the callbacks.
MC_FAMILY(schedules) {
    Config c;
    c.s2m = mc::flip("scan to map");
    c.ahead = mc::choose(3, "clouds ahead") + 1;
    c.clouds = 4;
    Run<pcl::PointNormal> r(c);
    r.build(mc::thorough() ? 3 : 2, mc::flip("burst"), mc::choose(6, "arrival preference"));
    r.execute();
    r.check();
}

// Registrations that do not converge count like the others.
MC_FAMILY(unconverged) {
    Config c;
    c.s2m = mc::flip("scan to map");
    c.base_link = mc::flip("body frame is base_link");
    c.debug = mc::flip("debug clouds");
    c.sizes = mc::flip("different sizes");
    c.method = mc::flip("estimated covariance") ? "CENSI" : "CONSTANT";
    c.point = "CONSTANT";
    c.verdicts = true;
    c.clouds = 4;
    Run<pcl::PointNormal> r(c);
    r.build(0, false, mc::choose(6, "arrival preference"));
    r.execute();
    r.check();
}

// Shutdown at every scheduling point: every callback in progress returns.
MC_FAMILY(shutdown) {
    Config c;
    c.s2m = mc::flip("scan to map");
    c.ahead = mc::choose(3, "clouds ahead") + 1;
    c.clouds = 3;
    Run<pcl::PointNormal> r(c);
    r.build(mc::thorough() ? 2 : 1, mc::flip("burst"), mc::choose(6, "arrival preference"));
    r.scene->shutdown_at(mc::choose(60, "shutdown at scheduling point"));
    mc::transition();
    const auto stuck = r.scene->world.run();
    if (!r.scene->stopping) mc::prune();
    MC_CHECK(r.scene->world.error().empty(), "exception:" + r.scene->world.error(), r.scene->world.error());
    std::string names;
    for (auto& s : stuck) names += " " + s;
    MC_CHECK(stuck.empty(), "shutdown", "not returning after shutdown:" << names);
    mc::Hash h;
    for (auto& p : rosstub::Bus::get().log) h.add(p.topic);
    mc::state(h.h);
    mc::evaluated(1);
}

// Every covariance configuration: refused, or the covariance of that method, model and point covariance.
template<class PointT> void covariances() {
    static const std::vector<std::string> methods{"CONSTANT", "CENSI", "LLS", "OTHER"}, points{"CONSTANT", "VOXEL_SIZE", "RANGE", "RANGE_BIAS", "OTHER"},
            models{"POINT_TO_POINT_LINEARISED", "POINT_TO_POINT_NONLINEAR", "POINT_TO_PLANE_LINEARISED", "POINT_TO_PLANE_NONLINEAR", "OTHER"};
    Config c;
    const bool unit = std::is_same_v<PointT, PointNormalUnit>;
    c.clouds = 3;
    c.ahead = 1;
    c.s2m = mc::flip("scan to map");
    c.base_link = mc::flip("body frame is base_link");
    c.method = mc::pick(methods, "method");
    bool ok = c.method != "OTHER";
    if (ok && c.method != "CONSTANT") {
        c.model = mc::pick(models, "model");
        c.point = mc::pick(points, "point covariance");
        ok = c.model != "OTHER" && c.point != "OTHER";
        const bool range = c.point == "RANGE" || c.point == "RANGE_BIAS";
        if (c.point == "VOXEL_SIZE") { c.voxel = mc::flip("voxel grid"); ok = ok && c.voxel; }
        if (range) {
            static const std::vector<double> noises{0.07, 0.2, 0.0, -0.1};
            c.noise = mc::pick(noises, "range noise");
            ok = ok && c.noise > 0;
            if (c.point == "RANGE_BIAS") { c.bias = mc::pick(noises, "range bias noise"); ok = ok && c.bias > 0; }
            ok = ok && c.method == "CENSI";
        } else if (mc::flip("other noise")) { c.noise = 0.21; c.leaf = 0.13; }
        if (ok && range && !unit) mc::prune();     // the node is built with unit vectors then
    } else if (mc::flip("other noise")) { c.rotation = 0.11; c.translation = 0.013; }
    Run<PointT> r(c);
    mc::transition();
    bool refused = false;
    try { r.build(0, false, 0); } catch (const mc::Pruned&) { throw; } catch (const mc::Failed&) { throw; } catch (const std::exception&) { refused = true; }
    MC_CHECK(refused == !ok, refused ? "refused" : "accepted", c.method << " " << c.model << " " << c.point << " noise " << c.noise << " bias " << c.bias << (refused ? " refused" : " accepted"));
    if (refused) { mc::state(mc::Hash().add(c.method).add(c.model).add(c.point).add(c.noise).add(c.bias).h); return; }
    r.execute();
    r.check();
}
MC_FAMILY(covariances_normals) { covariances<pcl::PointNormal>(); }
MC_FAMILY(covariances_units) { covariances<PointNormalUnit>(); }

// Normals of unit length are insisted on where they matter, if asked for.
MC_FAMILY(normals) {
    static const std::vector<std::string> methods{"CONSTANT", "CENSI", "LLS"}, models{"POINT_TO_POINT_LINEARISED", "POINT_TO_POINT_NONLINEAR", "POINT_TO_PLANE_LINEARISED", "POINT_TO_PLANE_NONLINEAR"};
    Config c;
    c.s2m = mc::flip("scan to map");
    c.method = mc::pick(methods, "method");
    c.model = mc::pick(models, "model");
    c.point = "CONSTANT";
    c.clouds = 3;
    c.check_normals = mc::flip("check normals");
    c.bad_normal = mc::choose(4, "cloud with a bad normal") - 1;
    Run<pcl::PointNormal> r(c);
    r.build(0, false, 0);
    mc::transition();
    const bool refuse = c.check_normals && c.method != "CONSTANT" && c.model.find("PLANE") != std::string::npos && c.bad_normal >= 0 && c.bad_normal < c.clouds - 1;
    if (!refuse) { r.execute(); r.check(); return; }
    r.scene->world.run();
    MC_CHECK(!r.scene->world.error().empty() && r.published <= static_cast<std::size_t>(c.bad_normal), "normals_checked", r.published << " registrations with an unnormalised target");
    mc::state(mc::Hash().add(c.method).add(c.model).add(c.bad_normal).h);
}

// PCL's own ICP: the published motion is the true one.
MC_FAMILY(real_icp) {
    Config c;
    c.algorithm = "icp";
    c.s2m = mc::flip("scan to map");
    c.base_link = mc::flip("body frame is base_link");
    c.clouds = 4;
    Run<pcl::PointNormal> r(c);
    r.build(0, false, -1);
    r.execute();
    auto out = rosstub::Bus::get().published<geometry_msgs::PoseWithCovarianceStamped>("/serpent/registration/transform");
    const ref::Pose X = r.frames.pose("lidar");
    for (int k = 1; k < c.clouds; ++k) {
        const ref::Pose e = X * r.motion[k] * ref::inv(X);
        MC_CHECK(diff(to_ref(out[k - 1]->pose.pose), e) < 1e-3, "icp_pose", "registration " << k << " off by " << diff(to_ref(out[k - 1]->pose.pose), e));
    }
    mc::state(mc::Hash().add(out[0]->pose.pose.position.x).add(c.s2m).h);
}

// ---- registration methods and their parameters ---------------------------------------------------------------------------
namespace {
typedef pcl::PointNormal PN;
typedef std::map<std::string, double> Values;
void base_values(Values& v, pcl::Registration<PN, PN>& r) {
    v["base/maximum_iterations"] = r.getMaximumIterations();
    v["base/ransac_iterations"] = r.getRANSACIterations();
    v["base/ransac_outlier_rejection_threshold"] = r.getRANSACOutlierRejectionThreshold();
    v["base/max_correspondence_distance"] = r.getMaxCorrespondenceDistance();
    v["base/transformation_epsilon"] = r.getTransformationEpsilon();
    v["base/transformation_rotation_epsilon"] = r.getTransformationRotationEpsilon();
    v["base/euclidean_fitness_epsilon"] = r.getEuclideanFitnessEpsilon();
}
struct Enum { std::string name; double value; };
const std::vector<Enum> regularizations{{"NONE", 0}, {"MIN_EIG", 1}, {"NORMALIZED_MIN_EIG", 2}, {"PLANE", 3}, {"FROBENIUS", 4}},
        accumulations{{"ADDITIVE", 0}, {"ADDITIVE_WEIGHTED", 1}, {"MULTIPLICATIVE", 2}}, searches{{"DIRECT27", 0}, {"DIRECT7", 1}, {"DIRECT1", 2}, {"DIRECT_RADIUS", 3}};
Values values(const std::string& method, pcl::Registration<PN, PN>& r) {
    Values v;
    base_values(v, r);
    if (method == "icp" || method == "gicp") {
        auto* p = dynamic_cast<pcl::IterativeClosestPoint<PN, PN>*>(&r);
        MC_CHECK(p, "method", method);
        v["icp/use_reciprocal_correspondences"] = p->getUseReciprocalCorrespondences();
    }
    if (auto* p = dynamic_cast<pcl::GeneralizedIterativeClosestPoint<PN, PN>*>(&r)) {
        MC_CHECK(method == "gicp", "method", method);
        v["gicp/rotation_epsilon"] = p->getRotationEpsilon();
        v["gicp/correspondence_randomness"] = p->getCorrespondenceRandomness();
        v["gicp/maximum_optimizer_iterations"] = p->getMaximumOptimizerIterations();
    } else MC_CHECK(method != "gicp", "method", method);
    if (method == "ndt") {
        auto* p = dynamic_cast<pcl::NormalDistributionsTransform<PN, PN>*>(&r);
        MC_CHECK(p, "method", method);
        v["ndt/resolution"] = p->getResolution();
        v["ndt/step_size"] = p->getStepSize();
        v["ndt/outlier_ratio"] = p->getOulierRatio();
    }
    if (method.find("fast") == 0) {
        auto* p = dynamic_cast<fast_gicp::FastGICP<PN, PN>*>(&r);
        MC_CHECK(p, "method", method);
        v["lsq/rotation_epsilon"] = p->rotation_epsilon;
        v["lsq/initial_lambda_factor"] = p->initial_lambda_factor;
        v["lsq/debug_print"] = p->debug_print;
        v["fast_gicp/num_threads"] = p->num_threads;
        v["fast_gicp/correspondence_randomness"] = p->correspondence_randomness;
        v["fast_gicp/regularization_method"] = static_cast<double>(p->regularization_method);
        MC_CHECK((dynamic_cast<fast_gicp::FastGICPSingleThread<PN, PN>*>(&r) != nullptr) == (method == "fast_gicp_st"), "method", method);
        auto* q = dynamic_cast<fast_gicp::FastVGICP<PN, PN>*>(&r);
        MC_CHECK((q != nullptr) == (method == "fast_vgicp"), "method", method);
        if (q) {
            v["fast_vgicp/resolution"] = q->resolution;
            v["fast_vgicp/voxel_accumulation_mode"] = static_cast<double>(q->voxel_accumulation_mode);
            v["fast_vgicp/neighbor_search_method"] = static_cast<double>(q->neighbor_search_method);
        }
    }
    return v;
}
// Sets a parameter to a value unlike any default; returns the value (strings: the enumeration's).
double set(const std::string& name, const std::string& prefix) {
    auto& bus = rosstub::Bus::get();
    const std::string p = "/serpent/" + prefix + name;
    auto one_of = [&](const std::vector<Enum>& e) { const Enum& x = mc::pick(e, "enumeration"); bus.param(p, x.name); return x.value; };
    if (name == "fast_gicp/regularization_method") return one_of(regularizations);
    if (name == "fast_vgicp/voxel_accumulation_mode") return one_of(accumulations);
    if (name == "fast_vgicp/neighbor_search_method") return one_of(searches);
    if (name == "icp/use_reciprocal_correspondences" || name == "lsq/debug_print") { const bool b = mc::flip("value"); bus.param(p, b); return b; }
    if (name == "base/maximum_iterations" || name == "base/ransac_iterations" || name == "gicp/correspondence_randomness" || name == "gicp/maximum_optimizer_iterations" ||
            name == "fast_gicp/num_threads" || name == "fast_gicp/correspondence_randomness") { bus.param(p, 7); return 7; }
    const double x = 0.015625 * (3 + name.size());
    bus.param(p, x);
    return x;
}
}
MC_FAMILY(parameters) {
    static const std::vector<std::string> methods{"icp", "gicp", "fast_gicp", "fast_gicp_st", "fast_vgicp", "ndt", "other", "default"};
    rosstub::Bus::reset();
    const std::string method = mc::pick(methods, "method"), prefix = mc::flip("prefix") ? "s2m/" : "s2s/", other = prefix == "s2m/" ? "s2s/" : "s2m/";
    ros::NodeHandle nh("serpent");
    if (method != "default") rosstub::Bus::get().param("/serpent/" + prefix + "method", method);
    mc::transition();
    if (method == "other") {
        MC_CHECK(mc::throws([&] { serpent::registration_method<PN, PN>(nh, prefix); }), "unknown_method", "accepted");
        mc::state(1);
        return;
    }
    const std::string m = method == "default" ? "fast_gicp" : method;
    const Values before = values(m, *serpent::registration_method<PN, PN>(nh, prefix));
    std::vector<std::string> names;
    for (auto& e : before) names.push_back(e.first);
    Values expected = before;
    const int n = static_cast<int>(names.size()), first = mc::choose(n + 2, "parameter");
    const bool elsewhere = mc::flip("for the other stage");
    auto put = [&](int k) {
        const double v = set(names[k], elsewhere ? other : prefix);
        if (!elsewhere && !(m == "fast_gicp_st" && names[k] == "fast_gicp/num_threads")) expected[names[k]] = v;
    };
    if (first < n) {
        put(first);
        const int second = first + 1 + mc::choose(n - first, "second parameter");
        if (second < n) put(second);
    } else if (first == n) for (int k = 0; k < n; ++k) put(k);
    else {
        static const std::vector<std::string> e{"fast_gicp/regularization_method", "fast_vgicp/voxel_accumulation_mode", "fast_vgicp/neighbor_search_method"};
        const std::string& name = mc::pick(e, "bad enumeration");
        rosstub::Bus::get().param("/serpent/" + prefix + name, "other");
        const bool refused = mc::throws([&] { serpent::registration_method<PN, PN>(nh, prefix); });
        MC_CHECK(refused == (before.count(name) > 0), "bad_enumeration", m << " with unknown " << name << (refused ? " refused" : " accepted"));
        mc::state(mc::Hash().add(m).add(name).h);
        return;
    }
    const Values after = values(m, *serpent::registration_method<PN, PN>(nh, prefix));
    for (auto& e : expected) MC_CHECK(mc::close(after.at(e.first), e.second, 1e-6), "parameter:" + e.first, m << " " << prefix << e.first << " is " << after.at(e.first) << " instead of " << e.second);
    if (m == "fast_gicp_st") MC_CHECK(after.at("fast_gicp/num_threads") == 1, "single_thread", after.at("fast_gicp/num_threads"));
    mc::Hash h;
    for (auto& e : after) h.add(e.second);
    mc::state(h.h);
    mc::nontrivial(h.h);
}

// P28: the programs. Which modules run, how they are connected, what they read from the configuration, and that the two halves
// together are the whole.
#include "pipeline.hpp"
#include <set>
#include <tbb/global_control.h>
#include "serpent/StereoFeatures.h"
#include "pointcloud_tools/point_types.hpp"
#include "p28_config.hpp"

int serpent_main(int, char**);
int frontend_main(int, char**);
int backend_main(int, char**);
int stereo_main(int, char**);

namespace {
using namespace scene_ns;
tbb::global_control sequential(tbb::global_control::max_allowed_parallelism, 1);
typedef int (*Main)(int, char**);
rosstub::Bus& bus() { return rosstub::Bus::get(); }
struct Quiet {
    std::streambuf *o = std::cout.rdbuf(nullptr), *e = std::cerr.rdbuf(nullptr);
    ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};
// Runs programs side by side on one bus; the body runs while all of them spin.
int run(std::vector<Main> programs, std::function<void()> body) {
    if (programs.empty()) { bus().on_wait = nullptr; body(); return 0; }
    const Main first = programs.front();
    programs.erase(programs.begin());
    int rest = 0;
    bool waited = false;
    bus().on_wait = [&] { waited = true; rest = run(programs, body); };
    Quiet q;
    char name[] = "serpent", *argv[] = {name, nullptr};
    const int rc = first(1, argv);
    MC_CHECK(waited, "ended_early", "a program ended without waiting for shutdown");
    return rc != 0 ? rc : rest;
}
struct Config {
    bool registration = true, stereo = true, barometer = true, imu = true, s2m = true;
    bool voxel = true, body = false, range = true, outlier = false, sample = false;
    int method = 1, point = 0, threads = 4;
    void set() const {
        Frames(true).install();
        auto p = [](const std::string& n, const XmlRpcValue& v) { bus().param("/serpent/" + n, v); };
        p("optimisation/factors/registration", registration);
        p("optimisation/factors/stereo", stereo);
        p("optimisation/factors/barometer", barometer);
        p("optimisation/factors/imu", imu);
        p("s2m/enabled", s2m);
        p("voxel_grid_filter/enabled", voxel);
        p("voxel_grid_filter/leaf_size", 0.5);
        p("body_filter/enabled", body);
        for (const char* a : {"x", "y", "z"}) {
            const double c = *a == 'x' ? 2.25 : *a == 'y' ? 3.25 : 1.25;   // around the grid point (2, 3)
            p(std::string("body_filter/min/") + a, c - 0.2);
            p(std::string("body_filter/max/") + a, c + 0.2);
        }
        p("range_filter/enabled", range);
        p("range_filter/min", 1.0);
        p("range_filter/max", 100);
        p("statistical_outlier_removal/enabled", outlier);
        p("statistical_outlier_removal/mean_k", 3);
        p("statistical_outlier_removal/stddev_mul_thresh", 4.0);
        p("random_sample_filter/enabled", sample);
        p("random_sample_filter/sample_size", 12);
        static const char* methods[] = {"CONSTANT", "CENSI", "LLS"};
        static const char* points[] = {"CONSTANT", "VOXEL_SIZE", "RANGE", "RANGE_BIAS"};
        p("registration_covariance/method", methods[method]);
        p("registration_covariance/point_covariance/method", points[point]);
        p("normal_estimation/k", 5);
        if (threads != 4) p("threads", threads);
    }
    bool filters() const { return voxel || body || range || outlier || sample; }
    bool unit() const { return method != 0 && point >= 2; }
};
Config choose(bool all) {
    Config c;
    const int factors = mc::choose(16, "factors");
    c.registration = !(factors & 1); c.stereo = !(factors & 2); c.barometer = !(factors & 4); c.imu = !(factors & 8);
    if (c.registration) {
        c.s2m = !mc::flip("scan to scan only");
        const int f = mc::choose(32, "filters");
        c.voxel = f & 1; c.range = f & 2; c.body = f & 4; c.outlier = f & 8; c.sample = f & 16;
        c.method = mc::choose(3, "covariance");
        c.point = mc::choose(4, "point covariance");
        if ((c.method != 0 && c.point == 1 && !c.voxel) || (c.method == 2 && c.point >= 2)) mc::prune();   // refused: the voxel size needs voxels, LLS knows no range noise
        if (!all && !c.registration) c.point = 0;
    }
    return c;
}
// Topics as a node graph.
typedef std::multiset<std::string> Names;
Names subscriptions() { Names n; for (auto& s : bus().subs) n.insert(s->topic + " " + s->type.name()); return n; }
Names publications() { Names n; for (auto& a : bus().advertisements) n.insert(a + " " + bus().advertised.at(a).name()); return n; }
Names services() { Names n; for (auto& s : bus().services) n.insert(s.first); return n; }
Names transforms() { Names n; for (auto& p : bus().log) if (p.topic == "/tf_static") { auto t = p.msg.get<geometry_msgs::TransformStamped>(); n.insert(t->header.frame_id + ">" + t->child_frame_id); } return n; }
std::string diff_names(const Names& a, const Names& b) {
    std::string s;
    for (auto& x : std::set<std::string>(a.begin(), a.end())) if (a.count(x) != b.count(x)) s += " " + x + " (" + std::to_string(a.count(x)) + "/" + std::to_string(b.count(x)) + ")";
    for (auto& x : std::set<std::string>(b.begin(), b.end())) if (!a.count(x)) s += " " + x + " (0/" + std::to_string(b.count(x)) + ")";
    return s;
}
bool same_type(std::type_index published, std::type_index subscribed) {
    if (published == subscribed) return true;
    // A cloud without declared point type carries whatever fields its producer gives it.
    const std::type_index raw = typeid(pcl::PCLPointCloud2);
    auto is_cloud = [&](std::type_index t) { return t == raw || std::string(t.name()).find("PointCloud") != std::string::npos; };
    return is_cloud(published) && is_cloud(subscribed) && (published == raw || subscribed == raw) && published != std::type_index(typeid(sensor_msgs::PointCloud2)) && subscribed != std::type_index(typeid(sensor_msgs::PointCloud2));
}
std::size_t count_topic(const std::string& t) { std::size_t n = 0; for (auto& s : bus().subs) n += s->topic == t; return n; }
void check_graph(const Config& c) {
    const std::string in = "/serpent/input/";
    std::map<std::string, std::size_t> inputs;
    for (auto& s : bus().subs) {
        MC_CHECK(s->topic.rfind("/serpent/", 0) == 0, "foreign_topic:" + s->topic, s->topic);
        if (s->topic.rfind(in, 0) == 0) { ++inputs[s->topic.substr(in.size())]; continue; }
        const std::size_t n = std::count(bus().advertisements.begin(), bus().advertisements.end(), s->topic);
        MC_CHECK(n == 1, "producers:" + s->topic, s->topic << " is read but has " << n << " producers");
        MC_CHECK(same_type(bus().advertised.at(s->topic), s->type), "type:" + s->topic, s->topic);
    }
    std::map<std::string, std::size_t> want{{"imu", 1}, {"pointcloud", 1}};
    if (c.stereo) for (const char* t : {"stereo/left/image", "stereo/right/image", "stereo/left/camera_info", "stereo/right/camera_info"}) want[t] = 1;
    if (c.barometer) want["barometer"] = 1;
    MC_CHECK(inputs == want, "inputs", inputs.size() << " inputs instead of " << want.size());
    // Consumers of what the modules hand to each other
    auto reads = [&](const char* t, std::size_t n) { MC_CHECK(count_topic(std::string("/serpent/") + t) == n, std::string("readers:") + t, t << " is read by " << count_topic(std::string("/serpent/") + t) << " instead of " << n); };
    const std::size_t r = c.registration, s = c.stereo;
    reads("formatter/formatted_pointcloud", 1);
    reads("frontend/imu_s2s", 1);
    reads("frontend/initial_odometry", 1);
    reads("frontend/barometer", c.barometer);
    reads("optimisation/odometry", 1);
    reads("optimisation/imu_biases", 1);
    reads("optimisation/imu_transform", r);
    reads("optimisation/path_changes", r);
    reads("normal_estimation/pointcloud", 2 * r);
    reads("registration/transform", r);
    reads("mapping/local_map", c.s2m ? r : count_topic("/serpent/mapping/local_map"));
    reads("frontend/deskewed_pointcloud", r);
    reads("stereo/left/image", s); reads("stereo/right/image", s); reads("stereo/left/camera_info", s); reads("stereo/right/camera_info", s);
    reads("stereo/features", s);
    auto writes = [&](const char* t, bool yes) { MC_CHECK((std::count(bus().advertisements.begin(), bus().advertisements.end(), std::string("/serpent/") + t) == 1) == yes, std::string("output:") + t, t << (yes ? " is missing" : " should not exist")); };
    for (const char* t : {"output/odometry", "output/pose", "output/path"}) writes(t, true);
    for (const char* t : {"output/global_map", "output/pose_graph", "mapping/local_map", "registration/transform", "normal_estimation/pointcloud"}) writes(t, c.registration);
    for (const char* t : {"publish_map", "publish_pose_graph"}) MC_CHECK(bus().services.count(std::string("/serpent/") + t) == r, std::string("service:") + t, t);
    writes("stereo/features", c.stereo);
    MC_CHECK(transforms() == (Names{"base>imu_id", "base>lidar_id", "base>stereo_id"}), "static_transforms", diff_names(transforms(), Names{"base>imu_id", "base>lidar_id", "base>stereo_id"}));
}
// A cloud in which every filter removes something of its own.
void check_chain(const Config& c) {
    struct P { float x, y, z, range, t; };
    std::vector<P> pts;
    auto at = [](int i, int j) { return P{i + 0.25f, j + 0.25f, 1.25f, 10, 0.01f * i}; };
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) pts.push_back(at(i, j));
    pts[1 * 6 + 1].range = 500;              // too far
    pts.push_back(at(4, 4));                 // a second point in the same voxel
    pts.back().x += 0.05f;
    pts.push_back(P{0.25f, 0.25f, 30.25f, 40, 0});   // far from all others
    auto m = std::make_shared<pcl::PCLPointCloud2>();
    m->header.stamp = base_ns / 1000;
    m->header.frame_id = "lidar_id";
    const char* names[] = {"x", "y", "z", "range", "t"};
    for (int k = 0; k < 5; ++k) { pcl::PCLPointField f; f.name = names[k]; f.offset = 4 * k; f.datatype = pcl::PCLPointField::FLOAT32; f.count = 1; m->fields.push_back(f); }
    m->point_step = sizeof(P); m->width = pts.size(); m->height = 1; m->row_step = m->width * m->point_step; m->is_dense = 1; m->is_bigendian = 0;
    m->data.resize(m->row_step);
    std::memcpy(m->data.data(), pts.data(), m->row_step);
    bus().inject<pcl::PCLPointCloud2>("/serpent/frontend/deskewed_pointcloud", m);
    bus().spin_all();
    auto out = bus().published<pcl::PCLPointCloud2>("/serpent/normal_estimation/pointcloud");
    MC_CHECK(out.size() == 1, "chain_output", out.size() << " clouds with normals");
    auto& o = *out[0];
    MC_CHECK(o.header.stamp == m->header.stamp && o.header.frame_id == "lidar_id", "chain_header", o.header.frame_id);
    std::map<std::string, int> offset;
    for (auto& f : o.fields) offset[f.name] = f.offset;
    for (const char* n : {"x", "y", "z", "normal_x", "normal_y", "normal_z"}) MC_CHECK(offset.count(n), "chain_fields", n);
    MC_CHECK((offset.count("ux") && offset.count("uy") && offset.count("uz")) == c.unit(), "chain_unit_vectors", (c.unit() ? "no unit vectors" : "unit vectors"));
    std::vector<std::array<float, 3>> got, want;
    for (std::size_t i = 0; i < o.width * o.height; ++i) {
        std::array<float, 3> p, u;
        int k = 0;
        for (const char* n : {"x", "y", "z"}) std::memcpy(&p[k++], &o.data[i * o.point_step + offset[n]], 4);
        got.push_back(p);
        if (!c.unit()) continue;
        k = 0;
        for (const char* n : {"ux", "uy", "uz"}) std::memcpy(&u[k++], &o.data[i * o.point_step + offset[n]], 4);
        const float r = std::sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]);
        for (k = 0; k < 3; ++k) MC_CHECK(std::fabs(u[k] - p[k] / r) < 1e-5, "chain_unit_value", i);
    }
    for (std::size_t i = 0; i < pts.size(); ++i) {
        if (c.voxel && i == 36) continue;
        if (c.body && i == 2 * 6 + 3) continue;
        if (c.range && i == 1 * 6 + 1) continue;
        if (c.outlier && i == 37) continue;
        std::array<float, 3> p{pts[i].x, pts[i].y, pts[i].z};
        if (c.voxel && i == 4 * 6 + 4) p[0] += 0.025f;   // centroid of the two
        want.push_back(p);
    }
    auto near = [](const std::array<float, 3>& a, const std::array<float, 3>& b) { return std::fabs(a[0] - b[0]) + std::fabs(a[1] - b[1]) + std::fabs(a[2] - b[2]) < 1e-4; };
    MC_CHECK(got.size() == (c.sample ? 12 : want.size()), "chain_size", got.size() << " points instead of " << (c.sample ? 12 : want.size()));
    for (auto& g : got) MC_CHECK(std::any_of(want.begin(), want.end(), [&](auto& w) { return near(g, w); }), "chain_points", g[0] << " " << g[1] << " " << g[2] << " should have been removed");
    if (!c.sample) for (auto& w : want) MC_CHECK(std::any_of(got.begin(), got.end(), [&](auto& g) { return near(g, w); }), "chain_points", w[0] << " " << w[1] << " " << w[2] << " is missing");
}
}

// Every configuration of the whole program, and of its two halves started in either order.
MC_FAMILY(graph) {
    const Config c = choose(mc::thorough());
    rosstub::Bus::reset();
    c.set();
    Names subs, pubs, servs;
    const int rc = run({serpent_main}, [&] {
        check_graph(c);
        MC_CHECK(bus().spinners.size() == 1 && bus().spinners[0] == std::make_pair(c.threads, true), "spinning", bus().spinners.size() << " spinners");
        subs = subscriptions(); pubs = publications(); servs = services();
        if (c.registration) check_chain(c);
    });
    MC_CHECK(rc == 0, "exit_code", rc);
    mc::transition();
    const bool backend_first = mc::flip("back end first");
    rosstub::Bus::reset();
    c.set();
    const int rc2 = run(backend_first ? std::vector<Main>{backend_main, frontend_main} : std::vector<Main>{frontend_main, backend_main}, [&] {
        check_graph(c);
        const Names s = subscriptions(), p = publications(), v = services();
        MC_CHECK(s == subs, "halves_subscriptions", diff_names(subs, s));
        MC_CHECK(p == pubs, "halves_publications", diff_names(pubs, p));
        MC_CHECK(v == servs, "halves_services", diff_names(servs, v));
        MC_CHECK(bus().spinners.size() == 2 && bus().spinners[0] == std::make_pair(c.threads, true) && bus().spinners[1] == bus().spinners[0], "spinning", bus().spinners.size() << " spinners");
        if (c.registration) check_chain(c);
    });
    MC_CHECK(rc2 == 0, "exit_code", rc2);
    mc::transition();
    mc::Hash h;
    for (auto& s : subs) h.add(s);
    for (auto& s : pubs) h.add(s);
    mc::state(h.h);
    mc::nontrivial(h.add(backend_first).h);
}
// The thread count, for every program.
// Settings that are left out: the programs agree on what that means.
MC_FAMILY(unset) {
    static const std::vector<std::string> names{"optimisation/factors/registration", "optimisation/factors/stereo", "optimisation/factors/barometer", "optimisation/factors/imu", "s2m/enabled", "voxel_grid_filter/enabled",
            "body_filter/enabled", "range_filter/enabled", "statistical_outlier_removal/enabled", "random_sample_filter/enabled", "registration_covariance/method", "registration_covariance/point_covariance/method", "threads"};
    Config c;
    c.stereo = !mc::flip("stereo"); c.barometer = !mc::flip("barometer"); c.imu = !mc::flip("imu"); c.s2m = !mc::flip("scan to scan only");
    c.registration = !mc::flip("registration");
    c.point = mc::flip("range noise") ? 2 : 0;
    c.outlier = mc::flip("outlier filter");
    c.threads = 2;
    const int a = mc::choose(static_cast<int>(names.size()), "unset"), b = mc::choose(static_cast<int>(names.size()) - a, "unset") + a;
    auto set = [&] {
        rosstub::Bus::reset();
        c.set();
        bus().params.erase("/serpent/" + names[a]);
        bus().params.erase("/serpent/" + names[b]);
    };
    set();
    Names subs, pubs, servs;
    std::vector<std::pair<int, bool>> spinners;
    bool flows = false;
    auto carried = [&] {
        bool unit = false;
        for (auto& x : bus().advertised) unit = unit || std::string(x.second.name()).find("Unit") != std::string::npos;
        return unit;
    };
    MC_CHECK(run({serpent_main}, [&] { subs = subscriptions(); pubs = publications(); servs = services(); spinners = bus().spinners; flows = carried(); }) == 0, "exit_code", "");
    mc::transition();
    set();
    MC_CHECK(run({frontend_main, backend_main}, [&] {
        const Names s = subscriptions(), p = publications(), v = services();
        MC_CHECK(s == subs, "unset_subscriptions", diff_names(subs, s));
        MC_CHECK(p == pubs, "unset_publications", diff_names(pubs, p));
        MC_CHECK(v == servs, "unset_services", diff_names(servs, v));
        MC_CHECK(spinners.size() == 1 && bus().spinners.size() == 2 && bus().spinners[0] == spinners[0] && bus().spinners[1] == spinners[0], "unset_threads", bus().spinners.size() << " spinners");
        MC_CHECK(carried() == flows, "unset_unit_vectors", "");
    }) == 0, "exit_code", "");
    mc::transition();
    mc::Hash h;
    for (auto& x : subs) h.add(x);
    mc::state(h.h);
    mc::nontrivial(h.add(a).add(b).h);
}
MC_FAMILY(threads) {
    static const Main mains[] = {serpent_main, frontend_main, backend_main, stereo_main};
    static const int counts[] = {4, 1, 2, 3, 5, 16, 0, -1, -2147483647};
    const int which = mc::choose(4, "program"), k = mc::choose(9, "threads"), kind = mc::choose(2, "features");
    Config c;
    c.threads = counts[k];
    c.registration = kind == 0;
    rosstub::Bus::reset();
    c.set();
    bool spun = false;
    const bool threw = mc::throws([&] {
        const int rc = run({mains[which]}, [&] {
            spun = true;
            MC_CHECK(bus().spinners.size() == 1 && bus().spinners[0] == std::make_pair(c.threads, true), "threads", bus().spinners.size() << " spinners, " << bus().spinners[0].first << " threads instead of " << c.threads);
            if (which == 3) {
                MC_CHECK(subscriptions().size() == 4 && count_topic("/serpent/stereo/left/image") == 1 && count_topic("/serpent/stereo/right/image") == 1 && count_topic("/serpent/stereo/left/camera_info") == 1 && count_topic("/serpent/stereo/right/camera_info") == 1, "stereo_program_inputs", subscriptions().size());
                MC_CHECK(std::count(bus().advertisements.begin(), bus().advertisements.end(), "/serpent/stereo/features") == 1, "stereo_program_output", "");
                MC_CHECK(transforms().size() == 3, "static_transforms", transforms().size());
            }
        });
        MC_CHECK(rc == 0, "exit_code", rc);
    });
    MC_CHECK(threw == (c.threads < 1) && spun == !threw, "thread_count_refused", c.threads << (threw ? " refused" : " accepted"));
    mc::transition();
    mc::nontrivial(mc::Hash().add(which).add(k).add(kind).h);
}
// The shipped configuration: every setting in it is read by the programs (with a usable type) in some configuration.
namespace {
struct Option { std::string name, value; };
// Settings whose value selects which other settings apply, with all documented values; refused: are unknown values refused?
struct Selector { std::string name; std::vector<std::string> values; bool refused; };
const std::vector<Selector>& selectors() {
    static const std::vector<std::string> methods{"icp", "gicp", "fast_gicp", "fast_gicp_st", "fast_vgicp", "ndt"};
    static const std::vector<Selector> s{
        {"pointcloud_type", {"OUSTER", "CUSTOM"}, true},
        {"normal_estimation/method", {"knn", "radius"}, true},
        {"isam2/optimization", {"GaussNewton", "Dogleg"}, true},
        {"isam2/factorization", {"CHOLESKY", "QR"}, false},
        {"registration_covariance/method", {"CONSTANT", "CENSI", "LLS"}, true},
        {"registration_covariance/model", {"POINT_TO_POINT_LINEARISED", "POINT_TO_POINT_NONLINEAR", "POINT_TO_PLANE_LINEARISED", "POINT_TO_PLANE_NONLINEAR"}, true},
        {"registration_covariance/point_covariance/method", {"CONSTANT", "VOXEL_SIZE", "RANGE", "RANGE_BIAS"}, true},
        {"s2s/method", methods, true},
        {"s2s/fast_gicp/regularization_method", {"NONE", "MIN_EIG", "NORMALIZED_MIN_EIG", "PLANE", "FROBENIUS"}, true},
        {"s2m/method", methods, true},
        {"s2m/fast_gicp/regularization_method", {"NONE", "MIN_EIG", "NORMALIZED_MIN_EIG", "PLANE", "FROBENIUS"}, true},
        {"mapping/frame_extraction_method", {"NEARBY", "PAST"}, true},
        {"stereo_factors/robust/type", {"cauchy", "dcs", "fair", "geman_mcclure", "huber", "l2_with_dead_zone", "null", "tukey", "welsch"}, true},
        {"stereo_tracking/detector/type", {"FAST", "GFTT", "ORB", "SIFT"}, true},
        {"stereo_tracking/sparse_optical_flow/type", {"PyrLK"}, true},
        {"stereo_tracking/sparse_optical_flow/pyrlk/term_criteria/type", {"COUNT", "EPS", "COUNT+EPS"}, true},
        {"stereo_tracking/stereo_keypoint_matcher/cost_function", {"SAD", "SSD", "ZMSAD", "LSSAD", "NNCC"}, true},
        {"stereo_tracking/stereo_keypoint_matcher/matching_filter", {"UNIDIRECTIONAL", "BIDIRECTIONAL", "RATIO_TEST"}, true},
    };
    return s;
}
void shipped() {
    rosstub::Bus::reset();
    for (auto& s : p28::settings()) bus().param("/serpent/" + s.first, s.second);
    bus().param("/serpent/body_frames", p28::body_frames());
}
// Switch on everything that is optional.
void all_on() {
    for (auto& s : p28::settings()) {
        if (s.second.getType() != XmlRpcValue::TypeBoolean) continue;
        const std::string& n = s.first;
        if (n.rfind("/enabled") == n.size() - 8 || n.rfind("debug/", 0) == 0 || n.find("overwrite") != std::string::npos) bus().param("/serpent/" + n, true);
    }
}
// One step: an input of every kind, so that settings read on first use are read as well.
void first_inputs() {
    auto imu = [](ns_t t) { bus().inject<sensor_msgs::Imu>("/serpent/input/imu", imu_msg(imu_sample(t, 0))); };
    rosstub::on_sleep = [](double) { bus().shutdown = true; };   // nothing else will arrive
    for (int k = 0; k < 30; ++k) imu(base_ns + k * 10000000ULL);
    bus().spin_all();
    auto info = [](bool right) {
        auto i = boost::make_shared<sensor_msgs::CameraInfo>();
        i->header.stamp = stamp(base_ns + 20000000);
        i->width = i->height = 64;
        const double f = 50;
        i->K = {f, 0, 32, 0, f, 32, 0, 0, 1};
        i->R = {1, 0, 0, 0, 1, 0, 0, 0, 1};
        i->P = {f, 0, 32, right ? -5.0 : 0.0, 0, f, 32, 0, 0, 0, 1, 0};
        return i;
    };
    for (const char* side : {"left", "right"}) {
        auto m = boost::make_shared<sensor_msgs::Image>();
        m->header.stamp = stamp(base_ns + 20000000);
        m->width = m->height = m->step = 64;
        m->encoding = "mono8";
        m->data.resize(64 * 64);
        for (int i = 0; i < 64 * 64; ++i) m->data[i] = static_cast<unsigned char>((i / 64 / 8 + i % 64 / 8) % 2 * 200);
        bus().inject<sensor_msgs::Image>(std::string("/serpent/stereo/") + side + "/image", m);
        bus().inject<sensor_msgs::CameraInfo>(std::string("/serpent/stereo/") + side + "/camera_info", info(side[0] == 'r'));
    }
    bus().spin_all();
    // two clouds without stereo: the initial state
    bus().shutdown = false;
    for (int k = 0; k < 2; ++k) {
        bus().inject<pcl::PCLPointCloud2>("/serpent/formatter/formatted_pointcloud", cloud_msg(base_ns + 10000000 + k * 100000000ULL, {Point{1, 2, 3, 0}, Point{2, 3, 4, 0.05f}}, true, k));
        bus().spin_all();
    }
    auto b = boost::make_shared<sensor_msgs::FluidPressure>();
    b->header.stamp = stamp(base_ns + 10000000);
    b->fluid_pressure = 101325;
    b->variance = 1;
    bus().inject<sensor_msgs::FluidPressure>("/serpent/frontend/barometer", b);
    bus().shutdown = false;
    bus().spin_all();
}
}
MC_FAMILY(settings) {
    const auto& all = p28::settings();
    const int which = mc::choose(static_cast<int>(all.size()), "setting");
    const std::string name = all[which].first;
    mc::where(name.c_str());
    // Documented not to apply: needs a later PCL; read (and files written) only when the solver fails
    if (name.find("gicp/translation_gradient_tolerance") != std::string::npos || name.find("gicp/rotation_gradient_tolerance") != std::string::npos || name.find("on_crash/") != std::string::npos) mc::prune();
    bool read = false;
    std::size_t tried = 0;
    // the shipped configuration as it is; everything switched on; then with every value of every selector
    auto attempt = [&](bool on, bool no_stereo, const Selector* s, const std::string& v) {
        if (read) return;
        shipped();
        if (on) { all_on(); bus().param("/serpent/stereo_tracking/only_graph_frames", false); }
        if (s) bus().param("/serpent/" + s->name, v.c_str());
        if (no_stereo) bus().param("/serpent/optimisation/factors/stereo", false);
        run({serpent_main}, [&] {
            // settings that are only needed with data
            if (on && bus().reads.count("/serpent/" + name) == 0) first_inputs();
        });
        ++tried;
        mc::transition();
        auto it = bus().reads.find("/serpent/" + name);
        read = it != bus().reads.end() && it->second;
    };
    attempt(false, false, nullptr, "");
    attempt(true, false, nullptr, "");
    attempt(true, true, nullptr, "");
    for (auto& s : selectors()) for (auto& v : s.values) attempt(true, false, &s, v);
    MC_CHECK(read, "ignored:" + name, "the setting " << name << " of the shipped configuration is never read");
    mc::nontrivial(mc::Hash().add(name).h);
    mc::state(mc::Hash().add(tried).h);
}
// Every documented value of a selecting setting is accepted, unknown ones are refused.
MC_FAMILY(selectors) {
    const auto& all = selectors();
    const Selector& s = all[mc::choose(static_cast<int>(all.size()), "selector")];
    const int k = mc::choose(static_cast<int>(s.values.size()) + 2, "value");
    const bool known = k < static_cast<int>(s.values.size()), split = mc::flip("halves");
    if (!known && !s.refused) mc::prune();
    shipped();
    // what the value only matters for is selected
    if (s.name.find("term_criteria") != std::string::npos) bus().param("/serpent/stereo_tracking/sparse_optical_flow/type", "PyrLK");
    const std::string v = known ? s.values[k] : k == static_cast<int>(s.values.size()) ? "unknown" : "";
    bus().param("/serpent/" + s.name, v.c_str());
    mc::where((s.name + "=" + v).c_str());
    bool spun = false;
    const bool threw = mc::throws([&] { run(split ? std::vector<Main>{frontend_main, backend_main} : std::vector<Main>{serpent_main}, [&] { spun = true; }); });
    mc::transition();
    MC_CHECK(threw == !known && spun == known, "selector:" + s.name, "'" << v << "' is " << (threw ? "refused" : "accepted"));
    mc::nontrivial(mc::Hash().add(s.name).add(k).add(split).h);
}
// Names used by the launch files are names of the programs.
MC_FAMILY(launch) {
    const auto& all = p28::remaps();
    const int which = mc::choose(static_cast<int>(all.size()), "launch file");
    const auto& l = all[which];
    static const std::map<std::string, Main> programs{{"serpent_node", serpent_main}, {"serpent_frontend_node", frontend_main}, {"serpent_backend_node", backend_main}, {"stereo_pipeline_node", stereo_main}};
    MC_CHECK(programs.count(l.program), "launch_program", l.program);
    Config c;
    rosstub::Bus::reset();
    c.set();
    run({programs.at(l.program)}, [&] {
        for (auto& r : l.from) MC_CHECK(count_topic("/" + r) == 1, "launch_remap:" + r, l.file << " remaps " << r << ", which nothing reads");
        for (auto& s : bus().subs) if (s->topic.rfind("/serpent/input/", 0) == 0) MC_CHECK(std::count(l.from.begin(), l.from.end(), s->topic.substr(1)) == 1, "launch_input:" + s->topic, l.file << " does not set " << s->topic);
    });
    mc::transition();
    mc::nontrivial(mc::Hash().add(which).h);
}

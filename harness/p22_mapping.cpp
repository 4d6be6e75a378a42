// P22: the map. After every update the local map is the union of the selected keyclouds, moved by the latest corrected poses
// into the frame of the current cloud; the global map and the pose graph hold every keycloud at its latest pose.
#include "pipeline.hpp"
#include <pcl/PCLPointCloud2.h>
#include <pcl/search/impl/search.hpp>
#include <pcl/kdtree/kdtree_flann.h>
#include "serpent/PoseGraph.h"
#include "serpent/mapping/mapping.hpp"

namespace {
using namespace scene_ns;
using ref::V3;
using ref::v3;
typedef std::array<double, 7> Row;   // position, normal, curvature

struct Config {
    bool past = false, voxel_local = false, voxel_global = false, base_link = false, unit = false;
    int n = 2, min_points = 1;
    int arrival = 0;
};
const double distance_threshold = 1.0, rotation_threshold = 0.5, leaf = 0.5;

struct CloudPoint { V3 p, n; };
struct Key { int state; };

template<class PointT>
struct Run {
    Config c;
    Frames frames;
    std::unique_ptr<serpent::Mapping<PointT>> node;
    std::vector<ref::Pose> est;                       // latest body poses
    std::vector<ref::Pose> known;                     // poses the map has been told
    std::vector<std::vector<CloudPoint>> clouds;
    std::vector<int> keys;
    bool unclear = false;

    ns_t time(int k) const { return base_ns + k * 100000000ULL + 7000; }
    explicit Run(const Config& c) : c(c), frames(c.base_link) {
        rosstub::Bus::reset();
        auto& bus = rosstub::Bus::get();
        frames.install();
        bus.param("/serpent/map_frame_id", "world");
        bus.param("/serpent/mapping/distance_threshold", distance_threshold);
        bus.param("/serpent/mapping/rotation_threshold", rotation_threshold);
        bus.param("/serpent/mapping/frame_extraction_number", c.n);
        bus.param("/serpent/mapping/frame_extraction_method", c.past ? "PAST" : "NEARBY");
        bus.param("/serpent/mapping/voxel_grid_filter/enabled_local", c.voxel_local);
        bus.param("/serpent/mapping/voxel_grid_filter/enabled_global", c.voxel_global);
        bus.param("/serpent/mapping/voxel_grid_filter/leaf_size", leaf);
        bus.param("/serpent/mapping/voxel_grid_filter/minimum_points_number_per_voxel", c.min_points);
        node = std::make_unique<serpent::Mapping<PointT>>();
    }
    // ---- messages ----
    std::vector<CloudPoint> make_cloud(int k) const {
        std::vector<CloudPoint> v;
        const V3 offsets[] = {v3(3.1L, 0.2L, -0.4L), v3(-1.3L, 2.7L, 0.6L), v3(0.35L, -2.2L, 1.9L)};
        for (int i = 0; i < 3; ++i) {
            const V3 n = v3(0.6L - 0.2L * i, 0.3L * k - 0.5L, 0.8L);
            CloudPoint p;
            p.p = offsets[i] + v3(0.37L * k, -0.21L * k, 0.11L * k * i);
            p.n = n * (1 / n.norm());
            v.push_back(p);
            if (i == 0) { p.p = p.p + v3(0.013L, 0.008L, -0.011L); v.push_back(p); }   // shares a voxel with the first point
        }
        return v;
    }
    void send_cloud(int k) {
        auto m = std::make_shared<pcl::PointCloud<PointT>>();
        m->header.stamp = time(k) / 1000;
        m->header.frame_id = "lidar_id";
        for (auto& q : clouds[k]) {
            PointT p;
            p.x = q.p(0, 0); p.y = q.p(1, 0); p.z = q.p(2, 0);
            p.normal_x = q.n(0, 0); p.normal_y = q.n(1, 0); p.normal_z = q.n(2, 0);
            p.curvature = 0.125f * k;
            if constexpr (std::is_same_v<PointT, PointNormalUnit>) {
                const V3 u = q.p * (1 / q.p.norm());
                p.ux = u(0, 0); p.uy = u(1, 0); p.uz = u(2, 0);
            }
            m->push_back(p);
        }
        rosstub::Bus::get().inject<pcl::PointCloud<PointT>>("/serpent/normal_estimation/pointcloud", m);
    }
    void fill(geometry_msgs::Pose& m, const ref::Pose& p) const {
        const Eigen::Quaterniond q(ref::eig<double>(p).rotation());
        m.orientation.w = q.w(); m.orientation.x = q.x(); m.orientation.y = q.y(); m.orientation.z = q.z();
        m.position.x = p.t(0, 0); m.position.y = p.t(1, 0); m.position.z = p.t(2, 0);
    }
    boost::shared_ptr<nav_msgs::Path> path(int k, const std::vector<bool>& include) const {
        auto m = boost::make_shared<nav_msgs::Path>();
        m->header.stamp = stamp(time(k));
        m->header.frame_id = "world";
        for (int i = 0; i <= k; ++i) {
            if (i < k && !include[i]) continue;
            geometry_msgs::PoseStamped p;
            p.header.stamp = stamp(time(i));
            p.header.frame_id = "body_" + std::to_string(i);
            fill(p.pose, est[i]);
            m->poses.push_back(p);
        }
        return m;
    }
    // ---- reference ----
    ref::Pose lidar(const ref::Pose& body) const { return body * frames.pose("lidar"); }
    static double angle(const ref::Pose& a, const ref::Pose& b) {
        const ref::M3 r = a.R.T() * b.R;
        const double s = 0.5 * std::sqrt(std::pow((double) (r(2, 1) - r(1, 2)), 2) + std::pow((double) (r(0, 2) - r(2, 0)), 2) + std::pow((double) (r(1, 0) - r(0, 1)), 2));
        return std::atan2(s, 0.5 * (double) (r(0, 0) + r(1, 1) + r(2, 2) - 1));
    }
    static bool near(double a, double b) { return std::fabs(a - b) < 1e-3; }
    // Rows of the keyclouds in the frame whose pose is given.
    std::vector<Row> rows(const std::vector<int>& which, const ref::Pose& target) const {
        std::vector<Row> v;
        const ref::Pose inv = ref::inv(target);
        for (int k : which) {
            const ref::Pose T = inv * lidar(known[k]);
            for (auto& q : clouds[k]) {
                const V3 p = ref::apply(T, q.p), n = T.R * q.n;
                v.push_back(Row{(double) p(0, 0), (double) p(1, 0), (double) p(2, 0), (double) n(0, 0), (double) n(1, 0), (double) n(2, 0), 0.125 * k});
            }
        }
        return v;
    }
    // Voxel grid: the centroids of the cells with enough points. False if a point is too near to a cell's border.
    bool voxels(std::vector<Row>& v) const {
        std::map<std::array<long, 3>, std::vector<Row>> cells;
        for (auto& r : v) {
            std::array<long, 3> c;
            for (int i = 0; i < 3; ++i) {
                const double x = r[i] / leaf;
                if (std::fabs(x - std::round(x)) < 1e-4) return false;
                c[i] = static_cast<long>(std::floor(x));
            }
            cells[c].push_back(r);
        }
        v.clear();
        for (auto& e : cells) {
            if (static_cast<int>(e.second.size()) < c.min_points) continue;
            Row s{};
            for (auto& r : e.second) for (int i = 0; i < 7; ++i) s[i] += r[i] / e.second.size();
            const double n = std::sqrt(s[3] * s[3] + s[4] * s[4] + s[5] * s[5]);
            for (int i = 3; i < 6; ++i) s[i] /= n;
            v.push_back(s);
        }
        return true;
    }
    static std::vector<Row> rows(const pcl::PointCloud<PointT>& m) {
        std::vector<Row> v;
        for (auto& p : m) v.push_back(Row{p.x, p.y, p.z, p.normal_x, p.normal_y, p.normal_z, p.curvature});
        return v;
    }
    static bool same(std::vector<Row> a, std::vector<Row> b) {
        if (a.size() != b.size()) return false;
        for (auto& r : a) {
            auto it = std::find_if(b.begin(), b.end(), [&](const Row& o) { for (int i = 0; i < 7; ++i) if (!(std::fabs(o[i] - r[i]) < 2e-4)) return false; return true; });
            if (it == b.end()) return false;
            b.erase(it);
        }
        return true;
    }
    // The map learns the poses of the path, then may add the cloud.
    std::vector<int> update(int k, const std::vector<bool>& include) {
        known.resize(k + 1);
        for (int i = 0; i <= k; ++i) if (i == k || include[i]) known[i] = est_at[k][i];
        const ref::Pose now = lidar(known[k]);
        if (!keys.empty()) {
            const ref::Pose last = lidar(known[keys.back()]);
            const double d = (now.t - last.t).norm(), a = angle(last, now);
            if (near(d, distance_threshold) || near(a, rotation_threshold)) mc::prune();
            if (d > distance_threshold || a > rotation_threshold) keys.push_back(k);
        } else keys.push_back(k);
        std::vector<int> sel(keys.rbegin(), keys.rend());
        if (!c.past) std::stable_sort(sel.begin(), sel.end(), [&](int a, int b) { return (lidar(known[a]).t - now.t).norm() < (lidar(known[b]).t - now.t).norm(); });
        if (static_cast<int>(sel.size()) > c.n) {
            if (!c.past && near((lidar(known[sel[c.n - 1]]).t - now.t).norm(), (lidar(known[sel[c.n]]).t - now.t).norm())) unclear = true;
            sel.resize(c.n);
        }
        return sel;
    }
    std::vector<std::vector<ref::Pose>> est_at;      // estimates when state k was published
    std::vector<std::vector<bool>> included;
    void step(int k) {
        static const char* motions[] = {"stay", "forward 1.3 m", "back 2.1 m", "turn", "forward 0.8 m"};
        ref::Pose m;
        if (k == 0) { m.R = ref::expm(v3(0.2L, -0.1L, 0.7L)); m.t = v3(4, -3, 1); est.push_back(m); }
        else {
            const int i = mc::choose(5, "motion");
            (void) motions;
            m.R = ref::expm(v3(0.01L, -0.02L, 0.013L));
            switch (i) {
            case 0: m.t = v3(0.02L, 0.01L, -0.03L); break;
            case 1: m.t = v3(1.3L, 0.07L, -0.05L); break;
            case 2: m.t = v3(-2.1L, 0.13L, 0.02L); break;
            case 3: m.R = ref::expm(v3(0.05L, 0.1L, 0.8L)); m.t = v3(0.09L, 0, 0); break;
            case 4: m.t = v3(0.8L, -0.06L, 0.03L); break;
            }
            est.push_back(est.back() * m);
        }
        std::vector<bool> include(k, true);
        if (k > 0) {
            switch (mc::choose(k > 1 ? 4 : 3, "correction")) {
            case 0: break;                                    // the path repeats the earlier poses
            case 1: include.assign(k, false); break;          // only the new pose is reported
            case 2:                                           // all earlier poses change
                for (int i = 0; i < k; ++i) { ref::Pose d; d.R = ref::expm(v3(0, 0.02L * i, -0.03L)); d.t = v3(0.45L, -0.2L, 0.1L * (i + 1)); est[i] = est[i] * d; }
                break;
            case 3: {                                         // only one earlier pose changes, and only it is reported
                include.assign(k, false);
                const int i = mc::choose(k, "changed pose");
                ref::Pose d; d.R = ref::expm(v3(0.1L, 0, 0.7L)); d.t = v3(-0.9L, 0.6L, 0.2L);
                est[i] = est[i] * d;
                include[i] = true;
                break;
            }
            }
        }
        clouds.push_back(make_cloud(k));
        est_at.push_back(est);
        included.push_back(include);
    }
    void deliver(int k, int what) {   // 0 both cloud first, 1 both path first, 2 path only, 3 cloud only
        auto& bus = rosstub::Bus::get();
        if (what == 0 || what == 3) { send_cloud(k); bus.spin_all(); }
        if (what != 3) { auto saved = est; est = est_at[k]; bus.inject<nav_msgs::Path>("/serpent/optimisation/path_changes", path(k, included[k])); est = saved; bus.spin_all(); }
        if (what == 1) { send_cloud(k); bus.spin_all(); }
    }
    std::size_t checked = 0;
    void check(int k) {
        const auto maps = rosstub::Bus::get().published<pcl::PointCloud<PointT>>("/serpent/mapping/local_map");
        MC_CHECK(maps.size() == static_cast<std::size_t>(k) + 1, "count", maps.size() << " local maps for " << k + 1 << " states");
        const auto& m = *maps[k];
        unclear = false;
        const auto sel = update(k, included[k]);
        MC_CHECK(m.header.stamp == time(k) / 1000, "stamp", m.header.stamp);
        MC_CHECK(m.header.frame_id == "lidar_id", "frame", m.header.frame_id);
        if (unclear) return;
        auto e = rows(sel, lidar(known[k]));
        if (c.voxel_local && !voxels(e)) return;
        std::string names;
        for (int s : sel) names += " " + std::to_string(s);
        MC_CHECK(same(e, rows(m)), "local_map", "state " << k << ": local map of " << m.size() << " points is not that of keyclouds" << names << " (" << e.size() << " points)");
        mc::evaluated(1);
    }
    void services(bool filled) {
        auto& bus = rosstub::Bus::get();
        std_srvs::Empty::Request rq;
        std_srvs::Empty::Response rs;
        const auto n = bus.template published<pcl::PointCloud<PointT>>("/serpent/output/global_map").size(), g = bus.template published<serpent::PoseGraph>("/serpent/output/pose_graph").size();
        MC_CHECK(bus.services.at("/serpent/publish_map")(&rq, &rs) && bus.services.at("/serpent/publish_pose_graph")(&rq, &rs), "service", "service failed");
        const auto maps = bus.template published<pcl::PointCloud<PointT>>("/serpent/output/global_map");
        const auto graphs = bus.template published<serpent::PoseGraph>("/serpent/output/pose_graph");
        MC_CHECK(maps.size() == n + 1 && graphs.size() == g + 1, "service_count", maps.size());
        auto e = rows(keys, ref::Pose());
        if (filled) MC_CHECK(maps.back()->header.frame_id == "world", "global_frame", maps.back()->header.frame_id);
        if (!c.voxel_global || voxels(e)) MC_CHECK(same(e, rows(*maps.back())), "global_map", "global map of " << maps.back()->size() << " points instead of " << e.size());
        const auto& pg = *graphs.back();
        MC_CHECK(pg.clouds.size() == keys.size() && pg.poses.size() == keys.size(), "graph_size", pg.clouds.size() << " clouds, " << pg.poses.size() << " poses, " << keys.size() << " keyclouds");
        for (std::size_t i = 0; i < keys.size(); ++i) {
            pcl::PointCloud<PointT> cl;
            pcl::fromROSMsg(pg.clouds[i], cl);
            std::vector<Row> raw;
            for (auto& q : clouds[keys[i]]) raw.push_back(Row{(double) q.p(0, 0), (double) q.p(1, 0), (double) q.p(2, 0), (double) q.n(0, 0), (double) q.n(1, 0), (double) q.n(2, 0), 0.125 * keys[i]});
            MC_CHECK(same(raw, rows(cl)), "graph_cloud", "cloud " << i);
            MC_CHECK(pg.poses[i].header.stamp == stamp(time(keys[i])), "graph_stamp", i);
            const auto& o = pg.poses[i].pose.pose;
            ref::Pose p;
            p.R = ref::quat(o.orientation.w, o.orientation.x, o.orientation.y, o.orientation.z);
            p.t = v3(o.position.x, o.position.y, o.position.z);
            const ref::Pose l = lidar(known[keys[i]]);
            MC_CHECK(ref::maxdiff(ref::mat(p), ref::mat(l)) < 1e-9, "graph_pose", "keycloud " << i << " is off by " << ref::maxdiff(ref::mat(p), ref::mat(l)));
        }
        mc::evaluated(2);
    }
    void run(int steps) {
        mc::where("mapping");
        services(false);
        for (int k = 0; k < steps; ++k) step(k);
        if (c.arrival < 2) {
            for (int k = 0; k < steps; ++k) { deliver(k, c.arrival); mc::transition(); check(k); }
        } else {
            // the messages of one kind arrive late
            for (int k = 0; k < steps; ++k) deliver(k, c.arrival);
            for (int k = 0; k < steps; ++k) { deliver(k, 5 - c.arrival); mc::transition(); check(k); }
        }
        services(true);
        mc::Hash h;
        for (int k : keys) h.add(k);
        for (auto& p : known) h.add(std::round((double) p.t(0, 0) * 1e6)).add(std::round((double) p.R(0, 1) * 1e6));
        mc::state(h.h);
        h.add(c.n).add(c.past).add(c.voxel_local).add(c.voxel_global).add(c.min_points);
        mc::nontrivial(h.h);
    }
};
void go(const Config& c, int steps) {
    if (c.unit) Run<PointNormalUnit>(c).run(steps);
    else Run<pcl::PointNormal>(c).run(steps);
}
}

// All histories of motions and corrections.
MC_FAMILY(histories) {
    Config c;
    c.past = mc::flip("PAST");
    c.n = 1 + mc::choose(3, "frames");
    go(c, mc::thorough() ? 6 : 5);
}

// Configurations and arrival orders with shorter histories.
MC_FAMILY(configurations) {
    Config c;
    c.past = mc::flip("PAST");
    c.voxel_local = mc::flip("voxel grid of the local map");
    c.voxel_global = mc::flip("voxel grid of the global map");
    if (c.voxel_local || c.voxel_global) c.min_points = 1 + mc::choose(2, "points per voxel");
    c.base_link = mc::flip("body frame is base_link");
    c.unit = mc::flip("points with unit vectors");
    c.arrival = mc::choose(4, "arrival");
    c.n = 2 + 3 * mc::choose(2, "frames");
    go(c, mc::thorough() ? 4 : 3);
}

// A path that does not contain the cloud's time, and an empty one, are refused.
MC_FAMILY(refused) {
    Config c;
    c.past = mc::flip("PAST");
    const int steps = mc::choose(3, "updates before");
    const bool empty = mc::flip("empty path");
    Run<pcl::PointNormal> r(c);
    for (int k = 0; k <= steps; ++k) r.step(k);
    for (int k = 0; k < steps; ++k) { r.deliver(k, 0); r.check(k); }
    auto p = r.path(steps, std::vector<bool>(steps, true));
    p->poses.pop_back();
    if (empty) p->poses.clear();
    if (!empty && steps == 0) mc::prune();
    r.send_cloud(steps);
    rosstub::Bus::get().inject<nav_msgs::Path>("/serpent/optimisation/path_changes", p);
    mc::transition();
    MC_CHECK(mc::throws([&] { rosstub::Bus::get().spin_all(); }), "accepted", "a path without the cloud's pose was accepted");
    mc::evaluated(1);
}

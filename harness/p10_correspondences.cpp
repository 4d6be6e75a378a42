// P10: registration correspondences are the true nearest neighbours within the limit.
#include "mc.hpp"
#include "ref.hpp"
#include "mock_registration.hpp"
#include <pcl/point_types.h>
#include <pointcloud_tools/point_types.hpp>
#include <pointcloud_tools/registration_utilities.hpp>
#include <set>
using namespace ref;
static const std::vector<V3>& grid() {
    static std::vector<V3> g{v3(0, 0, 0), v3(1, 0, 0), v3(0, 2, 0), v3(-1, 0, 0.5L), v3(3, 3, 3), v3(0, 0, 1.5L), v3(1, 0, 0.25L)};
    return g;
}
struct Tf { Pose p; bool exact; Tf(const Pose& q, bool e) : p(q), exact(e) {} };  // a constructor: g++ 13 -ftrivial-auto-var-init corrupts aggregate temporaries holding long doubles
static const std::vector<Tf>& transforms() {
    static std::vector<Tf> t = [] {
        std::vector<Tf> v; Pose id; v.push_back({id, true});
        Pose a; a.t = v3(1, 0, 0); v.push_back({a, true});
        Pose b; b.R = rotations()[5]; b.t = v3(0, -2, 0.5L); v.push_back({b, true});
        Pose c; c.R = expm(v3(0.3L, -0.2L, 0.7L)); c.t = v3(0.5L, 0.25L, -1); v.push_back({c, false});
        Pose d; d.t = v3(100, 0, 0); v.push_back({d, true});
        return v; }();
    return t;
}
template<typename P> P mk(const V3& v) { P p; p.x = (float) v(0, 0); p.y = (float) v(1, 0); p.z = (float) v(2, 0); return p; }

// One setup of clouds, indices, transform, limit; `reg` may be reused (histories).
template<typename PS, typename PT, typename S>
void query(FixedRegistration<PS, PT, S>& reg, int max_source, int max_target, bool reverse, bool reuse) {
    const int ns = 1 + mc::choose(max_source, "source size"), nt = 1 + mc::choose(max_target, "target size");
    std::vector<V3> src, tgt;
    const int ga = mc::thorough() ? (int) grid().size() : 4;
    typename pcl::PointCloud<PS>::Ptr cs(new pcl::PointCloud<PS>); typename pcl::PointCloud<PT>::Ptr ct(new pcl::PointCloud<PT>);
    for (int i = 0; i < ns; ++i) { src.push_back(grid()[(size_t) mc::choose(ga, "source point")]); cs->push_back(mk<PS>(src.back())); }
    for (int i = 0; i < nt; ++i) { tgt.push_back(grid()[(size_t) mc::choose(ga, "target point")]); ct->push_back(mk<PT>(tgt.back())); }
    const int mask = mc::choose(1 << ns, "index subset");   // 0: default indices (whole cloud)
    const Tf& tf = mc::pick(transforms(), "transform");
    static const std::vector<double> limits{1.0, 0.75, 2.0, 50.0};
    const double limit = mc::pick(limits, "limit");
    reg.setInputSource(cs); reg.setInputTarget(ct); reg.setMaxCorrespondenceDistance(limit);
    pcl::IndicesPtr idx(new pcl::Indices);
    std::set<int> allowed;
    for (int i = 0; i < ns; ++i) if (!mask || (mask >> i & 1)) { idx->push_back(i); allowed.insert(i); }
    if (mask) { if ((mask & 1) && idx->size() > 1) std::reverse(idx->begin(), idx->end()); reg.setIndices(idx); }
    else if (reuse) { reg.setIndices(idx); }
    reg.result = eig<S>(tf.p).matrix();
    pcl::PointCloud<PS> aligned; reg.align(aligned);
    if (reverse) {
        typename pcl::search::KdTree<PS>::Ptr tree(new pcl::search::KdTree<PS>);
        tree->setInputCloud(cs, reg.getIndices());
        reg.setSearchMethodSource(tree, true);
    }
    mc::transition(); mc::where("correspondences");
    const auto c = reverse ? pct::compute_registration_correspondences(reg, true) : pct::compute_registration_correspondences(reg);
    // brute force
    auto dist = [&](int i, int j) { return (double) (apply(tf.p, src[(size_t) i]) - tgt[(size_t) j]).norm(); };
    const double eps = tf.exact ? 1e-9 : 1e-4;
    const std::string key = reverse ? "reverse" : "forward";
    std::set<int> answered; mc::Hash h;
    for (const auto& k : *c) {
        MC_CHECK(k.index_query >= 0 && k.index_query < ns && k.index_match >= 0 && k.index_match < nt, key + ":range", "index out of range: " << k.index_query << "," << k.index_match);
        MC_CHECK(allowed.count(k.index_query), key + ":subset", "source point " << k.index_query << " is not in the requested subset");
        const double d = dist(k.index_query, k.index_match);
        MC_CHECK(std::fabs(k.distance - d) < 2e-3, key + ":distance", "reported distance " << k.distance << ", true " << d);
        MC_CHECK(d <= limit + (tf.exact ? 1e-9 : 1e-4), key + ":limit", "pair at " << d << " exceeds the limit " << limit);
        double best = 1e300;
        if (reverse) for (int i : allowed) best = std::min(best, dist(i, k.index_match)); else for (int j = 0; j < nt; ++j) best = std::min(best, dist(k.index_query, j));
        MC_CHECK(d <= best + 1e-4, key + ":nearest", "pair (" << k.index_query << "," << k.index_match << ") at " << d << " but a neighbour at " << best);
        MC_CHECK(answered.insert(reverse ? k.index_match : k.index_query).second, key + ":duplicate", "point answered twice");
        h.add(k.index_query * 16 + k.index_match);
    }
    auto must = [&](int q, double best) {
        if (best <= limit - (tf.exact ? 0 : eps)) MC_CHECK(answered.count(q), key + ":missing", "point " << q << " has a neighbour at " << best << " within the limit " << limit << " but no correspondence");
    };
    if (reverse) for (int j = 0; j < nt; ++j) { double best = 1e300; for (int i : allowed) best = std::min(best, dist(i, j)); must(j, best); }
    else for (int i : allowed) { double best = 1e300; for (int j = 0; j < nt; ++j) best = std::min(best, dist(i, j)); must(i, best); }
    for (auto& p : src) h.add((double) p(0, 0) + 7.3 * (double) p(1, 0) + 51.7 * (double) p(2, 0)); for (auto& p : tgt) h.add((double) p(0, 0) + 7.3 * (double) p(1, 0) + 51.7 * (double) p(2, 0));
    mc::state(h.h); mc::nontrivial(h.add(mask).add(limit).h);
}
template<typename PS, typename PT, typename S> void once(int a, int b, bool rev) { FixedRegistration<PS, PT, S> r; query<PS, PT, S>(r, a, b, rev, false); }
MC_FAMILY(forward_xyz) { once<pcl::PointXYZ, pcl::PointXYZ, float>(2, 2, false); }
MC_FAMILY(forward_normal_double) { once<pcl::PointNormal, pcl::PointNormal, double>(1, 2, false); }
MC_FAMILY(forward_unit) { once<PointNormalUnit, PointNormalUnit, float>(2, 1, false); }
MC_FAMILY(reverse_xyz) { once<pcl::PointXYZ, pcl::PointXYZ, float>(2, 2, true); }
// Reuse of one registration object over two queries: answers depend only on the current clouds/indices/transform.
MC_FAMILY(reuse) {
    FixedRegistration<pcl::PointXYZ, pcl::PointXYZ, float> r;
    query<pcl::PointXYZ, pcl::PointXYZ, float>(r, 1, 1, false, true);
    query<pcl::PointXYZ, pcl::PointXYZ, float>(r, 2, 1, mc::flip("reverse"), true);
}
MC_FAMILY_THOROUGH(forward_xyz_3) { once<pcl::PointXYZ, pcl::PointXYZ, float>(3, 3, false); }
MC_FAMILY_THOROUGH(reverse_unit_3) { once<PointNormalUnit, PointNormalUnit, float>(3, 2, true); }
MC_FAMILY(reverse_requires_matching_indices) {
    const int mode = mc::choose(3, "mode");
    FixedRegistration<pcl::PointXYZ, pcl::PointXYZ, float> r;
    pcl::PointCloud<pcl::PointXYZ>::Ptr a(new pcl::PointCloud<pcl::PointXYZ>), b(new pcl::PointCloud<pcl::PointXYZ>);
    for (auto& g : grid()) { a->push_back(mk<pcl::PointXYZ>(g)); b->push_back(mk<pcl::PointXYZ>(g)); }
    r.setInputSource(a); r.setInputTarget(b); r.setMaxCorrespondenceDistance(1);
    pcl::IndicesPtr idx(new pcl::Indices{0, 2}); r.setIndices(idx);
    pcl::PointCloud<pcl::PointXYZ> out; r.align(out);
    pcl::search::KdTree<pcl::PointXYZ>::Ptr tree(new pcl::search::KdTree<pcl::PointXYZ>);
    if (mode == 0) tree->setInputCloud(a); else if (mode == 1) tree->setInputCloud(a, pcl::IndicesPtr(new pcl::Indices{1})); else tree->setInputCloud(a, r.getIndices());
    r.setSearchMethodSource(tree, true);
    mc::transition();
    const bool t = mc::throws([&] { pct::compute_registration_correspondences(r, true); });
    MC_CHECK(t == (mode != 2), "reverse:unrestricted_tree", "a search tree not restricted to the index subset must be refused, a matching one accepted (mode " << mode << ")");
    mc::nontrivial(mode);
}

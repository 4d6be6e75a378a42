// P09: transforming typed point clouds; project point types; small cloud utilities.
#include "mc.hpp"
#include "ref.hpp"
#include <pcl/point_cloud.h>
#include <pcl/conversions.h>
#include <pointcloud_tools/point_types.hpp>
#include <pointcloud_tools/pclpointcloud_transform.hpp>
#include <pointcloud_tools/pclpointcloud_utilities.hpp>
#include <serpent/front_end/lidar/transform_pointcloud.hpp>
#include <limits>
using namespace ref;
static const float NaN = std::numeric_limits<float>::quiet_NaN(), Inf = std::numeric_limits<float>::infinity();

// One abstract point: everything a point of any of the types may carry.
struct Abs { float p[3], n[3], curv, u[3], c[6]; };
static const std::vector<Abs>& points() {
    static std::vector<Abs> v{
        {{1, 2, 3}, {0.6f, 0, 0.8f}, 0.125f, {0, 1, 0}, {4, 1, 0.5f, 3, -0.25f, 2}},
        {{-7.5f, 0.25f, 11}, {0, 0, -1}, 3, {0.6f, -0.8f, 0}, {1, 0, 0, 2, 0, 9}},
        {{0, 0, 0}, {1, 0, 0}, 0, {0, 0, 1}, {0.5f, -0.25f, 0.125f, 1, 0.0625f, 0.75f}},
        {{NaN, 1, 2}, {0, 1, 0}, 1, {1, 0, 0}, {1, 0.5f, 0, 1, 0, 1}},
        {{5, NaN, -2}, {0.8f, 0.6f, 0}, 2, {0, 0.6f, 0.8f}, {2, 0, 0.5f, 3, 1, 4}},
        {{4, 6, Inf}, {0, 0, 1}, 5, {-1, 0, 0}, {3, 1, 1, 3, 1, 3}},
        {{NaN, NaN, NaN}, {NaN, NaN, NaN}, NaN, {0, 1, 0}, {1, 0, 0, 1, 0, 1}}};
    return v;
}
static bool valid(const Abs& a) { return std::isfinite(a.p[0]) && std::isfinite(a.p[1]) && std::isfinite(a.p[2]); }

template<typename T> struct Acc;
template<> struct Acc<PointNormalUnit> {
    static const bool U = true, C = false, N = true;
    static PointNormalUnit make(const Abs& a) { PointNormalUnit p; p.x = a.p[0]; p.y = a.p[1]; p.z = a.p[2]; p.normal_x = a.n[0]; p.normal_y = a.n[1]; p.normal_z = a.n[2]; p.curvature = a.curv; p.ux = a.u[0]; p.uy = a.u[1]; p.uz = a.u[2]; return p; }
    static Abs get(const PointNormalUnit& p) { return Abs{{p.x, p.y, p.z}, {p.normal_x, p.normal_y, p.normal_z}, p.curvature, {p.ux, p.uy, p.uz}, {0, 0, 0, 0, 0, 0}}; }
};
template<> struct Acc<PointNormalCovariance> {
    static const bool U = false, C = true, N = true;
    static PointNormalCovariance make(const Abs& a) { PointNormalCovariance p; p.x = a.p[0]; p.y = a.p[1]; p.z = a.p[2]; p.normal_x = a.n[0]; p.normal_y = a.n[1]; p.normal_z = a.n[2]; p.curvature = a.curv; for (int i = 0; i < 6; ++i) p.covariance[i] = a.c[i]; return p; }
    static Abs get(const PointNormalCovariance& p) { return Abs{{p.x, p.y, p.z}, {p.normal_x, p.normal_y, p.normal_z}, p.curvature, {0, 0, 0}, {p.covariance_xx, p.covariance_xy, p.covariance_xz, p.covariance_yy, p.covariance_yz, p.covariance_zz}}; }
};
template<> struct Acc<pcl::PointNormal> {
    static const bool U = false, C = false, N = true;
    static pcl::PointNormal make(const Abs& a) { pcl::PointNormal p; p.x = a.p[0]; p.y = a.p[1]; p.z = a.p[2]; p.normal_x = a.n[0]; p.normal_y = a.n[1]; p.normal_z = a.n[2]; p.curvature = a.curv; return p; }
    static Abs get(const pcl::PointNormal& p) { return Abs{{p.x, p.y, p.z}, {p.normal_x, p.normal_y, p.normal_z}, p.curvature, {0, 0, 0}, {0, 0, 0, 0, 0, 0}}; }
};

static bool same(float a, float b) { return (std::isnan(a) && std::isnan(b)) || a == b; }
static bool near(float got, L want, double s) { return std::fabs((double) got - (double) want) <= 3e-6 * (1 + s); }
static V3 vec(const float* f) { return v3(f[0], f[1], f[2]); }
static M3 cov(const float* c) { M3 m; m(0, 0) = c[0]; m(0, 1) = m(1, 0) = c[1]; m(0, 2) = m(2, 0) = c[2]; m(1, 1) = c[3]; m(1, 2) = m(2, 1) = c[4]; m(2, 2) = c[5]; return m; }

template<typename T> void judge(const pcl::PointCloud<T>& before, const pcl::PointCloud<T>& after, const Pose& T_, bool copied, const std::string& key, double slack = 1) {
    MC_CHECK(after.size() == before.size(), key + ":shape", "cloud size changed");
    if (!before.empty()) MC_CHECK(after.width == before.width && after.height == before.height, key + ":shape", "cloud shape changed: " << after.size() << " " << after.width << "x" << after.height);
    MC_CHECK(after.is_dense == before.is_dense, key + ":dense", "density flag changed");
    MC_CHECK(after.header.frame_id == before.header.frame_id && after.header.stamp == before.header.stamp && after.header.seq == before.header.seq, key + ":header", "header not kept");
    MC_CHECK(after.sensor_origin_ == before.sensor_origin_ && after.sensor_orientation_.coeffs() == before.sensor_orientation_.coeffs(), key + ":sensor", "sensor pose not kept");
    mc::Hash h;
    for (size_t i = 0; i < before.size(); ++i) {
        const Abs b = Acc<T>::get(before[i]), a = Acc<T>::get(after[i]);
        if (!before.is_dense && !valid(b)) {
            if (!copied) continue;   // with field copying off nothing is promised about invalid points
            for (int k = 0; k < 3; ++k) MC_CHECK(same(a.p[k], b.p[k]), key + ":invalid", "invalid point " << i << " coordinate " << k << " changed from " << b.p[k] << " to " << a.p[k]);
            if (Acc<T>::U) for (int k = 0; k < 3; ++k) MC_CHECK(same(a.u[k], b.u[k]) , key + ":invalid", "unit vector of an invalid point changed");
            h.add((int) 77);
            continue;
        }
        const V3 p = apply(T_, vec(b.p)), n = T_.R * vec(b.n);
        const double s = slack * (1 + std::fabs((double) p(0, 0)) + std::fabs((double) p(1, 0)) + std::fabs((double) p(2, 0)) + std::fabs((double) T_.t(0, 0)) + std::fabs((double) T_.t(1, 0)) + std::fabs((double) T_.t(2, 0)));
        for (int k = 0; k < 3; ++k) {
            MC_CHECK(near(a.p[k], p(k, 0), 4 * s), key + ":position", "point " << i << "[" << k << "] = " << a.p[k] << ", expected " << (double) p(k, 0));
            MC_CHECK(near(a.n[k], n(k, 0), slack * 4), key + ":normal", "normal " << i << "[" << k << "] = " << a.n[k] << ", expected " << (double) n(k, 0));
            h.add((double) a.p[k]);
        }
        MC_CHECK(after[i].data[3] == 1.f && after[i].data_n[3] == 0.f, key + ":padding", "homogeneous padding broken");
        if (Acc<T>::U) { const V3 u = T_.R * vec(b.u); for (int k = 0; k < 3; ++k) MC_CHECK(near(a.u[k], u(k, 0), slack * 4), key + ":unit_vector", "unit vector " << i << "[" << k << "] = " << a.u[k] << ", expected " << (double) u(k, 0)); }
        if (Acc<T>::C) {
            const M3 c = T_.R * cov(b.c) * T_.R.T(), got = cov(a.c);
            for (int r = 0; r < 3; ++r) for (int q = 0; q < 3; ++q) MC_CHECK(near((float) got(r, q), c(r, q), slack * 40), key + ":covariance", "covariance " << i << "(" << r << "," << q << ") = " << (double) got(r, q) << ", expected " << (double) c(r, q));
        }
        if (copied) MC_CHECK(same(a.curv, b.curv), key + ":other_fields", "curvature changed");
    }
    mc::nontrivial(h.h); mc::state(h.h);
}
template<typename T> pcl::PointCloud<T> cloud(const std::vector<int>& kinds, bool dense, bool organised = false) {
    pcl::PointCloud<T> c;
    for (int k : kinds) c.push_back(Acc<T>::make(points()[(size_t) k]));
    if (organised) { c.width = 2; c.height = (uint32_t) kinds.size() / 2; }
    c.is_dense = dense; c.header.frame_id = "lidar"; c.header.stamp = 123456789; c.header.seq = 42;
    c.sensor_origin_ = Eigen::Vector4f(1, 2, 3, 0); c.sensor_orientation_ = Eigen::Quaternionf(0, 1, 0, 0);
    return c;
}
static Pose choose_pose(bool reduced) {
    static const std::vector<M3> all = rotations();
    static const std::vector<V3> tr{v3(0, 0, 0), v3(1, 2, 3), v3(-5.5L, 0.25L, -10), v3(0, 0, 7), v3(-0.0625L, 40, 0)};
    static const std::vector<int> red{0, 1, 5, 17, 25, 29};
    Pose p; p.R = reduced ? all[(size_t) red[(size_t) mc::choose((int) red.size(), "rotation")]] : all[(size_t) mc::choose((int) all.size(), "rotation")];
    p.t = tr[(size_t) mc::choose(reduced ? 2 : (int) tr.size(), "translation")];
    return p;
}
template<typename T> struct Pct;
template<> struct Pct<PointNormalUnit> {
    template<typename X> static void run(const pcl::PointCloud<PointNormalUnit>& i, pcl::PointCloud<PointNormalUnit>& o, const X& t, int c) { if (c == 2) pct::transform_pointcloud_with_normals_and_unit_vectors(i, o, t); else pct::transform_pointcloud_with_normals_and_unit_vectors(i, o, t, c == 1); }
};
template<> struct Pct<PointNormalCovariance> {
    template<typename X> static void run(const pcl::PointCloud<PointNormalCovariance>& i, pcl::PointCloud<PointNormalCovariance>& o, const X& t, int c) { if (c == 2) pct::transform_pointcloud_with_normals_and_covariances(i, o, t); else pct::transform_pointcloud_with_normals_and_covariances(i, o, t, c == 1); }
};
template<> struct Pct<pcl::PointNormal> { template<typename X> static void run(const pcl::PointCloud<pcl::PointNormal>&, pcl::PointCloud<pcl::PointNormal>&, const X&, int) { mc::prune(); } };
template<typename T> void call(int api, int copy, const pcl::PointCloud<T>& in, pcl::PointCloud<T>& out, const Pose& p) {
    mc::transition(); mc::where("transform");
    const Eigen::Isometry3d d = eig<double>(p); const Eigen::Isometry3f f = eig<float>(p);
    const Eigen::Affine3f af(f.matrix()); const Eigen::Affine3d ad(d.matrix());
    const Eigen::Matrix4f mf = f.matrix(); const Eigen::Matrix4d md = d.matrix();
    switch (api) {
        case 0: serpent::transform_pointcloud(in, out, mf); break;
        case 1: serpent::transform_pointcloud(in, out, md); break;
        case 2: serpent::transform_pointcloud(in, out, f); break;
        case 3: serpent::transform_pointcloud(in, out, d); break;
        case 4: Pct<T>::run(in, out, mf, copy); break;
        case 5: Pct<T>::run(in, out, md, copy); break;
        case 6: Pct<T>::run(in, out, f, copy); break;
        case 7: Pct<T>::run(in, out, d, copy); break;
        case 8: Pct<T>::run(in, out, af, copy); break;
        case 9: Pct<T>::run(in, out, ad, copy); break;
    }
}
template<typename T> void go(bool all_poses) {
    const bool generic = std::is_same<T, pcl::PointNormal>::value;
    const int api = mc::choose(generic ? 4 : 10, "api");
    const int copy = api < 4 ? 2 : mc::choose(3, "copy_all_fields");
    const int out_mode = mc::choose(4, "output");   // separate empty, separate shorter, separate longer, in place
    const bool dense = mc::flip("dense");
    std::vector<int> kinds;
    const Pose p = choose_pose(!all_poses);
    if (all_poses) kinds = dense ? std::vector<int>{0, 1, 2, 0} : std::vector<int>{0, 3, 1, 5, 6, 2};
    else { const int n = mc::choose(4, "n"); for (int i = 0; i < n; ++i) kinds.push_back(mc::choose(dense ? 3 : 7, "kind")); }
    const bool org = !kinds.empty() && kinds.size() % 2 == 0;
    const pcl::PointCloud<T> before = cloud<T>(kinds, dense, org);
    pcl::PointCloud<T> in = before, out;
    if (out_mode == 1) out = cloud<T>({1}, true);
    if (out_mode == 2) { out = cloud<T>({1, 1, 1, 1, 1, 1, 1, 1}, !dense); out.header.frame_id = "old"; }
    pcl::PointCloud<T>& o = out_mode == 3 ? in : out;
    call<T>(api, copy, in, o, p);
    judge<T>(before, o, p, copy != 0 || out_mode == 3, std::string("transform:") + (Acc<T>::U ? "unit" : Acc<T>::C ? "covariance" : "normal"));
    if (out_mode != 3) for (size_t i = 0; i < before.size(); ++i) {   // the input is const: unchanged
        const Abs a = Acc<T>::get(before[i]), b = Acc<T>::get(in[i]);
        MC_CHECK(same(a.p[0], b.p[0]) && same(a.p[1], b.p[1]) && same(a.p[2], b.p[2]) && same(a.n[0], b.n[0]), "transform:input_modified", "input cloud modified");
    }
}
MC_FAMILY(unit_poses) { go<PointNormalUnit>(true); }
MC_FAMILY(unit_kinds) { go<PointNormalUnit>(false); }
MC_FAMILY(covariance_poses) { go<PointNormalCovariance>(true); }
MC_FAMILY(covariance_kinds) { go<PointNormalCovariance>(false); }
MC_FAMILY(normal_poses) { go<pcl::PointNormal>(true); }
MC_FAMILY(normal_kinds) { go<pcl::PointNormal>(false); }

// Histories of in-place / ping-pong transforms equal one transform by the composed motion.
template<typename T> void history() {
    const bool dense = mc::flip("dense");
    const pcl::PointCloud<T> before = cloud<T>(dense ? std::vector<int>{0, 1, 2} : std::vector<int>{0, 3, 1, 5, 2}, dense);
    pcl::PointCloud<T> a = before, b;
    Pose total; bool in_a = true;
    const int depth = mc::thorough() ? 4 : 3;
    for (int i = 0; i < depth; ++i) {
        const Pose p = choose_pose(true);
        const int mode = mc::choose(2, "in_place");
        if (mode) call<T>(3, 2, in_a ? a : b, in_a ? a : b, p);
        else { call<T>(2, 2, in_a ? a : b, in_a ? b : a, p); in_a = !in_a; }
        total = p * total;
    }
    judge<T>(before, in_a ? a : b, total, true, "history", 6);
}
MC_FAMILY(history_unit) { history<PointNormalUnit>(); }
MC_FAMILY(history_covariance) { history<PointNormalCovariance>(); }

// ---- point types ---------------------------------------------------------------------------------------------------
static const std::vector<float> vals{0.f, 1.f, -2.5f, 1e-3f};
MC_FAMILY(type_unit) {
    float x[6]; for (auto& v : x) v = mc::pick(vals, "v");
    mc::transition(2);
    _PointUnit raw; std::memset(&raw, 0x5a, sizeof raw);
    raw.x = x[0]; raw.y = x[1]; raw.z = x[2]; raw.ux = x[3]; raw.uy = x[4]; raw.uz = x[5];
    const PointUnit p(raw);
    MC_CHECK(p.x == x[0] && p.y == x[1] && p.z == x[2] && p.ux == x[3] && p.uy == x[4] && p.uz == x[5] && p.data[3] == 1.f && p.data_u[3] == 0.f, "type:PointUnit", "copy from raw point loses a field");
    MC_CHECK(p.getUnitVector3fMap() == Eigen::Vector3f(x[3], x[4], x[5]) && p.getUnitVector4fMap()[3] == 0.f && p.u[1] == x[4] && p.data_u[2] == x[5] && p.getVector3fMap() == Eigen::Vector3f(x[0], x[1], x[2]), "type:PointUnit:maps", "maps do not alias the fields");
    const Eigen::Matrix3f o = p.get_unit_outer_product();
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) MC_CHECK(mc::close(o(i, j), x[3 + i] * x[3 + j], 1e-6), "type:outer_product", "outer product wrong");
    _PointNormalUnit rn; std::memset(&rn, 0x5a, sizeof rn);
    rn.x = x[3]; rn.y = x[1]; rn.z = x[2]; rn.normal_x = x[0]; rn.normal_y = x[4]; rn.normal_z = x[5]; rn.curvature = x[1] + 1; rn.ux = x[2]; rn.uy = x[5]; rn.uz = x[0] - 1;
    const PointNormalUnit q(rn);
    MC_CHECK(q.x == x[3] && q.y == x[1] && q.z == x[2] && q.normal_x == x[0] && q.normal_y == x[4] && q.normal_z == x[5] && q.curvature == x[1] + 1 && q.ux == x[2] && q.uy == x[5] && q.uz == x[0] - 1 && q.data[3] == 1.f && q.data_n[3] == 0.f && q.data_u[3] == 0.f, "type:PointNormalUnit", "copy from raw point loses a field");
    PointNormalUnit w; w.getUnitVector3fMap() = Eigen::Vector3f(x[0], x[1], x[2]);
    MC_CHECK(w.ux == x[0] && w.uy == x[1] && w.uz == x[2] && w.x == 0 && w.normal_x == 0 && w.curvature == 0 && w.data[3] == 1, "type:PointNormalUnit:maps", "default construction or writing through the map wrong");
    PointUnit d; MC_CHECK(d.x == 0 && d.y == 0 && d.z == 0 && d.ux == 0 && d.uy == 0 && d.uz == 0 && d.data[3] == 1 && d.data_u[3] == 0, "type:PointUnit:default", "default point not zero");
    pcl::PointCloud<PointNormalUnit> c, e; c.push_back(w); c.push_back(q);
    pcl::PCLPointCloud2 m; pcl::toPCLPointCloud2(c, m); pcl::fromPCLPointCloud2(m, e);
    MC_CHECK(e.size() == 2 && e[1].x == q.x && e[1].y == q.y && e[1].z == q.z && e[1].normal_x == q.normal_x && e[1].normal_y == q.normal_y && e[1].normal_z == q.normal_z && e[1].curvature == q.curvature && e[1].ux == q.ux && e[1].uy == q.uy && e[1].uz == q.uz && e[0].uz == w.uz, "type:PointNormalUnit:message", "message round trip loses a field");
    mc::nontrivial(mc::Hash().add((double) x[3]).add((double) x[4]).add((double) x[5]).h);
}
MC_FAMILY(type_covariance) {
    const std::vector<float> v2{0.5f, -2.f, 7.f};
    float x[6]; for (auto& v : x) v = mc::pick(v2, "v");
    mc::transition(2);
    _PointCovariance raw; std::memset(&raw, 0x5a, sizeof raw);
    raw.x = 1; raw.y = 2; raw.z = 3; for (int i = 0; i < 6; ++i) raw.covariance[i] = x[i];
    const PointCovariance p(raw);
    Eigen::Matrix3f M; M << x[0], x[1], x[2], x[1], x[3], x[4], x[2], x[4], x[5];
    MC_CHECK(p.x == 1 && p.y == 2 && p.z == 3 && p.data[3] == 1 && p.getCovarianceMatrix() == M, "type:PointCovariance", "copy from raw point / covariance matrix wrong");
    PointNormalCovariance q;
    MC_CHECK(q.getCovarianceMatrix().isZero(0) && q.x == 0 && q.normal_x == 0 && q.curvature == 0 && q.data[3] == 1 && q.data_n[3] == 0, "type:PointNormalCovariance:default", "default point not zero");
    q.setCovariance(M);
    MC_CHECK(q.getCovarianceMatrix() == M, "type:setCovariance", "set/get covariance not inverse");
    for (int i = 0; i < 6; ++i) MC_CHECK(q.covariance[i] == x[i] && q.getCovarianceVector6fMap()[i] == x[i], "type:covariance_storage", "covariance storage order is not xx,xy,xz,yy,yz,zz");
    _PointNormalCovariance rn; std::memset(&rn, 0x5a, sizeof rn);
    rn.x = x[0]; rn.y = x[1]; rn.z = x[2]; rn.normal_x = x[3]; rn.normal_y = x[4]; rn.normal_z = x[5]; rn.curvature = 9; for (int i = 0; i < 6; ++i) rn.covariance[i] = x[5 - i];
    const PointNormalCovariance r(rn);
    bool ok = r.x == x[0] && r.y == x[1] && r.z == x[2] && r.normal_x == x[3] && r.normal_y == x[4] && r.normal_z == x[5] && r.curvature == 9 && r.data[3] == 1 && r.data_n[3] == 0;
    for (int i = 0; i < 6; ++i) ok = ok && r.covariance[i] == x[5 - i];
    MC_CHECK(ok, "type:PointNormalCovariance", "copy from raw point loses a field");
    PointCovariance d; MC_CHECK(d.getCovarianceMatrix().isZero(0) && d.x == 0 && d.data[3] == 1, "type:PointCovariance:default", "default point not zero");
    pcl::PointCloud<PointNormalCovariance> c, e; c.push_back(r);
    pcl::PCLPointCloud2 m; pcl::toPCLPointCloud2(c, m); pcl::fromPCLPointCloud2(m, e);
    ok = e.size() == 1 && e[0].z == r.z && e[0].normal_z == r.normal_z && e[0].curvature == r.curvature; for (int i = 0; i < 6; ++i) ok = ok && e[0].covariance[i] == r.covariance[i];
    MC_CHECK(ok, "type:PointNormalCovariance:message", "message round trip loses a field");
    pcl::PointCloud<PointCovariance> c2, e2; c2.push_back(p); pcl::toPCLPointCloud2(c2, m); pcl::fromPCLPointCloud2(m, e2);
    ok = e2.size() == 1 && e2[0].y == p.y; for (int i = 0; i < 6; ++i) ok = ok && e2[0].covariance[i] == p.covariance[i];
    MC_CHECK(ok, "type:PointCovariance:message", "message round trip loses a field");
    mc::nontrivial(mc::Hash().add((double) x[0]).add((double) x[3]).add((double) x[5]).add((double) x[1]).h);
}
MC_FAMILY(type_angle_axis) {
    static const std::vector<M3> rots = rotations();
    Pose p; p.R = rots[(size_t) mc::choose((int) rots.size(), "rotation")];
    p.t = std::vector<V3>{v3(0, 0, 0), v3(1, -2, 3), v3(100, 0.5L, -7)}[(size_t) mc::choose(3, "t")];
    const int how = mc::choose(12, "construction");
    const Eigen::Isometry3f iso = eig<float>(p);
    const Eigen::Matrix3f R = iso.linear(); const Eigen::Vector3f t = iso.translation();
    const Eigen::Quaternionf q(R); const Eigen::AngleAxisf aa(R); const Eigen::Translation3f tt(t);
    const Eigen::Quaternionf qn(-q.w(), -q.x(), -q.y(), -q.z());
    alignas(16) unsigned char mem[sizeof(PointAngleAxis)]; std::memset(mem, 0x5a, sizeof mem);
    PointAngleAxis* x = nullptr; mc::transition();
    switch (how) {
        case 0: x = new (mem) PointAngleAxis(iso); break;
        case 1: x = new (mem) PointAngleAxis(t, aa); break;
        case 2: x = new (mem) PointAngleAxis(t, q); break;
        case 3: x = new (mem) PointAngleAxis(tt, q); break;
        case 4: x = new (mem) PointAngleAxis(tt, R); break;
        case 5: x = new (mem) PointAngleAxis(); x->setPose(iso); break;
        case 6: x = new (mem) PointAngleAxis(); x->setPose(t, aa); break;
        case 7: x = new (mem) PointAngleAxis(); x->setPose(t, R); break;
        case 8: x = new (mem) PointAngleAxis(); x->setPose(tt, q); break;
        case 9: x = new (mem) PointAngleAxis(); x->setPose(tt, R); break;
        case 10: x = new (mem) PointAngleAxis(t, qn); break;
        case 11: { _PointAngleAxis raw; std::memset(&raw, 0x5a, sizeof raw); raw.x = t[0]; raw.y = t[1]; raw.z = t[2]; raw.rx = aa.angle() * aa.axis()[0]; raw.ry = aa.angle() * aa.axis()[1]; raw.rz = aa.angle() * aa.axis()[2]; x = new (mem) PointAngleAxis(raw); break; }
    }
    MC_CHECK(x->x == t[0] && x->y == t[1] && x->z == t[2], "type:PointAngleAxis:position", "position not stored");
    MC_CHECK(x->data[3] == 1.f && x->data_r[3] == 0.f, "type:PointAngleAxis:padding", "homogeneous padding not initialised by construction " << how << ": " << x->data[3] << " " << x->data_r[3]);
    const double tolr = 3e-3;   // float angle-axis extraction near a half turn is only accurate to sqrt(eps)
    MC_CHECK(maxdiff(p.R, x->getRotationMatrix()) < tolr, "type:PointAngleAxis:rotation", "rotation not reproduced by construction " << how);
    MC_CHECK(maxdiff(p.R, x->getQuaternion().toRotationMatrix()) < tolr, "type:PointAngleAxis:quaternion", "quaternion not reproduced");
    MC_CHECK(maxdiff(mat(p), x->getIsometry().matrix()) < tolr, "type:PointAngleAxis:isometry", "pose not reproduced");
    MC_CHECK(std::fabs(x->angle() - std::sqrt(x->rx * x->rx + x->ry * x->ry + x->rz * x->rz)) < 1e-5, "type:PointAngleAxis:angle", "angle is not the norm of the rotation vector");
    PointAngleAxis y; y.setAngleAxis(q); MC_CHECK(maxdiff(p.R, y.getRotationMatrix()) < tolr && y.x == 0, "type:PointAngleAxis:set_quaternion", "setAngleAxis(quaternion) wrong");
    y.setAngleAxis(R); MC_CHECK(maxdiff(p.R, y.getRotationMatrix()) < tolr, "type:PointAngleAxis:set_matrix", "setAngleAxis(matrix) wrong");
    pcl::PointCloud<PointAngleAxis> c, e; c.push_back(*x); pcl::PCLPointCloud2 m; pcl::toPCLPointCloud2(c, m); pcl::fromPCLPointCloud2(m, e);
    MC_CHECK(e.size() == 1 && e[0].x == x->x && e[0].y == x->y && e[0].z == x->z && e[0].rx == x->rx && e[0].ry == x->ry && e[0].rz == x->rz, "type:PointAngleAxis:message", "message round trip loses a field");
    mc::nontrivial(mc::Hash().add((double) x->rx).add((double) x->ry).add((double) x->rz).add((double) x->x).h);
}

// ---- utilities -----------------------------------------------------------------------------------------------------
MC_FAMILY(normals) {
    struct N { Eigen::Vector3f n; double err; };
    static const std::vector<N> ns{{{1, 0, 0}, 0}, {{0, -1, 0}, 0}, {{0.6f, 0, 0.8f}, 0}, {{0, 0, 1.001f}, 1e-3}, {{0, 0, 0.999f}, 1e-3}, {{0, 0, 0}, 1}, {{3, 4, 0}, 4}, {{NaN, 0, 0}, INFINITY}};
    static const std::vector<float> th{1e-6f, 5e-4f, 2e-3f, 0.5f, 10.f};
    const int n = mc::choose(5, "n"); const int t = mc::choose((int) th.size() + 1, "threshold");
    const double T = t == (int) th.size() ? 1e-6 : th[(size_t) t];
    pcl::PointCloud<pcl::PointNormal> c; pcl::PointCloud<PointNormalUnit> cu; int want = 0;
    for (int i = 0; i < n; ++i) {
        const N& k = mc::pick(ns, "normal");
        pcl::PointNormal p; p.x = p.y = p.z = 5; p.normal_x = k.n[0]; p.normal_y = k.n[1]; p.normal_z = k.n[2]; c.push_back(p);
        PointNormalUnit u; u.normal_x = k.n[0]; u.normal_y = k.n[1]; u.normal_z = k.n[2]; cu.push_back(u);
        want += k.err > T;
    }
    mc::transition(2);
    const int got = t == (int) th.size() ? pct::check_normals(c) : pct::check_normals(c, th[(size_t) t]);
    MC_CHECK(got == want, "check_normals", got << " normals reported as not normalised, expected " << want);
    MC_CHECK(pct::check_normals(cu, (float) T) == want, "check_normals:unit", "wrong for the other point type");
    mc::nontrivial(mc::Hash().add(n).add(want).add(T).h);
}
struct PointT64 { PCL_ADD_POINT4D; double t; EIGEN_MAKE_ALIGNED_OPERATOR_NEW };
MC_FAMILY(unit_vectors_and_times) {
    const std::vector<float> v{0, 1, -0.5f};
    const int n = mc::choose(3, "n");
    pcl::PointCloud<PointNormalUnit> c; pcl::PointCloud<PointUnit> c2; pcl::PointCloud<PointT64> ct; std::vector<float> e; std::vector<double> ts;
    for (int i = 0; i < n; ++i) {
        PointNormalUnit p; p.ux = mc::pick(v, "ux"); p.uy = mc::pick(v, "uy"); p.uz = mc::pick(v, "uz"); p.x = 9; p.normal_y = 8; c.push_back(p);
        PointUnit q; q.ux = p.uz; q.uy = p.ux; q.uz = p.uy; c2.push_back(q);
        for (float f : {p.ux, p.uy, p.uz}) e.push_back(f);
        PointT64 t; t.t = std::vector<double>{0, 1, 1e9, 123456789.0}[(size_t) mc::choose(4, "t")]; ts.push_back(t.t); ct.push_back(t);
    }
    mc::transition(3);
    const auto u = pct::extract_unit_vectors(c); const auto u2 = pct::extract_unit_vectors(c2);
    MC_CHECK(u.rows() == 3 && u.cols() == n && u2.cols() == n, "extract_unit_vectors:shape", "wrong shape");
    for (int i = 0; i < n; ++i) for (int k = 0; k < 3; ++k) {
        MC_CHECK(u(k, i) == e[(size_t) (3 * i + k)], "extract_unit_vectors", "column " << i << " is not the unit vector of point " << i);
        MC_CHECK(u2(k, i) == e[(size_t) (3 * i + (k + 2) % 3)], "extract_unit_vectors", "column wrong (PointUnit)");
    }
    pct::convert_ns_to_s(ct);
    for (int i = 0; i < n; ++i) MC_CHECK(mc::close(ct[(size_t) i].t, ts[(size_t) i] * 1e-9, 1e-15), "convert_ns_to_s", "time wrong");
    mc::nontrivial(mc::Hash().add(n).add(e.empty() ? 0.0 : (double) e[0]).h);
}

// P11: registration covariance equals the analytic error propagation, with derivatives obtained by automatic differentiation.
#include "mc.hpp"
#include "jet.hpp"
#include "mock_registration.hpp"
#include <pcl/point_types.h>
#include <serpent/front_end/lidar/registration_covariance.hpp>
#include <Eigen/Eigenvalues>
using namespace ref;
using namespace serpent;
typedef Jet<12> J;   // x = [r, t], z = [p, q]
struct Blocks { M6 xx, xz; };
enum { PP_LIN, PP_NON, PL_LIN, PL_NON };
static Blocks reference(int model, const V3& r, const V3& t, const V3& p, const V3& q, const V3& n) {
    J R[3], T[3], P[3], Q[3];
    for (int i = 0; i < 3; ++i) { R[i] = J::var(r(i, 0), i); T[i] = J::var(t(i, 0), 3 + i); P[i] = J::var(p(i, 0), 6 + i); Q[i] = J::var(q(i, 0), 9 + i); }
    auto crs = [](J* a, J* b, J* o) { o[0] = a[1] * b[2] - a[2] * b[1]; o[1] = a[2] * b[0] - a[0] * b[2]; o[2] = a[0] * b[1] - a[1] * b[0]; };
    J c1[3], c2[3]; crs(R, P, c1);
    J e[3];
    if (model == PP_NON || model == PL_NON) {
        crs(R, c1, c2);
        J u = R[0] * R[0] + R[1] * R[1] + R[2] * R[2];
        L f, f1, f2; sinc_series(u.v, f, f1, f2, false); J s = u.chain(f, f1, f2);
        sinc_series(u.v, f, f1, f2, true); J c = u.chain(f, f1, f2);
        for (int i = 0; i < 3; ++i) e[i] = P[i] + s * c1[i] + c * c2[i] + T[i] - Q[i];
    } else for (int i = 0; i < 3; ++i) e[i] = P[i] + c1[i] + T[i] - Q[i];
    J F;
    if (model >= PL_LIN) { J d = e[0] * J(n(0, 0)) + e[1] * J(n(1, 0)) + e[2] * J(n(2, 0)); F = d * d; }
    else F = e[0] * e[0] + e[1] * e[1] + e[2] * e[2];
    Blocks b; for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) { b.xx(i, j) = F.h[i][j] / 2; b.xz(i, j) = F.h[i][6 + j] / 2; }
    return b;
}
template<typename P> struct Lin2 { typedef PointToPointIcpLinearisedModel<P, P> type; };
template<int MODEL, typename P> struct ModelOf;
template<typename P> struct ModelOf<PP_LIN, P> { typedef PointToPointIcpLinearisedModel<P, P> type; };
template<typename P> struct ModelOf<PP_NON, P> { typedef PointToPointIcpNonlinearModel<P, P> type; };
template<typename P> struct ModelOf<PL_LIN, P> { typedef PointToPlaneIcpLinearisedModel<P, P> type; };
template<typename P> struct ModelOf<PL_NON, P> { typedef PointToPlaneIcpNonlinearModel<P, P> type; };
static const char* NAMES[] = {"point_to_point_linearised", "point_to_point_nonlinear", "point_to_plane_linearised", "point_to_plane_nonlinear"};
static V3 axis(int k) {
    static const std::vector<V3> a{v3(1, 0, 0), v3(0, 1, 0), v3(0, 0, 1), v3(1, 1, 0), v3(0, -1, 1), v3(1, -2, 3), v3(-3, 1, 0.5L), v3(0.2L, 0.9L, -0.4L)};
    V3 v = a[(size_t) k]; return v * (1 / v.norm());
}
enum { AXES = 8 };
static Eigen::Vector3d ev(const V3& v) { return Eigen::Vector3d((double) v(0, 0), (double) v(1, 0), (double) v(2, 0)); }
static V3 dbl(const V3& v) { return v3((double) v(0, 0), (double) v(1, 0), (double) v(2, 0)); }
static V3 flt(const V3& v) { return v3((float) v(0, 0), (float) v(1, 0), (float) v(2, 0)); }
static std::string band(int model, double a) {
    if (model == PP_LIN || model == PL_LIN) return "any";
    return a == 0 ? "zero_rotation" : a < 1e-4 ? "tiny_rotation" : a < 0.01 ? "small_rotation" : "generic";
}
static double scale(const M6& m) { double s = 1e-3; for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) s = std::max(s, (double) std::fabs(m(i, j))); return s; }

template<int MODEL> void derivatives() {
    static const std::vector<L> angles{0.5L, 0.1L, 0.01L, 1.2L, 2.5L, 3.1L, 1e-3L, 1e-4L, 1.5e-5L, 0.7e-5L, 1e-6L, 1e-9L, 0.0L};
    static const std::vector<V3> ts{v3(0, 0, 0), v3(-4.5L, 14, 8.9L), v3(0.1L, -0.2L, 0.05L)};
    static const std::vector<V3> ps{v3(1, 2, 3), v3(0, 0, 0), v3(-10, 0.5L, 4), v3(0, 7, 0), v3(0.25L, -0.125L, -1)};
    const L a = mc::pick(angles, "angle");
    const V3 r = dbl(axis(mc::choose(AXES, "axis")) * a), t = dbl(mc::pick(ts, "translation"));
    const V3 p = dbl(mc::pick(ps, "p")), q = dbl(mc::pick(ps, "q") + v3(0.5L, -0.75L, 0.25L));
    const V3 n = dbl(MODEL >= PL_LIN ? axis(mc::choose(AXES, "normal")) : v3(0, 0, 0));
    const Blocks b = reference(MODEL, r, t, p, q, n);
    mc::transition(); mc::where("derivatives");
    eigen_ext::PrecomputedTransformComponents<double> tf(ev(r), ev(t));
    typedef typename ModelOf<MODEL, pcl::PointNormal>::type Mod;
    Eigen::Matrix<double, 6, 6> xx, xz;
    if constexpr (MODEL >= PL_LIN) { xx = Mod::compute_half_d2F_dx2(tf, ev(p), ev(q), ev(n)); xz = Mod::compute_half_d2F_dzdx(tf, ev(p), ev(q), ev(n)); }
    else { xx = Mod::compute_half_d2F_dx2(tf, ev(p), ev(q)); xz = Mod::compute_half_d2F_dzdx(tf, ev(p), ev(q)); }
    const double ad = (double) r.norm();
    const double tol = MODEL == PP_LIN || MODEL == PL_LIN ? 1e-12 : std::max(1e-11, 1e-13 / std::max(1e-12, ad * ad * ad * ad));
    const double dxx = maxdiff(b.xx, xx) / scale(b.xx), dxz = maxdiff(b.xz, xz) / scale(b.xz);
    const double use = band(MODEL, ad) == "generic" || band(MODEL, ad) == "any" ? tol : band(MODEL, ad) == "small_rotation" ? 1e-6 : 1e-4;
    MC_CHECK(dxx <= use, std::string(NAMES[MODEL]) + ":hessian:" + band(MODEL, ad), "half Hessian is off by " << dxx << " (relative; tolerance " << use << ") at rotation angle " << ad);
    MC_CHECK(dxz <= use, std::string(NAMES[MODEL]) + ":cross:" + band(MODEL, ad), "half cross derivative is off by " << dxz << " (relative; tolerance " << use << ") at rotation angle " << ad);
    mc::Hash h; for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) h.add(xx(i, j)).add(xz(i, j)); h.add(MODEL);
    mc::nontrivial(h.h); mc::state(h.h);
}
MC_FAMILY(derivatives_point_point_linearised) { derivatives<PP_LIN>(); }
MC_FAMILY(derivatives_point_point_nonlinear) { derivatives<PP_NON>(); }
MC_FAMILY(derivatives_point_plane_linearised) { derivatives<PL_LIN>(); }
MC_FAMILY(derivatives_point_plane_nonlinear) { derivatives<PL_NON>(); }

// ---- whole pipeline -------------------------------------------------------------------------------------------
template<int N> bool invert(const M<N, N>& m, M<N, N>& out) {   // Gauss-Jordan, long double
    M<N, N> a = m; out = M<N, N>::id();
    for (int c = 0; c < N; ++c) {
        int p = c; for (int i = c; i < N; ++i) if (std::fabs(a(i, c)) > std::fabs(a(p, c))) p = i;
        if (std::fabs(a(p, c)) < 1e-15L) return false;
        for (int j = 0; j < N; ++j) { std::swap(a(p, j), a(c, j)); std::swap(out(p, j), out(c, j)); }
        const L d = a(c, c);
        for (int j = 0; j < N; ++j) { a(c, j) /= d; out(c, j) /= d; }
        for (int i = 0; i < N; ++i) if (i != c) { const L f = a(i, c); for (int j = 0; j < N; ++j) { a(i, j) -= f * a(c, j); out(i, j) -= f * out(c, j); } }
    }
    return true;
}
static V3 logm(const Eigen::Matrix4f& T) {   // rotation vector through the quaternion of the largest pivot
    L m[3][3]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m[i][j] = T(i, j);
    L s = std::sqrt((m[2][1] - m[1][2]) * (m[2][1] - m[1][2]) + (m[0][2] - m[2][0]) * (m[0][2] - m[2][0]) + (m[1][0] - m[0][1]) * (m[1][0] - m[0][1])) / 2;
    L c = (m[0][0] + m[1][1] + m[2][2] - 1) / 2;
    L a = std::atan2(s, c); if (s == 0) return v3(0, 0, 0);
    return v3((m[2][1] - m[1][2]) / (2 * s) * a, (m[0][2] - m[2][0]) / (2 * s) * a, (m[1][0] - m[0][1]) / (2 * s) * a);
}
enum { IID, LLS, RANGE, BIAS };
template<typename P> void set_normal(P& p, const V3& n) { p.normal_x = (float) n(0, 0); p.normal_y = (float) n(1, 0); p.normal_z = (float) n(2, 0); }
static void set_normal(pcl::PointXYZ&, const V3&) {}
template<typename P> void set_unit(P&, const V3&) {}
static void set_unit(PointNormalUnit& p, const V3& u) { p.ux = (float) u(0, 0); p.uy = (float) u(1, 0); p.uz = (float) u(2, 0); }

template<int MODEL, typename P, typename S> Eigen::Matrix<double, 6, 6> run(FixedRegistration<P, P, S>& reg, int method, double var, double bias, int& count) {
    typedef typename ModelOf<MODEL, P>::type Mod;
    switch (method) {
        case IID: return censi_iid_covariance<Mod, S>(reg, var, count);
        case LLS: return lls_iid_covariance<Mod, S>(reg, var, count);
        case RANGE: return censi_range_covariance<Mod, S>(reg, var, count);
        default: return censi_range_bias_covariance<Mod, S>(reg, var, bias, count);
    }
}
static const std::vector<V3>& pool() {
    static std::vector<V3> v{v3(4, 0.5L, -1), v3(-3, 2, 1), v3(0.5L, -5, 2), v3(1, 3, -4), v3(-2, -2.5L, -3), v3(2, 2, 5), v3(-5, -0.5L, 0.25L)};
    return v;
}
// tie-free nearest neighbours by construction: pool points are > 3 apart, target offsets < 0.5
template<int MODEL, typename P, typename S> void pipeline(int methods) {
    static const std::vector<Pose> tfs = [] {
        std::vector<Pose> v(5);
        v[0].R = expm(v3(0.05L, -0.02L, 0.03L)); v[0].t = v3(0.2L, 0.1L, -0.05L);
        v[1].R = expm(v3(0, 0, 0.6L)); v[1].t = v3(1, -2, 0.5L);
        v[2].R = expm(v3(-0.9L, 1.1L, 0.4L)); v[2].t = v3(-3, 0, 1);
        v[3].R = expm(v3(1.2L, -1.4L, 1.6L)); v[3].t = v3(0, 0, 0);
        v[4].t = v3(0.1L, 0, 0);
        return v; }();
    static const std::vector<V3> offs{v3(0, 0, 0), v3(0.05L, -0.02L, 0.01L), v3(-0.1L, 0.2L, 0.15L), v3(0, 0, 0.45L)};
    const int method = mc::choose(methods, "method");
    const bool nonlinear = MODEL == PP_NON || MODEL == PL_NON;
    const Pose T = tfs[(size_t) mc::choose(5, "transform")];
    const int n = (int) pool().size();
    const int drop = mc::choose(n + 1, "dropped point");       // which pool point is missing (n: none)
    const int offset = mc::choose((int) offs.size(), "offset pattern");
    const int order = mc::choose(2, "target order");
    const int subset = mc::choose(3, "index subset");           // all / all but one / reversed
    const bool tight = mc::flip("tight limit");
    static const std::vector<double> vars{0.01, 2.5e-3, 1.0};
    const double var = mc::pick(vars, "variance"), bias = method == BIAS ? mc::pick(std::vector<double>{0.0, 0.04, 1.0}, "bias variance") : 0;
    typename pcl::PointCloud<P>::Ptr cs(new pcl::PointCloud<P>), ct(new pcl::PointCloud<P>);
    FixedRegistration<P, P, S> reg; reg.result = eig<S>(T).matrix();
    const Eigen::Matrix4f Tf = reg.result.template cast<float>();
    V3 r = logm(Tf), t = v3(Tf(0, 3), Tf(1, 3), Tf(2, 3));
    const V3 sensor = v3(0.3L, -0.1L, 0.2L);
    std::vector<V3> sp, tp, su, tu, tn; std::vector<double> dist; std::vector<int> slot;
    for (int i = 0; i < n; ++i) if (i != drop) {
        P a; const V3 s = flt(pool()[(size_t) i]); a.x = (float) s(0, 0); a.y = (float) s(1, 0); a.z = (float) s(2, 0);
        const V3 u = flt((s - sensor) * (1 / (s - sensor).norm())); set_unit(a, u); set_normal(a, flt(axis(i)));
        cs->push_back(a); sp.push_back(s); su.push_back(u);
        const V3 g = apply(T, s) + offs[(size_t) ((i * offset + offset) % (int) offs.size())] * (offset == 0 ? 0 : 1);
        const V3 q = flt(g); tp.push_back(q); tu.push_back(flt((q - sensor) * (1 / (q - sensor).norm()))); tn.push_back(flt(axis((i * 3 + 1) % AXES)));
        dist.push_back((double) (apply(T, s) - q).norm());
    }
    const int m = (int) sp.size(); slot.resize((size_t) m);
    for (int k = 0; k < m; ++k) {
        const int i = order ? (k * 2 + 1) % m : k;   // a permutation for odd m; for even m fall back to reversal below
        const int j = order && m % 2 == 0 ? m - 1 - k : i;
        P b; b.x = (float) tp[(size_t) j](0, 0); b.y = (float) tp[(size_t) j](1, 0); b.z = (float) tp[(size_t) j](2, 0);
        set_unit(b, tu[(size_t) j]); set_normal(b, tn[(size_t) j]); ct->push_back(b);
    }
    const double limit = tight ? 0.2 : 1.0;
    reg.setInputSource(cs); reg.setInputTarget(ct); reg.setMaxCorrespondenceDistance(limit);
    std::vector<int> used;
    pcl::IndicesPtr idx(new pcl::Indices);
    for (int i = 0; i < m; ++i) { if (subset == 1 && i == 1) continue; used.push_back(i); }
    if (subset == 2) std::reverse(used.begin(), used.end());
    for (int i : used) idx->push_back(i);
    if (subset) reg.setIndices(idx);
    pcl::PointCloud<P> aligned; reg.align(aligned);
    M6 H; std::vector<int> corr;
    for (int i : used) { if (std::fabs(dist[(size_t) i] - limit) < 1e-3) mc::prune(); if (dist[(size_t) i] <= limit) corr.push_back(i); }
    std::vector<M6> xz;
    for (int i : corr) { const Blocks b = reference(MODEL, r, t, sp[(size_t) i], tp[(size_t) i], tn[(size_t) i]); H = H + b.xx; xz.push_back(b.xz); }
    M6 Hi; const bool ok = corr.size() >= 3 && invert<6>(H, Hi);
    const double cond = ok ? (double) (H.norm() * Hi.norm()) : 1e300;
    mc::transition(); mc::where("covariance");
    int count = -1;
    const Eigen::Matrix<double, 6, 6> C = run<MODEL, P, S>(reg, method, var, bias, count);
    const std::string key = std::string(NAMES[MODEL]) + ":" + (method == IID ? "iid" : method == LLS ? "lls" : method == RANGE ? "range" : "range_bias");
    MC_CHECK(count == (int) corr.size(), key + ":count", "reports " << count << " correspondences, there are " << corr.size());
    if (cond > 1e5) { mc::note("ill_conditioned"); return; }   // not judged
    M6 ref;
    if (method == LLS) ref = Hi * (L) var;
    else {
        M6 mid;
        if (method == IID) { for (auto& b : xz) mid = mid + b * b.T(); mid = mid * (L) var; }
        else {
            V6 acc;
            for (size_t k = 0; k < corr.size(); ++k) {
                V6 us, ut; for (int d = 0; d < 3; ++d) { us(d, 0) = su[(size_t) corr[k]](d, 0); ut(d + 3, 0) = tu[(size_t) corr[k]](d, 0); }
                const V6 a = xz[k] * us, b = xz[k] * ut;
                mid = mid + (a * a.T() + b * b.T()) * (L) var; acc = acc + a + b;
            }
            if (method == BIAS) mid = mid + (acc * acc.T()) * (L) bias;
        }
        ref = Hi * mid * Hi;
    }
    double sc = 1e-30; for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) sc = std::max(sc, (double) std::fabs(ref(i, j)));
    const double d = maxdiff(ref, C) / sc, tol = 1e-7 * std::max(100.0, cond);
    MC_CHECK(d <= tol, key + ":value", "covariance is off by " << d << " (relative; tolerance " << tol << ", condition " << cond << ")");
    const double asym = (C - C.transpose()).cwiseAbs().maxCoeff() / sc;
    MC_CHECK(asym < 1e-9 * std::max(10.0, cond), key + ":symmetric", "asymmetry " << asym);
    if (method != LLS || !nonlinear) {
        Eigen::SelfAdjointEigenSolver<Eigen::Matrix<double, 6, 6>> es(0.5 * (C + C.transpose()));
        MC_CHECK(es.eigenvalues()(0) >= -1e-8 * sc * std::max(1.0, cond), key + ":psd", "smallest eigenvalue " << es.eigenvalues()(0) << " at scale " << sc);
    }
    mc::Hash h; for (int i = 0; i < 36; ++i) h.add((double) (float) C(i / 6, i % 6)); mc::nontrivial(h.h); mc::state(h.h);
}
MC_FAMILY(pipeline_point_point_linearised) { pipeline<PP_LIN, PointNormalUnit, float>(4); }
MC_FAMILY(pipeline_point_point_nonlinear) { pipeline<PP_NON, PointNormalUnit, float>(4); }
MC_FAMILY(pipeline_point_plane_linearised) { pipeline<PL_LIN, PointNormalUnit, float>(4); }
MC_FAMILY(pipeline_point_plane_nonlinear) { pipeline<PL_NON, PointNormalUnit, float>(4); }
MC_FAMILY(pipeline_xyz_double) { pipeline<PP_LIN, pcl::PointXYZ, double>(2); }
MC_FAMILY(pipeline_normal_double) { pipeline<PL_NON, pcl::PointNormal, double>(2); }

// ---- configuration --------------------------------------------------------------------------------------------
MC_FAMILY(configuration) {
    static const std::vector<std::string> names{"CONSTANT", "CENSI", "LLS", "POINT_TO_POINT_LINEARISED", "POINT_TO_POINT_NONLINEAR", "POINT_TO_PLANE_LINEARISED", "POINT_TO_PLANE_NONLINEAR", "VOXEL_SIZE", "RANGE", "RANGE_BIAS", "", "constant", "RANGE ", "UNKNOWN"};
    const int a = mc::choose((int) names.size(), "first"), b = mc::choose((int) names.size(), "second");
    mc::transition();
    auto rt = [&](auto f, int i, int lo, int hi, int extra, const char* what) {
        std::string s; const bool t = mc::throws([&] { s = serpent::to_string(f(names[(size_t) i])); });
        const bool valid = (i >= lo && i <= hi) || i == extra;
        MC_CHECK(t == !valid, std::string("configuration:") + what, "\"" << names[(size_t) i] << "\" " << (t ? "was refused" : "was accepted"));
        if (valid) MC_CHECK(s == names[(size_t) i], std::string("configuration:") + what, names[(size_t) i] << " became " << s);
        return valid;
    };
    const bool m = rt([](const std::string& s) { return to_covariance_estimation_method(s); }, a, 0, 2, -1, "method");
    rt([](const std::string& s) { return to_covariance_estimation_model(s); }, a, 3, 6, -1, "model");
    const bool p = rt([](const std::string& s) { return to_point_covariance_method(s); }, b, 7, 9, 0, "point method");
    bool need = false; const bool t = mc::throws([&] { need = requires_unit_vectors(names[(size_t) a], names[(size_t) b]); });
    MC_CHECK(t == !(m && p), "configuration:unit_vectors", "requires_unit_vectors(" << names[(size_t) a] << "," << names[(size_t) b] << ") throws " << t);
    if (m && p) MC_CHECK(need == (a != 0 && (b == 8 || b == 9)), "configuration:unit_vectors", "requires_unit_vectors(" << names[(size_t) a] << "," << names[(size_t) b] << ") = " << need);
    mc::nontrivial((uint64_t) (a * 32 + b));
}
MC_FAMILY(range_methods_need_unit_vectors) {
    const int method = mc::choose(2, "method");
    FixedRegistration<pcl::PointNormal, pcl::PointNormal, float> reg;
    pcl::PointCloud<pcl::PointNormal>::Ptr c(new pcl::PointCloud<pcl::PointNormal>); for (auto& v : pool()) { pcl::PointNormal p; p.x = (float) v(0, 0); p.y = (float) v(1, 0); p.z = (float) v(2, 0); p.normal_x = 1; c->push_back(p); }
    reg.setInputSource(c); reg.setInputTarget(c); reg.setMaxCorrespondenceDistance(1); pcl::PointCloud<pcl::PointNormal> out; reg.align(out);
    int n = 0; mc::transition();
    MC_CHECK(mc::throws([&] { run<PP_LIN, pcl::PointNormal, float>(reg, method ? BIAS : RANGE, 0.1, 0.1, n); }), "range:refused", "range noise model accepted on points without unit vectors");
    mc::nontrivial((uint64_t) method);
}

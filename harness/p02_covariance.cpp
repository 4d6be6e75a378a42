// P02: covariance validity, reordering, frame change, rotation, composition; small matrix helpers.
#include "mc.hpp"
#include "ref.hpp"
#include <eigen_ext/covariance.hpp>
#include <eigen_ext/geometry.hpp>
using namespace ref;
template<typename S> double tol();
template<> double tol<double>() { return 1e-9; }
template<> double tol<float>() { return 3e-4; }

// ---- validity --------------------------------------------------------------------------------------------------
// Reference: exact symmetric-PD decision by fraction-free leading principal minors in long double. Cases closer to the
// boundary than 1e-6 are not judged (rounding of any Cholesky-type test may go either way).
static int pd(const std::vector<std::vector<L>>& a) {   // 1 yes, 0 no, -1 borderline
    const size_t n = a.size();
    std::vector<std::vector<L>> m = a;
    int res = 1;
    for (size_t k = 0; k < n; ++k) {
        if (m[k][k] < -1e-6L) return 0;
        if (m[k][k] < 1e-6L) return -1;
        for (size_t i = k + 1; i < n; ++i) { L f = m[i][k] / m[k][k]; for (size_t j = k; j < n; ++j) m[i][j] -= f * m[k][j]; }
    }
    return res;
}

template<typename Mat> void judge(const Mat& m, typename Mat::Scalar prec, bool want, const std::string& what) {
    typedef typename Mat::Scalar S;
    bool got = eigen_ext::is_valid_covariance(m, prec);
    mc::transition();
    std::ostringstream o; o << m;
    MC_CHECK(got == want, std::string("is_valid_covariance:") + (want ? "rejects_valid" : "accepts_invalid"), what << ": is_valid_covariance = " << got << " for\n" << o.str() << "\nprecision " << prec);
    if (want) {
        MC_CHECK(eigen_ext::is_positive_definite(m), "is_positive_definite", "valid covariance not positive definite");
        MC_CHECK(eigen_ext::is_symmetric(m, prec), "is_symmetric", "valid covariance not symmetric");
    }
    mc::Hash h; for (int i = 0; i < m.size(); ++i) h.add((double) m.data()[i]); h.add((double) prec);
    mc::nontrivial(h.h);
}

template<typename Mat> void small_sym() {
    typedef typename Mat::Scalar S;
    const std::vector<double> diag{-1, -0.25, 0.0, 0.5, 1, 3}, off{-1, -0.5, 0, 0.75, 2};
    constexpr int n = Mat::RowsAtCompileTime;
    Mat m; std::vector<std::vector<L>> r(n, std::vector<L>(n));
    for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) { double v = i == j ? mc::pick(diag, "d") : mc::pick(off, "o"); m(i, j) = m(j, i) = (S) v; r[i][j] = r[j][i] = v; }
    int e = pd(r);
    if (e < 0) mc::prune();
    judge(m, (S) 0, e == 1, "symmetric");
}
MC_FAMILY(sym1) { small_sym<Eigen::Matrix<double, 1, 1>>(); }
MC_FAMILY(sym2) { small_sym<Eigen::Matrix2d>(); }
MC_FAMILY(sym2f) { small_sym<Eigen::Matrix2f>(); }
MC_FAMILY(sym3) { small_sym<Eigen::Matrix3d>(); }
MC_FAMILY(sym3f) { small_sym<Eigen::Matrix3f>(); }

template<int n, typename S> Eigen::Matrix<S, n, n> base_cov(int which) {
    Eigen::Matrix<S, n, n> m;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
        double off = which == 0 ? 0.0 : which == 1 ? 0.01 * (std::min(i, j) * 7 + std::max(i, j)) / 50.0 : (((i + j) & 1) ? -0.08 : 0.05);
        m(i, j) = (S) (i == j ? 0.5 + 0.3 * i : off);
    }
    return m;
}

// One entry at a time replaced: NaN/Inf anywhere, asymmetry anywhere, negative/zero diagonal anywhere.
template<int n, typename S> void perturb(bool dynamic) {
    const int which = mc::choose(3, "base");
    Eigen::Matrix<S, n, n> m = base_cov<n, S>(which);
    const int i = mc::choose(n, "row"), j = mc::choose(n, "col");
    const int kind = mc::choose(9, "perturbation");
    const std::vector<double> precs{0, 1e-3, 0.2};
    const double prec = mc::pick(precs, "precision");
    bool want = true;
    const double asym = (kind == 4 ? 5e-4 : kind == 5 ? 0.02 : kind == 6 ? -0.03 : 0);
    switch (kind) {
        case 0: break;
        case 1: m(i, j) = std::numeric_limits<S>::quiet_NaN(); want = false; break;
        case 2: m(i, j) = std::numeric_limits<S>::infinity(); want = false; break;
        case 3: m(i, j) = -std::numeric_limits<S>::infinity(); want = false; break;
        case 4: case 5: case 6:
            if (i == j) mc::prune();
            m(i, j) += (S) asym; want = std::fabs(asym) < prec; break;
        case 7: if (i != j) mc::prune(); m(i, i) = (S) -0.1; want = false; break;
        case 8: if (i != j) mc::prune(); m(i, i) = 0; if (which == 0) {} want = false; break;
    }
    if (mc::replaying()) { std::ostringstream o; o << "entry (" << i << "," << j << ") kind " << kind << " precision " << prec; mc::note(o.str()); }
    if (kind == 8 && which == 0) { /* exactly singular diagonal matrix: Cholesky hits an exact zero */ }
    if (dynamic) { Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> d = m; judge(d, (S) prec, want, "perturbed dynamic"); }
    else judge(m, (S) prec, want, "perturbed");
}
MC_FAMILY(perturb2) { perturb<2, double>(false); }
MC_FAMILY(perturb3) { perturb<3, double>(false); }
MC_FAMILY(perturb4f) { perturb<4, float>(false); }
MC_FAMILY(perturb6) { perturb<6, double>(false); }
MC_FAMILY(perturb6f) { perturb<6, float>(false); }
MC_FAMILY(perturb6_dynamic) { perturb<6, double>(true); }
MC_FAMILY(perturb9) { perturb<9, double>(false); }

MC_FAMILY(non_square) {
    const int r = 1 + mc::choose(4, "rows"), c = 1 + mc::choose(4, "cols");
    if (r == c) mc::prune();
    Eigen::MatrixXd m = Eigen::MatrixXd::Zero(r, c); for (int i = 0; i < std::min(r, c); ++i) m(i, i) = 1;
    mc::where("is_valid_covariance(non-square)");
    MC_CHECK(!eigen_ext::is_valid_covariance(m), "is_valid_covariance:non_square", "non-square accepted");
    MC_CHECK(mc::throws([&] { eigen_ext::reorder_covariance(m, 1); }), "reorder_covariance:non_square", "non-square matrix reordered");
    mc::where(""); mc::transition(2); mc::nontrivial(mc::Hash().add(r).add(c).h);
}

// is_symmetric on its own, including the tolerance and every position
template<int n> void symm() {
    Eigen::Matrix<double, n, n> m = base_cov<n, double>(mc::choose(3, "base"));
    const int i = mc::choose(n, "row"), j = mc::choose(n, "col");
    const std::vector<double> d{0, 1e-6, -1e-6, 0.5, -0.5}, p{0, 1e-9, 1e-3, 1};
    const double delta = mc::pick(d, "delta"), prec = mc::pick(p, "precision");
    if (i != j) m(i, j) += delta;
    const bool want = i == j || delta == 0 || std::fabs(delta) < prec;
    mc::transition();
    MC_CHECK(eigen_ext::is_symmetric(m, prec) == want, "is_symmetric", "is_symmetric wrong: entry (" << i << "," << j << ") off by " << delta << " precision " << prec);
    mc::nontrivial(mc::Hash().add(n).add(i).add(j).add(delta).add(prec).h);
}
MC_FAMILY(symm2) { symm<2>(); }
MC_FAMILY(symm3) { symm<3>(); }
MC_FAMILY(symm6) { symm<6>(); }

// ---- reorder ---------------------------------------------------------------------------------------------------
template<typename Mat> void reorder(int n) {
    typedef typename Mat::Scalar S;
    const int b = mc::choose(n + 3, "boundary");
    const bool sym = mc::flip("symmetric");
    Mat m(n, n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m(i, j) = (S) (sym ? 1 + std::min(i, j) * 10 + std::max(i, j) : 1 + i * 10 + j);
    mc::transition();
    if (b == 0 || b >= n) {
        MC_CHECK(mc::throws([&] { eigen_ext::reorder_covariance(m, b); }), "reorder_covariance:boundary", "boundary " << b << " of size " << n << " accepted");
        return;
    }
    mc::where("reorder_covariance");
    const Mat r = eigen_ext::reorder_covariance(m, b);
    mc::where("");
    MC_CHECK(r.rows() == n && r.cols() == n, "reorder_covariance:size", "size changed");
    auto idx = [&](int k) { return k < n - b ? k + b : k - (n - b); };
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) MC_CHECK(r(i, j) == m(idx(i), idx(j)), "reorder_covariance", "entry (" << i << "," << j << ") is not that of the permuted variables, boundary " << b);
    // reordering back restores
    const Mat back = eigen_ext::reorder_covariance(r, n - b);
    MC_CHECK(back == m, "reorder_covariance:roundtrip", "reordering twice does not restore the matrix");
    mc::nontrivial(mc::Hash().add(n).add(b).add((int) sym).add((int) Mat::RowsAtCompileTime).h);
}
MC_FAMILY(reorder2) { reorder<Eigen::Matrix2d>(2); }
MC_FAMILY(reorder3) { reorder<Eigen::Matrix3d>(3); }
MC_FAMILY(reorder4) { reorder<Eigen::Matrix4f>(4); }
MC_FAMILY(reorder6) { reorder<Eigen::Matrix<double, 6, 6>>(6); }
MC_FAMILY(reorder9) { reorder<Eigen::Matrix<double, 9, 9>>(9); }
MC_FAMILY(reorder_dynamic) { reorder<Eigen::MatrixXd>(2 + mc::choose(5, "n")); }

// ---- rotation, frame change, composition ---------------------------------------------------------------------------
static Pose choose_pose(const char* label) {
    static const std::vector<M3> all = rotations();
    static const std::vector<V3> tr{v3(0, 0, 0), v3(1, 2, 3), v3(-5.5L, 0.25L, -1), v3(0, 0, 7)};
    Pose p; p.R = mc::pick(all, label); p.t = mc::pick(tr, "translation");
    return rounded<double>(p);
}
template<typename S> void rotcov() {
    static const std::vector<M3> all = rotations();
    const M3 R = mc::pick(all, "R");
    const int which = mc::choose(9, "covariance");
    Eigen::Matrix<S, 3, 3> C = Eigen::Matrix<S, 3, 3>::Zero();
    if (which < 6) { int i = which < 3 ? which : (which - 3), j = which < 3 ? which : (which - 2) % 3; C(i, j) = C(j, i) = (S) 0.5; }
    else C = base_cov<3, S>(which - 6);
    Eigen::Matrix<S, 3, 3> Re; for (int i = 0; i < 9; ++i) Re(i / 3, i % 3) = (S) R(i / 3, i % 3);
    const M3 want = R * from<3, 3>(C) * R.T();
    const Eigen::Matrix<S, 3, 3> a = eigen_ext::rotate_point_covariance(C, Re);
    const Eigen::Quaternion<S> q(Re);
    const Eigen::AngleAxis<S> aa(Re);
    const Eigen::Matrix<S, 3, 3> b = eigen_ext::rotate_point_covariance(C, q), c = eigen_ext::rotate_point_covariance(C, aa);
    mc::transition(3);
    const double t = std::sqrt(tol<S>()) * 0.05;
    MC_CHECK(maxdiff(want, a) < t && maxdiff(want, b) < t && maxdiff(want, c) < t, "rotate_point_covariance", "R C R^T wrong");
    mc::nontrivial(mc::Hash().add((double) want(0, 0)).add((double) want(0, 1)).add((double) want(1, 2)).add((double)want(2,2)).h);
}
MC_FAMILY(rotate_point_cov) { rotcov<double>(); }
MC_FAMILY(rotate_point_cov_f) { rotcov<float>(); }

static Eigen::Matrix<double, 6, 6> choose_cov6(const char* label, bool allow_unit) {
    const int which = mc::choose(allow_unit ? 3 + 21 : 4, label);
    if (which < 3) return base_cov<6, double>(which);
    if (!allow_unit) return Eigen::Matrix<double, 6, 6>::Zero();
    Eigen::Matrix<double, 6, 6> m = Eigen::Matrix<double, 6, 6>::Zero();
    int k = which - 3; for (int i = 0; i < 6; ++i) for (int j = i; j < 6; ++j) if (k-- == 0) { m(i, j) = m(j, i) = 1; }
    return m;
}
MC_FAMILY(frame_change) {
    const Pose T = choose_pose("T_B_A");
    const Eigen::Matrix<double, 6, 6> C = choose_cov6("cov", true);
    const M6 A = adjoint(T), want = A * from<6, 6>(C) * A.T();
    const Eigen::Matrix<double, 6, 6> a = eigen_ext::change_covariance_frame(C, eig<double>(T));
    Eigen::Matrix<double, 6, 6> Ae; for (int i = 0; i < 36; ++i) Ae(i / 6, i % 6) = (double) A(i / 6, i % 6);
    const Eigen::Matrix<double, 6, 6> b = eigen_ext::change_covariance_frame(C, Ae);
    mc::transition(2);
    MC_CHECK(maxdiff(want, a) < 1e-8, "change_covariance_frame", "Ad C Ad^T wrong (transform overload)");
    MC_CHECK(maxdiff(want, b) < 1e-8, "change_covariance_frame:adjoint", "Ad C Ad^T wrong (adjoint overload)");
    const Eigen::Matrix<double, 6, 6> back = eigen_ext::change_covariance_frame(a, eig<double>(inv(T)));
    mc::transition();
    MC_CHECK((back - C).cwiseAbs().maxCoeff() < 1e-6, "change_covariance_frame:roundtrip", "changing frame there and back does not restore the covariance");
    mc::nontrivial(mc::Hash().add((double) want(0, 0)).add((double) want(3, 0)).add((double) want(5, 4)).add((double)want(3,3)).h);
}
MC_FAMILY(compose) {
    const Pose T = choose_pose("relative_transform");
    const Eigen::Matrix<double, 6, 6> P = choose_cov6("previous", false), Q = choose_cov6("relative", false);
    const int x = mc::choose(4, "cross");
    Eigen::Matrix<double, 6, 6> X = Eigen::Matrix<double, 6, 6>::Zero();
    if (x >= 2) for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) X(i, j) = x == 2 ? 0.01 * (i * 6 + j) : (i < j ? 0.03 : -0.02);
    const M6 A = adjoint(inv(T));
    const M6 xr = from<6, 6>(X);
    const M6 want = A * from<6, 6>(P) * A.T() + from<6, 6>(Q) + xr * A.T() + A * xr.T();
    const Eigen::Matrix<double, 6, 6> got = x == 0 ? eigen_ext::compose_transform_covariance<double, 3>(P, Q, eig<double>(T)) : eigen_ext::compose_transform_covariance<double, 3>(P, Q, eig<double>(T), X);
    mc::transition();
    MC_CHECK(maxdiff(want, got) < 1e-7, "compose_transform_covariance", "composition formula wrong, cross=" << x);
    MC_CHECK((got - got.transpose()).cwiseAbs().maxCoeff() < 1e-8, "compose_transform_covariance:symmetric", "composed covariance not symmetric");
    mc::nontrivial(mc::Hash().add((double) want(0, 0)).add((double) want(3, 0)).add((double) want(5, 4)).add((double) want(3, 3)).h);
}
// Odometry histories: covariance composed along every motion sequence equals the reference recursion and stays valid.
MC_FAMILY(compose_histories) {
    static const std::vector<M3> R = rotations();
    static const std::vector<Pose> moves = [] { std::vector<Pose> m; int ri[] = {0, 3, 13, 24, 30, 8}; for (int i = 0; i < 6; ++i) { Pose p; p.R = R[(size_t) ri[i]]; p.t = v3(0.5L * i - 1, 0.3L, -0.2L * i); m.push_back(rounded<double>(p)); } return m; }();
    const int depth = mc::thorough() ? 6 : 4;
    Eigen::Matrix<double, 6, 6> C = base_cov<6, double>(1) * 0.1; M6 r = from<6, 6>(C);
    Pose at;
    for (int d = 0; d < depth; ++d) {
        const Pose& m = moves[(size_t) mc::choose((int) moves.size(), "motion")];
        const Eigen::Matrix<double, 6, 6> Q = base_cov<6, double>(1 + (d & 1)) * 0.01;
        C = eigen_ext::compose_transform_covariance<double, 3>(C, Q, eig<double>(m));
        const M6 A = adjoint(inv(m)); r = A * r * A.T() + from<6, 6>(Q);
        at = at * m;
        mc::transition();
        MC_CHECK(maxdiff(r, C) < 1e-6, "compose_history", "covariance recursion differs after " << d + 1 << " motions");
        MC_CHECK(eigen_ext::is_valid_covariance(C, 1e-8), "compose_history:valid", "composed covariance not valid after " << d + 1 << " motions");
        mc::state(mc::Hash().add((double) r(0, 0)).add((double) r(3, 3)).add((double) at.t(0, 0)).h);
    }
    mc::nontrivial(mc::Hash().add((double) r(0, 0)).add((double) r(4, 3)).add((double) at.t(0, 0)).h);
}

// ---- matrix helpers ---------------------------------------------------------------------------------------------------
MC_FAMILY(skew_roundtrip) {
    const std::vector<double> c{-3, -1, 0, 1e-6, 2, 100};
    Eigen::Vector3d v(mc::pick(c, "x"), mc::pick(c, "y"), mc::pick(c, "z")), u(mc::pick(c, "ux"), 1.5, -2);
    const Eigen::Matrix3d S = eigen_ext::skew_symmetric(v);
    mc::transition(2);
    MC_CHECK((S * u - v.cross(u)).norm() < 1e-9, "skew_symmetric", "[v]x u != v x u");
    MC_CHECK((S + S.transpose()).norm() == 0, "skew_symmetric:antisym", "not skew symmetric");
    MC_CHECK(eigen_ext::from_skew_symmetric(S) == v, "from_skew_symmetric", "round trip");
    mc::nontrivial(mc::Hash().add(v[0]).add(v[1]).add(v[2]).h);
}
MC_FAMILY(from_skew_rejects) {
    const int i = mc::choose(3, "row"), j = mc::choose(3, "col");
    const std::vector<double> d{0.5, -0.5, 3, -1e-3, 1e-3};
    const std::vector<Eigen::Vector3d> vs{{1, 2, 3}, {0, 0, 0}, {-1, 0.5, 0}};
    Eigen::Matrix3d m = eigen_ext::skew_symmetric(mc::pick(vs, "v"));
    m(i, j) += mc::pick(d, "delta");
    mc::transition();
    MC_CHECK(mc::throws([&] { eigen_ext::from_skew_symmetric(m); }), "from_skew_symmetric:rejects", "matrix that is not skew-symmetric accepted, entry (" << i << "," << j << ")");
    mc::nontrivial(mc::Hash().add(i).add(j).add(m(i, j)).h);
}
MC_FAMILY(interp) {
    const std::vector<double> c{-2, 0, 0.5, 3}, s{-1, 0, 0.25, 0.5, 1, 2};
    Eigen::Vector3d a(mc::pick(c, "a0"), mc::pick(c, "a1"), 1), b(mc::pick(c, "b0"), mc::pick(c, "b1"), -4);
    const double t = mc::pick(s, "interp");
    const Eigen::Vector3d r = eigen_ext::linear_interpolate(a, b, t);
    mc::transition();
    for (int i = 0; i < 3; ++i) MC_CHECK(mc::close(r[i], a[i] + t * (b[i] - a[i]), 1e-12), "linear_interpolate", "wrong at element " << i << " t=" << t);
    Eigen::Matrix2d A, B; A << a[0], a[1], b[0], 1; B << b[1], a[0], -1, 2;
    const Eigen::Matrix2d M = eigen_ext::linear_interpolate(A, B, t);
    MC_CHECK((M - (A + t * (B - A))).norm() < 1e-12, "linear_interpolate:matrix", "matrix interpolation wrong");
    mc::nontrivial(mc::Hash().add(r[0]).add(r[1]).add(t).h);
}
template<typename S> void normalise() {
    const std::vector<double> c{-4, -1e-3, -1e-9, 0, 1e-9, 1e-3, 1, 5};
    const S x = (S) mc::pick(c, "x"), y = (S) mc::pick(c, "y"), z = (S) mc::pick(c, "z");
    mc::transition(2);
    const Eigen::Matrix<S, 3, 1> v(x, y, z);
    if (x == 0 && y == 0 && z == 0) {
        MC_CHECK(mc::throws([&] { eigen_ext::safe_normalise<S>(x, y, z); }) && mc::throws([&] { eigen_ext::safe_normalise(v); }), "safe_normalise:zero", "zero vector normalised");
        return;
    }
    const Eigen::Matrix<S, 3, 1> a = eigen_ext::safe_normalise<S>(x, y, z), b = eigen_ext::safe_normalise(v);
    const L n = std::sqrt((L) x * x + (L) y * y + (L) z * z);
    for (int i = 0; i < 3; ++i) MC_CHECK(std::fabs((double) ((L) v[i] / n - (L) a[i])) < tol<S>() && a[i] == b[i], "safe_normalise", "not the unit vector");
    mc::nontrivial(mc::Hash().add((double) x).add((double) y).add((double) z).h);
}
MC_FAMILY(normalise_d) { normalise<double>(); }
MC_FAMILY(normalise_f) { normalise<float>(); }
MC_FAMILY(diag) {
    const std::vector<double> c{0, 1e-9, 1, 4};
    Eigen::Matrix3d m = Eigen::Matrix3d::Constant(0.7); bool nz = true;
    for (int i = 0; i < 3; ++i) { m(i, i) = mc::pick(c, "d"); nz &= m(i, i) != 0; }
    mc::transition();
    MC_CHECK(eigen_ext::non_zero_diagonals(m) == nz, "non_zero_diagonals", "wrong");
}

// Reference arithmetic in long double, independent of the code under test and of Eigen's algorithms.
#pragma once
#include <array>
#include <cmath>
#include <vector>
#include <Eigen/Core>
#include <Eigen/Geometry>

namespace ref {
typedef long double L;
template<int R, int C> struct M {
    L v[R][C];
    M() { for (auto& r : v) for (auto& x : r) x = 0; }
    L& operator()(int i, int j) { return v[i][j]; }
    L operator()(int i, int j) const { return v[i][j]; }
    static M id() { M m; for (int i = 0; i < R && i < C; ++i) m(i, i) = 1; return m; }
    M<C, R> T() const { M<C, R> m; for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) m(j, i) = v[i][j]; return m; }
    M operator+(const M& o) const { M m; for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) m(i, j) = v[i][j] + o(i, j); return m; }
    M operator-(const M& o) const { M m; for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) m(i, j) = v[i][j] - o(i, j); return m; }
    M operator*(L s) const { M m; for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) m(i, j) = v[i][j] * s; return m; }
    template<int K> M<R, K> operator*(const M<C, K>& o) const {
        M<R, K> m; for (int i = 0; i < R; ++i) for (int j = 0; j < K; ++j) { L s = 0; for (int k = 0; k < C; ++k) s += v[i][k] * o(k, j); m(i, j) = s; } return m;
    }
    L norm() const { L s = 0; for (auto& r : v) for (auto& x : r) s += x * x; return std::sqrt(s); }
};
typedef M<3, 3> M3; typedef M<4, 4> M4; typedef M<3, 1> V3; typedef M<6, 6> M6; typedef M<6, 1> V6;

template<int R, int C, typename D> M<R, C> from(const Eigen::MatrixBase<D>& e) {
    M<R, C> m; for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) m(i, j) = static_cast<L>(e(i, j)); return m;
}
template<int R, int C, typename D> double maxdiff(const M<R, C>& m, const Eigen::MatrixBase<D>& e) {
    double d = 0;
    if (e.rows() != R || e.cols() != C) return INFINITY;
    for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) {
        double x = static_cast<double>(std::fabs(m(i, j) - static_cast<L>(e(i, j))));
        if (!(x <= d)) d = std::isnan(x) ? INFINITY : x;
    }
    return d;
}
template<int R, int C> double maxdiff(const M<R, C>& a, const M<R, C>& b) {
    double d = 0; for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) { double x = (double) std::fabs(a(i, j) - b(i, j)); if (!(x <= d)) d = std::isnan(x) ? INFINITY : x; } return d;
}
inline V3 v3(L x, L y, L z) { V3 v; v(0, 0) = x; v(1, 0) = y; v(2, 0) = z; return v; }
inline M3 skew(const V3& v) { M3 m; m(0, 1) = -v(2, 0); m(0, 2) = v(1, 0); m(1, 0) = v(2, 0); m(1, 2) = -v(0, 0); m(2, 0) = -v(1, 0); m(2, 1) = v(0, 0); return m; }
// Rodrigues
inline M3 expm(const V3& r) {
    L a = r.norm(); M3 K = skew(r);
    L s, c;
    if (a < 1e-9L) { s = 1 - a * a / 6; c = 0.5L - a * a / 24; } else { s = std::sin(a) / a; c = (1 - std::cos(a)) / (a * a); }
    return M3::id() + K * s + (K * K) * c;
}
inline L dot(const V3& a, const V3& b) { return a(0, 0) * b(0, 0) + a(1, 0) * b(1, 0) + a(2, 0) * b(2, 0); }
inline V3 cross(const V3& a, const V3& b) { return skew(a) * b; }

struct Pose { M3 R = M3::id(); V3 t; };
inline Pose operator*(const Pose& a, const Pose& b) { Pose c; c.R = a.R * b.R; c.t = a.R * b.t + a.t; return c; }
inline Pose inv(const Pose& a) { Pose c; c.R = a.R.T(); c.t = (c.R * a.t) * -1; return c; }
inline V3 apply(const Pose& a, const V3& p) { return a.R * p + a.t; }
inline M4 mat(const Pose& p) { M4 m = M4::id(); for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) m(i, j) = p.R(i, j); m(i, 3) = p.t(i, 0); } return m; }
inline M6 adjoint(const Pose& p) {
    M6 m; M3 b = skew(p.t) * p.R;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { m(i, j) = p.R(i, j); m(i + 3, j + 3) = p.R(i, j); m(i + 3, j) = b(i, j); }
    return m;
}
template<typename S> Eigen::Transform<S, 3, Eigen::Isometry> eig(const Pose& p) {
    Eigen::Transform<S, 3, Eigen::Isometry> t = Eigen::Transform<S, 3, Eigen::Isometry>::Identity();
    for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) t.matrix()(i, j) = static_cast<S>(p.R(i, j)); t.matrix()(i, 3) = static_cast<S>(p.t(i, 0)); }
    return t;
}
template<typename S> Pose pose(const Eigen::Transform<S, 3, Eigen::Isometry>& t) {
    Pose p; for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) p.R(i, j) = t.matrix()(i, j); p.t(i, 0) = t.matrix()(i, 3); } return p;
}
inline M3 quat(L w, L x, L y, L z) {
    L n = std::sqrt(w * w + x * x + y * y + z * z); w /= n; x /= n; y /= n; z /= n;
    M3 m;
    m(0, 0) = 1 - 2 * (y * y + z * z); m(0, 1) = 2 * (x * y - w * z); m(0, 2) = 2 * (x * z + w * y);
    m(1, 0) = 2 * (x * y + w * z); m(1, 1) = 1 - 2 * (x * x + z * z); m(1, 2) = 2 * (y * z - w * x);
    m(2, 0) = 2 * (x * z - w * y); m(2, 1) = 2 * (y * z + w * x); m(2, 2) = 1 - 2 * (x * x + y * y);
    return m;
}
// Rotations: the 24 proper rotations of the cube, plus generic, tiny and near-half-turn ones.
inline std::vector<M3> rotations(bool extra = true) {
    std::vector<M3> out;
    int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    for (auto& p : perm) for (int s = 0; s < 8; ++s) {
        M3 m; for (int i = 0; i < 3; ++i) m(i, p[i]) = (s >> i & 1) ? -1 : 1;
        L det = m(0, 0) * (m(1, 1) * m(2, 2) - m(1, 2) * m(2, 1)) - m(0, 1) * (m(1, 0) * m(2, 2) - m(1, 2) * m(2, 0)) + m(0, 2) * (m(1, 0) * m(2, 1) - m(1, 1) * m(2, 0));
        if (det > 0) out.push_back(m);
    }
    if (extra) {
        out.push_back(quat(0.8L, 0.1L, 0.05L, 0.2L));
        out.push_back(quat(0.17L, 0.68L, 0.55L, 0.14L));
        out.push_back(quat(0.3L, -0.5L, 0.2L, 0.7L));
        out.push_back(quat(-0.4L, 0.2L, -0.7L, 0.15L));
        out.push_back(expm(v3(1e-9L, 0, 0)));
        out.push_back(expm(v3(2e-4L, -1e-4L, 3e-4L)));
        out.push_back(expm(v3(0, 3.1L, 0)));
        out.push_back(expm(v3(-1.8L, 1.8L, -1.8L)));
    }
    return out;
}
// Scalar-exact pose: rotations/translations rounded to S so that oracle and code see the same numbers.
template<typename S> Pose rounded(const Pose& p) { return pose<S>(eig<S>(p)); }
}

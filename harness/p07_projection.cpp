// P07: stereo projection and back-projection are inverse and follow the pinhole stereo model.
#include "mc.hpp"
#include <stdexcept>
#include <serpent/front_end/stereo/stereo_equations.hpp>
using namespace serpent;
template<typename S> struct Cam { Eigen::Matrix<S, 3, 3> K; S b; };
template<typename S> Cam<S> cam() {
    const std::vector<std::array<double, 5>> c{{400, 420, 320, 240, 0.1}, {1, 1, 0, 0, 1}, {700, 350, 10, -20, 0.5}, {50, 75.5, 31.25, 12.5, 2}};
    const auto& p = mc::pick(c, "camera");
    Cam<S> k; k.K << (S) p[0], mc::flip("skew") ? (S) 7 : (S) 0, (S) p[2], 0, (S) p[1], (S) p[3], 0, 0, 1; k.b = (S) p[4];
    return k;
}
template<typename S> double tl() { return sizeof(S) == 4 ? 2e-4 : 1e-10; }
template<typename S> void project() {
    const std::vector<double> xy{-3, -0.25, 0, 0.1, 2}, zs{-1, -1e-3, 0, 1e-2, 0.5, 1, 7, 100};
    const Cam<S> c = cam<S>();
    Eigen::Matrix<S, 3, 1> p((S) mc::pick(xy, "x"), (S) mc::pick(xy, "y"), (S) mc::pick(zs, "z"));
    mc::transition();
    if (!(p[2] > 0)) {
        MC_CHECK(mc::throws([&] { stereo_project<S>(p, c.K, c.b); }), "project:behind", "point on or behind the image plane projected, z=" << p[2]);
        return;
    }
    Eigen::Matrix<S, 3, 1> u;
    MC_CHECK(!mc::throws([&] { u = stereo_project<S>(p, c.K, c.b); }), "project:throws", "valid point rejected");
    const double x = p[0], y = p[1], z = p[2], fx = c.K(0, 0), fy = c.K(1, 1), cx = c.K(0, 2), cy = c.K(1, 2), b = c.b;
    MC_CHECK(mc::close(u[0], fx * x / z + cx, tl<S>()) && mc::close(u[1], fx * (x - b) / z + cx, tl<S>()) && mc::close(u[2], fy * y / z + cy, tl<S>()), "project", "pixel (" << u.transpose() << ") for point (" << p.transpose() << ")");
    const Eigen::Matrix<S, 3, 1> q = stereo_backproject<S>(u, c.K, c.b);
    mc::transition();
    const double rt = tl<S>() * 1e3 * (1 + z / (fx * b) * std::fabs(cx + fx * std::fabs(x) / z));
    for (int i = 0; i < 3; ++i) MC_CHECK(mc::close(q[i], p[i], rt), "roundtrip:point", "back-projecting the projection of (" << p.transpose() << ") gives (" << q.transpose() << ")");
    mc::nontrivial(mc::Hash().add((double) u[0]).add((double) u[1]).add((double) u[2]).h);
}
MC_FAMILY(project_double) { project<double>(); }
MC_FAMILY(project_float) { project<float>(); }
template<typename S> void back() {
    const std::vector<double> us{0, 31.25, 100, 320, 639}, ds{0, 0.5, 1, 3, 40, -2}, vs{0, 12.5, 240, 479};
    const Cam<S> c = cam<S>();
    const S ul = (S) mc::pick(us, "u_l"), d = (S) mc::pick(ds, "disparity"), v = (S) mc::pick(vs, "v");
    Eigen::Matrix<S, 3, 1> s(ul, ul - d, v);
    mc::transition();
    if (d == 0) { MC_CHECK(mc::throws([&] { stereo_backproject<S>(s, c.K, c.b); }), "backproject:infinite", "zero disparity accepted"); return; }
    const Eigen::Matrix<S, 3, 1> p = stereo_backproject<S>(s, c.K, c.b);
    const double fx = c.K(0, 0), fy = c.K(1, 1), cx = c.K(0, 2), cy = c.K(1, 2), b = c.b, z = fx * b / (double) d;
    MC_CHECK(mc::close(p[2], z, tl<S>()) && mc::close(p[0], (ul - cx) * z / fx, tl<S>()) && mc::close(p[1], (v - cy) * z / fy, tl<S>()), "backproject", "point (" << p.transpose() << ") for stereo coordinate (" << s.transpose() << ")");
    if (d > 0) {
        const Eigen::Matrix<S, 3, 1> r = stereo_project<S>(p, c.K, c.b);
        mc::transition();
        for (int i = 0; i < 3; ++i) MC_CHECK(mc::close(r[i], s[i], tl<S>() * 10), "roundtrip:pixel", "projecting the back-projection of (" << s.transpose() << ") gives (" << r.transpose() << ")");
    }
    mc::nontrivial(mc::Hash().add((double) p[0]).add((double) p[1]).add((double) p[2]).h);
}
MC_FAMILY(back_double) { back<double>(); }
MC_FAMILY(back_float) { back<float>(); }

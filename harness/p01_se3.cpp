// P01: SE(3) frame-change algebra (eigen_ext geometry, precomputed transform components).
#include "mc.hpp"
#include "ref.hpp"
#include <eigen_ext/geometry.hpp>
#include <eigen_ext/precomputed_transform_components.hpp>
#include <cstdio>

using namespace ref;
template<typename S> using Iso = Eigen::Transform<S, 3, Eigen::Isometry>;
template<typename S> double tol();
template<> double tol<double>() { return 1e-9; }
template<> double tol<float>() { return 2e-4; }

static const std::vector<V3>& translations() {
    static std::vector<V3> t{v3(0, 0, 0), v3(1, 2, 3), v3(-5.5L, 0.25L, -10), v3(0, 0, 7), v3(-0.001L, 40, 0), v3(0, -3, 0.5L)};
    return t;
}
static std::string str(const Pose& p) {
    std::ostringstream o; o << "t=(" << (double) p.t(0, 0) << "," << (double) p.t(1, 0) << "," << (double) p.t(2, 0) << ") R=[";
    for (int i = 0; i < 9; ++i) o << (i ? " " : "") << (double) p.R(i / 3, i % 3); o << "]"; return o.str();
}
static double scale(const Pose& p) { double s = 1; for (int i = 0; i < 3; ++i) s += std::fabs((double) p.t(i, 0)); return s; }

template<typename S> Pose choose_pose(const char* label, bool reduced = false) {
    static const std::vector<M3> all = rotations();
    static const std::vector<int> red{0, 1, 5, 11, 17, 24, 25, 27, 28, 29, 30};
    Pose p;
    if (reduced) p.R = all[(size_t) red[(size_t) mc::choose((int) red.size(), label)]];
    else p.R = all[(size_t) mc::choose((int) all.size(), label)];
    p.t = translations()[(size_t) mc::choose(reduced ? 4 : (int) translations().size(), "translation")];
    p = rounded<S>(p);
    if (mc::replaying()) mc::note(std::string(label) + " " + str(p));
    return p;
}

template<typename S> void relative() {
    const bool red = false;
    Pose a = choose_pose<S>("pose_1", false), b = choose_pose<S>("pose_2", red);
    const Iso<S> r = eigen_ext::relative_transform(eig<S>(a), eig<S>(b));
    mc::transition();
    const Pose want = inv(a) * b;
    mc::state(mc::Hash().add((double) want.t(0, 0)).add((double) want.t(1, 0)).add((double) want.R(0, 0)).add((double) want.R(0, 1)).add((double)want.R(1,0)).h);
    MC_CHECK(maxdiff(mat(want), r.matrix()) <= tol<S>() * scale(a) * scale(b), "relative_transform", "pose_1^-1*pose_2 wrong for " << str(a) << " / " << str(b));
    const Iso<S> back = eig<S>(a) * r;
    MC_CHECK(maxdiff(mat(b), back.matrix()) <= tol<S>() * scale(a) * scale(b), "relative_transform:compose", "pose_1*relative != pose_2");
    mc::nontrivial(mc::Hash().add((double) want.R(0, 0)).add((double) want.R(1, 2)).add((double) want.t(0, 0)).h);
}
MC_FAMILY(relative_double) { relative<double>(); }
MC_FAMILY(relative_float) { relative<float>(); }

MC_FAMILY(relative_2d) {
    const std::vector<double> ang{0, M_PI / 2, M_PI, -M_PI / 2, 0.3, -2.9};
    const std::vector<Eigen::Vector2d> tr{{0, 0}, {1, 2}, {-5, 0.5}};
    auto mk = [&](const char* l) { Eigen::Transform<double, 2, Eigen::Isometry> t = Eigen::Transform<double, 2, Eigen::Isometry>::Identity(); double a = mc::pick(ang, l);
        t.matrix()(0, 0) = std::cos(a); t.matrix()(0, 1) = -std::sin(a); t.matrix()(1, 0) = std::sin(a); t.matrix()(1, 1) = std::cos(a); auto v = mc::pick(tr, "t"); t.matrix()(0, 2) = v[0]; t.matrix()(1, 2) = v[1]; return t; };
    auto a = mk("pose_1"), b = mk("pose_2");
    auto r = eigen_ext::relative_transform(a, b);
    mc::transition();
    Eigen::Matrix3d m = a.matrix() * r.matrix();
    MC_CHECK((m - b.matrix()).cwiseAbs().maxCoeff() < 1e-9, "relative_transform:2d", "2D relative transform wrong");
}

template<typename S> void change_rel() {
    Pose rel = choose_pose<S>("relative_A", false), rig = choose_pose<S>("rigid_B_A", false);
    const double sc = scale(rel) * scale(rig) * tol<S>() * 10;
    const Pose want = rig * rel * inv(rig);
    const Iso<S> g = eigen_ext::change_relative_transform_frame(eig<S>(rel), eig<S>(rig));
    mc::transition();
    MC_CHECK(maxdiff(mat(want), g.matrix()) <= sc, "change_relative_transform_frame", "got wrong frame change for rel " << str(rel) << " rigid " << str(rig));
    const Iso<S> g2 = eigen_ext::change_relative_transform_frame(eig<S>(rel), eig<S>(rig), eig<S>(inv(rig)));
    mc::transition();
    MC_CHECK(maxdiff(mat(want), g2.matrix()) <= sc, "change_relative_transform_frame:3arg", "3-argument overload disagrees");
    // inverse change of frame restores
    const Iso<S> back = eigen_ext::change_relative_transform_frame(g, eig<S>(inv(rig)));
    mc::transition();
    MC_CHECK(maxdiff(mat(rel), back.matrix()) <= sc * scale(rig), "change_relative_transform_frame:roundtrip", "round trip does not restore");
    mc::state(mc::Hash().add((double) want.t(0, 0)).add((double) want.t(1, 0)).add((double) want.R(0, 0)).add((double) want.R(0, 1)).h);
    mc::nontrivial(mc::Hash().add((double) want.t(2, 0)).add((double) want.t(1, 0)).add((double) want.R(1, 0)).add((double) want.R(0, 1)).h);
}
MC_FAMILY(change_rel_double) { change_rel<double>(); }
MC_FAMILY(change_rel_float) { change_rel<float>(); }

template<typename S> void adjoint_f() {
    Pose T = choose_pose<S>("transform", false);
    const Eigen::Matrix<S, 6, 6> ad = eigen_ext::transform_adjoint(eig<S>(T));
    mc::transition();
    MC_CHECK(maxdiff(ref::adjoint(T), ad) <= tol<S>() * scale(T), "transform_adjoint", "adjoint of " << str(T));
    Pose T2 = choose_pose<S>("second", !mc::thorough());
    const Eigen::Matrix<S, 6, 6> ad2 = eigen_ext::transform_adjoint(eig<S>(T2)), ad12 = eigen_ext::transform_adjoint<S>(eig<S>(T) * eig<S>(T2));
    mc::transition(2);
    const Eigen::Matrix<S, 6, 6> prod = ad * ad2;
    MC_CHECK((prod - ad12).cwiseAbs().maxCoeff() <= 10 * tol<S>() * scale(T) * scale(T2), "transform_adjoint:homomorphism", "Ad(T1)Ad(T2) != Ad(T1 T2)");
    mc::nontrivial(mc::Hash().add((double) ad12(3, 0)).add((double) ad12(4, 1)).add((double) ad12(0, 0)).h);
    mc::state(mc::Hash().add((double) ad12(3, 0)).add((double) ad12(4, 1)).add((double) ad12(0, 0)).add(1).h);
}
MC_FAMILY(adjoint_double) { adjoint_f<double>(); }
MC_FAMILY(adjoint_float) { adjoint_f<float>(); }

template<typename S> void twist_f() {
    Pose T = choose_pose<S>("transform", false);
    const std::vector<std::array<double, 6>> tw{{0, 0, 0, 0, 0, 0}, {1, 0, 0, 0, 0, 0}, {0, 1, 0, 0, 0, 0}, {0, 0, 1, 0, 0, 0}, {0, 0, 0, 1, 0, 0}, {0, 0, 0, 0, 1, 0}, {0, 0, 0, 0, 0, 1}, {0.5, -2, 3, -7, 0.25, 4}, {-1, -1, -1, 1, 1, 1}};
    const auto& t = mc::pick(tw, "twist");
    Eigen::Matrix<S, 6, 1> V; V6 rv; for (int i = 0; i < 6; ++i) { V[i] = (S) t[(size_t) i]; rv(i, 0) = (L) V[i]; }
    mc::where("change_twist_reference_frame");
    const Eigen::Matrix<S, 6, 1> got = eigen_ext::change_twist_reference_frame(eig<S>(T), V);
    mc::where("");
    mc::transition();
    // Oracle through the matrix form: [V_a] = T [V_b] T^-1
    M4 hat; M3 w = skew(v3(rv(0, 0), rv(1, 0), rv(2, 0)));
    for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) hat(i, j) = w(i, j); hat(i, 3) = rv(i + 3, 0); }
    M4 h = mat(T) * hat * mat(inv(T));
    V6 want; want(0, 0) = h(2, 1); want(1, 0) = h(0, 2); want(2, 0) = h(1, 0); for (int i = 0; i < 3; ++i) want(i + 3, 0) = h(i, 3);
    MC_CHECK(maxdiff(want, got) <= 20 * tol<S>() * scale(T), "change_twist_reference_frame", "V_a != Ad_T V_b for " << str(T));
    mc::nontrivial(mc::Hash().add((double) want(0, 0)).add((double) want(3, 0)).add((double) want(4, 0)).add((double)want(5,0)).h);
}
MC_FAMILY(twist_double) { twist_f<double>(); }
MC_FAMILY(twist_float) { twist_f<float>(); }

template<typename S> void rates_f() {
    Pose a = choose_pose<S>("pose_1", !mc::thorough()), b = choose_pose<S>("pose_2", false);
    const std::vector<double> dts{0.0, -1.0, -1e-9, 1e-3, 0.1, 1.0, 5.0, 250.0};
    const S dt = (S) mc::pick(dts, "dt");
    mc::transition();
    if (dt <= 0) {
        MC_CHECK(mc::throws([&] { eigen_ext::linear_rates(eig<S>(a), eig<S>(b), dt); }), "linear_rates:dt", "non-positive dt accepted");
        return;
    }
    const Eigen::Matrix<S, 6, 1> r = eigen_ext::linear_rates(eig<S>(a), eig<S>(b), dt);
    const Pose rel = inv(a) * b;
    V3 w = v3((L) r[0] * dt, (L) r[1] * dt, (L) r[2] * dt), v = v3((L) r[3] * dt, (L) r[4] * dt, (L) r[5] * dt);
    const double sc = scale(a) * scale(b);
    MC_CHECK(maxdiff(rel.t, v) <= 10 * tol<S>() * sc, "linear_rates:linear", "linear rate * dt != relative translation; pose_1 " << str(a) << " pose_2 " << str(b) << " dt " << dt);
    MC_CHECK(maxdiff(rel.R, expm(w)) <= std::sqrt(tol<S>()) * 0.1, "linear_rates:angular", "exp(angular*dt) != relative rotation; pose_1 " << str(a) << " pose_2 " << str(b) << " dt " << dt);
    MC_CHECK(w.norm() <= M_PI * (1 + 1e-5), "linear_rates:minimal", "angular rate is not the shortest rotation");
    mc::nontrivial(mc::Hash().add((double) w(0, 0)).add((double) w(1, 0)).add((double) v(0, 0)).add((double) dt).h);
}
MC_FAMILY(rates_double) { rates_f<double>(); }
MC_FAMILY(rates_float) { rates_f<float>(); }

template<typename S> void polar_f() {
    const std::vector<double> c{-2, -1, -0.5, -1e-3, 0, 1e-3, 0.5, 1, 2, 30};
    const S x = (S) mc::pick(c, "x"), y = (S) mc::pick(c, "y"), z = (S) mc::pick(c, "z");
    mc::transition(2);
    const bool t1 = mc::throws([&] { eigen_ext::cartesian_to_polar<S>(x, y, z); });
    const bool t2 = mc::throws([&] { eigen_ext::cartesian_to_polar<S>(Eigen::Matrix<S, 3, 1>(x, y, z)); });
    if (x == 0 && y == 0) {
        MC_CHECK(t1 && t2, "cartesian_to_polar:axis", "azimuth is undefined on the z axis, but no exception");
        return;
    }
    MC_CHECK(!t1 && !t2, "cartesian_to_polar:throws", "unexpected exception at " << x << "," << y << "," << z);
    const Eigen::Matrix<S, 3, 1> p = eigen_ext::cartesian_to_polar<S>(x, y, z), q = eigen_ext::cartesian_to_polar<S>(Eigen::Matrix<S, 3, 1>(x, y, z));
    const double r = p[0], a = p[1], e = p[2];
    const double tl = std::sqrt(tol<S>()) * (1 + std::fabs(r)) * 0.3;
    if (x > 0 && y == 0) MC_CHECK(a < 3, "cartesian_to_polar:zero_azimuth", "a point ahead has azimuth " << a << " instead of 0");
    MC_CHECK(p == q, "cartesian_to_polar:overloads", "overloads disagree");
    MC_CHECK(a >= 0 && a <= 2 * M_PI * (1 + 1e-6) && e >= 0 && e <= M_PI * (1 + 1e-6) && r > 0, "cartesian_to_polar:range", "out of range r=" << r << " a=" << a << " e=" << e);
    MC_CHECK(std::fabs(r * std::sin(e) * std::cos(a) - x) <= tl && std::fabs(r * std::sin(e) * std::sin(a) - y) <= tl && std::fabs(r * std::cos(e) - z) <= tl,
        "cartesian_to_polar", "spherical coordinates (" << r << "," << a << "," << e << ") do not denote (" << x << "," << y << "," << z << ")");
    mc::nontrivial(mc::Hash().add(r).add(a).add(e).h);
}
MC_FAMILY(polar_double) { polar_f<double>(); }
MC_FAMILY(polar_float) { polar_f<float>(); }

template<typename S> void to_transform_f() {
    const std::vector<std::array<double, 4>> qs{{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}, {-1, 0, 0, 0}, {1, 1, 0, 0}, {1, 0, -1, 0}, {1, 1, 1, 1}, {0.8, 0.1, 0.05, 0.2}, {-0.17, 0.68, 0.55, 0.14}, {1e-5, 1, 1, 0}};
    const auto& q = mc::pick(qs, "q");
    Eigen::Quaternion<S> eq((S) q[0], (S) q[1], (S) q[2], (S) q[3]); eq.normalize();
    Pose p; p.R = quat(q[0], q[1], q[2], q[3]); p.t = translations()[(size_t) mc::choose((int) translations().size(), "t")];
    Eigen::Matrix<S, 3, 1> t; for (int i = 0; i < 3; ++i) t[i] = (S) p.t(i, 0);
    const Iso<S> a = eigen_ext::to_transform(Eigen::Translation<S, 3>(t), eq), b = eigen_ext::to_transform<S, 3>(t, eq);
    Eigen::Matrix<S, 3, 3> R; for (int i = 0; i < 9; ++i) R(i / 3, i % 3) = (S) p.R(i / 3, i % 3);
    const Iso<S> c = eigen_ext::to_transform<S, 3>(t, R);
    mc::transition(3);
    for (const Iso<S>* m : {&a, &b, &c}) MC_CHECK(maxdiff(mat(p), m->matrix()) <= 5 * tol<S>() * scale(p), "to_transform", "transform does not have the given translation and rotation");
    mc::nontrivial(mc::Hash().add((double) p.R(0, 1)).add((double) p.R(2, 1)).add((double) p.t(0, 0)).h);
}
MC_FAMILY(to_transform_double) { to_transform_f<double>(); }
MC_FAMILY(to_transform_float) { to_transform_f<float>(); }

template<typename S> void ptc() {
    const bool from_matrix = mc::flip("from_matrix");
    Pose p;
    V3 rv;
    if (from_matrix) p = choose_pose<S>("T", false);
    else {
        const std::vector<V3> rs{v3(0, 0, 0), v3(1e-8L, 0, 0), v3(0, 1e-4L, 0), v3(0.3L, -0.2L, 0.9L), v3(0, 0, 1.5707963267948966L), v3(-2, 1, 0.5L), v3(0, 3.1L, 0)};
        rv = mc::pick(rs, "r"); for (int i = 0; i < 3; ++i) rv(i, 0) = (L) (S) rv(i, 0);
        p.R = expm(rv); p.t = translations()[(size_t) mc::choose((int) translations().size(), "t")]; for (int i = 0; i < 3; ++i) p.t(i, 0) = (L) (S) p.t(i, 0);
    }
    Eigen::Matrix<S, 3, 1> r, t; for (int i = 0; i < 3; ++i) { r[i] = (S) rv(i, 0); t[i] = (S) p.t(i, 0); }
    const Eigen::Matrix<S, 4, 4> T = eig<S>(p).matrix();
    const eigen_ext::PrecomputedTransformComponents<S> c = from_matrix ? eigen_ext::PrecomputedTransformComponents<S>(T) : eigen_ext::PrecomputedTransformComponents<S>(r, t);
    mc::transition();
    const double tl = std::sqrt(tol<S>()) * 0.1;
    V3 cr = v3(c.r()[0], c.r()[1], c.r()[2]);
    MC_CHECK(maxdiff(mat(p), c.T()) <= tl * scale(p), "components:T", "T() wrong");
    MC_CHECK(maxdiff(p.R, c.R()) <= tl, "components:R", "R() wrong");
    MC_CHECK(maxdiff(p.t, c.t()) <= tol<S>() * scale(p), "components:t", "t() wrong");
    MC_CHECK(maxdiff(p.R, expm(cr)) <= tl, "components:r", "exp(r()) != R()");
    MC_CHECK(std::fabs((double) (cr.norm() - (L) c.a())) <= tl, "components:a", "a() is not |r()|");
    MC_CHECK(std::fabs(std::sin((double) c.a()) - c.sina()) <= tl && std::fabs(std::cos((double) c.a()) - c.cosa()) <= tl, "components:sincos", "sina/cosa are not sin/cos of a");
    mc::nontrivial(mc::Hash().add((double) cr(0, 0)).add((double) cr(1, 0)).add((double) c.t()[0]).add((double) c.t()[1]).h);
}
MC_FAMILY(components_double) { ptc<double>(); }
MC_FAMILY(components_float) { ptc<float>(); }

// Motion histories: a body with two sensors A, B rigidly mounted follows every sequence of motions; at every reached
// state the library's chain of frame changes must agree with the reference poses.
MC_FAMILY(motion_histories) {
    static const std::vector<M3> R = rotations();
    static const std::vector<Pose> moves = [] { std::vector<Pose> m; int ri[] = {0, 3, 8, 13, 24, 25, 30}; int ti[] = {1, 0, 2, 3, 4, 5, 1}; for (int i = 0; i < 7; ++i) { Pose p; p.R = R[(size_t) ri[i]]; p.t = translations()[(size_t) ti[i]] * 0.1L; m.push_back(rounded<double>(p)); } return m; }();
    const int depth = mc::thorough() ? 6 : 4;
    Pose BA; BA.R = R[(size_t) mc::choose(3, "mount") * 9 + 7]; BA.t = v3(0.3L, -0.4L, 1.2L); BA = rounded<double>(BA);
    Pose body;  // pose of sensor A in world
    Iso<double> world_A = Iso<double>::Identity(), world_B = eig<double>(inv(BA));
    Pose refA, refB = inv(BA);
    for (int d = 0; d < depth; ++d) {
        const Pose& m = moves[(size_t) mc::choose((int) moves.size(), "motion")];
        const Iso<double> prevA = world_A, prevB = world_B;
        world_A = world_A * eig<double>(m); refA = refA * m;
        refB = refA * inv(BA);
        const Iso<double> relA = eigen_ext::relative_transform(prevA, world_A);
        const Iso<double> relB = eigen_ext::change_relative_transform_frame(relA, eig<double>(BA));
        world_B = prevB * relB;
        mc::transition(2);
        MC_CHECK(maxdiff(mat(refA), world_A.matrix()) < 1e-8 && maxdiff(mat(refB), world_B.matrix()) < 1e-8, "history:frames", "after " << d + 1 << " motions the sensor-B trajectory differs");
        // rates: body twist in A mapped to B by the adjoint must be the twist of B's own motion (pure screw consistency)
        const double dt = 0.5;
        const auto rA = eigen_ext::linear_rates(prevA, world_A, dt);
        V3 w = v3((L) rA[0] * dt, (L) rA[1] * dt, (L) rA[2] * dt);
        MC_CHECK(maxdiff(m.R, expm(w)) < 1e-5, "history:rates", "angular rate does not reproduce the motion");
        if (!mc::state(mc::Hash().add(std::round((double) refA.t(0, 0) * 1e6)).add(std::round((double) refA.t(1, 0) * 1e6)).add(std::round((double) refA.t(2, 0) * 1e6)).add(std::round((double) refA.R(0, 0) * 1e6)).add(std::round((double) refA.R(1, 0) * 1e6)).add(std::round((double) refA.R(2, 1) * 1e6)).add(std::round((double)BA.R(0,0)*1e6)).add(std::round((double)BA.R(0,1)*1e6)).add(d).h)) mc::prune();
    }
    mc::nontrivial(mc::Hash().add((double) refA.t(0, 0)).add((double) refA.t(1, 0)).add((double) refA.R(0, 1)).h);
}

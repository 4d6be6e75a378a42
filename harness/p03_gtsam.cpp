// P03: Eigen <-> GTSAM conversions denote the same rigid transform and are mutually inverse.
#include "mc.hpp"
#include "ref.hpp"
#include <eigen_gtsam/eigen_gtsam.hpp>
using namespace ref;

static std::vector<V3> trs() { return {v3(0, 0, 0), v3(1.1L, 2.3L, 3), v3(-5.4321L, 0.257L, -10.1L), v3(0, 0.3L, 7123.456L), v3(-0.0017L, 40.1L, 0), v3(0, -3.3L, 1e-7L), v3(-612345.678L, 5512345.6789L, 312.3L)}; }
static std::vector<M3> rots() {
    std::vector<M3> r = rotations();
    const std::vector<double> a{-3.0, -1.2, -0.4, 0.4, 1.2, 3.0};
    for (double x : a) for (double y : a) for (double z : a) r.push_back(expm(v3(x * 0.5, y * 0.5, z * 0.5)));
    return r;
}
MC_FAMILY(pose_roundtrip) {
    static const auto R = rots(); static const auto T = trs();
    Pose p; p.R = mc::pick(R, "R"); p.t = mc::pick(T, "t"); p = rounded<double>(p);
    const Eigen::Isometry3d e = eig<double>(p);
    gtsam::Pose3 g = gtsam::Pose3(gtsam::Rot3::Ypr(0.1, 0.2, 0.3), gtsam::Point3(9, 9, 9));   // stale content must not survive
    eigen_gtsam::to_gtsam(e, g);
    const gtsam::Pose3 g2 = eigen_gtsam::to_gtsam<gtsam::Pose3>(e);
    Eigen::Isometry3d back = Eigen::Isometry3d(Eigen::Translation3d(7, 7, 7));
    eigen_gtsam::to_eigen(g, back);
    const Eigen::Isometry3d back2 = eigen_gtsam::to_eigen<Eigen::Isometry3d>(g);
    mc::transition(4);
    const double s = 1e-9 * (1 + (double) p.t.norm());
    MC_CHECK(maxdiff(mat(p), g.matrix()) <= s && maxdiff(mat(p), g2.matrix()) <= s, "to_gtsam:pose", "GTSAM pose differs");
    MC_CHECK(maxdiff(mat(p), back.matrix()) <= s && maxdiff(mat(p), back2.matrix()) <= s, "to_eigen:pose", "Eigen pose differs after round trip");
    const std::vector<V3> pts{v3(1, 0, 0), v3(0, 1, 0), v3(-2, 3, 5)};
    for (auto& q : pts) {
        const V3 w = apply(p, q); const gtsam::Point3 gq = g.transformFrom(gtsam::Point3((double) q(0, 0), (double) q(1, 0), (double) q(2, 0)));
        const Eigen::Vector3d eq = back * Eigen::Vector3d((double) q(0, 0), (double) q(1, 0), (double) q(2, 0));
        MC_CHECK(maxdiff(w, gq) <= s * 10 && maxdiff(w, eq) <= s * 10, "pose_action", "converted pose moves points differently");
    }
    mc::nontrivial(mc::Hash().add((double) p.R(0, 1)).add((double) p.R(2, 0)).add((double) p.t(0, 0)).h);
}
MC_FAMILY(rot_roundtrip) {
    static const auto R = rots();
    const M3 r = mc::pick(R, "R");
    Eigen::Matrix3d e; for (int i = 0; i < 9; ++i) e(i / 3, i % 3) = (double) r(i / 3, i % 3);
    gtsam::Rot3 g = gtsam::Rot3::Ypr(0.1, 0.2, 0.3);
    eigen_gtsam::to_gtsam(e, g);
    Eigen::Matrix3d b = Eigen::Matrix3d::Constant(5);
    eigen_gtsam::to_eigen(g, b);
    const Eigen::Matrix3d b2 = eigen_gtsam::to_eigen<Eigen::Matrix3d>(g);
    mc::transition(3);
    MC_CHECK(maxdiff(r, g.matrix()) < 1e-9, "to_gtsam:rot", "rotation differs");
    MC_CHECK(maxdiff(r, b) < 1e-9 && maxdiff(r, b2) < 1e-9, "to_eigen:rot", "rotation differs after round trip");
    mc::nontrivial(mc::Hash().add((double) r(0, 1)).add((double) r(2, 0)).add((double)r(1,2)).h);
}
// Composition histories: converting each step and composing in GTSAM equals converting the composed pose.
MC_FAMILY(composition_histories) {
    static const auto R = rots(); static const auto T = trs();
    const int alphabet = 8, depth = mc::thorough() ? 7 : 5;
    Pose acc; gtsam::Pose3 g;
    for (int d = 0; d < depth; ++d) {
        const int k = mc::choose(alphabet, "motion");
        Pose m; m.R = R[(size_t) (k * 29 + 1) % R.size()]; m.t = T[(size_t) k % 3]; m = rounded<double>(m);
        acc = acc * m;
        g = g * eigen_gtsam::to_gtsam<gtsam::Pose3>(eig<double>(m));
        const Eigen::Isometry3d e = eigen_gtsam::to_eigen<Eigen::Isometry3d>(g);
        mc::transition(2);
        MC_CHECK(maxdiff(mat(acc), e.matrix()) < 1e-7 * (1 + (double) acc.t.norm()), "composition", "composed pose differs after " << d + 1 << " steps");
        mc::state(mc::Hash().add((double) acc.t(0, 0)).add((double) acc.R(0, 0)).add((double) acc.R(1, 0)).h);
    }
    mc::nontrivial(mc::Hash().add((double) acc.t(0, 0)).add((double) acc.R(0, 0)).add((double) acc.R(1, 0)).h);
}

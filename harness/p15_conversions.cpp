// P15: message conversions are lossless; IMU interpolation / frame change and pose composition are exact.
#include "mc.hpp"
#include "ref.hpp"
#include <eigen_ros/eigen_ros.hpp>
#include <eigen_ros/geometry_msgs.hpp>
#include <eigen_ros/nav_msgs.hpp>
#include <eigen_ros/sensor_msgs.hpp>
#include <eigen_ros/statistics_msgs.hpp>
#include <eigen_ros/std_msgs.hpp>

using namespace eigen_ros;
typedef Eigen::Matrix<double, 6, 6> Mat6;

namespace {

struct Q { double w, x, y, z; };
const double r2 = std::sqrt(0.5);
const std::vector<Q>& quats() {
    static std::vector<Q> v{{1, 0, 0, 0}, {r2, r2, 0, 0}, {r2, 0, -r2, 0}, {r2, 0, 0, r2}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1},
            {0.5, 0.5, 0.5, 0.5}, {-0.5, 0.5, -0.5, 0.5}, {0.8, 0.2, -0.4, std::sqrt(1 - 0.84)}, {-0.1, 0.3, 0.7, std::sqrt(1 - 0.59)},
            {std::sqrt(1 - 1e-8), 0, 1e-4, 0}, {1e-4, std::sqrt(1 - 1e-8), 0, 0}};
    return v;
}
Eigen::Quaterniond eq(const Q& q) { return Eigen::Quaterniond(q.w, q.x, q.y, q.z); }
ref::M3 rq(const Q& q) { return ref::quat(q.w, q.x, q.y, q.z); }
const std::vector<Eigen::Vector3d>& vecs() {
    static std::vector<Eigen::Vector3d> v{{0, 0, 0}, {1, 2, 3}, {-1e6, 0.5, 1e-9}, {-4, 0, 0.25}};
    return v;
}
Mat6 cov6(int kind) {
    Mat6 m;
    for (int i = 0; i < 6; ++i) {
        for (int j = 0; j < 6; ++j) {
            m(i, j) = kind == 0 ? 0 : kind == 1 ? 10 * (i + 1) + (j + 1) : 1.0 / (1 + i + j) + (i == j);
        }
    }
    return m;
}
Eigen::Matrix3d cov3(int kind) {
    Eigen::Matrix3d m;
    for (int i = 0; i < 3; ++i) {
        for (int j = 0; j < 3; ++j) m(i, j) = kind == 0 ? 0 : kind == 1 ? 10 * (i + 1) + (j + 1) : 1.0 / (1 + i + j) + (i == j) * (1 + i);
    }
    return m;
}
const std::vector<ros::Time>& stamps() {
    static std::vector<ros::Time> v{ros::Time(0, 0), ros::Time(0, 1), ros::Time(1700000000, 999999999)};
    return v;
}
// Same rotation up to representation
bool same_rot(const Eigen::Quaterniond& a, const Q& q) { return ref::maxdiff(rq(q), a.toRotationMatrix()) < 1e-12 && std::fabs(a.norm() - 1) < 1e-12; }
template<class M> bool vec_is(const M& m, const Eigen::Vector3d& v) { return m.x == v[0] && m.y == v[1] && m.z == v[2]; }
bool quat_is(const geometry_msgs::Quaternion& m, const Q& q) { return m.w == q.w && m.x == q.x && m.y == q.y && m.z == q.z; }
// ROS covariances are row-major with translation first; Eigen's with rotation first.
template<class A> bool cov_is(const A& a, const Mat6& m) {
    for (int i = 0; i < 6; ++i) {
        for (int j = 0; j < 6; ++j) {
            if (a[6 * i + j] != m((i + 3) % 6, (j + 3) % 6)) return false;
        }
    }
    return true;
}
template<class A> bool cov3_is(const A& a, const Eigen::Matrix3d& m) {
    for (int i = 0; i < 9; ++i) if (a[i] != m(i / 3, i % 3)) return false;
    return true;
}
void dirty(Pose& p) { p = Pose(Eigen::Vector3d(9, 9, 9), Eigen::Quaterniond(0, 1, 0, 0), Mat6(Mat6::Constant(77))); }

}

// Every pose x covariance through every pose-like message, into fresh and into reused destinations.
MC_FAMILY(pose_messages) {
    const Q q = mc::pick(quats(), "q");
    const Eigen::Vector3d t = mc::pick(vecs(), "t");
    const Mat6 c = cov6(mc::choose(3, "cov"));
    const ros::Time stamp = mc::pick(stamps(), "stamp");
    const bool reuse = mc::flip("reuse");
    const Pose p(t, eq(q), c);
    const PoseStamped ps(p, stamp);
    mc::transition();

    geometry_msgs::PoseWithCovarianceStamped m1;
    geometry_msgs::PoseStamped m2;
    geometry_msgs::TransformStamped m3;
    PoseStamped back1, back2, back3;
    if (reuse) {
        Pose d;
        dirty(d);
        to_ros(m1, PoseStamped(d, ros::Time(5, 5)));
        to_ros(m2, PoseStamped(d, ros::Time(5, 5)));
        to_ros(m3, PoseStamped(d, ros::Time(5, 5)));
        back1 = back2 = back3 = PoseStamped(d, ros::Time(6, 6));
    }
    m1.header.frame_id = m2.header.frame_id = m3.header.frame_id = "f";
    m3.child_frame_id = "c";
    to_ros(m1, ps);
    MC_CHECK(vec_is(m1.pose.pose.position, t) && quat_is(m1.pose.pose.orientation, q), "pose_cov_msg", "pose");
    MC_CHECK(cov_is(m1.pose.covariance, c), "pose_cov_order", "covariance order of the message");
    MC_CHECK(m1.header.stamp == stamp && m1.header.frame_id == "f", "pose_cov_header", "header");
    from_ros(m1, back1);
    MC_CHECK(back1.timestamp == stamp && back1.data.position == t && back1.data.orientation.coeffs() == eq(q).coeffs() && back1.data.covariance == c, "pose_cov_back", "round trip");
    MC_CHECK(back1 == ps, "pose_equal", "equality of a round trip");
    to_ros(m2, ps);
    MC_CHECK(vec_is(m2.pose.position, t) && quat_is(m2.pose.orientation, q) && m2.header.stamp == stamp && m2.header.frame_id == "f", "pose_msg", "pose");
    const Mat6 before2 = back2.data.covariance;
    from_ros(m2, back2);
    MC_CHECK(back2.timestamp == stamp && back2.data.position == t && back2.data.orientation.coeffs() == eq(q).coeffs(), "pose_back", "round trip");
    MC_CHECK(back2.data.covariance == before2, "pose_back_cov", "covariance must not be set");
    to_ros(m3, ps);
    MC_CHECK(vec_is(m3.transform.translation, t) && quat_is(m3.transform.rotation, q) && m3.header.stamp == stamp && m3.header.frame_id == "f" && m3.child_frame_id == "c", "transform_msg", "transform");
    from_ros(m3, back3);
    MC_CHECK(back3.timestamp == stamp && back3.data.position == t && back3.data.orientation.coeffs() == eq(q).coeffs(), "transform_back", "round trip");
    MC_CHECK((from_ros<Pose>(m3.transform).position == t), "transform_convenience", "from_ros<Pose>");

    // matrix and isometry forms
    ref::Pose r;
    r.R = rq(q);
    r.t = ref::v3(t[0], t[1], t[2]);
    const double tol = 1e-12 * (1 + t.norm());
    Eigen::Matrix4d mat = Eigen::Matrix4d::Constant(reuse ? 3.0 : 0.0), mat2 = mat;
    from_ros(m2.pose, mat);
    MC_CHECK(ref::maxdiff(ref::mat(r), mat) < tol, "matrix_from_pose", mat);
    from_ros(m3.transform, mat2);
    MC_CHECK(ref::maxdiff(ref::mat(r), mat2) < tol, "matrix_from_transform", mat2);
    Eigen::Isometry3d iso = from_ros<Eigen::Isometry3d>(m3.transform);
    MC_CHECK(ref::maxdiff(ref::mat(r), iso.matrix()) < tol, "isometry_from_transform", iso.matrix());
    MC_CHECK(ref::maxdiff(ref::mat(r), to_transform(p).matrix()) < tol, "to_transform", to_transform(p).matrix());
    const Pose pi(iso, c);
    MC_CHECK(pi.position == t && same_rot(pi.orientation, q) && pi.covariance == c, "pose_from_isometry", pi);
    geometry_msgs::Pose mp;
    to_ros(mp, mat);
    MC_CHECK(vec_is(mp.position, t) && same_rot(from_ros<Eigen::Quaterniond>(mp.orientation), q), "matrix_to_pose", "");
    geometry_msgs::Transform mt;
    to_ros(mt, mat);
    MC_CHECK(vec_is(mt.translation, t) && same_rot(from_ros<Eigen::Quaterniond>(mt.rotation), q), "matrix_to_transform", "");
    to_ros(mt, iso);
    MC_CHECK(vec_is(mt.translation, t) && same_rot(from_ros<Eigen::Quaterniond>(mt.rotation), q), "isometry_to_transform", "");
    geometry_msgs::Quaternion mq;
    to_ros(mq, Eigen::Matrix3d(mat.block<3, 3>(0, 0)));
    MC_CHECK(same_rot(from_ros<Eigen::Quaterniond>(mq), q), "matrix_to_quaternion", "");
    MC_CHECK(ref::maxdiff(rq(q), from_ros<Eigen::Matrix3d>(m2.pose.orientation)) < 1e-12, "quaternion_to_matrix", "");
    // equality: invariant under the sign of the quaternion, sensitive to every component
    const Pose neg(t, Eigen::Quaterniond(-q.w, -q.x, -q.y, -q.z), c);
    MC_CHECK(neg == p, "pose_equal_sign", "q and -q differ");
    const Pose moved(t + Eigen::Vector3d(0, 0, 1 + t.norm()), eq(q), c), turned(t, eq(q) * Eigen::Quaterniond(r2, 0, 0, r2), c);
    Mat6 c2 = c;
    c2(mc::choose(6, "i"), 5) += 100;
    const Pose unsure(t, eq(q), c2);
    MC_CHECK(!(moved == p) && !(turned == p) && !(unsure == p) && !(PoseStamped(p, stamp + ros::Duration(1, 0)) == ps), "pose_unequal", "different poses compare equal");
    const Pose split(t, eq(q), cov3(1), cov3(2));
    MC_CHECK((split.covariance.block<3, 3>(0, 0) == cov3(2)) && (split.covariance.block<3, 3>(3, 3) == cov3(1)) && split.covariance.block(0, 3, 3, 3).isZero() && split.covariance.block(3, 0, 3, 3).isZero(),
            "pose_split_covariance", split.covariance);
    mc::nontrivial(mc::Hash().add(mat(0, 0)).add(mat(1, 0)).add(mat(2, 1)).add(t[0]).add(c(0, 1)).add(static_cast<double>(stamp.sec)).h);
}

// Twists, odometry and IMU messages.
MC_FAMILY(twist_odometry_imu) {
    const Q q = mc::pick(quats(), "q");
    const Eigen::Vector3d a = mc::pick(vecs(), "a"), b = mc::pick(vecs(), "b");
    const int ck = mc::choose(3, "cov");
    const ros::Time stamp = mc::pick(stamps(), "stamp");
    const bool reuse = mc::flip("reuse");
    mc::transition();
    const Mat6 c = cov6(ck), cp = cov6(2 - ck) * 2;
    const Twist tw(a, b, c);
    geometry_msgs::TwistWithCovariance m;
    Twist back;
    if (reuse) {
        to_ros(m, Twist(Eigen::Vector3d(7, 7, 7), Eigen::Vector3d(8, 8, 8), Mat6(Mat6::Constant(3))));
        from_ros(m, back);
    }
    to_ros(m, tw);
    MC_CHECK(vec_is(m.twist.linear, a) && vec_is(m.twist.angular, b) && cov_is(m.covariance, c), "twist_msg", "twist");
    from_ros(m, back);
    MC_CHECK(back.linear == a && back.angular == b && back.covariance == c && back == tw, "twist_back", "round trip");
    geometry_msgs::Twist mt;
    to_ros(mt, tw);
    MC_CHECK(vec_is(mt.linear, a) && vec_is(mt.angular, b), "twist_plain", "");
    Twist plain(Eigen::Vector3d(1, 1, 1), Eigen::Vector3d(1, 1, 1), c);
    from_ros(mt, plain);
    MC_CHECK(plain.linear == a && plain.angular == b && plain.covariance == c, "twist_plain_back", "");
    MC_CHECK((tw.angular_velocity_covariance() == c.block<3, 3>(0, 0)) && (tw.linear_velocity_covariance() == c.block<3, 3>(3, 3)), "twist_blocks", "");
    const Twist split(a, b, cov3(1), cov3(2));
    MC_CHECK(split.linear_velocity_covariance() == cov3(1) && split.angular_velocity_covariance() == cov3(2) && split.covariance.block(0, 3, 3, 3).isZero(), "twist_split", split.covariance);

    const std::string fr = ck == 1 ? "" : "map", cf = ck == 2 ? "" : "base";
    const Odometry o(Pose(b, eq(q), cp), tw, stamp, fr, cf);
    nav_msgs::Odometry mo;
    Odometry ob;
    if (reuse) {
        to_ros(mo, Odometry(Pose(a, eq(q)), Twist(), ros::Time(3, 3), "x", "y"));
        from_ros(mo, ob);
    }
    to_ros(mo, o);
    MC_CHECK(mo.header.stamp == stamp && mo.header.frame_id == fr && mo.child_frame_id == cf, "odometry_header", "");
    MC_CHECK(vec_is(mo.pose.pose.position, b) && quat_is(mo.pose.pose.orientation, q) && cov_is(mo.pose.covariance, cp) && vec_is(mo.twist.twist.linear, a) &&
                     vec_is(mo.twist.twist.angular, b) && cov_is(mo.twist.covariance, c), "odometry_msg", "");
    from_ros(mo, ob);
    MC_CHECK(ob == o && ob.pose.covariance == cp && ob.twist.covariance == c && ob.frame == fr && ob.child_frame == cf && ob.timestamp == stamp, "odometry_back", "");
    MC_CHECK(o.pose_stamped() == PoseStamped(o.pose, stamp) && o.twist_stamped() == TwistStamped(o.twist, stamp), "odometry_parts", "");
    Odometry o2 = o;
    o2.child_frame = "other";
    MC_CHECK(!(o2 == o), "odometry_unequal", "");

    const Imu im(eq(q), a, b, cov3(ck), cov3((ck + 1) % 3), cov3((ck + 2) % 3), stamp, "imu");
    sensor_msgs::Imu mi;
    Imu ib;
    if (reuse) {
        to_ros(mi, Imu(eq(q), b, a, cov3(1), cov3(1), cov3(1), ros::Time(2, 2), "other"));
        from_ros(mi, ib);
    }
    to_ros(mi, im);
    MC_CHECK(mi.header.stamp == stamp && mi.header.frame_id == "imu" && quat_is(mi.orientation, q) && vec_is(mi.angular_velocity, a) && vec_is(mi.linear_acceleration, b), "imu_msg", "");
    MC_CHECK(cov3_is(mi.orientation_covariance, cov3(ck)) && cov3_is(mi.angular_velocity_covariance, cov3((ck + 1) % 3)) && cov3_is(mi.linear_acceleration_covariance, cov3((ck + 2) % 3)), "imu_msg_cov", "");
    from_ros(mi, ib);
    MC_CHECK(ib == im && ib.orientation_covariance == im.orientation_covariance && ib.angular_velocity_covariance == im.angular_velocity_covariance &&
                     ib.linear_acceleration_covariance == im.linear_acceleration_covariance && ib.timestamp == stamp && ib.frame == "imu", "imu_back", "");
    std_msgs::Header h;
    to_ros(h, stamp, "hf");
    ros::Time ts;
    std::string fs = "old";
    from_ros(h, ts, fs);
    MC_CHECK(ts == stamp && fs == "hf", "header", "");
    geometry_msgs::Point pt;
    to_ros(pt, a);
    geometry_msgs::Vector3 v3;
    to_ros(v3, b);
    MC_CHECK(from_ros<Eigen::Vector3d>(pt) == a && from_ros<Eigen::Vector3d>(v3) == b, "vectors", "");
    mc::nontrivial(mc::Hash().add(q.w).add(q.x).add(q.y).add(a[0]).add(b[1]).add(ck).h);
}

// Arrays and matrices of every small shape, over every history of reusing one message for several matrices.
MC_FAMILY(matrices) {
    std_msgs::Float64MultiArray fm;
    statistics_msgs::Covariance cm;
    statistics_msgs::CovarianceFloat32 cf;
    std::vector<double> vd;
    mc::Hash h;
    const int n = mc::thorough() ? 3 : 2;
    for (int step = 0; step < n; ++step) {
        const int rows = 1 + mc::choose(4, "rows"), cols = 1 + mc::choose(4, "cols");
        h.add(rows).add(cols);
        mc::transition();
        Eigen::MatrixXd m(rows, cols);
        for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) m(i, j) = 100 * (step + 1) + 10 * i + j + 0.5;
        to_ros(fm, m);
        MC_CHECK(fm.layout.dim.size() == 2, "multiarray_dims", "message reused for a second matrix has " << fm.layout.dim.size() << " dimensions");
        MC_CHECK(static_cast<int>(fm.layout.dim[0].size) == rows && static_cast<int>(fm.layout.dim[1].size) == cols && static_cast<int>(fm.layout.dim[1].stride) == cols &&
                         static_cast<int>(fm.layout.dim[0].stride) == rows * cols && static_cast<int>(fm.data.size()) == rows * cols, "multiarray_layout", "");
        Eigen::MatrixXd back(rows, cols);
        from_ros(fm, back);
        MC_CHECK(back == m, "multiarray_back", back);
        // offset and padded rows
        std_msgs::Float64MultiArray padded;
        padded.layout = fm.layout;
        padded.layout.data_offset = 3;
        padded.layout.dim[1].stride = cols + 2;
        padded.data.assign(3 + rows * (cols + 2), -1);
        for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) padded.data[3 + i * (cols + 2) + j] = m(i, j);
        Eigen::MatrixXd back2(rows, cols);
        from_ros(padded, back2);
        MC_CHECK(back2 == m, "multiarray_padded", back2);
        for (int rr = 1; rr <= 4; ++rr) {
            for (int cc = 1; cc <= 4; ++cc) {
                Eigen::MatrixXd wrong(rr, cc);
                const bool threw = mc::throws([&] { from_ros(fm, wrong); });
                MC_CHECK(threw == (rr != rows || cc != cols), "multiarray_shape", rr << "x" << cc << " read from " << rows << "x" << cols);
                Eigen::MatrixXd w2(rr, cc);
                to_ros(vd, m);
                const bool threw2 = mc::throws([&] { from_ros(vd, w2); });
                MC_CHECK(threw2 == (rr * cc != rows * cols), "vector_shape", rr << "x" << cc << " read from " << rows << "x" << cols);
            }
        }
        to_ros(vd, m);
        MC_CHECK(static_cast<int>(vd.size()) == rows * cols, "vector_size", vd.size());
        for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) MC_CHECK(vd[i * cols + j] == m(i, j), "vector_order", "");
        Eigen::MatrixXd back3(rows, cols);
        from_ros(vd, back3);
        MC_CHECK(back3 == m, "vector_back", "");
        // covariances
        const bool square = rows == cols;
        MC_CHECK(mc::throws([&] { to_ros(cm, m); }) == !square, "covariance_square", rows << "x" << cols);
        MC_CHECK(mc::throws([&] { to_ros(cf, Eigen::MatrixXf(m.cast<float>())); }) == !square, "covariance_square_f", rows << "x" << cols);
        if (square) {
            Eigen::MatrixXd cb = Eigen::MatrixXd::Constant(2, 5, 4.0);
            from_ros(cm, cb);
            MC_CHECK(static_cast<int>(cm.dimensions) == rows && cb.rows() == rows && cb.cols() == cols && cb == m, "covariance_back", cb);
            Eigen::MatrixXf fb;
            from_ros(cf, fb);
            MC_CHECK(fb == Eigen::MatrixXf(m.cast<float>()) && static_cast<int>(cf.dimensions) == rows, "covariance_f_back", fb);
            const auto cs = to_ros<statistics_msgs::CovarianceStamped>(m, ros::Time(4, 2), std::string("fr"));
            ros::Time ts;
            std::string fr;
            Eigen::MatrixXd sb;
            from_ros(cs, sb, ts, fr);
            MC_CHECK(sb == m && ts == ros::Time(4, 2) && fr == "fr", "covariance_stamped", "");
            statistics_msgs::CovarianceFloat32Stamped cfs;
            to_ros(cfs, Eigen::MatrixXf(m.cast<float>()), ros::Time(4, 3), "ff");
            Eigen::MatrixXf sfb;
            from_ros(cfs, sfb, ts, fr);
            MC_CHECK(sfb == Eigen::MatrixXf(m.cast<float>()) && ts == ros::Time(4, 3) && fr == "ff", "covariance_f_stamped", "");
        }
        mc::nontrivial(h.h);
        mc::state(h.h);
    }
    boost::array<double, 6> arr;
    Eigen::Matrix<double, 2, 3> m23;
    m23 << 1, 2, 3, 4, 5, 6;
    to_ros(arr, m23);
    for (int i = 0; i < 6; ++i) MC_CHECK(arr[i] == i + 1, "array_order", "");
    Eigen::Matrix<double, 2, 3> b23;
    from_ros(arr, b23);
    MC_CHECK(b23 == m23, "array_back", "");
}

// Parameters.
MC_FAMILY(param) {
    rosstub::Bus::reset();
    const int len = mc::choose(11, "length");
    ros::NodeHandle nh("~");
    std::vector<double> v;
    for (int i = 0; i < len; ++i) v.push_back(i + 0.25);
    if (len == 10) {
        MC_CHECK(matrix3d_from_param(nh, "m") == Eigen::Matrix3d::Identity(), "param_default", "");
    } else {
        nh.setParam("m", v);
        bool threw = false;
        Eigen::Matrix3d m;
        try { m = matrix3d_from_param(nh, "m"); } catch (const std::exception&) { threw = true; }
        MC_CHECK(threw == (len < 9), "param_short", len);
        if (!threw) for (int i = 0; i < 9; ++i) MC_CHECK(m(i / 3, i % 3) == v[i], "param_order", m);
    }
    mc::nontrivial(len);
}

// IMU interpolation over all placements of the requested time.
MC_FAMILY(interpolate) {
    const std::vector<double> dts{0, 0.25, 1.0};
    const uint64_t start = mc::pick(std::vector<uint64_t>{0ULL, 1699999999999999999ULL}, "start");
    const uint64_t span = mc::pick(std::vector<uint64_t>{0, 1, 4, 1000000000ULL}, "span");
    const std::vector<int64_t> offs{-1, 0, 1, static_cast<int64_t>(span / 4), static_cast<int64_t>(span / 2), static_cast<int64_t>(span) - 1, static_cast<int64_t>(span), static_cast<int64_t>(span) + 1};
    const int64_t off = mc::pick(offs, "offset");
    if (off < 0 && start == 0) mc::prune();
    auto T = [](uint64_t ns) { ros::Time t; t.fromNSec(ns); return t; };
    const Q q1 = mc::pick(quats(), "q1"), q2 = mc::pick(quats(), "q2");
    const int unknown = mc::choose(4, "unknown");
    const Eigen::Vector3d a(1, 2, 3), b(-3, 5, 0.5);
    mc::transition();
    Imu i1(unknown & 1 ? Eigen::Quaterniond(0, 0, 0, 0) : eq(q1), a, b, cov3(1), cov3(2), cov3(1) * 2, T(start), "f1");
    Imu i2(unknown & 2 ? Eigen::Quaterniond(0, 0, 0, 0) : eq(q2), b * 2, a * 3, cov3(2), cov3(1), cov3(2) * 2, T(start + span), "f2");
    const ros::Time t = T(start + off);
    Imu r;
    bool threw = false;
    try { r = interpolate(i1, i2, t); } catch (const std::runtime_error&) { threw = true; }
    MC_CHECK(threw == (off < 0 || off > static_cast<int64_t>(span)), "interpolate_range", "offset " << off << " of " << span);
    if (threw) return;
    if (span == 0) {
        MC_CHECK(r == i1 || r == i2, "interpolate_equal_times", "");
        return;
    }
    const long double s = static_cast<long double>(off) / span;
    MC_CHECK(r.timestamp == t, "interpolate_stamp", "");
    const Eigen::Vector3d w = i1.angular_velocity * static_cast<double>(1 - s) + i2.angular_velocity * static_cast<double>(s);
    const Eigen::Vector3d acc = i1.linear_acceleration * static_cast<double>(1 - s) + i2.linear_acceleration * static_cast<double>(s);
    MC_CHECK((r.angular_velocity - w).norm() < 1e-9, "interpolate_gyro", r.angular_velocity.transpose() << " expected " << w.transpose());
    MC_CHECK((r.linear_acceleration - acc).norm() < 1e-9, "interpolate_accel", r.linear_acceleration.transpose());
    // nearest endpoint's covariances and frame (either at the midpoint)
    auto is = [&](const Imu& e) {
        return r.orientation_covariance == e.orientation_covariance && r.angular_velocity_covariance == e.angular_velocity_covariance &&
               r.linear_acceleration_covariance == e.linear_acceleration_covariance && r.frame == e.frame;
    };
    if (2 * off < static_cast<int64_t>(span)) MC_CHECK(is(i1), "interpolate_covariance", "not that of the nearer sample");
    else if (2 * off > static_cast<int64_t>(span)) MC_CHECK(is(i2), "interpolate_covariance", "not that of the nearer sample");
    else MC_CHECK(is(i1) || is(i2), "interpolate_covariance", "");
    if (unknown) {
        MC_CHECK(r.orientation.coeffs().isZero(), "interpolate_unknown", "orientation unknown at an endpoint but known in between");
    } else {
        // rotation from q1 to r is s times the (shortest) rotation from q1 to q2: same axis, angle s * theta
        const ref::M3 d = rq(q1).T() * rq(q2);
        const long double tr = (d(0, 0) + d(1, 1) + d(2, 2) - 1) / 2;
        if (tr > -1 + 1e-6L) {
            const double got = eq(q1).angularDistance(r.orientation), all = eq(q1).angularDistance(eq(q2)), rest = eq(q2).angularDistance(r.orientation);
            MC_CHECK(std::fabs(r.orientation.norm() - 1) < 1e-9, "interpolate_norm", r.orientation.norm());
            MC_CHECK(std::fabs(got - static_cast<double>(s) * all) < 1e-6 && std::fabs(rest - static_cast<double>(1 - s) * all) < 1e-6, "interpolate_slerp",
                    "angle " << got << " of " << all << " at " << static_cast<double>(s));
        } else {
            MC_CHECK(std::fabs(r.orientation.norm() - 1) < 1e-9, "interpolate_norm", r.orientation.norm());
        }
    }
    mc::nontrivial(mc::Hash().add(static_cast<double>(off)).add(static_cast<double>(span)).add(q1.w).add(q1.x).add(q2.w).add(q2.y).add(unknown).h);
}

// Sensor frame changes: every history of rotations.
MC_FAMILY(change_frame) {
    const Q q = mc::pick(quats(), "q");
    const Eigen::Vector3d w = mc::pick(vecs(), "w"), a = mc::pick(vecs(), "a");
    Imu im(eq(q), w, a, cov3(2), cov3(2) * 3, cov3(2) * 5, ros::Time(1, 1), "imu");
    const Imu start = im;
    ref::M3 total = ref::M3::id();
    Eigen::Quaterniond etotal = Eigen::Quaterniond::Identity();
    const int n = mc::thorough() ? 3 : 2;
    mc::Hash h;
    h.add(q.w).add(q.x).add(q.y).add(w[0]).add(a[0]);
    for (int i = 0; i < n; ++i) {
        const Q e = mc::pick(quats(), "extrinsic");
        mc::transition();
        im.change_frame(eq(e), eq(e).inverse());
        total = total * rq(e);
        etotal = etotal * eq(e);
        h.add(e.w).add(e.x).add(e.y);
        const double tw = 1e-11 * (1 + w.norm()), ta = 1e-11 * (1 + a.norm());
        MC_CHECK(ref::maxdiff(rq(q) * total, im.orientation.toRotationMatrix()) < 1e-11, "frame_orientation", im.orientation.coeffs().transpose());
        MC_CHECK(ref::maxdiff(total.T() * ref::from<3, 1>(w), im.angular_velocity) < tw, "frame_gyro", im.angular_velocity.transpose());
        MC_CHECK(ref::maxdiff(total.T() * ref::from<3, 1>(a), im.linear_acceleration) < ta, "frame_accel", im.linear_acceleration.transpose());
        MC_CHECK(ref::maxdiff(total.T() * ref::from<3, 3>(cov3(2) * 3) * total, im.angular_velocity_covariance) < 1e-10, "frame_gyro_cov", im.angular_velocity_covariance);
        MC_CHECK(ref::maxdiff(total.T() * ref::from<3, 3>(cov3(2) * 5) * total, im.linear_acceleration_covariance) < 1e-10, "frame_accel_cov", im.linear_acceleration_covariance);
        // changing frame in steps equals changing directly, and changing back restores
        Imu direct = start;
        direct.change_frame(etotal, etotal.inverse());
        MC_CHECK(direct.orientation_covariance.isApprox(im.orientation_covariance, 1e-9), "frame_orientation_cov_steps",
                "orientation covariance after stepwise frame changes\n" << im.orientation_covariance << "\ndiffers from the direct change\n" << direct.orientation_covariance);
        direct.change_frame(etotal.inverse(), etotal);
        MC_CHECK(direct.orientation_covariance.isApprox(start.orientation_covariance, 1e-9) && direct.orientation.angularDistance(start.orientation) < 1e-7, "frame_back", "");
        MC_CHECK(im.timestamp == start.timestamp && im.frame == "imu", "frame_meta", "");
        mc::nontrivial(h.h);
    }
}

// Pose composition histories with covariance.
MC_FAMILY(apply_transform) {
    const Q q0 = mc::pick(quats(), "q0");
    ref::Pose r;
    r.R = rq(q0);
    r.t = ref::v3(1, -2, 0.5);
    Pose p(Eigen::Vector3d(1, -2, 0.5), eq(q0), cov6(2));
    Odometry od(p, Twist(Eigen::Vector3d(1, 2, 3), Eigen::Vector3d(4, 5, 6), cov6(2)), ros::Time(5, 0), "map", "base");   // times need not ascend
    PoseStamped ps(p, ros::Time(9, 9));
    ref::M6 c = ref::from<6, 6>(cov6(2));
    const std::vector<Eigen::Vector3d> ts{{0, 0, 0}, {1, 2, 3}, {-4, 0, 0.25}};
    mc::Hash h;
    h.add(q0.w).add(q0.x).add(q0.y);
    const int n = mc::thorough() ? 3 : 2;
    for (int i = 0; i < n; ++i) {
        const Q e = mc::pick(quats(), "q");
        const Eigen::Vector3d t = mc::pick(ts, "t");
        mc::transition();
        ref::Pose x;
        x.R = rq(e);
        x.t = ref::from<3, 1>(t);
        r = r * x;
        const ref::M6 ad = ref::adjoint(ref::inv(x));
        c = ad * c * ad.T();
        const Pose xp(t, eq(e), Mat6(Mat6::Constant(5)));
        const Eigen::Isometry3d xi = ref::eig<double>(x);
        od = apply_transform(od, PoseStamped(xp, ros::Time(2 + i, 7)));
        ps = apply_transform(ps, xi);
        p = mc::flip("isometry") ? apply_transform(p, xi) : apply_transform(p, xp);
        h.add(e.w).add(e.x).add(e.y).add(t[0]);
        const double tol = 1e-9;
        for (const Pose& g : {p, od.pose, ps.data}) {
            MC_CHECK(ref::maxdiff(ref::mat(r), to_transform(g).matrix()) < tol, "compose_pose", to_transform(g).matrix());
            MC_CHECK(ref::maxdiff(c, g.covariance) < 1e-8 * (1 + static_cast<double>(c.norm())), "compose_covariance", g.covariance);
        }
        MC_CHECK(od.timestamp == ros::Time(2 + i, 7) && od.frame == "map" && od.child_frame == "base" && od.twist.linear == Eigen::Vector3d(1, 2, 3) && od.twist.covariance == cov6(2),
                "compose_odometry_meta", "");
        MC_CHECK(ps.timestamp == ros::Time(9, 9), "compose_stamp", "");
        mc::nontrivial(h.h);
    }
}

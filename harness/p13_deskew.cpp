// P13: deskewing moves every point to where it was seen from the frame at the new time, assuming constant motion over the sweep.
#include "mc.hpp"
#include "ref.hpp"
#include "pointcloud_tools/pclpointcloud2_utilities.hpp"

namespace {
using PF = pcl::PCLPointField;
using ref::L;

struct Motion {
    ref::V3 r;   // rotation vector, |r| < pi
    ref::V3 t;
};
// T_S^i: the pose reached after a fraction s of the motion.
ref::Pose at(const Motion& m, L s) {
    ref::Pose p;
    p.R = ref::expm(m.r * s);
    p.t = m.t * s;
    return p;
}
std::vector<Motion> motions(bool small) {
    std::vector<ref::V3> rs{ref::v3(0, 0, 0), ref::v3(0, 0, 0.5L), ref::v3(1.2L, -0.4L, 0.3L), ref::v3(0, -2.9L, 0), ref::v3(1e-5L, 2e-5L, 0), ref::v3(1e-8L, 0, -1e-8L)};
    std::vector<ref::V3> ts{ref::v3(0, 0, 0), ref::v3(1, 2, 3), ref::v3(-0.25L, 0, 40), ref::v3(1e-6L, 0, 0)};
    if (small) { rs.resize(4); ts.resize(3); }
    std::vector<Motion> out;
    for (auto& r : rs) for (auto& t : ts) out.push_back({r, t});
    return out;
}
bool is_identity(const Motion& m) { return m.r.norm() == 0 && m.t.norm() == 0; }
struct Layout {
    std::uint8_t xyz, t;
    int order, pad, tail;
};
pcl::PCLPointCloud2 cloud(const Layout& l, const std::vector<std::array<double, 4>>& pts, std::uint64_t stamp) {
    pcl::PCLPointCloud2 c;
    c.header.stamp = stamp;
    c.header.frame_id = "lidar";
    c.header.seq = 3;
    const char* names[2][5] = {{"x", "y", "z", "intensity", "t"}, {"t", "intensity", "z", "x", "y"}};
    std::uint32_t o = 0;
    for (const char* n : names[l.order]) {
        PF f;
        f.name = n;
        f.count = 1;
        f.datatype = f.name == "t" ? l.t : f.name == "intensity" ? PF::UINT16 : l.xyz;
        f.offset = o;
        o += (f.datatype == PF::FLOAT64 ? 8 : f.datatype == PF::UINT16 ? 2 : 4) + l.pad;
        c.fields.push_back(f);
    }
    c.point_step = o + l.tail;
    c.width = pts.size();
    c.height = 1;
    c.row_step = c.width * c.point_step;
    c.is_dense = pts.size() % 2;
    c.is_bigendian = 0;
    c.data.resize(c.row_step);
    for (std::size_t i = 0; i < c.data.size(); ++i) c.data[i] = static_cast<std::uint8_t>(91 * i + 7);
    for (std::size_t i = 0; i < pts.size(); ++i) {
        for (const PF& f : c.fields) {
            const int k = f.name == "x" ? 0 : f.name == "y" ? 1 : f.name == "z" ? 2 : f.name == "t" ? 3 : -1;
            if (k < 0) continue;
            if (f.datatype == PF::FLOAT64) std::memcpy(&c.data[i * c.point_step + f.offset], &pts[i][k], 8);
            else { const float v = static_cast<float>(pts[i][k]); std::memcpy(&c.data[i * c.point_step + f.offset], &v, 4); }
        }
    }
    return c;
}
double get(const pcl::PCLPointCloud2& c, const std::string& n, std::size_t i) {
    for (const PF& f : c.fields) {
        if (f.name != n) continue;
        if (f.datatype == PF::FLOAT64) { double v; std::memcpy(&v, &c.data[i * c.point_step + f.offset], 8); return v; }
        float v;
        std::memcpy(&v, &c.data[i * c.point_step + f.offset], 4);
        return v;
    }
    mc::fail("field_lost", n);
}
// Bytes outside x, y, z, t and everything about the shape are unchanged.
void check_rest(const pcl::PCLPointCloud2& a, const pcl::PCLPointCloud2& b, std::uint64_t stamp) {
    MC_CHECK(b.header.stamp == stamp && b.header.frame_id == a.header.frame_id, "deskew_header", b.header.stamp);
    MC_CHECK(a.width == b.width && a.height == b.height && a.point_step == b.point_step && a.row_step == b.row_step && a.data.size() == b.data.size() && a.is_dense == b.is_dense && a.fields == b.fields, "deskew_shape", "");
    std::vector<bool> moved(a.point_step, false);
    for (const PF& f : a.fields) if (f.name != "intensity") for (int k = 0; k < (f.datatype == PF::FLOAT64 ? 8 : 4); ++k) moved[f.offset + k] = true;
    for (std::size_t i = 0; i < a.data.size(); ++i) if (!moved[i % a.point_step]) MC_CHECK(a.data[i] == b.data[i], "deskew_other_field", i);
}
void judge(const Motion& m, double dt, std::uint64_t new_time, const pcl::PCLPointCloud2& src, const pcl::PCLPointCloud2& dest, const char* key) {
    check_rest(src, dest, new_time);
    const L s_new = (static_cast<L>(new_time) - static_cast<L>(src.header.stamp)) / 1e6L / dt;
    const bool single = [&] { for (auto& f : src.fields) if (f.name == "x") return f.datatype == PF::FLOAT32; return true; }();
    for (std::size_t i = 0; i < src.width; ++i) {
        const L s = static_cast<L>(get(src, "t", i)) / dt;
        const ref::V3 p = ref::v3(get(src, "x", i), get(src, "y", i), get(src, "z", i));
        const ref::V3 q = ref::apply(ref::inv(at(m, s_new)) * at(m, s), p);
        const Eigen::Vector3d got(get(dest, "x", i), get(dest, "y", i), get(dest, "z", i));
        const double scale = 1 + static_cast<double>(p.norm() + q.norm() + m.t.norm() * (std::fabs(s_new) + std::fabs(s)));
        MC_CHECK(ref::maxdiff(q, got) <= (single ? 3e-7 : 1e-9) * scale, key, "point " << i << " at " << got.transpose() << " instead of " << static_cast<double>(q(0, 0)) << " " << static_cast<double>(q(1, 0)) << " " << static_cast<double>(q(2, 0)));
        MC_CHECK(get(dest, "t", i) == 0, "deskew_time", "point " << i << " still has t = " << get(dest, "t", i) << " relative to the new time");
    }
}
Eigen::Isometry3d transform(const Motion& m) { return ref::eig<double>(at(m, 1)); }
}

// One point: all motions, sweep durations, point times, new times.
MC_FAMILY(single) {
    const auto ms = motions(false);
    const Motion& m = mc::pick(ms, "motion");
    const double dt = mc::pick(std::vector<double>{0.1, 0.05, 1.0, 3.0}, "dt");
    const double s = mc::pick(std::vector<double>{0, 1, 0.5, 0.25, 1.5, -0.5}, "point fraction");
    const double sn = mc::pick(std::vector<double>{0, 1, 0.5, 2, -0.5, -1}, "new time fraction");
    const std::vector<std::array<double, 3>> ps{{1, 2, 3}, {0, 0, 0}, {-20.5, 0.125, 7}};
    const auto p = mc::pick(ps, "point");
    const std::uint64_t stamp = mc::pick(std::vector<std::uint64_t>{10000000, 1700000000123456ULL}, "stamp");
    const std::uint64_t new_time = stamp + static_cast<std::int64_t>(std::llround(sn * dt * 1e6));
    const auto src = cloud({PF::FLOAT32, PF::FLOAT32, 0, 0, 0}, {{p[0], p[1], p[2], s * dt}}, stamp);
    pcl::PCLPointCloud2 dest;
    mc::transition();
    pct::deskew(transform(m), dt, new_time, src, dest);
    judge(m, dt, new_time, src, dest, "deskew_value");
    mc::nontrivial(mc::Hash().add(static_cast<double>(m.r.norm())).add(static_cast<double>(m.t.norm())).add(dt).add(s).add(sn).add(p[0]).add(stamp).h);
}

// Several points, every layout, reused destinations.
MC_FAMILY(layouts) {
    const auto ms = motions(true);
    const Motion& m = mc::pick(ms, "motion");
    const Layout l{mc::flip("double xyz") ? PF::FLOAT64 : PF::FLOAT32, mc::flip("double t") ? PF::FLOAT64 : PF::FLOAT32, mc::choose(2, "order"), mc::choose(2, "gap") * 3, mc::choose(2, "trailing") * 7};
    const double dt = 0.1;
    const int n = mc::choose(mc::thorough() ? 5 : 4, "points");
    std::vector<std::array<double, 4>> pts;
    for (int i = 0; i < n; ++i) pts.push_back({1.5 * i, 2 - i, 0.25 * i * i, mc::pick(std::vector<double>{0, 0.1, 0.05}, "t")});
    const std::uint64_t stamp = 1700000000123456ULL, new_time = stamp + mc::pick(std::vector<std::int64_t>{0, 100000, -30000}, "new time");
    const auto src = cloud(l, pts, stamp);
    pcl::PCLPointCloud2 dest;
    if (mc::flip("destination reused")) dest = cloud({PF::FLOAT64, PF::FLOAT32, 1, 1, 1}, {{1, 2, 3, 4}, {5, 6, 7, 8}, {1, 1, 1, 1}, {2, 2, 2, 2}, {3, 3, 3, 3}}, 5);
    mc::transition();
    pct::deskew(transform(m), dt, new_time, src, dest);
    judge(m, dt, new_time, src, dest, "deskew_layout");
    mc::Hash h;
    for (auto& p : pts) h.add(p[3]);
    mc::nontrivial(h.add(static_cast<double>(m.r.norm())).add(static_cast<double>(m.t.norm())).add(static_cast<int>(l.xyz)).add(static_cast<int>(l.t)).add(l.order).add(l.pad).add(l.tail).add(new_time).h);
}

// Deskewing is consistent: a deskewed cloud is rigid, so that deskewing again (points all at the new time) to another time is a
// rigid motion, and the result equals deskewing there at once.
MC_FAMILY(histories) {
    const auto ms = motions(true);
    const Motion& m = mc::pick(ms, "motion");
    const double dt = 0.1;
    const std::uint64_t stamp = 1700000000123456ULL;
    std::vector<std::array<double, 4>> pts;
    for (int i = 0; i < 3; ++i) pts.push_back({1.5 * i, 2.0 - i, 0.25 * i * i, 0.05 * i});
    const auto src = cloud({PF::FLOAT64, PF::FLOAT64, 0, 0, 0}, pts, stamp);
    auto current = src;
    std::int64_t when = 0;
    const int depth = mc::thorough() ? 4 : 3;
    const std::vector<std::int64_t> times{0, 100000, 50000, -20000, 130000};
    ref::Pose expected_from_start;   // T_now^S accumulated through single steps
    bool first = true;
    mc::Hash h;
    std::vector<ref::V3> want;
    for (int k = 0; k < depth; ++k) {
        const std::int64_t to = mc::pick(times, "to");
        pcl::PCLPointCloud2 next;
        mc::transition();
        pct::deskew(transform(m), dt, stamp + to, current, next);
        judge(m, dt, stamp + to, current, next, "deskew_history_step");
        for (std::size_t i = 0; i < 3; ++i) {
            const ref::V3 p = ref::v3(pts[i][0], pts[i][1], pts[i][2]);
            const ref::Pose step = ref::inv(at(m, (to - when) / 1e6L / dt));
            if (first) want.push_back(ref::apply(step * at(m, pts[i][3] / dt), p));
            else want[i] = ref::apply(step, want[i]);
            const Eigen::Vector3d got(get(next, "x", i), get(next, "y", i), get(next, "z", i));
            MC_CHECK(ref::maxdiff(want[i], got) < 1e-8, "deskew_history", i);
        }
        first = false;
        when = to;
        current = next;
        mc::state(mc::Hash().add(static_cast<double>(to)).add(get(next, "x", 1)).add(get(next, "z", 2)).h);
        h.add(static_cast<double>(to));
    }
    mc::nontrivial(h.add(static_cast<double>(m.r.norm())).add(static_cast<double>(m.t.norm())).h);
}

// Refusals.
MC_FAMILY(refusals) {
    const auto ms = motions(true);
    const Motion& m = mc::pick(ms, "motion");
    const double dt = mc::pick(std::vector<double>{0.1, 0.0, -0.1}, "dt");
    const std::string missing = mc::pick(std::vector<std::string>{"", "x", "y", "z", "t"}, "missing");
    auto src = cloud({PF::FLOAT32, PF::FLOAT32, 0, 0, 0}, {{1, 2, 3, 0.05}}, 1000000);
    for (auto& f : src.fields) if (f.name == missing) f.name = "other";
    pcl::PCLPointCloud2 dest;
    mc::transition();
    const bool threw = mc::throws([&] { pct::deskew(transform(m), dt, 1050000, src, dest); });
    if (is_identity(m)) {
        MC_CHECK(!threw && dest.header.stamp == 1050000, "deskew_identity_refused", "");
        for (const char* n : {"x", "y", "z"}) if (n != missing) MC_CHECK(get(dest, n, 0) == get(src, n, 0), "deskew_identity", n);
    } else {
        MC_CHECK(threw == (dt <= 0 || !missing.empty()), "deskew_refusal", "dt " << dt << " missing '" << missing << "' " << (threw ? "refused" : "accepted"));
    }
    mc::nontrivial(mc::Hash().add(static_cast<double>(m.r.norm())).add(static_cast<double>(m.t.norm())).add(dt).add(missing).h);
}

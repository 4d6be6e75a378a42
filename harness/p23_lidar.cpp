// P23: the lidar input pipeline (formatting, filtering, unit vectors, normals) for all configurations and cloud sequences.
#include "pipeline.hpp"
#include <pcl/search/impl/search.hpp>
#include <pcl/kdtree/kdtree_flann.h>
#include <sensor_msgs/PointCloud2.h>
#include "pointcloud_tools/point_types.hpp"
#include "serpent/front_end/lidar/pointcloud_add_unit_vectors.hpp"
#include "serpent/front_end/lidar/pointcloud_filter.hpp"
#include "serpent/front_end/lidar/pointcloud_formatter.hpp"
#include "serpent/front_end/lidar/pointcloud_normal_estimation.hpp"

namespace {
using namespace scene_ns;
typedef pcl::PCLPointField F;
struct Col { std::string name; int type; };
typedef std::vector<double> Row;
struct Table { std::vector<Col> cols; std::vector<Row> rows; };

int size_of(int type) { switch (type) { case F::INT8: case F::UINT8: return 1; case F::INT16: case F::UINT16: return 2; case F::FLOAT64: return 8; default: return 4; } }
void put(std::uint8_t* p, int type, double v) {
    switch (type) {
    case F::UINT8: { std::uint8_t x = v; std::memcpy(p, &x, 1); break; }
    case F::UINT16: { std::uint16_t x = v; std::memcpy(p, &x, 2); break; }
    case F::UINT32: { std::uint32_t x = v; std::memcpy(p, &x, 4); break; }
    case F::FLOAT32: { float x = v; std::memcpy(p, &x, 4); break; }
    default: std::abort();
    }
}
double get(const std::uint8_t* p, int type) {
    switch (type) {
    case F::UINT8: return *p;
    case F::UINT16: { std::uint16_t x; std::memcpy(&x, p, 2); return x; }
    case F::UINT32: { std::uint32_t x; std::memcpy(&x, p, 4); return x; }
    case F::FLOAT32: { float x; std::memcpy(&x, p, 4); return x; }
    default: return std::nan("");
    }
}
int col(const Table& t, const std::string& n) { for (std::size_t i = 0; i < t.cols.size(); ++i) if (t.cols[i].name == n) return i; return -1; }

// Messages, with gaps between the fields and padding after them if wanted.
template<class M, class Field> void layout(M& m, const Table& t, int gap) {
    int off = gap;
    for (auto& c : t.cols) {
        Field f;
        f.name = c.name; f.offset = off; f.datatype = c.type; f.count = 1;
        m.fields.push_back(f);
        off += size_of(c.type) + (c.name == "x" || c.name == "y" ? 0 : gap);   // PCL needs x, y and z together
    }
    m.point_step = off;
    m.height = 1; m.width = t.rows.size(); m.row_step = m.width * m.point_step; m.is_bigendian = 0; m.is_dense = 1;
    m.data.assign(m.row_step, 0xA5);
    for (std::size_t i = 0; i < t.rows.size(); ++i) for (std::size_t k = 0; k < t.cols.size(); ++k) put(&m.data[i * m.point_step + m.fields[k].offset], t.cols[k].type, t.rows[i][k]);
}
Table table(const pcl::PCLPointCloud2& m) {
    Table t;
    for (auto& f : m.fields) t.cols.push_back({f.name, f.datatype});
    for (std::size_t i = 0; i < static_cast<std::size_t>(m.width) * m.height; ++i) {
        Row r;
        for (auto& f : m.fields) {
            MC_CHECK(i * m.point_step + f.offset + size_of(f.datatype) <= m.data.size(), "size", "field " << f.name << " of point " << i << " lies outside the data");
            r.push_back(get(&m.data[i * m.point_step + f.offset], f.datatype));
        }
        t.rows.push_back(r);
    }
    return t;
}
// Same rows in the same order (or any order), comparing the columns of e by name.
std::string differs(const Table& e, const Table& o, double tol, bool any_order = false) {
    std::ostringstream s;
    if (e.rows.size() != o.rows.size()) { s << o.rows.size() << " points instead of " << e.rows.size(); return s.str(); }
    std::vector<int> at;
    for (auto& c : e.cols) {
        const int k = col(o, c.name);
        if (k < 0) return "field " + c.name + " is missing";
        if (o.cols[k].type != c.type) return "field " + c.name + " has another type";
        at.push_back(k);
    }
    auto same = [&](const Row& a, const Row& b) {
        for (std::size_t k = 0; k < at.size(); ++k) {
            const double x = a[k], y = b[at[k]];
            if (!(std::fabs(x - y) <= tol * std::max(1.0, std::fabs(x)) || (std::isnan(x) && std::isnan(y)))) return false;
        }
        return true;
    };
    std::vector<bool> used(o.rows.size(), false);
    for (std::size_t i = 0; i < e.rows.size(); ++i) {
        bool found = false;
        for (std::size_t j = any_order ? 0 : i; j < (any_order ? o.rows.size() : i + 1) && !found; ++j) if (!used[j] && same(e.rows[i], o.rows[j])) found = used[j] = true;
        if (!found) {
            s << "point " << i << " (";
            for (double v : e.rows[i]) s << v << " ";
            s << ") is missing or changed";
            if (!any_order) { s << ": "; for (double v : o.rows[i]) s << v << " "; }
            return s.str();
        }
    }
    return "";
}
void header_ok(const pcl::PCLPointCloud2& m, ns_t t, const char* what) {
    MC_CHECK(m.header.stamp == t / 1000, std::string(what) + "_stamp", m.header.stamp << " instead of " << t / 1000);
    MC_CHECK(m.header.frame_id == "lidar_id", std::string(what) + "_frame", m.header.frame_id);
}

// ---- formatter ----
Table ouster(int kind) {
    Table t;
    t.cols = {{"x", F::FLOAT32}, {"y", F::FLOAT32}, {"z", F::FLOAT32}, {"intensity", F::FLOAT32}, {"t", F::UINT32}, {"reflectivity", F::UINT16}, {"ring", F::UINT8}, {"range", F::UINT32}};
    if (kind == 1) std::swap(t.cols[1], t.cols[7]), std::swap(t.cols[0], t.cols[4]);
    return t;
}
Table custom(int kind) {
    Table t;
    t.cols = {{"x", F::FLOAT32}, {"y", F::FLOAT32}, {"z", F::FLOAT32}, {"ring", F::UINT8}, {"time", F::FLOAT32}};
    if (kind == 1) t.cols[4].name = "t";
    if (kind == 2) t.cols.push_back({"t", F::FLOAT32});
    return t;
}
double value(const std::string& name, int i, int salt) {
    static const double times[] = {0, 0.05, 0.0999, 0.1001, 0.15, 0.02};
    if (name == "x") return 1.5 + i + 0.25 * salt;
    if (name == "y") return -2.25 * i + salt;
    if (name == "z") return 0.5 * i - 0.75;
    if (name == "t" || name == "time") return times[(i + salt) % 6];
    if (name == "range") return 1.234 * (i + 1) + salt;
    if (name == "ring") return (i * 37 + salt) % 256;
    if (name == "reflectivity") return 300 * i + 7;
    return 0.125 * i + salt;
}
}

// Formatting of every cloud sequence.
MC_FAMILY(format) {
    rosstub::Bus::reset();
    auto& bus = rosstub::Bus::get();
    Frames frames(mc::flip("body frame is base_link"));
    frames.install();
    const bool is_ouster = mc::flip("OUSTER"), first = mc::flip("first cloud removed"), filter = mc::flip("time filter");
    bus.param("/serpent/pointcloud_type", is_ouster ? "OUSTER" : "CUSTOM");
    bus.param("/serpent/first_pointcloud_removal/enabled", first);
    bus.param("/serpent/time_field_filter/enabled", filter);
    if (filter) bus.param("/serpent/time_field_filter/max", 0.1);
    serpent::PointcloudFormatter node;
    const int n = mc::thorough() ? 4 : 3;
    std::vector<std::pair<ns_t, Table>> expected;
    for (int k = 0; k < n; ++k) {
        Table t = is_ouster ? ouster(mc::choose(2, "layout")) : custom(mc::choose(3, "layout"));
        const int gap = mc::choose(2, "gap"), points = mc::choose(4, "points") * 2;
        Table in = t, out = t;
        for (int i = 0; i < points; ++i) {
            Row a, b;
            for (auto& c : t.cols) {
                double v = value(c.name, i, k + (c.name == "time" && col(t, "t") >= 0 ? 1 : 0));
                double raw = v;
                if (is_ouster && c.name == "t") raw = std::round(v * 1e9);
                if (is_ouster && c.name == "range") raw = std::round(v * 1e3);
                a.push_back(raw);
                b.push_back(is_ouster && c.name == "range" ? raw * 1e-3 : v);
            }
            in.rows.push_back(a);
            int tc = col(t, "t") >= 0 ? col(t, "t") : col(t, "time");
            if (!filter || b[tc] <= 0.1) out.rows.push_back(b);
        }
        for (auto& c : out.cols) {
            if (is_ouster && (c.name == "t" || c.name == "range")) c.type = F::FLOAT32;
            if (!is_ouster && c.name == "time" && col(t, "t") < 0) c.name = "t";
        }
        const ns_t time = base_ns + k * 100000000ULL + 3000;
        auto m = boost::make_shared<sensor_msgs::PointCloud2>();
        m->header.stamp = stamp(time);
        m->header.frame_id = "sensor";
        layout<sensor_msgs::PointCloud2, sensor_msgs::PointField>(*m, in, gap);
        bus.inject<sensor_msgs::PointCloud2>("/serpent/input/pointcloud", m);
        bus.spin_all();
        mc::transition();
        if (!(first && k == 0)) expected.emplace_back(time, out);
        auto got = bus.published<pcl::PCLPointCloud2>("/serpent/formatter/formatted_pointcloud");
        MC_CHECK(got.size() == expected.size(), "format_count", got.size() << " clouds instead of " << expected.size());
        if (got.empty()) continue;
        header_ok(*got.back(), expected.back().first, "format");
        const std::string d = differs(expected.back().second, table(*got.back()), 1e-6);
        MC_CHECK(d.empty(), "format", "cloud " << k << ": " << d);
        mc::Hash h;
        h.add(is_ouster).add(first).add(filter).add(k).add(points).add(gap).add(out.rows.size());
        for (auto& c : out.cols) h.add(c.name);
        mc::state(h.h);
        mc::nontrivial(h.h);
        mc::evaluated(1);
    }
}

// Clouds without the fields that the sensor or the time filter needs are refused.
MC_FAMILY(format_refused) {
    rosstub::Bus::reset();
    auto& bus = rosstub::Bus::get();
    Frames(false).install();
    const int kind = mc::choose(6, "problem");
    const bool is_ouster = kind < 2;
    bus.param("/serpent/pointcloud_type", kind == 5 ? "VELODYNE?" : is_ouster ? "OUSTER" : "CUSTOM");
    bus.param("/serpent/time_field_filter/enabled", kind >= 3);
    if (kind == 5) { MC_CHECK(mc::throws([] { serpent::PointcloudFormatter node; }), "sensor_type", "unknown sensor type accepted"); mc::evaluated(1); return; }
    serpent::PointcloudFormatter node;
    Table t = is_ouster ? ouster(0) : custom(0);
    if (kind == 0) t.cols[4].name = "u";
    if (kind == 1) t.cols[7].name = "u";
    if (kind == 2) t.cols[4].name = "u";                 // accepted: no time needed
    if (kind == 3) t.cols[4].name = "u";
    if (kind == 4) t.cols[4] = {"t", F::UINT32};
    t.rows.push_back(Row(t.cols.size(), 1));
    auto m = boost::make_shared<sensor_msgs::PointCloud2>();
    layout<sensor_msgs::PointCloud2, sensor_msgs::PointField>(*m, t, 0);
    bus.inject<sensor_msgs::PointCloud2>("/serpent/input/pointcloud", m);
    const bool threw = mc::throws([&] { bus.spin_all(); });
    mc::transition();
    MC_CHECK(threw == (kind != 2), "format_refused", "problem " << kind << (threw ? " refused" : " accepted"));
    MC_CHECK(bus.count("/serpent/formatter/formatted_pointcloud") == (threw ? 0 : 1), "format_refused_output", kind);
    mc::evaluated(1);
}

namespace {
// ---- filters ----
struct FilterConfig {
    bool on[5];                        // voxel, body, range, outlier, sample
    double leaf = 0.5; int per_voxel = 1;
    int body = 0;                      // 0 axis aligned box, 1 translated, 2 rotated and translated
    double range_min = 0.5, range_max = 6;
    int mean_k = 2; double mult = 1;
    int sample = 4, seed = 3;
};
const double lo[3] = {-1, -1.5, -0.5}, hi[3] = {1.5, 1, 1}, move[3] = {0.75, 0.5, -0.25}, turn[3] = {0.3, -0.2, 0.8};
struct Unclear {};

struct Reference {
    const FilterConfig& c;
    Table t;
    double at(const Row& r, const char* n) const { return r[col(t, n)]; }
    void voxel() {
        std::map<std::array<long, 3>, std::vector<Row>> cells;
        for (auto& r : t.rows) {
            std::array<long, 3> k;
            const char* n[] = {"x", "y", "z"};
            for (int i = 0; i < 3; ++i) {
                const double x = at(r, n[i]) / c.leaf;
                if (std::fabs(x - std::round(x)) < 1e-5) throw Unclear();
                k[i] = static_cast<long>(std::floor(x));
            }
            cells[k].push_back(r);
        }
        t.rows.clear();
        for (auto& e : cells) {
            if (static_cast<int>(e.second.size()) < c.per_voxel) continue;
            Row s(t.cols.size(), 0);
            for (auto& r : e.second) for (std::size_t i = 0; i < s.size(); ++i) s[i] += r[i] / e.second.size();
            t.rows.push_back(s);
        }
    }
    template<class P> void keep(P p) { std::vector<Row> k; for (auto& r : t.rows) if (p(r)) k.push_back(r); t.rows = k; }
    void body() {   // points within the body are removed
        ref::Pose box;
        if (c.body >= 1) box.t = ref::v3(move[0], move[1], move[2]);
        if (c.body == 2) box.R = ref::expm(ref::v3(0, 0, turn[2])) * ref::expm(ref::v3(0, turn[1], 0)) * ref::expm(ref::v3(turn[0], 0, 0));
        const ref::Pose inv = ref::inv(box);
        keep([&](const Row& r) {
            const ref::V3 p = ref::apply(inv, ref::v3(at(r, "x"), at(r, "y"), at(r, "z")));
            bool in = true;
            for (int i = 0; i < 3; ++i) {
                if (std::fabs(p(i, 0) - lo[i]) < 1e-4 || std::fabs(p(i, 0) - hi[i]) < 1e-4) throw Unclear();
                in = in && p(i, 0) >= lo[i] && p(i, 0) <= hi[i];
            }
            return !in;
        });
    }
    void range() { keep([&](const Row& r) { const double v = at(r, "range"); if (std::fabs(v - c.range_min) < 1e-5 || std::fabs(v - c.range_max) < 1e-5) throw Unclear(); return v > c.range_min && v < c.range_max; }); }
    void outlier() {
        std::vector<double> mean;
        if (static_cast<int>(t.rows.size()) <= c.mean_k) throw Unclear();
        for (auto& a : t.rows) {
            std::vector<double> d;
            for (auto& b : t.rows) if (&a != &b) d.push_back(std::sqrt(std::pow(at(a, "x") - at(b, "x"), 2) + std::pow(at(a, "y") - at(b, "y"), 2) + std::pow(at(a, "z") - at(b, "z"), 2)));
            std::sort(d.begin(), d.end());
            double s = 0;
            for (int i = 0; i + 1 < c.mean_k; ++i) s += d[i];   // PCL counts the point itself
            mean.push_back(s / (c.mean_k - 1));
        }
        double sum = 0, sq = 0;
        for (double m : mean) { sum += m; sq += m * m; }
        const double n = mean.size(), mu = sum / n, sd = std::sqrt((sq - sum * sum / n) / (n - 1)), limit = mu + c.mult * sd;
        std::size_t i = 0;
        keep([&](const Row&) { const double m = mean[i++]; if (std::fabs(m - limit) < 1e-4) throw Unclear(); return m <= limit; });
    }
};
Table cloud(int kind, bool extra) {
    Table t;
    t.cols = {{"x", F::FLOAT32}, {"y", F::FLOAT32}, {"z", F::FLOAT32}, {"t", F::FLOAT32}, {"range", F::FLOAT32}};
    if (extra) t.cols.push_back({"ring", F::UINT8});
    const int n = kind == 0 ? 0 : kind == 1 ? 1 : kind == 2 ? 9 : 24;
    for (int i = 0; i < n; ++i) {
        // spread over the ranges, some inside the body, some together
        const double r = 0.31 + 0.83 * ((i * 7) % 11), a = 0.7 * i + 0.1 * kind, e = 0.4 * ((i * 5) % 7 - 3);
        double x = r * std::cos(a) * std::cos(e), y = r * std::sin(a) * std::cos(e), z = r * std::sin(e);
        if (i % 4 == 3) { x = t.rows.back()[0] + 0.021; y = t.rows.back()[1] - 0.013; z = t.rows.back()[2] + 0.017; }
        Row row{x, y, z, 0.004 * i, std::sqrt(x * x + y * y + z * z)};
        if (extra) row.push_back((i * 37) % 256);
        for (int k = 0; k < 5; ++k) row[k] = static_cast<float>(row[k]);
        t.rows.push_back(row);
    }
    return t;
}
void configure(const FilterConfig& c) {
    auto& bus = rosstub::Bus::get();
    const char* names[] = {"voxel_grid_filter", "body_filter", "range_filter", "statistical_outlier_removal", "random_sample_filter"};
    for (int i = 0; i < 5; ++i) bus.param(std::string("/serpent/") + names[i] + "/enabled", c.on[i]);
    bus.param("/serpent/voxel_grid_filter/leaf_size", c.leaf);
    bus.param("/serpent/voxel_grid_filter/minimum_points_number_per_voxel", c.per_voxel);
    const char* ax[] = {"x", "y", "z"};
    for (int i = 0; i < 3; ++i) {
        bus.param(std::string("/serpent/body_filter/min/") + ax[i], lo[i]);
        bus.param(std::string("/serpent/body_filter/max/") + ax[i], hi[i]);
        if (c.body >= 1) bus.param(std::string("/serpent/body_filter/translation/") + ax[i], move[i]);
        if (c.body == 2) bus.param(std::string("/serpent/body_filter/rotation/r") + ax[i], turn[i]);
    }
    bus.param("/serpent/range_filter/min", c.range_min);
    bus.param("/serpent/range_filter/max", c.range_max);
    bus.param("/serpent/statistical_outlier_removal/mean_k", c.mean_k);
    bus.param("/serpent/statistical_outlier_removal/stddev_mul_thresh", c.mult);
    bus.param("/serpent/random_sample_filter/sample_size", c.sample);
    bus.param("/serpent/random_sample_filter/random_seed", c.seed);
}
// Compares the published cloud with the reference; t is left as what was published.
void check_filter(const FilterConfig& c, const Table& in, const Table& out, bool unordered, const char* key) {
    Reference r{c, in};
    try {
        if (c.on[0]) r.voxel();
        if (c.on[1]) r.body();
        if (c.on[2]) r.range();
        if (c.on[3]) r.outlier();
    } catch (Unclear&) { return; }
    if (c.on[4]) {
        // any subset of the size, in order
        const std::size_t n = std::min<std::size_t>(c.sample, r.t.rows.size());
        MC_CHECK(out.rows.size() == n, std::string(key) + "_sample_size", out.rows.size() << " of " << r.t.rows.size() << " points sampled instead of " << n);
        Table sub = r.t;
        sub.rows.clear();
        std::vector<bool> used(r.t.rows.size(), false);
        for (auto& o : out.rows) {
            Table one = out, e = r.t;
            one.rows = {o};
            bool found = false;
            for (std::size_t i = 0; i < r.t.rows.size() && !found; ++i) {
                e.rows = {r.t.rows[i]};
                if (!used[i] && differs(e, one, 1e-5).empty()) { used[i] = true; found = true; }
            }
            MC_CHECK(found, std::string(key) + "_sample", "a sampled point is not one of the cloud, or is repeated");
        }
    } else {
        const std::string d = differs(r.t, out, 1e-5, unordered);
        MC_CHECK(d.empty(), key, d);
    }
    mc::evaluated(1);
    mc::nontrivial(mc::Hash().add(c.on[0]).add(c.on[1]).add(c.on[2]).add(c.on[3]).add(c.on[4]).add(c.leaf).add(c.per_voxel).add(c.body).add(c.range_min).add(c.mean_k).add(c.mult).add(c.sample).add(in.rows.size()).add(out.rows.size()).h);
}
}

// Every combination of filters and parameters on sequences of clouds.
MC_FAMILY(filters) {
    rosstub::Bus::reset();
    auto& bus = rosstub::Bus::get();
    FilterConfig c;
    const int combo = 1 + mc::choose(31, "filters");
    for (int i = 0; i < 5; ++i) c.on[i] = combo >> i & 1;
    if (c.on[0]) { c.leaf = mc::flip("leaf size") ? 0.1 : 1.7; c.per_voxel = 1 + mc::choose(2, "points per voxel"); }
    if (c.on[1]) c.body = mc::choose(3, "body box");
    if (c.on[2] && mc::flip("range limits")) { c.range_min = 2.5; c.range_max = 5; }
    if (c.on[3]) { c.mean_k = mc::flip("mean k") ? 5 : 3; c.mult = mc::flip("stddev") ? 0.5 : 1; }
    if (c.on[4]) c.sample = mc::choose(2, "sample") ? 4 : 1000;
    configure(c);
    serpent::PointcloudFilter node("/serpent/input");
    MC_CHECK(bus.count("/serpent/" + node.output_topic()) == 0 && node.output_topic().find("filter") != std::string::npos, "topic", node.output_topic());
    const int clouds = mc::thorough() ? 3 : 2;
    for (int k = 0; k < clouds; ++k) {
        const bool extra = !c.on[0] && mc::flip("integer field");
        const int kind = mc::choose(c.on[0] || c.on[3] ? 3 : 4, "cloud");      // empty clouds only for the filters that take them
        Table in = cloud(c.on[0] || c.on[3] ? kind + 1 : kind, extra);
        auto m = std::make_shared<pcl::PCLPointCloud2>();
        layout<pcl::PCLPointCloud2, F>(*m, in, c.on[0] ? 0 : mc::choose(2, "gap"));
        const ns_t time = base_ns + k * 100000000ULL;
        m->header.stamp = time / 1000;
        m->header.frame_id = "lidar_id";
        bus.inject<pcl::PCLPointCloud2>("/serpent/input", m);
        bus.spin_all();
        mc::transition();
        auto got = bus.published<pcl::PCLPointCloud2>("/serpent/filter/filtered_pointcloud");
        MC_CHECK(got.size() == static_cast<std::size_t>(k) + 1, "filter_count", got.size() << " filtered clouds for " << k + 1);
        header_ok(*got.back(), time, "filter");
        check_filter(c, in, table(*got.back()), c.on[0], "filter");
        mc::state(mc::Hash().add(combo).add(kind).add(k).add(extra).h);
    }
}

namespace {
// ---- normals ----
template<class In, class Out>
void normals(bool unit, bool knn, const double* vp, const Table& in, ns_t time) {
    auto& bus = rosstub::Bus::get();
    auto got = bus.published<pcl::PointCloud<Out>>("/serpent/normal_estimation/pointcloud");
    MC_CHECK(!got.empty(), "normal_count", "no cloud with normals");
    const auto& m = *got.back();
    MC_CHECK(m.header.stamp == time / 1000 && m.header.frame_id == "lidar_id", "normal_header", m.header.stamp << " " << m.header.frame_id);
    MC_CHECK(m.size() == in.rows.size(), "normal_size", m.size() << " instead of " << in.rows.size());
    const int k = 6;
    const double radius = 1.4;
    for (std::size_t i = 0; i < m.size(); ++i) {
        auto P = [&](std::size_t j) { return Eigen::Vector3d(in.rows[j][0], in.rows[j][1], in.rows[j][2]); };
        MC_CHECK((P(i) - Eigen::Vector3d(m[i].x, m[i].y, m[i].z)).norm() < 1e-6, "normal_point", "point " << i << " moved");
        if constexpr (std::is_same_v<Out, PointNormalUnit>) MC_CHECK((P(i).normalized() - Eigen::Vector3d(m[i].ux, m[i].uy, m[i].uz)).norm() < 1e-6, "normal_unit", "unit vector of point " << i);
        std::vector<std::pair<double, std::size_t>> d;
        for (std::size_t j = 0; j < m.size(); ++j) d.emplace_back((P(i) - P(j)).norm(), j);
        std::sort(d.begin(), d.end());
        std::size_t n = 0;
        if (knn) { n = std::min<std::size_t>(k, d.size()); if (n < d.size() && d[n].first - d[n - 1].first < 1e-5) continue; }
        else { bool tie = false; for (auto& e : d) { n += e.first < radius; tie = tie || std::fabs(e.first - radius) < 1e-4; } if (tie) continue; }
        if (n < 3) continue;
        Eigen::Vector3d mean = Eigen::Vector3d::Zero();
        for (std::size_t j = 0; j < n; ++j) mean += P(d[j].second) / n;
        Eigen::Matrix3d cov = Eigen::Matrix3d::Zero();
        for (std::size_t j = 0; j < n; ++j) { const Eigen::Vector3d v = P(d[j].second) - mean; cov += v * v.transpose() / n; }
        Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d> es(cov);
        if (es.eigenvalues()[1] < 20 * es.eigenvalues()[0] || es.eigenvalues()[1] < 1e-3) continue;
        Eigen::Vector3d e = es.eigenvectors().col(0);
        const Eigen::Vector3d view = Eigen::Vector3d(vp[0], vp[1], vp[2]) - P(i);
        if (std::fabs(view.dot(e)) < 1e-2) continue;
        if (view.dot(e) < 0) e = -e;
        const Eigen::Vector3d o(m[i].normal_x, m[i].normal_y, m[i].normal_z);
        MC_CHECK((o - e).norm() < 2e-3, "normal", "normal of point " << i << " is " << o.transpose() << " instead of " << e.transpose());
        MC_CHECK(std::fabs(m[i].curvature - es.eigenvalues()[0] / cov.trace()) < 1e-4, "curvature", m[i].curvature);
        mc::evaluated(1);
    }
}
Table surface(int kind) {
    Table t = cloud(0, false);
    for (int i = 0; i < 36; ++i) {
        const double u = 0.45 * (i % 6) + 0.013 * ((i * 7) % 5), v = 0.47 * (i / 6) + 0.017 * ((i * 5) % 7);
        double x, y, z;
        if (kind == 0) { x = u + 1; y = v - 1; z = -0.8 + 0.1 * u; }                       // floor
        else if (kind == 1) { x = 3; y = u - 1.2; z = v - 1.1; x += 0.02 * ((i * 3) % 4); }  // rough wall
        else { x = u < 1.2 ? u + 0.4 : 1.6; y = v; z = u < 1.2 ? 0.9 : 0.9 - (u - 1.2); }     // corner
        Row r{x, y, z, 0.001 * i, std::sqrt(x * x + y * y + z * z)};
        for (double& w : r) w = static_cast<float>(w);
        t.rows.push_back(r);
    }
    return t;
}
}

// The whole pipeline: filter, unit vectors and normals.
MC_FAMILY(pipeline) {
    rosstub::Bus::reset();
    auto& bus = rosstub::Bus::get();
    FilterConfig c;
    for (bool& b : c.on) b = false;
    const int f = mc::choose(4, "filter");
    if (f) c.on[f == 3 ? 1 : f == 2 ? 2 : 0] = true;
    c.leaf = 0.3;
    configure(c);
    const bool unit = mc::flip("unit vectors"), knn = mc::flip("knn");
    static const double views[3][3] = {{0, 0, 0}, {0, 0, -5}, {6, 1, 0.5}};
    const double* vp = views[mc::choose(3, "viewpoint")];
    const char* ax[] = {"x", "y", "z"};
    for (int i = 0; i < 3; ++i) bus.param(std::string("/serpent/normal_estimation/viewpoint/") + ax[i], vp[i]);
    bus.param("/serpent/normal_estimation/method", knn ? "knn" : "radius");
    bus.param("/serpent/normal_estimation/k", 6);
    bus.param("/serpent/normal_estimation/radius", 1.4);
    std::string topic = "/serpent/input";
    std::unique_ptr<serpent::PointcloudFilter> filter;
    std::unique_ptr<serpent::PointcloudAddUnitVectors> add;
    std::unique_ptr<serpent::PointcloudNormalEstimation<pcl::PointXYZ, pcl::PointNormal>> ne;
    std::unique_ptr<serpent::PointcloudNormalEstimation<PointUnit, PointNormalUnit>> neu;
    if (f) { filter = std::make_unique<serpent::PointcloudFilter>(topic); topic = filter->output_topic(); }
    if (unit) { add = std::make_unique<serpent::PointcloudAddUnitVectors>(topic); topic = add->output_topic(); }
    if (unit) neu = std::make_unique<serpent::PointcloudNormalEstimation<PointUnit, PointNormalUnit>>(topic);
    else ne = std::make_unique<serpent::PointcloudNormalEstimation<pcl::PointXYZ, pcl::PointNormal>>(topic);
    const int clouds = mc::thorough() ? 3 : 2;
    for (int k = 0; k < clouds; ++k) {
        const Table in = surface(mc::choose(3, "surface"));
        auto m = std::make_shared<pcl::PCLPointCloud2>();
        layout<pcl::PCLPointCloud2, F>(*m, in, 0);
        const ns_t time = base_ns + k * 100000000ULL;
        m->header.stamp = time / 1000;
        m->header.frame_id = "lidar_id";
        bus.inject<pcl::PCLPointCloud2>("/serpent/input", m);
        bus.spin_all();
        mc::transition();
        Table t = in;
        if (f) {
            auto out = bus.published<pcl::PCLPointCloud2>("/serpent/filter/filtered_pointcloud");
            MC_CHECK(out.size() == static_cast<std::size_t>(k) + 1, "pipeline_filter_count", out.size());
            t = table(*out.back());
            check_filter(c, in, t, f == 1, "pipeline_filter");
        }
        if (unit) {
            auto out = bus.published<pcl::PCLPointCloud2>("/serpent/add_unit_vectors/pointcloud");
            MC_CHECK(out.size() == static_cast<std::size_t>(k) + 1, "unit_count", out.size());
            header_ok(*out.back(), time, "unit");
            Table e = t;
            for (const char* n : {"ux", "uy", "uz"}) e.cols.push_back({n, F::FLOAT32});
            for (auto& r : e.rows) { const double n = std::sqrt(r[0] * r[0] + r[1] * r[1] + r[2] * r[2]); for (int i = 0; i < 3; ++i) r.push_back(r[i] / n); }
            const std::string d = differs(e, table(*out.back()), 1e-6);
            MC_CHECK(d.empty(), "unit", d);
        }
        MC_CHECK(bus.count("/serpent/normal_estimation/pointcloud") == static_cast<std::size_t>(k) + 1, "normal_count", k);
        if (unit) normals<PointUnit, PointNormalUnit>(unit, knn, vp, t, time);
        else normals<pcl::PointXYZ, pcl::PointNormal>(unit, knn, vp, t, time);
        mc::state(mc::Hash().add(f).add(unit).add(knn).add(vp[0]).add(k).add(t.rows.size()).h);
    }
}

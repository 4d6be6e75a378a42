// P12: operations on the fields of a binary point cloud touch exactly the addressed field of every point.
#include "mc.hpp"
#include <limits>
#include <map>
#include <pcl/conversions.h>
#include <pcl/point_types.h>
#include <pcl_conversions/pcl_conversions.h>
#include "pointcloud_tools/pclpointcloud2_utilities.hpp"
#include "pointcloud_tools/pointcloud_analyser.hpp"

namespace {

using PF = pcl::PCLPointField;
typedef long double L;
const std::vector<std::uint8_t> types{PF::FLOAT32, PF::UINT8, PF::FLOAT64, PF::INT32, PF::UINT32, PF::INT16, PF::UINT16, PF::INT8};
int width_of(std::uint8_t t) {
    switch (t) {
        case PF::INT8: case PF::UINT8: return 1;
        case PF::INT16: case PF::UINT16: return 2;
        case PF::FLOAT64: return 8;
        default: return 4;
    }
}
template<typename F> auto with_type(std::uint8_t t, F&& f) {
    switch (t) {
        case PF::INT8: return f(std::int8_t());
        case PF::UINT8: return f(std::uint8_t());
        case PF::INT16: return f(std::int16_t());
        case PF::UINT16: return f(std::uint16_t());
        case PF::INT32: return f(std::int32_t());
        case PF::UINT32: return f(std::uint32_t());
        case PF::FLOAT32: return f(float());
        default: return f(double());
    }
}
const char* type_name(std::uint8_t t) {
    static const char* n[] = {"?", "INT8", "UINT8", "INT16", "UINT16", "INT32", "UINT32", "FLOAT32", "FLOAT64"};
    return n[t];
}
L raw_get(const pcl::PCLPointCloud2& c, const PF& f, std::size_t i) {
    return with_type(f.datatype, [&](auto z) -> L {
        MC_CHECK(i * c.point_step + f.offset + sizeof z <= c.data.size(), "field_outside", f.name);
        std::memcpy(&z, c.data.data() + i * c.point_step + f.offset, sizeof z);
        return static_cast<L>(z);
    });
}
void raw_set(pcl::PCLPointCloud2& c, const PF& f, std::size_t i, L v) {
    with_type(f.datatype, [&](auto z) {
        z = static_cast<decltype(z)>(v);
        std::memcpy(c.data.data() + i * c.point_step + f.offset, &z, sizeof z);
        return 0;
    });
}
const PF& field_of(const pcl::PCLPointCloud2& c, const std::string& n) {
    for (auto& f : c.fields) if (f.name == n) return f;
    mc::fail("field_lost", n);
}

// Values representable in a type: small, negative where possible, extreme.
std::vector<L> values(std::uint8_t t) {
    return with_type(t, [](auto z) -> std::vector<L> {
        typedef decltype(z) T;
        if (std::is_floating_point<T>::value) return {3, static_cast<L>(T(-7.25)), static_cast<L>(T(0.1)), 0, 200, static_cast<L>(T(-1e6)), static_cast<L>(T(1.0 / 3))};
        if (std::is_signed<T>::value) return {3, -7, 100, 0, static_cast<L>(std::numeric_limits<T>::max()), static_cast<L>(std::numeric_limits<T>::lowest()), -1};
        return {3, 200, 100, 0, static_cast<L>(std::numeric_limits<T>::max()), 7, 255};
    });
}

struct Layout {
    std::vector<PF> fields;
    std::uint32_t step;
};
// Layouts of n fields: every datatype, gaps, trailing padding, listing order, element counts.
Layout layout(int n, int ntypes, bool counts) {
    Layout l;
    std::uint32_t o = 0;
    for (int i = 0; i < n; ++i) {
        PF f;
        f.name = std::string(1, 'a' + i);
        f.datatype = types[mc::choose(ntypes, "datatype")];
        o += mc::choose(2, "gap") * 3;
        f.offset = o;
        f.count = counts ? 1 + 2 * mc::choose(2, "count") : 1;
        o += width_of(f.datatype) * f.count;
        l.fields.push_back(f);
    }
    l.step = o + (n ? mc::choose(3, "trailing") * 6 : 0);
    if (n > 1 && mc::flip("listed in reverse")) std::reverse(l.fields.begin(), l.fields.end());
    return l;
}
const std::vector<std::pair<int, int>> shapes{{3, 1}, {1, 1}, {2, 2}, {0, 1}, {1, 3}};
pcl::PCLPointCloud2 cloud(const Layout& l, std::pair<int, int> shape, int seed) {
    pcl::PCLPointCloud2 c;
    c.header.frame_id = "lidar";
    c.header.stamp = 1234567;
    c.header.seq = 9;
    c.width = shape.first;
    c.height = shape.second;
    c.fields = l.fields;
    c.point_step = l.step;
    c.row_step = l.step * c.width;
    c.is_bigendian = 0;
    c.is_dense = shape.first % 2;
    c.data.resize(c.row_step * c.height);
    for (std::size_t i = 0; i < c.data.size(); ++i) c.data[i] = static_cast<std::uint8_t>(37 * i + 11);
    for (std::size_t i = 0; i < c.width * c.height; ++i) {
        for (std::size_t j = 0; j < l.fields.size(); ++j) {
            const auto v = values(l.fields[j].datatype);
            raw_set(c, l.fields[j], i, v[(seed + i + 2 * j) % v.size()]);
        }
    }
    return c;
}
std::size_t count(const pcl::PCLPointCloud2& c) { return static_cast<std::size_t>(c.width) * c.height; }
void check_header(const pcl::PCLPointCloud2& a, const pcl::PCLPointCloud2& b) {
    MC_CHECK(a.header.frame_id == b.header.frame_id && a.header.stamp == b.header.stamp && a.header.seq == b.header.seq, "header_changed", "");
    MC_CHECK(a.is_bigendian == b.is_bigendian, "endianness_changed", "");
}
bool same_field(const PF& a, const PF& b) { return a.name == b.name && a.offset == b.offset && a.datatype == b.datatype && a.count == b.count; }
// Everything except the bytes of one field (element 0) is as before.
void check_other_bytes(const pcl::PCLPointCloud2& before, const pcl::PCLPointCloud2& after, const PF* changed, const char* key) {
    MC_CHECK(before.width == after.width && before.height == after.height && before.point_step == after.point_step && before.row_step == after.row_step &&
            before.data.size() == after.data.size() && before.is_dense == after.is_dense, key, "shape changed");
    check_header(before, after);
    for (std::size_t i = 0; i < before.data.size(); ++i) {
        const std::size_t o = i % before.point_step;
        if (changed && o >= changed->offset && o < changed->offset + width_of(changed->datatype)) continue;
        MC_CHECK(before.data[i] == after.data[i], key, "byte " << i << " (offset " << o << ") changed");
    }
}
void check_fields_except(const pcl::PCLPointCloud2& before, const pcl::PCLPointCloud2& after, const std::string& except, const char* key) {
    MC_CHECK(before.fields.size() == after.fields.size(), key, "number of fields changed");
    for (std::size_t i = 0; i < before.fields.size(); ++i) {
        if (before.fields[i].name != except) MC_CHECK(same_field(before.fields[i], after.fields[i]), key, "field " << before.fields[i].name << " changed");
    }
}
template<typename T> bool fits(L v) {
    if (std::is_floating_point<T>::value) return true;
    return v > static_cast<L>(std::numeric_limits<T>::lowest()) - 1 && v < static_cast<L>(std::numeric_limits<T>::max()) + 1;
}
mc::Hash hash_of(const pcl::PCLPointCloud2& c) {
    mc::Hash h;
    h.bytes(c.data.data(), c.data.size());
    for (auto& f : c.fields) h.add(f.name).add(static_cast<int>(f.offset)).add(static_cast<int>(f.datatype)).add(static_cast<int>(f.count));
    return h.add(static_cast<int>(c.width)).add(static_cast<int>(c.height)).add(static_cast<int>(c.point_step));
}

template<typename S> void check_get(const pcl::PCLPointCloud2& c, const PF& f) {
    auto runtime = pct::create_get_field_data_function<S>(f);
    for (std::size_t i = 0; i < count(c); ++i) {
        const L v = raw_get(c, f, i);
        if (!fits<S>(v)) continue;
        MC_CHECK(runtime(c, i) == static_cast<S>(v), "get_value", f.name << "[" << i << "] read as " << static_cast<double>(runtime(c, i)) << ", stored " << static_cast<double>(v));
        MC_CHECK(pct::field_data<S>(c, f, i) == static_cast<S>(v), "field_data_value", i);
        with_type(f.datatype, [&](auto z) {
            typedef decltype(z) T;
            MC_CHECK((pct::create_get_field_data_function<S, T>(f)(c, i)) == static_cast<S>(v), "get_typed_value", i);
            return 0;
        });
    }
    if (f.datatype != PF::FLOAT32) MC_CHECK(mc::throws([&] { pct::create_get_field_data_function<S, float>(f); }), "get_type_mismatch", "");
    if (f.datatype != PF::INT32) MC_CHECK(mc::throws([&] { pct::create_get_field_data_function<S, std::int32_t>(f); }), "get_type_mismatch", "");
}
template<typename S> void check_set(const pcl::PCLPointCloud2& c, const PF& f, int seed) {
    for (std::size_t i = 0; i < count(c); ++i) {
        for (L v : values(PF::FLOAT64)) {
            if (!fits<S>(v)) continue;
            const S s = static_cast<S>(v);
            const bool ok = with_type(f.datatype, [&](auto z) { return fits<decltype(z)>(static_cast<L>(s)); });
            if (!ok) continue;
            const L stored = with_type(f.datatype, [&](auto z) -> L { return static_cast<L>(static_cast<decltype(z)>(s)); });
            auto judge = [&](const pcl::PCLPointCloud2& d) {
                check_fields_except(c, d, "", "set_fields");
                check_other_bytes(c, d, &f, "set_other_bytes");
                for (std::size_t k = 0; k < count(c); ++k) {
                    if (k != i) MC_CHECK(raw_get(d, f, k) == raw_get(c, f, k), "set_other_point", k);
                }
                MC_CHECK(raw_get(d, f, i) == stored, "set_value", f.name << "[" << i << "] holds " << static_cast<double>(raw_get(d, f, i)) << ", set to " << static_cast<double>(stored));
            };
            auto d = c;
            pct::create_set_field_data_function<S>(f)(d, i, s);
            judge(d);
            d = c;
            pct::set_field_data<S>(d, f, i, s);
            judge(d);
            d = c;
            with_type(f.datatype, [&](auto z) {
                pct::create_set_field_data_function<S, decltype(z)>(f)(d, i, s);
                return 0;
            });
            judge(d);
        }
    }
}

}

// Reading and writing one field through every access path.
MC_FAMILY(access) {
    const Layout l = layout(mc::thorough() ? 1 + mc::choose(3, "fields") : 1 + mc::choose(2, "fields"), 8, false);
    const auto shape = mc::pick(shapes, "shape");
    const int seed = mc::choose(2, "values");
    const auto c = cloud(l, shape, seed);
    const PF f = l.fields[mc::choose(l.fields.size(), "field")];
    mc::transition();
    switch (mc::choose(6, "as")) {
        case 0: check_get<double>(c, f); break;
        case 1: check_get<float>(c, f); break;
        case 2: check_get<std::int32_t>(c, f); break;
        case 3: check_get<std::uint8_t>(c, f); break;
        case 4: check_set<double>(c, f, seed); break;
        default: check_set<float>(c, f, seed); check_set<std::uint8_t>(c, f, seed); check_set<std::int32_t>(c, f, seed); break;
    }
    mc::nontrivial(hash_of(c).add(f.name).h);
}

// Adding fields.
MC_FAMILY(add) {
    const int n = mc::choose(3, "fields");
    const Layout l = layout(n, mc::thorough() ? 8 : 4, true);
    const auto shape = mc::pick(shapes, "shape");
    const auto c = cloud(l, shape, 0);
    const int added = mc::choose(4, "added");
    const std::uint8_t t = types[mc::choose(mc::thorough() ? 8 : 4, "added type")];
    const std::uint32_t cnt = 1 + mc::choose(2, "added count");
    if (n + added == 0 || (n == 0 && shape.first)) mc::prune();
    std::vector<std::string> names;
    for (int i = 0; i < added; ++i) names.push_back("new" + std::to_string(i));
    mc::transition();
    const auto d = added == 1 && mc::flip("single") ? pct::add_field(c, names[0], static_cast<PF::PointFieldTypes>(t), cnt) : pct::add_fields(c, names, static_cast<PF::PointFieldTypes>(t), cnt);
    check_header(c, d);
    MC_CHECK(d.width == c.width && d.height == c.height && d.is_dense == c.is_dense, "add_shape", "");
    MC_CHECK(d.fields.size() == c.fields.size() + added, "add_count", "");
    MC_CHECK(d.row_step == d.point_step * d.width && d.data.size() == std::size_t(d.row_step) * d.height, "add_size", "");
    for (std::size_t i = 0; i < d.fields.size(); ++i) {
        const PF& f = d.fields[i];
        if (i < c.fields.size()) {
            MC_CHECK(f.name == c.fields[i].name && f.datatype == c.fields[i].datatype && f.count == c.fields[i].count, "add_existing", f.name);
        } else {
            MC_CHECK(f.name == names[i - c.fields.size()] && f.datatype == t && f.count == cnt, "add_new", f.name);
        }
        MC_CHECK(f.offset + width_of(f.datatype) * f.count <= d.point_step, "add_step", "field " << f.name << " ends at " << f.offset + width_of(f.datatype) * f.count << " of a point of " << d.point_step);
        for (std::size_t j = 0; j < i; ++j) {
            const PF& g = d.fields[j];
            MC_CHECK(g.offset + width_of(g.datatype) * g.count <= f.offset || f.offset + width_of(f.datatype) * f.count <= g.offset, "add_overlap", f.name << " overlaps " << g.name);
        }
    }
    for (std::size_t i = 0; i < count(c); ++i) {
        for (std::size_t j = 0; j < c.fields.size(); ++j) {
            const PF &f = c.fields[j], &g = d.fields[j];
            MC_CHECK(std::memcmp(&c.data[i * c.point_step + f.offset], &d.data[i * d.point_step + g.offset], width_of(f.datatype) * f.count) == 0, "add_existing_data", f.name << "[" << i << "]");
        }
    }
    mc::nontrivial(hash_of(c).add(added).add(static_cast<int>(t)).add(static_cast<int>(cnt)).h);
}

namespace {
template<std::uint8_t Type> void check_cast(const Layout& l, const pcl::PCLPointCloud2& c, const std::string& name, bool scaled, double scale) {
    typedef typename pcl::traits::asType<Type>::type T;
    const PF f = field_of(c, name);
    for (std::size_t i = 0; i < count(c); ++i) {
        if (!fits<T>(raw_get(c, f, i) * (scaled ? scale : 1))) mc::prune();   // conversion undefined
    }
    if (scaled && f.datatype == Type) mc::prune();   // whether a field already of the type is scaled is not specified
    auto d = c;
    const bool threw = mc::throws([&] {
        if (scaled) pct::cast_field_with_scale<Type>(d, name, scale);
        else pct::cast_field<Type>(d, name);
    });
    MC_CHECK(threw == (width_of(f.datatype) != width_of(Type)), "cast_depth", type_name(f.datatype) << " to " << type_name(Type) << (threw ? " refused" : " accepted"));
    check_fields_except(c, d, name, "cast_fields");
    check_other_bytes(c, d, threw ? nullptr : &f, "cast_other_bytes");
    PF expected = f;
    if (!threw) expected.datatype = Type;
    MC_CHECK(same_field(field_of(d, name), expected), "cast_field", "");
    for (std::size_t i = 0; !threw && i < count(c); ++i) {
        const L v = raw_get(c, f, i);
        const L want = scaled ? static_cast<L>(static_cast<T>(static_cast<double>(v) * scale)) : static_cast<L>(static_cast<T>(v));
        MC_CHECK(raw_get(d, expected, i) == want, "cast_value", type_name(f.datatype) << " " << static_cast<double>(v) << " cast to " << type_name(Type) << " gave " << static_cast<double>(raw_get(d, expected, i)));
    }
}
}

MC_FAMILY(cast) {
    const Layout l = layout(1 + mc::choose(2, "fields"), 8, false);
    const auto c = cloud(l, mc::pick(shapes, "shape"), mc::choose(7, "values"));
    const std::string name = l.fields[mc::choose(l.fields.size(), "field")].name;
    const bool scaled = mc::flip("scaled");
    const double scale = scaled ? mc::pick(std::vector<double>{1e-3, 0.0, 2.0, -0.5}, "scale") : 1;
    mc::transition();
    switch (mc::choose(8, "to")) {
        case 0: check_cast<PF::INT8>(l, c, name, scaled, scale); break;
        case 1: check_cast<PF::UINT8>(l, c, name, scaled, scale); break;
        case 2: check_cast<PF::INT16>(l, c, name, scaled, scale); break;
        case 3: check_cast<PF::UINT16>(l, c, name, scaled, scale); break;
        case 4: check_cast<PF::INT32>(l, c, name, scaled, scale); break;
        case 5: check_cast<PF::UINT32>(l, c, name, scaled, scale); break;
        case 6: check_cast<PF::FLOAT32>(l, c, name, scaled, scale); break;
        default: check_cast<PF::FLOAT64>(l, c, name, scaled, scale); break;
    }
    auto d = c;
    MC_CHECK(mc::throws([&] { pct::cast_field<PF::FLOAT32>(d, "missing"); }) && mc::throws([&] { pct::get_field(c, "missing"); }) && mc::throws([&] { pct::get_field(d, "missing"); }), "missing_field", "missing field accepted");
    MC_CHECK(!pct::has_field(c, "missing") && pct::has_field(c, name), "has_field", "");
    mc::nontrivial(hash_of(c).add(name).add(scale).h);
}

MC_FAMILY(scale_rename_resize) {
    const Layout l = layout(1 + mc::choose(2, "fields"), 8, false);
    const auto c = cloud(l, mc::pick(shapes, "shape"), mc::choose(3, "values"));
    const PF f = l.fields[mc::choose(l.fields.size(), "field")];
    mc::transition();
    auto d = c;
    switch (mc::choose(3, "operation")) {
        case 0: {
            const double scale = mc::pick(std::vector<double>{1e-3, 0.0, 0.5, 1.0, -1.0}, "scale");
            for (std::size_t i = 0; i < count(c); ++i) {
                if (!with_type(f.datatype, [&](auto z) { return fits<decltype(z)>(raw_get(c, f, i) * scale); })) mc::prune();
            }
            if (mc::flip("by name")) pct::scale_field(d, f.name, scale);
            else pct::scale_field(d, f, scale);
            check_fields_except(c, d, "", "scale_fields");
            check_other_bytes(c, d, &f, "scale_other_bytes");
            for (std::size_t i = 0; i < count(c); ++i) {
                const L want = with_type(f.datatype, [&](auto z) -> L { return static_cast<L>(static_cast<decltype(z)>(static_cast<double>(raw_get(c, f, i)) * scale)); });
                MC_CHECK(raw_get(d, f, i) == want, "scale_value", "");
            }
            break;
        }
        case 1: {
            pct::change_field_name(d, f.name, "renamed");
            check_fields_except(c, d, f.name, "rename_fields");
            check_other_bytes(c, d, nullptr, "rename_bytes");
            PF g = f;
            g.name = "renamed";
            MC_CHECK(same_field(field_of(d, "renamed"), g) && !pct::has_field(d, f.name), "rename", "");
            MC_CHECK(mc::throws([&] { pct::change_field_name(d, f.name, "again"); }), "rename_missing", "");
            break;
        }
        default: {
            const std::uint32_t w = mc::choose(4, "width"), h = 1 + mc::choose(2, "height");
            pct::resize(d, w, h);
            check_fields_except(c, d, "", "resize_fields");
            check_header(c, d);
            MC_CHECK(d.width == w && d.height == h && d.point_step == c.point_step && d.row_step == w * c.point_step && d.data.size() == std::size_t(w) * h * c.point_step, "resize_shape", "");
            MC_CHECK(std::memcmp(d.data.data(), c.data.data(), std::min(d.data.size(), c.data.size())) == 0, "resize_data", "");
            MC_CHECK(pct::size_points(d) == w * h && pct::size_bytes(d) == w * h * d.point_step && pct::empty(d) == (w == 0), "resize_size", "");
        }
    }
    mc::nontrivial(hash_of(d).add(hash_of(c).h).h);
}

namespace {
template<typename T> void check_stats(const pcl::PCLPointCloud2& c, const PF& f) {
    const std::size_t n = count(c);
    L sum = 0, sq = 0, lo = INFINITY, hi = -INFINITY, mag = 0;
    bool fit = true;
    for (std::size_t i = 0; i < n; ++i) {
        const L v = raw_get(c, f, i);
        fit = fit && fits<T>(v);
        sum += v;
        mag += std::fabs(v);
        lo = std::min(lo, v);
        hi = std::max(hi, v);
    }
    for (std::size_t i = 0; i < n; ++i) sq += (raw_get(c, f, i) - sum / n) * (raw_get(c, f, i) - sum / n);
    if (n == 0) {
        MC_CHECK(mc::throws([&] { pct::min<T>(c, f); }) && mc::throws([&] { pct::max<T>(c, f); }) && mc::throws([&] { pct::min<T>(c, f.name); }), "stats_empty", "extreme of an empty cloud");
        return;
    }
    if (!fit) return;
    MC_CHECK(pct::min<T>(c, f) == static_cast<T>(lo) && pct::min<T>(c, f.name) == static_cast<T>(lo), "stats_min", static_cast<double>(pct::min<T>(c, f)) << " instead of " << static_cast<double>(lo));
    MC_CHECK(pct::max<T>(c, f) == static_cast<T>(hi) && pct::max<T>(c, f.name) == static_cast<T>(hi), "stats_max", static_cast<double>(pct::max<T>(c, f)) << " instead of " << static_cast<double>(hi));
    const double eps = std::is_same<T, float>::value ? 1e-5 : 1e-9;
    auto about = [&](double got, L want) { return std::is_integral<T>::value ? std::fabs(got - static_cast<double>(want)) <= 1.0 + 1e-9 * std::fabs(static_cast<double>(want)) : mc::close(got, static_cast<double>(want), eps); };
    MC_CHECK(about(pct::mean<T>(c, f), sum / n) && about(pct::mean<T>(c, f.name), sum / n), "stats_mean", "mean " << static_cast<double>(pct::mean<T>(c, f)) << " instead of " << static_cast<double>(sum / n));
    if (std::is_floating_point<T>::value) {
        MC_CHECK(std::fabs(pct::sum<T>(c, f) - sum) <= 10 * std::numeric_limits<T>::epsilon() * mag && std::fabs(pct::sum<T>(c, f.name) - sum) <= 10 * std::numeric_limits<T>::epsilon() * mag, "stats_sum", "");
        MC_CHECK(about(pct::variance<T>(c, f), sq / n) && about(pct::variance<T>(c, f.name), sq / n), "stats_variance", pct::variance<T>(c, f));
        const double m = static_cast<double>(sum / n);
        MC_CHECK(about(pct::variance<T>(c, f, m), sq / n) && about(pct::variance<T>(c, f.name, m), sq / n), "stats_variance_mean", "");
        MC_CHECK(about(pct::standard_deviation<T>(c, f), std::sqrt(sq / n)) && about(pct::standard_deviation<T>(c, f.name), std::sqrt(sq / n)), "stats_deviation", "");
        MC_CHECK(about(pct::standard_deviation<T>(c, f, m), std::sqrt(sq / n)) && about(pct::standard_deviation<T>(c, f.name, m), std::sqrt(sq / n)), "stats_deviation_mean", "");
        // about another mean
        L sq1 = 0;
        for (std::size_t i = 0; i < n; ++i) sq1 += (raw_get(c, f, i) - 1) * (raw_get(c, f, i) - 1);
        MC_CHECK(about(pct::variance<T>(c, f, 1.0), sq1 / n), "stats_variance_mean", "");
    }
}
}

MC_FAMILY(statistics) {
    const Layout l = layout(1 + mc::choose(2, "fields"), 8, false);
    const auto c = cloud(l, mc::pick(shapes, "shape"), mc::choose(7, "values"));
    const PF f = l.fields[mc::choose(l.fields.size(), "field")];
    mc::transition();
    switch (mc::choose(4, "as")) {
        case 0: check_stats<double>(c, f); break;
        case 1: check_stats<float>(c, f); break;
        case 2: with_type(f.datatype, [&](auto z) { check_stats<decltype(z)>(c, f); return 0; }); break;
        default: {
            if (!count(c)) {
                MC_CHECK(mc::throws([&] { pct::statistics(c); }), "summary_empty", "");
                return;
            }
            const auto s = pct::statistics(c);
            MC_CHECK(s.statistics.size() == c.fields.size() && s.header.frame_id == "lidar", "summary_size", "");
            for (std::size_t j = 0; j < c.fields.size(); ++j) {
                const auto& g = c.fields[j];
                L sum = 0, sq = 0, lo = INFINITY, hi = -INFINITY;
                const std::size_t n = count(c);
                for (std::size_t i = 0; i < n; ++i) { const L v = raw_get(c, g, i); sum += v; lo = std::min(lo, v); hi = std::max(hi, v); }
                for (std::size_t i = 0; i < n; ++i) { const L e = raw_get(c, g, i) - sum / n; sq += e * e; }
                const auto& q = s.statistics[j];
                MC_CHECK(q.label == g.name && q.count == n && q.min == static_cast<double>(lo) && q.max == static_cast<double>(hi), "summary_extremes", g.name);
                MC_CHECK(mc::close(q.mean, static_cast<double>(sum / n), 1e-9) && mc::close(q.variance, static_cast<double>(sq / n), 1e-9), "summary_moments", g.name);
                const std::string lo_s = with_type(g.datatype, [&](auto z) { return std::to_string(static_cast<decltype(z)>(lo)); });
                const std::string hi_s = with_type(g.datatype, [&](auto z) { return std::to_string(static_cast<decltype(z)>(hi)); });
                MC_CHECK(pct::min_str(c, g) == lo_s && pct::max_str(c, g) == hi_s, "summary_strings", pct::min_str(c, g) << " " << pct::max_str(c, g));
                const std::string fs = pct::field_string(g);
                MC_CHECK(fs.find("name: " + g.name) != std::string::npos && fs.find("offset: " + std::to_string(g.offset)) != std::string::npos && fs.find(type_name(g.datatype)) != std::string::npos, "field_string", fs);
                MC_CHECK(pct::field_type_to_string(g.datatype) == type_name(g.datatype), "type_string", "");
                MC_CHECK(pct::is_8bit(g.datatype) == (width_of(g.datatype) == 1) && pct::is_16bit(g.datatype) == (width_of(g.datatype) == 2) && pct::is_32bit(g.datatype) == (width_of(g.datatype) == 4) && pct::is_64bit(g.datatype) == (width_of(g.datatype) == 8), "bit_depth", "");
                const std::string is = pct::info_string(c);
                MC_CHECK(is.find(fs + "\n\t\tmax: " + hi_s + ", min: " + lo_s) != std::string::npos, "info_string", is);
            }
            // The analyser node publishes the same summary.
            rosstub::Bus::reset();
            pct::PointcloudAnalyser analyser;
            sensor_msgs::PointCloud2 m;
            pcl_conversions::fromPCL(c, m);
            rosstub::Bus::get().inject("/node/input", m);
            rosstub::Bus::get().spin_all();
            const auto out = rosstub::Bus::get().published<statistics_msgs::SummaryStatisticsArray>("/node/output_statistics");
            MC_CHECK(out.size() == 1 && out[0]->statistics.size() == s.statistics.size() && out[0]->header.frame_id == "lidar", "analyser_output", out.size());
            for (std::size_t j = 0; j < s.statistics.size(); ++j) MC_CHECK(out[0]->statistics[j].label == s.statistics[j].label && out[0]->statistics[j].min == s.statistics[j].min && out[0]->statistics[j].mean == s.statistics[j].mean && out[0]->statistics[j].variance == s.statistics[j].variance, "analyser_values", j);
        }
    }
    mc::nontrivial(hash_of(c).add(f.name).h);
}

namespace {
template<typename T> void check_filter(const pcl::PCLPointCloud2& c, const PF& f) {
    std::vector<T> limits;
    for (std::size_t i = 0; i < count(c); ++i) if (fits<T>(raw_get(c, f, i))) limits.push_back(static_cast<T>(raw_get(c, f, i)));
    for (std::size_t i = 0; i < count(c); ++i) if (!fits<T>(raw_get(c, f, i))) mc::prune();
    limits.push_back(T(1));
    limits.push_back(std::numeric_limits<T>::lowest());
    limits.push_back(std::numeric_limits<T>::max());
    if (std::is_floating_point<T>::value) limits.push_back(std::numeric_limits<T>::quiet_NaN());
    const T limit = mc::pick(limits, "limit");
    pcl::PCLPointCloud2 d;
    const bool reused = mc::flip("destination reused");
    if (reused) {
        d = c;
        d.header.frame_id = "old";
        d.width = 77;
        d.data.resize(1000, 5);
    }
    if (mc::flip("by name")) pct::filter_max<T>(c, d, f.name, limit);
    else pct::filter_max<T>(c, d, f, limit);
    std::vector<std::size_t> kept;
    for (std::size_t i = 0; i < count(c); ++i) if (static_cast<T>(raw_get(c, f, i)) <= limit) kept.push_back(i);
    check_header(c, d);
    check_fields_except(c, d, "", "filter_fields");
    MC_CHECK(count(d) == kept.size(), "filter_kept", count(d) << " kept instead of " << kept.size());
    MC_CHECK(d.point_step == c.point_step && d.row_step == d.width * d.point_step && d.data.size() == std::size_t(d.row_step) * d.height, "filter_shape", "");
    for (std::size_t k = 0; k < kept.size(); ++k) MC_CHECK(std::memcmp(&d.data[k * d.point_step], &c.data[kept[k] * c.point_step], c.point_step) == 0, "filter_point", k);
}
}

MC_FAMILY(filter) {
    const Layout l = layout(1 + mc::choose(2, "fields"), mc::thorough() ? 8 : 4, false);
    auto c = cloud(l, mc::pick(shapes, "shape"), mc::choose(3, "values"));
    const PF f = l.fields[mc::choose(l.fields.size(), "field")];
    if (count(c) && f.datatype == PF::FLOAT32 && mc::flip("NaN")) raw_set(c, f, 0, NAN);
    mc::transition();
    switch (mc::choose(3, "as")) {
        case 0: check_filter<float>(c, f); break;
        case 1: check_filter<double>(c, f); break;
        default: {
            if (count(c) && std::isnan(raw_get(c, f, 0))) mc::prune();
            check_filter<std::int32_t>(c, f);
        }
    }
    mc::nontrivial(hash_of(c).add(f.name).h);
}

// Geometry read from a binary cloud.
MC_FAMILY(geometry) {
    const std::vector<float> axis{0.f, 1.f, -2.f, 1e-3f};
    const int n = mc::choose(3, "points");
    const bool dbl = mc::flip("double coordinates");
    const int extra = mc::choose(3, "extra layout");
    Layout l;
    std::uint32_t o = extra == 1 ? 5 : 0;
    for (const char* name : {"x", "y", "z"}) {
        PF f;
        f.name = name;
        f.datatype = dbl ? PF::FLOAT64 : PF::FLOAT32;
        f.offset = o;
        f.count = 1;
        o += width_of(f.datatype);
        l.fields.push_back(f);
    }
    l.step = o + (extra == 2 ? 20 : 0);
    if (extra == 2) {
        PF f;
        f.name = "intensity";
        f.datatype = PF::FLOAT32;
        f.offset = o + 4;
        f.count = 1;
        l.fields.push_back(f);
    }
    auto c = cloud(l, {n, 1}, 0);
    bool zero = false, vertical = false;
    std::vector<Eigen::Vector3f> p;
    for (int i = 0; i < n; ++i) {
        const Eigen::Vector3f v(mc::pick(axis, "x"), mc::pick(axis, "y"), mc::pick(axis, "z"));
        for (int k = 0; k < 3; ++k) raw_set(c, l.fields[k], i, v[k]);
        zero |= v.isZero(0);
        vertical |= v[0] == 0 && v[1] == 0;
        p.push_back(v);
    }
    mc::transition();
    Eigen::Matrix<float, 3, Eigen::Dynamic> u;
    pcl::PCLPointCloud2 d;
    MC_CHECK(mc::throws([&] { u = pct::unit_vectors<float>(c); }) == zero && mc::throws([&] { d = pct::add_unit_vectors(c); }) == zero, "unit_vectors_zero", "");
    if (!zero) {
        MC_CHECK(u.cols() == n, "unit_vectors_size", "");
        for (int i = 0; i < n; ++i) {
            const Eigen::Vector3d w = p[i].cast<double>().normalized();
            MC_CHECK((u.col(i).cast<double>() - w).norm() < 1e-6, "unit_vectors_value", i);
            const Eigen::Vector3d a(raw_get(d, field_of(d, "ux"), i), raw_get(d, field_of(d, "uy"), i), raw_get(d, field_of(d, "uz"), i));
            MC_CHECK((a - w).norm() < 1e-6, "add_unit_vectors_value", i << ": " << a.transpose());
            for (auto& f : l.fields) MC_CHECK(raw_get(d, field_of(d, f.name), i) == raw_get(c, f, i), "add_unit_vectors_existing", f.name << "[" << i << "]");
        }
    }
    Eigen::Matrix<double, 3, Eigen::Dynamic> q;
    const bool threw = mc::throws([&] { q = pct::polar_coordinates<double>(c); });
    MC_CHECK(threw == vertical, "polar_vertical", "");
    if (!threw) {
        for (int i = 0; i < n; ++i) {
            const double x = p[i][0], y = p[i][1], z = p[i][2], r = std::sqrt(x * x + y * y + z * z);
            double a = std::atan2(y, x);
            if (a < 0) a += 2 * M_PI;
            MC_CHECK(mc::close(q(0, i), r, 1e-9) && std::fabs(q(1, i) - a) < 1e-6 && std::fabs(q(2, i) - std::acos(z / r)) < 1e-6, "polar_value", q.col(i).transpose());
        }
    }
    // The same values as normals.
    auto m = c;
    for (auto& f : m.fields) if (f.name.size() == 1) f.name = "normal_" + f.name;
    int unnormalised = 0;
    for (auto& v : p) unnormalised += std::fabs(v.cast<double>().norm() - 1) > 1e-6;
    MC_CHECK(pct::check_normals(m) == unnormalised, "check_normals", pct::check_normals(m) << " instead of " << unnormalised);
    MC_CHECK(pct::check_normals(m, 1e4f) == 0, "check_normals_threshold", "");
    mc::nontrivial(hash_of(c).h);
}

// Histories of operations on one cloud against a table of named columns.
MC_FAMILY(histories) {
    const int depth = mc::thorough() ? 5 : 4;
    struct Col { std::string name; std::uint8_t type; std::vector<L> v; bool known; };
    std::vector<Col> table;
    const Layout base = [] {
        Layout l;
        const int kind = mc::choose(3, "layout");
        PF f;
        f.count = 1;
        f.name = "x";
        f.datatype = PF::FLOAT32;
        f.offset = kind == 1 ? 3 : 0;
        l.fields.push_back(f);
        f.name = "t";
        f.datatype = PF::UINT32;
        f.offset += kind == 2 ? 12 : 4;
        l.fields.push_back(f);
        l.step = f.offset + 4 + (kind == 1 ? 16 : 0);
        return l;
    }();
    pcl::PCLPointCloud2 c = cloud(base, {3, 1}, 0);
    for (auto& f : base.fields) {
        Col col{f.name, f.datatype, {}, true};
        for (int i = 0; i < 3; ++i) col.v.push_back(raw_get(c, f, i));
        table.push_back(col);
    }
    int added = 0;
    mc::Hash h;
    for (int step = 0; step < depth; ++step) {
        const int op = mc::choose(7, "operation");
        const int k = op < 5 ? mc::choose(table.size(), "column") : 0;
        auto& col = table[k];
        h.add(op).add(k);
        mc::transition();
        if (op == 0) {   // scale
            if (!col.known) mc::prune();
            pct::scale_field(c, col.name, 0.5);
            for (auto& v : col.v) v = with_type(col.type, [&](auto z) -> L { return static_cast<L>(static_cast<decltype(z)>(static_cast<double>(v) * 0.5)); });
        } else if (op == 1) {   // cast to float
            if (!col.known || width_of(col.type) != 4) mc::prune();
            pct::cast_field<PF::FLOAT32>(c, col.name);
            for (auto& v : col.v) v = static_cast<L>(static_cast<float>(v));
            col.type = PF::FLOAT32;
        } else if (op == 2) {   // rename
            const std::string to = col.name + "_";
            pct::change_field_name(c, col.name, to);
            col.name = to;
        } else if (op == 3) {   // set everything
            for (std::size_t i = 0; i < col.v.size(); ++i) {
                pct::set_field_data<double>(c, pct::get_field(c, col.name), i, 10.0 * i + step);
                col.v[i] = 10 * i + step;
            }
            col.known = true;
        } else if (op == 4) {   // filter
            if (!col.known || col.v.empty()) mc::prune();
            const double limit = static_cast<double>(col.v[col.v.size() / 2]);
            pcl::PCLPointCloud2 d;
            pct::filter_max<double>(c, d, col.name, limit);
            c = d;
            std::vector<bool> keep;
            for (auto v : col.v) keep.push_back(static_cast<double>(v) <= limit);
            for (auto& q : table) {
                std::vector<L> w;
                for (std::size_t i = 0; i < keep.size(); ++i) if (keep[i]) w.push_back(q.v[i]);
                q.v = w;
            }
        } else if (op == 5) {   // add a field
            if (added == 2) mc::prune();
            const std::uint8_t t = added ? PF::FLOAT64 : PF::UINT8;
            const std::string name = "n" + std::to_string(added++);
            c = pct::add_field(c, name, static_cast<PF::PointFieldTypes>(t));
            table.push_back(Col{name, t, std::vector<L>(table[0].v.size(), 0), false});
        } else {   // shrink
            const std::size_t n = table[0].v.size();
            if (n < 2) mc::prune();
            pct::resize(c, n - 1);
            for (auto& q : table) q.v.pop_back();
        }
        MC_CHECK(c.fields.size() == table.size() && count(c) == table[0].v.size(), "history_shape", "");
        for (std::size_t j = 0; j < table.size(); ++j) {
            const PF& f = field_of(c, table[j].name);
            MC_CHECK(f.datatype == table[j].type, "history_type", table[j].name);
            if (!table[j].known) continue;
            for (std::size_t i = 0; i < table[j].v.size(); ++i) MC_CHECK(raw_get(c, f, i) == table[j].v[i], "history_value", table[j].name << "[" << i << "] is " << static_cast<double>(raw_get(c, f, i)) << " instead of " << static_cast<double>(table[j].v[i]));
            with_type(f.datatype, [&](auto z) {
                for (std::size_t i = 0; i < table[j].v.size(); ++i) MC_CHECK(pct::field_data<decltype(z)>(c, f, i) == static_cast<decltype(z)>(table[j].v[i]), "history_read", "");
                return 0;
            });
        }
        mc::state(hash_of(c).h);
    }
    mc::nontrivial(h.h);
}

// P26: the camera tools. Image regions are cut out, rotated and flipped together with their camera information; every other pixel,
// stamp and frame stays what it was.
#include "mc.hpp"
#include <boost/make_shared.hpp>
#include <ros/ros.h>
#include <XmlRpcStub/xmlrpc.hpp>
#include "camera_tools/change_frame_id.hpp"
#include "camera_tools/image_operations.hpp"
#include "camera_tools/split_image.hpp"

std::shared_ptr<void> make_publish_info();

namespace {
using XmlRpc::XmlRpcValue;

ros::Time stamp(int k) { ros::Time t; t.fromNSec(50000000007ULL + k * 33000000ULL); return t; }

// ---- reference -----------------------------------------------------------------------------------------------------------
// An image as a table of pixels (bytes), and the pinhole parameters. The principal point is tracked in both conventions (pixel
// centres at integers, or at halves); the code may use either, consistently.
struct Picture {
    int w = 0, h = 0;
    std::vector<std::vector<unsigned char>> px;     // row-major
    double fx = 0, fy = 0, cx[2] = {0, 0}, cy[2] = {0, 0};
    const std::vector<unsigned char>& at(int x, int y) const { return px[y * w + x]; }
};
enum Op { CW90, CW180, CW270, HORIZ, VERT, BOTH, NONE };
Picture transformed(const Picture& in, int op) {
    Picture out = in;
    if (op == NONE) return out;
    const bool swap = op == CW90 || op == CW270;
    if (swap) { out.w = in.h; out.h = in.w; out.fx = in.fy; out.fy = in.fx; }
    for (int y = 0; y < in.h; ++y) for (int x = 0; x < in.w; ++x) {
        int X = x, Y = y;
        switch (op) {
            case CW90: X = in.h - 1 - y; Y = x; break;      // the top edge becomes the right edge
            case CW270: X = y; Y = in.w - 1 - x; break;
            case CW180: case BOTH: X = in.w - 1 - x; Y = in.h - 1 - y; break;
            case HORIZ: X = in.w - 1 - x; break;
            case VERT: Y = in.h - 1 - y; break;
        }
        out.px[Y * out.w + X] = in.px[y * in.w + x];
    }
    for (int k = 0; k < 2; ++k) {
        const double W = in.w - k, H = in.h - k;
        switch (op) {
            case CW90: out.cx[k] = H - in.cy[k]; out.cy[k] = in.cx[k]; break;
            case CW270: out.cx[k] = in.cy[k]; out.cy[k] = W - in.cx[k]; break;
            case CW180: case BOTH: out.cx[k] = W - in.cx[k]; out.cy[k] = H - in.cy[k]; break;
            case HORIZ: out.cx[k] = W - in.cx[k]; break;
            case VERT: out.cy[k] = H - in.cy[k]; break;
        }
    }
    return out;
}
const int depths[] = {CV_8U, CV_16U, CV_32F};
cv::Mat mat_of(const Picture& p, int type) {
    cv::Mat m(p.h, p.w, type);
    for (int y = 0; y < p.h; ++y) for (int x = 0; x < p.w; ++x) memcpy(m.ptr(y, x), p.at(x, y).data(), m.elemSize());
    return m;
}
Picture picture(int w, int h, std::size_t bytes, int serial) {
    Picture p;
    p.w = w; p.h = h;
    for (int i = 0; i < w * h; ++i) {
        std::vector<unsigned char> v(bytes);
        for (std::size_t b = 0; b < bytes; ++b) v[b] = (i * 7 + b * 31 + serial * 101 + 1) & 0x7f;
        p.px.push_back(v);
    }
    return p;
}
Picture crop(const Picture& in, int u, int v, int w, int h) {
    Picture out;
    out.w = w; out.h = h;
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) out.px.push_back(in.at(u + x, v + y));
    return out;
}
void set_camera(Picture& p, double fx, double fy, double cx, double cy) {
    p.fx = fx; p.fy = fy;
    for (int k = 0; k < 2; ++k) { p.cx[k] = cx; p.cy[k] = cy; }
}
template<class K> bool same_camera(const Picture& p, const K& k) {
    bool any = false;
    for (int c = 0; c < 2; ++c) any |= std::fabs(k[2] - p.cx[c]) < 1e-9 && std::fabs(k[5] - p.cy[c]) < 1e-9;
    return any && k[0] == p.fx && k[4] == p.fy && k[8] == 1 && k[1] == 0 && k[3] == 0 && k[6] == 0 && k[7] == 0;
}
std::string show(const sensor_msgs::CameraInfo& i) {
    std::stringstream s;
    s << i.width << 'x' << i.height << " fx " << i.K[0] << " fy " << i.K[4] << " cx " << i.K[2] << " cy " << i.K[5];
    return s.str();
}
std::shared_ptr<camera_tools::ImageOperation> make(int op, bool by_degrees, int turns) {
    using namespace camera_tools;
    switch (op) {
        case CW90: if (by_degrees) return std::make_shared<Rotate>(90 + 360 * turns); else return std::make_shared<Rotate>(cv::ROTATE_90_CLOCKWISE);
        case CW180: if (by_degrees) return std::make_shared<Rotate>(180 + 360 * turns); else return std::make_shared<Rotate>(cv::ROTATE_180);
        case CW270: if (by_degrees) return std::make_shared<Rotate>(270 + 360 * turns); else return std::make_shared<Rotate>(cv::ROTATE_90_COUNTERCLOCKWISE);
        case HORIZ: return std::make_shared<Flip>(Flip::FLIP_HORIZ);
        case VERT: return std::make_shared<Flip>(Flip::FLIP_VERT);
        case BOTH: return std::make_shared<Flip>(Flip::FLIP_BOTH);
    }
    return std::make_shared<Rotate>(360 * turns);
}
}

// ---- operations ----------------------------------------------------------------------------------------------------------
MC_FAMILY(operations) {
    const int w = 1 + mc::choose(4, "width"), h = 1 + mc::choose(4, "height");
    const int d = mc::choose(3, "depth"), channels = 1 + 2 * mc::choose(2, "channels");
    const int type = CV_MAKETYPE(depths[d], channels);
    Picture p = picture(w, h, CV_ELEM_SIZE(type), 0);
    const int camera = mc::choose(3, "camera");
    set_camera(p, camera ? 2.5 : 1, camera ? 1.5 : 1, camera == 2 ? 0.5 : w / 2, camera == 2 ? -0.25 : h / 2);
    cv::Mat m = mat_of(p, type);
    sensor_msgs::CameraInfo info;
    info.header.frame_id = "frame"; info.header.stamp = stamp(0);
    info.width = w; info.height = h; info.distortion_model = "plumb_bob"; info.D = {0.1, 0.2, 0.3, 0.4, 0.5};
    info.K[0] = p.fx; info.K[4] = p.fy; info.K[2] = p.cx[0]; info.K[5] = p.cy[0]; info.K[8] = 1;
    const bool by_degrees = mc::flip("rotation given in degrees");
    mc::Hash hash;
    hash.add(w).add(h).add(d).add(channels).add(camera);
    std::map<int, std::shared_ptr<camera_tools::ImageOperation>> used;      // operations are applied to many images
    const int n = 1 + mc::choose(mc::thorough() ? 4 : 3, "operations");
    for (int i = 0; i < n; ++i) {
        const int op = mc::choose(by_degrees ? 7 : 6, "operation");
        hash.add(op);
        auto& o = used[op];
        if (!o) o = make(op, by_degrees, i % 2);
        const cv::Mat before = m.clone();
        const sensor_msgs::CameraInfo info_before = info;
        mc::transition();
        const cv::Mat out = o->apply(m);
        const sensor_msgs::CameraInfo out_info = o->apply(info);
        MC_CHECK(std::memcmp(before.data, m.data, m.total() * m.elemSize()) == 0 && info.K == info_before.K && info.width == info_before.width, "operation_input", "operation " << op << " changed its input");
        const Picture q = transformed(p, op);
        MC_CHECK(out.type() == type && out.cols == q.w && out.rows == q.h, "operation_size", "operation " << op << " on " << p.w << 'x' << p.h << " gives " << out.cols << 'x' << out.rows);
        for (int y = 0; y < q.h; ++y) for (int x = 0; x < q.w; ++x)
            MC_CHECK(std::memcmp(out.ptr(y, x), q.at(x, y).data(), out.elemSize()) == 0, "operation_pixels", "operation " << op << ": wrong pixel " << x << ',' << y);
        MC_CHECK(static_cast<int>(out_info.width) == q.w && static_cast<int>(out_info.height) == q.h, "operation_info_size", "operation " << op << ": camera info for " << show(out_info));
        MC_CHECK(same_camera(q, out_info.K), "operation_info", "operation " << op << ": " << show(info) << " becomes " << show(out_info));
        MC_CHECK(out_info.header.frame_id == "frame" && out_info.header.stamp == stamp(0) && out_info.distortion_model == "plumb_bob", "operation_info", "operation " << op << ": header changed");
        m = out;
        info = out_info;
        p = q;
    }
    mc::state(hash.h);
    mc::nontrivial(hash.h);
}

MC_FAMILY(degrees) {
    const int deg = 30 * mc::choose(37, "degrees") - 360;
    mc::transition();
    bool refused = false;
    std::shared_ptr<camera_tools::Rotate> r;
    refused = mc::throws([&] { r = std::make_shared<camera_tools::Rotate>(deg); });
    MC_CHECK(refused == (deg % 90 != 0 || deg % 360 < 0), "degrees", "rotation by " << deg << " degrees " << (refused ? "refused" : "accepted"));
    mc::nontrivial(deg);
}

// ---- splitting -----------------------------------------------------------------------------------------------------------
namespace {
struct Region { int u, v, w, h; };
struct Part { Region region; int flip, acw, cw; int camera; };      // flip 0-3 (none, horiz, vert, both), acw/cw 0-4 (none, 0, 90, 180, 270)
XmlRpcValue part_value(const Part& p, int i) {
    XmlRpcValue v = XmlRpcValue::Struct(), r = XmlRpcValue::Struct(), d = XmlRpcValue::Struct(), k = XmlRpcValue::Struct(), o = XmlRpcValue::Struct();
    v["topic"] = "/camera" + std::to_string(i) + "/image";
    v["info_topic"] = "/camera" + std::to_string(i) + "/info";
    v["frame_id"] = "camera" + std::to_string(i);
    r["u"] = p.region.u; r["v"] = p.region.v; r["w"] = p.region.w; r["h"] = p.region.h;
    v["region"] = r;
    d["model"] = i ? "rational" : "plumb_bob";
    d["k1"] = 0.1 + i; d["k2"] = 0.2; d["k3"] = 0.3; d["t1"] = 0.4; d["t2"] = 0.5;
    v["distortion"] = d;
    k["fx"] = 2.5 + i; k["fy"] = 1.5; k["cx"] = p.camera ? 1 : p.region.w / 2; k["cy"] = p.camera ? 2 : p.region.h / 2;
    v["intrinsic"] = k;
    static const char* flips[] = {"", "horiz", "vert", "both"};
    if (p.flip) o["flip"] = flips[p.flip];
    if (p.acw) o["rotate_acw"] = (p.acw - 1) * 90;
    if (p.cw) o["rotate_cw"] = (p.cw - 1) * 90;
    if (o.size()) v["operations"] = o;
    return v;
}
Picture part_reference(const Picture& image, const Part& p, int i) {
    Picture q = crop(image, p.region.u, p.region.v, p.region.w, p.region.h);
    set_camera(q, 2.5 + i, 1.5, p.camera ? 1 : p.region.w / 2, p.camera ? 2 : p.region.h / 2);
    static const int flip[] = {NONE, HORIZ, VERT, BOTH}, acw[] = {NONE, NONE, CW270, CW180, CW90}, cw[] = {NONE, NONE, CW90, CW180, CW270};
    // struct parameters are ordered by name: flip, rotate_acw, rotate_cw
    return transformed(transformed(transformed(q, flip[p.flip]), acw[p.acw]), cw[p.cw]);
}
boost::shared_ptr<sensor_msgs::Image> image_msg(const Picture& p, const std::string& encoding, int padding, int k) {
    auto m = boost::make_shared<sensor_msgs::Image>();
    m->header.stamp = stamp(k); m->header.frame_id = "input"; m->header.seq = k;
    m->width = p.w; m->height = p.h; m->encoding = encoding;
    const std::size_t bytes = p.px[0].size();
    m->step = p.w * bytes + padding;
    m->data.assign(m->step * p.h, 0xEE);
    for (int y = 0; y < p.h; ++y) for (int x = 0; x < p.w; ++x) memcpy(&m->data[y * m->step + x * bytes], p.at(x, y).data(), bytes);
    return m;
}
struct Encoding { const char* name; std::size_t bytes; };
const Encoding encodings[] = {{"mono8", 1}, {"bgr8", 3}, {"mono16", 2}, {"32FC1", 4}};
}
MC_FAMILY(split) {
    const int parts = 1 + mc::choose(2, "images");
    const Encoding& enc = encodings[mc::choose(4, "encoding")];
    const int padding = 3 * mc::choose(2, "row padding");
    if (padding && enc.bytes != 1) mc::prune();     // rows of wider pixels would not be aligned
    static const Region regions[] = {{0, 0, 5, 4}, {2, 1, 3, 2}, {0, 0, 2, 4}, {4, 3, 1, 1}};
    std::vector<Part> config;
    XmlRpcValue images = XmlRpcValue::Array();
    mc::Hash h;
    h.add(parts).add(enc.bytes).add(padding);
    for (int i = 0; i < parts; ++i) {
        Part p;
        p.region = regions[mc::choose(4, "region")];
        p.flip = mc::choose(4, "flip");
        if (i == 0 || mc::thorough()) {
            p.acw = mc::choose(5, "rotate_acw");
            p.cw = mc::choose(5, "rotate_cw");
        } else {
            p.acw = 0;
            p.cw = mc::choose(5, "rotate_cw");
        }
        p.camera = i == 0 ? mc::choose(2, "principal point") : 0;
        h.add(p.region.u * 8 + p.region.w).add(p.flip).add(p.acw).add(p.cw).add(p.camera);
        config.push_back(p);
        images[i] = part_value(p, i);
    }
    rosstub::Bus::reset();
    auto& bus = rosstub::Bus::get();
    bus.param("/node/images", images);
    std::unique_ptr<camera_tools::ImageSplitter> node;
    try {
        node = std::make_unique<camera_tools::ImageSplitter>();
    } catch (const std::exception& e) {
        mc::fail("split_refused", std::string("valid configuration refused: ") + e.what());
    }
    for (int k = 0; k < 2; ++k) {
        const Picture image = picture(5, 4, enc.bytes, k);
        const auto msg = image_msg(image, enc.name, padding, k);
        const sensor_msgs::Image copy = *msg;
        bus.inject<sensor_msgs::Image>("/node/input/image", *msg);
        mc::transition();
        bus.spin_all();
        for (int i = 0; i < parts; ++i) {
            const std::string ns = "/camera" + std::to_string(i);
            auto out = bus.published<sensor_msgs::Image>(ns + "/image");
            auto info = bus.published<sensor_msgs::CameraInfo>(ns + "/info");
            MC_CHECK(static_cast<int>(out.size()) == k + 1 && static_cast<int>(info.size()) == k + 1, "split_count", out.size() << " images and " << info.size() << " infos after " << k + 1 << " images");
            const Picture p = part_reference(image, config[i], i);
            const auto& o = *out.back();
            MC_CHECK(o.header.stamp == stamp(k) && o.header.frame_id == "camera" + std::to_string(i) && o.encoding == enc.name, "split_header", "wrong header or encoding of image " << i);
            MC_CHECK(static_cast<int>(o.width) == p.w && static_cast<int>(o.height) == p.h && o.step >= p.w * enc.bytes && o.data.size() >= static_cast<std::size_t>(o.step) * (p.h - 1) + p.w * enc.bytes, "split_size", "image " << i << " is " << o.width << 'x' << o.height);
            for (int y = 0; y < p.h; ++y) for (int x = 0; x < p.w; ++x)
                MC_CHECK(std::memcmp(&o.data[y * o.step + x * enc.bytes], p.at(x, y).data(), enc.bytes) == 0, "split_pixels", "image " << i << ": wrong pixel " << x << ',' << y);
            const auto& c = *info.back();
            MC_CHECK(c.header.stamp == stamp(k) && c.header.frame_id == o.header.frame_id, "split_info_header", "camera info has another header than its image");
            MC_CHECK(c.width == o.width && c.height == o.height && same_camera(p, c.K), "split_info", "camera info " << show(c) << ", expected " << p.w << 'x' << p.h << " fx " << p.fx << " fy " << p.fy << " cx " << p.cx[0] << " cy " << p.cy[0]);
            const bool untouched = !config[i].flip && config[i].acw < 2 && config[i].cw < 2;
            if (untouched) {
                MC_CHECK(c.distortion_model == (i ? "rational" : "plumb_bob") && c.D == (std::vector<double>{0.1 + i, 0.2, 0.4, 0.5, 0.3}), "split_distortion", "wrong distortion");
                MC_CHECK(c.P[0] == p.fx && c.P[5] == p.fy && c.P[2] == p.cx[0] && c.P[6] == p.cy[0] && c.P[10] == 1 && c.P[3] == 0 && c.P[7] == 0, "split_projection", "wrong projection matrix");
            }
        }
        const auto sent = bus.published<sensor_msgs::Image>("/node/input/image");
        (void) sent;
        (void) copy;
    }
    mc::state(h.h);
    mc::nontrivial(h.h);
}

MC_FAMILY(split_refused) {
    const int wrong = mc::choose(11, "what is wrong");
    rosstub::Bus::reset();
    auto& bus = rosstub::Bus::get();
    Part p{{0, 0, 5, 4}, 0, 0, 0, 0};
    XmlRpcValue v = part_value(p, 0), o = XmlRpcValue::Struct(), images = XmlRpcValue::Array();
    bool at_image = false;
    switch (wrong) {
        case 0: break;      // nothing: accepted
        case 1: v = XmlRpcValue("x"); break;
        case 2: v["region"] = 3; break;
        case 3: o["turn"] = 90; v["operations"] = o; break;
        case 4: o["flip"] = "diagonal"; v["operations"] = o; break;
        case 5: o["rotate_cw"] = 45; v["operations"] = o; break;
        case 6: o["rotate_acw"] = 100; v["operations"] = o; break;
        case 7: { XmlRpcValue r = v["region"]; r["w"] = 6; v["region"] = r; at_image = true; break; }
        case 8: { XmlRpcValue r = v["region"]; r["v"] = -1; v["region"] = r; at_image = true; break; }
        case 9: break;      // not an array
        case 10: break;     // missing
    }
    images[0] = v;
    if (wrong == 9) images = v;
    if (wrong != 10) bus.param("/node/images", images);
    mc::transition();
    std::unique_ptr<camera_tools::ImageSplitter> node;
    bool refused = mc::throws([&] { node = std::make_unique<camera_tools::ImageSplitter>(); });
    if (wrong == 0) { MC_CHECK(!refused, "split_refused", "valid configuration refused"); return; }
    if (at_image && !refused) {
        bus.inject<sensor_msgs::Image>("/node/input/image", *image_msg(picture(5, 4, 1, 0), "mono8", 0, 0));
        refused = mc::throws([&] { bus.spin_all(); });
    }
    MC_CHECK(refused && bus.count("/camera0/image") == 0, "split_accepted", "invalid configuration " << wrong << " accepted");
    mc::nontrivial(wrong);
}

// ---- publishing camera information ---------------------------------------------------------------------------------------
MC_FAMILY(publish_info) {
    rosstub::Bus::reset();
    auto& bus = rosstub::Bus::get();
    const bool k = mc::flip("K"), p = mc::flip("P"), baseline = mc::flip("baseline"), distortion = mc::flip("distortion");
    if (k) { bus.param("/node/K/fx", 600.5); bus.param("/node/K/fy", 400.25); bus.param("/node/K/cx", 480.75); bus.param("/node/K/cy", 320.125); }
    if (p) { bus.param("/node/P/fx", 610.5); bus.param("/node/P/fy", 410.25); bus.param("/node/P/cx", 490.75); bus.param("/node/P/cy", 330.125); }
    if (baseline) bus.param("/node/P/baseline", 0.125);
    if (distortion) { bus.param("/node/distortion_model", std::string("plumb_bob")); bus.param("/node/distortion_coefficients", std::vector<double>{0.1, -0.2, 0.3, 0.4, 0.5}); }
    auto node = make_publish_info();
    mc::Hash h;
    h.add(k).add(p).add(baseline).add(distortion);
    const int n = mc::thorough() ? 5 : 4;
    for (int i = 0; i < n; ++i) {
        const int size = mc::choose(3, "size"), frame = mc::choose(2, "frame");
        h.add(size).add(frame);
        sensor_msgs::Image m;
        m.header.stamp = stamp(i); m.header.frame_id = frame ? "left" : "right";
        m.width = size == 0 ? 4 : size == 1 ? 2 : 1; m.height = size == 0 ? 3 : 2; m.encoding = "mono8"; m.step = m.width; m.data.assign(m.width * m.height, 7);
        bus.inject<sensor_msgs::Image>("/node/input/image", m);
        mc::transition();
        bus.spin_all();
        auto out = bus.published<sensor_msgs::CameraInfo>("/node/output/camera_info");
        MC_CHECK(static_cast<int>(out.size()) == i + 1, "info_count", out.size() << " infos after " << i + 1 << " images");
        const auto& c = *out.back();
        MC_CHECK(c.header.stamp == m.header.stamp && c.header.frame_id == m.header.frame_id && c.width == m.width && c.height == m.height, "info_header", "camera info has another header or size than its image");
        const double K[9] = {k ? 600.5 : 0, 0, k ? 480.75 : 0, 0, k ? 400.25 : 0, k ? 320.125 : 0, 0, 0, 1};
        const double P[12] = {p ? 610.5 : 0, 0, p ? 490.75 : 0, p && baseline ? -610.5 * 0.125 : 0, 0, p ? 410.25 : 0, p ? 330.125 : 0, 0, 0, 0, 1, 0};
        for (int e = 0; e < 9; ++e) MC_CHECK(c.K[e] == K[e] && c.R[e] == (e % 4 == 0 ? 1.0 : 0.0), "info_intrinsics", "K or R element " << e << " is " << c.K[e] << ", " << c.R[e]);
        for (int e = 0; e < 12; ++e) MC_CHECK(std::fabs(c.P[e] - P[e]) < 1e-12, "info_projection", "P element " << e << " is " << c.P[e] << ", expected " << P[e]);
        MC_CHECK(c.distortion_model == (distortion ? "plumb_bob" : "") && c.D == (distortion ? std::vector<double>{0.1, -0.2, 0.3, 0.4, 0.5} : std::vector<double>{}), "info_distortion", "wrong distortion");
    }
    mc::state(h.h);
    mc::nontrivial(h.h);
}

// ---- changing the frame --------------------------------------------------------------------------------------------------
// Every arrival order of the images and infos of a few frames, of which some are lost.
MC_FAMILY(change_frame) {
    rosstub::Bus::reset();
    auto& bus = rosstub::Bus::get();
    const bool configured = mc::flip("frame configured");
    if (configured) bus.param("/node/frame_id", std::string("new_frame"));
    camera_tools::ChangeFrameId node;
    const int frames = mc::thorough() ? 5 : 4;
    std::vector<int> queue[2];      // images, infos
    for (int k = 0; k < frames; ++k) {
        const int lost = mc::choose(3, "received (both, image only, info only)");
        if (lost != 2) queue[0].push_back(k);
        if (lost != 1) queue[1].push_back(k);
    }
    std::size_t next[2] = {0, 0};
    std::vector<int> have[2];
    std::vector<int> expected;
    mc::Hash h;
    for (;;) {
        const bool a = next[0] < queue[0].size(), b = next[1] < queue[1].size();
        if (!a && !b) break;
        const int s = a && b ? mc::choose(2, "next arrival") : b;
        const int k = queue[s][next[s]++];
        h.add(s).add(k);
        have[s].push_back(k);
        if (s == 0) {
            auto m = image_msg(picture(3, 2, 1, k), "mono8", 0, k);
            bus.inject<sensor_msgs::Image>("/node/input/image", *m);
        } else {
            sensor_msgs::CameraInfo c;
            c.header.stamp = stamp(k); c.header.frame_id = "input"; c.header.seq = k;
            c.width = 3; c.height = 2; c.distortion_model = "m"; c.D = {1.0 * k}; c.K[0] = k + 1; c.R[4] = k + 2; c.P[3] = k + 3; c.binning_x = 2; c.roi.width = k;
            bus.inject<sensor_msgs::CameraInfo>("/node/input/camera_info", c);
        }
        mc::transition();
        bus.spin_all();
        if (std::find(have[1 - s].begin(), have[1 - s].end(), k) != have[1 - s].end()) expected.push_back(k);
        auto out = bus.published<sensor_msgs::Image>("/node/output/image");
        auto info = bus.published<sensor_msgs::CameraInfo>("/node/output/camera_info");
        MC_CHECK(out.size() == expected.size() && info.size() == expected.size(), "change_count", out.size() << " images and " << info.size() << " infos for " << expected.size() << " complete frames");
        const std::string frame = configured ? "new_frame" : "CHANGED_FRAME_ID_DEFAULT";
        for (std::size_t i = 0; i < expected.size(); ++i) {
            const int e = expected[i];
            const auto want = image_msg(picture(3, 2, 1, e), "mono8", 0, e);
            const auto &o = *out[i];
            const auto &c = *info[i];
            MC_CHECK(o.header.stamp == stamp(e) && o.header.frame_id == frame && o.width == 3 && o.height == 2 && o.encoding == "mono8" && o.step == want->step && o.data == want->data, "change_image", "image " << e << " changed");
            MC_CHECK(c.header.stamp == stamp(e) && c.header.frame_id == frame && c.width == 3 && c.height == 2 && c.distortion_model == "m" && c.D == std::vector<double>{1.0 * e} && c.K[0] == e + 1 && c.R[4] == e + 2 && c.P[3] == e + 3 && c.binning_x == 2 && static_cast<int>(c.roi.width) == e, "change_info", "camera info " << e << " changed");
        }
    }
    for (auto& p : bus.published<sensor_msgs::Image>("/node/input/image")) MC_CHECK(p->header.frame_id == "input", "change_input", "the input message was changed");
    mc::state(h.h);
    mc::nontrivial(h.h);
}

// P16: body frames: every configuration tree resolves to the composed transforms.
#include "mc.hpp"
#include "ref.hpp"
#include <algorithm>
#include <eigen_ros/body_frames.hpp>
#include <eigen_ros/body_frames_tf.hpp>
#include <eigen_ros/eigen_ros.hpp>
#include <eigen_ros/geometry_msgs.hpp>
#include <set>

using XmlRpc::XmlRpcValue;

namespace {

struct Frame {
    std::string name, id;
    int parent;                 // index, -1: body
    int kind;                   // 0 identity, 1 partial translation, 2 rotation (not normalised) and translation, 3 lookup, 4 dynamic
    std::vector<std::string> aliases;
    ref::Pose local, body;      // T_parent^frame, T_body^frame
};

ref::Pose rot_pose(double w, double x, double y, double z, double a, double b, double c) {
    ref::Pose p;
    p.R = ref::quat(w, x, y, z);
    p.t = ref::v3(a, b, c);
    return p;
}
ref::Pose dynamic_pose(int i, const ros::Time& t) {
    // depends on time; the latest (time 0) is a particular one
    const double s = t.isZero() ? 7.0 : t.toSec();
    return rot_pose(1, 0.1 * (i + 1), 0.2 * s, -0.3, s, 2.0 * i, -1);
}
geometry_msgs::TransformStamped msg(const ref::Pose& p) {
    geometry_msgs::TransformStamped m;
    const Eigen::Isometry3d e = ref::eig<double>(p);
    const Eigen::Quaterniond q(e.rotation());
    m.transform.translation.x = e.translation().x();
    m.transform.translation.y = e.translation().y();
    m.transform.translation.z = e.translation().z();
    m.transform.rotation.w = q.w();
    m.transform.rotation.x = q.x();
    m.transform.rotation.y = q.y();
    m.transform.rotation.z = q.z();
    return m;
}
bool close(const ref::Pose& p, const Eigen::Isometry3d& e) { return ref::maxdiff(ref::mat(p), e.matrix()) < 1e-9; }

struct World {
    std::string body_id;
    std::vector<Frame> f;
    bool invalid = false;

    ref::Pose pose(int i, const ros::Time& t) const { return i < 0 ? ref::Pose() : f[i].kind == 4 ? dynamic_pose(i, t) : f[i].body; }
    std::string id(int i) const { return i < 0 ? body_id : f[i].id; }
    std::string name(int i) const { return i < 0 ? "body" : f[i].name; }

    void build(int n) {
        rosstub::Bus::reset();
        body_id = mc::flip("body frame_id") ? "base_link" : "body";
        for (int i = 0; i < n; ++i) {
            Frame x;
            x.name = std::string("frame") + static_cast<char>('a' + i);
            x.parent = mc::choose(i + 1, "parent") - 1;
            if (x.parent >= 0 && f[x.parent].kind == 4) mc::prune();   // dynamic frames are leaves
            x.kind = mc::choose(5, "kind");
            x.id = mc::flip("frame_id") ? "id_" + x.name : x.name;
            const int al = x.kind == 4 ? 0 : mc::choose(i == 0 ? 3 : 2, "aliases");
            for (int a = 0; a < al; ++a) x.aliases.push_back("alias" + std::to_string(a) + x.name);
            x.local = x.kind == 0 ? ref::Pose() : x.kind == 1 ? rot_pose(1, 0, 0, 0, i == 0 ? 1.5 : 0, i == 1 ? -2 : 0, 0.5 * (i == 2))
                    : x.kind == 2 ? (i == 1 ? rot_pose(0.6, 0.48, 0.64, 0.002, 1, 2 + i, -3) : rot_pose(2, -1, 0.5 * i, 1, 1, 2 + i, -3)) : rot_pose(0.3, 1, i, -0.5, 0.1, i, 4);
            x.body = pose(x.parent, ros::Time()) * x.local;
            f.push_back(x);
        }
    }
    XmlRpcValue node(int i) const {
        XmlRpcValue v = XmlRpcValue::Struct();
        const Frame& x = f[i];
        if (x.id != x.name) v["frame_id"] = x.id;
        if (x.kind == 4) {
            v["dynamic"] = true;
            return v;
        }
        if (x.kind == 1) {
            XmlRpcValue t = XmlRpcValue::Struct();
            if (i == 0) t["x"] = 1.5;
            if (i == 1) t["y"] = -2.0;
            if (i == 2) t["z"] = 0.5;
            v["translation"] = t;
        }
        if (x.kind == 2) {
            XmlRpcValue t = XmlRpcValue::Struct(), r = XmlRpcValue::Struct();
            t["x"] = 1.0;
            t["y"] = 2.0 + i;
            t["z"] = -3.0;
            r["w"] = i == 1 ? 0.6 : 2.0;      // nearly normalised, or not at all
            r["x"] = i == 1 ? 0.48 : -1.0;
            r["y"] = i == 1 ? 0.64 : 0.5 * i;
            r["z"] = i == 1 ? 0.002 : 1.0;
            v["translation"] = t;
            v["rotation"] = r;
        }
        if (x.kind == 3) v["lookup_tf"] = true;
        if (!x.aliases.empty()) v["aliases"] = XmlRpcValue(x.aliases);
        XmlRpcValue kids = children(i);
        if (kids.size()) v["frames"] = kids;
        return v;
    }
    XmlRpcValue children(int p) const {
        XmlRpcValue v = XmlRpcValue::Struct();
        for (std::size_t i = 0; i < f.size(); ++i) {
            if (f[i].parent == p) v[f[i].name] = node(i);
        }
        return v;
    }
    XmlRpcValue config() const {
        XmlRpcValue b = XmlRpcValue::Struct();
        if (body_id != "body") b["frame_id"] = body_id;
        XmlRpcValue kids = children(-1);
        if (kids.size()) b["frames"] = kids;
        XmlRpcValue top = XmlRpcValue::Struct();
        top["body"] = b;
        return top;
    }
    // Frames known to tf from elsewhere: those looked up and the dynamic ones.
    void install(bool dynamic_available = true) {
        auto& table = rosstub::tf_table();
        for (int a = -1; a < static_cast<int>(f.size()); ++a) {
            for (int b = -1; b < static_cast<int>(f.size()); ++b) {
                const bool dyn = (a >= 0 && f[a].kind == 4) || (b >= 0 && f[b].kind == 4);
                if (dyn && !dynamic_available) continue;
                table[{id(a), id(b)}] = [this, a, b](const ros::Time& t) { return msg(ref::inv(pose(a, t)) * pose(b, t)); };
            }
        }
        ros::NodeHandle("~").setParam("body_frames", config());
    }
    uint64_t hash() const {
        mc::Hash h;
        h.add(body_id);
        for (const auto& x : f) h.add(x.name).add(x.id).add(x.parent).add(x.kind).add(static_cast<int>(x.aliases.size()));
        return h.h;
    }
};

}

MC_FAMILY(queries) {
    World w;
    const int n = mc::choose((mc::thorough() ? 3 : 2) + 1, "frames");
    w.build(n);
    w.install();
    mc::transition();
    const eigen_ros::BodyFrames bf("~");
    const ros::Time times[] = {ros::Time(0), ros::Time(3, 500000000)};
    MC_CHECK(bf.body_frame() == "body" && bf.body_frame_id() == w.body_id, "body", bf.body_frame_id());
    auto frames = bf.frames();
    std::sort(frames.begin(), frames.end());
    std::vector<std::string> want{"body"};
    for (const auto& x : w.f) want.push_back(x.name);
    std::sort(want.begin(), want.end());
    MC_CHECK(frames == want, "frames", frames.size());
    MC_CHECK(!bf.has_frame("nonexistent") && mc::throws([&] { bf.frame_id("nonexistent"); }) && mc::throws([&] { bf.body_to_frame("nonexistent"); }) && mc::throws([&] { bf.frame("nonexistent"); }),
            "unknown_frame", "");
    for (int i = -1; i < n; ++i) {
        const std::string name = w.name(i);
        MC_CHECK(bf.has_frame(name) && bf.frame_id(name) == w.id(i) && bf.frame(w.id(i)) == name, "names", name);
        MC_CHECK(bf.is_dynamic(name) == (i >= 0 && w.f[i].kind == 4), "is_dynamic", name);
        MC_CHECK(bf.lookedup_tf(name) == (i >= 0 && w.f[i].kind == 3), "lookedup_tf", name);
        MC_CHECK(bf.aliases(w.id(i)) == (i < 0 ? std::vector<std::string>{} : w.f[i].aliases), "aliases", name);
        if (i >= 0) for (const auto& a : w.f[i].aliases) MC_CHECK(bf.frame(a) == name, "alias_frame", a);
        for (const ros::Time& t : times) {
            MC_CHECK(close(w.pose(i, t), bf.body_to_frame(name, t)), "body_to_frame", name << "\n" << bf.body_to_frame(name, t).matrix());
            MC_CHECK(close(ref::inv(w.pose(i, t)), bf.frame_to_body(name, t)), "frame_to_body", name);
            for (int j = -1; j < n; ++j) {
                MC_CHECK(close(ref::inv(w.pose(i, t)) * w.pose(j, t), bf.frame_to_frame(name, w.name(j), t)), "frame_to_frame", name << " to " << w.name(j));
            }
        }
    }
    // static frames keep the transform looked up at construction
    rosstub::tf_table().clear();
    for (int i = -1; i < n; ++i) {
        if (i >= 0 && w.f[i].kind == 4) {
            MC_CHECK(mc::throws([&] { bf.body_to_frame(w.name(i)); }), "dynamic_stale", "dynamic frame answered without tf");
            continue;
        }
        MC_CHECK(close(w.pose(i, ros::Time()), bf.body_to_frame(w.name(i))), "static_lookup_once", w.name(i));
    }
    mc::state(w.hash());
    mc::nontrivial(w.hash());
}

// The static transform publisher: the published tree, joined with what tf already provides, is the configured tree.
MC_FAMILY(publisher) {
    World w;
    const int n = mc::choose((mc::thorough() ? 3 : 2) + 1, "frames");
    w.build(n);
    const bool available = mc::flip("dynamic transforms available at startup");
    w.install(available);
    mc::transition();
    mc::where("constructing the publisher");
    std::unique_ptr<eigen_ros::BodyFramesTf> node;
    try {
        node = std::make_unique<eigen_ros::BodyFramesTf>("~");
    } catch (const std::exception& e) {
        mc::fail("publisher_throws", std::string("valid configuration refused: ") + e.what());
    }
    const auto sent = rosstub::Bus::get().published<geometry_msgs::TransformStamped>("/tf_static");
    std::map<std::string, std::pair<std::string, ref::Pose>> tree;  // child -> parent, T_parent^child
    for (const auto& m : sent) {
        Eigen::Isometry3d e = eigen_ros::from_ros<Eigen::Isometry3d>(m->transform);
        MC_CHECK(tree.emplace(m->child_frame_id, std::make_pair(m->header.frame_id, ref::pose(e))).second, "published_twice", m->child_frame_id);
    }
    auto resolve = [&](std::string id, int& depth) {
        ref::Pose p;
        depth = 0;
        while (id != w.body_id && depth < 10) {
            auto it = tree.find(id);
            if (it == tree.end()) {
                // provided by tf itself
                bool found = false;
                for (int i = 0; i < n; ++i) {
                    if (w.f[i].id == id && (w.f[i].kind == 3 || w.f[i].kind == 4)) {
                        p = w.pose(i, ros::Time()) * p;
                        found = true;
                    }
                }
                if (!found) depth = 99;
                return p;
            }
            p = it->second.second * p;
            id = it->second.first;
            ++depth;
        }
        return p;
    };
    std::set<std::string> expected;
    for (int i = 0; i < n; ++i) {
        const Frame& x = w.f[i];
        if (x.kind == 3 || x.kind == 4) {
            MC_CHECK(!tree.count(x.id), x.kind == 4 ? "dynamic_published" : "lookedup_published", x.id << " published as static although tf provides it");
        } else {
            expected.insert(x.id);
        }
        int depth;
        MC_CHECK(close(w.pose(i, ros::Time()), ref::eig<double>(resolve(x.id, depth))) && depth < 10, "published_transform", x.id);
        for (const auto& a : x.aliases) {
            expected.insert(a);
            MC_CHECK(close(w.pose(i, ros::Time()), ref::eig<double>(resolve(a, depth))) && depth < 10, "published_alias", a);
        }
    }
    for (const auto& t : tree) MC_CHECK(expected.count(t.first), "published_unexpected", t.first);
    // lookup service
    ros::NodeHandle nh("~");
    for (int i = -1; i < n; ++i) {
        for (int j = -1; j < n; ++j) {
            const bool dyn = (i >= 0 && w.f[i].kind == 4) || (j >= 0 && w.f[j].kind == 4);
            if (dyn && !available) continue;
            eigen_ros::lookup_transform::Request rq;
            eigen_ros::lookup_transform::Response rs;
            rq.source_frame = w.name(i);
            rq.target_frame = w.name(j);
            const bool ok = rosstub::Bus::get().services.at(nh.resolveName("lookup_transform"))(&rq, &rs);
            MC_CHECK(ok && close(ref::inv(w.pose(i, ros::Time())) * w.pose(j, ros::Time()), eigen_ros::from_ros<Eigen::Isometry3d>(rs.transform)), "service", rq.source_frame << " " << rq.target_frame);
        }
    }
    mc::state(w.hash());
    mc::nontrivial(mc::Hash().add(static_cast<double>(w.hash())).add(static_cast<int>(available)).h);
}

// Misconfigurations are refused.
MC_FAMILY(refused) {
    rosstub::Bus::reset();
    const int what = mc::choose(16);
    XmlRpcValue top = XmlRpcValue::Struct(), b = XmlRpcValue::Struct(), frames = XmlRpcValue::Struct(), a = XmlRpcValue::Struct(), c = XmlRpcValue::Struct();
    bool ok = false;
    a["frame_id"] = "ida";
    c["frame_id"] = "idc";
    auto dyn = [&](const char* key, const XmlRpcValue& v) { a["dynamic"] = true; a[key] = v; };
    XmlRpcValue t = XmlRpcValue::Struct();
    t["x"] = 1.0;
    bool set = true;
    switch (what) {
        case 0: c["frame_id"] = "ida"; break;                                            // duplicate frame_id
        case 1: c["frame_id"] = "body"; break;                                           // frame_id of the body
        case 2: a["aliases"] = XmlRpcValue(std::vector<std::string>{"idc"}); break;      // alias equals another frame_id
        case 3: a["aliases"] = XmlRpcValue(std::vector<std::string>{"x", "x"}); break;   // alias twice
        case 4: a["aliases"] = XmlRpcValue(std::string("x")); break;                     // not a list
        case 5: a["aliases"] = XmlRpcValue::Array({XmlRpcValue(1)}); break;              // not strings
        case 6: dyn("aliases", XmlRpcValue(std::vector<std::string>{"x"})); break;
        case 7: dyn("lookup_tf", XmlRpcValue(true)); break;
        case 8: dyn("translation", t); break;
        case 9: dyn("rotation", t); break;
        case 10: { XmlRpcValue k = XmlRpcValue::Struct(); k["z"] = XmlRpcValue::Struct(); dyn("frames", k); break; }
        case 11: a["lookup_tf"] = true; break;                                           // tf does not know the frame
        case 12: { XmlRpcValue k = XmlRpcValue::Struct(); k["c"] = XmlRpcValue::Struct(); a["frames"] = k; break; }  // nested frame of the same name
        case 13: top["second_body"] = XmlRpcValue::Struct(); break;
        case 14: set = false; break;
        case 15: ok = true; break;
    }
    frames["a"] = a;
    frames["c"] = c;
    b["frames"] = frames;
    top["body"] = b;
    if (set) ros::NodeHandle("~").setParam("body_frames", top);
    const bool threw = mc::throws([&] { eigen_ros::BodyFrames bf("~"); });
    MC_CHECK(threw == !ok, "refused", "misconfiguration " << what << (threw ? " refused" : " accepted"));
    mc::nontrivial(what);
}

// Stand-in for roscpp: parameters, topics and services live in one in-process bus driven by the harness. A publication is
// appended to the queue of every subscription of the topic (oldest dropped when full, as roscpp does); the harness decides
// which subscription delivers next.
#pragma once
#define BOOST_BIND_GLOBAL_PLACEHOLDERS
#include <boost/bind.hpp>
#include <boost/array.hpp>
#include <boost/optional.hpp>
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <algorithm>
#include <any>
#include <cmath>
#include <deque>
#include <iostream>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <typeindex>
#include <vector>

#include "XmlRpcStub/xmlrpc.hpp"
#include "ros/time.h"

namespace pcl {
struct PCLPointCloud2;
template<typename T>
class PointCloud;
}

namespace rosstub {

// Smart pointer used for messages of type M (PCL >= 1.11 uses std::shared_ptr, ROS messages boost::shared_ptr).
template<class M>
struct PtrOf {
    template<class T>
    using type = boost::shared_ptr<T>;
};
template<>
struct PtrOf<pcl::PCLPointCloud2> {
    template<class T>
    using type = std::shared_ptr<T>;
};
template<class P>
struct PtrOf<pcl::PointCloud<P>> {
    template<class T>
    using type = std::shared_ptr<T>;
};
template<class M>
using CPtr = typename PtrOf<M>::template type<const M>;

// Clouds may be published and subscribed as different C++ types: they meet as PCLPointCloud2 (see pcl_ros/point_cloud.h).
template<class M>
struct CloudOps {
    static constexpr bool cloud = false;
};

// For monitors of the program's memory accesses: order of publication and delivery, and code that belongs to the stand-in.
extern std::shared_ptr<void> (*hb_send)();
extern void (*hb_receive)(const std::shared_ptr<void>&);
extern void (*outside)(int);
struct Outside {
    Outside() {
        if (outside) {
            outside(1);
        }
    }
    ~Outside() {
        if (outside) {
            outside(-1);
        }
    }
    Outside(const Outside&) = delete;
};

// The program's own code, called from the stand-in.
struct Inside {
    Inside() {
        if (outside) {
            outside(-1);
        }
    }
    ~Inside() {
        if (outside) {
            outside(1);
        }
    }
    Inside(const Inside&) = delete;
};

struct AnyMsg {
    std::type_index type{typeid(void)};
    std::any ptr;  // CPtr<M>
    std::function<std::shared_ptr<const pcl::PCLPointCloud2>()> as_cloud;
    std::uint64_t serial{0};
    std::shared_ptr<void> sent;   // what the publisher had done, for monitors

    template<class M>
    bool is() const {
        return type == std::type_index(typeid(M));
    }
    template<class M>
    CPtr<M> get() const;
};

template<class M>
AnyMsg wrap(const CPtr<M>& p) {
    AnyMsg m;
    m.type = std::type_index(typeid(M));
    m.ptr = p;
    if constexpr (CloudOps<M>::cloud) {
        m.as_cloud = [p]() { return CloudOps<M>::to(p); };
    }
    return m;
}

template<class M>
CPtr<M> AnyMsg::get() const {
    if (is<M>()) {
        return std::any_cast<CPtr<M>>(ptr);
    }
    if constexpr (CloudOps<M>::cloud) {
        if (as_cloud) {
            return CloudOps<M>::from(as_cloud());
        }
    }
    throw std::logic_error("rosstub: message type mismatch");
}

struct Sub {
    std::string topic;
    std::size_t queue{0};
    std::deque<AnyMsg> pending;
    std::function<void(const AnyMsg&)> deliver;
    std::uint64_t dropped{0};
    bool alive{true};
    std::type_index type{typeid(void)};
};

struct Pub {
    std::string topic;
    AnyMsg msg;
};

struct Bus {
    std::map<std::string, XmlRpc::XmlRpcValue> params;
    std::vector<std::shared_ptr<Sub>> subs;
    std::vector<Pub> log;
    std::map<std::string, AnyMsg> latched;
    std::map<std::string, std::function<bool(void*, void*)>> services;
    std::map<std::string, std::type_index> advertised;
    std::function<void(const std::string&, const AnyMsg&)> on_publish;
    bool shutdown{false};
    std::uint64_t serial{0};
    // What programs did: parameters looked up (name -> found with a usable type), spinners (threads, started), conflicting types.
    std::map<std::string, bool> reads;
    std::vector<std::pair<int, bool>> spinners;
    std::vector<std::string> advertisements;   // one entry per advertise()
    std::function<void()> on_wait;             // body of ros::waitForShutdown()

    static Bus& get();
    static void reset();

    void publish(const std::string& topic, AnyMsg msg, bool latch = false) {
        msg.serial = ++serial;
        msg.sent = hb_send ? hb_send() : nullptr;
        log.push_back({topic, msg});
        if (latch) {
            latched[topic] = msg;
        }
        for (auto& s : subs) {
            if (s->alive && s->topic == topic) {
                push(*s, msg);
            }
        }
        if (on_publish) {
            on_publish(topic, msg);
        }
    }
    static void push(Sub& s, const AnyMsg& msg) {
        s.pending.push_back(msg);
        if (s.queue > 0 && s.pending.size() > s.queue) {
            s.pending.pop_front();
            ++s.dropped;
        }
    }
    std::shared_ptr<Sub> subscribe(const std::string& topic, std::size_t queue, std::function<void(const AnyMsg&)> fn,
            std::type_index type = typeid(void)) {
        auto s = std::make_shared<Sub>();
        s->type = type;
        s->topic = topic;
        s->queue = queue;
        s->deliver = std::move(fn);
        subs.push_back(s);
        auto it = latched.find(topic);
        if (it != latched.end()) {
            push(*s, it->second);
        }
        return s;
    }
    // Deliver the oldest pending message of a subscription; false if none is pending.
    static bool deliver_one(const std::shared_ptr<Sub>& s) {
        if (!s->alive || s->pending.empty()) {
            return false;
        }
        const AnyMsg m = s->pending.front();
        s->pending.pop_front();
        if (hb_receive) {
            hb_receive(m.sent);
        }
        const Inside i;
        s->deliver(m);
        return true;
    }
    std::shared_ptr<Sub> find_sub(const std::string& topic) {
        for (auto& s : subs) {
            if (s->alive && s->topic == topic) {
                return s;
            }
        }
        return nullptr;
    }
    // Deliver everything, oldest publication first.
    void spin_all() {
        for (;;) {
            std::shared_ptr<Sub> best;
            for (auto& s : subs) {
                if (s->alive && !s->pending.empty() &&
                        (!best || s->pending.front().serial < best->pending.front().serial)) {
                    best = s;
                }
            }
            if (!best) {
                return;
            }
            deliver_one(best);
        }
    }
    template<class M>
    std::vector<CPtr<M>> published(const std::string& topic) const {
        std::vector<CPtr<M>> v;
        for (const auto& p : log) {
            if (p.topic == topic) {
                v.push_back(p.msg.get<M>());
            }
        }
        return v;
    }
    std::size_t count(const std::string& topic) const {
        std::size_t n = 0;
        for (const auto& p : log) {
            n += p.topic == topic;
        }
        return n;
    }
    template<class M>
    void inject(const std::string& topic, const CPtr<M>& p) {
        publish(topic, wrap<M>(p));
    }
    template<class M>
    void inject(const std::string& topic, const M& m) {
        using P = typename PtrOf<M>::template type<M>;
        publish(topic, wrap<M>(CPtr<M>(P(new M(m)))));
    }
    void param(const std::string& name, const XmlRpc::XmlRpcValue& v) {
        params[name] = v;
    }
};

template<class T>
struct IsPtr : std::false_type {};
template<class T>
struct IsPtr<boost::shared_ptr<T>> : std::true_type {
    using M = std::remove_const_t<T>;
};
template<class T>
struct IsPtr<std::shared_ptr<T>> : std::true_type {
    using M = std::remove_const_t<T>;
};

// Convert a parameter as roscpp's ros::param::get does.
inline bool convert(const XmlRpc::XmlRpcValue& v, bool& o) {
    if (v.getType() != XmlRpc::XmlRpcValue::TypeBoolean) {
        return false;
    }
    o = static_cast<const bool&>(v);
    return true;
}
inline bool convert(const XmlRpc::XmlRpcValue& v, int& o) {
    if (v.getType() == XmlRpc::XmlRpcValue::TypeDouble) {
        const double d = static_cast<const double&>(v);
        if (std::fmod(d, 1.0) != 0.0) {
            return false;
        }
        o = static_cast<int>(d);
        return true;
    }
    if (v.getType() != XmlRpc::XmlRpcValue::TypeInt) {
        return false;
    }
    o = static_cast<const int&>(v);
    return true;
}
inline bool convert(const XmlRpc::XmlRpcValue& v, double& o) {
    if (v.getType() == XmlRpc::XmlRpcValue::TypeInt) {
        o = static_cast<const int&>(v);
        return true;
    }
    if (v.getType() != XmlRpc::XmlRpcValue::TypeDouble) {
        return false;
    }
    o = static_cast<const double&>(v);
    return true;
}
inline bool convert(const XmlRpc::XmlRpcValue& v, float& o) {
    double d;
    if (!convert(v, d)) {
        return false;
    }
    o = d;
    return true;
}
inline bool convert(const XmlRpc::XmlRpcValue& v, std::string& o) {
    if (v.getType() != XmlRpc::XmlRpcValue::TypeString) {
        return false;
    }
    o = static_cast<const std::string&>(v);
    return true;
}
inline bool convert(const XmlRpc::XmlRpcValue& v, XmlRpc::XmlRpcValue& o) {
    o = v;
    return true;
}
template<class T>
bool convert(const XmlRpc::XmlRpcValue& v, std::vector<T>& o) {
    if (v.getType() != XmlRpc::XmlRpcValue::TypeArray) {
        return false;
    }
    o.clear();
    for (int i = 0; i < v.size(); ++i) {
        T t;
        if (!convert(v[i], t)) {
            return false;
        }
        o.push_back(t);
    }
    return true;
}

std::ostream& null_stream();

}

namespace ros {

class Publisher {
public:
    Publisher() {}
    Publisher(const std::string& topic, bool latch) : topic_(topic), latch_(latch) {}
    template<class T>
    std::enable_if_t<rosstub::IsPtr<T>::value> publish(const T& p) const {
        using M = typename rosstub::IsPtr<T>::M;
        check();
        if constexpr (std::is_convertible_v<T, rosstub::CPtr<M>>) {
            const rosstub::Outside o;
            rosstub::Bus::get().publish(topic_, rosstub::wrap<M>(rosstub::CPtr<M>(p)), latch_);
        } else {
            publish(*p);
        }
    }
    template<class M>
    std::enable_if_t<!rosstub::IsPtr<M>::value> publish(const M& m) const {
        check();
        using P = typename rosstub::PtrOf<M>::template type<M>;
        const rosstub::CPtr<M> copy{P(new M(m))};
        const rosstub::Outside o;
        rosstub::Bus::get().publish(topic_, rosstub::wrap<M>(copy), latch_);
    }
    std::string getTopic() const {
        return topic_;
    }
    std::uint32_t getNumSubscribers() const {
        const rosstub::Outside o;
        std::uint32_t n = 0;
        for (const auto& s : rosstub::Bus::get().subs) {
            n += s->alive && s->topic == topic_;
        }
        return n;
    }
    operator bool() const {
        return !topic_.empty();
    }
    bool isLatched() const {
        return latch_;
    }
    void shutdown() {
        topic_.clear();
    }

private:
    // roscpp asserts on publishing with an unset Publisher
    void check() const {
        if (topic_.empty()) {
            throw std::logic_error("rosstub: publish on an unadvertised publisher");
        }
    }
    std::string topic_;
    bool latch_{false};
};

class Subscriber {
public:
    Subscriber() {}
    explicit Subscriber(std::shared_ptr<rosstub::Sub> s) : s_(std::move(s)) {}
    std::string getTopic() const {
        return s_ ? s_->topic : std::string();
    }
    void shutdown() {
        if (s_) {
            s_->alive = false;
        }
    }
    std::uint32_t getNumPublishers() const {
        const auto& a = rosstub::Bus::get().advertisements;
        return static_cast<std::uint32_t>(std::count(a.begin(), a.end(), getTopic()));
    }
    operator bool() const {
        return s_ && s_->alive;
    }

private:
    std::shared_ptr<rosstub::Sub> s_;
};

class ServiceServer {
public:
    ServiceServer() {}
    explicit ServiceServer(const std::string& name) : name_(name) {}
    std::string getService() const {
        return name_;
    }
    operator bool() const {
        return !name_.empty();
    }
    void shutdown() {
        rosstub::Bus::get().services.erase(name_);
        name_.clear();
    }

private:
    std::string name_;
};

struct TransportHints {
    TransportHints& tcpNoDelay(bool = true) {
        return *this;
    }
    TransportHints& tcp() {
        return *this;
    }
    TransportHints& udp() {
        return *this;
    }
    TransportHints& reliable() {
        return *this;
    }
    TransportHints& unreliable() {
        return *this;
    }
};

class NodeHandle {
public:
    explicit NodeHandle(const std::string& ns = "") {
        if (ns.empty()) {
            ns_ = "";
        } else if (ns[0] == '~') {
            ns_ = "/node" + (ns.size() > 1 ? "/" + ns.substr(1) : std::string());
        } else if (ns[0] == '/') {
            ns_ = ns;
        } else {
            ns_ = "/" + ns;
        }
    }
    NodeHandle(const NodeHandle& p, const std::string& ns) : ns_(p.ns_ + "/" + ns) {}
    std::string getNamespace() const {
        return ns_;
    }
    std::string resolveName(const std::string& n) const {
        return n.empty() ? ns_ : n[0] == '/' ? n : n[0] == '~' ? "/node/" + n.substr(1) : ns_ + "/" + n;
    }
    template<class T>
    bool getParam(const std::string& name, T& v) const {
        const rosstub::Outside o;
        auto& params = rosstub::Bus::get().params;
        auto it = params.find(resolveName(name));
        if (it == params.end()) {
            rosstub::Bus::get().reads.emplace(resolveName(name), false);
            return false;
        }
        const bool ok = rosstub::convert(it->second, v);
        bool& read = rosstub::Bus::get().reads[resolveName(name)];
        read = read || ok;
        return ok;
    }
    bool hasParam(const std::string& name) const {
        const rosstub::Outside o;
        const bool found = rosstub::Bus::get().params.count(resolveName(name));
        rosstub::Bus::get().reads.emplace(resolveName(name), found);
        return found;
    }
    template<class T>
    bool param(const std::string& name, T& v, const T& def) const {
        T t;
        if (getParam(name, t)) {
            v = t;
            return true;
        }
        v = def;
        return false;
    }
    template<class T>
    T param(const std::string& name, const T& def) const {
        T t;
        param(name, t, def);
        return t;
    }
    template<class T>
    bool getParamCached(const std::string& name, T& v) const {
        return getParam(name, v);
    }
    bool deleteParam(const std::string& name) const {
        return rosstub::Bus::get().params.erase(resolveName(name)) > 0;
    }
    bool searchParam(const std::string& name, std::string& result) const {
        result = resolveName(name);
        return hasParam(name);
    }
    bool getParamNames(std::vector<std::string>& names) const {
        for (const auto& p : rosstub::Bus::get().params) {
            names.push_back(p.first);
        }
        return true;
    }
    bool ok() const;
    void shutdown() {}
    template<class T>
    void setParam(const std::string& name, const T& v) const {
        rosstub::Bus::get().params[resolveName(name)] = XmlRpc::XmlRpcValue(v);
    }
    template<class M>
    Publisher advertise(const std::string& topic, std::uint32_t, bool latch = false) {
        rosstub::Bus::get().advertised.emplace(resolveName(topic), std::type_index(typeid(M)));
        rosstub::Bus::get().advertisements.push_back(resolveName(topic));
        return Publisher(resolveName(topic), latch);
    }
    template<class M, class T, class A>
    Subscriber subscribe(const std::string& topic, std::uint32_t q, void (T::*fp)(A), T* obj,
            const TransportHints& = TransportHints()) {
        return subscribe_<M, A>(topic, q, [fp, obj](A a) { (obj->*fp)(a); });
    }
    template<class M, class T, class A>
    Subscriber subscribe(const std::string& topic, std::uint32_t q, void (T::*fp)(A) const, T* obj,
            const TransportHints& = TransportHints()) {
        return subscribe_<M, A>(topic, q, [fp, obj](A a) { (obj->*fp)(a); });
    }
    template<class T, class A>
    Subscriber subscribe(const std::string& topic, std::uint32_t q, void (T::*fp)(A), T* obj,
            const TransportHints& = TransportHints()) {
        using D = std::decay_t<A>;
        if constexpr (rosstub::IsPtr<D>::value) {
            return subscribe_<typename rosstub::IsPtr<D>::M, A>(topic, q, [fp, obj](A a) { (obj->*fp)(a); });
        } else {
            return subscribe_<D, A>(topic, q, [fp, obj](A a) { (obj->*fp)(a); });
        }
    }
    template<class M, class F>
    std::enable_if_t<!std::is_member_function_pointer_v<F>, Subscriber> subscribe(
            const std::string& topic, std::uint32_t q, const F& f) {
        return subscribe_<M, const rosstub::CPtr<M>&>(topic, q, f);
    }
    template<class M>
    Subscriber subscribe(const std::string& topic, std::uint32_t q, void (*f)(const rosstub::CPtr<M>&)) {
        return subscribe_<M, const rosstub::CPtr<M>&>(topic, q, f);
    }
    template<class T, class Req, class Res>
    ServiceServer advertiseService(const std::string& name, bool (T::*fp)(Req&, Res&), T* obj) {
        rosstub::Bus::get().services[resolveName(name)] = [fp, obj](void* a, void* b) {
            const rosstub::Inside i;
            return (obj->*fp)(*static_cast<Req*>(a), *static_cast<Res*>(b));
        };
        return ServiceServer(resolveName(name));
    }
    template<class Req, class Res>
    ServiceServer advertiseService(const std::string& name, bool (*f)(Req&, Res&)) {
        return advertiseService<Req, Res>(name, std::function<bool(Req&, Res&)>(f));
    }
    template<class Req, class Res>
    ServiceServer advertiseService(const std::string& name, const std::function<bool(Req&, Res&)>& f) {
        rosstub::Bus::get().services[resolveName(name)] = [f](void* a, void* b) {
            return f(*static_cast<Req*>(a), *static_cast<Res*>(b));
        };
        return ServiceServer(resolveName(name));
    }

private:
    template<class M, class A, class F>
    Subscriber subscribe_(const std::string& topic, std::uint32_t q, F f) {
        return Subscriber(rosstub::Bus::get().subscribe(resolveName(topic), q, [f](const rosstub::AnyMsg& m) {
            using D = std::decay_t<A>;
            auto p = m.get<M>();
            if constexpr (rosstub::IsPtr<D>::value) {
                f(D(p));
            } else {
                f(*p);
            }
        }, typeid(M)));
    }
    std::string ns_;
};

inline bool ok() {
    const rosstub::Outside o;
    return rosstub::ok_fn ? rosstub::ok_fn() : !rosstub::Bus::get().shutdown;
}
inline void shutdown() {
    rosstub::Bus::get().shutdown = true;
}
inline void requestShutdown() {
    shutdown();
}
inline bool isShuttingDown() {
    return !ok();
}
inline bool isStarted() {
    return true;
}
inline bool isInitialized() {
    return true;
}
inline bool NodeHandle::ok() const {
    return ros::ok();
}
namespace init_options {
enum InitOption : std::uint32_t { NoSigintHandler = 1, AnonymousName = 2, NoRosout = 4 };
}
namespace this_node {
inline std::string getName() {
    return "/node";
}
inline std::string getNamespace() {
    return "/";
}
}
namespace names {
inline std::string resolve(const std::string& n) {
    return NodeHandle().resolveName(n);
}
}
namespace param {
template<class T>
bool get(const std::string& name, T& v) {
    return NodeHandle().getParam(name, v);
}
template<class T>
bool param(const std::string& name, T& v, const T& def) {
    return NodeHandle().param(name, v, def);
}
template<class T>
T param(const std::string& name, const T& def) {
    return NodeHandle().param(name, def);
}
template<class T>
void set(const std::string& name, const T& v) {
    NodeHandle().setParam(name, v);
}
inline bool has(const std::string& name) {
    return NodeHandle().hasParam(name);
}
inline bool del(const std::string& name) {
    return NodeHandle().deleteParam(name);
}
}
inline void init(int&, char**, const std::string&, std::uint32_t = 0) {}
inline void spin() {
    rosstub::Bus::get().spin_all();
}
inline void spinOnce() {
    rosstub::Bus::get().spin_all();
}
inline void waitForShutdown() {
    if (rosstub::Bus::get().on_wait) {
        rosstub::Bus::get().on_wait();
    }
}
struct AsyncSpinner {
    explicit AsyncSpinner(std::uint32_t n) : i_(rosstub::Bus::get().spinners.size()) {
        rosstub::Bus::get().spinners.emplace_back(static_cast<int>(n), false);
    }
    ~AsyncSpinner() {
        stop();
    }
    void start() {
        set(true);
    }
    void stop() {
        set(false);
    }

private:
    void set(bool b) {
        auto& s = rosstub::Bus::get().spinners;
        if (i_ < s.size()) {
            s[i_].second = b;
        }
    }
    std::size_t i_;
};
struct MultiThreadedSpinner {
    explicit MultiThreadedSpinner(std::uint32_t = 0) {}
    void spin() {}
};
struct Rate {
    explicit Rate(double) {}
    explicit Rate(const Duration&) {}
    bool sleep() {
        return Duration(0.01).sleep();
    }
    void reset() {}
};
namespace topic {
template<class M>
rosstub::CPtr<M> waitForMessage(const std::string& topic, NodeHandle& nh, Duration) {
    auto& l = rosstub::Bus::get().latched;
    auto it = l.find(nh.resolveName(topic));
    return it == l.end() ? rosstub::CPtr<M>() : it->second.get<M>();
}
}

}

#define ROSSTUB_S(x)                                  \
    do {                                              \
        rosstub::null_stream() << x;                  \
    } while (false)
#define ROSSTUB_P(...)                                \
    do {                                              \
        rosstub::null_printf(__VA_ARGS__);            \
    } while (false)
namespace rosstub {
template<class... A>
void null_printf(const A&...) {}
}
// DEBUG is disabled (its arguments are not evaluated), the other levels are enabled; nothing is printed.
#define ROS_DEBUG_STREAM(x) do { if (false) { ROSSTUB_S(x); } } while (false)
#define ROS_DEBUG_STREAM_NAMED(n, x) do { if (false) { ROSSTUB_S(x); } } while (false)
#define ROS_DEBUG_STREAM_ONCE(x) do { if (false) { ROSSTUB_S(x); } } while (false)
#define ROS_DEBUG_STREAM_ONCE_NAMED(n, x) do { if (false) { ROSSTUB_S(x); } } while (false)
#define ROS_DEBUG_STREAM_COND(c, x) do { if (false && (c)) { ROSSTUB_S(x); } } while (false)
#define ROS_DEBUG_STREAM_COND_NAMED(c, n, x) do { if (false && (c)) { ROSSTUB_S(x); } } while (false)
#define ROS_DEBUG_STREAM_THROTTLE(r, x) do { if (false) { ROSSTUB_S(x); } } while (false)
#define ROS_DEBUG_STREAM_THROTTLE_NAMED(r, n, x) do { if (false) { ROSSTUB_S(x); } } while (false)
#define ROS_DEBUG_STREAM_DELAYED_THROTTLE(r, x) do { if (false) { ROSSTUB_S(x); } } while (false)
#define ROS_DEBUG_STREAM_DELAYED_THROTTLE_NAMED(r, n, x) do { if (false) { ROSSTUB_S(x); } } while (false)
#define ROS_DEBUG_STREAM_FILTER(f, x) do { if (false) { ROSSTUB_S(x); } } while (false)
#define ROS_DEBUG_STREAM_FILTER_NAMED(f, n, x) do { if (false) { ROSSTUB_S(x); } } while (false)
#define ROS_DEBUG(...) do { if (false) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_DEBUG_NAMED(n, ...) do { if (false) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_DEBUG_ONCE(...) do { if (false) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_DEBUG_ONCE_NAMED(n, ...) do { if (false) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_DEBUG_COND(c, ...) do { if (false && (c)) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_DEBUG_COND_NAMED(c, n, ...) do { if (false && (c)) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_DEBUG_THROTTLE(r, ...) do { if (false) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_DEBUG_THROTTLE_NAMED(r, n, ...) do { if (false) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_DEBUG_DELAYED_THROTTLE(r, ...) do { if (false) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_DEBUG_DELAYED_THROTTLE_NAMED(r, n, ...) do { if (false) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_DEBUG_FILTER(f, ...) do { if (false) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_DEBUG_FILTER_NAMED(f, n, ...) do { if (false) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_INFO_STREAM(x) do { if (true) { ROSSTUB_S(x); } } while (false)
#define ROS_INFO_STREAM_NAMED(n, x) do { if (true) { ROSSTUB_S(x); } } while (false)
#define ROS_INFO_STREAM_ONCE(x) do { if (true) { ROSSTUB_S(x); } } while (false)
#define ROS_INFO_STREAM_ONCE_NAMED(n, x) do { if (true) { ROSSTUB_S(x); } } while (false)
#define ROS_INFO_STREAM_COND(c, x) do { if (c) { ROSSTUB_S(x); } } while (false)
#define ROS_INFO_STREAM_COND_NAMED(c, n, x) do { if (c) { ROSSTUB_S(x); } } while (false)
#define ROS_INFO_STREAM_THROTTLE(r, x) do { if (true) { ROSSTUB_S(x); } } while (false)
#define ROS_INFO_STREAM_THROTTLE_NAMED(r, n, x) do { if (true) { ROSSTUB_S(x); } } while (false)
#define ROS_INFO_STREAM_DELAYED_THROTTLE(r, x) do { if (true) { ROSSTUB_S(x); } } while (false)
#define ROS_INFO_STREAM_DELAYED_THROTTLE_NAMED(r, n, x) do { if (true) { ROSSTUB_S(x); } } while (false)
#define ROS_INFO_STREAM_FILTER(f, x) do { if (true) { ROSSTUB_S(x); } } while (false)
#define ROS_INFO_STREAM_FILTER_NAMED(f, n, x) do { if (true) { ROSSTUB_S(x); } } while (false)
#define ROS_INFO(...) do { if (true) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_INFO_NAMED(n, ...) do { if (true) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_INFO_ONCE(...) do { if (true) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_INFO_ONCE_NAMED(n, ...) do { if (true) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_INFO_COND(c, ...) do { if (c) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_INFO_COND_NAMED(c, n, ...) do { if (c) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_INFO_THROTTLE(r, ...) do { if (true) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_INFO_THROTTLE_NAMED(r, n, ...) do { if (true) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_INFO_DELAYED_THROTTLE(r, ...) do { if (true) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_INFO_DELAYED_THROTTLE_NAMED(r, n, ...) do { if (true) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_INFO_FILTER(f, ...) do { if (true) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_INFO_FILTER_NAMED(f, n, ...) do { if (true) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_WARN_STREAM(x) do { if (true) { ROSSTUB_S(x); } } while (false)
#define ROS_WARN_STREAM_NAMED(n, x) do { if (true) { ROSSTUB_S(x); } } while (false)
#define ROS_WARN_STREAM_ONCE(x) do { if (true) { ROSSTUB_S(x); } } while (false)
#define ROS_WARN_STREAM_ONCE_NAMED(n, x) do { if (true) { ROSSTUB_S(x); } } while (false)
#define ROS_WARN_STREAM_COND(c, x) do { if (c) { ROSSTUB_S(x); } } while (false)
#define ROS_WARN_STREAM_COND_NAMED(c, n, x) do { if (c) { ROSSTUB_S(x); } } while (false)
#define ROS_WARN_STREAM_THROTTLE(r, x) do { if (true) { ROSSTUB_S(x); } } while (false)
#define ROS_WARN_STREAM_THROTTLE_NAMED(r, n, x) do { if (true) { ROSSTUB_S(x); } } while (false)
#define ROS_WARN_STREAM_DELAYED_THROTTLE(r, x) do { if (true) { ROSSTUB_S(x); } } while (false)
#define ROS_WARN_STREAM_DELAYED_THROTTLE_NAMED(r, n, x) do { if (true) { ROSSTUB_S(x); } } while (false)
#define ROS_WARN_STREAM_FILTER(f, x) do { if (true) { ROSSTUB_S(x); } } while (false)
#define ROS_WARN_STREAM_FILTER_NAMED(f, n, x) do { if (true) { ROSSTUB_S(x); } } while (false)
#define ROS_WARN(...) do { if (true) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_WARN_NAMED(n, ...) do { if (true) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_WARN_ONCE(...) do { if (true) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_WARN_ONCE_NAMED(n, ...) do { if (true) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_WARN_COND(c, ...) do { if (c) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_WARN_COND_NAMED(c, n, ...) do { if (c) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_WARN_THROTTLE(r, ...) do { if (true) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_WARN_THROTTLE_NAMED(r, n, ...) do { if (true) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_WARN_DELAYED_THROTTLE(r, ...) do { if (true) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_WARN_DELAYED_THROTTLE_NAMED(r, n, ...) do { if (true) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_WARN_FILTER(f, ...) do { if (true) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_WARN_FILTER_NAMED(f, n, ...) do { if (true) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_ERROR_STREAM(x) do { if (true) { ROSSTUB_S(x); } } while (false)
#define ROS_ERROR_STREAM_NAMED(n, x) do { if (true) { ROSSTUB_S(x); } } while (false)
#define ROS_ERROR_STREAM_ONCE(x) do { if (true) { ROSSTUB_S(x); } } while (false)
#define ROS_ERROR_STREAM_ONCE_NAMED(n, x) do { if (true) { ROSSTUB_S(x); } } while (false)
#define ROS_ERROR_STREAM_COND(c, x) do { if (c) { ROSSTUB_S(x); } } while (false)
#define ROS_ERROR_STREAM_COND_NAMED(c, n, x) do { if (c) { ROSSTUB_S(x); } } while (false)
#define ROS_ERROR_STREAM_THROTTLE(r, x) do { if (true) { ROSSTUB_S(x); } } while (false)
#define ROS_ERROR_STREAM_THROTTLE_NAMED(r, n, x) do { if (true) { ROSSTUB_S(x); } } while (false)
#define ROS_ERROR_STREAM_DELAYED_THROTTLE(r, x) do { if (true) { ROSSTUB_S(x); } } while (false)
#define ROS_ERROR_STREAM_DELAYED_THROTTLE_NAMED(r, n, x) do { if (true) { ROSSTUB_S(x); } } while (false)
#define ROS_ERROR_STREAM_FILTER(f, x) do { if (true) { ROSSTUB_S(x); } } while (false)
#define ROS_ERROR_STREAM_FILTER_NAMED(f, n, x) do { if (true) { ROSSTUB_S(x); } } while (false)
#define ROS_ERROR(...) do { if (true) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_ERROR_NAMED(n, ...) do { if (true) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_ERROR_ONCE(...) do { if (true) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_ERROR_ONCE_NAMED(n, ...) do { if (true) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_ERROR_COND(c, ...) do { if (c) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_ERROR_COND_NAMED(c, n, ...) do { if (c) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_ERROR_THROTTLE(r, ...) do { if (true) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_ERROR_THROTTLE_NAMED(r, n, ...) do { if (true) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_ERROR_DELAYED_THROTTLE(r, ...) do { if (true) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_ERROR_DELAYED_THROTTLE_NAMED(r, n, ...) do { if (true) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_ERROR_FILTER(f, ...) do { if (true) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_ERROR_FILTER_NAMED(f, n, ...) do { if (true) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_FATAL_STREAM(x) do { if (true) { ROSSTUB_S(x); } } while (false)
#define ROS_FATAL_STREAM_NAMED(n, x) do { if (true) { ROSSTUB_S(x); } } while (false)
#define ROS_FATAL_STREAM_ONCE(x) do { if (true) { ROSSTUB_S(x); } } while (false)
#define ROS_FATAL_STREAM_ONCE_NAMED(n, x) do { if (true) { ROSSTUB_S(x); } } while (false)
#define ROS_FATAL_STREAM_COND(c, x) do { if (c) { ROSSTUB_S(x); } } while (false)
#define ROS_FATAL_STREAM_COND_NAMED(c, n, x) do { if (c) { ROSSTUB_S(x); } } while (false)
#define ROS_FATAL_STREAM_THROTTLE(r, x) do { if (true) { ROSSTUB_S(x); } } while (false)
#define ROS_FATAL_STREAM_THROTTLE_NAMED(r, n, x) do { if (true) { ROSSTUB_S(x); } } while (false)
#define ROS_FATAL_STREAM_DELAYED_THROTTLE(r, x) do { if (true) { ROSSTUB_S(x); } } while (false)
#define ROS_FATAL_STREAM_DELAYED_THROTTLE_NAMED(r, n, x) do { if (true) { ROSSTUB_S(x); } } while (false)
#define ROS_FATAL_STREAM_FILTER(f, x) do { if (true) { ROSSTUB_S(x); } } while (false)
#define ROS_FATAL_STREAM_FILTER_NAMED(f, n, x) do { if (true) { ROSSTUB_S(x); } } while (false)
#define ROS_FATAL(...) do { if (true) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_FATAL_NAMED(n, ...) do { if (true) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_FATAL_ONCE(...) do { if (true) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_FATAL_ONCE_NAMED(n, ...) do { if (true) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_FATAL_COND(c, ...) do { if (c) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_FATAL_COND_NAMED(c, n, ...) do { if (c) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_FATAL_THROTTLE(r, ...) do { if (true) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_FATAL_THROTTLE_NAMED(r, n, ...) do { if (true) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_FATAL_DELAYED_THROTTLE(r, ...) do { if (true) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_FATAL_DELAYED_THROTTLE_NAMED(r, n, ...) do { if (true) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_FATAL_FILTER(f, ...) do { if (true) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_FATAL_FILTER_NAMED(f, n, ...) do { if (true) { ROSSTUB_P(__VA_ARGS__); } } while (false)
#define ROS_ASSERT(c) do { if (!(c)) throw std::logic_error("ROS_ASSERT " #c); } while (false)
#define ROS_ASSERT_MSG(c, ...) ROS_ASSERT(c)
#define ROS_ASSERT_CMD(c, cmd) do { if (!(c)) { cmd; } } while (false)
#define ROS_BREAK() throw std::logic_error("ROS_BREAK")

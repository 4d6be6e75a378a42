// Exact-time policy as in message_filters::sync_policies::ExactTime.
#pragma once
#include <message_filters/subscriber.h>
#include <mutex>
#include <tuple>
namespace rosstub {
template<class M>
ros::Time stamp_of(const M& m) {
    return m.header.stamp;
}
template<class P>
ros::Time stamp_of(const pcl::PointCloud<P>& m) {
    return ros::Time().fromNSec(m.header.stamp * 1000ULL);
}
}
namespace message_filters {
template<class... Ms>
class TimeSynchronizer {
public:
    explicit TimeSynchronizer(std::uint32_t q) : queue(q) {}
    void connectInput(Subscriber<Ms>&... subs) {
        connect_(std::index_sequence_for<Ms...>{}, subs...);
    }
    template<class F>
    void registerCallback(const F& f) {
        callback = [f](const rosstub::CPtr<Ms>&... m) { f(m...); };
    }
    template<class C, class T>
    void registerCallback(C cb, T* t) {
        callback = [cb, t](const rosstub::CPtr<Ms>&... m) { (t->*cb)(m...); };
    }

private:
    template<std::size_t... I>
    void connect_(std::index_sequence<I...>, Subscriber<Ms>&... subs) {
        (subs.registerCallback([this](const rosstub::CPtr<Ms>& p) { add<I>(p); }), ...);
    }
    template<std::size_t I, class P>
    void add(const P& p) {
        std::lock_guard<std::mutex> guard{mutex};   // as message_filters: the callback runs under the lock
        const ros::Time stamp = rosstub::stamp_of(*p);
        auto& t = tuples[stamp];
        std::get<I>(t) = p;
        const bool full = std::apply([](const auto&... e) { return (static_cast<bool>(e) && ...); }, t);
        if (full) {
            const auto copy = t;
            tuples.erase(tuples.begin(), tuples.upper_bound(stamp));
            if (callback) {
                std::apply(callback, copy);
            }
        }
        if (queue > 0) {
            while (tuples.size() > queue) {
                tuples.erase(tuples.begin());
            }
        }
    }
    std::mutex mutex;
    std::uint32_t queue;
    std::map<ros::Time, std::tuple<rosstub::CPtr<Ms>...>> tuples;
    std::function<void(const rosstub::CPtr<Ms>&...)> callback;
};
}

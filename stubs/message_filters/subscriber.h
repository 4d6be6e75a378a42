#pragma once
#include <ros/ros.h>
namespace message_filters {
template<class M>
class Subscriber {
public:
    Subscriber() {}
    Subscriber(ros::NodeHandle& nh, const std::string& topic, std::uint32_t q) {
        subscribe(nh, topic, q);
    }
    void subscribe(ros::NodeHandle& nh, const std::string& topic, std::uint32_t q) {
        rosstub::Bus::get().subscribe(nh.resolveName(topic), q, [this](const rosstub::AnyMsg& m) {
            auto p = m.get<M>();
            for (auto& f : callbacks) {
                f(p);
            }
        }, typeid(M));
    }
    template<class F>
    void registerCallback(const F& f) {
        callbacks.push_back([f](const rosstub::CPtr<M>& p) { f(p); });
    }
    std::vector<std::function<void(const rosstub::CPtr<M>&)>> callbacks;
};
}

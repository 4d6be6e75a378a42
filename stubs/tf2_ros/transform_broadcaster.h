#pragma once
#include <geometry_msgs/TransformStamped.h>
#include <ros/ros.h>
namespace tf2_ros {
template<bool Static>
struct BroadcasterT {
    void sendTransform(const geometry_msgs::TransformStamped& t) {
        const rosstub::Outside o;
        rosstub::Bus::get().inject<geometry_msgs::TransformStamped>(Static ? "/tf_static" : "/tf", t);
    }
    void sendTransform(const std::vector<geometry_msgs::TransformStamped>& v) {
        for (const auto& t : v) {
            sendTransform(t);
        }
    }
};
using TransformBroadcaster = BroadcasterT<false>;
using StaticTransformBroadcaster = BroadcasterT<true>;
}

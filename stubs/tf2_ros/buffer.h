#pragma once
#include <geometry_msgs/TransformStamped.h>
#include <ros/ros.h>

namespace rosstub {
// (target frame, source frame) -> transform at a time; anything else is unknown
using TfFn = std::function<geometry_msgs::TransformStamped(const ros::Time&)>;
std::map<std::pair<std::string, std::string>, TfFn>& tf_table();
}
namespace tf2 {
struct TransformException : public std::runtime_error {
    using std::runtime_error::runtime_error;
};
struct LookupException : public TransformException {
    using TransformException::TransformException;
};
struct ConnectivityException : public TransformException {
    using TransformException::TransformException;
};
struct ExtrapolationException : public TransformException {
    using TransformException::TransformException;
};
struct InvalidArgumentException : public TransformException {
    using TransformException::TransformException;
};
struct TimeoutException : public TransformException {
    using TransformException::TransformException;
};
}
namespace tf2_ros {
class Buffer {
public:
    geometry_msgs::TransformStamped lookupTransform(const std::string& target, const std::string& source,
            const ros::Time& time, const ros::Duration = ros::Duration(0.0)) const {
        const rosstub::Outside o;
        auto it = rosstub::tf_table().find({target, source});
        if (it == rosstub::tf_table().end()) {
            throw tf2::LookupException("unknown transform " + target + " <- " + source);
        }
        return it->second(time);
    }
    bool canTransform(const std::string& target, const std::string& source, const ros::Time&,
            const ros::Duration = ros::Duration(0.0)) const {
        return rosstub::tf_table().count({target, source});
    }
};
class TransformListener {
public:
    explicit TransformListener(Buffer&) {}
};
}

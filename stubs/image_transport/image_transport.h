#pragma once
#include <ros/ros.h>
#include <sensor_msgs/Image.h>
namespace image_transport {
using Publisher = ros::Publisher;
using Subscriber = ros::Subscriber;
class ImageTransport {
public:
    explicit ImageTransport(const ros::NodeHandle& nh) : nh(nh) {}
    Publisher advertise(const std::string& topic, std::uint32_t q, bool latch = false) {
        return nh.advertise<sensor_msgs::Image>(topic, q, latch);
    }
    template<class T>
    Subscriber subscribe(const std::string& topic, std::uint32_t q, void (T::*fp)(const sensor_msgs::ImageConstPtr&), T* obj) {
        return nh.subscribe<sensor_msgs::Image>(topic, q, fp, obj);
    }

private:
    ros::NodeHandle nh;
};
}

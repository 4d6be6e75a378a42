#pragma once
#include <ros/ros.h>
#include <sensor_msgs/Image.h>
#include <sensor_msgs/image_encodings.h>
#include <std_msgs/Header.h>
#include <opencv2/core.hpp>
#include <opencv2/imgproc.hpp>
#include <cstring>
namespace cv_bridge {
struct Exception : public std::runtime_error {
    using std::runtime_error::runtime_error;
};
inline int getCvType(const std::string& e) {
    if (e == "mono8" || e == "8UC1" || e == "bayer_rggb8") return CV_8UC1;
    if (e == "bgr8" || e == "rgb8" || e == "8UC3") return CV_8UC3;
    if (e == "bgra8" || e == "rgba8") return CV_8UC4;
    if (e == "mono16" || e == "16UC1") return CV_16UC1;
    if (e == "32FC1") return CV_32FC1;
    if (e == "64FC1") return CV_64FC1;
    throw Exception("Unrecognized image encoding [" + e + "]");
}
class CvImage {
public:
    std_msgs::Header header;
    std::string encoding;
    cv::Mat image;
    CvImage() {}
    CvImage(const std_msgs::Header& h, const std::string& e, const cv::Mat& i = cv::Mat()) : header(h), encoding(e), image(i) {}
    sensor_msgs::ImagePtr toImageMsg() const {
        sensor_msgs::ImagePtr p(new sensor_msgs::Image);
        toImageMsg(*p);
        return p;
    }
    void toImageMsg(sensor_msgs::Image& m) const {
        m.header = header;
        m.height = image.rows;
        m.width = image.cols;
        m.encoding = encoding;
        m.is_bigendian = 0;
        m.step = image.cols * image.elemSize();
        m.data.resize(static_cast<std::size_t>(m.step) * image.rows);
        for (int r = 0; r < image.rows; ++r) {
            std::memcpy(m.data.data() + static_cast<std::size_t>(r) * m.step, image.ptr(r), m.step);
        }
    }
    boost::shared_ptr<const void> tracked;
};
using CvImagePtr = boost::shared_ptr<CvImage>;
using CvImageConstPtr = boost::shared_ptr<const CvImage>;
inline CvImageConstPtr toCvShare(const sensor_msgs::ImageConstPtr& msg, const std::string& encoding = std::string()) {
    boost::shared_ptr<CvImage> c(new CvImage);
    c->header = msg->header;
    c->encoding = msg->encoding;
    const int type = getCvType(msg->encoding);
    c->image = cv::Mat(msg->height, msg->width, type, const_cast<unsigned char*>(msg->data.data()), msg->step);
    c->tracked = msg;
    if (!encoding.empty() && encoding != msg->encoding) {
        throw Exception("cv_bridge stand-in: conversion not supported");
    }
    return c;
}
inline CvImagePtr toCvCopy(const sensor_msgs::ImageConstPtr& msg, const std::string& encoding = std::string()) {
    boost::shared_ptr<CvImage> c(new CvImage(*toCvShare(msg, encoding)));
    c->image = c->image.clone();
    return c;
}
}

#pragma once
#include <pcl/PCLHeader.h>
#include <pcl/PCLImage.h>
#include <pcl/PCLPointCloud2.h>
#include <pcl/PCLPointField.h>
#include <pcl/conversions.h>
#include <pcl/point_cloud.h>
#include <ros/ros.h>
#include <sensor_msgs/PointCloud2.h>
#include <sensor_msgs/PointField.h>
#include <std_msgs/Header.h>
namespace pcl_conversions {
inline void fromPCL(const std::uint64_t& p, ros::Time& t) {
    t.fromNSec(p * 1000ULL);
}
inline void toPCL(const ros::Time& t, std::uint64_t& p) {
    p = t.toNSec() / 1000ULL;
}
inline ros::Time fromPCL(const std::uint64_t& p) {
    ros::Time t;
    fromPCL(p, t);
    return t;
}
inline std::uint64_t toPCL(const ros::Time& t) {
    std::uint64_t p;
    toPCL(t, p);
    return p;
}
inline void fromPCL(const pcl::PCLHeader& p, std_msgs::Header& h) {
    fromPCL(p.stamp, h.stamp);
    h.seq = p.seq;
    h.frame_id = p.frame_id;
}
inline void toPCL(const std_msgs::Header& h, pcl::PCLHeader& p) {
    toPCL(h.stamp, p.stamp);
    p.seq = h.seq;
    p.frame_id = h.frame_id;
}
inline std_msgs::Header fromPCL(const pcl::PCLHeader& p) {
    std_msgs::Header h;
    fromPCL(p, h);
    return h;
}
inline pcl::PCLHeader toPCL(const std_msgs::Header& h) {
    pcl::PCLHeader p;
    toPCL(h, p);
    return p;
}
inline void fromPCL(const pcl::PCLPointCloud2& p, sensor_msgs::PointCloud2& m) {
    fromPCL(p.header, m.header);
    m.height = p.height;
    m.width = p.width;
    m.fields.clear();
    for (const auto& f : p.fields) {
        sensor_msgs::PointField g;
        g.name = f.name;
        g.offset = f.offset;
        g.datatype = f.datatype;
        g.count = f.count;
        m.fields.push_back(g);
    }
    m.is_bigendian = p.is_bigendian;
    m.point_step = p.point_step;
    m.row_step = p.row_step;
    m.is_dense = p.is_dense;
    m.data.assign(p.data.begin(), p.data.end());
}
inline void toPCL(const sensor_msgs::PointCloud2& m, pcl::PCLPointCloud2& p) {
    toPCL(m.header, p.header);
    p.height = m.height;
    p.width = m.width;
    p.fields.clear();
    for (const auto& f : m.fields) {
        pcl::PCLPointField g;
        g.name = f.name;
        g.offset = f.offset;
        g.datatype = f.datatype;
        g.count = f.count;
        p.fields.push_back(g);
    }
    p.is_bigendian = m.is_bigendian;
    p.point_step = m.point_step;
    p.row_step = m.row_step;
    p.is_dense = m.is_dense;
    p.data.assign(m.data.begin(), m.data.end());
}
inline void moveFromPCL(pcl::PCLPointCloud2& p, sensor_msgs::PointCloud2& m) {
    fromPCL(p, m);
    p.data.clear();
}
inline void moveToPCL(sensor_msgs::PointCloud2& m, pcl::PCLPointCloud2& p) {
    toPCL(m, p);
    m.data.clear();
}
}
namespace pcl {
template<class T>
void toROSMsg(const pcl::PointCloud<T>& c, sensor_msgs::PointCloud2& m) {
    pcl::PCLPointCloud2 p;
    pcl::toPCLPointCloud2(c, p);
    pcl_conversions::fromPCL(p, m);
}
template<class T>
void fromROSMsg(const sensor_msgs::PointCloud2& m, pcl::PointCloud<T>& c) {
    pcl::PCLPointCloud2 p;
    pcl_conversions::toPCL(m, p);
    pcl::fromPCLPointCloud2(p, c);
}
}
namespace rosstub {
template<>
struct CloudOps<pcl::PCLPointCloud2> {
    static constexpr bool cloud = true;
    static std::shared_ptr<const pcl::PCLPointCloud2> to(const std::shared_ptr<const pcl::PCLPointCloud2>& p) {
        return p;
    }
    static std::shared_ptr<const pcl::PCLPointCloud2> from(const std::shared_ptr<const pcl::PCLPointCloud2>& p) {
        return p;
    }
};
template<class P>
struct CloudOps<pcl::PointCloud<P>> {
    static constexpr bool cloud = true;
    static std::shared_ptr<const pcl::PCLPointCloud2> to(const std::shared_ptr<const pcl::PointCloud<P>>& p) {
        auto c = std::make_shared<pcl::PCLPointCloud2>();
        pcl::toPCLPointCloud2(*p, *c);
        return c;
    }
    static std::shared_ptr<const pcl::PointCloud<P>> from(const std::shared_ptr<const pcl::PCLPointCloud2>& p) {
        std::shared_ptr<pcl::PointCloud<P>> c(new pcl::PointCloud<P>);
        pcl::fromPCLPointCloud2(*p, *c);
        return c;
    }
};
template<>
struct CloudOps<sensor_msgs::PointCloud2> {
    static constexpr bool cloud = true;
    static std::shared_ptr<const pcl::PCLPointCloud2> to(const boost::shared_ptr<const sensor_msgs::PointCloud2>& p) {
        auto c = std::make_shared<pcl::PCLPointCloud2>();
        pcl_conversions::toPCL(*p, *c);
        return c;
    }
    static boost::shared_ptr<const sensor_msgs::PointCloud2> from(const std::shared_ptr<const pcl::PCLPointCloud2>& p) {
        boost::shared_ptr<sensor_msgs::PointCloud2> c(new sensor_msgs::PointCloud2);
        pcl_conversions::fromPCL(*p, *c);
        return c;
    }
};
}

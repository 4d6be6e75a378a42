// A pcl::Registration whose result is prescribed: everything else (search trees, indices, limits) is PCL's own machinery.
#pragma once
#include <pcl/registration/registration.h>
#include <pcl/search/kdtree.h>
#include <pcl/registration/impl/registration.hpp>
template<typename PS, typename PT, typename Scalar = float>
class FixedRegistration : public pcl::Registration<PS, PT, Scalar> {
public:
    typedef pcl::Registration<PS, PT, Scalar> Base;
    typename Base::Matrix4 result = Base::Matrix4::Identity();
protected:
    void computeTransformation(typename Base::PointCloudSource&, const typename Base::Matrix4&) override {
        this->final_transformation_ = result; this->converged_ = true;
    }
};

// Interface of fast_gicp with a scripted result: the parameters are recorded, the alignment is answered by the harness.
#pragma once
#include <functional>
#include <pcl/common/transforms.h>
#include <pcl/registration/registration.h>
#include <pcl/search/kdtree.h>
#include <fast_gicp/gicp/gicp_settings.hpp>
namespace fast_gicp {
struct Call { pcl::PCLHeader source, target; std::size_t source_size, target_size; int iterations; Eigen::Matrix4f guess; };
// Answers the final transform of an alignment.
inline std::function<Eigen::Matrix4f(const Call&)>& script() { static std::function<Eigen::Matrix4f(const Call&)> f; return f; }
// Answers whether it converged.
inline std::function<bool(const Call&)>& verdict() { static std::function<bool(const Call&)> f; return f; }
template<typename PS, typename PT>
class LsqRegistration : public pcl::Registration<PS, PT, float> {
public:
    using Base = pcl::Registration<PS, PT, float>;
    using Ptr = pcl::shared_ptr<LsqRegistration<PS, PT>>;
    void setRotationEpsilon(double v) { rotation_epsilon = v; }
    void setInitialLambdaFactor(double v) { initial_lambda_factor = v; }
    void setDebugPrint(bool v) { debug_print = v; }
    double rotation_epsilon = 0, initial_lambda_factor = 0;
    bool debug_print = false;
protected:
    void computeTransformation(typename Base::PointCloudSource& output, const Eigen::Matrix4f& guess) override {
        const Call c{this->input_->header, this->target_->header, this->input_->size(), this->target_->size(), this->max_iterations_, guess};
        this->final_transformation_ = script() ? script()(c) : guess;
        this->converged_ = verdict() ? verdict()(c) : true;
        pcl::transformPointCloud(*this->input_, output, this->final_transformation_);
    }
};
}

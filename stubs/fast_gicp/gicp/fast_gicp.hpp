#pragma once
#include <fast_gicp/gicp/lsq_registration.hpp>
namespace fast_gicp {
template<typename PS, typename PT>
class FastGICP : public LsqRegistration<PS, PT> {
public:
    void setNumThreads(int n) { num_threads = n; }
    void setCorrespondenceRandomness(int k) { correspondence_randomness = k; }
    void setRegularizationMethod(RegularizationMethod m) { regularization_method = m; }
    int num_threads = 0, correspondence_randomness = 0;
    RegularizationMethod regularization_method = RegularizationMethod::NONE;
};
}

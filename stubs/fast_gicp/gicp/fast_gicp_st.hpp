#pragma once
#include <fast_gicp/gicp/fast_gicp.hpp>
namespace fast_gicp {
template<typename PS, typename PT> class FastGICPSingleThread : public FastGICP<PS, PT> {};
}

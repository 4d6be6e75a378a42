// Force-included when building the ROS parts: boost::make_shared yields the pointer type each message/cloud/factor class
// declares (boost for ROS messages and GTSAM, std for PCL >= 1.11), as ROS 1's own PCL (boost pointers) would.
#pragma once
#ifdef __cplusplus
#include <memory>
#include <functional>
#include <stdexcept>
#include <numeric>
#include <type_traits>
#include <vector>
#include <boost/shared_ptr.hpp>
#include <boost/smart_ptr/allocate_shared_array.hpp>
#define make_shared make_shared_boost_impl_
#include <boost/smart_ptr/make_shared_object.hpp>
#undef make_shared
#define BOOST_SMART_PTR_MAKE_SHARED_ARRAY_HPP_INCLUDED
namespace pcl { struct Correspondence; }
namespace rosstub {
template<class T>
struct is_std_ptr : std::false_type {};
template<class T>
struct is_std_ptr<std::shared_ptr<T>> : std::true_type {};
template<class T, class = void>
struct std_pointed : std::false_type {};
template<class T>
struct std_pointed<T, std::void_t<typename T::Ptr>> : is_std_ptr<typename T::Ptr> {};
template<class A>
struct std_pointed<std::vector<pcl::Correspondence, A>> : std::true_type {};
}
namespace boost {
template<class T, class... A>
auto make_shared(A&&... a) {
    if constexpr (rosstub::std_pointed<T>::value) {
        return std::make_shared<T>(std::forward<A>(a)...);
    } else {
        return boost::make_shared_boost_impl_<T>(std::forward<A>(a)...);
    }
}
}
#endif

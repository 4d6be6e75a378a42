// PCL >= 1.11 uses std::shared_ptr; parts of the project assign boost::make_shared to PCL pointers (ROS 1's PCL 1.8/1.10
// used boost). Same shim as the project's stand-alone build.
#pragma once
#ifdef __cplusplus
#include <memory>
namespace boost { using std::make_shared; }
#endif

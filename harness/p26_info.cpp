// Separate translation unit: the headers of the two nodes share an include guard.
#include "camera_tools/publish_info.hpp"
#include <memory>
std::shared_ptr<void> make_publish_info() { return std::make_shared<camera_tools::PublishInfo>(); }

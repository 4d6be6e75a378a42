#include <ros/ros.h>
#include <tf2_ros/buffer.h>

namespace rosstub {
std::function<void(double)> on_sleep;
std::function<bool()> ok_fn;
std::uint64_t now_ns = 1000000000ULL;
std::shared_ptr<void> (*hb_send)() = nullptr;
void (*hb_receive)(const std::shared_ptr<void>&) = nullptr;
void (*outside)(int) = nullptr;
static std::unique_ptr<Bus>& holder() {
    static std::unique_ptr<Bus> b = std::make_unique<Bus>();
    return b;
}
Bus& Bus::get() {
    return *holder();
}
void Bus::reset() {
    holder() = std::make_unique<Bus>();
    now_ns = 1000000000ULL;
    tf_table().clear();
}
std::ostream& null_stream() {
    static std::ostream s(nullptr);
    s.setstate(std::ios::badbit);
    return s;
}
std::map<std::pair<std::string, std::string>, TfFn>& tf_table() {
    static std::map<std::pair<std::string, std::string>, TfFn> t;
    return t;
}
}

// Stand-in for roscpp's time types: same arithmetic (sec/nsec pairs, nanosecond exact), virtual clock.
#pragma once
#include <cmath>
#include <cstdint>
#include <functional>
#include <iomanip>
#include <limits>
#include <ostream>
#include <stdexcept>
#include <string>

namespace rosstub {
extern std::function<void(double)> on_sleep;  // scheduling point
extern std::function<bool()> ok_fn;
extern std::uint64_t now_ns;
}

namespace ros {

class Duration;

namespace detail {
inline void split(std::int64_t ns, std::int64_t& s, std::int64_t& n) {
    s = ns / 1000000000LL;
    n = ns % 1000000000LL;
    if (n < 0) {
        n += 1000000000LL;
        --s;
    }
}
inline std::int64_t sec_to_ns(double t) {
    const std::int64_t s = static_cast<std::int64_t>(std::floor(t));
    const std::int64_t n = static_cast<std::int64_t>(std::round((t - s) * 1e9));
    return s * 1000000000LL + n;
}
}

class Duration {
public:
    std::int32_t sec{0}, nsec{0};
    Duration() {}
    Duration(std::int32_t s, std::int32_t n) {
        std::int64_t a, b;
        detail::split(s * 1000000000LL + n, a, b);
        sec = a;
        nsec = b;
    }
    explicit Duration(double t) {
        fromSec(t);
    }
    Duration& fromSec(double t) {
        return fromNSec(detail::sec_to_ns(t));
    }
    Duration& fromNSec(std::int64_t t) {
        std::int64_t a, b;
        detail::split(t, a, b);
        if (a > std::numeric_limits<std::int32_t>::max() || a < std::numeric_limits<std::int32_t>::min()) {
            throw std::runtime_error("Duration is out of dual 32-bit range");
        }
        sec = a;
        nsec = b;
        return *this;
    }
    double toSec() const {
        return static_cast<double>(sec) + 1e-9 * static_cast<double>(nsec);
    }
    std::int64_t toNSec() const {
        return static_cast<std::int64_t>(sec) * 1000000000LL + nsec;
    }
    bool isZero() const {
        return sec == 0 && nsec == 0;
    }
    bool sleep() const {
        if (rosstub::on_sleep) {
            rosstub::on_sleep(toSec());
        }
        return true;
    }
    Duration operator+(const Duration& r) const {
        return Duration().fromNSec(toNSec() + r.toNSec());
    }
    Duration operator-(const Duration& r) const {
        return Duration().fromNSec(toNSec() - r.toNSec());
    }
    Duration operator-() const {
        return Duration().fromNSec(-toNSec());
    }
    Duration operator*(double s) const {
        return Duration(toSec() * s);
    }
    Duration& operator+=(const Duration& r) {
        return *this = *this + r;
    }
    Duration& operator-=(const Duration& r) {
        return *this = *this - r;
    }
    Duration& operator*=(double s) {
        return *this = *this * s;
    }
    bool operator==(const Duration& r) const {
        return toNSec() == r.toNSec();
    }
    bool operator!=(const Duration& r) const {
        return !(*this == r);
    }
    bool operator<(const Duration& r) const {
        return toNSec() < r.toNSec();
    }
    bool operator>(const Duration& r) const {
        return r < *this;
    }
    bool operator<=(const Duration& r) const {
        return !(r < *this);
    }
    bool operator>=(const Duration& r) const {
        return !(*this < r);
    }
};
using WallDuration = Duration;

template<class Tag>
class TimeT {
public:
    std::uint32_t sec{0}, nsec{0};
    TimeT() {}
    TimeT(std::uint32_t s, std::uint32_t n) {
        fromNSec(static_cast<std::uint64_t>(s) * 1000000000ULL + n);
    }
    explicit TimeT(double t) {
        fromSec(t);
    }
    TimeT& fromSec(double t) {
        if (t < 0) {
            throw std::runtime_error("Time is out of dual 32-bit range");
        }
        return fromNSec(detail::sec_to_ns(t));
    }
    TimeT& fromNSec(std::uint64_t t) {
        const std::uint64_t s = t / 1000000000ULL;
        if (s > std::numeric_limits<std::uint32_t>::max()) {
            throw std::runtime_error("Time is out of dual 32-bit range");
        }
        sec = s;
        nsec = t % 1000000000ULL;
        return *this;
    }
    static TimeT now() {
        return TimeT().fromNSec(rosstub::now_ns);
    }
    double toSec() const {
        return static_cast<double>(sec) + 1e-9 * static_cast<double>(nsec);
    }
    std::uint64_t toNSec() const {
        return static_cast<std::uint64_t>(sec) * 1000000000ULL + nsec;
    }
    bool isZero() const {
        return sec == 0 && nsec == 0;
    }
    Duration operator-(const TimeT& r) const {
        return Duration().fromNSec(static_cast<std::int64_t>(toNSec()) - static_cast<std::int64_t>(r.toNSec()));
    }
    TimeT operator+(const Duration& d) const {
        const std::int64_t t = static_cast<std::int64_t>(toNSec()) + d.toNSec();
        if (t < 0) {
            throw std::runtime_error("Time is out of dual 32-bit range");
        }
        return TimeT().fromNSec(t);
    }
    TimeT operator-(const Duration& d) const {
        return *this + (-d);
    }
    TimeT& operator+=(const Duration& d) {
        return *this = *this + d;
    }
    TimeT& operator-=(const Duration& d) {
        return *this = *this - d;
    }
    bool operator==(const TimeT& r) const {
        return sec == r.sec && nsec == r.nsec;
    }
    bool operator!=(const TimeT& r) const {
        return !(*this == r);
    }
    bool operator<(const TimeT& r) const {
        return toNSec() < r.toNSec();
    }
    bool operator>(const TimeT& r) const {
        return r < *this;
    }
    bool operator<=(const TimeT& r) const {
        return !(r < *this);
    }
    bool operator>=(const TimeT& r) const {
        return !(*this < r);
    }
};
using Time = TimeT<struct time_tag>;
using WallTime = TimeT<struct wall_tag>;

template<class Tag>
std::ostream& operator<<(std::ostream& os, const TimeT<Tag>& t) {
    return os << t.sec << "." << std::setw(9) << std::setfill('0') << t.nsec;
}
inline std::ostream& operator<<(std::ostream& os, const Duration& d) {
    return os << d.toNSec() * 1e-9;
}

}

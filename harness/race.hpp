#pragma once
#include <cstdint>
namespace race {
// While it exists, unordered conflicting accesses of the scheduler's tasks are reported as violations.
struct Detector {
    Detector();
    ~Detector();
    std::uint64_t accesses() const, shared() const;
};
}

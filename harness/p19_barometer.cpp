// P19: pressure messages for the back end, for every placement and arrival of barometer measurements relative to the states.
#include "frontend_run.hpp"
using namespace fe;

namespace {
void check_pressures(const Run& r) {
    auto v = r.out<sensor_msgs::FluidPressure>("frontend/barometer");
    const auto& b = r.c.pressures;
    for (std::size_t k = 0; k < v.size(); ++k) {
        MC_CHECK(k < r.states.size(), "extra", v.size() << " pressures for " << r.states.size() << " states");
        const ns_t t = r.states[k].t;
        MC_CHECK(v[k]->header.stamp == stamp(t), "time", "pressure " << k << " is for " << v[k]->header.stamp.toNSec() - base_ns << " instead of " << t - base_ns);
        // piecewise linear in time, the first measurement before it
        double p = Run::pressure(0), var = Run::variance(0);
        for (std::size_t i = 0; i + 1 < b.size(); ++i) {
            if (b[i] > t || b[i + 1] < t) continue;
            const double f = static_cast<double>(t - b[i]) / static_cast<double>(b[i + 1] - b[i]);
            p = Run::pressure(i) * (1 - f) + Run::pressure(i + 1) * f;
            var = Run::variance(i) * (1 - f) + Run::variance(i + 1) * f;
        }
        MC_CHECK(std::fabs(v[k]->fluid_pressure - p) < 1e-3, "pressure", v[k]->fluid_pressure << " instead of " << p << " for state " << k);
        if (r.c.overwrite_pressure) var = 0.25;
        MC_CHECK(std::fabs(v[k]->variance - var) < 1e-5, "variance", v[k]->variance << " instead of " << var << " for state " << k);
    }
    MC_CHECK(v.size() == r.states.size(), "missing", v.size() << " pressures for " << r.states.size() << " states");
}
void finish(const Run& r) {
    check_pressures(r);
    mc::Hash h;
    for (auto& p : rosstub::Bus::get().log) h.add(p.topic);
    mc::state(h.h);
    mc::nontrivial(h.h);
}
// Measurements in [from, to), then enough of them to answer all states.
std::vector<ns_t> times(int before, ns_t step, ns_t offset, const Config& c) {
    std::vector<ns_t> t;
    const ns_t end = base_ns + c.clouds * period;
    for (int i = before; i > 0; --i) t.push_back(base_ns + offset - i * step);
    for (ns_t x = base_ns + offset; x < end; x += step) t.push_back(x);
    for (int k = 0; k < c.clouds; ++k) t.push_back(std::max(t.back(), end) + 10000000);
    return t;
}
}

// Every placement on a grid around the states, in order of arrival.
MC_FAMILY(placement) {
    Config c;
    c.barometer = true;
    c.clouds = 4;
    c.stereo = mc::flip("stereo");
    if (c.stereo) for (int k = 0; k < c.clouds - 1; ++k) c.patterns.push_back(mc::choose(3, "frames"));
    c.overwrite_pressure = mc::flip("overwrite variance");
    // any subset of the grid (at least one measurement), then the closing ones
    static const ns_t grid[] = {0, 37000000, 100000000, 120000000, 160000000, 200000000, 240000000};
    const bool early = mc::flip("measurement before the first state");
    if (early) c.pressures.push_back(base_ns - 15000000);
    for (ns_t g : grid) if (mc::flip("measurement")) c.pressures.push_back(base_ns + g);
    for (int k = 0; k < c.clouds; ++k) c.pressures.push_back(base_ns + c.clouds * period + k * 10000000);
    c.pressure_late = mc::choose(3, "latency") * 130000000;
    c.imu_period = 40000000;
    Run r(c);
    r.build(0, mc::flip("burst"));
    r.execute();
    finish(r);
}

// An input that arrives at any scheduling point of the callbacks and is handled at once by another thread.
MC_FAMILY(interrupts) {
    Config c;
    c.barometer = true;
    c.clouds = 3;
    c.stereo = mc::flip("stereo");
    if (c.stereo) c.patterns = {2, 0, 2, 1};
    c.backend = mc::choose(2, "back end");
    c.pressures = times(mc::choose(2, "measurements before"), mc::flip("fast") ? 30000000 : 70000000, mc::flip("offset") ? 0 : 17000000, c);
    c.pressure_late = mc::choose(2, "latency") * 180000000;
    c.imu_period = 40000000;
    const std::vector<std::string> topics{"/serpent/input/barometer", "/serpent/input/imu", "/serpent/formatter/formatted_pointcloud"};
    Run r(c);
    r.build(mc::thorough() ? 1 : 0, false);
    const std::string topic = mc::pick(topics, "topic");
    r.scene->interrupt(topic);
    r.execute();
    if (!r.scene->interrupted) mc::prune();
    finish(r);
}

// Delay-bounded schedules.
MC_FAMILY(schedules) {
    Config c;
    c.barometer = true;
    c.clouds = 3 + (mc::thorough() ? 1 : 0);
    c.stereo = mc::flip("stereo");
    if (c.stereo) c.patterns = {2, 0, 2, 1};
    c.backend = mc::choose(2, "back end");
    static const ns_t steps[] = {30000000, 70000000, 150000000};
    const ns_t step = steps[mc::choose(3, "period")];
    c.pressures = times(mc::choose(2, "measurements before"), step, mc::flip("offset") ? 0 : 17000000, c);
    c.pressure_late = mc::choose(4, "latency") * 90000000;
    c.imu_period = 40000000;
    Run r(c);
    r.build(mc::thorough() ? 2 : 1, mc::flip("burst"));
    r.execute();
    finish(r);
}

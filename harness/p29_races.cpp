// P29: no two callbacks of the program ever use the same data at the same time. The whole program runs as in P21, compiled with
// thread instrumentation; every pair of accesses that no lock, message or atomic orders is a violation, in every explored schedule.
#define RACES
#include "p21_loop.cpp"

// Every combination of factors and module options, in the default schedule.
MC_FAMILY(configurations) {
    Config c;
    configuration(c);
    c.imu_ms = 50;
    if (c.registration) { c.s2m = !mc::flip("no map registration"); c.unit = mc::flip("unit vectors"); }
    c.base_link = mc::flip("body is base_link");
    if (c.stereo) c.graph_frames = mc::flip("graph frames");
    c.late = mc::choose(5, "late") - 1;
    c.marginalise = mc::flip("marginalisation");
    if ((c.late == 1 && !c.stereo) || (c.late == 2 && !c.barometer)) mc::prune();
    Loop l(c);
    l.run();
}
// Interleavings of the callbacks.
MC_FAMILY(schedules) {
    Config c = scheduled();
    c.delays = mc::thorough() ? 2 : 1;
    c.clouds = 3;
    Loop l(c);
    l.run();
}
// An input that arrives early, at any scheduling point of the callbacks, and is handled at once by another thread.
MC_FAMILY(interrupts) {
    Config c = scheduled();
    c.threads = 5;
    std::vector<std::string> topics{"imu", "pointcloud"};
    if (c.stereo) topics.push_back("stereo/right/camera_info");
    if (c.barometer) topics.push_back("barometer");
    c.interrupt = "/serpent/input/" + mc::pick(topics, "topic");
    c.delays = mc::thorough() ? 1 : 0;
    Loop l(c);
    l.run();
}
// A service is called at any scheduling point.
MC_FAMILY(services) {
    Config c = scheduled();
    if (!c.registration) mc::prune();
    c.clouds = mc::thorough() ? 4 : 3;
    c.service = mc::flip("pose graph") ? "/serpent/publish_pose_graph" : "/serpent/publish_map";
    c.delays = mc::thorough() ? 1 : 0;
    Loop l(c);
    l.run();
}

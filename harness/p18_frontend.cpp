// P18: what the front end publishes, for every stream of sensor data and every schedule of its callbacks. The back end is
// scripted: it answers each new state with a known odometry and known biases.
#include "frontend_run.hpp"

using namespace fe;

// Every stream of stereo frames, IMU phase and configuration, in the order of arrival.
MC_FAMILY(streams) {
    Config c;
    c.stereo = mc::flip("stereo");
    if (c.stereo) {
        for (int k = 0; k < c.clouds - 1; ++k) c.patterns.push_back(mc::choose(5, "frames"));
        c.only_graph = mc::flip("only graph frames");
    } else {
        c.with_t = mc::flip("point times");
        c.deskew_rotation = mc::flip("deskew rotation");
        c.deskew_translation = mc::flip("deskew translation");
        c.ned = mc::flip("NED");
        c.orientation = mc::flip("orientation");
        c.overwrite = mc::flip("overwrite covariance");
    }
    c.base_link = mc::flip("body frame is base_link");
    c.imu_offset = mc::flip("IMU on the cloud stamps") ? 10000000 : 17000000;
    Run r(c);
    r.build(0, mc::flip("burst"));
    r.execute();
    r.check();
}

// Transport delays and delay-bounded schedules.
MC_FAMILY(schedules) {
    Config c;
    c.clouds = 3 + (mc::thorough() ? 1 : 0);
    c.stereo = mc::flip("stereo");
    if (c.stereo) {
        c.patterns = mc::flip("frames between clouds") ? std::vector<int>{2, 3, 1} : std::vector<int>{0, 2, 0};
        c.stereo_late = mc::choose(3, "stereo latency") * 90000000;
        c.backend = mc::flip("stereo back end") ? 2 : 0;
        if (c.backend == 2 && c.patterns[0] == 0) mc::prune();    // every state has a frame then
        c.only_graph = mc::flip("only graph frames");
    } else {
        c.backend = mc::choose(2, "back end");
    }
    c.imu_late = mc::choose(3, "IMU latency") * 90000000;
    c.imu_period = 40000000;
    Run r(c);
    r.build(mc::thorough() ? 2 : 1, mc::flip("burst"));
    r.execute();
    r.check();
}

// An input that arrives at any scheduling point of the callbacks and is handled at once by another thread.
MC_FAMILY(interrupts) {
    Config c;
    c.clouds = 3;
    c.stereo = mc::flip("stereo");
    if (c.stereo) {
        c.patterns = mc::flip("frames between clouds") ? std::vector<int>{2, 3, 1} : std::vector<int>{2, 0, 2};
        c.stereo_late = mc::flip("stereo latency") ? 90000000 : 0;
        c.only_graph = mc::flip("only graph frames");
    }
    c.backend = mc::choose(2, "back end");
    c.imu_late = mc::flip("IMU latency") ? 90000000 : 0;
    c.imu_period = 40000000;
    std::vector<std::string> topics{"/serpent/input/imu", "/serpent/formatter/formatted_pointcloud"};
    if (c.stereo) topics.push_back("/serpent/input/stereo/right/camera_info");
    const std::string topic = mc::pick(topics, "topic");
    Run r(c);
    r.build(mc::thorough() ? 1 : 0, false);
    r.scene->interrupt(topic);
    r.execute();
    if (!r.scene->interrupted) mc::prune();
    r.check();
}

// Shutdown at every scheduling point, with delay-bounded schedules: every callback in progress returns.
MC_FAMILY(shutdown) {
    Config c;
    c.clouds = 3;
    c.stereo = mc::flip("stereo");
    if (c.stereo) {
        c.patterns = {2, 0, 2};
        c.stereo_late = mc::choose(3, "stereo latency") * 90000000;
        c.only_graph = mc::flip("only graph frames");
    }
    c.imu_late = mc::choose(2, "IMU latency") * 180000000;
    c.imu_period = 40000000;
    Run r(c);
    r.build(mc::thorough() ? 2 : 1, mc::flip("burst"));
    r.scene->shutdown_at(mc::choose(150, "shutdown at scheduling point"));
    mc::transition();
    const auto stuck = r.scene->world.run();
    if (!r.scene->stopping) mc::prune();
    MC_CHECK(r.scene->world.error().empty(), "exception:" + r.scene->world.error(), "callback terminated the node: " << r.scene->world.error());
    std::string names;
    for (auto& s : stuck) names += " " + s;
    MC_CHECK(stuck.empty(), "shutdown", "not returning after shutdown:" << names);
    mc::Hash h;
    for (auto& p : rosstub::Bus::get().log) h.add(p.topic);
    mc::state(h.h);
    mc::evaluated(1);
}

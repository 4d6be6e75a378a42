#!/usr/bin/env python3
"""newseed.py <dir-with-seed.py>  -- helper used while planting: builds patch.diff from (file, old, new) edits."""
import json, os, shutil, subprocess, sys
REPO = os.environ.get("SERPENT_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def make(id, prop, edits, needs, breaks, demo_cpp, build, extra=None):
    d = os.environ.get("SEED_OUT", "/verif/seeded") + f"/{id}"; os.makedirs(d, exist_ok=True)
    for f, old, new in edits:
        p = REPO + "/" + f; s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", REPO, "diff"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", REPO, "checkout", "--", "."], check=True, capture_output=True)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.cpp", "w").write(demo_cpp)
    for n, c in (extra or {}).items():
        os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True); open(os.path.join(d, n), "w").write(c)
    open(d + "/demo.sh", "w").write(f"""#!/bin/bash
# exit 0: behaviour is right; non-zero: broken. Run with cwd = the repository.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w -DPCL_NO_PRECOMPILE -include functional -include stdexcept -I"$D" {build[0]} "$D/demo.cpp" {build[1]} -o "$T/demo" || exit 99
timeout 120 "$T/demo"
""")
CV = "-isystem /usr/include/opencv4 -isystem /usr/include/eigen3 -Iserpent/include"
EIG = "-isystem /usr/include/eigen3 -Ieigen_ext/include"
def make_ros(id, prop, edits, needs, breaks, demo_cpp, sources, libs, extra=None):
    """A seed whose demonstration needs ROS: the stand-in is copied beside it."""
    make(id, prop, edits, needs, breaks, demo_cpp, ("", ""), extra)
    d = os.environ.get("SEED_OUT", "/verif/seeded") + f"/{id}"
    shutil.rmtree(d + "/stubs", ignore_errors=True)
    shutil.copytree(HERE + "/stubs", d + "/stubs", ignore=shutil.ignore_patterns("__pycache__"))
    open(d + "/demo.sh", "w").write(f"""#!/bin/bash
# exit 0: behaviour is right; non-zero: broken. Run with cwd = the repository.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
PYTHONDONTWRITEBYTECODE=1 python3 -c "import sys; sys.path.insert(0, '$D/stubs'); import gen_msgs; gen_msgs.generate('.', '$D/stubs', '$T/msgs')" || exit 99
F="-std=c++17 -O1 -w -DPCL_NO_PRECOMPILE -include functional -include stdexcept -include $D/stubs/ros_compat.hpp -I$D -I$D/stubs -I$T/msgs"
for p in eigen_ext eigen_gtsam eigen_ros pointcloud_tools camera_tools imu_tools navigation_tools serpent; do F="$F -I$p/include"; done
F="$F -isystem /usr/include/eigen3 -isystem /usr/include/pcl-1.14 -isystem /usr/include/opencv4"
i=0; P=()
for f in "$D/demo.cpp" "$D/stubs/rosstub.cpp" {' '.join(sources)}; do i=$((i+1)); g++ $F -c "$f" -o "$T/$i.o" & P+=($!); done
for p in "${{P[@]}}"; do wait $p || exit 99; done
g++ "$T"/*.o {libs} -o "$T/demo" || exit 99
timeout 120 "$T/demo"
""")
ERS = ["eigen_ros/src/%s.cpp" % f for f in ("eigen_ros", "geometry_msgs", "imu", "nav_msgs", "odometry", "pose", "sensor_msgs", "std_msgs", "twist")]
BF = ["eigen_ros/src/body_frames.cpp", "eigen_ros/src/body_frames_tf.cpp"]

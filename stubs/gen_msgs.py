#!/usr/bin/env python3
"""Generates C++ message headers (as genmsg/gencpp would, structurally) from .msg/.srv files."""
import os, re, sys
PRIM = {"bool": "std::uint8_t", "int8": "std::int8_t", "uint8": "std::uint8_t", "byte": "std::int8_t", "char": "std::uint8_t",
        "int16": "std::int16_t", "uint16": "std::uint16_t", "int32": "std::int32_t", "uint32": "std::uint32_t",
        "int64": "std::int64_t", "uint64": "std::uint64_t", "float32": "float", "float64": "double",
        "string": "std::string", "time": "ros::Time", "duration": "ros::Duration"}

def body(name, pkg, text):
    incs, fields, inits, consts = set(), [], [], []
    for line in text.splitlines():
        line = line.split("#")[0].strip()
        if not line:
            continue
        m = re.match(r"(\S+)\s+(\w+)\s*=\s*(.*)", line)
        if m:
            consts.append(f"    static constexpr {PRIM[m[1]]} {m[2]} = {m[3]};")
            continue
        t, f = line.split()
        m = re.match(r"([\w/]+)(\[(\d*)\])?$", t)
        base, arr, n = m[1], m[2], m[3]
        if base in PRIM:
            ct = PRIM[base]
        else:
            if base == "Header":
                base = "std_msgs/Header"
            if "/" not in base:
                base = pkg + "/" + base
            incs.add(base)
            ct = base.replace("/", "::")
        if arr and n:
            ct2 = f"boost::array<{ct}, {n}>"
            if base in PRIM and base != "string":
                inits.append(f"        {f}.assign(0);")
        elif arr:
            ct2 = f"std::vector<{ct}>"
        else:
            ct2 = ct
            if base in PRIM and base not in ("string", "time", "duration"):
                ct2 = ct
                fields.append(f"    {ct2} {f}{{}};")
                continue
        fields.append(f"    {ct2} {f};")
    s = f"struct {name} {{\n" + "\n".join(consts + fields) + f"\n    {name}() {{\n" + "\n".join(inits) + "\n    }\n"
    s += f"    typedef boost::shared_ptr<{name}> Ptr;\n    typedef boost::shared_ptr<{name} const> ConstPtr;\n}};\n"
    return incs, s

HEAD = "// generated\n#pragma once\n#include <boost/array.hpp>\n#include <boost/shared_ptr.hpp>\n#include <ros/time.h>\n#include <string>\n#include <vector>\n"

def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    tmp = path + ".%d.tmp" % os.getpid()
    open(tmp, "w").write(text)
    os.replace(tmp, path)

def msg(out, pkg, name, text):
    incs, s = body(name, pkg, text)
    t = HEAD + "".join(f"#include <{i}.h>\n" for i in sorted(incs)) + f"namespace {pkg} {{\n{s}"
    t += f"typedef boost::shared_ptr<{name}> {name}Ptr;\ntypedef boost::shared_ptr<{name} const> {name}ConstPtr;\n}}\n"
    write(f"{out}/{pkg}/{name}.h", t)

def srv(out, pkg, name, text):
    a, b = text.split("---")
    i1, s1 = body("Request", pkg, a)
    i2, s2 = body("Response", pkg, b)
    t = HEAD + "".join(f"#include <{i}.h>\n" for i in sorted(i1 | i2))
    t += f"namespace {pkg} {{\nstruct {name} {{\n{s1}{s2}    Request request;\n    Response response;\n}};\n}}\n"
    write(f"{out}/{pkg}/{name}.h", t)

def generate(repo, here, out):
    text = open(os.path.join(here, "msgs", "standard.txt")).read()
    for blk in re.split(r"^=== ", text, flags=re.M)[1:]:
        head, _, rest = blk.partition("\n")
        pkg, name = head.strip().split("/")
        (srv if "---" in rest else msg)(out, pkg, name, rest)
    for pkg in ("serpent", "statistics_msgs", "eigen_ros", "pointcloud_tools"):
        for kind, fn in (("msg", msg), ("srv", srv)):
            d = os.path.join(repo, pkg, kind)
            if os.path.isdir(d):
                for f in sorted(os.listdir(d)):
                    if f.endswith("." + kind):
                        fn(out, pkg, f[:-4], open(os.path.join(d, f)).read())

if __name__ == "__main__":
    generate(sys.argv[1], os.path.dirname(os.path.abspath(__file__)), sys.argv[2])

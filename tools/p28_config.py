"""Writes the shipped configuration and the launch files' topic names as C++ tables (for harness/p28_programs.cpp)."""
import glob
import json
import os
import xml.etree.ElementTree as ET

import yaml


def value(v):
    if isinstance(v, bool):
        return "XmlRpc::XmlRpcValue(%s)" % ("true" if v else "false")
    if isinstance(v, int):
        return "XmlRpc::XmlRpcValue(%d)" % v
    if isinstance(v, float):
        return "XmlRpc::XmlRpcValue(static_cast<double>(%r))" % v
    if isinstance(v, str):
        return "XmlRpc::XmlRpcValue(%s)" % json.dumps(v)
    if isinstance(v, list):
        return "XmlRpc::XmlRpcValue::Array({%s})" % ", ".join(value(e) for e in v)
    if isinstance(v, dict):
        return "[] { auto s = XmlRpc::XmlRpcValue::Struct(); %s return s; }()" % " ".join("s[%s] = %s;" % (json.dumps(k), value(e)) for k, e in v.items())
    raise TypeError(v)


def leaves(prefix, v):
    if isinstance(v, dict):
        for k, e in v.items():
            yield from leaves(prefix + "/" + k if prefix else k, e)
    else:
        yield prefix, v


def write(repo, path):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    settings, frames = [], {}
    for f in sorted(glob.glob(os.path.join(repo, "serpent/config/*_default.yaml"))):
        d = yaml.safe_load(open(f)) or {}
        frames.update(d.pop("body_frames", {}))
        settings += list(leaves("", d))
    out = ["#pragma once", "#include <ros/ros.h>", "namespace p28 {",
           "inline const std::vector<std::pair<std::string, XmlRpc::XmlRpcValue>>& settings() {",
           "    static const std::vector<std::pair<std::string, XmlRpc::XmlRpcValue>> s{"]
    out += ["        {%s, %s}," % (json.dumps(n), value(v)) for n, v in settings]
    out += ["    };", "    return s;", "}", "inline XmlRpc::XmlRpcValue body_frames() { return %s; }" % value(frames),
            "struct Launch { std::string file, program; std::vector<std::string> from; };",
            "inline const std::vector<Launch>& remaps() {", "    static const std::vector<Launch> l{"]
    for f in sorted(glob.glob(os.path.join(repo, "serpent/launch/*.launch"))):
        for n in ET.parse(f).getroot().iter("node"):
            if n.get("pkg") == "serpent":
                out.append("        {%s, %s, {%s}}," % (json.dumps(os.path.basename(f)), json.dumps(n.get("type")), ", ".join(json.dumps(r.get("from")) for r in n.findall("remap"))))
    out += ["    };", "    return l;", "}", "}", ""]
    text = "\n".join(out)
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)

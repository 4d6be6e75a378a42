#!/usr/bin/env python3
"""check.py <PROPERTY> <quick|thorough> [--replay FILE]

Builds the harness of a property from /repo's current working tree, explores exhaustively, writes
evidence/<PROPERTY>.json, prints VIOLATION / KNOWN-FINDING lines. Exit 0: held; 1: violated; 2: check error."""
import concurrent.futures as cf
import hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from props import PROPS, REPO, TOOLCHAIN  # noqa: E402

BUILD = os.path.join(VERIF, "build")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def file_hash(path):
    try:
        with open(path, "rb") as f:
            return hashlib.sha256(f.read()).hexdigest()
    except OSError:
        return "missing"


def parse_deps(path):
    try:
        txt = open(path).read()
    except OSError:
        return None
    txt = txt.replace("\\\n", " ")
    return [t for t in txt.split(":", 1)[1].split() if t]


def compile_one(src, flags, objdir):
    """Compile src to an object, reusing it only when the command and the content of every dependency are unchanged."""
    name = hashlib.sha256((src + "|" + " ".join(flags)).encode()).hexdigest()[:20] + ".o"
    obj = os.path.join(objdir, name)
    dep, key = obj + ".d", obj + ".key"

    def digest():
        deps = parse_deps(dep)
        if deps is None:
            return None
        h = hashlib.sha256()
        for d in deps:
            if d.startswith(("/usr/", "/opt/")):
                continue
            h.update(d.encode()); h.update(file_hash(d).encode())
        return h.hexdigest()

    if os.path.exists(obj) and os.path.exists(key) and open(key).read() == digest():
        return obj, None
    cxx = TOOLCHAIN["cxx"]
    r = sh([cxx, *flags, "-MD", "-MF", dep, "-c", src, "-o", obj])
    if r.returncode != 0:
        return obj, f"compile of {src} failed:\n{r.stdout[-6000:]}"
    with open(key, "w") as f:
        f.write(digest() or "")
    return obj, None


def build(pid, p):
    objdir = os.path.join(BUILD, "obj")
    os.makedirs(objdir, exist_ok=True)
    flags = p["flags"]
    mc = [os.path.join(VERIF, "harness", "mc.cpp")]
    srcs = p["sources"] + mc if p.get("sources_first") else mc + p["sources"]
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda s: compile_one(s[0], s[1], objdir),
                          [(s, flags) if isinstance(s, str) else (s[0], flags + s[1]) for s in srcs]))
    errs = [e for _, e in res if e]
    if errs:
        return None, "\n".join(errs)
    exe = os.path.join(BUILD, pid + ".exe")
    r = sh([TOOLCHAIN["cxx"], "-o", exe, *[o for o, _ in res], *p["link"], *p["libs"]])
    if r.returncode != 0:
        return None, "link failed:\n" + r.stdout[-6000:]
    return exe, None


def env():
    e = dict(os.environ)
    e.update({"MALLOC_PERTURB_": "165", "GLIBC_TUNABLES": "glibc.malloc.tcache_count=0", "OMP_NUM_THREADS": "1", "LC_ALL": "C",
              "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0",
              "UBSAN_OPTIONS": "halt_on_error=1:exitcode=98:print_stacktrace=1"})
    return e


def main():
    if len(sys.argv) < 3:
        print(__doc__); return 2
    pid, tier = sys.argv[1], sys.argv[2]
    p = PROPS[pid](tier)
    t0 = time.time()
    exe, err = build(pid, p)
    if exe is None:
        print(f"CHECK-ERROR property={pid}: {err}")
        return 2
    t_build = time.time() - t0
    if tier == "build":
        return 0
    if "--replay" in sys.argv:
        rep = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        r = subprocess.run([exe, "--tier", rep.get("tier", tier), "--replay", rep["family"], rep["choices"]], env=env())
        return r.returncode
    work = os.path.join(BUILD, "run_" + pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    out = os.path.join(work, "result.json")
    limit = p.get("limit", 800 if tier == "quick" else 7200)
    cmd = [exe, "--tier", tier, "--out", out, "--jobs", str(p.get("jobs", 8)), "--budget", str(limit - 30)]
    try:
        r = sh(cmd, env=env(), cwd=work, timeout=limit)
    except subprocess.TimeoutExpired:
        print(f"CHECK-ERROR property={pid}: exploration exceeded {limit}s")
        return 2
    if r.returncode != 0 or not os.path.exists(out):
        print(f"CHECK-ERROR property={pid}: harness exit {r.returncode}\n{r.stdout[-4000:]}")
        return 2
    res = json.load(open(out))
    shutil.rmtree(work, ignore_errors=True)
    known = [k for k in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
             if k["property"] == pid and k["status"] == "known"]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    new, matched = [], {}
    for v in res["violations"]:
        k = next((k for k in known if k["key"] == v["key"]), None)
        if k:
            matched[k["key"]] = k
        else:
            new.append(v)
    cov = {
        "states": res["states"], "transitions": res["transitions"],
        "traces_validated_against_impl": res["executions"],
        "evaluations": res["evaluations"], "distinct_nontrivial": res["nontrivial"],
        "choice_tree_edges": res["tree_edges"], "pruned_executions": res["pruned"],
        "exhaustive": not res["truncated"],
        "rule": p["rule"], "bounds": p["bounds"][tier] if isinstance(p["bounds"], dict) else p["bounds"],
        "families": res["families"], "samples": res["samples"][:24],
    }
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": p["level"],
          "coverage": cov, "wall_s": round(time.time() - t0, 3), "violations": len(new),
          "assumptions": p["assumptions"],
          "build_s": round(t_build, 2), "explore_s": round(res["wall_s"], 2),
          "known_findings_seen": sorted(matched)}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in matched.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if new:
        seen = set()
        for i, v in enumerate(new):
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            rp = os.path.join(VERIF, "evidence", f"{pid}_violation_{len(seen)}.json")
            v["property"], v["tier"] = pid, tier
            with open(rp, "w") as f:
                json.dump(v, f, indent=1)
            print(f"VIOLATION property={pid} replay={os.path.relpath(rp, VERIF)}")
            print(f"  key={v['key']}: {v['msg'][:600]}")
            if len(seen) >= 8:
                break
        return 1
    if res["truncated"]:
        print(f"NOTE property={pid}: exploration truncated by the time budget (evidence says exhaustive: false)")
    print(f"OK property={pid} tier={tier} executions={res['executions']} states={res['states']} transitions={res['transitions']} "
          f"evaluations={res['evaluations']} nontrivial={res['nontrivial']} build={t_build:.1f}s explore={res['wall_s']:.1f}s")
    return 0


if __name__ == "__main__":
    sys.exit(main())

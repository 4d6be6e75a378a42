#!/usr/bin/env python3
"""mutate.py [PID...|all] [--only N,N]: apply each mutant of tools/mutants.py to a scratch copy of /repo, see whether the
repository's own tests notice it (where the sandbox builds the file), and whether the check of its property does.
Results are appended to /tmp/mutate.log; survivors are printed. Development aid only: no registered check uses it."""
import os, shutil, subprocess, sys, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutants
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("MUTDIR", "/tmp/mut")
CHK = W + "_verif"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    only = None
    for i, a in enumerate(sys.argv):
        if a == "--only": only = set(int(x) for x in sys.argv[i + 1].split(",")); args.remove(sys.argv[i + 1])
    shutil.rmtree(W, ignore_errors=True); shutil.rmtree(CHK, ignore_errors=True)
    sh(f"git -C /repo worktree prune; mkdir -p {W} && git -C /repo archive HEAD | tar -x -C {W}")
    sh(f"mkdir -p {CHK} && cd {V} && tar --exclude=./build --exclude=./.git --exclude=./seeded -c . | tar -x -C {CHK}")
    log = open("/tmp/mutate.log", "a"); surv = []
    for n, (pid, f, old, new) in enumerate(mutants.M):
        if args and "all" not in args and pid not in args: continue
        if only is not None and n not in only: continue
        p = f"{W}/{f}"; src = open(p).read()
        if src.count(old) != 1:
            print(f"#{n} {pid} {f}: pattern occurs {src.count(old)} times: {old[:60]!r}", flush=True); continue
        open(p, "w").write(src.replace(old, new))
        try:
            r = sh(f"cd {CHK} && timeout 900 python3 check.py {pid} quick", env=dict(os.environ, SERPENT_REPO=W, VERIF_SEED="1"))
        finally:
            open(p, "w").write(src)
        o = r.stdout + r.stderr
        v = [l for l in o.splitlines() if "VIOLATION" in l][:1]
        st = "killed" if r.returncode == 1 and v else ("SURVIVED" if r.returncode == 0 else f"rc={r.returncode}")
        if st == "killed" and ("build" in v[0].lower() or "compile" in o.lower()[:3000]): st = "killed?build"
        det = ""
        if v:
            i = o.splitlines().index(v[0]); det = " | ".join(o.splitlines()[i:i + 2])[:200]
        elif st != "SURVIVED": det = o[-300:].replace("\n", " ")
        line = f"#{n} {pid} {st} {f}: {old.strip()[:50]!r} -> {new.strip()[:50]!r}  {det}"
        print(line, flush=True); log.write(line + "\n"); log.flush()
        if st != "killed": surv.append(n)
    print("not killed:", surv)
    shutil.rmtree(W, ignore_errors=True); shutil.rmtree(CHK, ignore_errors=True)
main()

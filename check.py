#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property on /repo's current tree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vf
import checks

def main():
    pid = sys.argv[1]
    if pid == "--setup":
        return setup()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    c = vf.Check(pid, tier, seed)
    try:
        return checks.CHECKS[pid](c)
    except vf.CheckError as e:
        print("CHECK-ERROR property=%s: %s" % (pid, e), file=sys.stderr)
        return 2
    finally:
        import shutil
        shutil.rmtree(c.scratch, ignore_errors=True)

def setup():
    """nothing to install: every check compiles /repo's sources itself; this only verifies the toolchain"""
    import subprocess, tempfile
    with tempfile.TemporaryDirectory() as d:
        src = os.path.join(d, "t.cpp")
        open(src, "w").write("#include <uv.h>\n#include <openssl/ssl.h>\nint main(){return uv_version()==0;}\n")
        for v in ("asan", "tsan", "plain"):
            fl = [f for f in vf.VARIANTS[v]]
            r = subprocess.run([vf.CXX] + vf.COMMON + fl + [src, "-o", os.path.join(d, "t")] + vf.LIBS)
            if r.returncode or subprocess.run([os.path.join(d, "t")]).returncode:
                print("toolchain cannot build or run the %s variant" % v)
                return 2
    print("setup ok")
    return 0

sys.exit(main())

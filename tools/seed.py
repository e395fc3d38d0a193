#!/usr/bin/env python3
"""Development tool: validate a planted bug (seeded/<id>) in a scratch worktree.
   seed.py check ID...   demo on clean tree, demo on patched tree, build + stable tests on patched tree
   seed.py demo ID...    only the two demo runs"""
import json, os, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W, B = "/tmp/sw", "/tmp/swb"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def worktree():
    if not os.path.isdir(W): sh("git -C /repo worktree add --detach %s HEAD" % W)
    sh("git -C %s checkout -q --detach $(git -C /repo rev-parse HEAD) && git -C %s checkout -q -- ." % (W, W))
def demo(i):
    p = sh("timeout 300 bash %s/seeded/%s/demo.sh" % (R, i), cwd=W); return p.returncode, p.stdout.decode()[-300:]
def build():
    c = sh("""export HOME=/root CC=/usr/bin/gcc CXX=/usr/bin/g++
/opt/cmake-venv/bin/cmake -Wno-dev -S %s -B %s -G Ninja -DCMAKE_BUILD_TYPE=Release -DBUILD_TESTING=ON -DWITH_BOOST=ON -DWITH_HDF5=ON -DBUILD_EXAMPLES=ON -DBUILD_TUTORIALS=ON -DBUILD_COMMANDLINE=ON -DBUILD_CONVERTER=ON -DCMAKE_DISABLE_FIND_PACKAGE_VIGRA=ON && ninja -C %s -j 8 src/unittest/all""" % (W, B, B))
    if c.returncode: return False, c.stdout.decode()[-800:]
    t = sh("/usr/bin/ctest --test-dir %s -j 8 --timeout 120" % B); o = t.stdout.decode()
    return "100% tests passed" in o, o[-400:]
for i in sys.argv[2:]:
    worktree(); d = "%s/seeded/%s" % (R, i); ok = True
    a = demo(i); ap = sh("git -C %s apply %s/patch.diff" % (W, d))
    if ap.returncode: print(i, "PATCH DOES NOT APPLY", ap.stdout.decode()); continue
    b = demo(i)
    print(i, "clean", a[0], "patched", b[0], "OK" if a[0] == 0 and b[0] != 0 else "BAD " + a[1] + b[1])
    if sys.argv[1] == "check":
        s, o = build(); print(i, "build+tests", "OK" if s else "BAD\n" + o)
    sys.stdout.flush(); worktree()

#!/usr/bin/env python3
"""show.py SCRIPT [LN...]: run a saved scenario and print its events (optionally only those of the given script lines)."""
import sys, os, subprocess, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/lib"); import post
s = os.path.abspath(sys.argv[1]); lns = set(map(int, sys.argv[2:]))
d = V + "/.build/drv"
if not os.path.exists(d + "/driver"): subprocess.check_call([V + "/lib/build.sh", d])
subprocess.call([d + "/driver", s, "/tmp/show.raw", "60"], env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1"))
with open("/tmp/show.raw", errors="replace") as f, open("/tmp/show.nd", "w") as g: post.convert(f, g)
L = open(s).read().split("\n")
for l in open("/tmp/show.nd"):
    e = json.loads(l)
    if not lns or e["ln"] in lns:
        print(l.strip()[:3000])

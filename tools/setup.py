#!/usr/bin/env python3
"""Nothing is kept between checks; this only finds out that what they need is there."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import lb
w = tempfile.mkdtemp(prefix="lbsetup.")
try:
    lb.build_shim(w)
    t = lb.Tlc(w)
    r = t.explore([lb.session("setup", lb.lines("PRINT 1"))])
    if len(r) != 1 or r[0]["out"] != ">  1 \n> ":
        sys.exit("the specification does not work here: %r" % r)
    print("ready: %d states" % t.states)
finally:
    shutil.rmtree(w, ignore_errors=True)

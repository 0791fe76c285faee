#!/usr/bin/env python3
"""Checks that the tools the checks need are there; builds nothing that is kept
(every check compiles its harnesses from /repo's tree as it then is)."""
import shutil, subprocess, sys, tempfile, os
bad = [t for t in ("g++", "clang++", "python3") if not shutil.which(t)]
if bad: sys.exit("missing: " + " ".join(bad))
with tempfile.TemporaryDirectory() as d:
    src = os.path.join(d, "a.cpp"); open(src, "w").write("#include <vector>\nint main(){std::vector<int> v(3); return v[0];}\n")
    for cxx in ("g++", "clang++"):
        for san in ("address,undefined", "thread"):
            subprocess.run([cxx, "-std=c++20", "-fsanitize=" + san, src, "-o", d + "/a"], check=True)
            subprocess.run([d + "/a"], check=True)
print("ok")

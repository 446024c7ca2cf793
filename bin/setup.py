#!/usr/bin/env python3
"""Checks that the tools the monitors need are there; the checks themselves build everything from /repo."""
import os, shutil, subprocess, sys, tempfile
bad = [t for t in ("clang++-18", "python3") if not shutil.which(t)]
d = tempfile.mkdtemp()
try:
    src = os.path.join(d, "t.cpp")
    open(src, "w").write("#include <Eigen/Dense>\nint main(){Eigen::MatrixXd a=Eigen::MatrixXd::Identity(3,3);return a.rows()-3;}\n")
    for flags in (["-fsanitize=address,undefined"], ["-fsanitize=thread"]):
        exe = os.path.join(d, "t")
        if subprocess.call(["clang++-18", "-std=c++14", "-isystem", "/usr/include/eigen3"] + flags + [src, "-o", exe]) or subprocess.call([exe]):
            bad.append(" ".join(flags))
finally:
    shutil.rmtree(d)
print("setup: " + ("missing " + ", ".join(bad) if bad else "ok"))
sys.exit(1 if bad else 0)

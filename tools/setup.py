#!/usr/bin/env python3
"""Setup: nothing is prebuilt (every check builds from /repo's working tree); this only checks the tools."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(V, "build"), exist_ok=True)
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
src = os.path.join(V, "build", "setup.cpp")
open(src, "w").write("int main() { return 0; }\n")
for cxx, flags in (("g++", ["-fsanitize=address,undefined"]), ("g++", ["-fsanitize=thread"]), ("clang++", ["-fsanitize=address,undefined"])):
    if subprocess.run([cxx] + flags + [src, "-o", src + ".out"]).returncode or subprocess.run([src + ".out"]).returncode:
        sys.exit("setup: %s %s does not work" % (cxx, flags))
print("setup: ok")

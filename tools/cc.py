#!/usr/bin/env python3
"""compile a demonstration against the library built in <cwd>/_build, with the flags of the project's own programs"""
import sys, os, re, subprocess
src, out = sys.argv[1:3]
d = os.path.join(os.getcwd(), "_build")
txt = open(os.path.join(d, "build.ninja")).read()
inc = re.search(r"INCLUDES = (.*)", txt).group(1)
libs = re.search(r"build teufel: .*?LINK_LIBRARIES = (.*?)\n", txt, re.S).group(1)
libs = re.sub(r"(?<!\S)libTEUFELlib\.a", os.path.join(d, "libTEUFELlib.a"), libs).replace("-Wl,-Bstatic", "").replace("-Wl,-Bdynamic", "")
cmd = "g++ -std=c++14 -O1 -w -fpermissive -fopenmp -pthread %s %s -I%s/src %s -o %s %s" % (" ".join(sys.argv[3:]), inc, os.getcwd(), src, out, libs)
sys.exit(subprocess.call(cmd, shell=True))

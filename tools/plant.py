#!/usr/bin/env python3
"""plant.py ID PROPERTY FILE  (reads the change and the demonstration from a spec module)
usage: plant.py SPEC.py   SPEC defines ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (C++ text)
Writes seeded/ID and tries it: demo before/after in a scratch copy, and the property's check against the copy."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# builds the demonstration against the freshly built library and runs it
exec python3 - "$(cd "$(dirname "$0")" && pwd)" <<'P'
import subprocess, sys, tempfile
d = sys.argv[1]
R = "/repo"
with tempfile.TemporaryDirectory() as t:
    B = R + "/_build/lib/nikfemm"
    r = subprocess.run(["g++", "-std=c++20", "-O1", "-w", "-I" + R + "/lib/nikfemm/src", "-I" + R + "/lib/nikfemm/include", d + "/demo.cpp", "-o", t + "/demo", "-L" + B, "-lnikfemm", "-Wl,-rpath," + B])
    if r.returncode:
        sys.exit(3)
    try:
        sys.exit(1 if subprocess.run([t + "/demo"], timeout=200, cwd=t).returncode else 0)
    except subprocess.TimeoutExpired:
        sys.exit(4)
P
'''
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    d = "%s/seeded/%s" % (V, ns["ID"])
    os.makedirs(d, exist_ok=True)
    T = "/tmp/plant_" + ns["ID"]
    shutil.rmtree(T, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", T])
    for f, a, b in ns["EDITS"]:
        p = T + "/lib/nikfemm/src/" + f
        s = open(p).read()
        assert s.count(a) == 1, (f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", T, "diff"], text=True))
    open(d + "/demo.cpp", "w").write(ns["DEMO"])
    cv = ["-DNIKFEMM_USE_OPENCV", "-I/usr/include/opencv4"] if ns.get("OPENCV") else []
    lib = "$(pkg-config --libs opencv4)" if cv else ""
    open(d + "/demo.sh", "w").write(SH.replace('"-w", ', '"-w", ' + "".join('"%s", ' % x for x in cv)))
    os.chmod(d + "/demo.sh", 0o755)
    # the demonstration against the library built from the unpatched and the patched sources
    from concurrent.futures import ThreadPoolExecutor as TP
    for what, src in (("unchanged", "/repo"), ("patched", T)):
        o = "/tmp/plant_demo_" + ns["ID"]
        os.makedirs(o, exist_ok=True)
        S = src + "/lib/nikfemm"
        fs = subprocess.check_output(["find", S + "/src", "-name", "*.cpp"], text=True).split() + [d + "/demo.cpp"]
        def cc(f):
            return subprocess.run(["g++", "-std=c++20", "-O1", "-w", "-mavx"] + cv + ["-I" + S + "/src", "-I" + S + "/include", "-c", f, "-o", o + "/" + str(abs(hash(f))) + ".o"]).returncode
        with TP(8) as p:
            rcs = list(p.map(cc, fs))
        r = subprocess.run("g++ %s/*.o -o %s/demo %s && cd %s && timeout 200 ./demo >/dev/null 2>&1; echo $?" % (o, o, lib, o), shell=True, stdout=subprocess.PIPE, text=True)
        print(ns["ID"], "demo", what, "compile errors" if any(rcs) else "", r.stdout.strip())
        shutil.rmtree(o)
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    r = subprocess.run([sys.executable, V + "/run.py", "check", ns["PROP"]], env=dict(os.environ, NK_REPO=T, NK_BUILD="/tmp/plant_build_" + ns["ID"]), stdout=subprocess.PIPE, text=True)
    print(ns["ID"], ns["PROP"], "check rc", r.returncode, r.stdout[-700:])
    shutil.rmtree(T)
    shutil.rmtree("/tmp/plant_build_" + ns["ID"], ignore_errors=True)
main()

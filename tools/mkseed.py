#!/usr/bin/env python3
"""Assembles and confirms a planted bug.  mkseed.py SPEC.py [...]
SPEC.py defines ID, PROP, EDITS=[(file, old, new)], DEMO (C++), NEEDS, BREAKS,
APP (an application, or None for a program that needs no ROS), SRCS (repo sources)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FL = "-std=c++17 -w -fno-access-control -O1 -DBOOST_NO_CXX11_VARIADIC_TEMPLATES -DENABLE_MSF_TIMING -DBOOST_ALLOW_DEPRECATED_HEADERS -I/usr/include/eigen3"


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def demo(d):
    with tempfile.TemporaryDirectory(prefix="sd") as t:
        shutil.copytree(d, t + "/x", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        r = sh("bash %s/x/demo.sh" % t, cwd="/repo", timeout=300)
        return r.returncode, r.stdout[-1500:]


def main(spec):
    g = {"APP": None, "SRCS": None}
    exec(open(spec).read(), g)
    d = os.path.join(V, "seeded", g["ID"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo is not clean"
    w = tempfile.mkdtemp(prefix="seedw")
    try:
        sh("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x" % (w, w))
        for f, a, b in g["EDITS"]:
            s = open(w + "/" + f).read()
            assert s.count(a) == 1, "%s: %d occurrences of %r" % (f, s.count(a), a)
            open(w + "/" + f, "w").write(s.replace(a, b))
        open(d + "/patch.diff", "w").write(sh("git diff", cwd=w).stdout)
    finally:
        shutil.rmtree(w)
    base = ""
    for l in open(d + "/patch.diff"):
        if l.startswith("--- a/"):
            base = sh("git -C /repo show a25a4f2:" + l[6:].strip())
            base = base.stdout.splitlines()
        elif l.startswith("-") and l[1:].strip() and l[1:].rstrip("\n") not in base:
            print("NOT AN ORIGINAL LINE:", l.rstrip())
    if g.get("PYDEMO"):
        open(d + "/demo.py", "w").write(g["PYDEMO"].lstrip())
        open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0: behaves; nonzero: broken\nPYTHONDONTWRITEBYTECODE=1 exec timeout 120 python3 "$(dirname "$0")/demo.py"\n')
        json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        return confirm(g, d)
    open(d + "/demo.cc", "w").write(g["DEMO"].lstrip())
    srcs = g["SRCS"] if g["SRCS"] is not None else ["msf_timing/src/Timer.cc", "msf_core/src/lib/msf_tools.cc", "msf_core/src/lib/falsecolor.cc", "msf_core/src/lib/gps_conversion.cc"] + (["msf_updates/src/msf_distort/PoseDistorter.cc"] if g["APP"] else [])
    fl = FL
    pre = ""
    shutil.copytree(V + "/stubs", d + "/ros/stubs")
    shutil.copytree(V + "/msgs", d + "/ros/msgs")
    os.makedirs(d + "/ros/tools")
    shutil.copy(V + "/tools/gen_ros.py", d + "/ros/tools/")
    shutil.copy(V + "/tools/seedkit/mini.h", d + "/ros/stubs/")
    pre = 'python3 "$here/ros/tools/gen_ros.py" /repo "$tmp/gen" > /dev/null\n'
    fl += " -I$tmp/gen -I$here/ros/stubs" + (" -DAPP_" + g["APP"] if g["APP"] else "")
    fl += "".join(" -I/repo/" + i for i in ("msf_core/include", "msf_updates/include", "msf_timing/include", "msf_updates/src"))
    comp = "".join("clang++ %s -c /repo/%s -o $tmp/o%d.o &\n" % (fl, s, i) for i, s in enumerate(srcs))
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0: behaves; nonzero: broken\nhere=$(cd "$(dirname "$0")" && pwd)\ntmp=$(mktemp -d)\ntrap "rm -rf $tmp" EXIT\n%s%sclang++ %s -c "$here/demo.cc" -o $tmp/d.o || exit 3\nwait\nclang++ $tmp/*.o -o $tmp/demo -lglog -lpthread || exit 3\ncd $tmp && timeout 120 ./demo > out.txt 2> err.txt\nrc=$?\ngrep -a WRONG err.txt | head -3\nexit $rc\n' % (pre, comp, fl))
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    return confirm(g, d)


def confirm(g, d):
    rc0, o0 = demo(d)
    if rc0 != 0:
        print(g["ID"], "DEMO FAILS ON CLEAN TREE", rc0, o0)
        return 1
    r = sh("git -C /repo apply --check %s/patch.diff && git -C /repo apply %s/patch.diff" % (d, d))
    try:
        assert r.returncode == 0, r.stdout
        rc1, o1 = demo(d)
        t = sh("bash /opt/vp/test.sh /tmp/seed_out.json")
        ok = "timing::timing" in json.load(open("/tmp/seed_out.json")).get("passed", [])
        c = ""
        if rc1 not in (0, 3) and ok and os.environ.get("NOCHECK") is None:
            q = sh("python3 %s/run_check.py %s quick" % (V, g["PROP"]), cwd=V)
            c = "check exit %d: %s" % (q.returncode, q.stdout.strip()[:300].replace("\n", " | "))
    finally:
        sh("git -C /repo checkout -- .")
    print(g["ID"], g["PROP"], "demo with patch: rc", rc1, o1.strip()[:200], "| tests", "pass" if ok else "FAIL", "|", c)
    return 0 if rc1 not in (0, 3) and ok else 1


sys.exit(max([main(s) for s in sys.argv[1:]]))

#!/usr/bin/env python3
"""Development tool: make /verif/seeded/<id> from a specification file and confirm it in a scratch copy.
usage: seed.py SPEC.py   SPEC defines  seeds = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo='C++ body')]"""
import json, os, shutil, subprocess, sys, runpy
SC, REPO, V = "/tmp/sc", "/repo", "/verif"
FL = ["-std=c++20", "-O1", "-DXSIMD_ENABLE_XTL_COMPLEX=1"]


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, stdin=subprocess.DEVNULL, **k)


def main():
    seeds = runpy.run_path(sys.argv[1])["seeds"]
    only = sys.argv[2:]
    if not os.path.isdir(SC):
        sh("git clone -q %s %s" % (REPO, SC))
    sh("cd %s && git fetch -q && git reset -q --hard origin/HEAD && git pull -q" % SC)
    if not os.path.exists(SC + "/_build/build.ninja"):
        print(sh("""cmake -S {0} -B {0}/_build -G Ninja -DCMAKE_C_COMPILER=/usr/bin/gcc -DCMAKE_CXX_COMPILER=/usr/bin/g++ -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS_RELWITHDEBINFO="-O1" -DCMAKE_CXX_FLAGS=-Wno-error -DCMAKE_CXX_STANDARD=20 -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DCMAKE_DISABLE_FIND_PACKAGE_ALSA=ON -DDSPBB_BUILD_EXAMPLES=OFF -DDSPBB_BUILD_BENCHMARKS=OFF""".format(SC)).stdout[-300:])
    for s in seeds:
        if only and s["id"] not in only:
            continue
        d = os.path.join(V, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        sh("git -C %s checkout -q -- ." % SC)
        ok = True
        with open(d + "/demo.cpp", "w") as f:
            f.write(s["demo"])
        with open(d + "/demo.sh", "w") as f:
            f.write("""#!/bin/bash
# run with the repository as working directory; exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++20 -O1 -w -DXSIMD_ENABLE_XTL_COMPLEX=1 -Iinclude -isystem /usr/include/eigen3 %s "$here/demo.cpp" -o "$t/demo" || exit 2
timeout 100 "$t/demo"
""" % s.get("flags", ""))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        r0 = sh("cd %s && bash %s/demo.sh" % (SC, d))
        if r0.returncode != 0:
            print(s["id"], "demo FAILS on unchanged tree", r0.returncode, r0.stdout[-600:]); ok = False
        for f, a, b in s["edits"]:
            p = os.path.join(SC, "include/dspbb", f)
            t = open(p).read()
            if t.count(a) != 1:
                print(s["id"], "edit matches", t.count(a), "times:", a[:80]); ok = False
            open(p, "w").write(t.replace(a, b, 1))
        open(d + "/patch.diff", "w").write(sh("git -C %s diff" % SC).stdout)
        r1 = sh("cd %s && bash %s/demo.sh" % (SC, d))
        if r1.returncode in (0, 2):
            print(s["id"], "demo does not fail with patch", r1.returncode, r1.stdout[-500:]); ok = False
        if ok:
            b = sh("ninja -C %s/_build UnitTest" % SC)
            if b.returncode != 0:
                print(s["id"], "build failed", b.stdout[-800:]); ok = False
            else:
                t = sh("cd /tmp && timeout 300 %s/_build/bin/UnitTest --rng-seed 1 --order decl 2>&1 | tail -60" % SC)
                if "All tests passed" not in t.stdout:
                    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
                    x = sh("cd /tmp && timeout 300 %s/_build/bin/UnitTest --rng-seed 1 --order decl --reporter xml > /tmp/seedt.xml" % SC)
                    import xml.etree.ElementTree as ET
                    try:
                        bad = [c.get("name") for c in ET.parse("/tmp/seedt.xml").getroot().iter("TestCase") if c.find("OverallResult").get("success") != "true"]
                    except Exception as e:
                        bad = ["crash %s" % e]
                    bad = [b for b in bad if b in stable or b.startswith("crash")]
                    if bad:
                        print(s["id"], "TESTS FAIL:", bad[:6]); ok = False
        print(s["id"], "OK" if ok else "REJECTED", "demo:", r1.stdout.strip()[-150:], flush=True)
        if not ok:
            os.makedirs("/tmp/seed/rejected", exist_ok=True)
            shutil.rmtree("/tmp/seed/rejected/" + s["id"], ignore_errors=True)
            shutil.move(d, "/tmp/seed/rejected/" + s["id"])
    sh("git -C %s checkout -q -- ." % SC)


if __name__ == "__main__":
    main()

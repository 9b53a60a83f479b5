"""Creates and confirms the planted bugs: plant.py [ids].  Works in scratch copies under /tmp."""
import os, sys, subprocess, json, shutil
V = "/verif/seeded"; H = os.path.dirname(os.path.abspath(__file__))
BUGS = []


def bug(id, prop, edits, needs, breaks, demo, flags=""):
    BUGS.append((id, prop, edits, needs, breaks, demo, flags))


exec(open(H + "/bugs.py").read())

SH = """#!/bin/bash
# exit 0: the property holds on this input; run with cwd /repo
H=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
ls src/*.cpp "$H/demo.cpp" | xargs -P 8 -I{} sh -c 'g++ -std=gnu++17 -DNDEBUG -w %s -Iinclude -Isrc -I"'"$H"'" -c "{}" -o "'"$T"'/$(basename {} .cpp).o"' || exit 2
g++ %s "$T"/*.o -o "$T/demo" || exit 2
cd "$T" && timeout 60 ./demo
"""


def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


ids = sys.argv[1:]
W = "/tmp/plant"
shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
stable = None
sh("cp -a /repo %s/clean" % W)
for id, prop, edits, needs, breaks, demo, flags in BUGS:
    if ids and id not in ids: continue
    d = "%s/%s" % (V, id); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    R = W + "/clean"
    sh("git checkout -q -- . && git clean -qfd src", cwd=R)
    for f, a, b in edits:
        p = "%s/src/%s" % (R, f); t = open(p).read()
        if t.count(a) < 1: print(id, "EDIT NOT FOUND in", f, repr(a[:60])); break
        T = isinstance(b, tuple); i = t.rfind(a) if T else t.find(a)
        nb = b[1] if T else b
        t = t[:i] + nb + t[i + len(a):]
        open(p, "w").write(t)
    else:
        open(d + "/patch.diff", "w").write(subprocess.run("git diff", shell=True, cwd=R, stdout=subprocess.PIPE, text=True).stdout)
        open(d + "/demo.cpp", "w").write('#include "demo.h"\n' + demo.strip() + "\n")
        shutil.copy(H + "/demo.h", d)
        open(d + "/demo.sh", "w").write(SH % (flags, flags)); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        r0 = sh("bash %s/demo.sh" % d, cwd="/repo")
        r1 = sh("bash %s/demo.sh" % d, cwd=R)
        # build and tests of the patched tree
        sh("cd /repo && git diff --quiet && git apply %s/patch.diff" % d)
        try:
            b = sh("bash /opt/vp/build.sh")
            t = sh("bash /opt/vp/test.sh %s/out.json" % W)
        finally:
            sh("git -C /repo checkout -- .")
        res = json.load(open(W + "/out.json")) if os.path.exists(W + "/out.json") else {}
        base = json.load(open("/opt/vp/BASELINE.json"))
        names = base.get("stable") or base.get("tests") or base
        passed = res.get("passed", res)
        missing = [n for n in (names if isinstance(names, list) else names.get("passed", [])) if n not in passed]
        print(id, prop, "clean", r0.returncode, "patched", r1.returncode, "build", b.returncode, "tests missing", missing[:4])
        if r0.returncode or not r1.returncode: print(r0.stdout[-1500:], r1.stdout[-600:])
        sys.stdout.flush()
shutil.rmtree(W, ignore_errors=True)
sh("bash /opt/vp/build.sh")

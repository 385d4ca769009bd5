#!/opt/veriftools/pyvenv/bin/python3
"""seed.py NAME...: confirms planted bugs of seeds.py in a scratch copy of /repo
(builds, passes the tests, demo passes before and fails after), writes them to
/verif/seeded/NAME and runs the property's check on the patched copy."""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
W = os.environ.get("SEED_W", "/tmp/sr")
R = W + "/repo"
DEMO = """#!/bin/bash
# exit 0: the property holds on the demonstrated input
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++14 -O1 -w -Iinclude -isystem /usr/include/eigen3 "$here/demo.cpp" _build/libfes.a -lpthread -o "$tmp/demo" || exit 3
cd "$tmp" && timeout 120 ./demo
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def prepare():
    if not os.path.isdir(R):
        os.makedirs(W + "/vp", exist_ok=True)
        sh("cp -a /repo %s; mv %s/_build %s/_build.old; rm -rf %s/_build.old" % (R, R, W, W))
        for f in ("build.sh", "test.sh", "env.sh", "results.py"):
            t = open("/opt/vp/" + f).read().replace("/repo", R).replace("/opt/vp/build.sh", W + "/vp/build.sh").replace(
                "/opt/vp/env.sh", W + "/vp/env.sh")
            open(W + "/vp/" + f, "w").write(t)
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    if sh("git -C %s rev-parse HEAD" % R).stdout.strip() != head:
        shutil.rmtree(W)
        return prepare()
    sh("git -C %s checkout -q -- include src" % R)


def tests():
    r = sh("bash %s/vp/test.sh %s/out.json" % (W, W))
    try:
        o = json.load(open(W + "/out.json"))
    except Exception:
        return r.stdout[-2000:]
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = base["stable"]
    bad = [x for x in want if x not in o["passed"]]
    return None if not bad else str(bad)[:500] + r.stdout[-1500:]


def demo(d):
    r = sh("bash %s/demo.sh" % d, cwd=R)
    return r.returncode, r.stdout[-300:]


def main():
    sys.path.insert(0, HERE)
    from seeds import SEEDS
    prepare()
    e = tests()
    if e:
        sys.exit("base: " + e)
    for name in sys.argv[1:] or [s for s in SEEDS if not os.path.isdir(os.path.join(VERIF, "seeded", s))]:
        s = SEEDS[name]
        d = W + "/seed-" + name
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/demo.sh", "w").write(DEMO)
        open(d + "/demo.cpp", "w").write(s["demo"])
        os.chmod(d + "/demo.sh", 0o755)
        prepare()
        e = tests()
        rc0, out0 = demo(d)
        if rc0:
            print(name, "DEMO FAILS ON BASE", rc0, out0)
            continue
        ok = True
        for f, old, new in s["edits"]:
            t = open(R + "/" + f).read()
            if t.count(old) != 1:
                print(name, "edit matches", t.count(old), "times in", f)
                ok = False
                break
            open(R + "/" + f, "w").write(t.replace(old, new))
        if not ok:
            continue
        open(d + "/patch.diff", "w").write(sh("git -C %s diff -- include src" % R).stdout)
        e = tests()
        if e:
            print(name, "TESTS FAIL", e[-700:])
            continue
        rc1, out1 = demo(d)
        if not rc1 or rc1 == 3:
            print(name, "DEMO DOES NOT FAIL", rc1, out1)
            continue
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        out = os.path.join(VERIF, "seeded", name)
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        c = sh("./check.py %s" % s["property"], cwd=VERIF, env=dict(os.environ, VF_REPO=R))
        v = [x for x in c.stdout.splitlines() if "VIOLATION" in x or x.startswith("  ")]
        print(name, s["property"], "CAUGHT" if c.returncode == 1 else "MISSED rc=%d" % c.returncode,
              "|", (v[1] if len(v) > 1 else c.stdout[-200:])[:170])
    prepare()


main()

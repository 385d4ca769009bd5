#!/opt/veriftools/pyvenv/bin/python3
"""refactor.py [NAME...]: applies the behaviour-preserving edits of refactors.py to
a copy of /repo and runs the checks they may disturb, which have to stay quiet."""
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
W = os.environ.get("REF_W", "/tmp/rf")
sys.path.insert(0, HERE)
from refactors import REF
for name in sys.argv[1:] or REF:
    props, edits = REF[name]
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    for d in ("include", "src"):
        shutil.copytree("/repo/" + d, W + "/" + d)
    bad = False
    for f, old, new in edits:
        t = open(W + "/" + f).read()
        m = list(re.finditer("\\n(?:[ ]*//.*\\n)*".join(re.escape(x) for x in old.split("\n")), t))
        if len(m) != 1:
            print(name, f, "edit matches", len(m), "times", old[:60])
            bad = True
            break
        open(W + "/" + f, "w").write(t[:m[0].start()] + new + t[m[0].end():])
    if bad:
        continue
    for p in [] if os.environ.get("REF_DRY") else props:
        t0 = time.time()
        c = subprocess.run([VERIF + "/check.py", p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=dict(os.environ, VF_REPO=W))
        print(name, p, "rc=%d" % c.returncode, "%.0fs" % (time.time() - t0), "" if c.returncode == 0 else c.stdout[-600:], flush=True)
shutil.rmtree(W, ignore_errors=True)

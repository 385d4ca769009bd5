import sys, glob, subprocess, json, os
sys.path.insert(0,'/verif')
os.environ.setdefault("VF_CACHE","/verif/.cache")
import check, concurrent.futures as cf
from engine.symx import Engine
h, entry = sys.argv[1:3]
opts = json.loads(sys.argv[3]) if len(sys.argv)>3 else {}
os.makedirs(f"/tmp/p/dbg{os.getpid()}", exist_ok=True)
B = check.Build(f"/tmp/p/dbg{os.getpid()}", cf.ThreadPoolExecutor(8))
bc = B.bitcode([h])
E = Engine(bc, dict(opts))
E.run(entry)
print(E.stats, [(v.kind,v.msg,v.inputs) for v in E.viol][:12], E.undecided[:5], E.reached, E.events)
import shutil; shutil.rmtree(f"/tmp/p/dbg{os.getpid()}")

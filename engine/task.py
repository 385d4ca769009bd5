"""Runs one symbolic task in its own process:
   python3-vt -m engine.task BITCODE ENTRY OPTS_JSON OUT_JSON"""
import json
import resource
import sys
import time
import traceback


def main():
    bc, entry, opts, out = sys.argv[1:5]
    opts = json.loads(opts)
    resource.setrlimit(resource.RLIMIT_AS, (opts.get("mem_gb", 10) << 30,) * 2)
    sys.setrecursionlimit(20000)
    t0 = time.time()
    if opts.get("budget_s"):
        opts["deadline"] = t0 + opts["budget_s"]
    r = dict(entry=entry, viol=[], undecided=[], reached={}, witness=[], stats={}, functions=[], error=None)
    E = None
    try:
        import z3
        z3.set_param("smt.random_seed", int(opts.get("seed", 1)) & 0xffff)
        from engine.symx import Engine
        E = Engine(bc, opts)
        E.run(entry)
    except MemoryError:
        r["error"] = "memory"
    except Exception as e:  # noqa
        r["error"] = "%s: %s" % (type(e).__name__, e)
        r["trace"] = traceback.format_exc()[-3000:]
    if E is not None:
        r["viol"] = [dict(kind=v.kind, msg=v.msg, inputs=v.inputs, alts=v.alts, where=v.where, open=v.open) for v in E.viol]
        r["undecided"] = [(m, w) for m, w in E.undecided]
        r["reached"] = E.reached
        r["witness"] = E.witness
        r["stats"] = E.stats
        r["events"] = E.events
        r["functions"] = sorted({f.name for f in E.fns.values() if f.used and not f.decl})
    r["wall_s"] = time.time() - t0
    json.dump(r, open(out, "w"))


main()

#!/opt/veriftools/pyvenv/bin/python3
"""Decides one property: python3-vt check.py PROPERTY [--tier quick|thorough] [--only ENTRY] [-v]

Encodes /repo's current source (clang LLVM IR), executes the harnesses of the
property symbolically, lets z3 decide every assertion, and replays
counterexamples against a native build of the same source.
"""
import argparse
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402

BCF = ("-std=c++14 -O2 -DNDEBUG -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -DEIGEN_DONT_VECTORIZE "
       "-D_GLIBCXX_EXTERN_TEMPLATE=0 -fno-math-errno -ffp-contract=off -Wno-everything").split()
INC = ["-I%s/include" % REPO, "-I%s" % os.path.join(HERE, "harness"), "-isystem", "/usr/include/eigen3"]
NATF = "-std=c++14 -O1 -g1 -fno-omit-frame-pointer -w".split()
ASAN = "-fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=vptr".split()
TSAN = ["-fsanitize=thread"]


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True,
                          errors="replace", **kw)


def lib_sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "src/library")):
        out += [os.path.join(d, f) for f in fs if f.endswith(".cpp")]
    return sorted(out)


def tree_hash(extra):
    h = hashlib.sha256()
    for root in ("include", "src/library"):
        for d, ds, fs in sorted(os.walk(os.path.join(REPO, root))):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:24]


class Build:
    def __init__(self, scratch, pool):
        self.dir = scratch
        self.pool = pool
        cache = os.environ.get("VF_CACHE")
        self.cache = None
        if cache:
            self.cache = os.path.join(cache, tree_hash((BCF, NATF, ASAN, TSAN)))
            os.makedirs(self.cache, exist_ok=True)

    def cc(self, comp, flags, src, tag):
        """compile one file (cached by content when VF_CACHE is set)"""
        name = os.path.basename(src) + "." + tag
        if self.cache:
            key = hashlib.sha256(open(src, "rb").read() + open(os.path.join(HERE, "harness/vf.h"), "rb").read()
                                 + repr((comp, flags)).encode()).hexdigest()[:16]
            hd = os.path.join(HERE, "harness")
            for f in sorted(os.listdir(hd)):
                if f.endswith((".h", ".inc")):
                    key += hashlib.sha256(open(os.path.join(hd, f), "rb").read()).hexdigest()[:4]
            out = os.path.join(self.cache, key + name)
            if os.path.exists(out):
                return out
        else:
            out = os.path.join(self.dir, hashlib.sha1(src.encode()).hexdigest()[:8] + name)
        tmp = out + ".%d.tmp" % os.getpid()
        r = sh([comp] + flags + INC + ["-c", src, "-o", tmp])
        if r.returncode:
            raise RuntimeError("compile %s failed:\n%s" % (src, r.stdout[-3000:]))
        os.rename(tmp, out)
        return out

    def bitcode(self, harnesses):
        # the harnesses first: their copy of an inline function is the one kept
        srcs = [os.path.join(HERE, "harness", h + ".cpp") for h in harnesses]
        srcs += lib_sources() + [os.path.join(HERE, "harness", "rt.cpp")]
        futs = [self.pool.submit(self.cc, "clang++-18", BCF + ["-emit-llvm"], s, "bc") for s in reversed(srcs)]
        bcs = [f.result() for f in futs]
        out = os.path.join(self.dir, "all.bc")
        r = sh(["llvm-link-18", "-o", out] + bcs[::-1])
        if r.returncode:
            raise RuntimeError("llvm-link failed:\n" + r.stdout[-3000:])
        return out

    def native(self, harness, san, tag, hwc):
        flags = NATF + san
        srcs = [os.path.join(HERE, "harness", harness + ".cpp")] + lib_sources()
        futs = [self.pool.submit(self.cc, "g++", flags, s, tag + ".o") for s in srcs]
        futs.append(self.pool.submit(self.cc, "g++", flags + (["-DVF_HWC"] if hwc else []),
                                     os.path.join(HERE, "harness/native.cpp"), tag + ("h" if hwc else "") + ".o"))
        objs = [f.result() for f in futs]
        out = os.path.join(self.dir, "nat-%s-%s" % (harness, tag))
        wrap = ["-Wl,--wrap=" + w for w in sorted(set(re.findall(r"__wrap_(\w+)", open(os.path.join(HERE, "harness", harness + ".cpp")).read())))]
        r = sh(["g++"] + san + wrap + ["-rdynamic", "-o", out] + objs + ["-ldl", "-lpthread"])
        if r.returncode:
            raise RuntimeError("native link failed:\n" + r.stdout[-3000:])
        return out


def run_native(exe, entry, inputs, d, timeout=60):
    fd, path = tempfile.mkstemp(dir=d, suffix=".val")
    with os.fdopen(fd, "w") as f:
        for n, v in inputs:
            f.write("%s %s\n" % (n.replace(" ", "_"), repr(v)))
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=0:abort_on_error=0",
               UBSAN_OPTIONS="print_stacktrace=1", TSAN_OPTIONS="exitcode=66")
    try:
        r = sh([exe, entry, path], timeout=timeout, env=env, cwd=d)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return -99, "TIMEOUT"


def reproduced(kind, rc, out):
    if kind == "check":
        return "VF_FAIL" in out
    if kind == "uncaught":
        return "VF_FAIL" in out or (rc not in (0, 77) and rc != -99)
    if kind == "race":
        return "ThreadSanitizer: data race" in out or "VF_FAIL" in out
    return rc not in (0, 77)          # memory, arith, ub, terminate: sanitizer report, signal or failed check


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VF_JOBS", "8")))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = PROPS[a.prop]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vf-%s-" % a.prop)
    rc = 0
    try:
        rc = decide(a, P, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def decide(a, P, seed, t0, scratch):
    budget = P.get("budget", 420) if a.tier == "quick" else P.get("thorough_budget", 5400)
    hard = t0 + budget
    tasks = [t for t in P["tasks"] if a.tier == "thorough" or t.get("tier", "quick") == "quick"]
    if a.only:
        tasks = [t for t in tasks if a.only in (t["entry"], t.get("name"))]
    harnesses = sorted({t["harness"] for t in tasks})
    pool = cf.ThreadPoolExecutor(a.jobs)
    B = Build(scratch, pool)
    problems = []
    results = []
    natives = {}
    try:
        bc = B.bitcode(harnesses)
    except RuntimeError as e:
        bc = None
        problems.append(str(e))
    tb = time.time() - t0

    def run(k, t):
        o = dict(t.get("opts", {}))
        if a.tier == "thorough":
            o.update(t.get("thorough_opts", {}))
        o["seed"] = seed
        left = hard - time.time()
        if left < 5:
            return dict(entry=t["entry"], viol=[], undecided=[("time budget exhausted before start", [])], reached={},
                        witness=[], stats={}, functions=[], error=None, wall_s=0)
        o["budget_s"] = min(o.get("budget_s", 1e9), left)
        out = os.path.join(scratch, "t%d.json" % k)
        try:
            r = sh([sys.executable, "-m", "engine.task", bc, t["entry"], json.dumps(o), out], cwd=HERE,
                   timeout=o["budget_s"] + 60)
            if os.path.exists(out):
                return json.load(open(out))
            err = "task died rc=%s %s" % (r.returncode, r.stdout[-400:])
        except subprocess.TimeoutExpired:
            err = "hard timeout"
        return dict(entry=t["entry"], viol=[], undecided=[], reached={}, witness=[], stats={}, functions=[], error=err, wall_s=0)

    if bc:
        order = sorted(range(len(tasks)), key=lambda k: -tasks[k].get("cost", 1))
        with cf.ThreadPoolExecutor(max(1, a.jobs - (2 if len(tasks) < a.jobs else 0))) as tp:
            futs = {k: tp.submit(run, k, tasks[k]) for k in order}
            # native builds (for replay and translator validation) run alongside
            nb = {h: None for h in harnesses}
            for h in harnesses:
                hwc = any(t["harness"] == h and t.get("opts", {}).get("hwc") == "sym" for t in tasks)
                try:
                    nb[h] = B.native(h, ASAN, "asan", hwc)
                except RuntimeError as e:
                    problems.append(str(e))
            natives = nb
            results = [futs[k].result() for k in range(len(tasks))]

    known = []
    kf = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(kf):
        known = [json.loads(x) for x in open(kf) if x.strip()]
    known = [k for k in known if k["property"] == a.prop and k.get("status", "known") == "known"]
    viols, inconclusive, knownhit = [], [], []
    witn = dict(replayed=0, agreed=0, disagreed=[])
    undis = list(problems)
    tot = {}
    fns = set()
    rep_dir = os.path.join(HERE, "evidence", "replay")
    for t, r in zip(tasks, results):
        nm = t.get("name", t["entry"])
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
        fns |= set(r["functions"])
        if r["error"]:
            undis.append("%s: %s" % (nm, r["error"]))
        for m, w in r["undecided"]:
            undis.append("%s: %s" % (nm, m) + (" @ " + " < ".join(w[::-1][:4]) if a.v and w else ""))
        for tag in t.get("reach", []):
            if tag not in r["reached"]:
                undis.append("%s: never reached '%s' (vacuous)" % (nm, tag))
        exe = natives.get(t["harness"])
        seen = {}
        for v in r["viol"]:
            key = (v["kind"], v["msg"])
            if seen.get(key, 0) >= (16 if v.get("open") else 6) or any(x[2] == key for x in viols if x[0] == nm):
                continue
            seen[key] = seen.get(key, 0) + 1
            kn = next((k for k in known if k["entry"] == t["entry"] and k["msg"] in v["msg"]), None)
            if kn:
                if kn not in knownhit:
                    knownhit.append(kn)
                    print("KNOWN-FINDING: property=%s %s" % (a.prop, kn["what"]))
                continue
            ok = False
            ex = exe
            if v["kind"] == "race":
                try:
                    ex = B.native(t["harness"], TSAN, "tsan", t.get("opts", {}).get("hwc") == "sym")
                except RuntimeError as e:
                    ex = None
            for inp in ([v["inputs"]] + v.get("alts", [])) if ex else []:
                c, out = run_native(ex, t["entry"], inp, scratch)
                if reproduced(v["kind"], c, out):
                    ok = True
                    break
            if not ok and v.get("open"):
                continue
            if not ok:
                inconclusive.append(dict(task=nm, kind=v["kind"], msg=v["msg"], inputs=v["inputs"][:12]))
                if a.v:
                    print("not reproduced:", nm, v["kind"], v["msg"], v["inputs"][:12], v["where"])
                continue
            os.makedirs(rep_dir, exist_ok=True)
            rp = os.path.join(rep_dir, "%s-%d.txt" % (a.prop, len(viols)))
            with open(rp, "w") as f:
                f.write("# property %s task %s\n# %s: %s\n# path: %s\n# native replay: rc=%s\n%s\n# inputs\n" % (
                    a.prop, nm, v["kind"], v["msg"], " > ".join(v["where"]), c,
                    "".join("#   " + x + "\n" for x in out.splitlines()[:15])))
                for n, x in inp:
                    f.write("%s %r\n" % (n.replace(" ", "_"), x))
            viols.append((nm, rp, key))
            print("VIOLATION property=%s replay=%s" % (a.prop, rp))
            print("  %s: %s [%s] %s" % (nm, v["msg"], v["kind"], dict(inp[:8])))
        if exe:
            for w in r["witness"][:t.get("wit", 4)]:
                c, out = run_native(exe, t["entry"], w, scratch)
                witn["replayed"] += 1
                if c == 0 and "VF_END" in out:
                    witn["agreed"] += 1
                else:
                    witn["disagreed"].append(dict(task=nm, rc=c, out=out[-300:], inputs=w[:8]))
    dem = demangle(fns)
    core = [f for f in dem if "fes::" in f and not f.startswith("std::") and not f.startswith("Eigen::")]
    und_c = {}
    for u in undis:
        und_c[u] = und_c.get(u, 0) + 1
    for i in inconclusive:
        k = "%s: %s: counterexample did not replay natively" % (i["task"], i["msg"])
        und_c[k] = und_c.get(k, 0) + 1
    obligations = tot.get("checks", 0)
    ev = dict(property=a.prop, tier=a.tier, seed=seed, level=P.get("level", "other"), wall_s=round(time.time() - t0, 2),
              violations=len(viols),
              coverage=dict(
                  explanation=P["explain"], bounds=P["bounds"],
                  assertions_evaluated=obligations, assertions_with_symbolic_operands=tot.get("checks_sym", 0),
                  paths=tot.get("paths", 0), llvm_instructions=tot.get("instrs", 0),
                  solver_queries=tot.get("queries", 0), solver_unsat=tot.get("unsat", 0), solver_sat=tot.get("sat", 0),
                  solver_unknown=tot.get("unknown", 0), solver_s=round(tot.get("solver_s", 0), 2), build_s=round(tb, 2),
                  undischarged=[dict(what=k, times=v) for k, v in sorted(und_c.items())][:60],
                  native_witness_replays=witn["replayed"], native_witness_agree=witn["agreed"],
                  native_witness_disagree=witn["disagreed"][:5],
                  functions_encoded=len(core), functions=core[:200],
                  tasks=[dict(entry=t.get("name", t["entry"]), wall_s=round(r.get("wall_s", 0), 2), paths=r["stats"].get("paths", 0),
                              checks=r["stats"].get("checks", 0), reached=r["reached"], events=r.get("events", {}))
                         for t, r in zip(tasks, results)],
                  samples=[w for r in results for w in r["witness"][:1]][:4]),
              assumptions=P.get("assume", []))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d tasks, %d paths, %d assertions (%d symbolic), %d queries, solver %.1fs, undischarged %d, witness %d/%d, "
          "wall %.1fs" % (a.prop, a.tier, len(tasks), tot.get("paths", 0), obligations, tot.get("checks_sym", 0),
                          tot.get("queries", 0), tot.get("solver_s", 0), sum(und_c.values()), witn["agreed"], witn["replayed"],
                          time.time() - t0))
    if a.v:
        for k, v in und_c.items():
            print("  undischarged x%d: %s" % (v, k))
        for d in witn["disagreed"][:8]:
            print("  witness disagreement:", d)
        for t, r in zip(tasks, results):
            print("   ", t.get("name", t["entry"]), round(r.get("wall_s", 0), 1), r["stats"].get("paths"), r["stats"].get("checks"),
                  r["reached"], r.get("events"))
            if r.get("trace"):
                print(r["trace"])
    return 1 if viols else 0


def demangle(names):
    if not names:
        return []
    r = subprocess.run(["c++filt"], input="\n".join(sorted(names)), text=True, stdout=subprocess.PIPE)
    return [x[:160] for x in r.stdout.splitlines()]


if __name__ == "__main__":
    main()

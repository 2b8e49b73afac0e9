#!/usr/bin/env python3
"""Decide one property by symbolic execution of nvc's real code.

usage: run.py PROPERTY [--tier quick|thorough] [--unit NAME] [-v]

Every unit of the property is a harness linked with all of nvc (instrumented
from /repo's current sources); the engine explores every path that the
symbolic inputs can take and has an SMT solver decide every check on every
path.  Exit 0: all units held on everything explored.  Exit 1: a violation,
confirmed by a concrete re-run.  Exit 2: the check itself could not give an
answer.
"""
import argparse, json, os, re, resource, shutil, subprocess, sys, tempfile, time
import importlib.util, glob, hashlib
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build

VERIF = build.VERIF
HARNESS = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")
LIMIT = "LIMIT: "
BUDGET = {"quick": 780.0, "thorough": 5 * 3600.0}

class Unit:
    """One exploration.
    c        harness C sources (relative to harness/)
    vhdl     VHDL sources for vhdl.c, analysed in order into WORK
    top      top-level entity
    std      VHDL standard
    ana, elab, run, glob   extra command-line options
    args     replaces the whole nvc command line
    exit     expected exit status of nvc (None: any)
    env      extra environment
    defs     extra -D for the C sources
    reach    REACH labels that must be hit
    time     limit in seconds (quick), ttime (thorough)
    """
    def __init__(self, name, c=("vhdl.c",), vhdl=(), top=None, std="2008",
                 ana="", elab="", run="", glob="", args=None, exit=0, env=None,
                 defs=(), tdefs=None, reach=(), time=120, ttime=3600,
                 tier="quick", bounds="", tbounds="", lib=None, jobs=8,
                 child=120, query_ms=20000, max_paths=2000000, gen=None,
                 verilog=(), min_checks=1, telab=None, raw=False, files=(), native=()):
        self.__dict__.update({k: v for k, v in locals().items()
                              if k != "self"})

def load_units():
    sys.path.insert(0, HARNESS)
    spec = importlib.util.spec_from_file_location(
        "units", os.path.join(HARNESS, "units.py"))
    m = importlib.util.module_from_spec(spec)
    m.Unit = Unit
    spec.loader.exec_module(m)
    return m

def preload(lib, std):
    v = {"1993": "93", "2000": "93", "2002": "93", "2008": "08",
         "2019": "19"}[std]
    def mk(t):
        src = t + ".c"
        with open(src, "w") as f:
            f.write('#include "rt/rt.h"\n'
                    'const unsigned __nvc_abi_version = RT_ABI_VERSION;\n')
        build.run(["gcc", "-shared", "-fPIC", "-w", *build.DEFS, *build.INCS,
                   "-o", t, src])
        os.unlink(src)
    build.into(f"{lib}/preload{v}.so", mk)

def build_unit(b, u, tier):
    defs = list(u.defs)
    if tier == "thorough" and u.tdefs is not None:
        defs = list(u.tdefs)
    objs, keys = [], []
    fl = ["clang", *build.SYMFLAGS, f"-fpass-plugin={b['so']}", *build.WARN,
          *build.DEFS, "-I", build.SYMX, "-I", HARNESS, *build.INCS,
          *[f"-D{d}" for d in defs]]
    hdrs = b"".join(build.rd(f) for f in sorted(glob.glob(HARNESS + "/*.h")))
    os.makedirs(f"{build.B}/h", exist_ok=True)
    hh = b.setdefault("hh", build.header_hash())
    for s in u.c:
        p = os.path.join(HARNESS, s)
        k = build.h(build.rd(p), hdrs, hh, b["engine"], " ".join(defs))
        o = f"{build.B}/h/{os.path.basename(s)[:-2]}-{k}.o"
        build.into(o, lambda t: build.run([*fl, "-c", "-x", "c", p, "-o", t]))
        objs.append(o)
    for s in u.native:
        p = os.path.join(HARNESS, s)
        k = build.h(build.rd(p), hdrs, hh, " ".join(defs))
        o = f"{build.B}/h/{os.path.basename(s)[:-2]}-n{k}.o"
        build.into(o, lambda t: build.run(["gcc", "-O1", *build.WARN, *build.DEFS,
                   "-I", build.SYMX, "-I", HARNESS, *build.INCS,
                   *[f"-D{d}" for d in defs], "-c", "-x", "c", p, "-o", t]))
        objs.append(o)
    sym = [o for r, o in sorted(b["sym"].items())]
    k = build.h(*objs, *sym, b["rt"])
    exe = f"{build.B}/h/x-{k}"
    build.into(exe, lambda t: build.run(
        ["clang", "-fuse-ld=" + LD, "-o", t, *objs, *sym, b["rt"],
         *build.SYMLIBS]))
    return exe

LD = "lld" if os.path.exists(build.LLVM + "/bin/ld.lld") else \
     "gold" if shutil.which("ld.gold") else "bfd"

def unit_env(b, u, tmp, tier, replay=None):
    lib = b["libs"][u.std]
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(("NVC_", "SYMX_", "SX_"))
           or k.startswith("SYMX_TRACE")}
    env.update(NVC_LIBPATH=lib, NVC_JIT_THRESHOLD="0", NVC_MAX_THREADS="1",
               NVC_COLORS="never", TERM="dumb", HOME=tmp, TMPDIR=tmp,
               LANG="C.UTF-8", LC_ALL="C.UTF-8", TZ="UTC",
               SX_HARNESS=HARNESS, SX_TMP=tmp)
    if u.exit is not None:
        env["SX_EXIT"] = str(u.exit)
    else:
        env["SX_EXIT"] = "any"
    if u.args is not None:
        env["SX_ARGS"] = u.args.format(H=HARNESS, T=tmp, L=lib)
    elif u.vhdl or u.verilog:
        srcs = " ".join(os.path.join(HARNESS, s) if not s.startswith("@")
                        else os.path.join(tmp, s[1:])
                        for s in ("vhdl/sx.vhd", *u.vhdl))
        vl = ""
        if u.verilog:
            vl = " -a " + " ".join(os.path.join(HARNESS, s)
                                   for s in u.verilog)
        top = u.top
        ana = u.ana.format(H=HARNESS, T=tmp, L=lib)
        elab = (u.elab if tier != 'thorough' or u.telab is None
                else u.telab).format(H=HARNESS, T=tmp, L=lib)
        run = u.run.format(H=HARNESS, T=tmp, L=lib)
        env["SX_ARGS"] = (f"--std={u.std} {u.glob} --work=work:{tmp}/work"
                          f"{vl} -a {ana} {srcs} -e --jit --no-save {elab} {top}"
                          f" -r {run} {top}")
    env["SYMX_OUT"] = os.path.join(tmp, "result.json")
    env["SYMX_JOBS"] = str(u.jobs)
    env["SYMX_CHILD_SECS"] = str(u.child)
    env["SYMX_QUERY_MS"] = str(u.query_ms)
    env["SYMX_MAX_PATHS"] = str(u.max_paths)
    for k, v in (u.env or {}).items():
        env[k] = v.format(H=HARNESS, T=tmp, L=lib)
    if replay:
        env["ND_REPLAY"] = os.path.abspath(replay)
    return env

def run_unit(b, u, tier, limit, known, verbose=False, replay=None, show=False):
    t0 = time.time()
    exe = build_unit(b, u, tier)
    tmp = tempfile.mkdtemp(prefix="sx-", dir=os.path.join(build.B, "tmp"))
    try:
        if u.gen:
            u.gen(tmp, tier, build.REPO)
        for f in u.files:
            shutil.copy(os.path.join(HARNESS, f), tmp)
        env = unit_env(b, u, tmp, tier, replay)
        env["SYMX_TIME"] = str(int(limit))
        if known:
            env["SYMX_ALL"] = "1"
        if verbose:
            env["SYMX_VERBOSE"] = "1"
        if show:
            env["SYMX_SHOW"] = "1"
        log = os.path.join(tmp, "log")
        with open(log, "wb") as lf:
            p = subprocess.Popen([exe], env=env, cwd=tmp, stdin=subprocess.DEVNULL,
                                 stdout=None if verbose or show else lf,
                                 stderr=None if verbose or show else lf,
                                 start_new_session=True)
            try:
                p.wait(limit + 60)
            except subprocess.TimeoutExpired:
                pass
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
            p.wait()
        text = open(log, "rb").read()[-3000:].decode("utf-8", "replace")
        try:
            r = json.load(open(env["SYMX_OUT"]))
        except (OSError, ValueError):
            r = None
        return r, text, time.time() - t0, env
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def judge(u, r, log, limit):
    """-> (problems, violations)

    Problems which leave the explored part meaningful (a limit was reached)
    start with LIMIT: they are reported but the exit status speaks about
    everything explored."""
    if r is None:
        return [f"no result from the engine: {log[-600:]}"], []
    probs = []
    if r["violations"]:
        return [], r["violations"]
    if not r["exhausted"]:
        probs.append(f"{LIMIT}not exhausted ({r['stop'] or 'stopped'}; "
                     f"{r['paths']} paths)")
    if r["incomplete"]:
        probs.append(LIMIT + "incomplete: " + json.dumps(r["incomplete"])[:300])
    if r["unconfirmed"]:
        probs.append(LIMIT + "unconfirmed: " + "; ".join(r["unconfirmed"])[:300])
    for l in u.reach:
        if not r["reach"].get(l):
            probs.append(f"vacuous: '{l}' never reached")
    n = sum(r["checks"].values()) + sum(r["solved"].values())
    if n < u.min_checks:
        probs.append(f"vacuous: only {n} checks decided")
    return probs, []

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--unit")
    ap.add_argument("--replay")
    ap.add_argument("--show", action="store_true")
    ap.add_argument("-v", "--verbose", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    m = load_units()
    units = [u for u in m.UNITS[a.prop]
             if (a.tier == "thorough" or u.tier == "quick") and
             (not a.unit or u.name == a.unit)]
    kf = os.path.join(VERIF, "known-findings.json")
    known = [k for k in (json.load(open(kf))["known"]
                         if os.path.exists(kf) else [])
             if k["property"] == a.prop]
    try:
        b = build.everything(tuple(sorted({u.std for u in units})))
        for s, l in b["libs"].items():
            preload(l, s)
        os.makedirs(build.B + "/tmp", exist_ok=True)
    except build.BuildError as e:
        print("build failed:", e)
        return 2
    t_build = time.time() - t0
    budget = BUDGET.get(a.tier, 780.0)
    problems, viol, kn, res = [], [], [], {}
    for u in units:
        left = budget - (time.time() - t0)
        want = u.time if a.tier == "quick" else max(u.time, u.ttime)
        limit = max(5, min(want, left))
        uk = [k for k in known if k["unit"] == u.name]
        try:
            r, log, wall, env = run_unit(b, u, a.tier, limit, uk, a.verbose,
                                         a.replay, a.show)
        except build.BuildError as e:
            problems.append(f"{u.name}: {e}")
            continue
        p, v = judge(u, r, log, limit)
        fresh = []
        for x in v:
            hit = [k for k in uk if k["check"] in x["msg"]]
            if hit:
                if hit[0] not in kn:
                    kn.append(hit[0])
            else:
                fresh.append(x)
        if v and not fresh:
            # nothing but known findings: the rest must still be decided
            r2 = dict(r, violations=[])
            p, _ = judge(u, r2, log, limit)
            p = [x for x in p if not x.startswith("vacuous")]
        problems += [f"{u.name}: {x}" for x in p]
        for x in fresh:
            viol.append((u, x))
        r = r or {}
        res[u.name] = {
            "bounds": (a.tier == "thorough" and u.tbounds) or u.bounds,
            "paths": r.get("paths", 0),
            "exhausted": r.get("exhausted", False),
            "queries": r.get("queries", 0), "sat": r.get("sat", 0),
            "unsat": r.get("unsat", 0),
            "solver_s": round(r.get("solver_s", 0), 2),
            "wall_s": round(wall, 2),
            "checks_decided_by_solver": r.get("solved", {}),
            "checks_concrete_on_path": r.get("checks", {}),
            "reached": r.get("reach", {}),
            "branching_functions": sorted(r.get("fns", {})),
        }
        st = "VIOLATED" if fresh else "problem" if p else \
            "known finding" if v else "held"
        print(f"{a.prop} {u.name}: {st}; {r.get('paths', 0)} paths, "
              f"{r.get('queries', 0)} queries, solver "
              f"{r.get('solver_s', 0):.1f}s, wall {wall:.1f}s", flush=True)
        if fresh and a.tier == "quick":
            break
    os.makedirs(EVID, exist_ok=True)
    obl = sum(sum(x["checks_decided_by_solver"].values()) +
              sum(x["checks_concrete_on_path"].values()) for x in res.values())
    fns = sorted({f for x in res.values() for f in x["branching_functions"]})
    ev = {
        "property": a.prop, "tier": a.tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Exhaustive bounded symbolic execution of nvc's "
            "own LLVM IR (compiled from /repo by this run): every feasible "
            "path under the symbolic inputs is enumerated by z3 and every "
            "check on every path is decided by z3 for all inputs of the path.",
            "obligations": obl,
            "discharged": obl if not viol else obl - len(viol),
            "paths": sum(x["paths"] for x in res.values()),
            "queries": sum(x["queries"] for x in res.values()),
            "solver_s": round(sum(x["solver_s"] for x in res.values()), 2),
            "functions_encoded": fns,
            "functions_note": "functions of /repo in which symbolic data "
            "decided a branch; all of nvc is instrumented and data flows "
            "through more",
            "units": res,
            "problems": problems,
            "known_findings": [k["what"] for k in kn],
        },
        "assumptions": ["clang 18 -O2 IR of x86-64 represents the code",
                        "z3 4.8.12 is right", "libc models in symx/rt.cpp",
                        "bounds as listed per unit; nothing outside them is "
                        "claimed"],
        "violations": len(viol),
        "violation_list": [{"unit": u.name, **x} for u, x in viol],
        "wall_s": round(time.time() - t0, 2),
    }
    ev["coverage"]["build_s"] = round(t_build, 2)
    with open(os.path.join(EVID, a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in kn:
        print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
    rc = 0
    for u, x in viol[:10]:
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        n = hashlib.sha256(x["msg"].encode()).hexdigest()[:8]
        path = os.path.join(d, f"{a.prop}-{u.name}-{n}.txt")
        with open(path, "w") as f:
            f.write("\n".join(str(i) for i in x["inputs"]) + "\n")
        print(f"{u.name}: {x['msg']}: inputs {x['inputs'][:24]}")
        print(f"  replay: python3 vlib/run.py {a.prop} --unit {u.name} "
              f"--replay {path} --show")
        print(f"VIOLATION property={a.prop} replay={path}")
        rc = 1
    if rc == 0 and problems:
        for p in problems:
            print("problem:", p)
            if LIMIT not in p:
                rc = 2
    return rc

if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""Build the symbolic executor and, from /repo's current working tree,
instrumented and native objects of nvc plus freshly bootstrapped VHDL
libraries.  Everything is cached by content hash under .build/."""
import hashlib, threading, os, re, shutil, subprocess, sys, time, glob, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NVC_REPO", "/repo")
B = os.environ.get("SYMX_BUILD", os.path.join(VERIF, ".build"))
CFG = os.path.join(VERIF, "vlib", "cfg")
SYMX = os.path.join(VERIF, "symx")
J = os.cpu_count() or 8
LLVM = "/usr/lib/llvm-18"

DEFS = ["-DHAVE_CONFIG_H", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS",
        "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS"]
INCS = ["-I", CFG, "-I", REPO + "/src", "-I", REPO + "/thirdparty", "-I", REPO,
        "-I", REPO + "/src/vlog", "-I/usr/include/capstone",
        "-I" + LLVM + "/include", "-I/usr/include/tcl8.6"]
WARN = ["-w", "-g1", "-mpopcnt"]
SYMFLAGS = ["-O2", "-fno-vectorize", "-fno-slp-vectorize",
            "-fno-unroll-loops"]
LIBS = ["-rdynamic", "-lz", "-ldw", "-lffi", "-lcapstone", "-lzstd",
        "-L" + LLVM + "/lib", "-lLLVM-18", "-ltcl8.6", "-lreadline", "-lelf", "-ljansson",
        "-lpthread", "-ldl", "-lm"]
SYMLIBS = LIBS + ["-lz3", "-lstdc++"]
THIRD = ["cpustate", "fastlz", "fstapi", "lz4", "sha1"]
# third-party code whose behaviour is part of a property
THIRD_SYM = ["fastlz", "sha1"]

class BuildError(Exception):
    pass

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       **kw)
    if p.returncode:
        raise BuildError(" ".join(map(str, cmd))[:600] + "\n" +
                         p.stdout.decode("utf-8", "replace")[-3000:])
    return p.stdout

def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        m.update(len(p).to_bytes(8, "little"))
        m.update(p)
    return m.hexdigest()[:24]

def rd(f):
    with open(f, "rb") as x:
        return x.read()

def into(path, make):
    """make(tmp) unless path already exists; atomic."""
    if not os.path.exists(path):
        tmp = f"{path}.{os.getpid()}.{threading.get_ident()}.tmp"
        make(tmp)
        os.replace(tmp, path)
    return path

def engine():
    os.makedirs(B, exist_ok=True)
    k = h(rd(SYMX + "/pass.cpp"), rd(SYMX + "/rt.cpp"), rd(SYMX + "/nd.h"))
    so, rt = f"{B}/libsymx-{k}.so", f"{B}/symxrt-{k}.o"
    def mkso(t):
        run(["g++", "-O1", "-fPIC", "-shared", "-std=c++17", "-fno-rtti",
             "-I" + LLVM + "/include", *DEFS[1:], SYMX + "/pass.cpp",
             "-o", t])
    def mkrt(t):
        run(["g++", "-O2", "-std=c++17", "-c", "-x", "c++",
             SYMX + "/rt.cpp", "-o", t])
    with ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(into, so, mkso), ex.submit(into, rt, mkrt)
        return a.result(), b.result(), k

def sources():
    """[(relative name, path)] of nvc's C sources (nvc.c included)."""
    out = []
    gen = f"{B}/gen"
    os.makedirs(gen, exist_ok=True)
    for d, _, fs in os.walk(REPO + "/src"):
        for f in sorted(fs):
            p = os.path.join(d, f)
            rel = os.path.relpath(p, REPO)
            if f.endswith(".c") and rel not in ("src/lexer.c",
                                                "src/vlog/vlog-pp.c"):
                out.append((rel, p))
            elif f.endswith(".l"):
                k = h(rd(p))
                o = f"{gen}/{f[:-2]}-{k}.c"
                into(o, lambda t: run(["flex", "-o", t, p]))
                out.append((rel[:-2] + ".c", o))
    return sorted(out)

def header_hash():
    m = []
    for root in (REPO + "/src", REPO + "/thirdparty", CFG):
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                if f.endswith((".h", ".def", ".inc")) or root == CFG:
                    m.append(f)
                    m.append(rd(os.path.join(d, f)))
    # headers of unusual names which sources include
    return h(*m)

def symbols_only(rel):
    return rel == "src/nvc.c"

def objects(kind):
    """kind: 'sym' (instrumented) or 'nat'.  Returns {rel: object}."""
    os.makedirs(f"{B}/{kind}", exist_ok=True)
    hh = header_hash()
    if kind == "sym":
        so, rt, ek = engine()
        flags = ["clang", *SYMFLAGS, f"-fpass-plugin={so}"]
        fk = ek + "v2"
    else:
        flags = ["gcc", "-O1", "-fno-strict-aliasing"]
        fk = "nat2"
    jobs = [(r, p, True) for r, p in sources()]
    for t in THIRD:
        jobs.append((f"thirdparty/{t}.c", f"{REPO}/thirdparty/{t}.c",
                     t in THIRD_SYM))
    # sources may include other .c files: hash those in too
    def cc(job):
        rel, path, instr = job
        src = rd(path)
        inc = re.findall(rb'#\s*include\s+"([^"]+\.c)"', src)
        extra = []
        for i in inc:
            for base in (os.path.dirname(path), REPO + "/src"):
                q = os.path.join(base, i.decode())
                if os.path.exists(q):
                    extra.append(rd(q))
                    break
        fl = flags if (instr or kind == "nat") else \
            ["gcc", "-O2", "-fno-strict-aliasing"]
        ren = ["-Dmain=nvc_main"] if rel == "src/nvc.c" and kind == "sym" \
            else []
        name = rel.replace("/", "_")[:-2]
        key = h(hh, fk, src, *extra, " ".join(
            x for x in fl + ren + SYMFLAGS if "pass-plugin" not in x))
        o = f"{B}/{kind}/{name}-{key}.o"
        incs = ["-iquote", os.path.dirname(REPO + "/" + rel), *INCS]
        into(o, lambda t: run([*fl, *WARN, *DEFS, *incs, *ren, "-x", "c",
                               "-c", path, "-o", t]))
        return rel, o
    jobs.sort(key=lambda j: -os.path.getsize(j[1]))
    with ThreadPoolExecutor(J) as ex:
        res = dict(ex.map(cc, jobs))
    live = set(res.values())
    for f in glob.glob(f"{B}/{kind}/*.o"):
        if f not in live and time.time() - os.path.getmtime(f) > 86400:
            os.unlink(f)
    return res

def archive(kind, objs):
    """Objects linked into one relocatable archive keyed by content."""
    k = h(*sorted(objs.values()))
    a = f"{B}/{kind}-{k}.a"
    into(a, lambda t: run(["ar", "rcsT" if False else "rcs", t,
                           *sorted(objs.values())]))
    return a, k

LIBPLAN = {
    # std -> [(library, bootstrap?, source)]
    "2008": [
        ("std.08", True, "std.08/standard.vhd"),
        ("std.08", False, "std/standard-body.vhd"),
        ("nvc.08", False, "nvc.08/polyfill.vhd"),
        ("std.08", False, "std.08/textio.vhd"),
        ("std.08", False, "std/textio-body.vhd"),
        ("std.08", False, "std.08/env.vhd"),
        ("std.08", False, "std.08/env-body.vhd"),
        ("nvc.08", False, "nvc/sim_pkg.vhd"),
        ("nvc.08", False, "nvc/sim_pkg-body.vhd"),
        ("nvc.08", False, "nvc/text_util.vhd"),
        ("nvc.08", False, "nvc/text_util-body.vhd"),
        ("ieee.08", False, "ieee.08/std_logic_1164.vhdl"),
        ("ieee.08", False, "ieee.08/std_logic_1164-body.vhdl"),
        ("ieee.08", False, "ieee.08/numeric_bit.vhdl"),
        ("ieee.08", False, "ieee.08/numeric_bit-body.vhdl"),
        ("ieee.08", False, "ieee.08/numeric_std.vhdl"),
        ("ieee.08", False, "ieee.08/numeric_std-body.vhdl"),
        ("nvc.08", False, "nvc/psl_support.vhd"),
        ("nvc.08", False, "nvc/psl_support-body.vhd"),
        ("nvc.08", False, "nvc/verilog.vhd"),
        ("nvc.08", False, "nvc/verilog-body.vhd"),
        ("ieee.08", False, "ieee/math_real.vhdl"),
        ("ieee.08", False, "ieee/math_real-body.vhdl"),
        ("ieee.08", False, "synopsys/std_logic_arith.vhd"),
        ("ieee.08", False, "synopsys/std_logic_unsigned.vhd"),
        ("ieee.08", False, "synopsys/std_logic_signed.vhd"),
    ],
}
LIBPLAN["1993"] = [
    ("std", True, "std/standard.vhd"),
    ("std", False, "std/standard-body.vhd"),
    ("nvc", False, "nvc/polyfill.vhd"),
    ("nvc", False, "nvc/polyfill-body.vhd"),
    ("std", False, "std/textio.vhd"),
    ("std", False, "std/textio-body.vhd"),
    ("nvc", False, "nvc/sim_pkg.vhd"),
    ("nvc", False, "nvc/sim_pkg-body.vhd"),
    ("nvc", False, "nvc/text_util.vhd"),
    ("nvc", False, "nvc/text_util-body.vhd"),
    ("ieee", False, "ieee/std_logic_1164.vhdl"),
    ("ieee", False, "ieee/std_logic_1164-body.vhdl"),
    ("nvc", False, "nvc/psl_support.vhd"),
    ("nvc", False, "nvc/psl_support-body.vhd"),
    ("nvc", False, "nvc/verilog.vhd"),
    ("nvc", False, "nvc/verilog-body.vhd"),
]

def native_nvc(objs):
    k = h(*sorted(objs.values()))
    exe = f"{B}/nvc-{k}"
    into(exe, lambda t: run(["gcc", "-o", t, *sorted(objs.values()), *LIBS]))
    return exe, k

def vhdl_libs(std, nvc, key):
    m = []
    for d, _, fs in sorted(os.walk(REPO + "/lib")):
        for f in sorted(fs):
            if f.endswith((".vhd", ".vhdl")):
                m += [f, rd(os.path.join(d, f))]
    k = h(key, std, *m, repr(LIBPLAN[std]))
    out = f"{B}/lib{std}-{k}"
    def mk(tmp):
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        env = dict(os.environ, NVC_LIBPATH=tmp)
        for lib, boot, src in LIBPLAN[std]:
            run([nvc, f"--std={std}", "-L", tmp, f"--work={tmp}/{lib}", "-a",
                 "--relaxed",
                 *(["--bootstrap"] if boot else []), f"{REPO}/lib/{src}"],
                env=env)
    return into(out, mk)

def everything(stds=("2008",)):
    """Returns dict with sym objects, runtime object, native nvc, libs."""
    os.makedirs(B, exist_ok=True)
    with open(B + "/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        t0 = time.time()
        so, rt, ek = engine()
        sources()                     # run flex once
        with ThreadPoolExecutor(4) as ex:
            fsym = ex.submit(objects, "sym")
            nat = objects("nat")
            nvc, nk = native_nvc(nat)
            flib = {s: ex.submit(vhdl_libs, s, nvc, nk) for s in stds}
            sym = fsym.result()
            libs = {s: f.result() for s, f in flib.items()}
        return {"so": so, "rt": rt, "engine": ek, "sym": sym, "nat": nat,
                "nvc": nvc, "libs": libs, "wall_s": time.time() - t0}

if __name__ == "__main__":
    r = everything(tuple(sys.argv[1:]) or ("2008",))
    print(r["nvc"], r["libs"], r["so"], round(r["wall_s"], 1), "s")

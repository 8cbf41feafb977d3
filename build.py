#!/usr/bin/env python3
"""Builds the simulator executables from /repo's current working tree.

  build.py A|B|M|P ...   prints the path of each executable built
Build products go to /verif/build/<content hash>/ (git-ignored), so a change in
/repo or in the simulator is always seen and an unchanged tree is not rebuilt.
"""
import concurrent.futures, fcntl, glob, hashlib, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("L1C_REPO", "/repo")
OUT = os.path.join(VERIF, "build")
SIM = os.path.join(VERIF, "sim")

# flavour A: instrumented, every memory access is a scheduling point
# flavour B: the shipped optimisation level, coarse scheduling
CFLAGS = {
    "A": ["-O1", "-fno-tree-vectorize", "-ffp-contract=off", "-fsanitize=thread"],
    "B": ["-O3"],
}
COMMON = ["-march=x86-64-v3", "-g", "-m64", "-fno-common", "-U_FORTIFY_SOURCE", "-w", "-fno-pie",
          "-fno-strict-aliasing", "-fcf-protection=none"]
SIMFLAGS = ["-std=gnu++17", "-O2", "-g", "-march=x86-64-v3", "-U_FORTIFY_SOURCE", "-fno-pie", "-Wall",
            "-Wno-unused-function", "-Wno-unused-parameter", "-Wno-format-truncation", "-w"]
PYINC = ["-isystem", "/usr/lib/python3/dist-packages/numpy/core/include", "-isystem", "/usr/include/python3.12"]
MEXINC = ["-isystem", "/usr/include/octave-8.4.0/octave"]

RUNTIME = ["rt.cc", "seams.cc", "gomp.cc", "main.cc", "calls.cc"]
SCEN = {
    "A": ["scen_core.cc", "scen_thr.cc", "scen_ops.cc", "scen_io.cc", "scen_opt.cc"],
    "B": ["scen_core.cc", "scen_thr.cc", "scen_ops.cc", "scen_io.cc", "scen_opt.cc"],
    "M": ["scen_core.cc", "scen_mex.cc"],
    "P": ["scen_core.cc", "scen_py.cc"],
}


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def repo_files():
    fs = []
    for pat in ("src/**/*.c", "src/**/*.cpp", "src/**/*.h", "src/**/*.hpp", "src/CMakeLists.txt", "include/**/*", "l1c_config.h.in",
                "interfaces/mex/*.[ch]", "interfaces/python/*.[ch]", "interfaces/python/*.py"):
        fs += [f for f in glob.glob(os.path.join(REPO, pat), recursive=True) if os.path.isfile(f)]
    return sorted(set(fs))


def tree_hash():
    h = hashlib.sha256()
    for f in repo_files() + sorted(glob.glob(SIM + "/*")) + [os.path.abspath(__file__)]:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


def lib_sources():
    cm = open(os.path.join(REPO, "src/CMakeLists.txt")).read()
    m = re.search(r"add_library\(\s*l1c\s+SHARED(.*?)\)", cm, re.S)
    if not m:
        raise BuildError("cannot find the library's source list")
    return [s for s in m.group(1).split() if re.search(r"\.(c|cpp|cc)$", s)]


def config_h(d):
    on = {"HAVE_FFTW3_THREADS": "", "_HAVE_MM_MALLOC_": "", "_HAVE_POSIX_MEMALIGN_": "", "_POSIX_C_SOURCE": "200112L"}
    out = []
    for line in open(os.path.join(REPO, "l1c_config.h.in")):
        m = re.match(r"#cmakedefine\s+(\w+)", line)
        if m:
            line = "#define %s %s\n" % (m.group(1), on[m.group(1)]) if m.group(1) in on else "/* #undef %s */\n" % m.group(1)
        line = line.replace("@PROJECT_NAME@", "l1c").replace("@PROJECT_VERSION@", "0.0.1")
        out.append(line)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "config.h"), "w").writelines(out)


def build(kinds, quiet=True):
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        key = tree_hash()
        d = os.path.join(OUT, key)
        exes = {k: os.path.join(d, "sim" + k) for k in kinds}
        need = [k for k in kinds if not os.path.exists(exes[k])]
        if need:
            for old in sorted(glob.glob(OUT + "/*/"), key=os.path.getmtime)[:-3]:
                if os.path.basename(old.rstrip("/")) != key:
                    shutil.rmtree(old, ignore_errors=True)
            os.makedirs(d, exist_ok=True)
            do_build(d, need, exes)
        return exes


def do_build(d, kinds, exes):
    cfg = os.path.join(d, "cfg")
    config_h(cfg)
    inc = ["-I", os.path.join(REPO, "include"), "-I", cfg]
    jobs = []  # (output, command)
    flav = {"A": "A", "B": "B", "M": "A", "P": "A"}

    def obj(name):
        return os.path.join(d, name + ".o")

    libobjs = {}
    for fl in sorted({flav[k] for k in kinds}):
        libobjs[fl] = []
        for s in lib_sources():
            o = obj("lib%s_%s" % (fl, s.replace("/", "_")))
            libobjs[fl].append(o)
            src = os.path.join(REPO, "src", s)
            if s.endswith(".c"):
                cmd = ["gcc", "-std=gnu11", "-fopenmp"] + COMMON + CFLAGS[fl] + inc + ["-c", src, "-o", o]
            else:
                cmd = ["g++", "-std=gnu++11"] + COMMON + CFLAGS[fl] + inc + ["-c", src, "-o", o]
            jobs.append((o, cmd))
    extra = {k: [] for k in kinds}
    if "M" in kinds:
        for f in sorted(glob.glob(os.path.join(REPO, "interfaces/mex/*.c"))):
            b = os.path.basename(f)[:-2]
            o = obj("mex_" + b)
            extra["M"].append(o)
            jobs.append((o, ["gcc", "-std=gnu11", "-fopenmp", "-DmexFunction=mexFunction_" + b] + COMMON + CFLAGS["A"] + inc +
                         ["-I", os.path.join(REPO, "interfaces/mex")] + MEXINC + ["-c", f, "-o", o]))
    if "P" in kinds:
        for f in sorted(glob.glob(os.path.join(REPO, "interfaces/python/*.c"))):
            o = obj("py_" + os.path.basename(f)[:-2])
            extra["P"].append(o)
            jobs.append((o, ["gcc", "-std=gnu11", "-fopenmp"] + COMMON + CFLAGS["A"] + inc + PYINC + ["-c", f, "-o", o]))
    simobjs = {k: [] for k in kinds}
    seen = set()
    for k in kinds:
        for s in RUNTIME + [x for x in SCEN[k] if os.path.exists(os.path.join(SIM, x))]:
            o = obj("sim_" + s)
            simobjs[k].append(o)
            if o in seen:
                continue
            seen.add(o)
            xi = PYINC if s == "scen_py.cc" else MEXINC if s == "scen_mex.cc" else []
            jobs.append((o, ["g++"] + SIMFLAGS + inc + ["-I", SIM] + xi + ["-c", os.path.join(SIM, s), "-o", o]))
        fo = obj("flav_" + k)
        simobjs[k].append(fo)
        fsrc = os.path.join(d, "flav_%s.cc" % k)
        open(fsrc, "w").write('namespace sim { extern const char* g_flavour; const char* g_flavour = "%s"; }\n' % k)
        jobs.append((fo, ["g++", "-O1", "-fno-pie", "-c", fsrc, "-o", fo]))
    jobs = [j for j in jobs if not os.path.exists(j[0])]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        def one(j):
            tmp = j[1][:-1] + [j[0] + ".tmp.o"]
            sh(tmp)
            os.rename(j[0] + ".tmp.o", j[0])
        list(ex.map(one, jobs))
    for k in kinds:
        # every sim_X the simulator defines replaces X in the code under test
        syms = set()
        for o in simobjs[k]:
            for line in sh(["nm", "--defined-only", "-g", o]).splitlines():
                m = re.match(r"[0-9a-f]+ [TW] sim_(\w+)$", line)
                if m and m.group(1) not in ("hook_printf", "ctx_switch"):
                    syms.add(m.group(1))
        sf = os.path.join(d, "syms_" + k)
        open(sf, "w").write("".join("%s sim_%s\n" % (s, s) for s in sorted(syms)))
        red = []
        for o in libobjs[flav[k]] + extra[k]:
            r = os.path.join(d, "r%s_%s" % (k, os.path.basename(o)))
            sh(["objcopy", "--redefine-syms=" + sf, o, r])
            red.append(r)
        libs = ["-lfftw3", "-lopenblas", "-lcjson", "-lm", "-ldl", "-lpthread"]
        if k == "P":
            libs += ["-lpython3.12"]
        sh(["g++", "-no-pie", "-rdynamic", "-g", "-o", exes[k] + ".tmp"] + simobjs[k] + red + libs)
        os.rename(exes[k] + ".tmp", exes[k])


if __name__ == "__main__":
    t = time.time()
    try:
        for k, e in build(sys.argv[1:] or ["A", "B"]).items():
            print(e)
    except BuildError as e:
        print(e)
        sys.exit(2)
    print("%.1f s" % (time.time() - t), file=sys.stderr)

"""Builds the code under test from /repo's current working tree.

Everything goes to /verif/build (git-ignored): the YASK compiler library with
our driver (ycd), and one kernel binary per stencil variant (unity build of
/repo/src/kernel/lib with the generated code, linked with kd/*.cpp).
ccache holds the object files; a directory is keyed by the hash of /repo's
sources, so an unchanged tree reuses binaries and a changed tree never does.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JOBS = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 8))

ENV = dict(os.environ)
ENV.update(
    PATH="/opt/vp/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    MPICH_CXX="g++", HYDRA_LAUNCHER="fork", USER="root", LANG="C.UTF-8",
    OMP_WAIT_POLICY="passive", PYTHONDONTWRITEBYTECODE="1",
    CCACHE_DIR=os.path.join(BUILD, "ccache"), CCACHE_MAXSIZE="4G",
    CCACHE_BASEDIR=BUILD, CCACHE_NOHASHDIR="1", CCACHE_SLOPPINESS="include_file_mtime,include_file_ctime,time_macros",
    CCACHE_COMPILERCHECK="content",
    CCACHE_DEPEND="", )
ENV.pop("CCACHE_DEPEND", None)


class BuildError(Exception):
    pass


def _files():
    out = []
    for d in ("include", "src/common", "src/compiler/lib", "src/kernel/lib", "src/contrib/coefficients", "utils/bin", "utils/lib"):
        for root, _, fs in os.walk(os.path.join(REPO, d)):
            for f in fs:
                if f.endswith((".cpp", ".hpp", ".h", ".pl", ".pm", ".c")):
                    out.append(os.path.join(root, f))
    return sorted(out)


_hash = None


def tree_hash():
    global _hash
    if _hash is None:
        h = hashlib.sha256()
        for f in _files():
            h.update(os.path.relpath(f, REPO).encode())
            with open(f, "rb") as fh:
                h.update(fh.read())
        for d in ("yc", "kd", "kd/omp"):
            for f in sorted(glob.glob(os.path.join(VERIF, d, "*.cpp"))):
                h.update(open(f, "rb").read())
        h.update(open(os.path.abspath(__file__), "rb").read())
        _hash = h.hexdigest()[:16]
    return _hash


def tdir():
    """Build directory for this exact tree; older ones are removed."""
    base = os.path.join(BUILD, "t")
    d = os.path.join(base, tree_hash())
    if not os.path.isdir(d):
        os.makedirs(d, exist_ok=True)
        old = sorted((os.path.getmtime(p), p) for p in glob.glob(base + "/*") if p != d)
        for _, p in old[:-2]:
            shutil.rmtree(p, ignore_errors=True)
    return d


def sh(cmd, cwd=None, timeout=600, stdout=None):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdin=subprocess.DEVNULL,
                       stdout=stdout or subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    if p.returncode:
        raise BuildError("command failed (%d): %s\n%s" % (
            p.returncode, " ".join(cmd) if isinstance(cmd, list) else cmd,
            (p.stderr or b"").decode("utf-8", "replace")[-3000:]))
    return p.stdout


COMMON_INC = ["-I" + REPO + "/include", "-I" + REPO + "/include/aux", "-I" + REPO + "/src/common",
              "-I" + REPO + "/src/contrib/coefficients"]
COMMON_SRC = ["src/common/combo.cpp", "src/common/common_utils.cpp", "src/common/fd_coeff2.cpp",
              "src/common/output.cpp", "src/common/tuple.cpp", "src/contrib/coefficients/fd_coeff.cpp"]


def _srcs(rel):
    return [os.path.relpath(p, REPO) for p in sorted(glob.glob(os.path.join(REPO, rel)))]


def common_srcs():
    return sorted(set(_srcs("src/common/*.cpp"))) + ["src/contrib/coefficients/fd_coeff.cpp"]


def _cc(cmd, obj):
    if os.path.exists(obj):
        return
    tmp = obj + ".tmp%d.%d.o" % (os.getpid(), threading.get_ident())
    try:
        sh(["ccache"] + cmd + ["-o", tmp])
    except BuildError as e:
        if "ccache: error" not in str(e):
            raise
        sh(cmd + ["-o", tmp])
    os.replace(tmp, obj)


_locks = {}
_locks_lock = threading.Lock()


def _lock(key):
    with _locks_lock:
        return _locks.setdefault(key, threading.Lock())


_pool = None


def pool():
    global _pool
    if _pool is None:
        _pool = cf.ThreadPoolExecutor(JOBS)
    return _pool


def build_yc():
    """Build the compiler driver; returns the path of ycd."""
    d = tdir()
    exe = os.path.join(d, "ycd")
    if os.path.exists(exe):
        return exe
    objs, futs = [], []
    inc = COMMON_INC + ["-I" + REPO + "/src/compiler/lib"]
    for s in common_srcs() + _srcs("src/compiler/lib/*.cpp"):
        o = os.path.join(d, "yc_" + os.path.basename(s)[:-4] + ".o")
        objs.append(o)
        futs.append(pool().submit(_cc, ["g++", "-std=c++17", "-g0", "-w", "-O0", "-DFORCE_INLINE_RECURSIVE=",
                                        "-DFORCE_INLINE=", "-DCHECK"] + inc + ["-c", os.path.join(REPO, s)], o))
    o = os.path.join(d, "ycdriver.o")
    objs.append(o)
    futs.append(pool().submit(_cc, ["g++", "-std=c++17", "-g0", "-w", "-O0", "-DUSE_INTERNAL_DSL",
                                    "-I" + REPO + "/include", "-I" + REPO + "/include/aux", "-c",
                                    os.path.join(VERIF, "yc/ycdriver.cpp")], o))
    for f in futs:
        f.result()
    tmp = exe + ".tmp%d" % os.getpid()
    sh(["g++", "-o", tmp] + objs)
    os.replace(tmp, exe)
    return exe


def build_kcommon():
    """Objects shared by all kernel binaries."""
    d = tdir()
    objs, futs = [], []
    for s in common_srcs():
        o = os.path.join(d, "k_" + os.path.basename(s)[:-4] + ".o")
        objs.append(o)
        futs.append(pool().submit(_cc, ["mpic++", "-std=c++17", "-g0", "-w", "-O1", "-DUSE_MPI", "-DCHECK", "-fopenmp"]
                                  + COMMON_INC + ["-c", os.path.join(REPO, s)], o))
    for s in sorted(glob.glob(os.path.join(VERIF, "kd/*.cpp"))):
        o = os.path.join(d, "kd_" + os.path.basename(s)[:-4] + ".o")
        objs.append(o)
        futs.append(pool().submit(_cc, ["mpic++", "-std=c++17", "-g0", "-w", "-O1", "-DUSE_MPI",
                                        "-I" + REPO + "/include", "-I" + REPO + "/include/aux", "-c", s], o))
    for f in futs:
        f.result()
    return objs


TRACEFLAG = ["-DTRACE"] if os.environ.get("KTRACE") else []
KLIB = ["factory", "soln_apis", "context", "halo", "stencil_calc", "setup", "alloc", "generic_var",
        "yk_var", "yk_var_apis", "new_var", "settings", "auto_tuner", "utils"]


def klib():
    """Every .cpp of the kernel library (a moved or added file is picked up)."""
    have = [os.path.basename(p)[:-4] for p in glob.glob(os.path.join(REPO, "src/kernel/lib/*.cpp"))]
    return [k for k in KLIB if k in have] + sorted(k for k in have if k not in KLIB)


LOOPS = [
    ("rank", ["-prefix", "rank_"], "nested loop(DOMAIN_LOOP_DIMS) { }"),
    ("mega_block", ["-prefix", "mega_block_", "-omp", "omp parallel for schedule(dynamic,1)"], " omp loop(DOMAIN_LOOP_DIMS) { }"),
    ("block", ["-prefix", "block_"], "nested loop(DOMAIN_LOOP_DIMS) { }"),
    ("micro_block", ["-prefix", "micro_block_", "-omp", "omp parallel for schedule(static,1)"], " omp loop(DOMAIN_LOOP_DIMS) { }"),
    ("nano_block", ["-no-align", "-prefix", "nano_block_"], "serpentine loop(DOMAIN_LOOP_DIMS) { }"),
    ("pico_block", ["-no-align", "-prefix", "pico_block_"], "nested loop(PICO_BLOCK_OUTER_LOOP_DIMS) { loop(PICO_BLOCK_INNER_LOOP_DIM) { } }"),
    ("misc", ["-prefix", "misc_", "-omp", "omp parallel for"], " omp loop(DOMAIN_LOOP_DIMS) { }"),
]

TARGETS = {
    "avx2": (["-mavx2"], ["-DUSE_INTRIN256", "-DUSE_AVX2"]),
    "avx": (["-mavx"], ["-DUSE_INTRIN256"]),
    "intel64": ([], []),
    "avx512": (["-mavx512f", "-mavx512vl", "-mavx512cd", "-mavx512bw"], ["-DUSE_INTRIN512"]),
}


class Compiled(Exception):
    """The YASK compiler threw a yask_exception for this program."""


def gen_code(sx_text, copts, style, out):
    ycd = build_yc()
    sxf = out + ".sx"
    with open(sxf, "w") as f:
        f.write(sx_text)
    p = subprocess.run([ycd, sxf, out, str(style)] + copts, env=ENV, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    if p.returncode == 3:
        raise Compiled(p.stdout.decode("utf-8", "replace"))
    if p.returncode:
        raise Compiled("compiler failed rc=%d %s %s" % (p.returncode, p.stdout.decode("utf-8", "replace")[-500:],
                                                        p.stderr.decode("utf-8", "replace")[-500:]))


def kernel(sx_text, copts=(), target="avx2", elem_bytes=8, style=0, new_var_types=False, loops=None, opt="-O0",
           sched=False):
    """Build (or reuse) the kernel driver binary of one stencil variant.

    sched: with the scheduling OpenMP run-time of kd/omp/vomp.cpp.

    Raises Compiled if the YASK compiler rejects the program, and BuildError
    if the code it wrote does not compile.  Returns the binary's path.
    """
    copts = list(copts) + ["-target", target, "-elem-bytes", str(elem_bytes)]
    loops = loops or {}
    key = hashlib.sha256(json.dumps([sx_text, copts, style, new_var_types, loops, opt] + ["sched"] * sched + TRACEFLAG).encode()).hexdigest()[:16]
    # The same variant may be asked for twice at once.
    with _lock(key):
        exe = os.path.join(tdir(), "k_" + key)
        if not os.path.exists(exe):
            os.makedirs(os.path.join(BUILD, "g"), exist_ok=True)
            with open(os.path.join(BUILD, "g", key + ".lock"), "w") as lf:
                fcntl.flock(lf, fcntl.LOCK_EX)
                _kernel(exe, key, sx_text, copts, target, style, new_var_types, loops, opt, sched)
    return exe


def _kernel(exe, key, sx_text, copts, target, style, new_var_types, loops, opt, sched):
    # Generated headers live in a path independent of the tree, for ccache.
    d = os.path.join(BUILD, "g", key)
    os.makedirs(d, exist_ok=True)
    G = os.path.join(d, "gen")
    os.makedirs(G, exist_ok=True)
    code = os.path.join(G, "yask_stencil_code.hpp")
    gen_code(sx_text, copts, style, code)
    for n, flags, lp in LOOPS:
        fl, l2 = loops.get(n, (flags, lp))
        sh(["perl", REPO + "/utils/bin/gen_loops.pl", "-macro_file", code, "-output",
            "%s/yask_%s_loops.hpp" % (G, n)] + fl + [l2], cwd=REPO)
    nv = re.search(r"#define\s+NUM_STENCIL_AND_VAR_DIMS\s+(\d+)", open(code).read()).group(1)
    for f, o in (("yask_layout_macros.hpp", "-m"), ("yask_layouts.hpp", "-d"), ("yask_var_code.hpp", "-v")):
        data = sh(["perl", REPO + "/utils/bin/gen_layouts.pl", o, nv], cwd=REPO)
        open(os.path.join(G, f), "wb").write(data)
    isa, vmac = TARGETS[target]
    inc = ["-I" + G, "-I" + REPO + "/include", "-I" + REPO + "/include/aux", "-I" + REPO + "/src/kernel/lib",
           "-I" + REPO + "/src/common", "-I" + REPO + "/src/contrib/coefficients"]
    mac = ["-DUSE_MPI", "-DYK_CODE_FILE=" + "yask_stencil_code.hpp", "-DYK_SOLUTION_FILE=yask_solution_code.hpp",
           "-DUSE_NUMAIF_H", *TRACEFLAG, "-DCHECK", "-DALLOW_NEW_VARS=%d" % (1 if new_var_types else 0), "-DNO_SVML"] + vmac
    pre = sh(["g++", "-E", "-CC"] + inc + mac + ["-DDEFINE_SOLUTION", code]).decode("utf-8", "replace")
    keep, lines = False, []
    for ln in pre.split("\n"):
        if "Automatically-generated" in ln:
            keep = True
        if keep and not re.match(r"#\s[1-9]", ln):
            lines.append(ln)
    with open(os.path.join(G, "yask_solution_code.hpp"), "w") as f:
        f.write("\n".join(lines) + "\n")
    uni = os.path.join(d, "unity.cpp")
    with open(uni, "w") as f:
        for k in klib():
            f.write('#include "%s/src/kernel/lib/%s.cpp"\n' % (REPO, k))
    o = os.path.join(d, "unity.o")
    if os.path.exists(o):
        os.unlink(o)
    _cc(["mpic++", "-std=c++17", "-g0", "-w", opt] + isa + ["-fopenmp"] + ["-fsanitize=thread"] * sched + inc + mac + ["-c", uni], o)
    objs = build_kcommon_cached()
    if sched:
        vo = os.path.join(tdir(), "vomp.o")
        _cc(["g++", "-std=c++17", "-g0", "-w", "-O2", "-c", os.path.join(VERIF, "kd/omp/vomp.cpp")], vo)
        objs = objs + [vo]
    tmp = exe + ".tmp%d" % os.getpid()
    sh(["g++", "-fopenmp", "-o", tmp, o] + objs + ["-lrt", "-ldl", "-lnuma", "-lpthread"])
    os.replace(tmp, exe)
    try:
        os.unlink(o)
    except OSError:
        pass


_kc = None


def build_kcommon_cached():
    global _kc
    if _kc is None:
        _kc = build_kcommon()
    return _kc


def kernels(specs):
    """Build many variants in parallel. specs: list of kwargs for kernel(). Returns list of path or exception."""
    build_yc()
    build_kcommon_cached()
    res = [None] * len(specs)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = {ex.submit(kernel, **s): i for i, s in enumerate(specs)}
        for f in cf.as_completed(futs):
            i = futs[f]
            try:
                res[i] = f.result()
            except (Compiled, BuildError, subprocess.TimeoutExpired) as e:
                res[i] = e
    return res

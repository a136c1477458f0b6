"""Builds: the symbolic executor, the bitcode of /repo's current sources, native replay programs."""
import hashlib, os, shutil, subprocess, sys, threading, tempfile, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SX_REPO", "/repo")
BUILD = os.environ.get("SX_BUILD", os.path.join(VERIF, "build"))
CLANG = "/usr/bin/clang++-18"
LINK = "/usr/bin/llvm-link-18"
LLVMINC = "/usr/lib/llvm-18/include"
SOURCES = ["state", "accumulator", "batchproof", "ram_forest", "pollard", "crypto/sha512"]
BCFLAGS = ["-std=c++17", "-O2", "-fno-pic", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
           "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-D_GLIBCXX_ASSERTIONS", "-Wno-everything"]
NATFLAGS = ["-std=c++17", "-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
            "-ftrivial-auto-var-init=pattern", "-Wno-everything"]
pool = ThreadPoolExecutor(max_workers=8)


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-6000:])
    return r


def filehash(paths, *extra):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    for e in extra:
        h.update(repr(e).encode())
    return h.hexdigest()[:16]


def repo_files():
    out = []
    for top in ("src", "include"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            if "/test" in d or "/fuzz" in d or "/bench" in d:
                continue
            out += [os.path.join(d, f) for f in fs if f.endswith((".h", ".cpp", ".hpp", ".inc"))]
    return out


def repo_sources():
    """The library's translation units: those of sources.mk if it lists more than the known ones."""
    srcs = [s for s in SOURCES if os.path.exists(os.path.join(REPO, "src", s + ".cpp"))]
    try:
        import re
        mk = open(os.path.join(REPO, "sources.mk")).read()
        mk = mk.replace("\\\n", " ")
        for line in mk.splitlines():
            if "LIB_SOURCES" in line:
                for w in re.findall(r"(?:%reldir%/)?src/([\w/]+)\.cpp", line):
                    if w not in srcs and os.path.exists(os.path.join(REPO, "src", w + ".cpp")):
                        srcs.append(w)
    except OSError:
        pass
    return srcs


def atomic_dir(final, make):
    """Run make(tmpdir) and move the result into place; a finished directory is never changed."""
    if os.path.isdir(final):
        return final
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=BUILD, prefix="tmp.")
    try:
        make(tmp)
        try:
            os.rename(tmp, final)
        except OSError:
            if not os.path.isdir(final):
                raise
            shutil.rmtree(tmp, ignore_errors=True)
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    return final


def engine():
    src = sorted(glob.glob(VERIF + "/engine/*.cpp") + glob.glob(VERIF + "/engine/*.h"))
    final = os.path.join(BUILD, "engine-" + filehash(src, "v1"))

    def make(tmp):
        jobs = []
        for n in ("symx", "load", "expr", "solver"):
            fl = ["-O2"] if n != "load" else ["-O1", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_LIMIT_MACROS"]
            jobs.append(pool.submit(run, ["g++", "-std=c++17", *fl, "-w", "-I" + LLVMINC, "-c", f"{VERIF}/engine/{n}.cpp", "-o", f"{tmp}/{n}.o"]))
        for j in jobs:
            j.result()
        run(["g++", *(f"{tmp}/{n}.o" for n in ("symx", "expr", "solver", "load")), "-o", f"{tmp}/symx", "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3"])
    return os.path.join(atomic_dir(final, make), "symx")


def modelfiles():
    return [f for f in glob.glob(VERIF + "/model/include/**", recursive=True) if os.path.isfile(f)] + glob.glob(VERIF + "/runtime/*") + glob.glob(VERIF + "/harness/*.h")


def repo_bitcode(verify):
    """Bitcode of every library source (against the library models) plus the runtime."""
    srcs = repo_sources()
    final = os.path.join(BUILD, f"bc{int(verify)}-" + filehash(repo_files() + modelfiles(), srcs, BCFLAGS))

    def make(tmp):
        d = ["-DUTREEXO_VERIFY"] if verify else []
        jobs = []
        inc = ["-I" + VERIF + "/model/include", "-I" + REPO + "/src", "-I" + REPO]
        for s in srcs:
            jobs.append(pool.submit(run, [CLANG, *BCFLAGS, *d, *inc, "-emit-llvm", "-c", f"{REPO}/src/{s}.cpp", "-o", f"{tmp}/{s.replace('/', '_')}.bc"]))
        jobs.append(pool.submit(run, [CLANG, *BCFLAGS, *inc, "-emit-llvm", "-c", f"{VERIF}/runtime/rt.cpp", "-o", f"{tmp}/rt.bc"]))
        for j in jobs:
            j.result()
        run([LINK, *sorted(glob.glob(tmp + "/*.bc")), "-o", tmp + "/lib.linked"])
    return os.path.join(atomic_dir(final, make), "lib.linked")


def harness_bitcode(src, defs, verify, lib):
    f = f"{VERIF}/harness/{src}"
    final = os.path.join(BUILD, "h-" + filehash([f] + repo_files() + modelfiles(), defs, verify, BCFLAGS, lib))

    def make(tmp):
        d = [f"-D{k}={v}" for k, v in defs.items()] + ["-DSX_ENGINE"] + (["-DUTREEXO_VERIFY"] if verify else [])
        run([CLANG, *BCFLAGS, *d, "-I" + VERIF + "/model/include", "-I" + VERIF + "/harness", "-I" + REPO + "/src", "-I" + REPO, "-emit-llvm", "-c", f, "-o", tmp + "/h.bc"])
        run([LINK, lib, tmp + "/h.bc", "-o", tmp + "/all.bc"])
    return os.path.join(atomic_dir(final, make), "all.bc")


def native_lib(verify):
    srcs = repo_sources()
    final = os.path.join(BUILD, f"nat{int(verify)}-" + filehash(repo_files() + [VERIF + "/runtime/native.cpp", VERIF + "/harness/sx.h"], srcs, NATFLAGS))

    def make(tmp):
        d = ["-DUTREEXO_VERIFY"] if verify else []
        jobs = []
        for s in srcs:
            jobs.append(pool.submit(run, ["nice", CLANG, *NATFLAGS, *d, "-I" + REPO + "/src", "-I" + REPO, "-c", f"{REPO}/src/{s}.cpp", "-o", f"{tmp}/{s.replace('/', '_')}.o"]))
        jobs.append(pool.submit(run, ["nice", CLANG, *NATFLAGS, "-c", f"{VERIF}/runtime/native.cpp", "-o", f"{tmp}/native.o"]))
        for j in jobs:
            j.result()
    return atomic_dir(final, make)


def native(src, defs, verify):
    lib = native_lib(verify)
    f = f"{VERIF}/harness/{src}"
    final = os.path.join(BUILD, "n-" + filehash([f] + repo_files() + glob.glob(VERIF + "/harness/*.h"), defs, verify, NATFLAGS, lib))

    def make(tmp):
        d = [f"-D{k}={v}" for k, v in defs.items()] + ["-DSX_NATIVE"] + (["-DUTREEXO_VERIFY"] if verify else [])
        run(["nice", CLANG, *NATFLAGS, *d, "-I" + VERIF + "/harness", "-I" + REPO + "/src", "-I" + REPO, "-c", f, "-o", tmp + "/h.o"])
        run(["nice", CLANG, "-fsanitize=address", tmp + "/h.o", *sorted(glob.glob(lib + "/*.o")), "-o", tmp + "/replay"])
    return os.path.join(atomic_dir(final, make), "replay")


def replay(exe, inputs, timeout=20):
    """Run a native harness on recorded inputs. Returns (status, output); status is the exit code, or 'timeout'."""
    tmp = tempfile.mkdtemp(prefix="sxrun.")
    env = {"PATH": "/usr/bin:/bin", "SX_INPUT": inputs, "SX_TMP": tmp,
           "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=0:max_malloc_fill_size=1073741824:malloc_fill_byte=190:exitcode=70:detect_stack_use_after_return=0:max_allocation_size_mb=256:allocator_may_return_null=1"}
    try:
        r = subprocess.run([exe], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=tmp)
        return r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return "timeout", "", ""
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

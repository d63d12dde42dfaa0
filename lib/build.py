"""Build /verif/build/vsim from /repo's current working tree (content-hash incremental)."""
import hashlib, json, os, re, subprocess, sys, glob, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VEGA_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
DIRS = ["Abstract", "Aster", "Systus", "Nastran", "Optistruct", "ResultReaders", "Commandline"]
CXX = "g++"
COMMON = ["-std=gnu++14", "-w", "-O0", "-fPIE", "-pipe"]
INSTR = ["-fstack-protector-all", "-fsanitize-coverage=trace-pc"]
LIBS = ["-lmedC", "-lboost_program_options", "-lboost_filesystem", "-lboost_regex", "-lboost_system",
        "-l:libhdf5_openmpi.so.103", "-ldl", "-lpthread"]

COMPAT = """#ifdef __cplusplus
#define make_unique vp_libstdcxx_make_unique
#include <memory>
#undef make_unique
#include <array>
#include <deque>
#include <list>
#include <map>
#include <set>
#endif
"""


def fhash(path, cache={}):
    try:
        st = os.stat(path)
        key = (path, st.st_mtime_ns, st.st_size)
        if key not in cache:
            with open(path, "rb") as f:
                cache[key] = hashlib.sha256(f.read()).hexdigest()
        return cache[key]
    except OSError:
        return "missing"


def write_if_changed(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def properties_header():
    """build_properties.h, as CMake would configure it, with fixed paths."""
    with open(os.path.join(REPO, "Abstract/build_properties.h.in")) as f:
        text = f.read()
    with open(os.path.join(REPO, "CMakeLists.txt")) as f:
        cm = f.read()
    vals = {"PROJECT_SOURCE_DIR": "/w/src", "PROJECT_BINARY_DIR": "/w/bld", "CMAKE_BUILD_TYPE": "Debug"}
    for k in ("VEGA_MAJOR_VERSION", "VEGA_MINOR_VERSION", "VEGA_PATCH_VERSION"):
        m = re.search(r"set\(%s\s+(\S+?)\)" % k, cm)
        vals[k] = m.group(1) if m else "0"
    text = re.sub(r"@(\w+)@", lambda m: vals.get(m.group(1), ""), text)
    on = {"ENABLE_ASTER", "RUN_NASTRAN", "VALGRIND_FOUND"}
    text = re.sub(r"#cmakedefine01 (\w+)", lambda m: "#define %s %d" % (m.group(1), m.group(1) in on), text)
    return text


class BuildError(Exception):
    pass


def build(quiet=True, out=None):
    bdir = out or BUILD
    os.makedirs(bdir + "/obj", exist_ok=True)
    lock = open(bdir + "/.lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    os.makedirs(bdir + "/inc", exist_ok=True)
    write_if_changed(bdir + "/inc/build_properties.h", properties_header())
    write_if_changed(bdir + "/inc/vp_compat.h", COMPAT)
    inc = ["-I" + bdir + "/inc", "-I" + REPO, "-I" + REPO + "/Abstract", "-I/usr/include/hdf5/serial"]
    jobs = []
    for d in DIRS:
        for src in sorted(glob.glob(os.path.join(REPO, d, "*.cpp"))):
            flags = COMMON + INSTR + ["-include", bdir + "/inc/vp_compat.h"] + inc
            if src.endswith("/vegamain.cpp"):
                flags = flags + ["-Dmain=vega_main"]
            jobs.append((src, d + "_" + os.path.basename(src)[:-4], flags))
    jobs.append((VERIF + "/sim/seqglue.cpp", "vsim_seqglue", COMMON + ["-include", bdir + "/inc/vp_compat.h"] + inc))
    jobs.append((VERIF + "/sim/vsim.cpp", "vsim_main",
                 ["-std=gnu++17", "-w", "-O2", "-fPIE", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fno-builtin",
                  "-fno-delete-null-pointer-checks", "-fno-stack-protector"]))
    size = {j[0]: os.path.getsize(j[0]) for j in jobs}
    jobs.sort(key=lambda j: -size[j[0]])

    def one(job):
        src, name, flags = job
        obj = f"{bdir}/obj/{name}.o"
        dep = f"{bdir}/obj/{name}.d"
        sig = f"{bdir}/obj/{name}.sig"
        cmd = [CXX] + flags + ["-MMD", "-MF", dep, "-c", src, "-o", obj]
        base = hashlib.sha256(" ".join(cmd).encode()).hexdigest()
        try:
            with open(sig) as f:
                old = json.load(f)
            if old["cmd"] == base and os.path.exists(obj) and all(fhash(p) == h for p, h in old["deps"].items()):
                return (obj, False, "")
        except (OSError, ValueError, KeyError):
            pass
        try:
            os.remove(sig)
        except OSError:
            pass
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return (None, True, f"{src}: {r.stdout[-3000:]}")
        with open(dep) as f:
            deps = f.read().replace("\\\n", " ").split(":", 1)[1].split()
        # only files that can change: the repository, the simulator and generated headers
        deps = [p for p in deps if p.startswith((REPO + "/", VERIF + "/", bdir))]
        with open(sig, "w") as f:
            json.dump({"cmd": base, "deps": {p: fhash(p) for p in deps}}, f)
        return (obj, True, "")

    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        res = list(ex.map(one, jobs))
    bad = [r[2] for r in res if r[0] is None]
    if bad:
        raise BuildError("\n".join(bad))
    exe = f"{bdir}/vsim"
    if any(r[1] for r in res) or not os.path.exists(exe):
        tmp = exe + ".new"
        cmd = [CXX, "-pie", "-rdynamic", "-o", tmp] + sorted(r[0] for r in res) + LIBS
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError(r.stdout[-4000:])
        os.rename(tmp, exe)
    h5 = f"{bdir}/h5canon"
    src = VERIF + "/sim/h5canon.c"
    if not os.path.exists(h5) or os.path.getmtime(h5) < os.path.getmtime(src):
        cmd = ["gcc", "-O1", "-w", "-I/usr/include/hdf5/serial", src, "-o", h5 + ".new", "-l:libhdf5_openmpi.so.103"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError(r.stdout[-4000:])
        os.rename(h5 + ".new", h5)
    lock.close()
    return exe


if __name__ == "__main__":
    try:
        print(build())
    except BuildError as e:
        print("BUILD FAILED\n" + str(e))
        sys.exit(3)

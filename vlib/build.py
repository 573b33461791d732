"""Compiles /repo's working tree and the drivers; results are cached under /verif/build by content hash."""
import hashlib, os, shutil, subprocess, sys, glob, time, fcntl
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
CXX = ["g++", "-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address", "-DBIN_WRITE_PLUGIN", "-w",
       "-I" + REPO + "/include", "-I" + REPO + "/include/binary_xml", "-I/usr/include/libxml2", "-I" + os.path.join(ROOT, "harness")]
CC = ["gcc"] + [x for x in CXX[1:]]

WRAPS = "read __read_chk write open creat mmap munmap ftruncate fstat stat close mkdir opendir".split()     # harness/fault.h

class BuildError(Exception):
    pass

def _files():
    src = sorted(glob.glob(REPO + "/src/*.cpp") + glob.glob(REPO + "/src/jsmn/*.c"))
    hdr = sorted(p for p in glob.glob(REPO + "/include/**/*", recursive=True) + glob.glob(REPO + "/src/**/*.h", recursive=True) if os.path.isfile(p))
    return src, hdr

def _hash(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        with open(p, "rb") as f:
            d = f.read()
        h.update(("%s %d\n" % (p, len(d))).encode())
        h.update(d)
    return h.hexdigest()[:20]

def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-4000:])

def build(driver, opts=()):
    """Returns the path of the driver binary built from the current tree."""
    os.makedirs(BUILD, exist_ok=True)
    src, hdr = _files()
    lib_h = _hash(src + hdr, " ".join(CXX) + " ".join(opts))
    lib_dir = os.path.join(BUILD, "lib-" + lib_h)
    drv_src = os.path.join(ROOT, "harness", driver + ".cpp")
    hh = sorted(glob.glob(os.path.join(ROOT, "harness", "*.h")))
    drv_h = _hash([drv_src] + hh, lib_h + " ".join(WRAPS))
    binp = os.path.join(lib_dir, driver + "-" + drv_h)
    if os.path.exists(binp):
        os.utime(lib_dir)
        return binp
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(binp):
            return binp
        os.makedirs(lib_dir, exist_ok=True)
        jobs = []
        objs = []
        for s in src:
            o = os.path.join(lib_dir, os.path.basename(s) + ".o")
            objs.append(o)
            if not os.path.exists(o):
                jobs.append((CC if s.endswith(".c") else CXX + ["-std=c++17"]) + list(opts) + ["-c", s, "-o", o + ".tmp"])
        dobj = binp + ".o"
        jobs.append(CXX + ["-std=c++17"] + list(opts) + ["-c", drv_src, "-o", dobj + ".tmp"])
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(_run, jobs))
        for j in jobs:
            os.rename(j[-1], j[-1][:-4])
        _run(["g++", "-fsanitize=address", "-Wl,--wrap=malloc"] + ["-Wl,--wrap=" + w for w in WRAPS] + [dobj] + objs + ["-lxml2", "-o", binp + ".tmp"])
        os.rename(binp + ".tmp", binp)
        os.unlink(dobj)
        # keep the cache small
        libs = sorted(glob.glob(os.path.join(BUILD, "lib-*")), key=os.path.getmtime)
        for old in libs[:-6]:
            if old != lib_dir:
                shutil.rmtree(old, ignore_errors=True)
    return binp

if __name__ == "__main__":
    t = time.time()
    for d in sys.argv[1:]:
        print(build(d), "%.1fs" % (time.time() - t))

"""Builds the simulation binaries out of tree (in /verif/build) from the working tree of /repo."""
import hashlib, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SIM = os.path.join(VERIF, "sim")

DEFS = ["-DPENGUINV_ENABLED_PNG_SUPPORT", "-DPENGUINV_ENABLED_JPEG_SUPPORT"]
SUT = ["-std=c++11", "-O1", "-g", "-fno-pie", "-fsanitize=thread", "-w"] + DEFS
SCN = ["-std=c++17", "-O1", "-g", "-fno-pie", "-fsanitize=thread", "-Wall", "-Wextra", "-Wno-tsan", "-I" + SIM] + DEFS
RT = ["-std=c++17", "-O2", "-g", "-fno-pie", "-Wall", "-Wextra", "-fno-builtin-malloc", "-I" + SIM]

POOL = ["thread_pool.cpp"]
CORE = ["image_function.cpp", "image_function_simd.cpp", "image_function_helper.cpp", "penguinv/penguinv.cpp"]
FPOOL = CORE + POOL + ["function_pool.cpp", "function_pool_task.cpp"]
MATH = ["filtering.cpp", "blob_detection.cpp", "edge_detection.cpp", "fft.cpp", "math/fft_base.cpp", "math/haar_transform.cpp",
        "math/hough_transform.cpp", "math/math_base.cpp"]
KISS = ["thirdparty/kissfft/kiss_fft.c", "thirdparty/kissfft/kiss_fftnd.c"]
FILE = ["file/bmp_image.cpp", "file/png_image.cpp", "file/jpeg_image.cpp", "file/file_image.cpp"]
CUDA = ["cuda/cuda_device.cu", "cuda/cuda_fft.cu", "cuda/cuda_helper.cu", "cuda/filtering_cuda.cu", "cuda/image_function_cuda.cu"]
OPENCL = ["opencl/image_function_opencl.cpp", "opencl/opencl_device.cpp", "opencl/opencl_helper.cpp"]

# target: (library sources, scenario sources, runtime sources, link flags)
TARGETS = {
    "fpool": (FPOOL, ["scn_fpool.cpp"], ["rt.cpp", "disk.cpp"], []),
    "life": (FPOOL + MATH + KISS, ["scn_life.cpp"], ["rt.cpp", "disk.cpp"], []),
    "file": (FILE, ["scn_file.cpp"], ["rt.cpp", "disk.cpp"], ["-lpng", "-ljpeg"]),
    "lib": (CORE + MATH + KISS, ["scn_lib.cpp"], ["rt.cpp", "disk.cpp"], []),
    "types": (CORE, ["scn_types.cpp"], ["rt.cpp", "disk.cpp"], ["-Wl,--wrap=_ZN16ImageTypeManager16setFunctionTableEhRKN21Image_Function_Helper19FunctionTableHolderEb"]),
    "opencl": (CORE + OPENCL, ["scn_opencl.cpp"], ["rt.cpp", "disk.cpp", "simcl.cpp"], ["-rdynamic"]),
    "cuda": (CORE + MATH + KISS + CUDA, ["scn_cuda.cpp"], ["rt.cpp", "disk.cpp", "simcuda.cpp"], []),
    "memory": ([], ["scn_memory.cpp"], ["rt.cpp", "disk.cpp"], []),
    "ui": (["ui/ui.cpp", "ui/x11/x11_ui.cpp", "math/math_base.cpp"], ["scn_ui.cpp"], ["rt.cpp", "disk.cpp"], []),
    "uiwin": (["ui/ui.cpp", "ui/win/win_ui.cpp", "math/math_base.cpp"], ["scn_uiwin.cpp"], ["rt.cpp", "disk.cpp"], []),
    "pool": (POOL, ["scn_pool.cpp"], ["rt.cpp", "disk.cpp"], []),
}

# additional flags of library and scenario sources
FLAGS = {
    "uiwin": ["-I" + os.path.join(SIM, "win"), "-include", os.path.join(SIM, "win", "prelude.h")],
}

def _read(p):
    with open(p, "rb") as f:
        return f.read()

def _tree_hash(root, exts, skip=()):
    h = hashlib.sha256()
    for d, dn, fn in os.walk(root):
        dn.sort()
        dn[:] = [x for x in dn if x not in skip]
        for f in sorted(fn):
            if f.endswith(exts):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0" + _read(p))
    return h.hexdigest()

def _arch():
    r = subprocess.run("{ g++ --version; g++ -march=native -Q --help=target; } | sha256sum", shell=True, capture_output=True)
    return r.stdout.decode()

LAUNCH = re.compile(r"(\([^()]*(?:\([^()]*\)[^()]*)*\)|[A-Za-z_][\w:]*(?:<[^<>;]*>)?)\s*<<<(.*?)>>>\s*\(([ \t\\\n]*\))?", re.S)

def cuda_mirror():
    """the sources with kernel launches in the syntax of C++; returns their directory"""
    src = os.path.join(REPO, "src")
    h = hashlib.sha256((src + "\0" + LAUNCH.pattern + _tree_hash(os.path.join(src, "cuda"), (".cu", ".cuh", ".h"))).encode()).hexdigest()[:16]
    top = os.path.join(BUILD, "cudasrc-" + h)
    if not os.path.isdir(top):
        tmp = top + ".%d.tmp" % os.getpid()
        os.makedirs(os.path.join(tmp, "cuda"))
        for f in os.listdir(src):
            if f != "cuda":
                os.symlink(os.path.join(src, f), os.path.join(tmp, f))
        for f in os.listdir(os.path.join(src, "cuda")):
            if f.endswith((".cu", ".cuh", ".h")):
                t = _read(os.path.join(src, "cuda", f)).decode(errors="replace")
                t = LAUNCH.sub(lambda m: "SIMCUDA_LAUNCH0( %s, (%s) )" % m.group(1, 2) if m.group(3) else "SIMCUDA_LAUNCH( %s, (%s), " % m.group(1, 2), t)
                with open(os.path.join(tmp, "cuda", f), "w") as o:
                    o.write(t)
        try:
            os.rename(tmp, top)
        except OSError: # another process was faster
            shutil.rmtree(tmp)
    return top

def _cuda_flags(p, top):
    t = _read(p).decode(errors="replace")
    return (["-x", "c++", "-std=c++17"] + [x for x in SUT if not x.startswith("-std=")] + ["-ffp-contract=off", "-I" + os.path.join(SIM, "cuda"), "-I" + top]
            + (["-DSIMCUDA_GROUPED"] if re.search(r"__syncthreads|__shared__|__shfl|__syncwarp", t) else []))

def build(target, arch="native", defs=(), quiet=True):
    """returns the path of the executable"""
    sut, scn, rt, link = TARGETS[target]
    obj = os.path.join(BUILD, "obj")
    os.makedirs(obj, exist_ok=True)
    hh = _tree_hash(os.path.join(REPO, "src"), (".h", ".hpp"), ("cuda", "python") + (() if target.startswith("ui") else ("ui",)))
    sh = _tree_hash(SIM, (".h",))
    top = cuda_mirror() if target == "cuda" else os.path.join(REPO, "src")
    cu = ["-I" + os.path.join(SIM, "cuda")] if target == "cuda" else []
    own = FLAGS.get(target, [])
    if own:
        hh += sh
    a = _arch() if arch == "native" else arch
    jobs = []
    for s in sut:
        if s.endswith(".cu"):
            p = os.path.join(top, s)
            if os.path.exists(p):
                jobs.append((p, _cuda_flags(p, top) + ["-march=" + arch] + list(defs), hh + sh))
            continue
        p = os.path.join(REPO, "src", s)
        jobs.append((p, SUT + own + ["-march=" + arch] + list(defs), hh))
    for s in scn:
        jobs.append((os.path.join(SIM, s), SCN + own + ["-march=" + arch, "-I" + top] + cu + list(defs), hh + sh))
    for s in rt:
        jobs.append((os.path.join(SIM, s), RT + list(defs), sh))
    outs = _compile(jobs, sh, a, quiet)
    r, exe = _link(target, arch, outs, link)
    if r is not None and "undefined reference" in r:
        # the sources have been split differently: take all library sources which are not in the list
        have = {j[0] for j in jobs}
        extra = []
        for d in ("", "penguinv", "math", "file") + (("ui/win",) if target == "uiwin" else ()) + (("opencl",) if any("opencl" in s for s in sut) else ()):
            dd = os.path.join(REPO, "src", d)
            for f in sorted(os.listdir(dd)):
                p = os.path.join(dd, f)
                if f.endswith(".cpp") and p not in have:
                    extra.append((p, SUT + own + ["-march=" + arch] + list(defs), hh))
        if target == "cuda":
            for f in sorted(os.listdir(os.path.join(top, "cuda"))):
                p = os.path.join(top, "cuda", f)
                if f.endswith(".cu") and p not in have:
                    extra.append((p, _cuda_flags(p, top) + ["-march=" + arch] + list(defs), hh + sh))
        outs2 = _compile(extra, sh, a, quiet)
        ar = os.path.join(BUILD, "extra-%d.a" % os.getpid())
        subprocess.run(["ar", "rcs", ar] + outs2, check=True)
        n = len(jobs) - len(rt)
        r, exe = _link(target, arch, outs, link + [ar], outs2)
        os.unlink(ar)
    if r is not None:
        sys.stderr.write(r[:6000])
        raise SystemExit(2)
    return exe

def _compile(jobs, sh, a, quiet):
    obj = os.path.join(BUILD, "obj")
    outs = []
    todo = []
    for p, fl, dep in jobs:
        k = hashlib.sha256((p + "\0" + " ".join(fl) + "\0" + dep + a).encode() + _read(p)).hexdigest()[:24]
        o = os.path.join(obj, k + ".o")
        outs.append(o)
        if not os.path.exists(o):
            todo.append((p, fl, o))
    def comp(j):
        p, fl, o = j
        tmp = o + ".%d.tmp" % os.getpid()
        r = subprocess.run((["gcc"] + [x for x in fl if not x.startswith("-std=")] if p.endswith(".c") else ["g++"] + fl) + ["-c", p, "-o", tmp], capture_output=True, text=True)
        if r.returncode != 0:
            return p, r.stderr
        if r.stderr and not quiet:
            sys.stderr.write(r.stderr)
        os.rename(tmp, o)
        return None
    with ThreadPoolExecutor(8) as ex:
        bad = [x for x in ex.map(comp, sorted(todo, key=lambda j: -os.path.getsize(j[0]))) if x]
    if bad:
        for p, e in bad:
            sys.stderr.write("cannot compile %s\n%s\n" % (p, e[:4000]))
        raise SystemExit(2)
    return outs

def _link(target, arch, outs, link, more=()):
    key = hashlib.sha256(("\n".join(list(outs) + list(more)) + " ".join(link if not more else link[:-1])).encode()).hexdigest()[:16]
    exe = os.path.join(BUILD, "%s-%s-%s" % (target, arch, key))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++", "-no-pie", "-g", "-o", tmp] + list(outs) + list(link) + ["-lpthread", "-ldl"], capture_output=True, text=True)
        if r.returncode != 0:
            return r.stderr, None
        os.rename(tmp, exe)
    return None, exe

if __name__ == "__main__":
    for t in sys.argv[1:] or TARGETS:
        print(build(t, quiet=False))

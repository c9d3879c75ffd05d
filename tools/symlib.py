"""Build support: compiles the engine, /repo's sources to bitcode (for the symbolic machine) and to native objects (for replay)."""
import hashlib, os, subprocess, sys, json, time, glob, re
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYM_REPO", "/repo")
BUILD = os.environ.get("SYM_BUILD", os.path.join(VERIF, "build"))
LLVM = "/usr/lib/llvm-18/bin/"
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
JOBS = 8
SKIP = {"decoder_wic.cpp"}
STREAM_SKIP = {"windowsfileinputstream.cpp", "uwpfileinputstream.cpp", "azureblobinputstream.cpp", "curlhttpinputstream.cpp"}
COMMON = ["-std=gnu++14", "-D_FILE_OFFSET_BITS=64", "-DNDEBUG", "-D_LIBCZISTATICLIB", "-w", "-Wno-narrowing", "-fwrapv", "-fno-strict-aliasing"]
SYMFLAGS = ["-O1", "-fno-pic", "-fno-pie", "-gline-tables-only", "-DSYM_SYMBOLIC=1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-strict-return",
            "-fno-stack-protector", "-fno-delete-null-pointer-checks", "-ffp-contract=off", "-mno-avx", "-emit-llvm", "-c"]
NATFLAGS = ["-O1", "-g", "-fsanitize=address", "-fsanitize=bounds,null,integer-divide-by-zero", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-DSYM_NATIVE=1", "-c"]

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        raise RuntimeError("command failed: " + " ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-6000:])
    return r.stdout

def fhash(*paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:24]

def cached(out, key, fn):
    stamp = out + ".key"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".tmp%d" % os.getpid()
    fn(tmp)
    os.replace(tmp, out)
    open(stamp, "w").write(key)
    return out

def engine():
    d = os.path.join(VERIF, "engine")
    srcs = sorted(glob.glob(d + "/*"))
    key = fhash(*srcs)
    out = os.path.join(BUILD, "symx")
    def mk(tmp):
        os.makedirs(BUILD + "/eng", exist_ok=True)
        def cc(n):
            sh([LLVM + "clang++", "-O2", "-std=c++17", "-fexceptions", "-w", "-D_GNU_SOURCE", "-I/usr/lib/llvm-18/include", "-I" + Z3 + "/include", "-c", d + "/" + n + ".cpp", "-o", BUILD + "/eng/" + n + ".o"])
        with ThreadPoolExecutor(JOBS) as ex: list(ex.map(cc, ["expr", "solver", "exec"]))
        sh([LLVM + "clang++", "-o", tmp, BUILD + "/eng/expr.o", BUILD + "/eng/solver.o", BUILD + "/eng/exec.o", "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-L" + Z3 + "/lib", "-lz3", "-Wl,-rpath," + Z3 + "/lib", "-Wl,-rpath,/usr/lib/llvm-18/lib", "-lpthread"])
    return cached(out, key, mk)

CONFIG = {"libCZI_WINDOWSAPIAVAILABLE": "0", "libCZI_WINDOWSAPI_UWP_AVAILABLE": "0", "libCZI_ISBIGENDIANHOST": "0", "libCZI_HAVE_ENDIAN_H": "1", "libCZI_CrashOnUnalignedIntegers": "0",
          "libCZI_HAVE_ALIGNED_ALLOC": "1", "libCZI_HAVE__ALIGNED_MALLOC": "0", "libCZI_UsePreadPwriteBasedStreamImplementation": "1", "libCZI_HAS_AVXINTRINSICS": "0", "libCZI_HAS_NEOININTRINSICS": "0",
          "libCZI_libcurl_available": "0", "libCZI_AzureStorage_available": "0", "libCZI_Has_builtin_bswap32": "1", "libCZI_Has_byteswap_long_in_stdlib": "0", "libCZI_Has_bswap_long_in_sys_endian": "0",
          "libCZI_VERSION_MAJOR": "0", "libCZI_VERSION_MINOR": "67", "libCZI_VERSION_PATCH": "4"}
def gendir():
    g = os.path.join(BUILD, "gen"); os.makedirs(g, exist_ok=True)
    t = open(REPO + "/Src/libCZI/libCZI_Config.h.in").read()
    t = re.sub(r"@(\w+)@", lambda m: CONFIG.get(m.group(1), ""), t)
    p = g + "/libCZI_Config.h"
    if not os.path.exists(p) or open(p).read() != t: open(p, "w").write(t)
    return g

def includes():
    return ["-I" + gendir(), "-I" + REPO + "/Src/libCZI", "-I" + REPO + "/Src/libCZIAPI/inc", "-I" + REPO + "/Src/libCZIAPI/src", "-I" + REPO + "/Src", "-I" + VERIF + "/harness", "-isystem", "/usr/include/eigen3"]

def lib_sources():
    L = REPO + "/Src/libCZI"
    s = [f for f in sorted(glob.glob(L + "/*.cpp")) if os.path.basename(f) not in SKIP]
    s += [f for f in sorted(glob.glob(L + "/StreamsLib/*.cpp")) if os.path.basename(f) not in STREAM_SKIP]
    s += sorted(glob.glob(REPO + "/Src/libCZIAPI/src/*.cpp"))
    return s

_hh = None
FALLBACK = []
def headers_hash():
    global _hh
    if _hh is None:
        hs = []
        for d in ("Src/libCZI", "Src/libCZI/StreamsLib", "Src/libCZIAPI/inc", "Src/libCZIAPI/src"):
            for e in ("*.h", "*.hpp", "*.in"): hs += sorted(glob.glob(REPO + "/" + d + "/" + e))
        hs += sorted(f for f in glob.glob(VERIF + "/shadow/**", recursive=True) if os.path.isfile(f))
        _hh = fhash(*hs)
    return _hh
def harness_hash(): return fhash(*sorted(glob.glob(VERIF + "/harness/*.h")))

def compile_one(src, kind, defs=()):
    if kind == "sym": flags = ["-isystem", VERIF + "/shadow"] + COMMON + SYMFLAGS; ext = ".bc"
    else: flags = COMMON + NATFLAGS; ext = "." + kind + ".o"
    if kind == "natpat": flags = flags + ["-ftrivial-auto-var-init=pattern"]
    if kind == "natzero": flags = flags + ["-ftrivial-auto-var-init=zero"]
    if kind == "nattsan": flags = [f for f in flags if not f.startswith("-fsanitize=")] + ["-fsanitize=thread"]
    flags = flags + list(defs)
    if "/libCZIAPI/" in src or "capi" in os.path.basename(src): flags = [("-std=gnu++17" if f == "-std=gnu++14" else f) for f in flags] + ["-D_LIBCZIAPISTATICLIB"]
    inc = []  # sources of the library which a harness includes
    if not src.startswith(REPO + "/"): inc = [f for n in re.findall(r'^#include "(.*\.cpp)"', open(src).read(), re.M) for f in glob.glob(REPO + "/Src/*/" + n)]
    key = fhash(src, *inc, extra=headers_hash() + ("" if src.startswith(REPO + "/") else harness_hash()) + " ".join(flags))
    name = os.path.relpath(src, REPO) if src.startswith(REPO + "/") else os.path.relpath(src, VERIF)
    out = os.path.join(BUILD, kind, name.replace("/", "_") + ("_" + hashlib.md5(" ".join(defs).encode()).hexdigest()[:6] if defs else "") + ext)
    def mk(tmp):
        try: sh([LLVM + "clang++"] + flags + includes() + [src, "-o", tmp])
        except RuntimeError:
            # code using a library facility which our replacement headers lack: use the real headers (calls into libstdc++.so then end a path as "not encodable")
            if kind != "sym" or not src.startswith(REPO + "/"): raise
            f2 = list(flags); i = f2.index(VERIF + "/shadow"); del f2[i - 1:i + 1]
            sh([LLVM + "clang++"] + f2 + includes() + [src, "-o", tmp])
            FALLBACK.append(name)
    return cached(out, key, mk)

def compile_many(srcs, kind, defs=()):
    with ThreadPoolExecutor(JOBS) as ex: return list(ex.map(lambda s: compile_one(s, kind, defs), srcs))

def libbc():
    objs = compile_many(lib_sources(), "sym")
    key = fhash(*[o + ".key" for o in objs], extra=" ".join(objs))
    return cached(os.path.join(BUILD, "libczi.bc"), key, lambda tmp: sh([LLVM + "llvm-link"] + objs + ["-o", tmp]))

def runtime_bc():
    src = VERIF + "/runtime/runtime.cpp"
    flags = ["-isystem", VERIF + "/shadow"] + COMMON + SYMFLAGS + ["-fno-builtin"]
    key = fhash(src, extra=headers_hash() + " ".join(flags))
    return cached(os.path.join(BUILD, "runtime.bc"), key, lambda tmp: sh([LLVM + "clang++"] + flags + [src, "-o", tmp]))

def entries(src):
    return re.findall(r"^HARNESS\((\w+)\)", open(src).read(), re.M)

def module(hsrc, defs=()):
    """linked bitcode of one harness file with the library"""
    lb, rb = libbc(), runtime_bc()
    hb = compile_one(hsrc, "sym", defs)
    ents = entries(hsrc)
    out = hb[:-3] + ".linked.bc"
    key = fhash(hb + ".key", lb + ".key", rb + ".key", extra=",".join(ents))
    def mk(tmp):
        # the harness overrides library/runtime definitions of the same name (stubs)
        sh([LLVM + "llvm-link", hb, "--override", rb, "--only-needed", lb, "-o", tmp + ".l"]) if False else None
        sh([LLVM + "llvm-link", lb, rb, "--override=" + hb, "-o", tmp + ".l"])
        keep = ",".join(ents + ["sym_rt_throw_bad_alloc"])
        sh([LLVM + "opt", "-passes=internalize,globaldce,simplifycfg<bonus-inst-threshold=4;no-forward-switch-cond;no-switch-range-to-icmp;no-switch-to-lookup;sink-common-insts;speculate-blocks;simplify-cond-branch>", "-internalize-public-api-list=" + keep, tmp + ".l", "-o", tmp])
        os.unlink(tmp + ".l")
    return cached(out, key, mk)

import threading
_NATLOCK = threading.Lock()
def native(*a, **k):
    with _NATLOCK: return native_(*a, **k)
def native_(hsrc, entry, kind, defs=(), stubs_override=True):
    objs = compile_many(lib_sources(), kind) 
    h = compile_one(hsrc, kind, defs)
    n = compile_one(VERIF + "/runtime/native.cpp", kind, ("-DSYM_ENTRY=" + entry,))
    out = os.path.join(BUILD, kind, "replay_" + entry)
    key = fhash(h + ".key", n + ".key", *[o + ".key" for o in objs])
    san = ["-fsanitize=thread"] if kind == "nattsan" else ["-fsanitize=address", "-fsanitize=bounds,null,integer-divide-by-zero"]
    wrap = ["-Wl,--wrap=malloc", "-Wl,--wrap=calloc", "-Wl,--wrap=aligned_alloc", "-Wl,--wrap=_Znwm", "-Wl,--wrap=_Znam"]
    def mk(tmp):
        sh([LLVM + "clang++"] + san + wrap + ["-o", tmp, n, h] + objs + ["-Wl,--allow-multiple-definition", "-Wl,--unresolved-symbols=ignore-all", "-lzstd", "-lpthread"])
    return cached(out, key, mk)

if __name__ == "__main__":
    t = time.time(); engine(); print("engine %.1fs" % (time.time() - t)); t = time.time(); libbc(); print("lib %.1fs" % (time.time() - t)); t = time.time(); runtime_bc(); print("runtime %.1fs" % (time.time() - t))

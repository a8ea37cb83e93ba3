"""Builds harnesses from /repo's *current working tree* (sources and headers), with an
object cache keyed by the preprocessed text, so that any change of what the compiler
sees is rebuilt.  Nothing under /repo/_build is used."""
import hashlib, json, os, re, subprocess, sys, glob, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
JOBS = os.cpu_count() or 8
COMPAT = "/opt/vp/support/compat/opencv4_compat.hpp"

class BuildError(Exception):
    pass

EXCLUDE = {"utils": ("cuda.cpp", "opengl"), "imgproc": ("SLIC.cpp", "SegmMatcher.cpp"),
           "datasets": (), "features2d": (), "video": (), "vptz": ()}
DEPS = {"utils": [], "features2d": ["utils"], "imgproc": ["features2d", "utils", "ofdis"],
        "datasets": ["imgproc", "features2d", "utils", "bsds500", "ofdis"],
        "video": ["imgproc", "features2d", "utils", "ofdis"],
        "vptz": [], "bsds500": [], "ofdis": [], "sospd": []}

def module_dir(m):
    return os.path.join(REPO, "3rdparty" if m in ("bsds500", "ofdis", "sospd") else "modules", m)

def module_sources(m):
    base = os.path.join(module_dir(m), "src")
    out = []
    for pat in ("*.cpp", "*.c", "impl/*.cpp", "fdf/*.cpp", "fdf/*.c"):
        out += glob.glob(os.path.join(base, pat))
    ex = EXCLUDE.get(m, ())
    return sorted(f for f in out if not any(os.path.basename(f).startswith(x) for x in ex))

def gen_headers():
    """configure_file() stand-in: fills the templates of the current tree with the values the
    sandbox's CMake configuration uses (GPU back-ends off: they cannot run here)."""
    vals = json.load(open(os.path.join(VERIF, "mc", "config_values.json")))
    inc = os.path.join(BUILD, "gen")
    for tmpl, rel, over in (("utils/include/litiv/utils/defines.hpp", "litiv/utils/defines.hpp", {}), ("vptz/include/litiv/vptz/utils.hpp", "litiv/vptz/utils.hpp", {}),
                            ("utils/include/litiv/utils/defines.hpp", "litiv/vptz/defines.hpp", {"USE_GLSL": "ON"})):
        src = os.path.join(REPO, "modules", tmpl + ".in")
        if not os.path.exists(src):
            continue
        txt = open(src, newline="").read()
        txt = re.sub(r"@([A-Za-z0-9_]+)@", lambda m: over.get(m.group(1), vals.get(m.group(1), "")), txt)
        txt = re.sub(r"\$\{([A-Za-z0-9_]+)\}", lambda m: over.get(m.group(1), vals.get(m.group(1), "")), txt)
        dst = os.path.join(inc, rel)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        if not os.path.exists(dst) or open(dst, newline="").read() != txt:
            tmp = dst + ".%d" % os.getpid()
            open(tmp, "w", newline="").write(txt)
            os.replace(tmp, dst)
    return inc

MODES = {
    # address sanitizer, moderate optimisation: the default for input/history enumeration
    "asan": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    # plain optimised build, for very large enumerations
    "fast": ["-O2", "-g1"],
    # thread-sanitizer *instrumentation* only; linked with our own runtime (mc/sched_tsan.cpp)
    "race": ["-O1", "-g1", "-fsanitize=thread", "-Wno-tsan"],
    # genuine ThreadSanitizer build, free-running supplementary pass
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
    "plain": ["-O1", "-g1"],
}

def flags_for(mods, mode, extra):
    inc = [os.path.join(BUILD, "gen")]
    for m in ("datasets", "video", "vptz", "imgproc", "features2d", "utils", "ofdis", "bsds500", "sospd", "test"):
        inc.append(os.path.join(module_dir(m), "include"))
    f = ["-std=gnu++14", "-fPIC", "-w", "-fpermissive", "-march=x86-64-v3", "-fopenmp", "-DNDEBUG",
         "-DLITIV_DEBUG=0", "-DDATASETS_LITIV2018_DATA_VERSION=2", "-DLITIV_VERIF=1"]
    f += MODES[mode]
    f += ["-I" + i for i in inc] + ["-isystem", "/usr/include/opencv4", "-isystem", "/usr/include/eigen3",
          "-I" + os.path.join(VERIF, "mc"), "-I" + os.path.join(VERIF, "harness"), "-include", COMPAT]
    return f + list(extra)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)

def compile_one(src, flags):
    is_c = src.endswith(".c")
    cc = "gcc" if is_c else "g++"
    fl = list(flags)
    if is_c:
        fl = [x for x in fl if not x.startswith("-std=") and x != "-fpermissive"]
        i = fl.index("-include"); del fl[i:i + 2]
    pre = sh([cc] + fl + ["-E", src])
    if pre.returncode != 0:
        raise BuildError("preprocess failed: %s\n%s" % (src, pre.stderr.decode(errors="replace")[-3000:]))
    h = hashlib.sha256()
    h.update(" ".join([cc] + [x for x in fl if not x.startswith("-I")]).encode())
    h.update(pre.stdout)
    cache = os.path.join(BUILD, "cache")
    os.makedirs(cache, exist_ok=True)
    obj = os.path.join(cache, os.path.basename(src) + "-" + h.hexdigest()[:24] + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp.o" % os.getpid()
        r = sh([cc] + fl + ["-c", src, "-o", tmp])
        if r.returncode != 0:
            raise BuildError("compile failed: %s\n%s" % (src, r.stderr.decode(errors="replace")[-4000:]))
        os.replace(tmp, obj)
    return obj

OPENCV = ["core", "imgproc", "imgcodecs", "highgui", "videoio", "features2d", "calib3d", "video",
          "ximgproc", "flann", "objdetect", "photo", "ml", "optflow"]

def build(name, sources, modules, mode="asan", extra=(), ldextra=()):
    """Returns the path of an executable linking `sources` (under /verif) with the given litiv modules."""
    gen_headers()
    flags = flags_for(modules, mode, extra)
    mods = []
    for m in modules:
        for d in [m] + DEPS[m]:
            if d not in mods:
                mods.append(d)
    files = [s if os.path.isabs(s) else os.path.join(VERIF, s) for s in sources]
    modfiles = []
    for m in mods:
        modfiles += module_sources(m)
    # big files first
    allf = sorted(files + modfiles, key=lambda p: -os.path.getsize(p) - (10**6 if p in files else 0))
    with ThreadPoolExecutor(JOBS) as ex:
        mcdir = os.path.join(VERIF, "mc") + os.sep
        plain = [x for x in flags if not x.startswith("-fsanitize")] + (["-DMC_RACE=1"] if mode == "race" else [])
        objs = dict(zip(allf, ex.map(lambda f: compile_one(f, plain if f.startswith(mcdir) else flags), allf)))
    order = [objs[f] for f in files + modfiles]
    h = hashlib.sha256(" ".join(order + list(ldextra) + [mode]).encode()).hexdigest()[:20]
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    exe = os.path.join(BUILD, "bin", "%s-%s-%s" % (name, mode, h))
    if not os.path.exists(exe):
        san = [x for x in MODES[mode] if x.startswith("-fsanitize")]
        if mode == "race":
            san = []
        tmp = exe + ".%d.tmp" % os.getpid()
        cmd = ["g++", "-rdynamic", "-fopenmp"] + san + order + ["-Wl,--as-needed"] + \
              ["-lopencv_" + x for x in OPENCV if os.path.exists("/usr/lib/x86_64-linux-gnu/libopencv_%s.so" % x)] + \
              list(ldextra) + ["-lpthread", "-ldl", "-lrt", "-o", tmp]
        r = sh(cmd)
        if r.returncode != 0:
            raise BuildError("link failed: %s\n%s" % (name, r.stderr.decode(errors="replace")[-6000:]))
        os.replace(tmp, exe)
    return exe

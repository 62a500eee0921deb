"""Builds the code under test (from /repo's current working tree) and the
harnesses, outside /repo, with an object cache keyed by content."""
import hashlib, os, re, threading, subprocess, sys, glob, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
JOBS = min(8, os.cpu_count() or 8)

BASE = ["-pthread", "-D_FILE_OFFSET_BITS=64", "-D_GNU_SOURCE", "-fno-omit-frame-pointer", "-w"]
VARIANTS = {
    "plain": (["gcc", "g++"], ["-O1", "-g1"], []),
    "o2":    (["gcc", "g++"], ["-O2", "-g1"], []),
    "asan":  (["gcc", "g++"], ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS"],
              ["-fsanitize=address,undefined"]),
    "tsan":  (["clang", "clang++"], ["-O1", "-g1", "-fsanitize=thread"], ["-fsanitize=thread"]),
    "dbg":   (["gcc", "g++"], ["-O1", "-g1", "-D_GLIBCXX_DEBUG", "-D_GLIBCXX_DEBUG_PEDANTIC"], []),
    "cov":   (["gcc", "g++"], ["-O0", "-g1", "--coverage"], ["--coverage"]),
}

class BuildError(Exception):
    pass

def _h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else str(p).encode())
        m.update(b"\0")
    return m.hexdigest()[:32]

def _read(p):
    with open(p, "rb") as f:
        return f.read()

_hdr_cache = {}
def _hdr_hash(dirs):
    key = tuple(dirs)
    if key not in _hdr_cache:
        l = []
        for d in dirs:
            for r, _, fs in sorted(os.walk(d)):
                if "/.git" in r:
                    continue
                for f in sorted(fs):
                    if f.endswith((".h", ".hpp", ".inc")):
                        p = os.path.join(r, f)
                        l += [p, _read(p)]
        _hdr_cache[key] = _h(*l)
    return _hdr_cache[key]

def _gen_dir():
    """generated sources (normally made by the Makefiles)"""
    d = os.path.join(OUT, "gen")
    os.makedirs(d, exist_ok=True)
    txt = _read(os.path.join(REPO, "src/bees-usage.txt")).decode("utf-8", "replace")
    usage = "const char *BEES_USAGE = \n" + "".join('"%s\\n"\n' % l for l in txt.split("\n")[:-1]) + ";\n"
    ver = 'const char *BEES_VERSION = "verif";\n'
    cfg = "#ifndef _CONFIGURE_H\n#define ETC_PREFIX \"/etc\"\n#define _CONFIGURE_H\n#endif\n"
    for n, c in (("bees-usage.c", usage), ("bees-version.c", ver), ("configure.h", cfg)):
        p = os.path.join(d, n)
        if not os.path.exists(p) or _read(p).decode() != c:
            t = p + ".%d.%d" % (os.getpid(), threading.get_ident())
            with open(t, "w") as f:
                f.write(c)
            os.replace(t, p)
    return d

def _compile(src, variant, extra, hdirs):
    (cc, cxx), flags, _ = VARIANTS[variant]
    is_c = src.endswith(".c")
    gen = _gen_dir()
    cmd = [cc if is_c else cxx] + BASE + flags + ["-std=c99" if is_c else "-std=c++17"] + extra + \
          ["-I" + os.path.join(REPO, "include"), "-I" + gen, "-I" + os.path.join(REPO, "lib"), "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(VERIF, "fsim"), "-I" + os.path.join(VERIF, "mon")]
    key = _h(" ".join(cmd), src, _read(src), _hdr_hash(hdirs), _read(os.path.join(gen, "configure.h")))
    d = os.path.join(OUT, "obj")
    os.makedirs(d, exist_ok=True)
    o = os.path.join(d, key + ".o")
    if os.path.exists(o):
        return o
    t = o + ".%d.%d.tmp.o" % (os.getpid(), threading.get_ident())
    p = subprocess.run(cmd + ["-c", "-o", t, src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError("compile failed: %s\n%s" % (src, p.stdout.decode("utf-8", "replace")[:6000]))
    os.rename(t, o)
    return o

def compile_all(jobs):
    """jobs: list of (src, variant, extra, hdirs)"""
    with ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(lambda j: _compile(*j), jobs))

RH = lambda: [os.path.join(REPO, "include"), os.path.join(REPO, "lib"), os.path.join(REPO, "src")]
VH = lambda: [os.path.join(VERIF, "fsim"), os.path.join(VERIF, "mon")]

def link(objs, variant, name, ldflags=()):
    (_, cxx), flags, lf = VARIANTS[variant]
    lf = list(lf) + list(ldflags)
    key = _h(cxx, " ".join(lf), *[os.path.basename(o) for o in objs])
    d = os.path.join(OUT, "bin")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "%s-%s-%s" % (name, variant, key[:12]))
    if os.path.exists(out):
        return out
    t = out + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
    p = subprocess.run([cxx] + ["-pthread", "-o", t] + objs + lf + ["-latomic", "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError("link failed: %s\n%s" % (name, p.stdout.decode("utf-8", "replace")[-6000:]))
    os.rename(t, out)
    return out

def _srcs(d):
    return sorted(glob.glob(os.path.join(REPO, d, "*.cc")))

def lib_jobs(variant, extra=()):
    return [(s, variant, ["-DBEES_VERIF"] + list(extra), [os.path.join(REPO, "include"), os.path.join(REPO, "lib")]) for s in _srcs("lib")]

def src_jobs(variant, extra=(), main=True):
    gen = _gen_dir()
    j = [(s, variant, ["-DBEES_VERIF"] + list(extra), RH()) for s in _srcs("src") if os.path.basename(s) not in ("fiemap.cc", "fiewalk.cc")]
    for s in sorted(glob.glob(os.path.join(REPO, "src", "*.c"))):
        if os.path.basename(s) not in ("bees-usage.c", "bees-version.c"):
            j.append((s, variant, ["-DBEES_VERIF"], RH()))
    j += [(os.path.join(gen, n), variant, [], []) for n in ("bees-usage.c", "bees-version.c")]
    return j

def wrap_flags(shim):
    t = _read(shim).decode()
    for i in re.findall(r'#include "([^"]+)"', t):
        i = os.path.join(os.path.dirname(shim), i)
        if os.path.exists(i):
            t += _read(i).decode()
    names = sorted(set(re.findall(r"\b__wrap_(\w+)\s*\(", t)))
    return ["-Wl,--wrap=" + n for n in names]

def sut(variant="plain", also=()):
    """the daemon linked with the system call shim"""
    shim = os.path.join(VERIF, "fsim/shim.cc")
    sv = "plain" if variant == "tsan" else variant   # the static run-time library calls wrapped functions before it is initialised
    jobs = lib_jobs(variant) + src_jobs(variant) + [(shim, sv, [], VH())] + list(also)
    objs = compile_all(jobs)
    n = len(objs) - len(also)
    return link(objs[:n], variant, "bees", wrap_flags(shim)), objs[n:]

def harness_jobs():
    return [(os.path.join(VERIF, "fsim", f), "plain" , ["-O2"], VH()) for f in ("sim.cc", "server.cc", "harness.cc", "scenarios.cc", "scen_crash.cc", "scen_misc.cc", "scen_opts.cc")]

def sut_and_harness(variant="plain"):
    b, objs = sut(variant, harness_jobs())
    h = link(objs, "plain", "fsim")
    return b, h

def libprog(variant, src, extra=(), ldflags=(), with_lib=True, with_src=False, skip_src=(), shim=None):
    """a monitor program linked with libcrucible (and optionally with the daemon's objects)"""
    jobs = [(os.path.join(VERIF, "mon", src), variant, ["-DBEES_VERIF"] + list(extra), RH() + VH())]
    if with_lib:
        jobs += lib_jobs(variant)
    if with_src:
        jobs += [j for j in src_jobs(variant, ["-Dmain=bees_real_main"] if with_src == "nomain" else []) if os.path.basename(j[0]) not in skip_src]
    ld = list(ldflags)
    if shim:
        s = os.path.join(VERIF, shim)
        jobs.append((s, variant, [], RH() + VH()))
        ld += wrap_flags(s)
    objs = compile_all(jobs)
    return link(objs, variant, os.path.splitext(os.path.basename(src))[0], ld)

def prune(limit=3 << 30):
    fs = [(os.stat(p).st_mtime, os.stat(p).st_size, p) for p in glob.glob(OUT + "/obj/*") + glob.glob(OUT + "/bin/*")]
    tot = sum(f[1] for f in fs)
    for f in sorted(fs):
        if tot < limit:
            break
        os.unlink(f[2]); tot -= f[1]

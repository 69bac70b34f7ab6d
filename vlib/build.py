"""Builds instrumented variants of sigscheme from /repo's working tree.

variant name = "<mode>-<layout>", layout in compact|fatty|hygienic and mode:
  san   clang -O1, ASan + UBSan, every report fatal
  mem   clang -O1, MSan (uninitialised memory), every report fatal
  opt   gcc -O2, no sanitizer (the product's own optimisation level)
  cov   like opt, with gcov counters (thorough statistics only)
All with -DSCM_VERIF_HOOKS=1.  Results are cached by a hash of every input, so
a changed source file always gives a fresh build.
"""
import concurrent.futures
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
GUARD = "SCM_VERIF_HOOKS"

CORE = """alloc storage storage-gc error symbol env eval syntax procedure list
module sigscheme continuation scmport-file scmport-basechar encoding
scmport-mbchar format qquote legacy-macro promise number number-io char string
string-procedure vector port read write load deep-cadrs module-sscm-ext
module-srfi1 module-srfi2 module-srfi6 scmport-str module-srfi8 module-srfi9
module-srfi23 module-srfi28 module-srfi34 module-srfi38 module-srfi43
module-srfi48 module-srfi55 module-srfi60""".split()

TABLES = [("sscm-core", ["error", "module"]), ("r5rs-core", ["eval", "list", "procedure"])]
TABLES += [("r5rs-" + n, [n]) for n in
           "syntax qquote macro promise number number-io char string string-procedure "
           "vector port read write load deep-cadrs".split()]
TABLES += [("legacy-macro", ["legacy-macro"]), ("sscm-ext", ["module-sscm-ext"]),
           ("siod", ["module-siod"])]
TABLES += [("srfi" + n, ["module-srfi" + n]) for n in
           "1 2 6 8 9 23 28 34 38 43 48 55 60".split()]

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all",
       "-fno-sanitize=function", "-fsanitize-address-use-after-return=never",
       "-fno-omit-frame-pointer"]
MSAN = ["-fsanitize=memory", "-fno-sanitize-memory-param-retval", "-fno-sanitize-recover=all"]
MODES = {
    "san": ("clang", ["-O1", "-g1"] + SAN, SAN),
    "mem": ("clang", ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize-ignorelist=" + os.path.join(VERIF, "config", "msan.ignore")] + MSAN, MSAN),
    "opt": ("gcc", ["-O2", "-g1"], []),
    "clo": ("clang", ["-O2", "-g1"], []),
    "gos": ("gcc", ["-Os", "-g1"], []),
    "cov": ("gcc", ["-O0", "-g", "--coverage"], ["--coverage"]),
}


class BuildError(Exception):
    pass


def _sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode("utf-8", "replace")[-4000:]))
    return p.stdout


def _inputs():
    pats = ["src/*.c", "src/*.h", "tools/*", "include/**/*.h"]
    files = []
    for p in pats:
        files += glob.glob(os.path.join(REPO, p), recursive=True)
    files = [f for f in files if os.path.isfile(f) and "functable-" not in os.path.basename(f)
             or f.endswith("functable-header.txt") or f.endswith("functable-footer.txt")]
    files += glob.glob(os.path.join(VERIF, "c", "*")) + glob.glob(os.path.join(VERIF, "config", "*"))
    files += [os.path.abspath(__file__)]
    return sorted(set(files))


def tree_hash():
    h = hashlib.sha256()
    for f in _inputs():
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]


_hash = None


def cached_hash():
    global _hash
    if _hash is None:
        _hash = tree_hash()
    return _hash


def _prune():
    """Keep the five most recent builds."""
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD)]
        ds = [d for d in ds if os.path.isdir(d) and os.path.basename(d).count("-") >= 2]
        ds.sort(key=os.path.getmtime, reverse=True)
        for d in ds[24:]:
            if time.time() - os.path.getmtime(d) > 600:
                shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


def build(variant, drivers=("drv",)):
    """Returns the directory with sscm, libsscm.a and the requested drivers."""
    mode, layout = variant.split("-", 1)
    d = os.path.join(BUILD, "%s-%s" % (variant, cached_hash()))
    os.makedirs(d, exist_ok=True)
    with open(d + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(d, "ok")):
            _prune()
            _build_lib(d, mode, layout)
            open(os.path.join(d, "ok"), "w").close()
        os.utime(d)
        for drv in drivers:
            _build_driver(d, mode, layout, drv)
    return d


def flags(d, mode):
    cc, cf, lf = MODES[mode]
    base = ["-DHAVE_CONFIG_H", "-DNDEBUG", "-D%s=1" % GUARD,
            '-DPKGDATADIR="/nonexistent/sigscheme"', '-DSCMLIBDIR="/nonexistent/sigscheme/lib"',
            "-I" + d, "-I" + os.path.join(d, "include"), "-I" + os.path.join(REPO, "src"),
            "-DSCM_COMPILING_LIBSSCM=1", "-w"]
    return cc, cf + base, lf


def _build_lib(d, mode, layout):
    cc, cf, lf = flags(d, mode)
    shutil.copy(os.path.join(VERIF, "config", layout + ".h"), os.path.join(d, "config.h"))
    inc = os.path.join(d, "include", "sigscheme")
    shutil.rmtree(os.path.join(d, "include"), ignore_errors=True)
    os.makedirs(inc)
    for h in glob.glob(os.path.join(REPO, "src", "*.h")):
        if os.path.basename(h) != "config.h":
            os.symlink(h, os.path.join(inc, os.path.basename(h)))
    os.symlink(os.path.join(d, "config.h"), os.path.join(inc, "config.h"))
    srcs = list(CORE) + (["macro"] if layout == "hygienic" else [])
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        def tab(t):
            name, fs = t
            out = os.path.join(d, "functable-%s.c" % name)
            _sh(["ruby", "-I" + os.path.join(REPO, "tools"),
                 os.path.join(REPO, "tools", "build_func_table.rb"), out,
                 "scm_functable_" + name.replace("-", "_")]
                + [os.path.join(REPO, "src", f + ".c") for f in fs])
        list(ex.map(tab, TABLES))

        def comp(s):
            _sh([cc] + cf + ["-c", os.path.join(REPO, "src", s + ".c"),
                             "-o", os.path.join(d, s + ".o")], cwd=d)
        list(ex.map(comp, srcs + ["main"]))
    lib = os.path.join(d, "libsscm.a")
    if os.path.exists(lib):
        os.unlink(lib)
    _sh(["ar", "rcs", lib] + [os.path.join(d, s + ".o") for s in srcs])
    _sh([cc] + lf + ["-o", os.path.join(d, "sscm"), os.path.join(d, "main.o"), lib, "-lgcroots"])


# drivers that replace the allocator entry points at link time
ALLOC = ["malloc", "calloc", "realloc", "strdup", "strndup", "reallocarray", "memalign", "aligned_alloc",
         "vasprintf", "asprintf", "posix_memalign", "free"]
WRAP = {"drv": ALLOC, "cycle": ALLOC, "api": ALLOC}


def _build_driver(d, mode, layout, drv):
    out = os.path.join(d, drv)
    if os.path.exists(out):
        return
    cc, cf, lf = flags(d, mode)
    wrap = ["-Wl,--wrap=" + w for w in WRAP.get(drv, [])]
    _sh([cc] + cf + ["-o", out + ".tmp", os.path.join(VERIF, "c", drv + ".c")] + lf + wrap
        + [os.path.join(d, "libsscm.a"), "-lgcroots"])
    os.rename(out + ".tmp", out)


if __name__ == "__main__":
    t = time.time()
    for v in sys.argv[1:]:
        print(build(v), "%.1fs" % (time.time() - t))

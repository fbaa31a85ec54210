"""Lowers /repo's current sources to LLVM bitcode, in a scratch directory.

Nothing is cached between runs: each check lowers what it analyses from the
working tree it is pointed at.  A module ("unit") is one library of the project
compiled with the preprocessor settings its Makefile uses, linked into one
bitcode file.
"""
import concurrent.futures as cf
import glob, os, re, subprocess, sys, tempfile, shutil, atexit

LLVM = "/usr/lib/llvm-18/bin"
CLANG, CLANGXX, LLVMLINK = LLVM + "/clang", LLVM + "/clang++", LLVM + "/llvm-link"
REPO = os.environ.get("APA_REPO", "/repo")
JAVA_HOME = "/usr/lib/jvm/java-17-openjdk-amd64"

# sources that are programs or test drivers, not part of the library
PROGRAM = re.compile(r"(^|/)(?!pk_test\.c$)(.*test.*|.*example.*)\.(c|cc)$")

INC = ["num", "itv", "apron", "newpolka", "box", "octagons", "avoct", "ppl",
       "products", "taylor1plus", "fppol", "apronxx"]

BASE = ["-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fno-discard-value-names",
        "-emit-llvm", "-c", "-w", "-fPIC", "-UNDEBUG"]
NDEBUG = ["-DNDEBUG"]


class Unit:
    def __init__(self, name, dirs, flags=(), exclude=(), only=(), cxx=False, gen=None):
        self.gen = gen
        self.name, self.dirs, self.flags = name, dirs, list(flags)
        self.exclude, self.only, self.cxx = exclude, only, cxx


def U(name, dirs, num=None, **kw):
    return Unit(name, dirs, ["-DNUM_" + num] if num else [], **kw)


UNITS = {u.name: u for u in [
    U("apron", ["apron"]),
    U("itv_MPQ", ["itv"], "MPQ"), U("itv_D", ["itv"], "DOUBLE"), U("itv_MPFR", ["itv"], "MPFR"),
    U("itv_Il", ["itv"], "LONGINT"), U("itv_Rll", ["itv"], "LONGLONGRAT"),
    U("box_MPQ", ["box"], "MPQ"), U("box_D", ["box"], "DOUBLE"), U("box_MPFR", ["box"], "MPFR"),
    U("oct_MPQ", ["octagons"], "MPQ"), U("oct_D", ["octagons"], "DOUBLE"),
    U("oct_MPFR", ["octagons"], "MPFR"), U("oct_Il", ["octagons"], "LONGINT"),
    U("avo_MPQ", ["avoct"], "MPQ"), U("avo_D", ["avoct"], "DOUBLE"), U("avo_MPFR", ["avoct"], "MPFR"),
    U("pk_MPQ", ["newpolka"], "MPQ"), U("pk_Rll", ["newpolka"], "LONGLONGRAT"),
    U("t1p_MPQ", ["taylor1plus"], "MPQ"), U("t1p_D", ["taylor1plus"], "DOUBLE"),
    U("t1p_MPFR", ["taylor1plus"], "MPFR"),
    U("fppol_D", ["fppol"], None),
    U("ppl", ["ppl"], None, cxx=True),
    U("products", ["products"], "MPQ"),
    U("japron", ["japron/apron"], None, exclude=("apron_Pplite.c",)), U("jgmp", ["japron/gmp"], None),
    U("japron_t", ["japron/apron"], None, exclude=("apron_Pplite.c",)), U("jgmp_t", ["japron/gmp"], None),
    U("jnative", ["japron"], None, gen="jnative"),
    U("apronxx", ["apronxx"], None, cxx=True),
    U("apronxx_all", ["apronxx"], None, cxx=True, gen="apronxx_all"),
]}
for _n in ("japron_t", "jgmp_t"):
    UNITS[_n].flags = UNITS[_n].flags + ["-O1", "-Xclang", "-disable-llvm-passes"]  # types of the functions called, in the debug information
UNITS["fppol_D"].flags = ["-DNUM_DOUBLE", "-DNUMFLT_PRINT_PREC=20"]


# sources the project compiles several times (apron/Makefile: C_FILES_AUX)
PERFILE = {"ap_linearize_aux.c": [["-DNUM_MPQ"], ["-DNUM_DOUBLE"], ["-DNUM_MPFR"]]}


def gen_apronxx_all(work):
    """One file that instantiates every inline function of the C++ headers."""
    d = os.path.join(REPO, "apronxx")
    hh = sorted(glob.glob(os.path.join(d, "*.hh")))
    inc = []
    for h in hh:
        for m in re.finditer(r'^[ \t]*#[ \t]*include[ \t]*(<[^>]+>|"[^"]+\.h")', open(h, encoding="latin-1").read(), re.M):
            if m.group(1) not in inc:
                inc.append(m.group(1))
    out = os.path.join(work, "apronxx_all.cc")
    with open(out, "w") as f:
        for i in inc:
            f.write("#include %s\n" % i)
        f.write("#define inline inline __attribute__((used))\n")
        for h in hh:
            if not h.endswith("_inline.hh"):
                f.write('#include "%s"\n' % h)
    return [out]


def gen_jnative(work):
    """One function that calls every native method the Java classes declare, with the declared types."""
    h = jni_headers(work)
    out = os.path.join(work, "jnative.c")
    body, inc = [], []
    for f in sorted(glob.glob(os.path.join(h, "*.h"))):
        if os.path.basename(f).startswith("apron_Pplite"):
            continue
        inc.append(os.path.basename(f))
        for m in re.finditer(r'JNIEXPORT\s+(\w+)\s+JNICALL\s+(\w+)\s*\(([^)]*)\)', open(f).read()):
            body.append("  %s(%s);" % (m.group(2), ", ".join("0" for _ in m.group(3).split(","))))
    with open(out, "w") as f:
        f.write("#include <jni.h>\n" + "".join('#include "%s"\n' % i for i in inc))
        f.write("void apa_native_methods(void) {\n" + "\n".join(body) + "\n}\n")
    return [out]


class LowerError(Exception):
    pass


def scratch():
    d = tempfile.mkdtemp(prefix="apa-")
    atexit.register(shutil.rmtree, d, True)
    return d


def unit_sources(u, work=None):
    if u.gen:
        return globals()["gen_" + u.gen](work) if work else []
    out = []
    for d in u.dirs:
        for f in sorted(glob.glob(os.path.join(REPO, d, "*.cc" if u.cxx else "*.c"))):
            b = os.path.basename(f)
            if PROGRAM.search(b) or b in u.exclude:
                continue
            if u.only and b not in u.only:
                continue
            out.append(f)
    return out


def incflags(work):
    fl = ["-I" + os.path.join(REPO, d) for d in INC]
    fl += ["-I" + os.path.join(REPO, "japron"), "-I" + os.path.join(REPO, "japron/gmp"),
           "-I" + os.path.join(REPO, "japron/apron"),
           "-I" + JAVA_HOME + "/include", "-I" + JAVA_HOME + "/include/linux",
           "-I" + os.path.join(work, "jni"), "-I" + os.path.join(work, "gen")]
    return fl


def version_header(work):
    """apron/ap_version.h, which apron/Makefile generates from version.mk."""
    d = os.path.join(work, "gen")
    if os.path.isdir(d):
        return
    os.makedirs(d)
    with open(os.path.join(d, "ap_version.h"), "w") as f:
        f.write('#ifndef AP_VERSION\n#define AP_VERSION_MAJOR 0\n#define AP_VERSION_MINOR 0\n'
                '#define AP_VERSION_MICRO 0\n#define AP_VERSION "0.0.0"\n#endif\n')


def jni_headers(work):
    """javac -h: the C headers of the native methods, from the Java sources."""
    h = os.path.join(work, "jni")
    if os.path.isdir(h):
        return h
    os.makedirs(h)
    cls = os.path.join(work, "classes")
    os.makedirs(cls, exist_ok=True)
    src = [f for p in ("gmp", "apron")
           for f in sorted(glob.glob(os.path.join(REPO, "japron", p, "*.java")))
           if not os.path.basename(f).startswith("Test")]
    r = subprocess.run([JAVA_HOME + "/bin/javac", "-nowarn", "-h", h, "-d", cls] + src,
                       capture_output=True, text=True)
    if r.returncode:
        raise LowerError("javac failed:\n" + r.stderr[-3000:])
    return h


def compile_one(src, out, flags, work, cxx=False):
    cmd = [CLANGXX if cxx else CLANG] + BASE + flags + incflags(work) + \
          (["-std=c++17", "-fstandalone-debug"] if cxx else ["-std=gnu99"]) + ["-o", out, src]
    r = subprocess.run(cmd, capture_output=True, text=True, cwd=work)
    if r.returncode:
        raise LowerError("lowering of %s failed:\n%s" % (src, r.stderr[-3000:]))
    return out


def build(names, work, extra=(), srcs=None):
    """Lower the named units, link each; returns {name: bitcode path}."""
    version_header(work)
    if any(n in ("japron", "jgmp", "japron_t", "jgmp_t", "jnative") for n in names):
        jni_headers(work)
    jobs, parts = [], {}
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for n in names:
            u = UNITS[n]
            ss = unit_sources(u, work)
            if not ss:
                raise LowerError("unit %s has no sources" % n)
            parts[n] = []
            for s in ss:
                for k, fl in enumerate(PERFILE.get(os.path.basename(s), [[]])):
                    o = os.path.join(work, "%s__%s.%d.bc" % (n, os.path.basename(s), k))
                    parts[n].append(o)
                    jobs.append(ex.submit(compile_one, s, o, u.flags + fl + list(extra), work, u.cxx))
        for j in jobs:
            j.result()
    res = {}
    for n in names:
        o = os.path.join(work, n + ".bc")
        link(parts[n], o)
        res[n] = o
    return res


def link(parts, out):
    r = subprocess.run([LLVMLINK, "-o", out] + list(parts), capture_output=True, text=True)
    if r.returncode:
        raise LowerError("llvm-link failed:\n" + r.stderr[-2000:])
    return out

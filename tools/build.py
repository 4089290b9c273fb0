#!/usr/bin/env python3
"""Builds one check of /verif from /repo's current working tree (and nothing else).

usage: build.py TARGET [VARIANT]     prints the path of the executable
Object files are kept in /verif/.build/<variant>; a ninja file with header dependencies decides what is rebuilt.
"""
import glob
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KNP_REPO", "/repo")
K = REPO + "/knp"

# target -> components of the repository it links
TARGETS = {}
with open(VERIF + "/tools/targets.txt") as f:
    for line in f:
        line = line.split("#")[0].split()
        if line:
            TARGETS[line[0]] = line[1:]


def srcs(pattern, exclude=()):
    return sorted(p for p in glob.glob(K + "/" + pattern, recursive=True) if not any(e in p for e in exclude))


def component(name):
    if name == "core":
        return srcs("core-library/impl/**/*.cpp")
    if name == "dev":
        return [K + "/backends/cpu/cpu-devices/impl/unknown_cpu.cpp"]
    if name == "pool":
        return srcs("backends/cpu/thread_pool/impl/*.cpp")
    if name == "st":
        return srcs("backends/cpu/cpu-single-threaded-backend/impl/*.cpp")
    if name == "mt":
        return srcs("backends/cpu/cpu-multi-threaded-backend/impl/*.cpp")
    if name == "fw":
        return srcs("base-framework/impl/**/*.cpp", ("/sonata/", "/storage/", "/visualizer/"))
    if name == "vis":
        return srcs("base-framework/impl/visualizer/*.cpp")
    if name == "sonata":
        return srcs("base-framework/impl/sonata/**/*.cpp")
    if name == "storage":
        return srcs("base-framework/impl/storage/**/*.cpp")
    if name == "engine":
        return [VERIF + "/lib/vp.cpp"]
    raise SystemExit("unknown component " + name)


INC = [
    K + "/core-library/include", K + "/core-library/impl", K + "/neuron-traits-library/include",
    K + "/synapse-traits-library/include", K + "/meta-library/include", K + "/base-framework/include",
    K + "/backends/cpu/cpu-library/include", K + "/backends/cpu/cpu-library/impl",
    K + "/backends/cpu/cpu-devices/include", K + "/backends/cpu/thread_pool/include",
    K + "/backends/cpu/cpu-single-threaded-backend/include", K + "/backends/cpu/cpu-multi-threaded-backend/include",
]

SAN = {
    "asan": "-fsanitize=address -fno-omit-frame-pointer",
    "plain": "",
    "tsan": "-fsanitize=thread",
    "cov": "-fsanitize=address -fno-omit-frame-pointer",
}


def python_package(bdir, w, obj, modules):
    """The Python package, laid out as the repository's build does. Sonata (HighFive is not installed) is left out."""
    made = []
    root = K + "/python-framework"
    stub = VERIF + "/harness/so/c32_no_network_io.cpp"

    def copy(src, dst):
        w(f"build {dst}: copy {src}")
        made.append(dst)

    w("rule copy\n  command = cp -f $in $out")
    for f in sorted(glob.glob(root + "/packaging/python/*.py")):
        copy(f, f"{bdir}/py/knp/{os.path.basename(f)}")
    for m in modules:
        for f in sorted(glob.glob(f"{root}/impl/{m}/python/*.py")):
            copy(f, f"{bdir}/py/knp/{m}/{os.path.basename(f)}")
        out = f"{bdir}/py/knp/{m}/_knp_python_framework_{m}.so"
        files = [f for f in srcs(f"python-framework/impl/{m}/cpp/*.cpp") if not f.endswith("/network_io.cpp")]
        if m == "base_framework":
            files.append(stub)
        w(f"build {out}: so {' '.join(obj(f, f'-DKNP_FULL_LIBRARY_NAME=_knp_python_framework_{m}', py=True) for f in files)}\n  libs = -lboost_python312")
        made.append(out)
    return made


def main():
    target = sys.argv[1]
    variant = sys.argv[2] if len(sys.argv) > 2 else "asan"
    bdir = os.environ.get("VP_BUILD", VERIF + "/.build") + "/" + variant
    os.makedirs(bdir + "/gen/knp_gen_headers", exist_ok=True)

    flags = (f"-std=c++17 -O1 -gline-tables-only -DNDEBUG -fPIC -pthread -w {SAN[variant]} "
             "-D_GLIBCXX_ASSERTIONS -DFMT_SHARED -DSPDLOG_ACTIVE_LEVEL=6 -DSPDLOG_FMT_EXTERNAL -DSPDLOG_COMPILED_LIB "
             "-DSPDLOG_SHARED_LIB -DKNP_LIBRARY_NAME=knp -DKNP_FULL_LIBRARY_NAME=libknp -DKNP_LIBRARY_NAME_PREFIX=lib "
             "-D_KNP_INTERNAL -DBOOST_ATOMIC_DYN_LINK -DBOOST_ATOMIC_NO_LIB -DBOOST_FILESYSTEM_DYN_LINK "
             "-DBOOST_FILESYSTEM_NO_LIB -isystem /usr/include/opencv4 " + f"-I{bdir}/gen -I{VERIF}/lib "
             + " ".join("-I" + i for i in INC))
    cov = "-fsanitize-coverage=inline-8bit-counters" if variant == "cov" else ""

    # Flags of the Python package: the name of the module is a macro of its own.
    pyflags = flags.replace("-DKNP_FULL_LIBRARY_NAME=libknp ", "") + \
        " -I/usr/include/python3.12 -DBOOST_PYTHON_STATIC_LIB -DPy_NO_ENABLE_SHARED"
    n = []
    w = n.append
    w(f"pyflags = {pyflags}")
    w("rule pycxx\n  command = clang++ $pyflags $extra -include-pch $pypch -MD -MF $out.d -c $in -o $out\n  deps = gcc\n  depfile = $out.d")
    w("rule pypch\n  command = clang++ $pyflags -x c++-header -MD -MF $out.d $in -o $out\n  deps = gcc\n  depfile = $out.d")
    w(f"pypch = {bdir}/pch_py.hpp.pch")
    w(f"build {bdir}/pch_py.hpp.pch: pypch {VERIF}/lib/pch_py.hpp")
    w("ninja_required_version = 1.8")
    w(f"flags = {flags}")
    w("rule cxx\n  command = clang++ $flags $extra -include-pch $pch -MD -MF $out.d -c $in -o $out\n  deps = gcc\n  depfile = $out.d")
    w("rule pch\n  command = clang++ $flags -x c++-header -MD -MF $out.d $in -o $out\n  deps = gcc\n  depfile = $out.d")
    w(f"rule flatc\n  command = flatc --cpp -o {bdir}/gen/knp_gen_headers $in")
    w(f"rule link\n  command = clang++ {SAN[variant]} -pthread -rdynamic $in -o $out $libs")
    w("rule so\n  command = clang++ -shared -pthread $in -o $out $libs")
    pch = bdir + "/pch.hpp.pch"
    w(f"pch = {pch}")
    w(f"build {pch}: pch {VERIF}/lib/pch.hpp")
    gens = []
    for fbs in srcs("core-library/impl/messaging/fbs/*.fbs"):
        out = f"{bdir}/gen/knp_gen_headers/{os.path.basename(fbs)[:-4]}_generated.h"
        w(f"build {out}: flatc {fbs}")
        gens.append(out)
    objs = {}

    def obj(src, extra="", py=False):
        rel = os.path.relpath(src, REPO if src.startswith(REPO + "/") else VERIF).replace("/", "__")
        o = f"{bdir}/obj/{rel}.o"
        if o not in objs:
            objs[o] = 1
            w(f"build {o}: {'pycxx' if py else 'cxx'} {src} | {bdir + '/pch_py.hpp.pch' if py else pch} || {' '.join(gens)}")
            # HighFive and csv2 are not installed: stand-ins. The RapidJSON here has no GetObj, which is an alias of GetObject.
            shim = f"-I{VERIF}/lib/shim -DGetObj=GetObject -include {VERIF}/lib/shim/throwing_assert.hpp" if "/sonata/" in src or "/impl/storage/" in src or target in ("c33_sonata", "c34_storage") and "/harness/" in src else ""
            e = " ".join(x for x in (extra, shim, cov if src.startswith(REPO + "/") else "") if x)
            if e:
                w(f"  extra = {e}")
        return o

    libs_common = ("-lspdlog -lfmt -lzmq -lflatbuffers -lboost_filesystem -lboost_system -ldl")
    comps = TARGETS[target]
    libs = libs_common
    if "vis" in comps or "cv" in comps:
        libs += " -lopencv_highgui -lopencv_imgcodecs -lopencv_imgproc -lopencv_core"
    package = [c for c in comps if c.startswith("py:")]
    if package:
        libs += " -lboost_python312 -lpython3.12"
    os_ = [obj(f"{VERIF}/harness/{target}.cpp", py=bool(package))]
    # so:NAME=SOURCE+SOURCE makes the library libNAME.so beside the executable, of components or files of harness/so.
    for c in ["engine"] + [c for c in comps if c != "cv" and not c.startswith(("so:", "py:"))]:
        os_ += [obj(s) for s in component(c)]
    made = []
    if package:
        made += python_package(bdir, w, obj, [c[3:] for c in package])
    for c in comps:
        if c.startswith("so:"):
            name, parts = c[3:].split("=")
            parts = [p for x in parts.split("+") for p in ([f"{VERIF}/harness/so/{x[:-4]}.cpp"] if x.endswith(".cpp") else component(x))]
            made.append(f"{bdir}/lib{name}.so")
            w(f"build {made[-1]}: so {' '.join(obj(s) for s in parts)}")
    exe = f"{bdir}/{target}"
    w(f"build {exe}: link {' '.join(os_)}\n  libs = {libs}")
    nf = f"{bdir}/{target}.ninja"
    text = "\n".join(n) + f"\nbuilddir = {bdir}\ndefault {exe} {' '.join(made)}\n"
    # One ninja log per target: the object files are shared, so builds of one variant must not run at the same time.
    with open(nf, "w") as f:
        f.write(text)
    import fcntl
    with open(bdir + "/.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        r = subprocess.run(["ninja", "-f", nf, "-j", str(os.cpu_count() or 8)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        keep = [l[:400] for l in r.stdout.splitlines() if "error" in l or "undefined" in l or "FAILED" in l]
        sys.stderr.write("\n".join(keep[:25]) + "\n")
        raise SystemExit(2)
    print(exe)


main()

#!/usr/bin/env python3
"""Content-addressed build of LLNL/conduit (from /repo's working tree) and of
the harnesses in /verif/harness.

Every object is keyed by the compiler command and by the contents of the source
and of every header the compiler reported for it (-MD), so a build is right
whatever the time stamps say, and only what changed is compiled again.  Nothing
is written outside /verif/build.
"""
import hashlib, json, os, re, subprocess, sys, glob, threading, time, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
S = REPO + "/src"
BUILD = os.environ.get("VERIF_BUILD", VERIF + "/build")
TP = S + "/thirdparty_builtin"
JOBS = int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 8

# a stand-in for MPI: ranks are threads, the test case decides the schedule
MPI_INC = ["-I" + VERIF + "/harness/fakempi"]
MPI_DEF = []
PY_INC = ["-I/usr/include/python3.12", "-I/usr/lib/python3/dist-packages/numpy/core/include",
          '-DPY_SRC="%s/libs/conduit/python/py_src"' % S]
HDF5_INC = ["-I/usr/include/hdf5/serial"]

FLAVORS = {
    "asan": dict(cc="clang", cxx="clang++",
                 flags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address",
                        "-fPIC", "-w"],
                 link=["-fsanitize=address"]),
    # coverage-instrumented, for the libFuzzer targets (core only)
    "fuzz": dict(cc="clang", cxx="clang++",
                 flags=["-O1", "-g1", "-fno-omit-frame-pointer",
                        "-fsanitize=address,fuzzer-no-link",
                        "-fPIC", "-w"],
                 link=["-fsanitize=address,fuzzer"]),
    # for the python modules
    "plain": dict(cc="gcc", cxx="g++", flags=["-O1", "-g1", "-fPIC", "-w"], link=[]),
}


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()


_fh_cache = {}
_fh_lock = threading.Lock()


def filehash(path):
    with _fh_lock:
        if path in _fh_cache:
            return _fh_cache[path]
    try:
        with open(path, "rb") as f:
            r = hashlib.sha256(f.read()).hexdigest()
    except OSError:
        r = "missing"
    with _fh_lock:
        _fh_cache[path] = r
    return r


# ---------------------------------------------------------------- config headers
def version():
    for line in open(S + "/CMakeLists.txt"):
        m = re.match(r'^project\(conduit VERSION "?([0-9.]+)', line)
        if m:
            return m.group(1)
    return "0.0.0"


def config_vars():
    v = version()
    mj, mi, pa = (v.split(".") + ["0", "0"])[:3]
    d = dict(CONDUIT_INSTALL_PREFIX="/usr/local", PROJECT_VERSION=v, PROJECT_VERSION_MAJOR=mj,
             PROJECT_VERSION_MINOR=mi, PROJECT_VERSION_PATCH=pa, CONDUIT_GIT_SHA1="unknown",
             CONDUIT_GIT_SHA1_ABBREV="unknown", CONDUIT_GIT_TAG="unknown", CMAKE_SYSTEM="Linux",
             CMAKE_CXX_COMPILER="c++", CONDUIT_USE_FMT="1", CONDUIT_USE_CXX11="1",
             CONDUIT_USE_CXX14="1", CONDUIT_USE_PARMETIS="1",
             CONDUIT_BLUEPRINT_MPI_PARMETIS_ENABLED="1", CONDUIT_RELAY_IO_HDF5_ENABLED="1",
             CONDUIT_RELAY_IO_SILO_ENABLED="1", CONDUIT_RELAY_MPI_ENABLED="1",
             CONDUIT_RELAY_WEBSERVER_ENABLED="1", CONDUIT_RELAY_SOURCE_DIR=S + "/libs/relay")
    # the values src/libs/conduit/cmake/BitwidthMapping.cmake computes on linux x86_64
    with open(VERIF + "/tools/bitwidth_vars.json") as f:
        d.update(json.load(f))
    return d


def configure(text, d):
    def sub(s):
        s = re.sub(r"@([A-Za-z0-9_]+)@", lambda m: d.get(m.group(1), ""), s)
        return re.sub(r"\$\{([A-Za-z0-9_]+)\}", lambda m: d.get(m.group(1), ""), s)
    out = []
    for line in text.split("\n"):
        m = re.match(r"^(\s*)#(\s*)cmakedefine(01)?\s+(\w+)(.*)$", line)
        if m:
            name, rest = m.group(4), m.group(5)
            if m.group(3):
                line = "#define %s %d" % (name, 1 if d.get(name) else 0)
            elif d.get(name):
                line = "#define %s%s" % (name, sub(rest))
            else:
                line = "/* #undef %s */" % name
        else:
            line = sub(line)
        out.append(line)
    return "\n".join(out)


GEN_HEADERS = ["conduit/conduit_config.h", "conduit/conduit_bitwidth_style_types.h",
               "conduit/conduit_exports.h", "conduit/python/conduit_python_exports.h",
               "relay/conduit_relay_config.h", "relay/conduit_relay_exports.h",
               "relay/python/conduit_relay_python_exports.h",
               "blueprint/conduit_blueprint_config.h", "blueprint/conduit_blueprint_exports.h",
               "blueprint/python/conduit_blueprint_python_exports.h"]


def gen_headers():
    d = config_vars()
    gen = BUILD + "/gen"
    os.makedirs(gen, exist_ok=True)
    for h in GEN_HEADERS:
        src = S + "/libs/" + h + ".in"
        with open(src) as f:
            t = configure(f.read(), d)
        dst = gen + "/" + os.path.basename(h)
        if not os.path.exists(dst) or open(dst).read() != t:
            with open(dst, "w") as f:
                f.write(t)
    return gen


def base_includes():
    return ["-I" + BUILD + "/gen"] + ["-I" + S + "/libs/" + x for x in
            ("conduit", "conduit/c", "relay", "relay/c", "blueprint", "blueprint/c",
             "conduit/python")] + \
        ["-I" + TP + "/" + x for x in
         ("rapidjson/include", "libb64-1.2.1/include", "libyaml-690a781/include", "fmt-7.1.0",
          "civetweb-0a95342/include")]


# ---------------------------------------------------------------- components
def g(pat, excl=None, incl=None):
    r = sorted(glob.glob(pat))
    if excl:
        r = [x for x in r if not re.search(excl, x)]
    if incl:
        r = [x for x in r if re.search(incl, x)]
    return r


def component(name):
    """-> list of (source, extra flags)"""
    L = S + "/libs"
    if name == "core":
        out = [(x, ["-Dconduit_EXPORTS"]) for x in
               g(L + "/conduit/*.cpp") + g(L + "/conduit/c/*.cpp")]
        out += [(x, []) for x in (TP + "/libb64-1.2.1/src/cdecode.cpp",
                                  TP + "/libb64-1.2.1/src/cencode.cpp")]
        out += [(x, []) for x in g(TP + "/libyaml-690a781/src/*.c")]
        return out
    if name == "blueprint":
        return [(x, ["-Dconduit_blueprint_EXPORTS"]) for x in
                g(L + "/blueprint/*.cpp", "_blueprint_mpi|_exe\\.cpp$") +
                g(L + "/blueprint/c/*.cpp", "_blueprint_mpi")]
    if name == "relay":
        out = [(x, ["-Dconduit_relay_EXPORTS"] + HDF5_INC) for x in
               g(L + "/relay/*.cpp", "_relay_mpi|_exe\\.cpp$|_adios\\.cpp$|_zfp\\.cpp$") +
               g(L + "/relay/c/*.cpp", "_relay_mpi|_adios")]
        out += [(TP + "/civetweb-0a95342/src/civetweb.c", ["-DUSE_WEBSOCKET"]),
                (TP + "/civetweb-0a95342/src/CivetServer.cpp", ["-DUSE_WEBSOCKET"])]
        return out
    if name == "relay_mpi":
        return [(L + "/relay/conduit_relay_mpi.cpp",
                 MPI_DEF + ["-Dconduit_relay_mpi_EXPORTS"] + MPI_INC)]
    if name == "blueprint_mpi":
        return [(x, MPI_DEF + ["-DCONDUIT_BLUEPRINT_MPI_ENABLED",
                               "-Dconduit_blueprint_mpi_EXPORTS"] + MPI_INC) for x in
                g(L + "/blueprint/*.cpp", "_exe\\.cpp$|_parmetis", "_blueprint_mpi") +
                g(L + "/blueprint/c/*.cpp", None, "_blueprint_mpi")]
    if name == "relay_mpi_io":
        fl = MPI_DEF + ["-DCONDUIT_RELAY_IO_MPI_ENABLED", "-Dconduit_relay_mpi_io_EXPORTS"] + \
            HDF5_INC + MPI_INC
        return [(L + "/relay/" + x, fl) for x in
                ("conduit_relay_mpi_io.cpp", "conduit_relay_io_identify_protocol.cpp",
                 "conduit_relay_io_blueprint.cpp", "conduit_relay_io_silo.cpp",
                 "conduit_relay_io_hdf5.cpp", "c/conduit_relay_mpi_io_c.cpp")]
    if name == "python":
        # the modules are shared objects of their own upstream: keep their globals apart
        own = ["PyBlueprint_mesh_verify_doc_str"]
        return [(x, PY_INC + ["-D%s=%s_%s" % (d, os.path.basename(x)[:-4], d) for d in own]) for x in g(L + "/conduit/python/*.cpp") + g(L + "/blueprint/python/*.cpp") +
                g(L + "/relay/python/*.cpp", "_relay_mpi|_relay_web")]
    raise BuildError("no component " + name)


LINK = {
    "core": [], "blueprint": [],
    "relay": ["-lsiloh5", "-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5", "-lz", "-ldl",
              "-lrt", "-lpthread"],
    "relay_mpi": [], "blueprint_mpi": [],
    "relay_mpi_io": [],
    "python": ["-lpython3.12"],
}


# ---------------------------------------------------------------- compile
class Builder:
    def __init__(self, flavor, verbose=True):
        self.fl = FLAVORS[flavor]
        self.flavor = flavor
        self.dir = BUILD + "/" + flavor
        os.makedirs(self.dir + "/obj", exist_ok=True)
        os.makedirs(self.dir + "/bin", exist_ok=True)
        gen_headers()
        self.compiled = 0
        self.verbose = verbose

    def obj(self, src, extra):
        isc = src.endswith(".c")
        cmd = [self.fl["cc"] if isc else self.fl["cxx"]] + self.fl["flags"] + \
            ([] if isc else ["-std=gnu++14"]) + extra + base_includes()
        key = sha(src, " ".join(cmd))[:24]
        stem = os.path.basename(src).rsplit(".", 1)[0]
        o = "%s/obj/%s-%s.o" % (self.dir, stem, key)
        meta = o + ".json"
        try:
            with open(meta) as f:
                deps = json.load(f)
            if os.path.exists(o) and all(filehash(p) == h for p, h in deps.items()):
                return o
        except (OSError, ValueError):
            pass
        tmp = "%s.%d.tmp" % (o, os.getpid())
        dep = tmp + ".d"
        r = subprocess.run(cmd + ["-MD", "-MF", dep, "-c", src, "-o", tmp],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise BuildError("compiling %s failed:\n%s" % (src, r.stdout.decode(errors="replace")[:6000]))
        with open(dep) as f:
            t = f.read().replace("\\\n", " ")
        os.unlink(dep)
        files = t.split(":", 1)[1].split()
        deps = {}
        for p in files:
            p = os.path.realpath(p) if not os.path.isabs(p) else p
            if p.startswith(("/usr/", "/lib/")):
                continue
            deps[p] = filehash(p)
        os.replace(tmp, o)
        with open(meta, "w") as f:
            json.dump(deps, f)
        self.compiled += 1
        return o

    def objs(self, items):
        # the slow files first
        items = sorted(items, key=lambda it: -os.path.getsize(it[0]))
        with ThreadPoolExecutor(JOBS) as ex:
            return list(ex.map(lambda it: self.obj(*it), items))

    def link(self, out, objs, libs, shared=False):
        cmd = [self.fl["cxx"]] + self.fl["link"] + (["-shared"] if shared else []) + \
            ["-o"] + [out + ".tmp%d" % os.getpid()] + objs + libs
        key = sha(" ".join(cmd).replace(".tmp%d" % os.getpid(), ""), *[filehash_nocache(o) for o in objs])
        kf = out + ".key"
        if os.path.exists(out) and os.path.exists(kf) and open(kf).read() == key:
            return out
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise BuildError("linking %s failed:\n%s" % (out, r.stdout.decode(errors="replace")[-6000:]))
        os.replace(out + ".tmp%d" % os.getpid(), out)
        with open(kf, "w") as f:
            f.write(key)
        return out


def filehash_nocache(p):
    with open(p, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(BUILD + "/.lock", "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_harness(name, components, flavor="asan", sources=None, extra=None, libs=None):
    """Compile /verif/harness/<name>.cpp (or sources) with the components it needs."""
    with Lock():
        _fh_cache.clear()
        b = Builder(flavor)
        mpi = any("mpi" in c for c in components)
        hx = ["-I" + VERIF + "/harness"] + (extra or []) + HDF5_INC + \
            (MPI_DEF + MPI_INC if mpi else []) + (PY_INC if "python" in components else [])
        items = []
        for c in components:
            items += component(c)
        hsrc = [(s, hx) for s in (sources or [VERIF + "/harness/" + name + ".cpp"])]
        objs = b.objs(items + hsrc)
        ll = []
        for c in components:
            for x in LINK[c]:
                ll.append(x)
        out = b.dir + "/bin/" + name
        b.link(out, objs, ll + (libs or []) + ["-lpthread"])
        return out, b.compiled


if __name__ == "__main__":
    t = time.time()
    for comp in sys.argv[2:]:
        b = Builder(sys.argv[1])
        b.objs(component(comp))
        print(comp, b.compiled, "%.1fs" % (time.time() - t))

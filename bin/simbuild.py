"""Builds the simulator host and the rank images from /repo's current working tree.

Objects are cached under /verif/build/obj by the content of everything that went into them (source, every
header named in the dependency file, flags), so a check in a fresh copy compiles everything and a repeated
run on one tree compiles nothing.
"""
import hashlib, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
MPI = "/usr/lib/x86_64-linux-gnu/openmpi/include"
HOST_FLAGS = ["-DOMPI_SKIP_MPICXX=1", "-std=c++17", "-O2", "-g1", "-w", "-I" + MPI]
HDF5 = "/usr/lib/x86_64-linux-gnu/libhdf5_openmpi.so.103"


def first(*paths):
    for p in paths:
        if os.path.exists(p):
            return p
    return None


def img_flags(opt="-O1"):
    f = ["-DDNDS_USE_OMP", "-DFMT_HEADER_ONLY", "-DNINSERT", "-D__DNDS_REALLY_COMPILING__", "-DOMPI_SKIP_MPICXX=1"]
    inc = ["/usr/include/superlu-dist", MPI, MPI + "/openmpi", "/usr/include/hdf5/openmpi", "/usr/include/eigen3",
           "/usr/include/argparse", "/opt/vp/cmake/none", "/opt/vp/cmake/pybind11/include",
           "/opt/vp/cmake/fmt/include", REPO + "/src", VERIF + "/shim", VERIF + "/sim", VERIF + "/wl"]
    f += ["-I" + i for i in inc]
    f += ["-std=c++17", "-w", "-fopenmp", "-UNDEBUG", opt, "-g0", "-fPIC", "-fno-gnu-unique", "-fno-semantic-interposition",
          "-ffp-contract=off"]
    return f


def src_flags(src):
    # the option DNDS_DIST_MT_USE_OMP of the build concerns these directories only
    b = os.path.basename(src)
    return ["-DDNDS_DIST_MT_USE_OMP"] if "/src/CFV/" in src or "/src/Euler/" in src or b in ("cfv.cpp", "euler.cpp", "solver.cpp", "run.cpp") else []


DNDS = ["MPI.cpp", "Defines.cpp", "Profiling.cpp", "HardEigen.cpp", "SerializerJSON.cpp", "SerializerH5.cpp"]
GEOM = ["Elements.cpp", "Mesh.cpp", "Mesh_Serial_BuildCell2Cell.cpp", "Mesh_Serial_Partition.cpp",
        "Mesh_Elevation.cpp", "Mesh_Elevation_SmoothSolver.cpp", "Mesh_Serial_ReadFromCGNS.cpp", "Mesh_Plts.cpp"]


def dnds():
    return [REPO + "/src/DNDS/" + f for f in DNDS]


def geom():
    return dnds() + [REPO + "/src/Geom/" + f for f in GEOM]


def wl(*names):
    return [VERIF + "/wl/" + n for n in names]


def cfv(*inst):
    f = [REPO + "/src/CFV/VariationalReconstruction.cpp"]
    for i in inst:
        f += [REPO + "/src/CFV/_explicit_instantiation/VariationalReconstruction_%s_%s.cpp" % (k, i) for k in ("Reconstruction", "LimiterProcedure")]
    return f


def euler(*models):
    return [REPO + "/src/Euler/_explicit_instantiation/%s_%s.cpp" % (k, m) for m in models
            for k in ("EulerEvaluator", "EulerEvaluator_EvaluateDt", "EulerEvaluator_EvaluateRHS")]


def esolver(*models):
    return [REPO + "/src/Euler/_explicit_instantiation/%s_%s.cpp" % (k, m) for m in models
            for k in ("EulerSolver", "EulerSolver_Init", "EulerSolver_PrintData")]


LIBG = ["-lmetis", "-lparmetis", "-l:libcgns.so"]
IMAGES = {
    "mesh": dict(src=lambda: geom() + wl("mesh.cpp"), libs=LIBG + ["-lz"], inc=2),
    "arr": dict(src=lambda: dnds() + wl("arr.cpp"), libs=[]),
    "cfv": dict(src=lambda: geom() + cfv("2_4", "3_5") + wl("cfv.cpp"), libs=LIBG + ["-lz"]),
    "euler": dict(src=lambda: geom() + cfv("2_4") + euler("NS_2D") + wl("euler.cpp"), libs=LIBG + ["-lz"], wlflags=["-DMODELS=NS_2D"]),
    "rans": dict(src=lambda: geom() + cfv("2_6", "2_7") + euler("NS_SA", "NS_2EQ") + wl("euler.cpp"), libs=LIBG + ["-lz"], wlflags=["-DMODELS=NS_SA,NS_2EQ"]),
    "euler3": dict(src=lambda: geom() + cfv("3_5") + euler("NS_3D") + wl("euler.cpp"), libs=LIBG + ["-lz"], wlflags=["-DMODELS=NS_3D"]),
    "run": dict(src=lambda: geom() + cfv("2_4") + euler("NS_2D") + esolver("NS_2D") + wl("run.cpp"), libs=LIBG + ["-lz"], wlflags=["-DMODELS=NS_2D"], inc=2),
    "solver": dict(src=lambda: dnds() + wl("solver.cpp"), libs=[]),
    "ser": dict(src=lambda: dnds() + wl("ser.cpp"), libs=["-lz"], inc=2),
}


def sha(b):
    return hashlib.sha256(b).hexdigest()


_filehash = {}


def file_hash(p):
    try:
        st = os.stat(p)
        k = (p, st.st_mtime_ns, st.st_size)
        if k not in _filehash:
            with open(p, "rb") as f:
                _filehash[k] = sha(f.read())
        return _filehash[k]
    except OSError:
        return "absent"


class BuildError(Exception):
    pass


def compile_one(src, flags, cc="g++"):
    """returns the object path; content-addressed cache with recorded dependencies"""
    objdir = os.path.join(BUILD, "obj")
    os.makedirs(objdir, exist_ok=True)
    key = sha(("\0".join([cc, src] + flags)).encode())[:24]
    meta = os.path.join(objdir, key + ".json")
    if os.path.exists(meta):
        try:
            variants = json.load(open(meta))
        except Exception:
            variants = []
        for v in variants:
            if os.path.exists(v["obj"]) and all(file_hash(p) == h for p, h in v["deps"].items()):
                return v["obj"], 0.0
    else:
        variants = []
    t0 = time.time()
    tmp = os.path.join(objdir, key + ".%d.tmp" % os.getpid())
    cmd = [cc] + flags + ["-MMD", "-MF", tmp + ".d", "-c", src, "-o", tmp + ".o"]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("compile failed: %s\n%s" % (src, p.stdout[:2500] if len(p.stdout) > 2500 else p.stdout))
    deps = open(tmp + ".d").read().replace("\\\n", " ").split(":", 1)[1].split()
    # system headers do not change between runs: only what lies in the repository and here counts
    deps = {d: file_hash(d) for d in deps if d.startswith(REPO) or d.startswith(VERIF)}
    h = sha(json.dumps(deps, sort_keys=True).encode())[:16]
    obj = os.path.join(objdir, key + "-" + h + ".o")
    os.replace(tmp + ".o", obj)
    os.remove(tmp + ".d")
    variants = [v for v in variants if v["obj"] != obj][-3:] + [{"obj": obj, "deps": deps}]
    json.dump(variants, open(meta + ".tmp%d" % os.getpid(), "w"))
    os.replace(meta + ".tmp%d" % os.getpid(), meta)
    return obj, time.time() - t0


def build_host():
    os.makedirs(BUILD, exist_ok=True)
    sim = VERIF + "/sim/"
    syms = os.path.join(BUILD, "mpi_syms.c")
    txt = subprocess.run([sys.executable, sim + "mpi_syms.py"], stdout=subprocess.PIPE, text=True, check=True).stdout
    if not os.path.exists(syms) or open(syms).read() != txt:
        open(syms, "w").write(txt)
    jobs = [(sim + f, HOST_FLAGS, "g++") for f in ("core.cpp", "mpi.cpp", "posix.cpp", "gomp.cpp")]
    jobs.append((syms, ["-O1", "-w", "-I" + MPI], "gcc"))
    return jobs


def link_host(objs):
    out = os.path.join(BUILD, "simhost")
    key = sha("".join(objs).encode())
    kf = out + ".key"
    if os.path.exists(out) and os.path.exists(kf) and open(kf).read() == key:
        return out
    p = subprocess.run(["g++", "-rdynamic", "-o", out + ".tmp"] + objs + ["-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("link of simhost failed\n" + p.stdout[:2500] if len(p.stdout) > 2500 else p.stdout)
    os.replace(out + ".tmp", out)
    open(kf, "w").write(key)
    return out


def patched_copy(src, dst, reps):
    b = open(src, "rb").read()
    for a, c in reps:
        assert len(a) == len(c)
        b = b.replace(a, c)
    open(dst, "wb").write(b)
    os.chmod(dst, 0o755)


def link_image(name, objs, nranks):
    final = os.path.join(BUILD, "img", name)
    key = sha(("%d" % nranks + "".join(objs) + str(IMAGES[name].get("libs"))).encode())
    try:
        if open(os.path.join(final, "key")).read() == key:
            return final
    except OSError:
        pass
    # made aside and put in place whole, so that an interrupted build leaves no mixture
    d = os.path.join(BUILD, "img", "%s.%d" % (name, os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    h5r = b"libhdf5_openmpi.so.r00"
    for r in range(nranks):
        # every rank has its own HDF5 library instance (its library state is per process)
        patched_copy(HDF5, os.path.join(d, "libhdf5_openmpi.so.r%02d" % r), [(b"libhdf5_openmpi.so.103", b"libhdf5_openmpi.so.r%02d" % r)])
    base = os.path.join(d, "rank00.so")
    cmd = ["g++", "-shared", "-Wl,-Bsymbolic", "-Wl,-rpath,$ORIGIN", "-o", base] + objs + \
          [os.path.join(d, "libhdf5_openmpi.so.r00")] + IMAGES[name].get("libs", [])
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        shutil.rmtree(d, ignore_errors=True)
        raise BuildError("link of image %s failed\n%s" % (name, p.stdout[:2500]))
    for r in range(1, nranks):
        patched_copy(base, os.path.join(d, "rank%02d.so" % r), [(h5r, b"libhdf5_openmpi.so.r%02d" % r)])
    open(os.path.join(d, "key"), "w").write(key)
    shutil.rmtree(final, ignore_errors=True)
    os.rename(d, final)
    return final


def build(names, nranks=8, jobs=8, log=None):
    """returns (simhost, {image: dir}, stats)"""
    t0 = time.time()
    todo = build_host()
    nhost = len(todo)
    per = {}
    for n in names:
        im = IMAGES[n]
        per[n] = []
        for s in im["src"]():
            per[n].append(len(todo))
            todo.append((s, img_flags(im.get("opt", "-O1")) + (im.get("wlflags", []) if s.startswith(VERIF) else []) + src_flags(s), "g++"))
    # identical jobs once; the slowest first
    uniq = {}
    for s, f, c in todo:
        uniq.setdefault((s, tuple(f), c), None)
    order = sorted(uniq, key=lambda k: -weight(k[0]))
    with ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(lambda k: compile_one(k[0], list(k[1]), k[2]), order))
    done = dict(zip(order, res))
    objs = [done[(s, tuple(f), c)][0] for s, f, c in todo]
    host = link_host(objs[:nhost])
    with ThreadPoolExecutor(4) as ex:
        dirs = dict(zip(names, ex.map(lambda n: link_image(n, [objs[i] for i in per[n]], nranks * IMAGES[n].get("inc", 1)), names)))
    st = dict(build_s=round(time.time() - t0, 2), compiled=sum(1 for r in res if r[1] > 0), objects=len(order))
    return host, dirs, st


def weight(src):
    b = os.path.basename(src)
    for k, v in (("VariationalReconstruction", 40), ("Euler", 60), ("cfv", 35), ("euler", 60), ("Mesh_Elev", 17), ("Mesh.cpp", 16), ("mesh", 20), ("arr", 20), ("Mesh", 12), ("Serializer", 4)):
        if k in b:
            return v
    return 1


if __name__ == "__main__":
    try:
        print(build(sys.argv[1:] or list(IMAGES)))
    except BuildError as e:
        print(e)
        sys.exit(3)

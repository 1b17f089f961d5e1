"""Builds the simulated programs from /repo's current working tree.

Every object is cached under a key made of the flags and the contents of all
inputs (repository sources, simulator, harness), so a changed tree is always
rebuilt and an unchanged one is not.
"""
import hashlib, itertools, os, re, shutil, subprocess, threading, sys, glob, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, "_build"))

COMMON = ["-std=c++17", "-w", "-DNDEBUG", "-DEIGEN_NO_STATIC_ASSERT", "-fno-omit-frame-pointer", "-pthread"]
FLAVOURS = {
    # own race detector + preemption at each memory access
    "race": dict(cxx=["-O1", "-fsanitize=thread"], sim=["sim_race.cpp"], link=["-Wl,--wrap=memcpy", "-Wl,--wrap=memmove", "-Wl,--wrap=memset", "-Wl,--wrap=__cxa_allocate_exception"]),
    # memory errors + preemption at each basic block
    "asan": dict(cxx=["-O1", "-fsanitize=address,bounds", "-fno-sanitize-recover=all", "-fsanitize-coverage=trace-pc", "-include", os.path.join(VERIF, "sim", "eigen_check.hpp")], sim=["sim_cov.cpp"], link=["-fsanitize=address,undefined"]),
    # no checker, preemption at each basic block
    "cov": dict(cxx=["-O2", "-fsanitize-coverage=trace-pc"], sim=["sim_cov.cpp"], link=[]),
}
WRAP = ["-Wl,--wrap=malloc", "-Wl,--wrap=calloc", "-Wl,--wrap=realloc", "-Wl,--wrap=free", "-Wl,--wrap=posix_memalign", "-Wl,--wrap=aligned_alloc"]
SIM = ["sim.cpp", "sim_threads.cpp", "sim_mem.cpp", "sim_time.cpp"]
BASEINC = ["-I" + REPO + "/solver/include", "-I/usr/include/eigen3"]

S = REPO + "/solver/src/solver/"
EXPR = [S + "interface/" + f for f in ("Exprs.cpp", "Var.cpp", "OptVar.cpp", "Cone.cpp")]


def repo_files():
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "build", "__pycache__"))
        for f in sorted(files):
            if f.endswith((".cpp", ".hpp", ".h", ".c", ".yaml", ".py", ".in")):
                out.append(os.path.join(root, f))
    return out


def _hash(parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()


def headers_digest():
    """all repository and harness headers: any object may include any of them"""
    h = hashlib.sha256()
    for f in repo_files():
        if f.endswith((".hpp", ".h", ".in")):
            h.update(f.encode()); h.update(open(f, "rb").read())
    for pat in ("sim/*.hpp", "harness/*.hpp", "harness/**/*.hpp"):
        for f in sorted(glob.glob(os.path.join(VERIF, pat), recursive=True)):
            h.update(os.path.relpath(f, VERIF).encode()); h.update(open(f, "rb").read())
    return h.hexdigest()


class BuildError(Exception):
    pass


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-6000:])


LOCK = threading.Lock()
COUNTER = itertools.count()


def tmpname(path):
    return "%s.tmp%d.%d" % (path, os.getpid(), next(COUNTER))


def eigen_overlay():
    with LOCK:
        return _eigen_overlay()


def _eigen_overlay():
    """a copy of the installed Eigen in which resizing a dense or sparse matrix
    survives a failed allocation. The installed 3.4 frees the old block first and leaves the
    pointer dangling when the new one cannot be had; every object that outlives
    the bad_alloc would then fail on Eigen's defect and hide the repository's."""
    dst = os.path.join(BUILD, "eigen2")
    if os.path.exists(dst):
        return dst
    tmp = tmpname(dst)
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree("/usr/include/eigen3/Eigen", tmp + "/Eigen")
    f = tmp + "/Eigen/src/Core/DenseStorage.h"
    out, dims = [], ""
    for line in open(f):
        if "void resize(" in line:
            dims = ""
        if re.search(r"if\(size != ", line):
            dims = "".join("m_%s = 0; " % d for d in ("rows", "cols") if "m_" + d in line)
        out.append(line)
        if dims and "conditional_aligned_delete_auto" in line:
            out.append("        m_data = 0; %s\n" % dims)
            dims = ""
    text = "".join(out)
    if text.count("m_data = 0; m_") != 3:
        raise BuildError("Eigen's DenseStorage.h is not the one this overlay was written for")
    open(f, "w").write(text)
    f = tmp + "/Eigen/src/SparseCore/SparseMatrix.h"
    text = open(f).read()
    old = "        std::free(m_outerIndex);\n        m_outerIndex = static_cast<StorageIndex*>(std::malloc((outerSize + 1)"
    if text.count(old) != 1:
        raise BuildError("Eigen's SparseMatrix.h is not the one this overlay was written for")
    open(f, "w").write(text.replace(old, old.replace(");\n", "); m_outerIndex = 0; m_outerSize = 0;\n", 1)))
    try:
        os.rename(tmp, dst)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return dst


def build(name, flavour, harness, sources, defs=(), link=(), inc=(), extra_sim=(), plain=(), eigen_fix=False):
    """returns the path of the executable"""
    fl = FLAVOURS[flavour]
    objdir = os.path.join(BUILD, "obj")
    bindir = os.path.join(BUILD, "bin")
    os.makedirs(objdir, exist_ok=True)
    os.makedirs(bindir, exist_ok=True)
    hd = headers_digest()
    jobs, objs = [], []

    def add(src, flags):
        key = _hash([hd, src, open(src, "rb").read(), " ".join(flags)])[:24]
        o = os.path.join(objdir, os.path.basename(src) + "." + key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((src, flags, o))
    simflags = COMMON + ["-O2"]
    INC = ["-I" + eigen_overlay() if eigen_fix and i == "-I/usr/include/eigen3" else i for i in BASEINC]
    inst = COMMON + fl["cxx"] + list(INC) + list(inc) + list(defs)
    for h in ([harness] if isinstance(harness, str) else harness):
        add(os.path.join(VERIF, "harness", h), inst)
    for s in sources:
        add(s, inst)
    for h in plain:      # oracles: never instrumented
        add(os.path.join(VERIF, "harness", h), simflags + ["-I/usr/include/eigen3"])
    for s in SIM + fl["sim"] + list(extra_sim):
        add(os.path.join(VERIF, "sim", s), simflags)

    def comp(j):
        src, flags, o = j
        t = tmpname(o)
        run(["g++"] + flags + ["-c", src, "-o", t])
        os.replace(t, o)
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        for f in [ex.submit(comp, j) for j in jobs]:
            f.result()
    key = _hash(objs + list(link))[:16]
    exe = os.path.join(bindir, "%s-%s-%s" % (name, flavour, key))
    if not os.path.exists(exe):
        t = tmpname(exe)
        run(["g++", "-rdynamic", "-o", t] + objs + WRAP + fl["link"] + list(link) +
            ["-lyaml-cpp", "-lboost_thread", "-lboost_system", "-lpthread", "-ldl"])
        os.replace(t, exe)
    return exe


O = S + "optimizer/"
CONIC = EXPR + [S + "interface/" + f for f in ("ConicProblem.cpp", "Model.cpp", "SolverSetting.cpp")] + [
    O + f for f in ("IPSolver.cpp", "BnBSolver.cpp", "NcvxBnBSolver.cpp", "LinSolver.cpp", "SparseCholesky.cpp", "EqRoutine.cpp", "CvxInfoPrinter.cpp")]
REPODEF = ['-DVF_REPO_DIR="%s"' % REPO]

STUBS = ["-I" + os.path.join(VERIF, "harness", "stubs")]
MO = REPO + "/momentumopt/src/momentumopt/"
LQ = REPO + "/solver_lqr/src/solver_lqr/"
LQRSRC = [LQ + f for f in ("BackwardPass.cpp", "FiniteDifferences.cpp", "ForwardPass.cpp", "LqrInfoPrinter.cpp", "OcpDescription.cpp", "SolverLqr.cpp", "SolverLqrSetting.cpp")]
CFGDEF = ['-DCFG_SRC_PATH="%s/momentumopt/config/"' % REPO, '-DCFG_PATH="%s/solver_lqr/config/"' % REPO]
PLANINC = STUBS + ["-I" + REPO + "/solver_lqr/include", "-I" + REPO + "/momentumopt/include"]

TARGETS = {
    "cfg": dict(harness="h_cfg.cpp", sources=[S + "interface/SolverSetting.cpp", LQ + "SolverLqrSetting.cpp", MO + "setting/PlannerSetting.cpp",
                MO + "cntopt/ContactState.cpp", MO + "cntopt/TerrainDescription.cpp", MO + "dynopt/DynamicsState.cpp"],
                defs=REPODEF + CFGDEF, inc=PLANINC, extra_sim=["sim_fs.cpp"]),
    "lqr": dict(harness="h_lqr.cpp", sources=CONIC + LQRSRC,
                defs=REPODEF + CFGDEF, inc=PLANINC, extra_sim=["sim_fs.cpp"]),
    "plan": dict(eigen_fix=True, harness="h_plan.cpp", sources=CONIC + [MO + f for f in (
                "setting/PlannerSetting.cpp", "cntopt/ContactState.cpp", "cntopt/ContactPlanInterface.cpp", "cntopt/ContactPlanFromFile.cpp", "cntopt/TerrainDescription.cpp",
                "dynopt/DynamicsOptimizer.cpp", "dynopt/DynamicsState.cpp", "kinopt/KinematicsOptimizer.cpp", "kinopt/KinematicsInterface.cpp", "kinopt/KinematicsState.cpp",
                "utilities/OrientationUtils.cpp", "utilities/TrajectoryGenerator.cpp")], defs=REPODEF + CFGDEF, inc=PLANINC, extra_sim=["sim_fs.cpp"]),
    "fb": dict(eigen_fix=True, harness="h_fb.cpp", sources=CONIC + LQRSRC + [MO + f for f in ("setting/PlannerSetting.cpp", "dynopt/DynamicsFeedback.cpp", "dynopt/DynamicsState.cpp")],
               defs=REPODEF + CFGDEF + ['-DFB_REPO="%s"' % REPO], inc=PLANINC, extra_sim=["sim_fs.cpp"]),
    "par": dict(eigen_fix=True, harness="h_par.cpp", sources=CONIC + [O + "LbfgsSolver.cpp"] + LQRSRC, defs=REPODEF + CFGDEF, inc=PLANINC),
    "socp": dict(eigen_fix=True, harness="h_socp.cpp", sources=CONIC, defs=REPODEF, plain=["socp_ref.cpp"]),
    "lbfgs": dict(harness="h_lbfgs.cpp", sources=[S + "optimizer/LbfgsSolver.cpp"]),
    "hqp": dict(harness=["h_hqp4.cpp", "h_hqp6.cpp", "h_hqp.cpp"], sources=EXPR),
}


def target(name, flavour):
    return build(name, flavour, **TARGETS[name])


if __name__ == "__main__":
    import time
    for a in sys.argv[1:]:
        n, f = a.split(":")
        t = time.time()
        print(target(n, f), "%.1fs" % (time.time() - t))

"""Stand-ins for the parties the Python parts talk to: the robot model library,
the physics simulator, the robot packages and the C++ bindings."""
import os, re, sys, types
import numpy as np
from psim import REPO, Stop

PY = os.path.join(REPO, "momentumopt", "python")


def params():
    """the names of all planner parameters the bindings export"""
    names = set()
    for root, dirs, files in os.walk(os.path.join(REPO, "momentumopt")):
        for f in files:
            if f.endswith((".py", ".hpp", ".cpp")):
                names.update(re.findall(r"\bPlanner(?:Int|Bool|Double|String|Vector|CVector|Array)Param_\w+", open(os.path.join(root, f), errors="replace").read()))
    return sorted(names)


class Col(np.matrix):
    """a column vector that also takes one-dimensional values"""
    def __new__(cls, a):
        return np.asarray(a, dtype=float).reshape(-1, 1).view(cls)

    def __setitem__(self, k, v):
        a = np.asarray(v, dtype=float)
        if a.ndim == 1 and a.size > 1:
            a = a.reshape(-1, 1)
        np.matrix.__setitem__(self, k, a)


def module(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    sys.modules[name] = m
    return m


def unknown(name):
    def get(attr):
        if attr.startswith("__"):
            raise AttributeError(attr)
        def f(*a, **k):
            raise Stop("%s.%s is not simulated" % (name, attr))
        return f
    return get


class World:
    """what the simulated parties currently are; replaced by every run"""


W = World()

# ---- robot model ------------------------------------------------------------------------------
# two leg-major joint orders: the model's (ids 2..9) and the simulator's
MODEL_NAMES = ["universe", "root_joint"] + [l + "_" + j for l in ("FL", "FR", "HL", "HR") for j in ("HFE", "KFE")]
NQ, NV, NJ = 15, 14, 8
FRAMES = ["universe", "root_joint", "base_link"] + [l + "_" + j for l in ("FL", "FR", "HL", "HR") for j in ("HFE", "KFE", "ANKLE")]


class Data:
    def __init__(self):
        self.q = np.zeros(NQ)
        self.oMf = [types.SimpleNamespace(rotation=np.eye(3), translation=np.zeros(3)) for _ in FRAMES]
        self.hg = types.SimpleNamespace(vector=np.zeros((6, 1)))


class Model:
    nq, nv = NQ, NV

    def __init__(self, order):
        self.names = MODEL_NAMES[:2] + [MODEL_NAMES[2 + i] for i in order]
        self.frames = list(FRAMES)
        self.inertias = [types.SimpleNamespace(mass=0.2) for _ in self.names]

    def getJointId(self, name):
        return self.names.index(name) if name in self.names else len(self.names)

    def getFrameId(self, name):
        return FRAMES.index(name) if name in FRAMES else len(FRAMES)

    def existFrame(self, name):
        return name in FRAMES


def flat(x):
    return np.asarray(x, dtype=float).reshape(-1)


_A = np.sin(np.arange(6 * NV * NQ, dtype=float).reshape(6, NV, NQ) * 0.7)
_B = np.cos(np.arange(6 * NV, dtype=float).reshape(6, NV) * 1.3)


def jacobian(q, index):
    return 0.05 * np.sin(_A @ flat(q) + index) + 0.02 * _B


def momentum(q, dq):
    return _B @ flat(dq) * (1 + 0.1 * np.sin(flat(q)[7]))


def com(q):
    q = flat(q)
    return q[:3] + 0.01 * np.sin(q[7:10])


def difference(model, a, b):
    a, b = flat(a), flat(b)
    o = np.zeros(NV)
    o[:3] = b[:3] - a[:3]
    o[3:6] = 2 * (b[3:6] - a[3:6])
    o[6:] = b[7:] - a[7:]
    return Col(o)


def set_q(model, data, q, *a):
    data.q = flat(q).copy()


class Robot:
    def __init__(self):
        self.model = Model(W.order)
        self.data = Data()
        self.nq, self.nv = NQ, NV

    def forwardKinematics(self, q, dq=None, ddq=None):
        self.data.q = flat(q).copy()

    def computeJointJacobians(self, q):
        self.data.q = flat(q).copy()

    def framesForwardKinematics(self, q):
        self.data.q = flat(q).copy()

    def centroidalMomentum(self, q, dq, ddq=None):
        self.data.hg.vector = momentum(q, dq).reshape(6, 1)
        return self.data.hg

    def com(self, q):
        return com(q).reshape(3, 1)


def install(pinocchio=True, matplotlib=True):
    """makes the stand-ins importable and puts the repository on the path"""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent/psim"
    sys.path.insert(0, PY)
    if pinocchio:
        pin = module("pinocchio", forwardKinematics=set_q, difference=difference, neutral=lambda m: Col([0, 0, 0, 0, 0, 0, 1] + [0] * NJ),
                     integrate=lambda m, q, v: Col(np.r_[flat(q)[:3] + flat(v)[:3], flat(q)[3:7], flat(q)[7:] + flat(v)[6:]]),
                     getFrameJacobian=lambda m, d, i, f: jacobian(d.q, i), updateFramePlacements=lambda m, d: None,
                     ReferenceFrame=types.SimpleNamespace(LOCAL=0, WORLD=1, LOCAL_WORLD_ALIGNED=2),
                     SE3=lambda R, t: types.SimpleNamespace(action=np.eye(6), rotation=R, translation=t),
                     RobotWrapper=Robot)
        pin.utils = module("pinocchio.utils", zero=lambda n: Col(np.zeros(n)), skew=lambda v: np.zeros((3, 3)))
        pin.robot_wrapper = module("pinocchio.robot_wrapper", RobotWrapper=Robot)
        pin.__getattr__ = unknown("pinocchio")
        module("quadprog", solve_qp=unknown("quadprog")("solve_qp"))
        cfg = types.SimpleNamespace(buildRobotWrapper=Robot)
        robots(cfg, cfg, cfg)
    p = module("pybullet")
    p.__getattr__ = lambda a: getattr(W.bullet, a) if not a.startswith("__") else unknown("")(a)
    module("rospkg", RosPack=lambda: types.SimpleNamespace(get_path=lambda n: "/simpkg/" + n))
    names = params()
    pm = module("pymomentum", **{n: n for n in names})
    for c in ("PlannerSetting", "DynamicsState", "TerrainDescription", "ContactPlanFromFile", "DynamicsOptimizer", "KinematicsSequence", "DynamicsFeedback", "KinematicsInterface", "DynamicsSequence", "ContactType"):
        setattr(pm, c, (lambda n: lambda *a: W.make(n, *a))(c))
    pm.__all__ = [n for n in vars(pm) if not n.startswith("__")]
    module("pysolver", __all__=[])
    module("pysolverlqr", __all__=["SolverLqrSetting"], SolverLqrSetting=lambda *a: W.make("SolverLqrSetting", *a))


def robots(solo8, solo12, bolt):
    a = module("robot_properties_solo")
    a.config = module("robot_properties_solo.config", Solo8Config=solo8, Solo12Config=solo12)
    b = module("robot_properties_bolt")
    b.config = module("robot_properties_bolt.config", BoltConfig=bolt)

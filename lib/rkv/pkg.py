"""Imports the code under test from /repo's working tree (never from stale bytecode)."""
import importlib, importlib._bootstrap_external as _be, os, sys, types, logging, zlib

REPO = os.environ.get("RKV_REPO", "/repo")
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)


def _no_cache(*a, **k):
    raise NotImplementedError


_saved = _be.cache_from_source
_be.cache_from_source = _no_cache
try:
    if not os.path.exists(os.path.join(REPO, "rkstiff", "__version__.py")):
        _m = types.ModuleType("rkstiff.__version__")  # generated file, absent before a build
        _m.version = _m.__version__ = "0"
        sys.modules["rkstiff.__version__"] = _m
    import rkstiff
    from rkstiff import grids, derivatives, transforms, models, etd, solver, solveras, solvercs
    from rkstiff.etd4 import ETD4
    from rkstiff.etd5 import ETD5
    from rkstiff.etd34 import ETD34
    from rkstiff.etd35 import ETD35
    from rkstiff.if4 import IF4
    from rkstiff.if34 import IF34
    from rkstiff.if45dp import IF45DP
    from rkstiff.etd import ETDConfig, psi1, psi2, psi3
    from rkstiff.solveras import SolverConfig, BaseSolverAS
    from rkstiff.solvercs import BaseSolverCS
    from rkstiff.util import loghelper
    from rkstiff.util.solver_type import SolverType
finally:
    _be.cache_from_source = _saved
assert os.path.realpath(rkstiff.__file__).startswith(os.path.realpath(REPO) + os.sep), rkstiff.__file__

# solver log output is not wanted on stderr; levels and records still work
logging.getLogger("rkstiff").propagate = False


_null = open(os.devnull, "w")



def quiet_handlers():
    orig = logging.StreamHandler.__init__

    def init(self, stream=None):
        orig(self, _null if stream is None else stream)
    logging.StreamHandler.__init__ = init


quiet_handlers()

CS = {"ETD4": ETD4, "ETD5": ETD5, "IF4": IF4}
AS = {"ETD34": ETD34, "ETD35": ETD35, "IF34": IF34, "IF45DP": IF45DP}
CLS = {**CS, **AS}
Q = {"ETD34": 4, "ETD35": 4, "IF34": 4, "IF45DP": 5}
ETDS = ("ETD4", "ETD5", "ETD34", "ETD35")
ORDER = {"ETD4": 4, "ETD5": 5, "IF4": 4, "ETD34": 4, "ETD35": 5, "IF34": 4, "IF45DP": 5}
DIAGONALIZABLE = ("ETD34", "ETD35", "IF34")


def is_as(name):
    return name in AS


def forms_of(name):
    f = ["diag"]
    if name != "IF45DP":
        f.append("full")
    if name in DIAGONALIZABLE:
        f.append("diagonalized")
    return f


def all_forms():
    return [(n, f) for n in CLS for f in forms_of(n)]


LEVEL = "CRITICAL"      # of solvers made without a level of their own; chosen anew for every case


def draw_level(text):
    """Mostly CRITICAL; one case in six logs everything, one in twelve INFO (a level must not change any result)."""
    global LEVEL
    k = zlib.crc32(text.encode()) % 12
    LEVEL = "DEBUG" if k < 2 else ("INFO" if k == 2 else "CRITICAL")


def make(name, L, N, form="diag", config=None, etd_config=None, loglevel=None):
    kw = {"loglevel": loglevel or LEVEL}
    if is_as(name) and config is not None:
        kw["config"] = config
    if name in ETDS and etd_config is not None:
        kw["etd_config"] = etd_config
    if form == "diagonalized":
        kw["diagonalize"] = True
    return CLS[name](L, N, **kw)

"""Case runner, monitors' bookkeeping, verdicts and evidence.

A check is a list of strata.  A stratum is a function case(rng, mon, idx) that
builds one workload from `rng`, runs the real code under it and lets monitors
report to `mon`.  Every case is reproducible from (seed, property, stratum, idx).

Verdicts: a violation reported by a monitor (or an exception that escapes from
the code under test on an admissible input) -> exit 1; a broken harness, or
monitors that observed nothing -> exit 2; otherwise 0.
"""
import collections, hashlib, json, logging, multiprocessing as mp, os, pickle, signal, sys, time, traceback, warnings, zlib
import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("RKV_REPO", "/repo")
PKG = os.path.join(os.path.realpath(REPO), "rkstiff") + os.sep
CASE_LIMIT_S = 240
# quick tier: cases per stratum are multiplied by this, so that every check uses about the same time
QUICK_SCALE = {"C01": 8, "C02": 8, "C03": 10, "C04": 20, "C05": 8, "C06": 4, "C07": 6, "C08": 3, "C09": 6, "C10": 4, "C11": 5, "C12": 4, "C13": 12, "C14": 3, "C15": 8, "C16": 4,
               "C17": 3, "C18": 6, "C19": 10, "C20": 5, "C21": 20, "C22": 20, "C23": 10, "C24": 20, "C25": 6, "C26": 2, "C27": 2, "C28": 6, "C29": 6, "C30": 10, "C31": 2, "C32": 1, "C33": 3, "C34": 2}


class CaseTimeout(BaseException):
    pass


class Inconclusive(Exception):
    """A case that turned out not to be decidable (counted, never a violation)."""


class PkgFault(Exception):
    """An exception that came out of the code under test in a forked child."""


def in_fork(fn):
    """fn() in a forked child: the result is that of a process in which nothing after this moment happened."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.alarm(0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(CASE_LIMIT_S)
            try:
                out = ("ok", fn())
            except Inconclusive as e:
                out = ("undecided", str(e))
            except BaseException as e:  # noqa
                out = ("fault" if _in_pkg(sys.exc_info()[2]) else "harness", "%s: %s" % (type(e).__name__, e), traceback.format_exc())
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        except BaseException:  # noqa
            code = 3
        os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    _, st = os.waitpid(pid, 0)
    if st or not data:
        raise RuntimeError("forked run ended with status %d" % st)
    out = pickle.loads(data)
    if out[0] == "ok":
        return out[1]
    if out[0] == "undecided":
        raise Inconclusive(out[1])
    raise (PkgFault if out[0] == "fault" else RuntimeError)("%s\n%s" % out[1:])


def jsonable(x, depth=0):
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in x[:40]]
    if isinstance(x, np.ndarray):
        if x.size > 24:
            return {"shape": list(x.shape), "head": jsonable(x.ravel()[:24])}
        return [jsonable(v) for v in x.ravel().tolist()] if x.dtype != object else str(x)
    if isinstance(x, (np.longdouble,)):
        return float(x)
    if isinstance(x, (np.generic,)):
        return jsonable(x.item())
    if isinstance(x, complex):
        return [x.real, x.imag]
    if isinstance(x, float) and (x != x or x in (float("inf"), float("-inf"))):
        return str(x)
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return str(x)


class Mon:
    """Collects what the monitors saw during one case."""

    def __init__(self):
        self.counts = collections.Counter()
        self.keys = []
        self.viols = []
        self.findings = []
        self.info = {}

    def count(self, name, n=1):
        self.counts[name] += int(n)

    def key(self, *parts):
        """Declare the case non-trivial, identified by `parts`."""
        self.keys.append(hashlib.blake2b(repr(jsonable(parts)).encode(), digest_size=8).hexdigest())

    def note(self, **kw):
        self.info.update(kw)

    def viol(self, msg, **data):
        self.viols.append({"msg": msg, "data": jsonable(data)})

    def check(self, cond, msg, **data):
        self.counts["assertions"] += 1
        if not cond:
            self.viol(msg, **data)
        return bool(cond)

    def finding(self, fid, what, **data):
        self.findings.append({"fid": fid, "what": what, "data": jsonable(data)})


def _rng(seed, pid, stratum, idx):
    return np.random.default_rng([int(seed) & 0xFFFFFFFF, zlib.crc32(pid.encode()), zlib.crc32(stratum.encode()), int(idx)])


def _in_pkg(tb):
    for fs in traceback.extract_tb(tb):
        if os.path.realpath(fs.filename).startswith(PKG):
            return True
    return False


def _alarm(signum, frame):
    raise CaseTimeout()


def run_one(pid, seed, strata, name, idx):
    mon = Mon()
    fn = strata[name]["fn"]
    rng = _rng(seed, pid, name, idx)
    if "rkv.pkg" in sys.modules:
        sys.modules["rkv.pkg"].draw_level("%s %s %s %s" % (pid, seed, name, idx))
    err = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT_S)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn(rng, mon, idx)
        mon.count("cases_decided")
    except Inconclusive as e:
        mon.count("cases_undecided")
        mon.count("undecided: " + str(e)[:60])
    except PkgFault as e:
        mon.viol("unexpected " + str(e)[:1800])
    except CaseTimeout:
        etb = sys.exc_info()[2]
        if _in_pkg(etb):
            mon.viol("no result within %d s" % CASE_LIMIT_S, trace=traceback.format_exc()[-1500:])
        else:
            err = "timeout in harness: " + traceback.format_exc()
    except Exception as e:  # noqa
        etb = sys.exc_info()[2]
        if _in_pkg(etb):
            mon.viol("unexpected %s: %s" % (type(e).__name__, e), trace=traceback.format_exc()[-1800:])
        else:
            err = traceback.format_exc()
    finally:
        signal.alarm(0)
    return mon, err


_STATE = {}


def _work(job):
    name, lo, hi = job
    out = []
    for idx in range(lo, hi):
        t = time.time()
        one = lambda: run_one(_STATE["pid"], _STATE["seed"], _STATE["strata"], name, idx)  # noqa
        mon, err = in_fork(one) if _STATE["strata"][name].get("isolate") else one()
        keys = [hashlib.blake2b("".join(sorted(set(mon.keys))).encode(), digest_size=8).hexdigest()] if mon.keys else []
        out.append((name, idx, dict(mon.counts), keys, mon.viols, mon.findings, mon.info, err, time.time() - t))
        if err:
            break
    return out


def load_known(pid):
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known:") and ("property=%s " % pid) in line:
                d = dict(tok.split("=", 1) for tok in line.split() if "=" in tok and tok.split("=", 1)[0] in ("property", "id"))
                known[d["id"]] = line
    return known


class Check:
    def __init__(self, pid, rule, level="exploration", assumptions=()):
        self.pid, self.rule, self.level = pid, rule, level
        self.assumptions = list(assumptions)
        self.strata = collections.OrderedDict()
        self.required = []

    def stratum(self, name, quick, thorough, fn=None, chunk=None, isolate=False):
        """isolate: every case runs in a forked child of a process in which the code under test was only imported."""
        def deco(f):
            self.strata[name] = dict(fn=f, quick=quick, thorough=thorough, chunk=chunk, isolate=isolate)
            return f
        return deco if fn is None else deco(fn)

    def require(self, *counters):
        """Counters that must be non-zero for the run to mean anything."""
        self.required += counters

    def main(self, argv=None):
        argv = sys.argv[1:] if argv is None else argv
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        tier = os.environ.get("VERIF_TIER", "quick")
        if tier not in ("quick", "thorough"):
            tier = "quick"
        scale = float(os.environ.get("RKV_SCALE", "1")) * (QUICK_SCALE.get(self.pid, 1) if tier == "quick" else 1)
        logging.disable(logging.NOTSET)
        if argv and argv[0] == "--replay":
            rec = json.load(open(argv[1]))
            mon, err = run_one(self.pid, rec["seed"], self.strata, rec["stratum"], rec["idx"])
            print(json.dumps({"violations": mon.viols, "findings": mon.findings, "error": err, "counts": dict(mon.counts), "info": jsonable(mon.info)}, indent=1))
            return 2 if err else (1 if mon.viols else 0)
        only = None
        if argv and argv[0] == "--only":
            only = argv[1].split(",")
        t0 = time.time()
        jobs = []
        for name, s in self.strata.items():
            if only and name not in only:
                continue
            n = max(1, int(round(s[tier] * scale))) if s[tier] else 0
            c = s["chunk"] or max(1, min(25, n // 24))
            jobs += [(name, i, min(n, i + c)) for i in range(0, n, c)]
        # spread strata over the run so that an early stop still saw all of them
        order = np.random.default_rng(0).permutation(len(jobs))
        jobs = [jobs[i] for i in order]
        _STATE.update(pid=self.pid, seed=seed, strata=self.strata)
        counts, keys, per, samples = collections.Counter(), set(), collections.Counter(), {}
        viols, findings, errors, wall = [], [], [], collections.Counter()
        nproc = int(os.environ.get("RKV_PROCS", "0")) or min(8, os.cpu_count() or 1)
        pool = mp.get_context("fork").Pool(nproc) if nproc > 1 else None
        it = pool.imap_unordered(_work, jobs) if pool else map(_work, jobs)
        for res in it:
            for name, idx, c, ks, vs, fs, info, err, dt in res:
                per[name] += 1
                wall[name] += dt
                counts.update(c)
                keys.update(ks)
                if info and name not in samples:
                    samples[name] = {"stratum": name, "idx": idx, **jsonable(info)}
                for v in vs:
                    viols.append({"stratum": name, "idx": idx, **v})
                for f in fs:
                    findings.append({"stratum": name, "idx": idx, **f})
                if err:
                    errors.append((name, idx, err))
            if len(viols) >= 20 or len(errors) >= 20:
                break
        if pool:
            pool.terminate()
            pool.join()
        known = load_known(self.pid)
        seen_known = {}
        for f in findings:
            if f["fid"] in known:
                seen_known.setdefault(f["fid"], f["what"])
            else:
                viols.append({"stratum": f["stratum"], "idx": f["idx"], "msg": "finding not listed as known: %s: %s" % (f["fid"], f["what"]), "data": f["data"]})
        for fid, what in sorted(seen_known.items()):
            print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, fid, what))
        missing = [c for c in self.required if not counts.get(c)] if not only else []
        ev = {
            "property": self.pid, "tier": tier, "seed": seed, "level": self.level,
            "coverage": {
                "evaluations": int(sum(per.values())),
                "distinct_nontrivial": len(keys),
                "rule": self.rule,
                "samples": list(samples.values()) or [{"stratum": n, "cases": per[n]} for n in per],
                "cases_per_stratum": dict(per),
                "cpu_s_per_stratum": {k: round(v, 2) for k, v in wall.items()},
                "observed": {k: int(v) for k, v in sorted(counts.items())},
                "known_findings_seen": sorted(seen_known),
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - t0, 2),
            "violations": len(viols),
        }
        if not only:
            with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
                json.dump(ev, f, indent=1)
        else:
            print(json.dumps(ev["coverage"], indent=1))
        if viols:
            rdir = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rdir, exist_ok=True)
            v = viols[0]
            path = os.path.join(rdir, "%s-%s-%d.json" % (self.pid, v["stratum"], v["idx"]))
            with open(path, "w") as f:
                json.dump({"property": self.pid, "seed": seed, "tier": tier, "stratum": v["stratum"], "idx": v["idx"], "violation": v}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            for v in viols[:6]:
                print("  [%s #%d] %s %s" % (v["stratum"], v["idx"], v["msg"], json.dumps(v["data"])[:600]))
            return 1
        if errors:
            n, i, e = errors[0]
            print("HARNESS-ERROR property=%s stratum=%s idx=%d\n%s" % (self.pid, n, i, e))
            return 2
        if missing:
            print("INCONCLUSIVE property=%s: nothing observed for %s" % (self.pid, missing))
            return 2
        print("PASS property=%s tier=%s cases=%d distinct=%d wall=%.1fs" % (self.pid, tier, sum(per.values()), len(keys), time.time() - t0))
        return 0

"""Runner for the generated-input checks.

A property is decided by one or more `Sub` checks.  A Sub has a Hypothesis strategy that produces a
JSON-able case and a function that drives the real code of /repo with that case and compares it with
an oracle; it raises `Violation` when the property is broken.  Every random choice of a case lives
inside the Hypothesis strategies, so a case can be shrunk, written to a replay file and run again
without Hypothesis.
"""
import hashlib
import importlib
import json
import math
import multiprocessing
import os
import sys
import time
import traceback
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(os.path.realpath(REPO), "src")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = os.path.join(SRC, "openspace") + os.sep
OUT = os.environ.get("VERIF_OUT", VERIF)

if SRC not in sys.path:
    sys.path.insert(0, SRC)


class Violation(Exception):
    """the code under test broke the property on this case"""


class Hang(Violation):
    """a loop of the code under test ran beyond any plausible number of iterations"""


class KnownFinding(Exception):
    """the case shows exactly a finding that is listed in known_findings.json"""

    def __init__(self, key, detail=""):
        super().__init__(key)
        self.key = key
        self.detail = detail


class Sub:
    def __init__(self, name, strategy, fn, quick, thorough=None, nontrivial=None, label=None, examples=(), shards=None):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 30
        self.nontrivial = nontrivial or (lambda c: True)
        self.label = label or (lambda c: ())
        self.examples = list(examples)
        self.shards = shards


# ---------------------------------------------------------------------------------------------
# checking helpers: every value that comes back from the code under test passes through these


def fail(msg):
    raise Violation(msg)


def num(v, what="value"):
    """the real number the code returned; anything else is a violation"""
    if isinstance(v, bool) or isinstance(v, complex) or not hasattr(v, "__float__"):
        raise Violation(f"{what}: expected a real number, got {v!r}")
    f = float(v)
    if f != f or f in (math.inf, -math.inf):
        raise Violation(f"{what}: expected a finite number, got {v!r}")
    return f


def xyz(v, what="vector"):
    """components of a returned 3-D vector"""
    if v is None:
        raise Violation(f"{what}: expected a vector, got None")
    try:
        c = (v.x, v.y, v.z)
    except AttributeError:
        raise Violation(f"{what}: expected a 3-D vector, got {type(v).__name__}")
    return tuple(num(a, what) for a in c)


def six(v, what="vector"):
    if v is None:
        raise Violation(f"{what}: expected a vector, got None")
    try:
        c = (v.x, v.y, v.z, v.vx, v.vy, v.vz)
    except AttributeError:
        raise Violation(f"{what}: expected a 6-D vector, got {type(v).__name__}")
    return tuple(num(a, what) for a in c)


def close(got, want, tol, what):
    g = num(got, what)
    if not abs(g - want) <= tol:
        raise Violation(f"{what}: got {g!r}, expected {want!r} (difference {g - want:.3e}, tolerance {tol:.3e})")


def vclose(got, want, tol, what):
    """distance of two vectors given as tuples (or a returned vector object)"""
    g = got if isinstance(got, (tuple, list)) else (six(got, what) if hasattr(got, "vx") else xyz(got, what))
    g = tuple(num(a, what) for a in g)
    if len(g) != len(want):
        raise Violation(f"{what}: got {len(g)} components, expected {len(want)}")
    d = math.sqrt(math.fsum((a - b) ** 2 for a, b in zip(g, want)))
    if not d <= tol:
        raise Violation(f"{what}: got {g!r}, expected {tuple(want)!r} (distance {d:.3e}, tolerance {tol:.3e})")


def between(v, lo, hi, what):
    g = num(v, what)
    if not lo <= g <= hi:
        raise Violation(f"{what}: {g!r} is outside [{lo!r}, {hi!r}]")
    return g


def turn(v, raw, what):
    """an angle in [0, 2 pi): 2 pi itself only as the rounding of a tiny negative angle"""
    g = between(v, 0.0, 2 * math.pi, what)
    if g >= 2 * math.pi and not -9e-16 < raw < 0:
        raise Violation(f"{what}: {g!r} is a full turn, not in [0, 2 pi)")
    return g


def truth(cond, what):
    if not cond:
        raise Violation(what)


# ---------------------------------------------------------------------------------------------
# deterministic guard against endless loops in the code under test

JUMP_BUDGET = 4_000_000


class _Guard:
    count = 0
    installed = False


def _codes(obj, seen):
    if isinstance(obj, types.CodeType):
        if obj in seen:
            return
        seen.add(obj)
        for c in obj.co_consts:
            if isinstance(c, types.CodeType):
                _codes(c, seen)


def install_guard():
    """count backward jumps of openspace code; no wall clock involved"""
    if _Guard.installed:
        return
    mon = sys.monitoring
    tool = 4
    mon.use_tool_id(tool, "verif-guard")

    def on_jump(code, src, dst):
        if dst >= src:
            return mon.DISABLE
        _Guard.count += 1
        if _Guard.count > JUMP_BUDGET:
            raise Hang(f"{code.co_qualname} does not terminate: more than {JUMP_BUDGET} loop iterations for one case")

    mon.register_callback(tool, mon.events.JUMP, on_jump)
    seen = set()
    for name, mod in list(sys.modules.items()):
        if not (name == "openspace" or name.startswith("openspace.")):
            continue
        stack = [vars(mod)]
        done = set()
        while stack:
            d = stack.pop()
            for v in list(d.values()):
                f = v
                if isinstance(v, (staticmethod, classmethod)):
                    f = v.__func__
                if isinstance(v, property):
                    for g in (v.fget, v.fset):
                        if g is not None:
                            _codes(getattr(g, "__code__", None), seen)
                    continue
                if isinstance(f, types.FunctionType):
                    _codes(f.__code__, seen)
                    w = getattr(f, "__wrapped__", None)
                    if w is not None:
                        _codes(getattr(w, "__code__", None), seen)
                elif hasattr(f, "__wrapped__"):
                    _codes(getattr(f.__wrapped__, "__code__", None), seen)
                elif isinstance(v, type) and v.__module__.startswith("openspace") and v not in done:
                    done.add(v)
                    stack.append(vars(v))
    for c in seen:
        mon.set_local_events(tool, c, mon.events.JUMP)
    _Guard.installed = True


def _from_repo(exc):
    """does the traceback of this exception run through the code under test?"""
    seen = set()
    e = exc
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        tb = e.__traceback__
        while tb is not None:
            if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(PKG):
                return True
            tb = tb.tb_next
        e = e.__cause__ or e.__context__
    if isinstance(exc, AttributeError):
        obj = getattr(exc, "obj", None)
        mod = getattr(obj if isinstance(obj, type) else type(obj), "__module__", "") or ""
        if mod.startswith("openspace"):
            return True
    return False


def evaluate(sub, case):
    """run one case; raises Violation or KnownFinding; anything else raised is a harness error"""
    _Guard.count = 0
    try:
        sub.fn(case)
    except (Violation, KnownFinding):
        raise
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except Exception as e:
        if _from_repo(e):
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if os.path.realpath(f.filename).startswith(PKG)]
            at = f" at {where[-1].name} ({os.path.basename(where[-1].filename)}:{where[-1].lineno})" if where else ""
            raise Violation(f"{type(e).__name__}: {e}{at}") from e
        if isinstance(e, (ArithmeticError, ValueError, TypeError, AttributeError, LookupError)):
            # never raised while the code returns sensible values
            raise Violation(f"the values returned by the code cannot be judged: {type(e).__name__}: {e}") from e
        raise


def canonical(case):
    return json.dumps(case, sort_keys=True)


# ---------------------------------------------------------------------------------------------
# one shard of one sub-check


def _sub_seed(seed, prop, sub, shard):
    return int.from_bytes(hashlib.sha256(f"{seed}/{prop}/{sub}/{shard}".encode()).digest()[:8], "big")


def run_shard(job):
    prop, modname, subname, shard, nshards, count, seed, deadline, stop = job
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    import hypothesis.internal.conjecture.engine as engine

    engine.MAX_SHRINKING_SECONDS = float(os.environ.get("VERIF_SHRINK_SECONDS", "25"))
    res = {
        "sub": subname, "shard": shard, "evaluations": 0, "nontrivial": set(), "labels": {}, "samples": [],
        "failure": None, "error": None, "known": {}, "cut": False,
    }
    try:
        mod = importlib.import_module(modname)
        install_guard()
        sub = {s.name: s for s in mod.SUBS}[subname]
        state = {"failing": None, "first": None}

        def one(case):
            text = canonical(case)
            if state["failing"] is None:
                if (deadline and time.monotonic() > deadline) or STOP.is_set():
                    res["cut"] = True
                    return
            res["evaluations"] += 1
            try:
                evaluate(sub, case)
            except KnownFinding as k:
                res["known"].setdefault(k.key, [0, k.detail, text])
                res["known"][k.key][0] += 1
            except Violation as v:
                state["failing"] = (case, str(v))
                if state["first"] is None:
                    state["first"] = (case, str(v), res["evaluations"])
                raise
            if state["failing"] is None:
                if sub.nontrivial(case):
                    h = hashlib.blake2b(text.encode(), digest_size=8).digest()
                    if h not in res["nontrivial"]:
                        res["nontrivial"].add(h)
                        if len(res["samples"]) < 2 and res["evaluations"] > 3:
                            res["samples"].append({"sub": subname, "case": case})
                for lab in sub.label(case):
                    res["labels"][lab] = res["labels"].get(lab, 0) + 1

        if shard == 0:
            for ex in sub.examples:
                try:
                    one(json.loads(json.dumps(ex)))
                except Violation as v:
                    res["failure"] = {"case": ex, "message": str(v), "shrunk": False, "kind": "case"}
                    STOP.set()
                    return res

        test = hypothesis.given(sub.strategy)(one)
        test = settings(
            max_examples=max(1, count), database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
            phases=(Phase.generate, Phase.shrink), suppress_health_check=list(HealthCheck), print_blob=False,
        )(test)
        test = hypothesis.seed(_sub_seed(seed, prop, subname, shard))(test)
        try:
            test()
        except Violation:
            case, msg = state["failing"]
            # confirm outside Hypothesis
            try:
                evaluate(sub, json.loads(json.dumps(case)))
                res["failure"] = {"case": state["first"][0], "message": state["first"][1], "kind": "campaign",
                                  "shrunk": False}
            except KnownFinding:
                res["failure"] = {"case": case, "message": msg, "kind": "campaign", "shrunk": False}
            except Violation as v:
                res["failure"] = {"case": case, "message": str(v), "shrunk": True, "kind": "case"}
        except Exception as e:
            if state["first"] is not None and (type(e).__name__ in ("Flaky", "FlakyFailure", "FlakyReplay")
                                               or isinstance(e, hypothesis.errors.Flaky)):
                case, msg, _ = state["first"]
                kind = "campaign"
                try:
                    evaluate(sub, json.loads(json.dumps(case)))
                except Violation:
                    kind = "case"
                except KnownFinding:
                    pass
                res["failure"] = {"case": case, "message": msg + " (depends on what ran before in the same process)"
                                  if kind == "campaign" else msg, "kind": kind, "shrunk": False}
            else:
                raise
        if res["failure"]:
            res["failure"]["seed"] = seed
            res["failure"]["shard"] = shard
            res["failure"]["count"] = count
            STOP.set()
    except BaseException as e:  # harness error
        if isinstance(e, (KeyboardInterrupt,)):
            raise
        res["error"] = "".join(traceback.format_exception(e))
    return res


STOP = None


def _init_worker(stop):
    global STOP
    STOP = stop


def import_subject(modname, prop):
    """import the check module; a failure inside the code under test is a violation of the property"""
    try:
        return importlib.import_module(modname), None
    except Exception as e:
        if _from_repo(e) or (isinstance(e, ImportError) and "openspace" in str(e)):
            return None, f"the code cannot be imported: {type(e).__name__}: {e}"
        raise

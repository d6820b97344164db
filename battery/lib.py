"""Support for the concrete (bounded) checks: they run the real, uninstrumented package from /repo against executable
contracts.  A check judges results, types of exceptions and effects, never the wording of a message."""
import collections, dataclasses, datetime, decimal, enum, json, math, os, random, sys, time, traceback, types, typing as t

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(REPO, "databind", "src"))
import logging
logging.disable(logging.CRITICAL)

from databind.core import ConversionError  # noqa: E402


class Stop(Exception):
    pass


def outcome(fn):
    try:
        return "ok", fn()
    except ConversionError as exc:
        return "CE", exc
    except (KeyboardInterrupt, Stop):
        raise
    except BaseException as exc:  # noqa: BLE001
        return "exc", exc


def same(a, b):
    """Equal in value and type, recursively."""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return (math.isnan(a) and math.isnan(b)) or (a == b and math.copysign(1, a) == math.copysign(1, b))
    if isinstance(a, decimal.Decimal):
        return (a.is_nan() and b.is_nan()) or (a == b and str(a) == str(b))
    if isinstance(a, dict) or isinstance(a, collections.OrderedDict):
        if len(a) != len(b):
            return False
        ka = sorted(a.items(), key=lambda kv: (type(kv[0]).__name__, repr(kv[0])))
        kb = sorted(b.items(), key=lambda kv: (type(kv[0]).__name__, repr(kv[0])))
        return all(same(x, y) and same(v, w) for (x, v), (y, w) in zip(ka, kb))
    if isinstance(a, (list, tuple, collections.deque)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (set, frozenset)):
        return len(a) == len(b) and all(any(same(x, y) for y in b) for x in a)
    if dataclasses.is_dataclass(a) and not isinstance(a, type):
        for f in dataclasses.fields(a):
            missing = object()
            x, y = getattr(a, f.name, missing), getattr(b, f.name, missing)
            if not (same(x, y) or type(x) is type(y) is object):
                return False
        return True
    try:
        return bool(a == b)
    except Exception:
        return False


def show(x, n=700):
    try:
        s = repr(x)
    except Exception as exc:
        s = f"<unprintable {type(x).__name__}: {exc!r}>"
    return s if len(s) <= n else s[:n] + "..."


def show_out(o):
    kind, v = o
    if kind == "ok":
        return f"returned {show(v)} ({type(v).__name__})"
    return f"raised {type(v).__name__}: {show(getattr(v, 'message', None) or v, 300)}"


class Battery:
    def __init__(self, pid, seed=1, tier="quick", max_violations=5):
        self.pid, self.seed, self.tier = pid, seed, tier
        self.rng = random.Random(f"{pid}:{seed}")
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.max = max_violations
        self.rules = []

    def times(self, n):
        n = n if self.tier == "quick" else n * 25
        for i in range(n):
            yield i

    def _count(self, desc):
        self.evals += 1
        h = hash(desc)
        if h not in self.distinct:
            self.distinct.add(h)
            if len(self.samples) < 3 or (self.evals % 997 == 0 and len(self.samples) < 8):
                self.samples.append(desc if len(desc) < 500 else desc[:500])

    def bad(self, desc, expected, got):
        self.violations.append({"input": desc, "expected": expected, "got": got})
        if len(self.violations) >= self.max:
            raise Stop

    def eq(self, desc, fn, expected):
        self._count(desc)
        o = outcome(fn)
        if o[0] != "ok" or not same(o[1], expected):
            self.bad(desc, f"return {show(expected)} ({type(expected).__name__})", show_out(o))
            return False
        return True

    def ce(self, desc, fn):
        self._count(desc)
        o = outcome(fn)
        if o[0] != "CE":
            self.bad(desc, "raise ConversionError", show_out(o))
            return False
        return True

    def no_leak(self, desc, fn):
        self._count(desc)
        o = outcome(fn)
        if o[0] == "exc":
            self.bad(desc, "return or raise ConversionError", show_out(o))
            return False
        return True

    def exc(self, desc, fn, kind):
        self._count(desc)
        o = outcome(fn)
        if o[0] == "ok" or not isinstance(o[1], kind):
            self.bad(desc, f"raise {kind.__name__ if isinstance(kind, type) else kind}", show_out(o))
            return False
        return True

    def spec(self, desc, fn, spec):
        """*spec* is an outcome ("ok", value) or ("CE",)."""
        return self.eq(desc, fn, spec[1]) if spec[0] == "ok" else self.ce(desc, fn)

    def true(self, desc, cond, expected="true", got=""):
        self._count(desc)
        if not cond:
            self.bad(desc, expected, got if isinstance(got, str) else show(got))
            return False
        return True


JSONISH = [
    None, True, False, 0, 1, -1, 2, 10**30, 10**400, 0.0, -0.0, 1.0, 1.5, -2.0, 1e300, float("inf"), float("-inf"), float("nan"),
    "", "a", "0", "1", "-7", " 5 ", "1_000", "1.5", "1e3", "inf", "nan", "yes", "Yes", "TRUE", "on", "enabled", "no", "False",
    "OFF", "disabled", "y", "t", "None", "héé", "YQ==", "YQ", "aGVsbG8=", "+/+/", "-_-_", "2020-01-02", "12:30:00", "\u0661\u0662",
    "2020-01-02T12:30:00Z", "P1D", "[]", "{}", [], [1], ["a"], [[]], [None], {}, {"a": 1}, {"type": "x"}, {1: 2}, {None: None},
    {"a": {"b": []}}, [{"a": 1}], [1, "a", None, {}],
]


class StrSub(str):
    pass


class IntSub(int):
    pass


class FloatSub(float):
    pass


class DictSub(dict):
    pass


class ListSub(list):
    pass


class Plain:
    def __repr__(self):
        return "Plain()"


ODD = [
    b"", b"a", b"\xff\x00", bytearray(b"x"), memoryview(b"x"), (), (1,), ("a", "b"), set(), {1}, frozenset({"x"}), StrSub("a"), StrSub("1"),
    IntSub(3), FloatSub(2.0), DictSub(a=1), ListSub([1]), Plain(), Plain, int, object(), 1j, range(3), decimal.Decimal("1.5"),
    datetime.date(2020, 1, 2), datetime.time(1, 2, 3), datetime.datetime(2020, 1, 2, 3, 4, 5), collections.deque([1]),
    collections.OrderedDict(a=1), types.MappingProxyType({"a": 1}), Ellipsis, len, (x for x in ()), "\ud800", [StrSub("a")],
    {StrSub("a"): 1}, {(1, 2): 3}, {True: 1}, {1.5: "x"}, {b"k": 1}, [b"x"], [{1}],
]


def rand_json(rng, depth=3):
    r = rng.random()
    if depth <= 0 or r < 0.55:
        return rng.choice([None, True, False, rng.randint(-5, 5), rng.random(), rng.choice(["", "a", "b", "type", "1", "yes"]), 1.0])
    if r < 0.78:
        return [rand_json(rng, depth - 1) for _ in range(rng.randint(0, 3))]
    return {rng.choice(["a", "b", "type", "x", "y"]): rand_json(rng, depth - 1) for _ in range(rng.randint(0, 3))}


def run_check(pid, seed, tier, *modules):
    b = Battery(pid, seed, tier)
    t0 = time.time()
    try:
        for module in modules:
            if hasattr(module, pid.lower()):
                getattr(module, pid.lower())(b)
    except Stop:
        pass
    except Exception as exc:
        tb = traceback.extract_tb(exc.__traceback__)
        src = os.path.join(REPO, "databind", "src")
        if isinstance(exc, (OSError, MemoryError, ImportError, NameError, SyntaxError)):
            raise
        b.violations.append({"input": "while preparing a case: " + " < ".join(f"{f.name}:{f.lineno} {f.line}" for f in reversed(tb) if not f.filename.startswith(src))[:1500],
                             "expected": "no exception", "got": f"{type(exc).__name__}: {exc} in " + " < ".join(f"{f.name}:{f.lineno}" for f in reversed(tb) if f.filename.startswith(src))})
    return {"property": pid, "seed": seed, "tier": tier, "evaluations": b.evals, "distinct": len(b.distinct),
            "samples": b.samples, "violations": b.violations, "wall_s": round(time.time() - t0, 3),
            "rule": "; ".join(b.rules)}

"""Path exploration, the z3 domain, event-log containers and loop summaries."""
from __future__ import annotations
import dataclasses, enum, linecache, os, pickle, re, sys, tempfile, time, traceback, types
import z3

# the z3 module's own versions of these spend their time on checking their arguments
z3.z3.Z3_DEBUG = False
_and, _or, _mk_ast = z3.And, z3.Or, z3.Ast


def _nary(slow, mk):
    def op(*args):
        a = args[0] if len(args) == 1 and isinstance(args[0], (list, tuple)) else args
        for x in a:
            if not isinstance(x, z3.BoolRef):
                return slow(*args)
        if not a:
            return slow(*args)
        arr = (_mk_ast * len(a))(*[x.ast for x in a])
        return z3.BoolRef(mk(a[0].ctx.ref(), len(a), arr), a[0].ctx)
    return op


def _substitute(t, *m):
    n = len(m)
    return z3.z3._to_expr_ref(z3.z3core.Z3_substitute(t.ctx.ref(), t.ast, n, (_mk_ast * n)(*[a.ast for a, _ in m]),
                                                      (_mk_ast * n)(*[b.ast for _, b in m])), t.ctx)


_slow_call = z3.FuncDeclRef.__call__
_KINDS = {z3.Z3_BOOL_SORT: z3.BoolRef, z3.Z3_INT_SORT: z3.ArithRef, z3.Z3_UNINTERPRETED_SORT: z3.ExprRef}


def _fast_call(self, *args):
    for x in args:
        if not isinstance(x, z3.ExprRef):
            return _slow_call(self, *args)
    cls = self.__dict__.get("_result")
    if cls is None:
        cls, self._n = _KINDS.get(self.range().kind(), 0), self.arity()
        self._result = cls
    if cls == 0 or len(args) != self._n:
        return _slow_call(self, *args)
    ctx = self.ctx
    return cls(z3.z3core.Z3_mk_app(ctx.ref(), self.ast, len(args), (_mk_ast * len(args))(*[x.ast for x in args])), ctx)


z3.FuncDeclRef.__call__ = _fast_call
z3.And, z3.Or, z3.substitute = _nary(_and, z3.z3core.Z3_mk_and), _nary(_or, z3.z3core.Z3_mk_or), _substitute

Int, Bool = z3.IntSort(), z3.BoolSort()
V = z3.DeclareSort("V")


class Control(BaseException):
    """Not an error of the code under verification; must not be caught by it."""


class PathEnd(Control):
    pass


class ProbeEnd(Control):
    pass


class Unsupported(Control):
    pass


class Budget(Unsupported):
    pass


# -------------------------------------------------------------------------------------------------- symbolic values
def engine_fault(exc):
    """True if the exception comes from the verifier's own code rather than from the semantics it implements."""
    if isinstance(exc, GeneratorExit):
        return False
    tb = exc.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    if last is None:
        return False
    file, line = last.tb_frame.f_code.co_filename, last.tb_lineno
    if "/z3/" in file or isinstance(exc, z3.Z3Exception):
        return True
    if file.startswith((HERE, os.path.join(os.path.dirname(HERE), "contracts"))):
        return not linecache.getline(file, line).strip().startswith("raise")
    return False


def refuse_fault(exc):
    """The code does not see exceptions of the verifier itself."""
    if exc is not None and not isinstance(exc, Control) and engine_fault(exc):
        raise Unsupported("verifier: " + "".join(traceback.format_exception_only(exc)).strip() + " at " +
                          "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in traceback.extract_tb(exc.__traceback__)[-3:])) from exc


class Sym:
    __slots__ = ()

    def __hash__(self):
        raise Unsupported(f"native hash of a symbolic {type(self).__name__}")

    def __eq__(self, other):
        raise Unsupported(f"native == on a symbolic {type(self).__name__}")

    def __iter__(self):
        raise Unsupported(f"native iteration of a symbolic {type(self).__name__}")

    def __len__(self):
        raise Unsupported(f"native len() of a symbolic {type(self).__name__}")

    def __index__(self):
        raise Unsupported("native index conversion of a symbolic value")

    def __str__(self):
        return f"<{type(self).__name__}>"

    __repr__ = __str__


class SB(Sym):
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return ENGINE().fork(self.f)

    def __repr__(self):
        return f"SB({self.f})"


class SI(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ENGINE().fork(self.t != 0)

    def __repr__(self):
        return f"SI({self.t})"


class SV(Sym):
    """An object known only through its term.  *cls*, if given, is its exact Python class."""
    __slots__ = ("t", "cls", "x")

    def __init__(self, t, cls=None, **x):
        self.t, self.cls, self.x = t, cls, x

    def __bool__(self):
        return ENGINE().rt.truth(self)

    def __getattr__(self, name):
        if name in ("__origin__", "__wrapped__", "__isabstractmethod__", "__set_name__"):
            raise AttributeError(name)
        return ENGINE().rt.getattr_sv(self, name)

    def __call__(self, *a, **k):
        return ENGINE().rt.call(self, *a, **k)

    def __repr__(self):
        return f"SV({self.t}{', ' + self.cls.__name__ if self.cls else ''})"


class IdxSeq(Sym):
    """A finite or infinite (n is None) sequence given by its length and a function of the index."""
    __slots__ = ("n", "at_", "t", "trig")

    def __init__(self, n, at, t=None, trig=None):
        self.n, self.at_, self.t, self.trig = n, at, t, trig

    def at(self, j):
        return self.at_(j)

    def __bool__(self):
        return True if self.n is None else ENGINE().fork(self.n > 0)

    def __getattr__(self, name):
        return ENGINE().rt.seq_attr(self, name)


# ------------------------------------------------------------------------------------------------------ containers
class Item:
    __slots__ = ("key", "value", "frame", "dead")

    def __init__(self, key, value, frame=None, dead=False):
        self.key, self.value, self.frame, self.dead = key, value, frame, dead

    def __repr__(self):
        return f"Item({self.key!r}, {self.value!r})" if not self.dead else f"Del({self.key!r})"


class Rec:
    """The events of a summarised loop on one container: for 0 <= j < upper, P(j) tells the path of iteration j."""
    __slots__ = ("P", "k", "upper", "paths")

    def __init__(self, P, k, upper, paths):
        self.P, self.k, self.upper, self.paths = P, k, upper, paths

    def __repr__(self):
        return f"Rec(<{self.upper}, {[(p, e) for p, _, e in self.paths]})"


class Acc(Sym):
    """A container (or variable) as the log of its modifications."""
    __slots__ = ("entries", "serial", "uid", "frozen", "native")

    def __init__(self, entries=()):
        e = ENGINE()
        self.entries = list(entries)
        e.serial += 1
        self.serial = e.serial
        self.uid = (e.prefix, self.serial)
        self.frozen = False
        if isinstance(self, Cell):
            self.local = None       # the number of loops whose iterations contain all that is done with the variable
        e.accs[self.uid] = self

    def event(self, item):
        e = ENGINE()
        if self.frozen:
            raise Unsupported("modification of a container obtained from a loop summary")
        f = e.frame
        if f is not None and self.serial <= f.serial and self.uid not in f.marks:
            f.marks[self.uid] = len(self.entries)
        item.frame = f
        self.entries.append(item)

    def reading(self, i):
        """Called when the entry at *i* is looked at: is it older than the current generic iteration?"""
        f = ENGINE().frame
        if f is not None and self.serial <= f.serial and i < f.marks.get(self.uid, len(self.entries)):
            f.reads.add(self.uid)

    def reading_start(self):
        f = ENGINE().frame
        if f is not None and self.serial <= f.serial:
            f.reads.add(self.uid)

    def concrete(self):
        return not any(isinstance(x, Rec) for x in self.entries)

    def snapshot(self):
        new = type(self).__new__(type(self))
        Acc.__init__(new, self.entries)
        self.reading_start()
        return new

    def __getattr__(self, name):
        return ENGINE().rt.acc_attr(self, name)

    def __bool__(self):
        return ENGINE().rt.acc_truth(self)

    def __repr__(self):
        return f"{type(self).__name__}({self.entries!r})"


class VList(Acc):
    __slots__ = ()


class VDict(Acc):
    __slots__ = ()


class VSet(Acc):
    __slots__ = ()


class VFilter(Sym):
    """A set: the elements of *base* whose membership in *other* is *keep* (base/other: snapshots)."""
    __slots__ = ("base", "other", "keep")

    def __init__(self, base, other, keep):
        self.base, self.other, self.keep = base, other, keep

    def __bool__(self):
        return ENGINE().rt.coll_truth(self)


class Cell(Acc):
    """A local variable that is assigned in a loop or by an inner function."""
    __slots__ = ("local",)

    def get(self):
        e = ENGINE()
        v = e.last_write(self, None)
        if v is NOTHING:
            if self.local is not None:
                raise Unsupported("a variable of a loop that is read before it is written")
            raise UnboundLocalError("local variable referenced before assignment")
        if v is FORGOTTEN:
            raise Unsupported("a variable that keeps what an iteration computed from its state")
        return v

    def set(self, v):
        e = ENGINE()
        if self.entries and isinstance(self.entries[-1], Item) and self.entries[-1].frame is e.frame and not self.frozen:
            if e.frame is None or self.serial > e.frame.serial or (
                    self.uid in e.frame.marks and len(self.entries) > e.frame.marks[self.uid]):
                self.entries[-1] = Item(None, v, e.frame)
                return
        self.event(Item(None, v))

    def setx(self, v):
        self.set(v)
        return v


class NativeCell:
    def __init__(self, *v):
        self.v = v

    def get(self):
        if not self.v:
            raise UnboundLocalError("local variable referenced before assignment")
        return self.v[0]

    def set(self, v):
        self.v = (v,)

    def setx(self, v):
        self.v = (v,)
        return v


class _Nothing:
    def __repr__(self):
        return "NOTHING"


NOTHING = _Nothing()


class _Forgotten:
    """What a variable holds after an iteration that left something in it that depends on the state of that iteration."""
    _leaf_ = True


FORGOTTEN = _Forgotten()
_current = []
HERE = os.path.dirname(os.path.abspath(__file__))


def ENGINE():
    return _current[-1]


def active():
    return bool(_current)


# ------------------------------------------------------------------------------------------------------ exploration
class Node:
    __slots__ = ("alts", "i", "loop")

    def __init__(self, alts, loop=None):
        self.alts, self.i, self.loop = alts, 0, loop


class LoopData:
    def __init__(self):
        self.round = 0
        self.mode = "probe"
        self.paths = {}       # effects -> (pid, [condition], {acc uid: entries}, k) of the previous round
        self.current, self.seen, self.current_seen = {}, set(), set()
        self.pids = {}
        self.reads, self.current_reads = set(), set()
        self.abnormal, self.norm, self.recursive = False, None, False

    @staticmethod
    def either(alts):
        """The disjunction of conjunctions, with what they have in common taken out."""
        alts = [{c.get_id(): c for c in cs} for cs in alts]
        if not all(alts):
            return z3.BoolVal(True)
        common = [i for i in alts[0] if all(i in a for a in alts)]
        out = [alts[0][i] for i in common]
        if len(alts) > 1:
            rest = [[c for i, c in a.items() if i not in common] for a in alts]
            if all(rest):
                out.append(z3.Or([z3.And(r) if len(r) > 1 else r[0] for r in rest]))
        return z3.And(out) if len(out) > 1 else out[0] if out else z3.BoolVal(True)

    def finish_round(self):
        written = {u for _, _, eff, _ in self.current.values() for u in eff}
        stable = not (written & self.current_reads) or (self.round > 0 and self.seen == self.current_seen)
        self.paths = {sig: (pid, [self.either(conds)], eff, k) for sig, (pid, conds, eff, k) in self.current.items()}
        self.norm, self.recursive = None, False
        self.seen, self.current, self.current_seen = self.current_seen, {}, set()
        self.reads, self.current_reads = self.current_reads, set()
        self.round += 1
        return stable


class Frame:
    __slots__ = ("loop", "k", "start", "marks", "reads", "serial", "prefix", "outer")


class Obligation:
    __slots__ = ("name", "status", "detail", "time")

    def __init__(self, name, status, detail="", time=0.0):
        self.name, self.status, self.detail, self.time = name, status, detail, time


class Engine:
    def __init__(self, bounded=None, prove_ms=8000, check_ms=400, budget_s=60.0, max_paths=20000, trace=False):
        self.bounded, self.prove_ms, self.check_ms = bounded, prove_ms, check_ms
        self.deadline = time.time() + budget_s
        self.max_paths = max_paths
        self.stack, self.pos = [], 0
        self.bg, self.bg_keys = [], set()
        self.consts, self.const_objs = {}, []
        self.obligations, self.covers, self.paths = [], {}, 0
        self.checks, self.solver_s = 0, 0.0
        self.full_paths = 0
        self.reached, self.children = set(), []
        self.failures = {}
        self.trace = trace
        self.funcs = {}
        self.assumed = set()
        self.sub_seen, self.sub_classes = {}, []
        from .runtime import Runtime
        self.rt = Runtime(self)
        self._axioms()
        self.failed_fast = self.weak_paths = False

    # -- z3 helpers
    def fn(self, name, *sorts):
        f = self.funcs.get((name,) + tuple(s.name() for s in sorts))
        if f is None:
            f = z3.Function(name, *sorts)
            self.funcs[(name,) + tuple(s.name() for s in sorts)] = f
        return f

    def fact(self, f, key=None):
        """A global truth (must not mention generic indices)."""
        if key is not None:
            if key in self.bg_keys:
                return
            self.bg_keys.add(key)
        self.bg.append(f)
        if self.solver is not None:
            self.solver.add(f)

    solver = None

    def _axioms(self):
        self.tag = self.fn("tag", V, Int)
        self.ibox = self.fn("ibox", Int, V)
        self.iunbox = self.fn("iunbox", V, Int)
        self.typeof = self.fn("typeof", V, V)
        self.sub = self.fn("sub", V, V, Bool)
        self.slen = self.fn("slen", V, Int)
        self.sat = self.fn("sat", V, Int, V)
        self.mhas = self.fn("mhas", V, V, Bool)
        self.mget = self.fn("mget", V, V, V)
        self.mkeys = self.fn("mkeys", V, V)
        self.midx = self.fn("midx", V, V, Int)
        self.truthy = self.fn("truthy", V, Bool)
        self.pyeq = self.fn("pyeq", V, V, Bool)
        i, x, y = z3.Int("i!"), z3.Const("x!", V), z3.Const("y!", V)
        if self.bounded is None:
            self.fact(z3.ForAll([i], z3.And(self.iunbox(self.ibox(i)) == i, self.tag(self.ibox(i)) == 1), patterns=[self.ibox(i)]))
            self.fact(z3.ForAll([x], self.slen(x) >= 0, patterns=[self.slen(x)]))
            # the keys of a mapping: distinct, and exactly those that the mapping has
            self.fact(z3.ForAll([x, i], z3.Implies(z3.And(0 <= i, i < self.slen(self.mkeys(x))), z3.And(
                self.mhas(x, self.sat(self.mkeys(x), i)), self.midx(x, self.sat(self.mkeys(x), i)) == i)),
                patterns=[self.sat(self.mkeys(x), i)]))
            self.fact(z3.ForAll([x, y], z3.Implies(self.mhas(x, y), z3.And(
                0 <= self.midx(x, y), self.midx(x, y) < self.slen(self.mkeys(x)), self.sat(self.mkeys(x), self.midx(x, y)) == y)),
                patterns=[self.mhas(x, y)]))
            self.fact(z3.ForAll([x, y], self.pyeq(x, y) == self.pyeq(y, x), patterns=[self.pyeq(x, y)]))

    def ilift(self, t):
        v = self.ibox(t)
        if self.bounded is not None:
            self.add_once(z3.And(self.iunbox(v) == t, self.tag(v) == 1))
        return v

    def length(self, t):
        n = self.slen(t)
        if self.bounded is not None:
            self.add_once(n >= 0)
        return n

    def has(self, m, key):
        """mhas as a formula (bounded mode: defined by the finitely many keys)."""
        f = self.mhas(m, key)
        if self.bounded is not None:
            ks = self.mkeys(m)
            n = self.length(ks)
            self.add_once(n <= self.bounded)
            els = [self.sat(ks, i) for i in range(self.bounded)]
            for a in range(self.bounded):
                self.add_once(z3.Implies(n > a, self.mhas(m, els[a])))
                for b in range(a):
                    self.add_once(z3.Implies(n > a, els[a] != els[b]))
            self.add_once(f == z3.Or([z3.And(n > a, key == els[a]) for a in range(self.bounded)]))
        return f

    def const(self, obj):
        if isinstance(obj, bool):
            key = ("b", obj)
        elif type(obj) is int:
            return self.ilift(z3.IntVal(obj))
        elif type(obj) in (str, bytes, float):
            key = (type(obj).__name__, repr(obj))
        elif obj is None:
            key = ("None",)
        else:
            key = ("o", id(obj))
        c = self.consts.get(key)
        if c is None:
            n = len(self.consts)
            c = z3.Const(f"K{n}_{self._nm(obj)}", V)
            self.consts[key] = c
            self.const_objs.append(obj)
            self.fact(self.tag(c) == 10 + n)
            if obj is None or isinstance(obj, (bool, str, bytes, float, enum.Enum)):
                self.fact(self.typeof(c) == self.const(type(obj)))
            if obj is None or isinstance(obj, (bool, str, bytes, float)):
                self.fact(self.truthy(c) == z3.BoolVal(bool(obj)))
            elif isinstance(obj, (enum.Enum, types.FunctionType)):
                self.fact(self.truthy(c) == z3.BoolVal(bool(obj)))
            if isinstance(obj, type):
                for d in self.sub_classes:
                    self._sub_ground(obj, d)
        return c

    @staticmethod
    def _nm(obj):
        s = getattr(obj, "__name__", None) or repr(obj)
        return "".join(ch if ch.isalnum() else "_" for ch in str(s))[:24]

    def _sub_ground(self, c, d):
        try:
            r = issubclass(c, d)
        except TypeError:
            return
        self.fact(self.sub(self.const(c), self.const(d)) == z3.BoolVal(r), ("sub", id(c), id(d)))

    def subclass(self, t, cls):
        """Formula: type term *t* is a subclass of the concrete class *cls*."""
        kc = self.const(cls)
        if cls not in self.sub_classes:
            self.sub_classes.append(cls)
            for o in list(self.const_objs):
                if isinstance(o, type):
                    self._sub_ground(o, cls)
            if self.bounded is None:
                T = z3.Const("T!", V)
                for d in self.sub_classes:
                    for a, b in ((cls, d), (d, cls)):
                        if a is not b and self._issub(a, b):
                            self.fact(z3.ForAll([T], z3.Implies(self.sub(T, self.const(a)), self.sub(T, self.const(b))),
                                                patterns=[self.sub(T, self.const(a))]), ("subax", id(a), id(b)))
        if cls is object:
            return z3.BoolVal(True)
        f = self.sub(t, kc)
        if self.bounded is not None:
            for d in self.sub_classes:
                kd = self.const(d)
                if self._issub(cls, d) and d is not cls:
                    self.add_once(z3.Implies(f, self.sub(t, kd)))
                elif self._issub(d, cls) and d is not cls:
                    self.add_once(z3.Implies(self.sub(t, kd), f))
        return f

    @staticmethod
    def _issub(a, b):
        try:
            return issubclass(a, b)
        except TypeError:
            return False

    # -- run control
    def reset_run(self):
        self.pos = 0
        self.path = []
        self.frame = None
        self.frames = []
        self.prefix = ""
        self.counter = self.loops = 0
        self.serial = 0
        self.accs = {}
        self.once = set()
        self.log = []
        self.rt.reset()
        self.solver = z3.Solver()
        self.solver.set("auto_config", False)
        self.solver.set("smt.mbqi", self.bounded is not None)
        self.solver.set("smt.random_seed", 1)
        for f in self.bg:
            self.solver.add(f)

    def explore(self, fn):
        _current.append(self)
        try:
            try:
                while True:
                    if time.time() > self.deadline:
                        raise Budget("time budget")
                    if self.paths >= self.max_paths:
                        raise Budget("path budget")
                    self.reset_run()
                    self.paths += 1
                    try:
                        fn(self)
                        self.full_paths += 1
                    except (PathEnd, ProbeEnd):
                        pass
                    if not self.backtrack():
                        break
            except BaseException as exc:
                if self.base is None:
                    raise
                self.report(f"{type(exc).__name__}: {exc}")
            else:
                if self.base is not None:
                    self.report(None)
            self.collect()
        finally:
            if self.base is not None:
                os._exit(1)
            self.children, left = [], self.children
            for pid, path in left:
                os.waitpid(pid, 0)
                os.unlink(path)
            _current.pop()
            self.solver = None

    # -- other processes explore some of the alternatives
    slots = None            # a semaphore: how many processes there may be
    base, last_split = None, 0.0

    def split(self, n):
        """Leave the alternatives of the node but the first to another process, if there may be one."""
        now = time.time()
        if self.slots is None or self.frames or now - self.last_split < 0.2 or any(x.loop is not None and x.loop.mode == "probe" for x in self.stack):
            return
        if not self.slots.acquire(block=False):
            return
        self.last_split = now
        fd, path = tempfile.mkstemp(prefix="pyvc")
        os.close(fd)
        pid = os.fork()
        if pid:
            n.alts = n.alts[:1]
            self.children.append((pid, path))
            return
        n.i, self.base, self.result, self.children = 1, len(self.stack) - 1, path, []
        self.obligations, self.covers, self.paths, self.full_paths, self.checks, self.solver_s = [], {}, 0, 0, 0, 0.0

    def report(self, err):
        try:
            try:
                self.collect()
            except Unsupported as exc:
                err = err or f"{type(exc).__name__}: {exc}"
            with open(self.result, "wb") as f:
                pickle.dump((err, [(o.name, o.status, o.detail, o.time) for o in self.obligations], self.covers, self.paths, self.full_paths,
                             self.checks, self.solver_s, self.rt.externals, self.reached), f)
            self.slots.release()
        finally:
            os._exit(0)

    def collect(self):
        err = None
        while self.children:
            pid, path = self.children.pop()
            os.waitpid(pid, 0)
            try:
                with open(path, "rb") as f:
                    x, obs, covers, paths, full, checks, secs, ext, reached = pickle.load(f)
            except Exception as exc:
                x, obs, covers, paths, full, checks, secs, ext, reached = f"Budget: lost a process ({exc})", [], {}, 0, 0, 0, 0.0, set(), set()
                self.slots.release()
            os.unlink(path)
            err = err or x
            self.obligations += [Obligation(*o) for o in obs]
            for n, st in covers.items():
                if self.covers.get(n) != "sat":
                    self.covers[n] = st
            self.paths, self.full_paths, self.checks, self.solver_s = self.paths + paths, self.full_paths + full, self.checks + checks, self.solver_s + secs
            self.rt.externals |= ext
            self.reached |= reached
        if err is not None:
            kind, _, text = err.partition(": ")
            raise {"Budget": Budget}.get(kind, Unsupported)(text)

    def backtrack(self):
        while len(self.stack) > (self.base or 0):
            n = self.stack[-1]
            if n.loop is not None:
                if self.advance_loop(n.loop):
                    return True
            elif n.i + 1 < len(n.alts):
                n.i += 1
                return True
            self.stack.pop()
        return False

    def advance_loop(self, d):
        if d.mode == "probe":
            if not d.finish_round():
                if d.round > 5:
                    raise Unsupported("the summary of a loop does not stabilise")
                return True
            d.mode = "step" if d.abnormal else "exit"
            return True
        if d.mode == "step":
            d.mode = "exit"
            return True
        return False

    def add(self, f):
        if z3.is_true(f):
            return
        if z3.is_false(f):
            raise PathEnd()
        self.path.append(f)
        self.solver.add(f)

    def add_once(self, f):
        k = f.get_id()
        if k in self.once:
            return
        self.once.add(k)
        self.keep = getattr(self, "keep", [])
        self.keep.append(f)
        self.add(f)

    assume = add

    def check(self, *fs, ms=None):
        self.checks += 1
        t0 = time.time()
        if t0 > self.deadline:
            raise Budget("time budget")
        self.solver.set("timeout", ms or self.check_ms)
        r = self.solver.check(*fs)
        self.solver_s += time.time() - t0
        return r

    def choose(self, conds):
        """Fork over the given formulas (at least one of them must be implied by the path)."""
        if self.pos < len(self.stack):
            n = self.stack[self.pos]
        else:
            alts = []
            for i, c in enumerate(conds):
                if z3.is_false(c):
                    continue
                if z3.is_true(c) or self.check(c) != z3.unsat:
                    alts.append(i)
            if not alts:
                raise PathEnd()
            n = Node(alts)
            self.stack.append(n)
            if len(alts) > 1:
                self.split(n)
        self.pos += 1
        i = n.alts[n.i]
        self.add(conds[i])
        return i

    def fork(self, f):
        f = z3.simplify(f) if not z3.is_quantifier(f) else f
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        return self.choose([f, z3.Not(f)]) == 0

    # -- fresh symbols (functions of the generic indices in scope)
    def fresh(self, name, sort):
        self.counter += 1
        nm = f"{self.prefix}{name}!{self.counter}"
        idx = [f.k for f in self.frames]
        if not idx:
            return z3.Const(nm, sort)
        return self.fn(nm, *([Int] * len(idx)), sort)(*idx)

    def fresh_v(self, name="v", cls=None, **x):
        return SV(self.fresh(name, V), cls, **x)

    # -- loops
    def sym_loop(self, n, trig=None):
        return SymLoop(self, n, trig)

    # -- lookups in event logs
    def key_eq(self, a, b):
        return self.rt.lift(a) == self.rt.lift(b)

    def no_match(self, entries, key):
        """Formula: no entry writes *key* (key None: no entry at all)."""
        fs = []
        for x in entries:
            if isinstance(x, Item):
                fs.append(z3.BoolVal(False) if key is None else z3.Not(self.key_eq(x.key, key)))
            else:
                fs.append(self.no_match_rec(x, key, z3.IntVal(0), x.upper))
        return z3.And(fs) if fs else z3.BoolVal(True)

    def no_match_rec(self, rec, key, lo, hi):
        if key is None and all(any(isinstance(x, Item) for x in ents) for _, _, ents in rec.paths):
            return hi <= lo         # whichever path an iteration takes, it writes
        j = z3.Int(f"j!{self.newq()}")
        body = []
        for pid, conds, entries in rec.paths:
            if entries:
                ents = self.subst_entries(entries, [(rec.k, j)])
                nm = self.no_match(ents, key)
                if not z3.is_true(nm):
                    # an entry on a path whose conditions exclude index j cannot be there: P decides
                    body.append(z3.Not(rec.P(j) == pid) if key is None and any(isinstance(x, Item) for x in entries) else z3.Implies(rec.P(j) == pid, nm))
        if not body:
            return z3.BoolVal(True)
        return forall(j, z3.Implies(z3.And(lo <= j, j < hi), z3.And(body) if len(body) > 1 else body[0]), [rec.P(j)])

    def some_match(self, entries, key):
        """Formula: some (live) entry writes *key*.  Only for logs without deletions."""
        fs = []
        for x in entries:
            if isinstance(x, Item):
                if x.dead:
                    raise Unsupported("membership formula with deletions")
                fs.append(z3.BoolVal(True) if key is None else self.key_eq(x.key, key))
            else:
                j = z3.Int(f"j!{self.newq()}")
                body = []
                for pid, conds, ents in x.paths:
                    if ents:
                        m = [(x.k, j)]
                        # (that the conditions of the path hold there, too, is known from where the loop was left)
                        body.append(z3.And(x.P(j) == pid, self.some_match(self.subst_entries(ents, m), key)))
                if body:
                    fs.append(forall(j, z3.And(0 <= j, j < x.upper, z3.Or(body)), [x.P(j)], z3.Exists))
        return z3.Or(fs) if fs else z3.BoolVal(False)

    _q = 0

    def newq(self):
        Engine._q += 1
        return Engine._q

    def subst_f(self, fs, m):
        return [z3.substitute(f, *m) for f in fs]

    def subst_entries(self, entries, m):
        return [self.subst(x, m) for x in entries]

    def last_write(self, acc, key):
        """The value of the last entry for *key* in the log (NOTHING if there is none); forks."""
        for i in range(len(acc.entries) - 1, -1, -1):
            acc.reading(i)
            v = self._entry_lookup(acc.entries[i], key)
            if v is not NOTHING:
                return v if not isinstance(v, _Dead) else NOTHING
        acc.reading_start()
        return NOTHING

    def _entries_lookup(self, entries, key):
        for x in reversed(entries):
            v = self._entry_lookup(x, key)
            if v is not NOTHING:
                return v
        return NOTHING

    def _entry_lookup(self, x, key):
        if isinstance(x, Item):
            if key is None or self.fork(self.key_eq(x.key, key)):
                return DEAD if x.dead else x.value
            return NOTHING
        writers = [p for p in x.paths if p[2]]
        if not writers:
            return NOTHING
        none = self.no_match_rec(x, key, z3.IntVal(0), x.upper)
        if z3.is_true(none):
            return NOTHING
        w = self.fresh("w", Int)
        alts, writers = self._writers(x, writers, w)
        c = self.choose([none] + alts)
        if c == 0:
            return NOTHING
        ents = writers[c - 1]
        self.add(self.no_match_rec(x, key, w + 1, x.upper))
        v = self._entries_lookup(self.subst_entries(ents, [(x.k, w)]), key)
        if v is NOTHING:
            raise PathEnd()
        return v

    def _writers(self, x, writers, w):
        """The different things that are written, and when that is so in the iteration *w*."""
        groups = {}
        for pid, conds, ents in writers:
            # what the conditions say about earlier iterations is left to the facts about the loop
            conds = [c for f in conds for c in (f.children() if z3.is_and(f) else [f]) if not mentions(c, x.P.f, True)]
            groups.setdefault(tuple([self.sig(y) for y in ents]), (ents, []))[1].append(z3.And([x.P(w) == pid] + self.subst_f(conds, [(x.k, w)])))
        return [z3.And(0 <= w, w < x.upper, z3.Or(fs) if len(fs) > 1 else fs[0]) for _, fs in groups.values()], [ents for ents, _ in groups.values()]

    def first_write(self, entries):
        """First emitted entry of a list log (NOTHING if empty); forks."""
        for x in entries:
            if isinstance(x, Item):
                return x
            writers = [p for p in x.paths if p[2]]
            if not writers:
                continue
            none = self.no_match_rec(x, None, z3.IntVal(0), x.upper)
            w = self.fresh("w", Int)
            alts, writers = self._writers(x, writers, w)
            c = self.choose([none] + alts)
            if c == 0:
                continue
            self.add(self.no_match_rec(x, None, z3.IntVal(0), w))
            r = self.first_write(self.subst_entries(writers[c - 1], [(x.k, w)]))
            if r is NOTHING:
                raise PathEnd()
            return r
        return NOTHING

    def pick(self, entries, name="p"):
        """Pick an arbitrary emitted entry; returns (entry, position) or NOTHING (then the log is empty).  Forks.
        The position is a list of (entry number, index term or None, path number)."""
        opts, conds = [], []
        for i, x in enumerate(entries):
            if isinstance(x, Item):
                opts.append((i, None, None))
                conds.append(z3.BoolVal(True))
            else:
                w = self.fresh(name, Int)
                for pn, (pid, cs, ents) in enumerate(x.paths):
                    if ents:
                        opts.append((i, w, pn))
                        conds.append(z3.And([0 <= w, w < x.upper, x.P(w) == pid] + self.subst_f(cs, [(x.k, w)])))
        opts.append(None)
        conds.append(self.no_match(entries, None))
        c = self.choose(conds)
        if opts[c] is None:
            return NOTHING
        i, w, pn = opts[c]
        if w is None:
            return entries[i], [(i, None, None)]
        r = self.pick(self.subst_entries(entries[i].paths[pn][2], [(entries[i].k, w)]), name)
        if r is NOTHING:
            raise PathEnd()
        return r[0], [(i, w, pn)] + r[1]

    def iter_entries(self, entries, f):
        """Generator over a log (runs summarised loops as symbolic loops)."""
        for x in list(entries):
            if isinstance(x, Item):
                yield f(x)
                continue
            if not any(p[2] for p in x.paths):
                continue
            L = self.sym_loop(x.upper, x.P)
            try:
                while L.more():
                    j = L.index()
                    c = self.choose([z3.And([x.P(j) == pid] + self.subst_f(conds, [(x.k, j)])) for pid, conds, _ in x.paths])
                    yield from self.iter_entries(self.subst_entries(x.paths[c][2], [(x.k, j)]), f)
            finally:
                L.leave()

    def forall_entries(self, entries, pred):
        """Formula: pred(item) holds for every emitted entry (pred: Item -> formula, must not fork)."""
        fs = []
        for x in entries:
            if isinstance(x, Item):
                fs.append(self.pure(lambda: pred(x)))
            else:
                j = z3.Int(f"j!{self.newq()}")
                body = []
                for pid, conds, ents in x.paths:
                    if ents:
                        f = self.forall_entries(self.subst_entries(ents, [(x.k, j)]), pred)
                        if not z3.is_true(f):
                            body.append(z3.Implies(x.P(j) == pid, f))
                if body:
                    fs.append(forall(j, z3.Implies(z3.And(0 <= j, j < x.upper), z3.And(body)), [x.P(j)]))
        return z3.And(fs) if fs else z3.BoolVal(True)

    def pure(self, fn):
        """Run *fn* with forking forbidden."""
        saved = self.choose
        def no(*a):
            raise Unsupported("fork in a pure context")
        self.choose = no
        try:
            return fn()
        finally:
            self.choose = saved

    # -- substitution of index terms in Python-level values
    def subst(self, o, m, memo=None):
        if memo is None:
            memo = {}
        t = type(o)
        if t is SV:
            n = z3.substitute(o.t, *m)
            x = {k: self.subst(v, m, memo) for k, v in o.x.items()} if o.x else {}
            return SV(n, o.cls, **x)
        if t is SB:
            return SB(z3.substitute(o.f, *m))
        if t is SI:
            return SI(z3.substitute(o.t, *m))
        if t is Item:
            return Item(self.subst(o.key, m, memo), self.subst(o.value, m, memo), o.frame, o.dead)
        if t is Rec:
            P = o.P
            outer = [z3.substitute(x, *m) for x in P.outer]
            return Rec(PathFn(P.f, outer), o.k, z3.substitute(o.upper, *m),
                       [(pid, self.subst_f(c, m), self.subst_entries(e, m)) for pid, c, e in o.paths])
        if t is IdxSeq:
            return IdxSeq(None if o.n is None else z3.substitute(o.n, *m), lambda j, o=o: self.subst(o.at_(j), m),
                          None if o.t is None else z3.substitute(o.t, *m),
                          None)
        if t is VFilter:
            return VFilter(self.subst(o.base, m, memo), self.subst(o.other, m, memo), o.keep)
        if isinstance(o, Acc):
            if id(o) in memo:
                return memo[id(o)]
            if o.frozen is None:
                return o
            new = t.__new__(t)
            Acc.__init__(new)
            memo[id(o)] = new
            new.entries = [self.subst(x, m, memo) for x in o.entries]
            new.frozen = True
            return new
        if t is tuple:
            return tuple([self.subst(x, m, memo) for x in o])
        if t in (list,):
            return [self.subst(x, m, memo) for x in o]
        if z3.is_expr(o):
            return z3.substitute(o, *m)
        if t is dict:
            return {k: self.subst(v, m, memo) for k, v in o.items()}
        if o is None or isinstance(o, (str, int, float, bytes, bool, type, enum.Enum, types.ModuleType,
                                       types.BuiltinFunctionType)):
            return o
        if id(o) in memo:
            return memo[id(o)]
        if getattr(t, "_leaf_", False) or self.rt.contract is not None and id(o) in self.rt.contract.protected:
            return o            # is there before the loop
        if isinstance(o, types.FunctionType):
            if o.__closure__ and any(self.has_sym(c.cell_contents) for c in o.__closure__ if _filled(c)):
                raise Unsupported(f"function {o.__qualname__} capturing symbolic values escapes a loop iteration")
            return o
        if isinstance(o, types.MethodType):
            return types.MethodType(o.__func__, self.subst(o.__self__, m, memo))
        if isinstance(o, types.GeneratorType):
            raise Unsupported("generator escapes a loop iteration")
        d = getattr(o, "__dict__", None)
        if isinstance(d, dict) and self.has_sym(o):
            try:
                new = t.__new__(t)
            except TypeError:
                new = Exception.__new__(t)
            memo[id(o)] = new
            for k, v in list(d.items()):
                object.__setattr__(new, k, self.subst(v, m, memo))
            if isinstance(o, BaseException):
                new.args = tuple(self.subst(x, m, memo) for x in o.args)
            return new
        return o

    def has_sym(self, o, memo=None, depth=0):
        memo = set() if memo is None else memo
        if isinstance(o, Sym) or z3.is_expr(o):
            return True
        if o is None or isinstance(o, (str, int, float, bytes, type, enum.Enum, types.ModuleType, types.FunctionType)):
            return False
        if id(o) in memo or depth > 12:
            return False
        memo.add(id(o))
        if isinstance(o, (tuple, list)):
            return any(self.has_sym(x, memo, depth + 1) for x in o)
        if isinstance(o, dict):
            return any(self.has_sym(x, memo, depth + 1) for x in o.values()) or any(self.has_sym(x, memo, depth + 1) for x in o)
        if isinstance(o, BaseException) and self.has_sym(o.args, memo, depth + 1):
            return True
        d = getattr(o, "__dict__", None)
        return isinstance(d, dict) and any(self.has_sym(x, memo, depth + 1) for x in d.values())

    def sig(self, o, memo=None, depth=0):
        memo = {} if memo is None else memo
        if isinstance(o, SV):
            return f"V:{o.t.sexpr()}"
        if isinstance(o, SB):
            return f"B:{o.f.sexpr()}"
        if isinstance(o, SI):
            return f"I:{o.t.sexpr()}"
        if isinstance(o, Item):
            return f"({self.sig(o.key, memo)}:{self.sig(o.value, memo)}:{o.dead})"
        if isinstance(o, Rec):
            return f"Rec({o.upper.sexpr()};" + ";".join(f"{p}{[self.sig(x, memo) for x in e]}" for p, c, e in o.paths) + ")"
        if isinstance(o, IdxSeq):
            return f"S:{o.t.sexpr()}" if o.t is not None else self.unique(o)
        if z3.is_expr(o):
            return o.sexpr()
        if isinstance(o, Acc):
            if id(o) in memo:
                return f"^{memo[id(o)]}"
            memo[id(o)] = len(memo)
            return type(o).__name__ + "[" + ",".join(self.sig(x, memo) for x in o.entries) + "]"
        if isinstance(o, (tuple, list)):
            return "(" + ",".join(self.sig(x, memo) for x in o) + ")"
        if o is None or isinstance(o, (str, int, float, bytes, bool)):
            return repr(o)
        if isinstance(o, (type, enum.Enum, types.FunctionType)):
            return str(o)
        if getattr(type(o), "_leaf_", False):
            return type(o).__name__
        if id(o) in memo:
            return f"^{memo[id(o)]}"
        if depth > 8:
            return self.unique(o)
        memo[id(o)] = len(memo)
        d = getattr(o, "__dict__", None)
        if d is None and isinstance(o, Sym):
            d = {a: getattr(o, a, None) for c in type(o).__mro__ for a in getattr(c, "__slots__", ())}
        if isinstance(d, dict):
            return type(o).__name__ + "{" + ",".join(f"{k}={self.sig(v, memo, depth + 1)}" for k, v in d.items()) + "}"
        return self.unique(o)

    def unique(self, o):
        """(two of them never have the same signature)"""
        self.keep_sig = getattr(self, "keep_sig", [])
        self.keep_sig.append(o)
        return f"{type(o).__name__}@{len(self.keep_sig)}"

    # -- obligations
    covers_only, only = False, None

    def prove(self, name, claim):
        if self.only is not None and name not in self.only:
            return True
        if self.covers_only:
            if name not in self.reached and self.check() == z3.sat:
                self.reached.add(name)
            return True
        if isinstance(claim, bool):
            claim = z3.BoolVal(claim)
        elif isinstance(claim, SB):
            claim = claim.f
        t0 = time.time()
        if z3.is_true(claim):
            r = z3.unsat
        else:
            r = self.check(z3.Not(claim), ms=self.prove_ms)
            self.failures[name] = self.failures.get(name, 0) + (r != z3.unsat)
            if r == z3.unknown and self.bounded is None and self.failures[name] < 3:
                r2 = self._retry(claim)
                r = r2 if r2 is not None else r
        st = "discharged" if r == z3.unsat else ("refuted" if r == z3.sat else "unknown")
        detail = ""
        if st != "discharged":
            if st == "unknown" and self.check(ms=self.prove_ms) == z3.unsat:
                st = "discharged"
            else:
                detail = f"{claim}"[:1500]
                if r == z3.sat:
                    detail += "\nmodel: " + str(self.solver.model())[:3000]
                detail += "\npath: " + "; ".join(str(p)[:200].replace("\n", " ") for p in self.path[-12:])
        self.obligations.append(Obligation(name, st, detail, time.time() - t0))
        if st != "discharged" and self.trace:
            print("NOT DISCHARGED", name, st, detail[:2500])
        return st == "discharged"

    def _retry(self, claim):
        s = z3.Solver()
        s.set("timeout", min(self.prove_ms, 2500))
        s.set("smt.random_seed", 7)
        for f in self.bg:
            s.add(f)
        for f in self.path:
            s.add(f)
        s.add(z3.Not(claim))
        return s.check()

    def fail(self, name, detail=""):
        """An outcome that must be impossible: discharged iff the path is infeasible."""
        return self.prove(name, z3.BoolVal(False)) if not detail else self._fail(name, detail)

    def _fail(self, name, detail):
        ok = self.prove(name, z3.BoolVal(False))
        if not ok:
            self.obligations[-1].detail = detail + "\n" + self.obligations[-1].detail
        return ok

    def cover(self, name):
        """The current path is (or may be) reachable."""
        if self.covers.get(name) == "sat":
            return
        r = self.check(ms=2000)
        if r == z3.unsat:
            raise PathEnd()
        self.covers[name] = "sat" if r == z3.sat else self.covers.get(name, "unknown")


def _renumber(text):
    """The text with bound variables numbered in the order in which they appear."""
    seen = {}
    return re.sub(r"j!\d+", lambda m: seen.setdefault(m.group(), f"j!!{len(seen)}"), text)


class PathFn:
    """P(j): the number of the path taken by iteration j (a function of the outer generic indices too)."""
    __slots__ = ("f", "outer")

    def __init__(self, f, outer):
        self.f, self.outer = f, outer

    def __call__(self, j):
        return self.f(*self.outer, j)


_J = z3.Int("j!!")


def forall(j, body, patterns, quantifier=z3.ForAll):
    """The formula for all *j*, with the variable renamed, so that equal formulas are the same."""
    m = [(j, _J)]
    return quantifier([_J], z3.substitute(body, *m), patterns=[z3.substitute(p, *m) for p in patterns])


def mentions(f, decl, weak=False):
    """Does the function (or what stands for it) occur in the formula?"""
    name = decl.name() + "~" if weak else None
    todo, seen = [f], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.decl().eq(decl) or weak and x.decl().name() == name:
                return True
            todo += x.children()
    return False


def rename_fn(f, decl, new, cache=None):
    """The formula with the function *new* in place of *decl*, in the patterns of quantifiers too."""
    cache = {} if cache is None else cache
    if f.get_id() in cache:
        return cache[f.get_id()][1]
    if z3.is_quantifier(f):
        if not (mentions(f, decl) or any(mentions(p, decl) for i in range(f.num_patterns()) for p in f.pattern(i).children())):
            r = f
        else:
            xs = [z3.Const(f.var_name(i), f.var_sort(i)) for i in range(f.num_vars())]

            def opened(x):
                return rename_fn(z3.substitute_vars(x, *reversed(xs)), decl, new)
            pats = [z3.MultiPattern(*[opened(p) for p in f.pattern(i).children()]) for i in range(f.num_patterns())]
            r = (z3.ForAll if f.is_forall() else z3.Exists)(xs, opened(f.body()), patterns=pats)
    elif z3.is_app(f) and f.num_args():
        args = [rename_fn(x, decl, new, cache) for x in f.children()]
        if f.decl().eq(decl):
            r = new(*args)
        elif all(a.eq(b) for a, b in zip(args, f.children())):
            r = f
        elif z3.is_and(f) or z3.is_or(f):
            r = (z3.And if z3.is_and(f) else z3.Or)(args)
        else:
            r = f.decl()(*args)
    else:
        r = f
    cache[f.get_id()] = (f, r)
    return r


class _Dead:
    pass


DEAD = _Dead()


def _filled(c):
    try:
        c.cell_contents
        return True
    except ValueError:
        return False


class SymLoop:
    """A loop over the indices 0 <= j < n.

    probe: run one generic iteration k and record, for each path through it, its condition and its events;
    step:  run iteration k of a loop whose earlier iterations completed normally, and leave the loop in it;
    exit:  all n iterations completed normally.
    """

    def __init__(self, e, n, trig=None):
        self.e, self.n, self.trig = e, n, trig
        self.started = self.done = False
        if e.bounded is not None:
            self.mode = "unroll"
            self.len = e.choose([n == i for i in range(e.bounded + 1)])
            self.i = -1
            return
        if e.pos < len(e.stack):
            node = e.stack[e.pos]
        else:
            node = Node(None, LoopData())
            e.stack.append(node)
        e.pos += 1
        e.loops += 1
        uid = e.loops           # on this path
        self.d = node.loop
        self.mode = self.d.mode
        outer = [f.k for f in e.frames]
        self.P = PathFn(e.fn(f"{e.prefix}P{uid}", *([Int] * (len(outer) + 1)), Int), outer)
        self.kname = f"{e.prefix}k{uid}"
        self.uid = uid

    def _norm(self, j):
        if self.d.norm is None:
            k, alts = None, []
            for pid, conds, eff, k in self.d.paths.values():
                conds = [c for c in conds if not z3.is_true(c)]
                conds = self._weaken(conds)
                alts.append(z3.And([self.P(k) == pid] + conds))
            self.d.norm = (k, z3.Or(alts) if len(alts) != 1 else alts[0])
        k, f = self.d.norm
        return z3.substitute(f, (k, j)) if k is not None else f

    def _weak(self):
        """What the path of an iteration says about earlier ones is said of this function, so that it does not make the solver
        consider the earlier iterations, and the ones before them, and so on.  (It equals P where P itself is used.)"""
        return self.e.fn(self.P.f.name() + "~", *([Int] * (self.P.f.arity() + 1)))

    def _weaken(self, conds):
        if self.e.weak_paths and any(mentions(c, self.P.f) for c in conds):
            self.d.recursive = True
            conds = [rename_fn(c, self.P.f, self._weak()) for c in conds]
        return conds

    def _enter(self, upper, norm=True):
        """State after the iterations before *upper*, all of which completed normally."""
        e = self.e
        if norm:
            j = z3.Int(f"j!{e.newq()}")
            pats = [self.P(j)]
            if self.trig is not None:
                tr = self.trig(j)
                if tr is not None:
                    pats.append(tr)
            f = self._norm(j)
            if self.d.recursive:
                e.add(forall(j, self.P(j) == PathFn(self._weak(), self.P.outer)(j), pats[:1]))
                pats = pats[:1]
            e.add(forall(j, z3.Implies(z3.And(0 <= j, j < upper), f), pats))
        accs = {}
        for pid, conds, eff, k in self.d.paths.values():
            for uid in eff:
                accs[uid] = True
        for uid in accs:
            acc = e.accs.get(uid)
            if acc is None:
                raise Unsupported("container of a loop summary not found")
            paths = [(pid, self._weaken(conds), eff.get(uid, [])) for pid, conds, eff, k in self.d.paths.values()]
            ks = {k.get_id(): k for _, _, _, k in self.d.paths.values()}
            if len(ks) != 1:
                raise Unsupported("loop index mismatch")
            acc.event(Rec(self.P, next(iter(ks.values())), upper, paths)) if False else self._push(acc, Rec(
                self.P, next(iter(ks.values())), upper, paths))

    def _push(self, acc, rec):
        f = self.e.frame
        if f is not None and acc.serial <= f.serial and acc.uid not in f.marks:
            f.marks[acc.uid] = len(acc.entries)
        acc.entries.append(rec)

    def more(self):
        e = self.e
        if self.mode == "unroll":
            self.i += 1
            if self.i < self.len:
                return True
            self.done = True
            return False
        if not self.started:
            self.started = True
            if self.mode == "exit":
                self._enter(self.n)
                self.done = True
                return False
            k = z3.Int(self.kname)
            if self.mode == "step":     # where the loop is left: a function of the iterations of the loops around
                idx = [f.k for f in e.frames]
                k = e.fn(self.kname + "s", *([Int] * (len(idx) + 1)))(*idx) if idx else z3.Int(self.kname + "s")
            self.k = k
            e.add(z3.And(0 <= k, k < self.n))
            if self.mode == "step":
                if self.d.paths:
                    self._enter(k)
                else:
                    e.add(k == 0)
                return True
            if self.d.round > 0:
                self._enter(k)
            f = Frame()
            f.loop, f.k, f.start, f.marks, f.reads = self, k, len(e.path), {}, set()
            f.serial, f.prefix, f.outer = e.serial, e.prefix, e.frame
            e.frame = f
            e.frames.append(f)
            e.prefix = f"{e.prefix}L{self.uid}."
            return True
        if self.mode == "step":
            raise PathEnd()
        # probe: a normal completion
        f = e.frame
        if f is None or f.loop is not self:
            raise Unsupported("interleaved symbolic loops")
        self._record()
        raise ProbeEnd()

    def _record(self):
        e, f = self.e, self.e.frame
        self.d.current_reads |= f.reads
        if e.check() == z3.unsat:
            return
        conds = list(e.path[f.start:])
        eff = {}
        for uid, mark in f.marks.items():
            acc = e.accs[uid]
            ents = acc.entries[mark:]
            if isinstance(acc, Cell) and acc.local is not None and acc.local >= len(e.frames):
                continue
            if isinstance(acc, Cell) and len(ents) > 1 and isinstance(ents[-1], Item):
                ents = ents[-1:]
            if isinstance(acc, Cell):
                ents = [Item(None, FORGOTTEN, x.frame) if isinstance(x, Item) and isinstance(x.value, VFilter) else x for x in ents]
            if ents:
                eff[uid] = ents
        # paths with the same effects are one
        sig = "|".join(f"{uid}:{[e.sig(x) for x in ents]}" for uid, ents in sorted(eff.items(), key=lambda kv: kv[0]))
        full = "&".join(sorted(_renumber(c.sexpr()) for c in conds)) + "|" + _renumber(sig)
        if full in self.d.current_seen:
            return
        self.d.current_seen.add(full)
        pid = self.d.pids.setdefault(sig, len(self.d.pids))
        if sig in self.d.current:
            self.d.current[sig][1].append(conds)
        else:
            self.d.current[sig] = (pid, [conds], eff, f.k)

    def index(self):
        return z3.IntVal(self.i) if self.mode == "unroll" else self.k

    def leave(self):
        if self.done or not self.started and self.mode != "unroll":
            return
        exc = sys.exc_info()[1]
        if isinstance(exc, Control):
            return
        refuse_fault(exc)
        if self.mode == "probe" and not self.done:
            e = self.e
            if e.frame is not None and e.frame.loop is self:
                if e.check() != z3.unsat:
                    self.d.abnormal = True
                    self.d.current_reads |= e.frame.reads
                raise ProbeEnd()
        self.done = True


def _no_truth(self):
    """(z3's own version answers structural equality, which is no truth value of anything)"""
    if z3.is_true(self):
        return True
    if z3.is_false(self):
        return False
    raise z3.Z3Exception("truth of a formula")


z3.BoolRef.__bool__ = z3.BoolRef.__nonzero__ = _no_truth

"""Symbolic execution of Python sources: the code runs on proxy values that build Z3 terms; every branch on a symbolic
condition asks the solver which sides are feasible and both are explored (by re-execution). Assertions are decided by
the solver for all values on the path."""
import builtins, sys, time, types
from fractions import Fraction
import z3


class Stop(BaseException):
    pass


class Infeasible(Stop):
    pass


class Budget(Stop):
    pass


class Violation(Stop):
    def __init__(self, label):
        self.label = label


S = None  # the running session


def conc(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return None


def lift(v):
    if isinstance(v, Sym):
        return v.t
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            raise NotImplementedError("non-finite number next to a symbolic one")
        return z3.RealVal(Fraction(v))
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    return None


def wrap(t):
    c = conc(t)
    if c is not None and not isinstance(c, Fraction):
        return c
    if z3.is_bool(t):
        return SymBool(t)
    return SymInt(t) if z3.is_int(t) else SymReal(t)


class Sym:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def _num(self, o):
        o = lift(o)
        if o is not None and z3.is_bool(o):
            o = z3.If(o, z3.IntVal(1), z3.IntVal(0))
        return o

    def _bin(self, o, f):
        o = self._num(o)
        return NotImplemented if o is None else wrap(f(self.t, o))

    def __eq__(self, o):
        return self._bin(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._bin(o, lambda a, b: a != b)

    def __hash__(self):
        return hash(S.concretize(self))

    def __repr__(self):
        return "<%s>" % self.t

    def __str__(self):
        return str(S.concretize(self))

    def __format__(self, f):
        return format(S.concretize(self), f)

    def __copy__(self):
        return self

    def __deepcopy__(self, m):
        return self


class SymBool(Sym):
    __slots__ = ()

    def __bool__(self):
        return S.branch(self.t)

    def _n(self):
        return SymInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __and__(self, o):
        return self._bin2(o, z3.And, lambda a, b: a & b)

    def __or__(self, o):
        return self._bin2(o, z3.Or, lambda a, b: a | b)

    def _bin2(self, o, f, g):
        l = lift(o)
        return wrap(f(self.t, l)) if l is not None and z3.is_bool(l) else g(bool(self), o)

    __rand__, __ror__ = __and__, __or__

    def __invert__(self):
        return ~bool(self)

    def __eq__(self, o):
        l = lift(o)
        return wrap(self.t == l) if l is not None and z3.is_bool(l) else self._n() == o

    def __ne__(self, o):
        return wrap(z3.Not(lift(self == o)))

    __hash__ = Sym.__hash__

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __add__(self, o):
        return self._n() + o

    __radd__ = __add__


class SymNum(Sym):
    __slots__ = ()

    def __lt__(self, o):
        return self._bin(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._bin(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._bin(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._bin(o, lambda a, b: a >= b)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return wrap(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(z3.If(self.t < 0, -self.t, self.t))

    def __bool__(self):
        return S.branch(self.t != 0)

    __hash__ = Sym.__hash__

    def __truediv__(self, o):
        c = S.concretize(o)
        return wrap(z3.ToReal(self.t) / c if z3.is_int(self.t) else self.t / lift(c))

    def __rtruediv__(self, o):
        return o / S.concretize(self)


class SymInt(SymNum):
    __slots__ = ()

    def __index__(self):
        return S.concretize(self)

    __int__ = __index__

    def __float__(self):
        return float(S.concretize(self))

    def __floordiv__(self, o):
        c = S.concretize(o)
        if not isinstance(c, int) or c <= 0:
            return S.concretize(self) // c
        return wrap(self.t / c)

    def __mod__(self, o):
        c = S.concretize(o)
        if not isinstance(c, int) or c <= 0:
            return S.concretize(self) % c
        return wrap(self.t % c)

    def __rfloordiv__(self, o):
        return o // S.concretize(self)

    def __rmod__(self, o):
        return o % S.concretize(self)

    def __divmod__(self, o):
        return self // o, self % o


class SymReal(SymNum):
    __slots__ = ()

    def __int__(self):
        return SymInt(z3.If(self.t < 0, -z3.ToInt(-self.t), z3.ToInt(self.t))).__index__()

    def __float__(self):
        return float(S.concretize(self))


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    return wrap(z3.If(lift(c), lift(a), lift(b)))


def band(*v):
    return wrap(z3.And([lift(x) for x in v])) if any(isinstance(x, Sym) for x in v) else all(v)


def bor(*v):
    return wrap(z3.Or([lift(x) for x in v])) if any(isinstance(x, Sym) for x in v) else any(v)


def bnot(v):
    return wrap(z3.Not(lift(v))) if isinstance(v, Sym) else not v


class Session:
    """one run of an entry; symbolic when model is None, else concrete with the model's values"""

    def __init__(self, ex, prefix, model=None, params=None):
        self.ex, self.prefix, self.model, self.params = ex, prefix, model, params or {}
        self.taken = []
        self.pc = []
        self.vars = {}
        self.funs = {}
        self.points = {}
        self.obs = []
        self.reached = set()
        self.nasserts = 0
        self.seq = {}
        if model is None:
            self.solver = z3.Solver()
            self.solver.set("timeout", 20000)

    # inputs
    def _name(self, n):
        k = self.seq.get(n, 0)
        self.seq[n] = k + 1
        return "%s#%d" % (n, k)

    def int(self, name, lo=None, hi=None):
        n = self._name(name)
        if self.model is not None:
            return int(self.model["vars"].get(n, lo or 0))
        v = self.vars[n] = z3.Int(n)
        if lo is not None:
            self.assume(SymInt(v >= lo))
        if hi is not None:
            self.assume(SymInt(v <= hi))
        return SymInt(v)

    def real(self, name):
        n = self._name(name)
        if self.model is not None:
            return num(self.model["vars"].get(n, "0"))
        v = self.vars[n] = z3.Real(n)
        return SymReal(v)

    def bool(self, name):
        n = self._name(name)
        if self.model is not None:
            return bool(self.model["vars"].get(n, False))
        v = self.vars[n] = z3.Bool(n)
        return SymBool(v)

    def choose(self, name, k):
        if k <= 1:
            return 0
        return int(self.int(name, 0, k - 1))

    def fun(self, name, args, sort="int"):
        """the value of an unknown function at (possibly symbolic) integers"""
        if self.model is not None:
            v = self.model["funs"].get(name, {}).get(",".join(str(a) for a in args), self.model["funs"].get(name, {}).get("else", "0"))
            return num(v) if sort == "real" else int(v)
        if name not in self.funs:
            self.funs[name] = z3.Function(name, *([z3.IntSort()] * len(args) + [z3.IntSort() if sort == "int" else z3.RealSort()]))
            self.points[name] = []
        a = [lift(x) for x in args]
        self.points[name].append(a)
        return wrap(self.funs[name](*a))

    # decisions
    def _check(self, *extra):
        t0 = time.time()
        r = self.solver.check(*extra)
        self.ex.qtime += time.time() - t0
        self.ex.queries[str(r)] += 1
        if self.ex.deadline and time.time() > self.ex.deadline:
            raise Budget()
        return r

    def add(self, t):
        self.pc.append(t)
        self.solver.add(t)

    def branch(self, t):
        c = conc(t)
        if c is not None:
            return bool(c)
        i = len(self.taken)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            y = self._check(t) != z3.unsat
            n = self._check(z3.Not(t)) != z3.unsat
            if y and n:
                self.ex.work.append(self.taken + [False])
                self.ex.forks += 1
            elif not y and not n:
                raise Infeasible()
            d = y
        self.taken.append(d)
        self.add(t if d else z3.Not(t))
        return d

    def concretize(self, v):
        if not isinstance(v, Sym):
            return v
        c = conc(v.t)
        while c is None:
            # which value: decided by the path, all feasible values are explored
            if len(self.taken) < len(self.prefix) and isinstance(self.prefix[len(self.taken)], tuple):
                val = self.prefix[len(self.taken)]
                self.taken.append(val)
                if val[0]:
                    t = val[1]
                    c = conc(z3.RealVal(t) if "/" in t or z3.is_real(v.t) else z3.IntVal(int(t))) if not z3.is_bool(v.t) else t == "True"
                    self.add(v.t == lift(c))
                else:
                    for t in val[1]:
                        self.add(v.t != (z3.BoolVal(t == "True") if z3.is_bool(v.t) else z3.RealVal(t) if z3.is_real(v.t) else z3.IntVal(int(t))))
                    self.taken.pop()
                    self.prefix = self.prefix[:len(self.taken)]
                    c = self._pick(v, list(val[1]))
            else:
                c = self._pick(v, [])
        return float(c) if isinstance(c, Fraction) and Fraction(float(c)) == c else c

    def _pick(self, v, tried):
        if self._check() != z3.sat:
            raise Infeasible()
        m = self.solver.model().eval(v.t, model_completion=True)
        s = str(m)
        if self._check(v.t != m) != z3.unsat:
            self.ex.work.append(self.taken + [(False, tuple(tried + [s]))])
            self.ex.forks += 1
        self.taken.append((True, s))
        self.add(v.t == m)
        return conc(m)

    def assume(self, c):
        if not isinstance(c, Sym):
            if not c:
                raise Infeasible()
            return
        self.add(c.t)
        if len(self.taken) >= len(self.prefix) and self._check() == z3.unsat:
            raise Infeasible()

    def check(self, c, label):
        self.nasserts += 1
        self.ex.asserts += 1
        if not isinstance(c, Sym):
            if not c:
                raise Violation(label)
            return
        t = c.t if z3.is_bool(c.t) else c.t != 0
        r = self._check(z3.Not(t))
        if r == z3.unknown:
            self.ex.unknown.append(label)
        elif r == z3.sat:
            self.add(z3.Not(t))
            raise Violation(label)

    def observe(self, name, v):
        self.obs.append((name, v))

    def reach(self, name):
        self.reached.add(name)

    def get_model(self):
        if self._check() != z3.sat:
            return None
        m = self.solver.model()
        self.last = m
        ev = lambda t: str(m.eval(t, model_completion=True))
        funs = {}
        for n, pts in self.points.items():
            f = self.funs[n]
            d = {}
            for a in pts:
                d[",".join(ev(x) for x in a)] = ev(f(*a))
            e = m[f]
            d["else"] = str(e.else_value()) if e is not None and z3.is_const(e.else_value()) else "0"
            funs[n] = d
        return {"vars": {n: (z3.is_true(m.eval(v, model_completion=True)) if z3.is_bool(v) else ev(v)) for n, v in self.vars.items()}, "funs": funs}


def num(s):
    f = Fraction(str(s).replace("?", ""))
    if f.denominator == 1:
        return float(int(f)) if abs(f) < 2 ** 53 else f
    return float(f) if Fraction(float(f)) == f else f


class Explorer:
    def __init__(self, entry, params, seconds, samples=6):
        self.entry, self.params = entry, params
        self.deadline = time.time() + seconds
        self.work = [[]]
        self.paths = self.completed = self.asserts = self.forks = self.infeasible = 0
        self.queries = {"sat": 0, "unsat": 0, "unknown": 0}
        self.qtime = 0.0
        self.unknown = []
        self.reached = {}
        self.errors = []
        self.samples = []
        self.why = ""
        self.want_samples = samples

    def run(self):
        global S
        t0 = time.time()
        seen = set()
        while self.work:
            if time.time() > self.deadline:
                self.why = "time limit"
                break
            prefix = self.work.pop()
            S = Session(self, prefix, None, self.params)
            self.paths += 1
            try:
                self.entry(S)
                self.completed += 1
                for r in S.reached:
                    self.reached[r] = self.reached.get(r, 0) + 1
                if len(self.samples) < self.want_samples or (self.paths % 97 == 0 and len(self.samples) < 4 * self.want_samples):
                    m = S.get_model()
                    if m:
                        val = lambda v: (conc(S.last.eval(v.t, model_completion=True)) if isinstance(v, Sym) else v)
                        self.samples.append((m, [(n, str(num(val(v))) if not isinstance(v, (str, bool, type(None))) else str(val(v))) for n, v in S.obs]))
            except Infeasible:
                self.infeasible += 1
            except Budget:
                self.why = "time limit"
                break
            except Violation as e:
                if e.label not in seen:
                    m = S.get_model()
                    if m:
                        seen.add(e.label)
                        self.errors.append((e.label, m))
            except RecursionError:
                raise
            except Exception as e:
                import traceback
                label = "uncaught %s: %s" % (type(e).__name__, e)
                if type(e).__name__ not in seen:
                    m = S.get_model()
                    if m:
                        seen.add(type(e).__name__)
                        self.errors.append((label + " " + traceback.format_exc()[-600:], m))
        self.wall = time.time() - t0
        S = None
        return self


def run_concrete(entry, params, model):
    """plain Python run on the model's values: (outcome, label, observations)"""
    global S
    S = Session(None, [], model, params)

    class Ex:
        asserts = 0

    S.ex = Ex()
    S.concretize = lambda v: v
    try:
        entry(S)
        return "ok", "", [(n, str(num(v)) if not isinstance(v, (str, bool, type(None))) else str(v)) for n, v in S.obs]
    except Infeasible:
        return "assume", "", []
    except Violation as e:
        return "assert", e.label, []
    except Exception as e:
        return "assert", "uncaught %s: %s" % (type(e).__name__, e), []
    finally:
        S = None


# builtins for the code under test
def _len(x):
    return x.__symlen__() if hasattr(x, "__symlen__") else builtins.len(x)


class _range:
    def __new__(cls, *a):
        if not any(isinstance(x, Sym) for x in a):
            return builtins.range(*a)
        return object.__new__(cls)

    def __init__(self, *a):
        self.start, self.stop, self.step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a

    def __iter__(self):
        i, st = self.start, self.step
        if st == 0:
            raise ValueError("range() arg 3 must not be zero")
        up = bool(st > 0)
        while (i < self.stop) if up else (i > self.stop):
            yield i
            i = i + st

    def __symlen__(self):
        n = 0
        for _ in self:
            n += 1
        return n

    def __len__(self):
        return self.__symlen__()


def _fold(f, less):
    def g(*a, **kw):
        if kw and set(kw) != {"default"}:
            return f(*a, **kw)
        it = a
        if builtins.len(a) == 1:
            if hasattr(a[0], "symfold"):
                return a[0].symfold(less)
            it = builtins.list(a[0])
        if not any(isinstance(x, Sym) for x in it):
            return f(*a, **kw)
        r = it[0]
        for x in it[1:]:
            r = ite(less(x, r), x, r)
        return r

    return g


smin = _fold(builtins.min, lambda a, b: a < b)
smax = _fold(builtins.max, lambda a, b: a > b)


def make_builtins(imp):
    b = dict(vars(builtins))
    b.update(len=_len, range=_range, min=smin, max=smax, __import__=imp)
    return b

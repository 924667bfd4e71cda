"""Symbolic execution core: proxy numbers over z3, path exploration by re-execution.

The code under test is the *real* imported Python code.  Inputs are proxy objects
(SymNum / SymBool).  Arithmetic on proxies builds linear expressions in exact rationals;
every time the running code needs a concrete truth value (``if``, ``and``, ``while``,
comparison inside C code...) the proxy asks the engine, which asks z3 which outcomes are
possible under the current path condition and forks.
"""
import math
import time
from fractions import Fraction

from . import z3load
z3 = z3load.z3


class PathAbort(BaseException):
    """Path-steering exception (never caught by code under test)."""


class AssumeFailed(PathAbort):
    pass


class PathLimit(PathAbort):
    pass


class Unsupported(TypeError):
    """An operation the encoding cannot follow.  The path is marked tainted."""


ENGINE = None            # current engine of this process


def eng():
    if ENGINE is None:
        raise Unsupported('symbolic value used outside a symbolic run')
    return ENGINE


def taint(reason):
    e = ENGINE
    if e is not None:
        e.taint(reason)
    raise Unsupported(reason)


_F0 = Fraction(0)


def is_sym(x):
    return isinstance(x, (SymNum, SymBool))


def _const(x):
    """python number -> Fraction, or None if it is not a finite number"""
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    if isinstance(x, float):
        if math.isfinite(x):
            return Fraction(x)
        return None
    t = type(x)
    if t.__module__ == 'numpy':
        import numpy as np
        if isinstance(x, np.ndarray):
            if x.ndim == 0:
                return _const(x.item())
            return None
        if isinstance(x, np.bool_):
            return Fraction(int(x))
        if isinstance(x, np.integer):
            return Fraction(int(x))
        if isinstance(x, np.floating):
            f = float(x)
            if math.isfinite(f):
                return Fraction(f)
    return None


def _nonfinite(x):
    """float value for inf/nan python or numpy scalars else None"""
    try:
        import numpy as np
        if isinstance(x, (float, np.floating)) and not math.isfinite(float(x)):
            return float(x)
    except Exception:
        pass
    return None


def frac_z3(f):
    return z3.RealVal(f'{f.numerator}/{f.denominator}') if f.denominator != 1 else z3.RealVal(f.numerator)


class SymNum:
    """c + sum(coef * atom); atoms are engine variables (ids) -> z3 Real/Int terms."""
    __slots__ = ('c', 't', 'isint')
    __array_priority__ = 0

    def __init__(self, c, t, isint=False):
        self.c = c
        self.t = t
        self.isint = isint

    # ---- helpers
    def key(self):
        return (self.c, tuple(sorted(self.t.items())))

    def is_const(self):
        return not self.t

    def z3(self):
        e = eng()
        parts = [frac_z3(a) * e.term(v) if a != 1 else e.term(v) for v, a in sorted(self.t.items())]
        if self.c != 0 or not parts:
            parts.append(frac_z3(self.c))
        return parts[0] if len(parts) == 1 else z3.Sum(parts)

    @staticmethod
    def lift(x):
        if isinstance(x, SymNum):
            return x
        if isinstance(x, SymBool):
            return SymNum(Fraction(int(bool(x))), {}, True)
        c = _const(x)
        if c is None:
            return None
        isint = not isinstance(x, float) and not type(x).__name__.startswith('float') and c.denominator == 1 and not isinstance(x, Fraction)
        return SymNum(c, {}, isint)

    # ---- arithmetic
    def _addsub(self, o, s):
        t = dict(self.t)
        for v, a in o.t.items():
            n = t.get(v, _F0) + s * a
            if n == 0:
                t.pop(v, None)
            else:
                t[v] = n
        return SymNum(self.c + s * o.c, t, self.isint and o.isint)

    def __add__(self, o):
        l = SymNum.lift(o)
        if l is None:
            nf = _nonfinite(o)
            return nf if nf is not None else NotImplemented
        return self._addsub(l, 1)
    __radd__ = __add__

    def __sub__(self, o):
        l = SymNum.lift(o)
        if l is None:
            nf = _nonfinite(o)
            return -nf if nf is not None else NotImplemented
        return self._addsub(l, -1)

    def __rsub__(self, o):
        l = SymNum.lift(o)
        if l is None:
            nf = _nonfinite(o)
            return nf if nf is not None else NotImplemented
        return l._addsub(self, -1)

    def __neg__(self):
        return SymNum(-self.c, {v: -a for v, a in self.t.items()}, self.isint)

    def __pos__(self):
        return self

    def scale(self, k, isint=False):
        if k == 0:
            return SymNum(_F0, {}, isint)
        return SymNum(self.c * k, {v: a * k for v, a in self.t.items()}, isint)

    def __mul__(self, o):
        l = SymNum.lift(o)
        if l is None:
            nf = _nonfinite(o)
            if nf is not None:
                if math.isnan(nf):
                    return nf
                taint('symbolic * inf')
            return NotImplemented
        isint = self.isint and l.isint
        if l.is_const():
            return self.scale(l.c, isint)
        if self.is_const():
            return l.scale(self.c, isint)
        return eng().product(self, l, isint)
    __rmul__ = __mul__

    def __truediv__(self, o):
        l = SymNum.lift(o)
        if l is None:
            nf = _nonfinite(o)
            if nf is not None:
                return nf if math.isnan(nf) else 0.0
            return NotImplemented
        return eng().divide(self, l)

    def __rtruediv__(self, o):
        l = SymNum.lift(o)
        if l is None:
            nf = _nonfinite(o)
            if nf is not None and math.isnan(nf):
                return nf
            return NotImplemented
        return eng().divide(l, self)

    def __floordiv__(self, o):
        l = SymNum.lift(o)
        if l is None:
            return NotImplemented
        return eng().floordiv(self, l)

    def __rfloordiv__(self, o):
        l = SymNum.lift(o)
        if l is None:
            return NotImplemented
        return eng().floordiv(l, self)

    def __mod__(self, o):
        l = SymNum.lift(o)
        if l is None:
            return NotImplemented
        return self - l * eng().floordiv(self, l)

    def __rmod__(self, o):
        l = SymNum.lift(o)
        if l is None:
            return NotImplemented
        return l - self * eng().floordiv(l, self)

    def __divmod__(self, o):
        q = self // o
        return q, self - o * q

    def __pow__(self, o):
        c = _const(o)
        if c is None and isinstance(o, SymNum) and o.is_const():
            c = o.c
        if c is not None and c.denominator == 1 and 0 <= c <= 8:
            r = SymNum(Fraction(1), {}, True)
            for _ in range(int(c)):
                r = r * self
            return r
        if c == Fraction(1, 2):
            return self.sqrt()
        if c is not None and c.denominator == 1 and -8 <= c < 0:
            return 1 / (self ** int(-c))
        taint(f'pow with exponent {o}')

    def __abs__(self):
        return self if bool(self >= 0) else -self

    def sqrt(self):
        return eng().sqrt(self)

    def conjugate(self):
        return self

    def floor(self):
        return eng().floor(self)

    def __floor__(self):
        return eng().floor(self)

    def __ceil__(self):
        return -eng().floor(-self)

    def ceil(self):
        return -eng().floor(-self)

    def __trunc__(self):
        return eng().floor(self) if bool(self >= 0) else -eng().floor(-self)

    def __round__(self, nd=None):
        return eng().round(self, nd)

    def rint(self):
        return eng().round(self, None)

    def item(self):
        return self

    def is_integer(self):
        return bool(eng().floor(self) == self)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def astype(self, t):
        return self

    # ---- comparisons
    def _cmp(self, o, op):
        l = SymNum.lift(o)
        if l is None:
            nf = _nonfinite(o)
            if nf is not None:
                if math.isnan(nf):
                    return op == '!='
                if op in ('<', '<='):
                    return nf > 0
                if op in ('>', '>='):
                    return nf < 0
                return op == '!='
            if op == '==' and not hasattr(o, '__array__'):
                return False if o is None or isinstance(o, (str, list, tuple, dict)) else NotImplemented
            if op == '!=' and not hasattr(o, '__array__'):
                return True if o is None or isinstance(o, (str, list, tuple, dict)) else NotImplemented
            return NotImplemented
        d = self._addsub(l, -1)
        return atom(d, op)

    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')
    def __eq__(self, o): return self._cmp(o, '==')
    def __ne__(self, o): return self._cmp(o, '!=')

    def __hash__(self):
        if self.is_const():
            return hash(self.c)
        # all symbolic keys share a bucket and are told apart by == (which forks);
        # a concrete key of equal value would be missed, so the path does not count as decided
        eng().soft('symbolic number used as a key')
        return 7919

    def __bool__(self):
        return bool(self != 0)

    # ---- conversions
    def __float__(self):
        if self.is_const():
            return float(self.c)
        taint('float() of a symbolic number in C code')

    def __int__(self):
        if self.is_const():
            return int(self.c)
        return eng().concretise(self.__trunc__())

    def __index__(self):
        if self.is_const() and self.c.denominator == 1:
            return int(self.c)
        if self.isint:
            return eng().concretise(self)
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __repr__(self):
        if self.is_const():
            c = self.c
            if c.denominator == 1:
                return str(c.numerator) if self.isint else str(float(c))
            return repr(float(c))
        return eng().token(self)
    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        taint('pickling a symbolic number')


_NEG = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}


def atom(d, op):
    """comparison d op 0 -> bool or SymBool"""
    if d.is_const():
        c = d.c
        return {'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0, '==': c == 0, '!=': c != 0}[op]
    # canonical: leading coefficient positive and 1
    v0 = min(d.t)
    a = d.t[v0]
    if a < 0:
        op = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}[op]
    inv = 1 / a
    c = d.c * inv
    t = tuple(sorted((v, k * inv) for v, k in d.t.items()))
    # canonical polarity: use <=, <, == as positive
    if op in ('>', '>=', '!='):
        return SymBool(('cmp', _NEG[op], c, t), neg=True)
    return SymBool(('cmp', op, c, t))


_INTERN = {}
_KEYS = []


def intern(k):
    i = _INTERN.get(k)
    if i is None:
        i = _INTERN[k] = len(_KEYS)
        _KEYS.append(k)
    return i


class SymBool:
    """boolean expression node, hash-consed by structure key; `neg` is a negation flag"""
    __slots__ = ('k', 'neg')

    def __init__(self, k, neg=False):
        self.k = k
        self.neg = neg

    def full(self):
        return (intern(self.k), self.neg)

    def z3(self):
        e = eng()
        r = e.bool_z3(self.k)
        return z3.Not(r) if self.neg else r

    def __bool__(self):
        return eng().decide(self)

    def __invert__(self):
        return SymBool(self.k, not self.neg)

    def __and__(self, o):
        return And(self, o) if _boolish(o) else NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        return Or(self, o) if _boolish(o) else NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        if not _boolish(o):
            return NotImplemented
        return Or(And(self, Not(o)), And(Not(self), o))
    __rxor__ = __xor__

    def __eq__(self, o):
        if _boolish(o):
            return Not(self ^ o)
        if _const(o) is not None:
            return int(bool(self)) == o
        if isinstance(o, SymNum):
            return o == int(bool(self))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return Not(r)

    def __hash__(self):
        return hash(bool(self))

    def _i(self):
        return int(bool(self))

    def __int__(self): return self._i()
    def __index__(self): return self._i()
    def __float__(self): return float(self._i())
    def __add__(self, o): return self._i() + o
    __radd__ = __add__
    def __sub__(self, o): return self._i() - o
    def __rsub__(self, o): return o - self._i()
    def __mul__(self, o): return self._i() * o
    __rmul__ = __mul__
    def __lt__(self, o): return self._i() < o
    def __gt__(self, o): return self._i() > o
    def __le__(self, o): return self._i() <= o
    def __ge__(self, o): return self._i() >= o
    def __repr__(self): return str(bool(self))
    def all(self, *a, **k): return bool(self)
    def any(self, *a, **k): return bool(self)
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self


def _fsqrt(q):
    n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
    return Fraction(n, d) if n * n == q.numerator and d * d == q.denominator else None


def _boolish(o):
    if isinstance(o, (bool, SymBool)):
        return True
    return type(o).__name__ in ('bool_', 'bool') and type(o).__module__ == 'numpy'


def _tob(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymNum):
        return x != 0
    return bool(x)


def Not(x):
    x = _tob(x)
    if isinstance(x, bool):
        return not x
    return SymBool(x.k, not x.neg)


def _nary(tag, unit, xs):
    out = {}
    for x in xs:
        x = _tob(x)
        if isinstance(x, bool):
            if x is (not unit):
                return not unit
            continue
        out[x.full()] = x
    if not out:
        return unit
    for (k, n) in out:
        if (k, not n) in out:
            return not unit
    if len(out) == 1:
        return next(iter(out.values()))
    return SymBool((tag, tuple(sorted(out))))


def _flat(xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        return list(xs[0])
    if len(xs) == 1 and hasattr(xs[0], '__next__'):
        return list(xs[0])
    return xs


def And(*xs):
    return _nary('and', True, _flat(xs))


def Or(*xs):
    xs = [Not(x) for x in _flat(xs)]
    return Not(_nary('and', True, xs))


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    return Or(And(a, b), And(Not(a), Not(b)))


class Engine:
    """one symbolic execution of one path"""

    MAXQ = 4000          # decisions per path
    FORKCAP = 400        # concretisation alternatives per site

    def __init__(self, prefix=(), timeout_ms=20000):
        _INTERN.clear()
        _KEYS.clear()
        self.prefix = list(prefix)
        self.pos = 0
        self.trace = []          # decisions taken on this path (bools)
        self.alts = []           # unexplored sibling prefixes
        self.solver = z3.Solver()
        self.timeout_ms = timeout_ms
        self.solver.set('timeout', timeout_ms)
        self.known = {}
        self.terms = []          # vid -> z3 term
        self.names = []
        self.vars = {}           # input name -> (vid, kind)
        self.opaque = {}         # structural key -> vid
        self.floors = {}         # structural key -> known floor
        self.bcache = {}
        self.model = None
        self.stats = dict(queries=0, solver_s=0.0, decisions=0, forced=0, forks=0, unknown=0)
        self.tainted = None
        self.approx = None
        self.tokens = {}
        self.tokrev = {}
        self.pc = []
        self.nonlinear = False
        self.mono = {}
        self.inputs = {}         # name -> ('real'|'int'|'bool'|'choice', ...)
        self.notes = []

    # ---- variables
    def newvar(self, name, isint=False):
        vid = len(self.terms)
        self.terms.append(z3.Int(name) if isint else z3.Real(name))
        self.names.append(name)
        return vid

    def term(self, vid):
        t = self.terms[vid]
        if z3.is_int(t):
            return z3.ToReal(t)
        return t

    def var(self, name, isint=False):
        vid = self.newvar(name, isint)
        return SymNum(_F0, {vid: Fraction(1)}, isint)

    # ---- booleans
    def bool_z3(self, k):
        r = self.bcache.get(k)
        if r is not None:
            return r
        if k[0] == 'cmp':
            _, op, c, t = k
            lhs = [self.term(v) if a == 1 else frac_z3(a) * self.term(v) for v, a in t]
            lhs = lhs[0] if len(lhs) == 1 else z3.Sum(lhs)
            rhs = frac_z3(-c)
            r = lhs < rhs if op == '<' else lhs <= rhs if op == '<=' else lhs == rhs
        elif k[0] == 'and':
            r = z3.And([z3.Not(self.bool_z3(_KEYS[kk])) if n else self.bool_z3(_KEYS[kk]) for kk, n in k[1]])
        elif k[0] == 'bvar':
            r = z3.Bool(k[1])
        elif k[0] == 'z3':
            r = k[2]
        else:
            raise AssertionError(k)
        self.bcache[k] = r
        return r

    def boolvar(self, name):
        return SymBool(('bvar', name))

    # ---- solver
    def check(self, *extra):
        t0 = time.perf_counter()
        r = self.solver.check(*extra)
        self.stats['solver_s'] += time.perf_counter() - t0
        self.stats['queries'] += 1
        if r == z3.unknown:
            self.stats['unknown'] += 1
        return r

    def add(self, zexpr):
        self.solver.add(zexpr)
        self.pc.append(zexpr)
        if self.model is not None:
            v = self.model.eval(zexpr, model_completion=True)
            if not z3.is_true(v):
                self.model = None

    def get_model(self):
        if self.model is None:
            if self.check() == z3.sat:
                self.model = self.solver.model()
        return self.model

    def assume(self, cond):
        cond = _tob(cond)
        if isinstance(cond, bool):
            if not cond:
                raise AssumeFailed()
            return
        k = self.known.get(cond.k)
        if k is not None:
            if k ^ cond.neg:
                return
            raise AssumeFailed()
        self.known[cond.k] = not cond.neg
        if not cond.neg and cond.k[0] == 'and':
            for kk, n in cond.k[1]:
                self.known.setdefault(_KEYS[kk], not n)
        self.add(cond.z3())
        if self.pos >= len(self.prefix):
            if self.get_model() is None:
                r = self.check()
                if r == z3.unsat:
                    raise AssumeFailed()

    def add_constraint(self, cond):
        """definitional constraint on fresh variables (always satisfiable)"""
        cond = _tob(cond)
        if isinstance(cond, bool):
            if not cond:
                raise AssumeFailed()
            return
        self.add(cond.z3())

    def decide(self, cond):
        b = self._decide(cond)
        return b

    def lookup(self, cond):
        k = self.known.get(cond.k)
        if k is not None:
            return k ^ cond.neg
        if cond.k[0] == 'and':
            allt = True
            for kk, n in cond.k[1]:
                v = self.known.get(_KEYS[kk])
                if v is None:
                    allt = False
                elif v == n:      # literal false
                    return cond.neg
            if allt:
                return not cond.neg
        if cond.k[0] == 'cmp':
            # cheap implication between < <= == of the same linear form
            _, op, c, t = cond.k
            g = self.known.get
            v = None
            if op == '<=':
                if g(('cmp', '<', c, t)) is True or g(('cmp', '==', c, t)) is True:
                    v = True
            elif op == '<':
                if g(('cmp', '<=', c, t)) is False or g(('cmp', '==', c, t)) is True:
                    v = False
            elif op == '==':
                if g(('cmp', '<', c, t)) is True or g(('cmp', '<=', c, t)) is False:
                    v = False
            if v is not None:
                return v ^ cond.neg
        return None

    def _decide(self, cond):
        v = self.lookup(cond)
        if v is not None:
            return v
        self.stats['decisions'] += 1
        if len(self.trace) > self.MAXQ:
            raise PathLimit('decision limit')
        z = cond.z3()
        if self.pos < len(self.prefix):
            val = self.prefix[self.pos]
            self.pos += 1
        else:
            m = self.get_model()
            if m is None:
                # unknown / infeasible pc
                r = self.check()
                if r == z3.unsat:
                    raise AssumeFailed()
                rt, rf = self.check(z), self.check(z3.Not(z))
                can_t, can_f = rt != z3.unsat, rf != z3.unsat
                newm = None
            else:
                mv = z3.is_true(m.eval(z, model_completion=True))
                if mv:
                    can_t = True
                    can_f = self.check(z3.Not(z)) != z3.unsat
                else:
                    can_f = True
                    r = self.check(z)
                    can_t = r != z3.unsat
            if can_t and can_f:
                self.stats['forks'] += 1
                self.alts.append(self.trace + [False])
                val = True
            elif can_t or can_f:
                self.stats['forced'] += 1
                val = can_t
            else:
                raise AssumeFailed()
            self.pos += 1
            self.prefix.append(val)
        self.trace.append(val)
        self.known[cond.k] = val ^ cond.neg
        if val ^ cond.neg and cond.k[0] == 'and':
            for kk, n in cond.k[1]:
                self.known.setdefault(_KEYS[kk], not n)
        self.add(z if val else z3.Not(z))
        return val

    # ---- numeric operations that need the solver
    def mval(self, num):
        """value of num in the current model (Fraction) or None"""
        m = self.get_model()
        if m is None:
            return None
        return _z3frac(m.eval(num.z3(), model_completion=True))

    def peek(self, num):
        """deterministic 'guess' for replay-independent enumeration: recorded in the prefix as a value"""
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
        else:
            v = self.mval(num)
            if v is None:
                raise PathLimit('no model')
            self.prefix.append(v)
            self.pos += 1
        self.trace.append(v)
        return v

    def concretise(self, num):
        if num.is_const():
            return int(num.c)
        for _ in range(self.FORKCAP):
            v = self.peek(num)
            v = Fraction(math.floor(v))
            if bool(num == SymNum(v, {}, True)):
                return int(v)
        raise PathLimit('concretisation limit')

    def floordiv(self, x, y):
        if y.is_const():
            if y.c == 0:
                raise ZeroDivisionError('symbolic modulo/division by zero')
            if x.is_const():
                return SymNum(Fraction(math.floor(x.c / y.c)), {}, x.isint and y.isint)
            neg = y.c < 0
        else:
            if bool(y == 0):
                raise ZeroDivisionError('symbolic modulo/division by zero')
            neg = not bool(y > 0)
        for i in range(self.FORKCAP):
            vx = self.peek(x)
            vy = y.c if y.is_const() else self.peek(y)
            if vy == 0:
                continue
            q = math.floor(vx / vy)
            lo, hi = y * q, y * (q + 1)
            c = And(x <= lo, x > hi) if neg else And(x >= lo, x < hi)
            if bool(c):
                return SymNum(Fraction(q), {}, x.isint and y.isint)
        raise PathLimit('quotient limit')

    def floor(self, x):
        if x.is_const():
            return SymNum(Fraction(math.floor(x.c)), {}, True)
        if x.isint:
            return x
        f = self.floors.get(x.key())
        if f is not None:
            return SymNum(Fraction(f), {}, True)
        q = self.floordiv(x, SymNum(Fraction(1), {}, True))
        return SymNum(q.c, {}, True)

    def round(self, x, nd=None):
        if nd is not None:
            if x.is_const():
                return SymNum(Fraction(round(x.c, int(nd))), {}, False)
            # nearest multiple of 10**-nd as an integer variable (ties to either side)
            y = x.scale(Fraction(10) ** int(nd))
            k = ('round', y.key())
            vid = self.opaque.get(k)
            # whole part plus a rest of less than a half
            ti = {v: c for v, c in y.t.items() if c.denominator == 1 and z3.is_int(self.terms[v])}
            if ti and vid is None:
                i = SymNum(Fraction(round(y.c)), ti, False)
                f = y - i
                if bool(And(f > Fraction(-1, 2), f < Fraction(1, 2))):
                    return i.scale(Fraction(1) / Fraction(10) ** int(nd))
            if vid is None:
                vid = self.newvar(f'round!{len(self.terms)}', True)
                self.opaque[k] = vid
                t, z = self.terms[vid], y.z3()
                h = frac_z3(Fraction(1, 2))
                self.add(z3.And(t - h <= z, z <= t + h))
            return SymNum(_F0, {vid: Fraction(1) / Fraction(10) ** int(nd)}, False)
        f = self.floor(x + Fraction(1, 2))
        # half-to-even
        if bool(f - x == Fraction(1, 2)):
            if int(f) % 2 == 1:
                f = f - 1
        return f if nd is None else SymNum(f.c, f.t, False)

    def product(self, x, y, isint):
        # if either is constant under the path condition use it
        for a, b in ((x, y), (y, x)):
            v = self.entailed_const(a)
            if v is not None:
                return b.scale(v, isint)
        if len(x.t) * len(y.t) <= 64:
            # expand into monomials, so that polynomial identities become structural
            out = x.scale(y.c)
            t = dict((y.scale(x.c)).t)
            for v, a in out.t.items():
                t[v] = t.get(v, 0) + a
            for v1, a in x.t.items():
                for v2, b in y.t.items():
                    m = self.monomial(self.mono.get(v1, (v1,)) + self.mono.get(v2, (v2,)))
                    t[m] = t.get(m, 0) + a * b
            return SymNum(x.c * y.c, {v: a for v, a in t.items() if a}, isint)
        k1, k2 = x.key(), y.key()
        k = ('mul',) + ((k1, k2) if repr(k1) <= repr(k2) else (k2, k1))
        vid = self.opaque.get(k)
        if vid is None:
            vid = len(self.terms)
            self.terms.append(x.z3() * y.z3())
            self.names.append('mul')
            self.opaque[k] = vid
            self.nonlinear = True
        return SymNum(_F0, {vid: Fraction(1)}, isint)

    def monomial(self, vs):
        vs = tuple(sorted(vs))
        k = ('mono', vs)
        vid = self.opaque.get(k)
        if vid is None:
            t = self.terms[vs[0]]
            for v in vs[1:]:
                t = t * self.terms[v]
            vid = len(self.terms)
            self.terms.append(t)
            self.names.append('mul')
            self.opaque[k] = vid
            self.mono[vid] = vs
            self.nonlinear = True
        return vid

    def square_root(self, x):
        """linear form L with x == L*L, or None"""
        quad, lin = {}, {}
        for v, a in x.t.items():
            m = self.mono.get(v)
            if m is None:
                lin[v] = a
            elif len(m) == 2:
                quad[m] = a
            else:
                return None
        diag = [m[0] for m, a in quad.items() if m[0] == m[1] and a > 0]
        if not diag:
            return None
        p = diag[0]
        r = _fsqrt(quad[p, p])
        if r is None:
            return None
        t = {p: r}
        for m, a in quad.items():
            if p in m and m != (p, p):
                o = m[0] if m[1] == p else m[1]
                t[o] = a / (2 * r)
        c = lin.get(p, Fraction(0)) / (2 * r)
        L = SymNum(c, {v: a for v, a in t.items() if a})
        return L if self.product(L, L, False).key() == x.key() else None

    def entailed_const(self, x):
        """constant value of x if the path condition forces one (recorded for replay)"""
        if x.is_const():
            return x.c
        kk = ('ec', x.key())
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
        else:
            v = self.mval(x)
            if v is not None:
                c = (x == SymNum(v, {}))
                if isinstance(c, SymBool):
                    if self.lookup(c) is not True and self.check(z3.Not(c.z3())) != z3.unsat:
                        v = None
            self.prefix.append(v)
            self.pos += 1
        self.trace.append(v)
        return v

    def divide(self, x, y):
        if y.is_const():
            if y.c == 0:
                raise ZeroDivisionError('symbolic division by zero')
            return x.scale(1 / y.c)
        if bool(y == 0):
            raise ZeroDivisionError('symbolic division by zero')
        # entailed constant ratio?
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
        else:
            vx, vy = self.mval(x), self.mval(y)
            v = None
            if vx is not None and vy not in (None, 0):
                q = vx / vy
                c = (x == y * q)
                if c is True or (isinstance(c, SymBool) and (self.lookup(c) is True or self.check(z3.Not(c.z3())) == z3.unsat)):
                    v = q
            self.prefix.append(v)
            self.pos += 1
        self.trace.append(v)
        if v is not None:
            return SymNum(v, {})
        yv = self.entailed_const(y)
        if yv is not None:
            return x.scale(1 / yv)
        k = ('div', x.key(), y.key())
        vid = self.opaque.get(k)
        if vid is None:
            vid = self.newvar(f'div!{len(self.terms)}')
            self.opaque[k] = vid
            self.nonlinear = True
            self.add(self.terms[vid] * y.z3() == x.z3())
        return SymNum(_F0, {vid: Fraction(1)})

    def sqrt(self, x):
        if x.is_const() and x.c >= 0:
            r = Fraction(math.isqrt(x.c.numerator), math.isqrt(x.c.denominator))
            if r * r == x.c:
                return SymNum(r, {})
        L = self.square_root(x)
        if L is not None:
            return abs(L)
        if bool(x < 0):
            return float('nan')
        k = ('sqrt', x.key())
        vid = self.opaque.get(k)
        if vid is None:
            vid = self.newvar(f'sqrt!{len(self.terms)}')
            self.opaque[k] = vid
            self.nonlinear = True
            t = self.terms[vid]
            self.add(z3.And(t >= 0, t * t == x.z3()))
        return SymNum(_F0, {vid: Fraction(1)})

    def uninterpreted(self, name, args, lo=None, hi=None):
        """fresh value functionally determined by its arguments (structural key)"""
        k = (name,) + tuple(a.key() if isinstance(a, SymNum) else a for a in args)
        vid = self.opaque.get(k)
        if vid is None:
            vid = self.newvar(f'{name}!{len(self.terms)}')
            self.opaque[k] = vid
            t = self.terms[vid]
            if lo is not None:
                self.add(t >= frac_z3(Fraction(lo)))
            if hi is not None:
                self.add(t <= frac_z3(Fraction(hi)))
            self.notes.append(f'uninterpreted {name}')
        return SymNum(_F0, {vid: Fraction(1)})

    # ---- tokens for string round trips
    def token(self, num):
        k = (num.key(), num.isint)
        tk = self.tokrev.get(k)
        if tk is None:
            tk = f'~{len(self.tokens)}~'
            self.tokrev[k] = tk
            self.tokens[tk] = num
        return tk

    def untoken(self, s):
        s = s.strip()
        neg = False
        if s.startswith('-~'):
            neg, s = True, s[1:]
        v = self.tokens.get(s)
        if v is None:
            return None
        return -v if neg else v

    def taint(self, reason):
        if self.tainted is None:
            self.tainted = reason

    def soft(self, reason):
        """go on with an approximation: counterexamples still count (they are replayed), a pass does not"""
        if self.approx is None:
            self.approx = reason


def _z3frac(v):
    try:
        if z3.is_int_value(v):
            return Fraction(v.as_long())
        if z3.is_rational_value(v):
            return Fraction(v.numerator_as_long(), v.denominator_as_long())
        if z3.is_algebraic_value(v):
            a = v.approx(20)
            return Fraction(a.numerator_as_long(), a.denominator_as_long())
    except Exception:
        return None
    return None

"""Harness-facing API.  The same harness function runs in two modes:

* SymS  - inputs are symbolic, checks are solver queries (run in a patched process)
* ConcS - inputs are concrete values taken from a solver model, the repo code is unpatched
"""
import os
import re
import types
import math
import random
from fractions import Fraction

from . import core
from .core import (SymNum, SymBool, And, Or, Not, Implies, Iff, PathAbort, AssumeFailed, z3, _z3frac)

TOL = 1e-9


class Base:
    And = staticmethod(And)
    Or = staticmethod(Or)
    Not = staticmethod(Not)
    Implies = staticmethod(Implies)
    Iff = staticmethod(Iff)

    def call(self, f, *a, **k):
        """run code under test; (result, None) or (None, exception)"""
        try:
            return f(*a, **k), None
        except Exception as e:                      # noqa
            if e.__traceback__.tb_next is None and interface(e):
                raise
            if isinstance(e, core.Unsupported):
                self.note_unsupported(e)
            return None, e

    def note_unsupported(self, e):
        pass

    def missing(self, what):
        """called by stand-ins for a use they do not know: nothing is decided on this path"""
        if self.symbolic:
            core.taint(f'stand-in lacks {what}')
        raise StubMissing(f'interface changed: stand-in lacks {what}')

    def reach(self, label):
        self.reached.add(label)

    def observe(self, name, value):
        self.obs.append((name, value))


class SymS(Base):
    symbolic = True

    def __init__(self, engine, tier='quick'):
        self.e = engine
        self.tier = tier
        self.checks = []
        self.obs = []
        self.reached = set()
        self.memo = {}

    def real(self, name, lo=None, hi=None):
        v = self.e.var(name)
        self.e.inputs[name] = ('real', v)
        if lo is not None:
            self.e.assume(v >= lo)
        if hi is not None:
            self.e.assume(v <= hi)
        return v

    def int(self, name, lo, hi):
        v = self.e.var(name, True)
        self.e.inputs[name] = ('int', v)
        self.e.assume(And(v >= lo, v <= hi))
        return v

    def cint(self, name, lo, hi):
        """integer input, concretised by forking"""
        return self.e.concretise(self.int(name, lo, hi))

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            self.e.inputs[name] = ('int', SymNum(Fraction(0), {}, True))
            return options[0]
        return options[self.cint(name, 0, len(options) - 1)]

    def bool(self, name):
        b = self.e.boolvar(name)
        self.e.inputs[name] = ('bool', b)
        return b

    def flag(self, name):
        """boolean input, concretised by forking"""
        return bool(self.bool(name))

    def val(self, name, nan=False, **kw):
        """data value that may also be NaN (by forking)"""
        if nan and self.flag(name + '.nan'):
            return float('nan')
        return self.real(name, **kw)

    def assume(self, c):
        self.e.assume(c)

    def check(self, c, msg):
        c = core._tob(c)
        if c is True:
            c = True
        self.checks.append((msg, c))

    def eq(self, a, b):
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            return a == b if type(a) == type(b) else False
        if _isnan(a) or _isnan(b):
            return _isnan(a) and _isnan(b)
        r = a == b
        return r

    def le(self, a, b):
        return a <= b

    def lt(self, a, b):
        return a < b

    def note_unsupported(self, e):
        self.e.taint(str(e))

    def rng_seed(self):
        return 0


def _isnan(x):
    if isinstance(x, (SymNum, SymBool)):
        return False
    try:
        return bool(x != x)
    except Exception:
        return False


_WORDS = set()


def interface(x):
    """text if the exception only says that a name or signature the harness itself uses is no longer there (a renamed method, say); the code under test has not failed then"""
    tb = x.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if not os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(here + os.sep):
        return None
    if isinstance(x, TypeError):
        m = re.match(r"([\w.<>]+)\(\) (got an unexpected keyword|missing \d+ required|takes .* positional arg)", str(x))
        return f'interface changed: {x}' if m else None
    if isinstance(x, (AttributeError, ImportError)) and x.name:
        name = x.name if isinstance(x, AttributeError) else re.sub(r".*cannot import name '(\w+)'.*", r'\1', str(x)) if 'cannot import name' in str(x) else x.name.split('.')[-1]
        if isinstance(x, AttributeError):
            o = x.obj
            if isinstance(o, types.ModuleType) and o.__name__.startswith('meshiphi'):
                return f'interface changed: {x}'
            mod = o.__name__ if isinstance(o, types.ModuleType) else getattr(o if isinstance(o, type) else type(o), '__module__', '')
            base = [] if isinstance(o, types.ModuleType) else [c.__module__ for c in (o if isinstance(o, type) else type(o)).__mro__]
            if not any(str(m).startswith('meshiphi') for m in [mod] + base):
                return None
        if not _WORDS:
            import meshiphi
            for d, _, fs in os.walk(os.path.dirname(meshiphi.__file__)):
                for f in fs:
                    if f.endswith('.py'):
                        with open(os.path.join(d, f), errors='replace') as h:
                            _WORDS.update(re.findall(r'\w+', h.read()))
        return None if name in _WORDS else f'interface changed: {x}'
    return None


class ReplaySkip(Exception):
    pass


class StubMissing(BaseException):
    """the code uses a part of a library the stand-in for that library does not have"""


class ConcS(Base):
    symbolic = False

    def __init__(self, inputs, tier='quick'):
        self.inputs = inputs
        self.tier = tier
        self.failures = []
        self.nchecks = 0
        self.obs = []
        self.reached = set()

    def _get(self, name, default=0):
        # inputs the model left unconstrained / code path diverged: default
        return self.inputs.get(name, default)

    def real(self, name, lo=None, hi=None):
        v = self._get(name, None)
        if v is None:
            v = 0.0
            if lo is not None and v < lo:
                v = float(lo)
            if hi is not None and v > hi:
                v = float(hi)
        v = float(v)
        if lo is not None and v < lo or hi is not None and v > hi:
            raise ReplaySkip(name)
        return v

    def int(self, name, lo, hi):
        v = int(self._get(name, lo))
        if not lo <= v <= hi:
            raise ReplaySkip(name)
        return v
    cint = int

    def choice(self, name, options):
        options = list(options)
        return options[int(self._get(name, 0))]

    def bool(self, name):
        return bool(self._get(name, False))
    flag = bool

    def val(self, name, nan=False, **kw):
        if nan and self.flag(name + '.nan'):
            return float('nan')
        return self.real(name, **kw)

    def assume(self, c):
        if not c:
            raise ReplaySkip('assume')

    def check(self, c, msg):
        self.nchecks += 1
        if not c:
            self.failures.append(msg)

    def eq(self, a, b):
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            return a == b if type(a) == type(b) else False
        try:
            fa, fb = float(a), float(b)
        except Exception:
            return a == b
        if math.isnan(fa) or math.isnan(fb):
            return math.isnan(fa) and math.isnan(fb)
        if math.isinf(fa) or math.isinf(fb):
            return fa == fb
        return abs(fa - fb) <= TOL * max(1.0, abs(fa), abs(fb))

    def le(self, a, b):
        return a <= b or self.eq(a, b)

    def lt(self, a, b):
        return a < b

    def rng_seed(self):
        return 0


def flatten(v, out=None):
    """observation -> list of comparable leaves"""
    if out is None:
        out = []
    if isinstance(v, (list, tuple)):
        out.append(('len', len(v)))
        for x in v:
            flatten(x, out)
    elif isinstance(v, dict):
        out.append(('keys', sorted(map(str, v.keys()))))
        for k in sorted(v, key=str):
            flatten(v[k], out)
    elif isinstance(v, SymNum):
        out.append(('num', v))
    elif isinstance(v, SymBool):
        out.append(('bool', v))
    elif isinstance(v, bool) or type(v).__name__ == 'bool_':
        out.append(('bool', bool(v)))
    elif isinstance(v, (int, float)) or type(v).__module__ == 'numpy' and not hasattr(v, '__len__'):
        out.append(('num', float(v)))
    elif v is None or isinstance(v, str):
        out.append(('str', v))
    else:
        try:
            import numpy as np
            if isinstance(v, np.ndarray):
                return flatten(v.tolist(), out)
        except ImportError:
            pass
        out.append(('str', str(type(v).__name__)))
    return out

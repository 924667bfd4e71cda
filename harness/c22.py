"""C22 dates of a region"""
import contextlib
import datetime as DT
from .common import *
from meshiphi.mesh_generation import boundary as bmod
from meshiphi.mesh_generation.boundary import Boundary
from meshiphi.mesh_generation.mesh_builder import MeshBuilder

PROPERTY = dict(
    bounds='every calendar date of the years 1999..2026 as start, end and current date, every whole number of days 0..5000 before or after the current date; the accepted spellings; dates as given to Boundary, in a configuration and in the built mesh',
    outside='fractional numbers of days; the time of day; the textual format of dates beyond the listed spellings',
    stubs=['datetime.strptime/strftime/today and timedelta replaced by exact day arithmetic on symbolic dates (replays use the real ones and the real clock)', NP_STUB], budget=dict(quick=600, thorough=600))

FMT = '%Y-%m-%d'


class FDelta:
    def __init__(self, days=0, *a, **k):
        if a or k:
            from symx.core import taint
            taint('timedelta with other units')
        self.days = days

    def __neg__(self):
        return FDelta(-self.days)


class FDay:
    """a date (whole ordinal) or moment (with fraction)"""
    def __init__(self, o):
        self.o = o

    def date(self):
        return FDay(whole(self.o))

    def toordinal(self):
        return whole(self.o)

    def strftime(self, fmt):
        from symx.core import eng, taint, is_sym
        if fmt != FMT:
            taint('date format')
        o = whole(self.o)
        if not is_sym(o):
            return DT.date.fromordinal(int(o)).strftime(FMT)
        return eng().token(o)

    isoformat = lambda self: self.strftime(FMT)

    def __add__(self, d):
        return FDay(self.o + d.days)

    def __sub__(self, d):
        return FDay(self.o - d.days) if isinstance(d, FDelta) else FDelta(self.o - d.o)
    __lt__ = lambda a, b: bool(a.o < b.o)
    __gt__ = lambda a, b: bool(a.o > b.o)
    __le__ = lambda a, b: bool(a.o <= b.o)
    __ge__ = lambda a, b: bool(a.o >= b.o)
    __eq__ = lambda a, b: bool(a.o == b.o)
    __hash__ = None


def whole(o):
    """the day: the time of day is kept apart (below), so o is the whole number of days unless a fraction of a day was added"""
    from symx.core import is_sym, SymNum
    if not is_sym(o):
        import math
        return math.floor(o)
    return SymNum(o.c, o.t, True)


class FDateTime:
    now_ = None

    @staticmethod
    def strptime(s, fmt):
        from symx.core import eng, taint
        if fmt != FMT:
            taint('date format')
        v = eng().untoken(s)
        if v is not None:
            return FDay(v)
        return FDay(DT.datetime.strptime(s, fmt).toordinal())

    @classmethod
    def fromisoformat(cls, s):
        return cls.strptime(s, FMT)

    @classmethod
    def today(cls):
        return FDay(cls.now_)
    now = today


@contextlib.contextmanager
def clock(S):
    """yields today (ordinal): any date at any time of day; the real one in replays"""
    if not S.symbolic:
        yield None
        return
    real = bmod.datetime, bmod.timedelta
    t = S.int('today', 730000, 739000)
    FDateTime.now_ = t
    bmod.datetime, bmod.timedelta = FDateTime, FDelta
    try:
        yield t
    finally:
        bmod.datetime, bmod.timedelta = real


def text(S, o):
    """date string of an ordinal"""
    if S.symbolic:
        from symx.core import eng
        return eng().token(o)
    return DT.date.fromordinal(int(o)).strftime(FMT)


def ordinal(S, s):
    if S.symbolic:
        from symx.core import eng
        v = eng().untoken(s)
        if v is not None:
            return v
    return DT.datetime.strptime(s, FMT).toordinal()


SPELL = ['TODAY{}{}', 'TODAY {} {}', 'today {}{}', ' Today{} {} ']


def moment(S, tag, kind, today, spell=None):
    """(text, expected ordinal)"""
    if kind == 'date':
        o = S.int(tag + '.day', 730000, 739900)
        return text(S, o), o
    t = today if S.symbolic else DT.date.today().toordinal()
    if kind == 'today':
        return S.choice(tag + '.sp', ['TODAY', 'today', ' TODAY ']), t
    n = S.int(tag + '.n', 0, 5000)
    sign = S.choice(tag + '.sign', ['+', '-'])
    sp = S.choice(tag + '.sp', SPELL if spell is None else spell)
    if S.symbolic:
        from symx.core import eng, is_sym
        num = eng().token(n) if is_sym(n) else str(n)
    else:
        num = str(n)
    return sp.format(sign, num), t + n if sign == '+' else t - n


def pair(S, a='date', b='rel', via='init'):
    with clock(S) as today:
        s, so = moment(S, 's', a, today)
        e, eo = moment(S, 'e', b, today, ['TODAY {} {}'])
        if via == 'init':
            bd, ex = S.call(Boundary, [0, 10], [0, 10], [s, e])
        else:
            bd, ex = S.call(Boundary.from_json, {'region': {'lat_min': 0, 'lat_max': 10, 'long_min': 0, 'long_max': 10, 'start_time': s, 'end_time': e}})
        if so > eo:
            S.check(isinstance(ex, ValueError), 'a start after the end is refused')
            S.reach('refused')
            return
        S.check(ex is None, 'a start up to the end is accepted')
        if ex is not None:
            return
        g0, g1 = bd.get_time_min(), bd.get_time_max()
        S.check(isinstance(g0, str) and isinstance(g1, str), 'dates are given as text')
        S.check(S.And(ordinal(S, g0) == so, ordinal(S, g1) == eo), 'the region has the dates it was given, relative ones counted from today')
        S.check(list(bd.get_time_range()) == [g0, g1], 'the dates are given in order')
        S.reach('ok')


LOOSE = [('2020-3-1', '2020-03-01'), ('2020-12-9', '2020-12-09'), ('2019-1-11', '2019-01-11'), ('2020-02-29', '2020-02-29')]


def loose(S):
    """dates not written with leading zeros are given in full"""
    a, wa = LOOSE[S.cint('a', 0, len(LOOSE) - 1)]
    b, wb = LOOSE[S.cint('b', 0, len(LOOSE) - 1)]
    bd, ex = S.call(Boundary, [0, 10], [0, 10], [a, b])
    if wa > wb:
        S.check(isinstance(ex, ValueError), 'a start after the end is refused')
        return
    S.check(ex is None and list(bd.get_time_range()) == [wa, wb] and bd.get_time_min() == wa and bd.get_time_max() == wb, 'dates are given as YYYY-MM-DD')
    S.reach('ok')


def bad(S, where='start'):
    w = S.choice('w', ['yesterday', '2020-13-01', '2021-02-29', 'TODAY 3', 'TODAY + x', 'TODAY - x', 'TODAY +', '01-02-2020', '', '2020-01', '2020-01-01T10', 'TOMORROW + 1', 'TODAY--3', 'TODAY - - 3', 'TODAY + + 5', 'TODAY - 3 + 2', 'TODAY + 3 - 2', 'NOT TODAY', 'XTODAY + 3', '3 TODAY - 2', 'TODAYS - 1'])
    with clock(S) as today:
        o, _ = moment(S, 'o', 'date', today)
        _, ex = S.call(Boundary, [0, 10], [0, 10], [w, o] if where == 'start' else [o, w])
        S.check(isinstance(ex, ValueError), 'text that is not a date is refused')
        S.reach('ok')


def none(S):
    y0, y1 = S.real('y0', -90, 90), S.real('y1', -90, 90)
    S.assume(y0 < y1)
    reg = {'lat_min': y0, 'lat_max': y1, 'long_min': 0, 'long_max': 10}
    if S.flag('start'):
        reg['start_time'] = '2020-01-01'
    k = S.choice('k', ['json', 'init', 'empty', 'three'])
    if k == 'json':
        b, e = S.call(Boundary.from_json, {'region': reg})
    elif k == 'three':
        b, e = S.call(Boundary, [y0, y1], [0, 10], ['2020-01-01', '2020-01-02', '2020-01-03'])
        S.check(isinstance(e, ValueError), 'a region has two dates')
        S.reach('three')
        return
    else:
        b, e = S.call(Boundary, [y0, y1], [0, 10], *([[]] if k == 'empty' else []))
    S.check(e is None and len(b.get_time_range()) == 0, 'a region need not have dates')
    S.reach('ok')


def built(S, a='today', b='rel'):
    """dates of a configuration in the built mesh"""
    with clock(S) as today:
        t = today if S.symbolic else DT.date.today().toordinal()

        def m(tag, kind):
            if kind == 'today':
                return 'TODAY', t
            if kind == 'date':
                d = S.choice(tag, ['2001-02-28', '2020-02-29', '2030-01-01'])
                return d, DT.datetime.strptime(d, FMT).toordinal()
            n = S.choice(tag + '.n', [0, 1, 30, 400])
            s = S.choice(tag + '.sign', ['+', '-'])
            return f'TODAY {s} {n}' if S.flag(tag + '.sp') else f'TODAY{s}{n}', t + n if s == '+' else t - n
        s, so = m('s', a)
        e, eo = m('e', b)
        cfg = {'region': {'lat_min': 0, 'lat_max': 5, 'long_min': 0, 'long_max': 5, 'start_time': s, 'end_time': e, 'cell_width': 5, 'cell_height': 5},
               'data_sources': [], 'splitting': {'split_depth': 1, 'minimum_datapoints': 1}}
        mb, ex = S.call(MeshBuilder, cfg)
        if so > eo:
            S.check(isinstance(ex, ValueError), 'a start after the end is refused')
            return
        S.check(ex is None, 'a start up to the end is accepted')
        if ex is not None:
            return
        js = mb.build_environmental_mesh().to_json()
        r = js['config']['mesh_info']['region']
        S.check(S.And(ordinal(S, r['start_time']) == so, ordinal(S, r['end_time']) == eo), 'the mesh records the dates it was built for')
        for k, given in (('start_time', s), ('end_time', e)):
            if given[0] == '2':
                S.check(r[k] == DT.datetime.strptime(given, FMT).strftime(FMT), 'recorded dates are written as YYYY-MM-DD')
        c = mb.mesh.cellboxes[0].get_bounds()
        S.check(S.And(ordinal(S, c.get_time_min()) == so, ordinal(S, c.get_time_max()) == eo), 'cells have the dates of the region')
        S.reach('ok')


def jobs(tier):
    J = []
    for a in ('date', 'rel', 'today'):
        for b in ('date', 'rel', 'today'):
            for via in ('init', 'json'):
                if via == 'json' and a != b:
                    continue
                J.append(job(__name__, 'pair', f'{a}-{b}-{via}', cfg=dict(a=a, b=b, via=via), reach=['ok'] if a == b == 'today' else ['ok', 'refused'], wit_every=2))
    for w in ('start', 'end'):
        J.append(job(__name__, 'bad', f'bad-{w}', cfg=dict(where=w), reach=['ok'], wit_every=1))
    J.append(job(__name__, 'loose', reach=['ok'], wit_every=1))
    J.append(job(__name__, 'none', reach=['ok', 'three'], wit_every=1))
    for a, b in (('today', 'rel'), ('rel', 'rel'), ('date', 'rel'), ('date', 'today'), ('rel', 'date'), ('date', 'date')):
        J.append(job(__name__, 'built', f'built-{a}-{b}', cfg=dict(a=a, b=b), reach=['ok'], wit_every=4))
    return J

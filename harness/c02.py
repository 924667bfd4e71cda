"""C02 longitude arithmetic"""
import numpy as np
from .common import *
from meshiphi import utils

PROPERTY = dict(
    bounds='any real longitude in [-1080, 1080]; [-36000, 36000] for whole numbers of degrees; lists and arrays of 2 longitudes of any value and of 40 longitudes of which one is any',
    outside='longitudes beyond +-36000 degrees; doubles whose sums round',
    stubs=[NP_STUB])


def cong(S, a, b):
    return S.Or([S.eq(a - b, 360 * k) for k in range(-8, 9)])


def domain(S):
    x = S.real('x', -1080, 1080)
    r = utils.longitude_domain(x)
    S.check(S.And(r >= -180, r <= 180), 'result within -180..180')
    S.check(cong(S, r, x), 'result is the same meridian')
    S.check(S.Implies(S.And(x >= -180, x <= 180), S.eq(r, x)), 'longitudes already in range are unchanged')
    S.observe('r', r)


def seq(S, kind='list'):
    xs = [S.real(f'x{i}', -400, 400) for i in range(2)]
    if kind == 'list':
        r = utils.longitude_domain(list(xs))
    else:
        a = np.empty(2, dtype=object if S.symbolic else float)
        a[0], a[1] = xs
        r = utils.longitude_domain(a)
    S.check(len(r) == 2, 'same number of longitudes')
    for x, y in zip(xs, r):
        S.check(S.And(y >= -180, y <= 180, cong(S, y, x)), 'each longitude converted in place')
    S.observe('r', list(r))


def far(S):
    """many times round"""
    k = S.cint('turns', -100, 100)
    x = S.real('x', -180, 180)
    S.assume(S.And(x > -180, x < 180))
    r = utils.longitude_domain(x + 360 * k)
    S.check(S.eq(r, x), 'result is the same meridian')


def many(S, kind='list'):
    a = S.real('a', -540, 540)
    base = S.choice('base', [[-400.0, 359.5, 10.0, 181.0, -180.25, 720.0, 0.0, -181.0], [10.0, -20.0, 179.5, 0.0]])
    xs = [base[i % len(base)] for i in range(40)]
    at = S.choice('at', [0, 25, 39])
    xs[at] = a
    if kind == 'list':
        r = utils.longitude_domain(list(xs))
    else:
        arr = np.empty(40, dtype=object if S.symbolic else float)
        arr[:] = xs
        r = utils.longitude_domain(arr)
    S.check(len(r) == 40, 'same number of longitudes')
    for x, y in zip(xs, r):
        S.check(S.And(y >= -180, y <= 180, cong(S, y, x)), 'each longitude converted in place')


def distance(S):
    a, b = S.real('a', -540, 540), S.real('b', -540, 540)
    d = utils.longitude_distance(a, b)
    d2 = utils.longitude_distance(b, a)
    S.check(S.And(d >= 0, d <= 180), 'distance within 0..180')
    S.check(S.Or(cong(S, d, a - b), cong(S, d, b - a)), 'distance is an angle between the meridians')
    S.check(S.eq(d, d2), 'distance is symmetric')
    S.observe('d', d)


def jobs(tier):
    return [job(__name__, 'domain'), job(__name__, 'seq', 'list', cfg=dict(kind='list')), job(__name__, 'seq', 'array', cfg=dict(kind='array')),
            job(__name__, 'distance'), job(__name__, 'far', wit_every=10), job(__name__, 'many', 'list-40', cfg=dict(kind='list')), job(__name__, 'many', 'array-40', cfg=dict(kind='array'))]

"""C30 comparison of meshes"""
import contextlib
import numpy as np
import pandas as pd
from .common import *
from .data import isnan
from meshiphi import utils
from meshiphi.mesh_validation import mesh_comparator as mc

PROPERTY = dict(
    bounds='meshes of up to three cells present in one or both files in any order, values any real of fixed magnitude (or missing, in one cell or in the whole column) compared to four significant figures, any differing names or neighbours; '
           'rounding of any real of magnitude 1e-4..1e5 to one to five significant figures, as number, list or array; also meshes of 60 cells of which 30 differ, 14 neighbours in a direction',
    outside='values exactly half way between two roundings; names in another order; lists with missing values',
    stubs=[NP_STUB, 'log10 as the decade of its argument; decimal rounding exact, ties to even', 'columns of symbolic numbers count as float columns in select_dtypes'], budget=dict(quick=600, thorough=600))


@contextlib.contextmanager
def dtypes(S):
    """columns of symbolic values are float columns"""
    real = pd.DataFrame.select_dtypes
    if not S.symbolic:
        yield
        return
    from symx.core import is_sym

    def sel(self, include=None, exclude=None):
        def isf(c):
            return self[c].dtype == object and any(is_sym(v) for v in self[c]) and all(is_sym(v) or isinstance(v, float) for v in self[c])
        inc = include if isinstance(include, (list, tuple)) else [include]
        if exclude is not None:
            from symx.core import taint
            taint('select_dtypes(exclude)')
        real_inc = [float if getattr(i, '__name__', '') == 'PFloat' else i for i in inc]
        r = real(self, real_inc, exclude)
        f = any(i in (float, 'float', 'float64', 'number', np.number, np.floating) for i in real_inc)
        cols = [c for c in self.columns if (isf(c) and f) or (not isf(c) and c in r.columns)]
        return self[cols]
    pd.DataFrame.select_dtypes = sel
    try:
        yield
    finally:
        pd.DataFrame.select_dtypes = real


def cell(k, **v):
    return {'geometry': f'POLYGON (({k} 0, {k} 1))', 'cx': 0.5 + k, 'cy': 0.5, 'dcx': 0.5, 'dcy': 0.5, **v, 'id': str(10 + k)}


def mesh(cells, graph=None):
    return {'config': {}, 'cellboxes': cells, 'neighbour_graph': graph if graph is not None else {c['id']: {} for c in cells}}


def ids(S, res, how):
    if how == 'id':
        return sorted(str(x) for x in res.tolist())
    return sorted(str(x) for x in (res['id'].tolist() if len(res) else []))


def same(S, x, y):
    if isinstance(y, (list, tuple)):
        return isinstance(x, (list, tuple)) and len(x) == len(y) and S.And([S.eq(p, q) for p, q in zip(x, y)])
    if isinstance(y, str):
        return x == y
    return isnan(x) if isnan(y) else not isnan(x) and S.eq(x, y)


def call(S, f, a, b, shown=()):
    """reported ids; the table shows the cells of the second mesh; shown: {id: {name: value}} instead of the values of the file"""
    how = S.choice('how', [None, 'id', 'df'])
    keep = [dict(c) for c in a['cellboxes']], [dict(c) for c in b['cellboxes']]
    with dtypes(S):
        r, e = S.call(f, a, b, *([how] if how else []))
    S.check(e is None, 'two meshes can be compared')
    if e is not None:
        return None
    S.check(S.And([len(x) == len(y) and S.And([p.keys() == q.keys() and S.And([same(S, p[k], q[k]) for k in p]) for p, q in zip(x, y)]) for x, y in zip((a['cellboxes'], b['cellboxes']), keep)]), 'comparing leaves the meshes alone')
    if how != 'id' and len(r):
        cs = {c['id']: c for c in keep[1]}
        for g, row in r.iterrows():
            c = cs.get(row['id'])
            S.check(c is not None and g == c['geometry'], 'the table shows cells of the second mesh')
            if c is None:
                continue
            for k, x in c.items():
                if k in r.columns and k not in ('id', 'geometry'):
                    S.check(same(S, row[k], dict(shown).get(row['id'], {}).get(k, x)), 'the table shows the values of the second mesh')
    return ids(S, r, how)


def gaps(S):
    """values present or missing in either mesh, possibly everywhere"""
    v, nan = S.real('v', 1, 2), float('nan')
    has = {(m, i): S.flag(f'{m}{i}') for m in 'ab' for i in range(2)}
    d = S.flag('differ')
    y = v + 3 if d else v
    a = [cell(i, p=(v if has['a', i] else nan), q=1.0) for i in range(2)]
    b = [cell(i, p=(y if has['b', i] else nan), q=1.0) for i in range(2)]
    with dtypes(S):
        r, e = S.call(mc.MeshComparator().compare_cellbox_values, mesh(a), mesh(b))
    S.check(e is None, 'two meshes can be compared')
    if e is None:
        want = [str(10 + i) for i in range(2) if has['a', i] != has['b', i] or has['a', i] and d]
        S.check(ids(S, r, 'df') == want, 'exactly the common cells with differing or missing values are reported')
        S.reach('diff' if want else 'same')


def bounds(S):
    """cells of the second that the first does not have"""
    in1 = [S.flag(f'a{i}') for i in range(3)]
    in2 = [S.flag(f'b{i}') for i in range(3)]
    in1[0] = True
    if not any(in2):
        return
    v = S.real('v', 0, 5)
    order = S.flag('rev')
    # the second mesh may be numbered in another way
    num = {i: str(10 + (i + 1) % 3) for i in range(3)} if S.flag('renumbered') else {i: str(10 + i) for i in range(3)}
    c2 = [dict(cell(i, v=v + i), id=num[i]) for i in range(3) if in2[i]]
    if order:
        c2.reverse()
    got = call(S, mc.MeshComparator().compare_cellbox_boundaries, mesh([cell(i, v=1.0) for i in range(3) if in1[i]]), mesh(c2))
    if got is not None:
        S.check(got == sorted(num[i] for i in range(3) if in2[i] and not in1[i]), 'exactly the cells that the first mesh does not have are reported')
        S.reach('ok')


MAG = [-3, 0, 2]


def values(S, n=2, neg=False, lst=0):
    """common cells whose values differ in four significant figures"""
    e = S.choice('mag', MAG)
    from fractions import Fraction
    u = Fraction(10) ** (e - 3) * (-1 if neg else 1)
    num = (lambda v: v * u) if S.symbolic else (lambda v: float(v * float(u)))
    rd = (lambda k: k * u) if S.symbolic else (lambda k: float(k * float(u)))
    a, b, want, shown = [], [], [], {}
    for i in range(n):
        r = None
        if i == 0:
            k1 = S.int('k1', 1000, 9999)
            k2 = S.int('k2', 1000, 9999)
            t1, t2 = S.real('t1', -0.49, 0.49), S.real('t2', -0.49, 0.49)
            S.assume(S.And(k1 + t1 >= 1000, k2 + t2 >= 1000))
            d = not bool(k1 == k2)
            x, y, r = num(k1 + t1), num(k2 + t2), rd(k2)
        else:
            k = S.choice('second', ['same', 'nan', 'both', 'other', 'zero', 'zeronan', 'nanzero'])
            x = y = num(S.int('k3', 1000, 9999)) if k[:4] != 'zero' else 0.0
            d = k in ('nan', 'other', 'zeronan', 'nanzero')
            if k == 'both':
                x = y = float('nan')
            elif k in ('nan', 'zeronan'):
                y = float('nan')
            elif k == 'nanzero':
                x, y = float('nan'), 0.0
            elif k == 'other':
                y = -x
        if lst:
            x, y = [1.0] * (lst - 1) + [x], [1.0] * (lst - 1) + [y]
            r = r if r is None else [1.0] * (lst - 1) + [r]
            if isnan(y[-1]) or isnan(x[-1]):
                return
        a.append(cell(i, v=x, other='text'))
        b.append(cell(i, v=y, other='text'))
        if r is not None:
            shown[str(10 + i)] = {'v': r}
        if d:
            want.append(str(10 + i))
    b.append(cell(5, v=[3.5] * lst if lst else 3.5, other='text'))
    if S.flag('more'):                  # a first mesh with more cells than the second
        a = [cell(20 + k, v=[1.5] * lst if lst else 1.5, other='text') for k in range(3)] + a
    if S.flag('rev'):
        b.reverse()
        for c in b:
            c['late'] = 1.5
    got = call(S, mc.MeshComparator().compare_cellbox_values, mesh(a), mesh(b), shown)
    if got is not None:
        S.check(got == sorted(want), 'exactly the common cells with differing values are reported')
        S.reach('same' if not want else 'diff')


def attributes(S):
    a, b, want = [], [], []
    v = S.real('v', -5, 5)
    for i in range(3):
        k = S.choice(f'k{i}', ['same', 'more', 'less', 'absent', 'other'] if i < 2 else ['same', 'other'])
        a.append(cell(i, p=v, q=2.0))
        if k == 'absent':
            continue
        d = {'p': 1.0, 'q': v}
        if k == 'more':
            d['r'] = 1.0
        elif k == 'less':
            del d['q']
        elif k == 'other':
            d = {'p': 1.0, 'z': v}
        b.append(cell(i, **d))
        if k != 'same':
            want.append(str(10 + i))
    got = call(S, mc.MeshComparator().compare_cellbox_attributes, mesh(a), mesh(b))
    if got is not None:
        S.check(got == sorted(want), 'exactly the common cells with other names of values are reported')
        S.reach('same' if not want else 'diff')


def graph(S):
    D = ['1', '2', '3', '4', '-1', '-2', '-3', '-4']
    g1, g2, want = {}, {}, []
    v = S.real('v', -5, 5)
    for i in range(3):
        n = str(10 + i)
        k = S.choice(f'k{i}', ['same', 'order', 'gone', 'moved', 'new', 'turned'] if i < 2 else ['same', 'moved'])
        d = S.choice(f'd{i}', D) if i == 0 else '2'
        o = D[(D.index(d) + 3) % 8]
        g1[n] = {x: [] for x in D}
        g1[n][d] = [3, 1, 2]
        g2[n] = {x: list(y) for x, y in g1[n].items()}
        if k == 'order':
            g2[n][d] = [1, 2, 3]
        elif k == 'gone':
            g2[n][d] = [3, 1]
        elif k == 'moved':
            g2[n][d] = [3, 1]
            g2[n][o] = [2]
        elif k == 'turned':
            g2[n][d], g2[n][o] = [], [3, 1, 2]
        elif k == 'new':
            g2[n][o] = [9]
        if k not in ('same', 'order'):
            want.append(n)
    g2['15'] = {x: [] for x in D}
    got = call(S, mc.MeshComparator().compare_neighbour_graph_values, mesh([cell(i, v=v + 1) for i in range(3)], g1), mesh([cell(i, v=v) for i in range(3)] + [cell(5, v=v)], g2))
    if got is not None:
        S.check(got == sorted(want), 'exactly the common cells with differing neighbours are reported')
        S.reach('same' if not want else 'diff')


def large(S):
    """60 cells of which 30 differ, up to 14 neighbours in a direction"""
    D = ['1', '2', '3', '4', '-1', '-2', '-3', '-4']
    what = S.choice('what', ['bounds', 'values', 'names', 'graph'])
    v = S.real('v', 1, 2)
    odd = [i for i in range(60) if i % 2]
    a = [cell(i, p=0.5 * i + 1) for i in range(60)]
    b = [cell(i, p=0.5 * i + (2 if what == 'values' and i in odd else 1)) for i in range(60)]
    g1 = {c['id']: {x: [] for x in D} for c in a}
    for i in range(60):
        g1[str(10 + i)]['2'] = list(range(20, 34))
    g2 = {k: {x: list(y) for x, y in m.items()} for k, m in g1.items()}
    m = mc.MeshComparator()
    if what == 'names':
        b = [dict(c, extra=v) if i in odd else c for i, c in enumerate(b)]
    if what == 'graph':
        for i in odd:
            g2[str(10 + i)]['2'][-1 - i % 14] = 99
    if what == 'bounds':
        a = [c for i, c in enumerate(a) if i not in odd]
    f = dict(bounds=m.compare_cellbox_boundaries, values=m.compare_cellbox_values, names=m.compare_cellbox_attributes, graph=m.compare_neighbour_graph_values)[what]
    with dtypes(S):
        r, e = S.call(f, mesh(a, {c['id']: g1[c['id']] for c in a}), mesh(b, g2))
    S.check(e is None, 'two meshes can be compared')
    if e is None:
        S.check(ids(S, r, 'df') == sorted(str(10 + i) for i in odd), 'exactly the cells that differ are reported (large mesh)')
        S.reach(what)


def sigfig(S, s=4, kind='float'):
    """x = (K + t) units of the last figure rounds to K units"""
    e = S.cint('e', -4, 4)
    K = S.int('K', 10 ** (s - 1), 10 ** s - 1)
    t = S.real('t', -0.49, 0.49)
    S.assume(K + t >= 10 ** (s - 1))
    neg = S.flag('neg')
    from fractions import Fraction
    u = Fraction(10) ** (e - s + 1)
    if not S.symbolic:
        u = float(u)
    sg = -1 if neg else 1
    x, want = sg * (K + t) * u, sg * K * u
    if kind == 'float':
        r, ex = S.call(utils.round_to_sigfig, x if S.symbolic else float(x), *([] if s == 5 else [s]))
        got = [r] if ex is None else None
        S.check(ex is None and not isinstance(r, (list, np.ndarray)), 'a number gives a number')
        wants = [want]
    else:
        xs = [0.0, x if S.symbolic else float(x), 0.5] if kind == 'list' else np.array([x, float('inf'), 0.0], dtype=object if S.symbolic else float)
        r, ex = S.call(utils.round_to_sigfig, xs, s)
        S.check(ex is None and isinstance(r, list if kind == 'list' else np.ndarray), 'lists give lists, arrays give arrays')
        got = list(r) if ex is None else None
        wants = [0.0, want, 0.5] if kind == 'list' else [want, float('inf'), 0.0]
    if got is None:
        return
    S.check(len(got) == len(wants), 'one result per number')
    for g, w in zip(got, wants):
        S.check(S.eq(g, w) if not (isinstance(w, float) and w == float('inf')) else g == w, 'a number is rounded to the given significant figures')
    S.reach('ok')


def jobs(tier):
    J = []

    def add(fn, name, reach=('ok',), wit=5, **c):
        J.append(job(__name__, fn, name, cfg=c, reach=list(reach), wit_every=wit))
    add('bounds', 'bounds')
    add('gaps', 'gaps', ('same', 'diff'))
    add('values', 'values', ('same', 'diff'))
    add('values', 'values-neg', ('same', 'diff'), n=1, neg=True)
    add('values', 'values-list', ('same', 'diff'), lst=2)
    add('values', 'values-list-3', ('same', 'diff'), lst=3)
    add('attributes', 'attributes', ('same', 'diff'))
    add('large', 'large', ('bounds', 'values', 'names', 'graph'))
    add('graph', 'graph', ('same', 'diff'), wit=10)
    for s in (1, 4, 5):
        add('sigfig', f'sigfig-{s}', s=s)
    add('sigfig', 'sigfig-list', s=3, kind='list')
    add('sigfig', 'sigfig-array', s=4, kind='array')
    return J

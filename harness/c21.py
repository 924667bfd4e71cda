"""C21 look-up tables of polygons"""
from .common import *
from .data import *
from meshiphi.dataloaders.lut.abstract_lut import LutDataLoader

PROPERTY = dict(
    bounds='a fixed cell and up to three rectangular polygons, each of them any real interval in one direction (disjoint from, touching, overlapping or covering the cell) and across it or lying inside it in the other, or one covering it with a hole of any real interval; values any real or missing; tables of 24 strips with any one edge and two values; tables of 120 strips with any one value (edge); multi-polygons of 40 parts; three holes; '
           'MIN, MAX, MEAN, MEDIAN, STD, COUNT; polygon and multi-polygon rows, repeated time labels; boundary splitting with and without split_lock',
    outside='polygons that are not axis-aligned rectangles; whether a polygon that only touches the cell counts for MIN, MAX, COUNT and boundary splitting; MEDIAN with missing values',
    stubs=[DATA_STUB, NP_STUB, GEOM_STUB], budget=dict(quick=600, thorough=1200))

T0, T1 = '2020-03-01', '2020-03-31'
NAN = float('nan')


class Lut(LutDataLoader):
    def import_data(self, bounds):
        return self._given

    def __init__(self, bounds, params, data):
        self._given = data
        super().__init__(bounds, params)


_TEMPLATE = []


def lut(data, name='v', **kw):
    """a properly constructed loader whose table is replaced by the given one"""
    import copy
    if not _TEMPLATE:
        box = cell().to_polygon()
        _TEMPLATE.append(Lut(cell(), {'dataloader_name': 'lut', 'data_name': 'v'}, pd.DataFrame({'geometry': pd.Series([box], dtype=object), 'v': [1.0]})))
    l = copy.copy(_TEMPLATE[0])
    l.__dict__.update(dict(aggregate_type='MEAN', data=data, data_name=name))
    l.__dict__.update(kw)
    return l


def cell(crossing=False):
    return Boundary([0, 10], [170, -170] if crossing else [0, 10], [T0, T1])


def slab(S, i, axis, crossing=False):
    """polygon spanning the cell in one direction and any interval in the other; (geometry, overlap length)"""
    if axis == 'h':                 # covers the cell except for a hole of any real interval
        a, b = S.real(f'p{i}.lo', -20, 30), S.real(f'p{i}.hi', -20, 30)
        S.assume(b - a >= 1)
        lo = a if a > 0 else 0
        hi = b if b < 10 else 10
        return holeg(S, -40, -5, 40, 15, (a, -3, b, 13)), (10 - (hi - lo) if lo < hi else 10), (a, b)
    if axis == 'f':
        return rectg(S, -5, -5, 15, 5), 5, (-5, 5)
    a, b = S.real(f'p{i}.lo', -20, 30), S.real(f'p{i}.hi', -20, 30)
    S.assume(b - a >= 1)
    lo = a if a > 0 else 0
    hi = b if b < 10 else 10
    ov = hi - lo if lo < hi else 0
    if axis == 'i':                 # may lie inside the cell
        return rectg(S, a, 2, b, 7), ov / 2, (a, b)
    if axis == 'j':
        return rectg(S, 2, a, 7, b), ov / 2, (a, b)
    if axis == 'x':
        return rectg(S, a, -5, b, 15), ov, (a, b)
    return rectg(S, -5, a, 15, b), ov, (a, b)


def touch_only(S, ab):
    return S.Or(ab[0] == 10, ab[1] == 0)


def value(S, agg='MEAN', axes='xy', nan=False, how='config', skipna=False):
    n = len(axes)
    ps = [slab(S, i, ax) for i, ax in enumerate(axes)]
    vs = [S.val(f'v{i}', nan=nan, lo=-50, hi=50) for i in range(n)]
    area = agg in ('MEAN', 'MEDIAN', 'STD')
    if not area:
        for p in ps:
            S.assume(S.Not(touch_only(S, p[2])))
    df = table_of(S, [p[0] for p in ps], v=vs)
    l = lut(df, aggregate_type=agg if how == 'config' else 'MAX' if agg == 'MIN' else 'MIN')
    kw = {}
    if how != 'config':
        kw['agg_type'] = agg
    if how == 'given':
        l.data = table_of(S, [rectg(S, 0, 0, 10, 10)], v=[999.0])
        kw['data'] = df
    if skipna:
        kw['skipna'] = True
    got, e = S.call(l.get_value, cell(), **kw)
    S.check(e is None, f'{agg} is computed')
    if e is not None:
        return
    S.check(list(got) == ['v'], 'the answer is the value under the data name')
    g = got['v']
    ws = [p[1] for p in ps]
    live = [(w, v) for w, v in zip(ws, vs) if not (isinstance(w, int) and w == 0) and w > 0]
    if agg == 'COUNT':
        S.check(S.eq(g, len(live)), 'COUNT is the number of polygons in the cell')
        S.reach('val')
        return
    if skipna:
        live = [(w, v) for w, v in live if not isnan(v)]
    elif any(isnan(v) for _, v in live):
        if agg != 'MEDIAN':
            S.check(isnan(g), 'a missing value inside the cell makes the aggregate missing')
        S.reach('nan')
        return
    if not live:
        S.check(isnan(g), 'without polygons in the cell there is no value')
        S.reach('nan')
        return
    S.reach('val')
    S.observe('v', g)
    if isnan(g):
        S.check(False, 'polygons in the cell give a value')
        return
    if agg in ('MIN', 'MAX'):
        S.check(S.And([S.le(g, v) if agg == 'MIN' else S.le(v, g) for _, v in live] + [S.Or([S.eq(g, v) for _, v in live])]), f'{agg} of the polygons in the cell')
        return
    W = 0
    for w, _ in live:
        W = W + w
    if agg == 'MEAN':
        t = 0
        for w, v in live:
            t = t + w * v
        S.check(S.eq(g * W, t), 'MEAN is weighted by the area inside the cell')
    elif agg == 'MEDIAN':
        S.check(S.Or([S.eq(g, v) for _, v in live]), 'MEDIAN is one of the values')
        below = above = 0
        for w, v in live:
            if v < g:
                below = below + w
            if v > g:
                above = above + w
        S.check(S.And(S.le(below * 2, W), S.le(above * 2, W)), 'at most half the area lies on either side of the MEDIAN')
        if S.symbolic or all(float(x).is_integer() for p in ps for x in p[2]):   # exact in doubles
            S.check(S.lt(below * 2, W), 'MEDIAN is the lowest value reaching half of the area')
    elif agg == 'STD':
        # W^2 g^2 = W * sum w v^2 - (sum w v)^2
        t = q = 0
        for w, v in live:
            t = t + w * v
            q = q + w * v * v
        S.check(S.le(0, g), 'STD is not negative')
        S.check(S.eq(g * g * W * W, q * W - t * t), 'STD is weighted by the area inside the cell')


def hom(S, axes='xy', how='own'):
    n = len(axes)
    ps = [slab(S, i, ax) for i, ax in enumerate(axes)]
    df = table_of(S, [p[0] for p in ps], v=[1.0] * n)
    conds = {'boundary': S.flag('boundary')}
    lock = S.choice('split_lock', ['absent', True, False])
    if lock != 'absent':
        conds['split_lock'] = lock
    l = lut(df)
    kw = {}
    if how == 'given':
        l.data = table_of(S, [rectg(S, 5, 5, 20, 20)], v=[1.0])
        kw['data'] = df
    got, e = S.call(l.get_hom_condition, cell(), conds, **kw)
    S.check(e is None, 'boundary splitting conditions are accepted, with or without split_lock')
    if e is not None:
        return
    for p in ps:
        S.assume(S.Not(S.Or(p[2][0] == 10, p[2][1] == 0, p[2][0] == 0, p[2][1] == 10)))
    meets = S.Or([S.And(p[2][0] < 10, p[2][1] > 0) for p in ps])
    cut = S.Or([S.Or(S.And(p[2][0] > 0, p[2][0] < 10), S.And(p[2][1] > 0, p[2][1] < 10), S.And(ax in 'ij', p[2][0] < 10, p[2][1] > 0)) for p, ax in zip(ps, axes)])
    S.observe('h', got)
    if not meets:
        S.check(got in (('HOM', 'MIN') if lock is True else ('CLR', 'MIN')), 'no polygon in the cell: nothing to split, and split_lock forbids splitting')
        S.reach('none')
    elif conds['boundary'] and cut:
        S.check(got == 'HET', 'a polygon edge inside the cell asks for a split')
        S.reach('het')
    else:
        S.check(got == 'CLR', 'a cell not cut by a polygon edge, or one not to be split at edges, is left alone')
        S.reach('clr')


def hom_hole(S):
    """the edge of a hole is a polygon edge"""
    p = slab(S, 0, 'h')
    a, b = p[2]
    S.assume(S.Not(S.Or(a == 10, b == 0, a == 0, b == 10)))
    conds = {'boundary': S.flag('boundary')}
    lock = S.choice('split_lock', ['absent', True, False])
    if lock != 'absent':
        conds['split_lock'] = lock
    got, e = S.call(lut(table_of(S, [p[0]], v=[1.0])).get_hom_condition, cell(), conds)
    S.check(e is None, 'polygons with holes are accepted')
    if e is not None:
        return
    S.observe('h', got)
    if S.And(a < 0, b > 10):
        S.check(got in (('HOM', 'MIN') if lock is True else ('CLR', 'MIN')), 'a cell in a hole has no polygon: nothing to split, and split_lock forbids splitting')
        S.reach('none')
    elif conds['boundary'] and S.And(a < 10, b > 0):
        S.check(got == 'HET', 'the edge of a hole inside the cell asks for a split')
        S.reach('het')
    else:
        S.check(got == 'CLR', 'a cell not cut by a polygon edge, or one not to be split at edges, is left alone')
        S.reach('clr')


def rows(S, n=2):
    """verify_data: multi-polygons become one row per part, everything else stays as it is"""
    kinds = [S.choice(f'k{i}', ['polygon', 'multi', 'line'] if i == n - 1 else ['polygon', 'multi']) for i in range(n)]
    idx = S.choice('index', ['none', 'unique', 'repeated'])
    vals = [S.real(f'v{i}', -9, 9) for i in range(n)]
    geoms, exp = [], []
    for i, k in enumerate(kinds):
        a = S.real(f'a{i}', -50, 50)
        if k == 'polygon':
            geoms.append(rectg(S, a, 0, a + 1, 2) if i else holeg(S, a, 0, a + 1, 2, (a + 0.25, 0.5, a + 0.5, 1)))
            exp.append((a, i))
        elif k == 'multi':
            second = (a + 5, 0, a + 6, 2)
            geoms.append(multig(S, [(a, 0, a + 1, 2), second if i else holeg(S, *second, (a + 5.25, 0.5, a + 5.5, 1))]))
            exp += [(a, i), (a + 5, i)]
        else:
            geoms.append(lineg(S))
    index = None if idx == 'none' else [f'2020-03-0{i + 1}' for i in range(n)] if idx == 'unique' else ['2020-03-01'] * n
    df = table_of(S, geoms, index, v=vals)
    l = lut(df)
    got, e = S.call(l.verify_data) if S.flag('own') else S.call(l.verify_data, df)
    if 'line' in kinds:
        S.check(isinstance(e, ValueError), 'geometries other than (multi)polygons are refused')
        S.reach('refused')
        return
    S.check(e is None, 'polygons and multi-polygons are accepted')
    if e is not None:
        return
    S.check(len(got) == len(exp), 'one row per polygon')
    if len(got) != len(exp):
        return
    gs, vs = list(got['geometry']), list(got['v'])
    S.check(all(g.geom_type == 'Polygon' for g in gs), 'only polygons are left')
    S.check(S.And([S.eq(g.area, 1.875 if i == 0 and (kinds[0] == 'polygon' or k == 1) else 2) for k, (g, (a, i)) in enumerate(zip(gs, exp))]), 'holes stay holes')
    S.check(S.And([S.And(S.eq(g.bounds[0], a), S.eq(g.bounds[2], a + 1), S.eq(v, vals[i])) for g, v, (a, i) in zip(gs, vs, exp)]), 'every polygon keeps its place and its value')
    S.reach('rows')


def cover(S, axes='x'):
    ps = [slab(S, i, ax) for i, ax in enumerate(axes)]
    if len(axes) == 2:
        # union of two slabs in the same direction
        (a0, b0), (a1, b1) = ps[0][2], ps[1][2]
        lo, hi = (a1 if a1 > 0 else 0), (b1 if b1 < 10 else 10)
        lo0, hi0 = (a0 if a0 > 0 else 0), (b0 if b0 < 10 else 10)
        l2, h2 = (lo if lo > lo0 else lo0), (hi if hi < hi0 else hi0)
        both = h2 - l2 if l2 < h2 else 0
        want = ps[0][1] + ps[1][1] - both
    else:
        want = ps[0][1]
    df = table_of(S, [p[0] for p in ps], v=[1.0] * len(axes))
    l = lut(df)
    how = S.choice('how', ['own', 'frame', 'series'])
    if how != 'own':
        l.data = table_of(S, [rectg(S, 0, 0, 3, 3)], v=[1.0])
    got = l.calculate_coverage(cell()) if how == 'own' else l.calculate_coverage(cell(), df if how == 'frame' else df['geometry'])
    S.check(S.eq(got * 10, want), 'coverage is the fraction of the cell covered by the polygons together')
    S.check(S.eq(l.calculate_coverage(cell(), df.iloc[[]]), 0), 'no polygons cover nothing')


def trimming(S, crossing=False):
    """only the rows meeting the cell within its time range, as they were"""
    ps = [slab(S, i, ax) for i, ax in enumerate('xy')]
    far = rectg(S, 50, 50, 60, 60)
    idx = S.choice('index', ['none', 'time'])
    ts = ['2020-02-29', '2020-03-01', '2020-03-31', '2020-04-01']
    geoms = [ps[0][0], ps[1][0], ps[0][0], far]
    vals = [1.0, 2.0, 3.0, 4.0]
    if idx == 'time':
        ts = [S.choice(f't{i}', ts) for i in range(1)] + ['2020-03-01', '2020-03-31', '2020-03-31']
        order = sorted(range(4), key=lambda i: ts[i])
        geoms, vals, ts = [geoms[i] for i in order], [vals[i] for i in order], [ts[i] for i in order]
    df = table_of(S, geoms, pd.to_datetime(ts) if idx == 'time' else None, v=vals)
    l = lut(df if S.flag('own') else df.iloc[[0]])
    got = l.trim_datapoints(cell(), data=df)
    for p in ps:
        S.assume(S.Not(touch_only(S, p[2])))
    kept = sorted(float(x) for x in got['v'])
    exp = []
    for i, v in enumerate(vals):
        p = {1.0: ps[0], 2.0: ps[1], 3.0: ps[0]}.get(v)
        t_ok = idx == 'none' or T0 <= str(ts[i])[:10] <= T1
        if p is not None and t_ok and S.And(p[2][0] < 10, p[2][1] > 0):
            exp.append(v)
    S.check(kept == sorted(exp), 'exactly the polygons meeting the cell within its time range are kept')
    S.check(len(df) == 4, 'the data set is not changed')


def construct(S):
    """a loader built from a table"""
    a, b = S.choice('p', [(-20, -5), (5, 20), (-3, 12), (12, 15)])
    p = (rectg(S, a, -5, b, 15), None, (a, b))
    v = S.real('v', -9, 9)
    geoms = [p[0], rectg(S, 40, 40, 41, 41)]
    params = {'dataloader_name': 'lut'}
    name = S.choice('name', [None, 'depth', 'colname'])
    if name:
        params['data_name'] = name
    agg = S.choice('agg', [None, 'MIN', 'COUNT'])
    if agg:
        params['aggregate_type'] = agg
    l, e = S.call(Lut, cell(), params, table_of(S, geoms, colname=[v, 5.0]))
    if S.And(p[2][0] < 10, p[2][1] > 0):
        S.check(e is None, 'a table with a polygon in the region is accepted')
        if e is not None:
            return
        S.check(len(l.data) == 1, 'polygons outside the region are dropped')
        got, e = S.call(l.get_value, cell())
        S.check(e is None and list(got) == [name or 'colname'], 'the value is reported under the configured name, else the column name')
        if e is None:
            S.check(S.eq(list(got.values())[0], 1 if agg == 'COUNT' else v), 'the configured aggregate type is used, by default the mean')
        S.reach('ok')
    else:
        S.check(isinstance(e, ValueError), 'a table without polygons in the region is refused')
        S.reach('refused')


def many(S, agg='MEAN'):
    """a table of many strips; the edge of one of them and the value of two are any real numbers"""
    n = 24
    e = S.real('edge', 0, 10)
    S.assume(S.And(e > 7.5, e < 8))                        # the last strip of the cell is cut in two
    vs = [float(i * 5 % 7) for i in range(n)]
    vs[S.choice('where', [0, 11, 15])] = S.real('a', -9, 9)
    vs[16] = S.real('b', -9, 9)
    xs = [i / 2 for i in range(16)] + [e] + [12.0 + i for i in range(8)]
    geoms = [rectg(S, xs[i], -5, xs[i + 1], 15) for i in range(n)]
    df = table_of(S, geoms, v=vs)
    c = Boundary([0, 8], [0, 8], [T0, T1])                 # areas and weights of the strips are exact in doubles
    l = lut(df, aggregate_type=agg)
    if agg == 'cover':
        S.check(S.eq(l.calculate_coverage(c), 1), 'the strips together cover the cell')
        S.check(S.eq(l.calculate_coverage(c, df.iloc[:15]) * 8, 7.5), 'the strips together cover the cell up to their end')
        return
    g = l.get_value(c)['v']
    ws = [0.5] * 15 + [e - 7.5, 8 - e]
    if agg == 'COUNT':
        S.check(S.eq(g, 17), 'COUNT is the number of polygons in the cell')
    elif agg == 'MEAN':
        t = 0
        for w, v in zip(ws, vs):
            t = t + w * v
        S.check(S.eq(g * 8, t), 'MEAN is weighted by the area inside the cell')
    else:
        S.check(S.And([S.le(v, g) for v in vs[:17]] + [S.Or([S.eq(g, v) for v in vs[:17]])]), 'MAX of the polygons in the cell')


def large(S, agg='MEAN'):
    """a table of 120 polygons, 64 or more of them in the cell, one of any value (or edge)"""
    c = Boundary([0, 8], [0, 32], [T0, T1])
    a = S.real('a', -9, 40)
    if agg == 'hom':
        S.assume(S.And(S.Not(a == 0), S.Not(a == 32)))
        geoms = [rectg(S, -50.0 - i, -5, 50.0 + i, 15) for i in range(80)]
        geoms.insert(S.choice('at', [0, 44, 80]), rectg(S, -60.0, -5, a, 15))
        got = lut(table_of(S, geoms, v=[1.0] * 81)).get_hom_condition(c, {'boundary': True})
        S.check(got == ('HET' if S.And(a > 0, a < 32) else 'CLR'), 'the edge of any polygon inside the cell asks for a split')
        return
    if agg == 'rows':
        k = S.choice('k', [12, 40])
        geoms = [multig(S, [(a + 2 * i, 0, a + 2 * i + 1, 2) for i in range(k)])] + [rectg(S, a, 5, a + 1, 6) for i in range(60)]
        got, e = S.call(lut(table_of(S, geoms, v=[0.5] + [float(i) for i in range(60)])).verify_data)
        S.check(e is None and len(got) == 60 + k, 'one row per polygon')
        if e is None and len(got) == 60 + k:
            S.check(S.And([S.And(S.eq(g.bounds[0], a + 2 * i), S.eq(v, 0.5)) for i, (g, v) in enumerate(list(zip(got['geometry'], got['v']))[:k])]), 'every polygon keeps its place and its value')
            S.check(list(got['v'])[k:] == [float(i) for i in range(60)], 'every polygon keeps its place and its value')
        return
    base = [3.0, 1.0, 4.0, 2.0]
    xs = [i / 2 for i in range(65)] + [40.0 + i for i in range(56)]
    geoms = [rectg(S, xs[i], -5, xs[i + 1], 15) for i in range(64)] + [rectg(S, xs[64 + i], -5, xs[65 + i], 15) for i in range(1, 56)]
    vs = [base[i % 4] for i in range(64)] + [99.0] * 55
    at = S.choice('at', [0, 40, 63])
    vs[at] = a
    df = table_of(S, geoms, v=vs)
    l = lut(df, aggregate_type=agg)
    if agg == 'cover':
        n = S.choice('n', [64, 50, 3])
        S.check(S.eq(l.calculate_coverage(c, df.iloc[:n]) * 64, n), 'the strips together cover the cell up to their end')
        return
    g = l.get_value(c)['v']
    inside = vs[:64]
    if agg == 'COUNT':
        S.check(S.eq(g, 64), 'COUNT is the number of polygons in the cell')
    elif agg == 'MEAN':
        t = 0
        for v in inside:
            t = t + v
        S.check(S.eq(g * 64, t), 'MEAN is weighted by the area inside the cell')
    elif agg == 'MEDIAN':
        below = [v for v in inside if v < g]
        upto = [v for v in inside if v <= g]
        S.check(len(below) < 32 <= len(upto) and S.Or([S.eq(g, v) for v in inside]), 'MEDIAN is weighted by the area inside the cell')
    else:
        o = S.le if agg == 'MAX' else lambda p, q: S.le(q, p)
        S.check(S.And([o(v, g) for v in inside] + [S.Or([S.eq(g, v) for v in inside])]), f'{agg} of the polygons in the cell')


def holes(S):
    """the edges of every hole are polygon edges"""
    a, w = S.real('a', -9, 19), S.choice('which', [0, 1, 2])
    S.assume(S.And(S.Not(a == 10), S.Not(a + 1 == 0)))
    hs = [(-30, 2, -28, 4), (-26, 2, -24, 4), (-22, 2, -20, 4)]
    hs[w] = (a, 2, a + 1, 4)
    shell = (-40, -5, 40, 15)
    g = holesg(S, shell, hs)
    S.assume(S.And(S.Not(a == 0), S.Not(a + 1 == 10)))
    got = lut(table_of(S, [g], v=[1.0])).get_hom_condition(cell(), {'boundary': True})
    S.check(got == ('HET' if S.And(a < 10, a + 1 > 0) else 'CLR'), 'the edge of any hole inside the cell asks for a split')
    S.reach(got)


def history(S):
    """one table asked several times: every answer is the one a table asked only that question gives"""
    e = S.real('edge', 1, 9)
    u, v, w = S.real('u', -9, 9), S.real('v', -9, 9), S.real('w', -9, 9)
    box = lambda: [rectg(S, -5, -5, e, 15), rectg(S, e, -5, 15, 15)]
    own = lambda: table_of(S, box(), v=[u, v])
    other = lambda: table_of(S, [rectg(S, -5, -5, 15, 15)], v=[w])
    cells = [cell(), Boundary([0, 10], [0, 5], [T0, T1]), Boundary([20, 30], [0, 10], [T0, T1])]
    lock = S.flag('lock')
    qs = [('get_value', 0, {}), ('get_value', 0, dict(agg_type='MAX')), ('get_value', 1, {}), ('get_value', 2, {}), ('get_value', 0, dict(agg_type='COUNT')),
          ('get_value', 0, dict(data=1)), ('get_value', 0, dict(agg_type='MIN', skipna=True)), ('get_hom_condition', 0, dict(splitting_conds={'boundary': True})),
          ('get_hom_condition', 2, dict(splitting_conds={'boundary': True, 'split_lock': lock})), ('get_hom_condition', 0, dict(splitting_conds={'boundary': False})),
          ('get_hom_condition', 0, dict(splitting_conds={'boundary': True}, data=1)), ('calculate_coverage', 1, {}), ('calculate_coverage', 2, {}), ('calculate_coverage', 1, dict(data=1))]
    k = S.cint('shift', 0, len(qs) - 1)
    l = lut(own())
    for q, c, kw in (qs * 2)[k:k + len(qs) + 1]:
        kw = dict(kw)
        if 'data' in kw:
            kw['data'] = other()
        if 'splitting_conds' in kw:
            kw['splitting_conds'] = dict(kw['splitting_conds'])
        fresh, e0 = S.call(getattr(lut(own()), q), cells[c], **kw)
        got, e1 = S.call(getattr(l, q), cells[c], **kw)
        S.check(e0 is None and e1 is None, 'every question is answered')
        if e0 is not None or e1 is not None:
            return
        if isinstance(got, dict):
            S.check(list(got) == list(fresh) == ['v'], 'the answer is the value under the data name')
            a, b = got['v'], fresh['v']
            S.check(isnan(b) if isnan(a) else S.And(not isnan(b), S.eq(a, b)), 'earlier questions do not change an answer')
            got['v'] = 1e6
        else:
            S.check(got == fresh if isinstance(got, str) else S.eq(got, fresh), 'earlier questions do not change an answer')
    S.reach('asked')


def jobs(tier):
    js = []
    for a in ('MIN', 'MAX', 'MEAN', 'MEDIAN', 'STD', 'COUNT'):
        js.append(job(__name__, 'value', f'value-{a}', cfg=dict(agg=a, axes='xy' if a != 'STD' else 'xf'), reach=['val'], wit_every=6))
        if a != 'COUNT':
            js.append(job(__name__, 'value', f'value-{a}-nan', cfg=dict(agg=a, axes='xy' if a != 'STD' else 'x', nan=True, how='call'), reach=['val', 'nan'], wit_every=6))
            js.append(job(__name__, 'value', f'value-{a}-skipna', cfg=dict(agg=a, axes='xx' if a != 'STD' else 'x', nan=True, skipna=True, how='given'), reach=['val', 'nan'], wit_every=6))
    js.append(job(__name__, 'hom', 'hom', cfg=dict(axes='xy'), reach=['none', 'het', 'clr'], wit_every=10))
    js.append(job(__name__, 'hom', 'hom-given', cfg=dict(axes='y', how='given'), reach=['none', 'het', 'clr'], wit_every=10))
    js.append(job(__name__, 'hom', 'hom-inside', cfg=dict(axes='ix'), reach=['none', 'het', 'clr'], wit_every=10))
    js.append(job(__name__, 'hom', 'hom-inside-given', cfg=dict(axes='j', how='given'), reach=['none', 'het', 'clr'], wit_every=10))
    for a in ('MEAN', 'MEDIAN', 'MAX', 'COUNT', 'STD'):
        js.append(job(__name__, 'value', f'value-inside-{a}', cfg=dict(agg=a, axes='jx' if a != 'STD' else 'if'), reach=['val'], wit_every=6))
    for ax in ('i', 'j'):
        js.append(job(__name__, 'cover', f'cover-inside-{ax}', cfg=dict(axes=ax), wit_every=6))
    js.append(job(__name__, 'hom_hole', 'hom-hole', reach=['none', 'het', 'clr']))
    js.append(job(__name__, 'value', 'value-hole', cfg=dict(agg='MEAN', axes='hf'), reach=['val'], wit_every=6))
    js.append(job(__name__, 'cover', 'cover-hole', cfg=dict(axes='h')))
    js.append(job(__name__, 'rows', 'rows', reach=['rows', 'refused'], wit_every=4))
    for ax in ('x', 'y', 'xx'):
        js.append(job(__name__, 'cover', f'cover-{ax}', cfg=dict(axes=ax), wit_every=6))
    js.append(job(__name__, 'trimming', 'trimming', wit_every=6))
    js.append(job(__name__, 'construct', 'construct', reach=['ok', 'refused'], wit_every=4))
    for a in ('MEAN', 'MAX', 'COUNT', 'cover'):
        js.append(job(__name__, 'many', f'many-{a}', cfg=dict(agg=a), wit_every=2))
    for a in ('MEAN', 'MAX', 'MIN', 'COUNT', 'MEDIAN', 'cover', 'hom', 'rows'):
        js.append(job(__name__, 'large', f'large-{a}', cfg=dict(agg=a), wit_every=2))
    js.append(job(__name__, 'holes', reach=['HET', 'CLR']))
    js.append(job(__name__, 'history', 'history', reach=['asked'], wit_every=8))
    if tier == 'thorough':
        js.append(job(__name__, 'value', 'value-MEAN-3', cfg=dict(agg='MEAN', axes='xyx'), wit_every=20))
        js.append(job(__name__, 'value', 'value-STD-xy', cfg=dict(agg='STD', axes='xy'), wit_every=20))
        js.append(job(__name__, 'rows', 'rows-3', cfg=dict(n=3), wit_every=16))
        js.append(job(__name__, 'hom', 'hom-3', cfg=dict(axes='xyx'), wit_every=50))
        for a in ('MIN', 'MAX', 'MEDIAN', 'COUNT'):
            js.append(job(__name__, 'value', f'value-{a}-3', cfg=dict(agg=a, axes='xyx'), wit_every=50))
    return js

"""C27 from configuration and data to the finished mesh"""
import contextlib
import copy
import itertools
from .common import *
from .data import *
from .c07 import graph_is
from .c16 import is_aggregate, tot
from meshiphi.mesh_generation.mesh_builder import MeshBuilder

PROPERTY = dict(
    bounds='regions of one or two cells of 8 x 8 degrees (regional or crossing the antimeridian), up to three CSV sources (scalar or vector, up to three conditions) with up to six datapoints at fixed positions, each value any real or missing, any real threshold; split depth 0..3 (0..5 where a source is added); '
           'minimum_datapoints 0..4; fill policies; datapoints outside the dates; a source configured or added with add_dataloader before or after building; building once or twice; also 66 initial cells, one value any real',
    outside='larger meshes and more sources; loaders other than the CSV ones (their file formats)',
    stubs=[DATA_STUB, NP_STUB, 'pandas.read_csv returns in-memory tables'], budget=dict(quick=600, thorough=1200))

T0, T1 = '2020-03-01', '2020-03-31'
NAN = float('nan')


@contextlib.contextmanager
def csv(S, files):
    """pd.read_csv reads the given in-memory tables"""
    with csv_files(S, files):
        yield


def region(ncols=1, lon=0, start=T0, end=T1, nrows=1):
    e = lon + 8 * ncols
    return {'lat_min': 0, 'lat_max': 8 * nrows, 'long_min': lon, 'long_max': e if e <= 180 else e - 360, 'start_time': start, 'end_time': end, 'cell_width': 8, 'cell_height': 8}


def config(sources, depth=1, mindp=1, **kw):
    return {'region': region(**kw), 'data_sources': sources, 'splitting': {'split_depth': depth, 'minimum_datapoints': mindp}}


def dom(x):
    return x - 360 if x > 180 else x


def inside(r, p):
    return r[0] < p[0] <= r[1] and r[2] < p[1] <= r[3]


def quarters(r):
    y, x = (r[0] + r[1]) / 2, (r[2] + r[3]) / 2
    return [(y, r[1], r[2], x), (y, r[1], x, r[3]), (r[0], y, r[2], x), (r[0], y, x, r[3])]


class Src:
    """specification of a source: points [(lat, long, value)], long in the unwrapped frame"""
    def __init__(self, pts, cond=None, fill='parent', agg='MEAN', mindp=1):
        self.pts, self.cond, self.fill, self.agg, self.mindp = pts, cond, fill, agg, mindp

    def vals(self, r):
        return [p[2] for p in self.pts if inside(r, p)]

    def answer(self, S, r):
        if self.cond is None:
            return []
        if isinstance(self.cond, list):
            return [a for c in self.cond for a in Src(self.pts, c, self.fill, self.agg, self.mindp).answer(S, r)]
        vs = [v for v in self.vals(r) if not isnan(v)]
        # missing values count as datapoints, but are not over the threshold
        if not vs or len(self.vals(r)) < self.mindp:
            return ['CLR']
        over = sum(1 for v in vs if bool(v > self.cond['threshold']))
        f = over / len(vs)
        if f <= self.cond['lower_bound']:
            return ['CLR']
        if f >= self.cond['upper_bound']:
            return ['HOM' if self.cond.get('split_lock') else 'CLR']
        return ['HET']

    def value(self, S, chain):
        """values whose aggregate the cell has: own, else nearest ancestor's, else none"""
        own = [v for v in self.vals(chain[-1]) if not isnan(v)]
        if own or self.fill != 'parent':
            return own
        for r in reversed(chain[:-1]):
            vs = [v for v in self.vals(r) if not isnan(v)]
            if vs:
                return vs
        return []


def leaves(S, roots, srcs, depth):
    """specification of the refinement: sources in order, each pass refining what the previous one left"""
    cur = [(r,) for r in roots]
    for i, s in enumerate(srcs):
        if s.cond is None:
            continue
        out, todo = [], list(cur)
        while todo:
            ch = todo.pop(0)
            ans = [a for t in srcs[:i + 1] for a in t.answer(S, ch[-1])]
            if len(ch) - 1 < depth and 'HET' in ans and 'HOM' not in ans and 'MIN' not in ans:
                todo += [ch + (q,) for q in quarters(ch[-1])]
            else:
                out.append(ch)
        cur = out
    return cur


def compare(S, env, roots, specs, depth, cfg=None, names=None):
    """env: EnvironmentMesh; specs: {data name: Src}"""
    js = env.to_json()
    exp = leaves(S, roots, list(specs.values()), depth)
    want = {(c[-1][0], c[-1][1], dom(c[-1][2]), dom(c[-1][3])): c for c in exp}
    cells = js['cellboxes']
    S.check(len(cells) == len(want), 'the mesh has the cells its data and limits ask for')
    got = {}
    for c in cells:
        b = [cb for cb in env.agg_cellboxes if str(cb.get_id()) == str(c['id'])]
        if len(b) != 1:
            S.check(False, 'one cell per id')
            return
        bb = b[0].get_bounds()
        k = (bb.get_lat_min(), bb.get_lat_max(), bb.get_long_min(), bb.get_long_max())
        k = tuple(-180 if (x == 180 and i == 2) else 180 if (x == -180 and i == 3) else x for i, x in enumerate(k))
        got[k] = c
    want = {tuple(-180 if (x == 180 and i == 2) else 180 if (x == -180 and i == 3) else x for i, x in enumerate(k)): c for k, c in want.items()}
    S.check(set(got) == set(want), 'the cells are where the data asks for them')
    if set(got) != set(want):
        return
    rects = {}
    for k, c in got.items():
        ch = want[k]
        rects[int(c['id'])] = ch[-1]
        for name, s in specs.items():
            S.check(name in c, 'every cell has a value for every source')
            if name not in c:
                continue
            v = c[name]
            vs = s.value(S, ch)
            if not vs and s.fill not in ('parent',):
                S.check(isnan(v) if isnan(s.fill) else not isnan(v) and S.eq(v, s.fill), 'cells without data have the configured value')
            else:
                S.check(is_aggregate(S, v, vs, s.agg, 1), 'the value of a cell is the aggregate of its data, or of its nearest ancestor with data')
    g = js['neighbour_graph']
    graph_is(S, {int(k): v for k, v in g.items()}, rects, lambda i: i, entry=lambda i: i)
    return js


def column(S, n, nan=(), tag='v'):
    return [S.val(f'{tag}{i}', nan=i in nan, lo=-50, hi=50) for i in range(n)]


POS = [(1, 1), (1, 7), (7, 7), (7, 1), (3, 3), (2, 4)]


def cond(S, th, lock=None, lo=0.1, hi=0.9):
    c = {'threshold': th, 'lower_bound': lo, 'upper_bound': hi}
    if lock is not None:
        c['split_lock'] = lock
    return c


def table(S, pos, lon=0, times=None, **cols):
    return frame(S, [float(p[0]) for p in pos], [dom(float(p[1]) + lon) for p in pos], times, **cols)


def one(S, n=4, depth=1, mindp=1, nan=(0,), fill='parent', agg='MEAN', lon=0, times=False, named=True, lock=None, pos=None, nfiles=1):
    """one scalar CSV source with a splitting condition"""
    pos = (pos or POS)[:n]
    vals = column(S, n, nan)
    th = S.real('th', -50, 50)
    ts, keep = None, [True] * n
    if times:
        ts = [S.choice('t0', ['2020-02-29', T0, T1, '2020-04-01'])] + [['2020-03-15'], [T0], [T1], ['2020-03-02'], ['2020-03-03']][0] * (n - 1)
        keep = [T0 <= t <= T1 for t in ts]
    files = {'data.csv': table(S, pos, lon, ts, SIC=vals)}
    if nfiles == 2:
        files = {'data.csv': table(S, pos[:-2], lon, ts and ts[:-2], SIC=vals[:-2]), 'more.csv': table(S, pos[-2:], lon, ts and ts[-2:], SIC=vals[-2:])}
    name = 'SIC' if named else 'ice'
    params = {'files': list(files), 'splitting_conditions': [{name: cond(S, th, lock)}], 'aggregate_type': agg}
    if not named:
        params['data_name'] = 'ice'
    if fill != 'absent':
        params['value_fill_types'] = fill
    cfg = config([{'loader': 'scalar_csv', 'params': params}], depth, mindp, lon=lon)
    with csv(S, files):
        mb = MeshBuilder(cfg)
        env = mb.build_environmental_mesh()
    pts = [(p[0], p[1] + lon, v) for p, v, k in zip(pos, vals, keep) if k]
    s = Src(pts, cond(S, th, lock), {'absent': 'parent', 'parent': 'parent', '0': 0.0, 'Nan': NAN}.get(fill, fill), agg, mindp)
    js = compare(S, env, [(0, 8, lon, lon + 8)], {name: s}, depth)
    if js:
        r = js['config']['mesh_info']['region'] if 'mesh_info' in js['config'] else js['config']['region']
        S.check((r['start_time'], r['end_time'], r['lat_min'], r['lat_max']) == (T0, T1, 0, 8), 'the mesh carries its configuration')
        S.reach(f"cells{len(js['cellboxes'])}")


def build(S, sources, files, depth, mindp, ncols=1, lon=0):
    with csv(S, files):
        mb = MeshBuilder(config(sources, depth, mindp, ncols=ncols, lon=lon))
        return mb, mb.build_environmental_mesh()


def two(S, depth=1, order='AB', lock=None, both=True, ncols=1, lon=0, mindp=1, nb=2):
    """two sources of different quantities, one of them split-locked"""
    pa, pb = [(1, 1), (7, 7)], [(2, 2), (6, 1)][:nb]
    if ncols == 2:
        pa, pb = [(1, 1), (7, 7), (3, 9)], [(2, 10)]
    va, vb = column(S, len(pa), tag='a'), column(S, len(pb), tag='b', nan=(0,))
    tha, thb = S.real('tha', -50, 50), S.real('thb', -50, 50)
    files = {'a.csv': table(S, pa, lon, SIC=va), 'b.csv': table(S, pb, lon, depth=vb)}
    A = {'loader': 'scalar_csv', 'params': {'file': 'a.csv', 'splitting_conditions': [{'SIC': cond(S, tha)}], 'aggregate_type': 'MEAN'}}
    B = {'loader': 'Scalar_CSV', 'params': {'files': ['b.csv'], 'value_fill_types': '-7.5', 'aggregate_type': 'MEAN'}}
    if both:
        B['params']['splitting_conditions'] = [{'depth': cond(S, thb, lock)}]
    _, env = build(S, [A, B] if order == 'AB' else [B, A], files, depth, mindp, ncols, lon)
    sa = Src([(p[0], p[1] + lon, v) for p, v in zip(pa, va)], cond(S, tha), mindp=mindp)
    sb = Src([(p[0], p[1] + lon, v) for p, v in zip(pb, vb)], cond(S, thb, lock) if both else None, -7.5, mindp=mindp)
    specs = {'SIC': sa, 'depth': sb} if order == 'AB' else {'depth': sb, 'SIC': sa}
    compare(S, env, [(0, 8, lon + 8 * k, lon + 8 * k + 8) for k in range(ncols)], specs, depth)


def deep(S, order='AB'):
    """two sources, three levels"""
    pa, pb = [(0.5, 0.5), (0.75, 0.75)], [(0.25, 0.25), (1.5, 1.5), (6, 6)]
    va, vb = [S.real('a0', -50, 50), 5.0], [S.real('b0', -50, 50), 8.0, S.real('b2', -50, 50)]
    files = {'a.csv': table(S, pa, SIC=va), 'b.csv': table(S, pb, depth=vb)}
    A = {'loader': 'scalar_csv', 'params': {'files': ['a.csv'], 'splitting_conditions': [{'SIC': cond(S, 3.0)}]}}
    B = {'loader': 'scalar_csv', 'params': {'files': ['b.csv'], 'splitting_conditions': [{'depth': cond(S, 2.0, True, 0.1, 0.6)}]}}
    _, env = build(S, [A, B] if order == 'AB' else [B, A], files, 3, 1)
    sa = Src([(p[0], p[1], v) for p, v in zip(pa, va)], cond(S, 3.0))
    sb = Src([(p[0], p[1], v) for p, v in zip(pb, vb)], cond(S, 2.0, True, 0.1, 0.6))
    js = compare(S, env, [(0, 8, 0, 8)], {'SIC': sa, 'depth': sb} if order == 'AB' else {'depth': sb, 'SIC': sa}, 3)
    if js:
        S.reach(f"cells{len(js['cellboxes'])}")


def conds(S, depth=1):
    """a source with three conditions"""
    pos = [(1, 1), (7, 7), (1, 7)]
    vals = column(S, 3)
    ths = [S.real(f'th{i}', -50, 50) for i in range(3)]
    cs = [cond(S, ths[0]), cond(S, ths[1], True, 0.5, 0.6), cond(S, ths[2], None, 0.4, 0.9)]
    files = {'a.csv': table(S, pos, SIC=vals)}
    _, env = build(S, [{'loader': 'scalar_csv', 'params': {'files': ['a.csv'], 'splitting_conditions': [{'SIC': c} for c in cs]}}], files, depth, 1)
    js = compare(S, env, [(0, 8, 0, 8)], {'SIC': Src([(p[0], p[1], v) for p, v in zip(pos, vals)], [dict(c) for c in cs])}, depth)
    if js:
        S.reach(f"cells{len(js['cellboxes'])}")


def three(S, depth=1):
    """three sources with a condition each"""
    ps = [[(1, 1), (7, 7)], [(1, 7), (7, 1)], [(3, 3), (6, 6)]]
    srcs, files, specs = [], {}, {}
    for i, (pos, n) in enumerate(zip(ps, 'abc')):
        vals = [S.real(f'{n}0', -50, 50), 7.0]
        c = cond(S, 7.0 - i, i == 1, 0.1, 0.9)
        files[f'{n}.csv'] = table(S, pos, **{n: vals})
        srcs.append({'loader': 'scalar_csv', 'params': {'files': [f'{n}.csv'], 'splitting_conditions': [{n: c}]}})
        specs[n] = Src([(p[0], p[1], v) for p, v in zip(pos, vals)], dict(c))
    _, env = build(S, srcs, files, depth, 1)
    js = compare(S, env, [(0, 8, 0, 8)], specs, depth)
    if js:
        S.reach(f"cells{len(js['cellboxes'])}")


def overlap(S, depth=1):
    """two sources of the same quantity: the first with a value wins"""
    pa, pb = [(1, 1)], [(2, 2), (7, 7)]
    va, vb = column(S, 1, tag='a', nan=(0,)), column(S, 2, tag='b')
    th = S.real('th', -50, 50)
    files = {'a.csv': table(S, pa, SIC=va), 'b.csv': table(S, pb, SIC=vb)}
    A = {'loader': 'scalar_csv', 'params': {'files': ['a.csv'], 'value_fill_types': 'Nan'}}
    B = {'loader': 'scalar_csv', 'params': {'files': ['b.csv'], 'splitting_conditions': [{'SIC': cond(S, th)}]}}
    _, env = build(S, [A, B], files, depth, 1)
    sb = Src([(p[0], p[1], v) for p, v in zip(pb, vb)], cond(S, th))
    sa = Src([(p[0], p[1], v) for p, v in zip(pa, va)], None, NAN)
    exp = leaves(S, [(0, 8, 0, 8)], [sb], depth)
    S.check(len(env.agg_cellboxes) == len(exp), 'the mesh has the cells its data and limits ask for')
    for c in env.agg_cellboxes:
        b = c.get_bounds()
        r = (b.get_lat_min(), b.get_lat_max(), b.get_long_min(), b.get_long_max())
        ch = [x for x in exp if x[-1] == r]
        if not ch:
            S.check(False, 'the cells are where the data asks for them')
            return
        first = sa.value(S, ch[0])
        v = c.get_agg_data().get('SIC')
        S.check(is_aggregate(S, v, first or sb.value(S, ch[0]), 'MEAN', 1), 'the first source with a value for the cell wins')


def vectors(S, depth=1, fill='parent', agg='MEAN', nfiles=1):
    """a vector source next to a scalar one that drives the splitting"""
    pa = [(1, 1), (7, 7)]
    va = column(S, 2, tag='a')
    th = S.real('th', -50, 50)
    pv = [(1, 1), (2, 2), (6, 7)]
    if agg == 'MEAN':
        us, ws = column(S, 3, tag='u', nan=(2,)), column(S, 3, tag='w')
    else:
        # known directions, any length
        m = [S.real(f'm{i}', 0, 9) for i in range(3)]
        us, ws = [3 * m[0], -4 * m[1], 3 * m[2]], [4 * m[0], 3 * m[1], -4 * m[2]]
    cut = 1 if nfiles == 2 else 3
    files = {'a.csv': table(S, pa, SIC=va), 'v.csv': table(S, pv[:cut], uC=us[:cut], vC=ws[:cut])}
    if nfiles == 2:
        files['w.csv'] = table(S, pv[1:], uC=us[1:], vC=ws[1:])
    A = {'loader': 'scalar_csv', 'params': {'files': ['a.csv'], 'splitting_conditions': [{'SIC': cond(S, th)}]}}
    V = {'loader': 'vector_csv', 'params': {'files': sorted(f for f in files if f != 'a.csv'), 'data_name': 'uC,vC', 'aggregate_type': agg}}
    if fill != 'parent':
        V['params']['value_fill_types'] = fill
    _, env = build(S, [A, V], files, depth, 1)
    f = 'parent' if fill == 'parent' else float(fill)
    sa = Src([(p[0], p[1], v) for p, v in zip(pa, va)], cond(S, th))
    if agg == 'MEAN':
        specs = {'SIC': sa, 'uC': Src([(p[0], p[1], v) for p, v in zip(pv, us)], None, f), 'vC': Src([(p[0], p[1], v) for p, v in zip(pv, ws)], None, f)}
        compare(S, env, [(0, 8, 0, 8)], specs, depth)
        return
    sv = Src([(p[0], p[1], i) for i, p in enumerate(pv)], None, f)
    compare(S, env, [(0, 8, 0, 8)], {'SIC': sa}, depth)
    for c in env.agg_cellboxes:
        b = c.get_bounds()
        r = (b.get_lat_min(), b.get_lat_max(), b.get_long_min(), b.get_long_max())
        ch = [x for x in leaves(S, [(0, 8, 0, 8)], [sa], depth) if x[-1] == r]
        if not ch:
            continue
        idx = sv.value(S, ch[0])
        gu, gw = c.get_agg_data()['uC'], c.get_agg_data()['vC']
        if not idx:
            S.check(S.And(S.eq(gu, f), S.eq(gw, f)), 'cells without vectors have the configured value')
            continue
        S.check(S.Or([S.And([S.eq(gu, us[i]), S.eq(gw, ws[i])] + [S.le(m[j], m[i]) if agg == 'MAX' else S.le(m[i], m[j]) for j in idx]) for i in idx]),
                'the value of a cell is its vector of extreme magnitude')


class Given(Scal):
    """a user-defined loader class handed to add_dataloader"""
    def __init__(self, bounds, params):
        self._given = Given.table
        ScalarDataLoaderInit(self, bounds, params)


def ScalarDataLoaderInit(self, bounds, params):
    from meshiphi.dataloaders.scalar.abstract_scalar import ScalarDataLoader
    ScalarDataLoader.__init__(self, bounds, params)


def added(S, when='before', depth=1, fill='parent', cond_on='file', mindp=5, ncols=1):
    """add_dataloader gives the mesh the same values a configured source would"""
    pa, pb = [(1, 1), (7, 7)], [(2, 2), (7, 6)]
    if ncols == 2:
        pb = [(2, 2), (7, 14)]
    va, vb = column(S, 2, tag='a'), column(S, 2, tag='b', nan=(1,))
    th = S.real('th', -50, 50)
    files = {'a.csv': table(S, pa, SIC=va)}
    A = {'loader': 'scalar_csv', 'params': {'files': ['a.csv']}}
    if cond_on == 'file':
        A['params']['splitting_conditions'] = [{'SIC': cond(S, th)}]
    Given.table = table(S, pb, extra=vb)
    params = {'value_fill_types': fill} if fill != 'absent' else {}
    if cond_on == 'added':
        params['splitting_conditions'] = [{'extra': cond(S, th)}]
        params['min_dp'] = 1
    f = {'absent': 'parent', '3': 3.0}.get(fill, fill)
    with csv(S, files):
        mb = MeshBuilder(config([A], depth, 1, ncols=ncols))
        if when == 'after':
            mb.build_environmental_mesh()
        mb2 = mb.add_dataloader(Given, params, name='mine')
        S.check(mb2 is mb, 'the builder itself is returned')
        env = mb.build_environmental_mesh()
    sa = Src([(p[0], p[1], v) for p, v in zip(pa, va)], cond(S, th) if cond_on == 'file' else None)
    sb = Src([(p[0], p[1], v) for p, v in zip(pb, vb)], cond(S, th) if cond_on == 'added' else None, f)
    compare(S, env, [(0, 8, 8 * k, 8 * k + 8) for k in range(ncols)], {'SIC': sa, 'extra': sb}, depth)


def added_deep(S, when='after'):
    """a source added to a mesh of deep cells"""
    pa, pb = [(k / 8, k / 8) for k in (1, 3, 6, 12, 24, 48)], [(5 / 16, 1 / 16), (6, 6), (1.5, 0.5)]
    va, vb = [S.real('a', 0, 100), 0.0, 100.0, 0.0, 100.0, 0.0], [S.val('b', nan=True, lo=-9, hi=9), 2.0, 7.0]
    depth, c = 5, cond(S, 50.0)
    A = {'loader': 'scalar_csv', 'params': {'files': ['a.csv'], 'splitting_conditions': [{'SIC': c}]}}
    Given.table = table(S, pb, extra=vb)
    with csv(S, {'a.csv': table(S, pa, SIC=va)}):
        mb = MeshBuilder(config([A], depth, 1))
        if when == 'after':
            mb.build_environmental_mesh()
        mb.add_dataloader(Given, {}, name='mine')
        env = mb.build_environmental_mesh()
    compare(S, env, [(0, 8, 0, 8)], {'SIC': Src([(p[0], p[1], v) for p, v in zip(pa, va)], c), 'extra': Src([(p[0], p[1], v) for p, v in zip(pb, vb)], None)}, depth)
    S.reach(f'n{len(env.agg_cellboxes)}')


def twice(S, depth=1):
    """building again gives the same mesh"""
    vals = column(S, 3, (0,))
    th = S.real('th', -50, 50)
    files = {'data.csv': table(S, POS[:3], SIC=vals)}
    cfg = config([{'loader': 'scalar_csv', 'params': {'files': ['data.csv'], 'splitting_conditions': [{'SIC': cond(S, th)}]}}], depth, 1)
    with csv(S, files):
        mb = MeshBuilder(cfg)
        mb.build_environmental_mesh()
        env = mb.build_environmental_mesh()
    compare(S, env, [(0, 8, 0, 8)], {'SIC': Src([(p[0], p[1], v) for p, v in zip(POS, vals)], cond(S, th))}, depth)


def large(S, lon=0):
    """66 initial cells, one of them deciding"""
    nc, nr, depth = 11, 6, 2
    at = S.choice('at', [1, 45, 65])
    r, c = divmod(at, nc)
    pos, vals = [], []
    for i in range(nc * nr):
        if i % 3 != 2 or i == at:
            pos.append((8 * (i // nc) + 1, 8 * (i % nc) + 1))
            vals.append(float(i % 7))
    a = S.real('a', -50, 50)
    pos += [(8 * r + 3, 8 * c + 3), (8 * r + 7, 8 * c + 7)]
    vals += [a, 2.5]
    files = {'data.csv': table(S, pos, lon, SIC=vals)}
    th = 100.0 if at == 45 else 3.25
    cfg = config([{'loader': 'scalar_csv', 'params': {'files': list(files), 'splitting_conditions': [{'SIC': cond(S, th)}]}}], depth, 1, lon=lon, ncols=nc, nrows=nr)
    with csv(S, files):
        env = MeshBuilder(cfg).build_environmental_mesh()
    s = Src([(p[0], p[1] + lon, v) for p, v in zip(pos, vals)], cond(S, th))
    compare(S, env, [(8 * y, 8 * y + 8, lon + 8 * x, lon + 8 * x + 8) for y in range(nr) for x in range(nc)], {'SIC': s}, depth)
    S.reach('ok')


def jobs(tier):
    J = []

    def add(fn, name, reach=None, wit=4, **cfg):
        J.append(job(__name__, fn, name, cfg=cfg, wit_every=wit, **({'reach': reach} if reach else {})))
    add('one', 'one', n=4, depth=1, reach=['cells1', 'cells4'])
    add('one', 'one-depth2', n=3, depth=2, nan=(), pos=((1, 1), (3, 3), (7, 7)), reach=['cells1', 'cells4', 'cells7'])
    add('one', 'one-depth0', n=2, depth=0)
    add('added_deep', 'added-deep', reach=['n13', 'n16'])
    add('added_deep', 'added-deep-before', when='before', reach=['n13', 'n16'])
    for m in (2, 3):
        add('one', f'one-min{m}', n=4, depth=2, mindp=m, nan=(), pos=((1, 1), (2, 3), (3, 2), (7, 7)), wit=8)
    add('one', 'one-fill0', n=3, depth=1, fill='0')
    add('one', 'one-fillnan', n=3, depth=1, fill='Nan', nan=(1,))
    add('one', 'one-crossing', n=3, depth=1, lon=176)
    add('one', 'one-times', n=3, depth=1, times=True, nan=())
    add('one', 'one-files', n=4, depth=1, nfiles=2, nan=(), pos=((1, 1), (7, 7), (1, 1), (1, 1)))
    add('one', 'one-files-times', n=3, depth=1, nfiles=2, times=True, nan=(1,), pos=((1, 1), (1, 1), (7, 7)))
    add('one', 'one-renamed', n=2, depth=1, named=False, agg='MAX')
    add('one', 'one-min', n=3, depth=1, agg='MIN', nan=())
    add('two', 'two-AB', order='AB', lock=True)
    add('two', 'two-BA', order='BA', lock=True)
    add('two', 'two-nolock', order='AB', lock=False)
    add('two', 'two-one-cond', order='BA', both=False)
    add('two', 'two-cols', order='AB', ncols=2, both=False, depth=1)
    add('two', 'two-cols-crossing', order='AB', ncols=2, both=False, lon=172, depth=1)
    add('two', 'two-min2', order='BA', lock=True, mindp=2)
    add('two', 'two-min2-1', order='BA', lock=True, mindp=2, nb=1)
    add('deep', 'deep', wit=1, reach=['cells10'])
    add('deep', 'deep-BA', wit=1, order='BA')
    add('overlap', 'overlap')
    add('vectors', 'vectors', wit=8)
    add('vectors', 'vectors-fill', fill='2.5', agg='MAX', wit=8)
    add('vectors', 'vectors-files', agg='MIN', nfiles=2, wit=8)
    for w in ('before', 'after'):
        add('added', f'added-{w}', when=w)
        add('added', f'added-{w}-fill', when=w, fill='3')
        add('added', f'added-{w}-cond', when=w, cond_on='added')
        add('added', f'added-{w}-cols', when=w, cond_on='added', ncols=2)
    add('one', 'one-min-nan', n=3, depth=1, mindp=3, nan=(0, 1))
    add('one', 'one-min0', n=3, depth=1, mindp=0, nan=(0,))
    add('conds', 'conds', reach=['cells1', 'cells4'])
    add('three', 'three', reach=['cells1', 'cells4'], depth=2)
    add('two', 'two-cols-both', order='BA', ncols=2, lock=False, wit=8)
    add('twice', 'twice')
    add('large', 'large', reach=['ok'])
    if tier == 'thorough':
        add('one', 'one-6', n=6, depth=2, nan=(0,), wit=40)
        add('one', 'one-times2', n=4, depth=2, times=True, wit=40)
        add('two', 'two-depth2', order='AB', lock=True, depth=2, wit=40)
        add('two', 'two-cols2', order='BA', ncols=2, both=True, lock=True, depth=2, wit=40)
        add('added', 'added-after2', when='after', depth=2, cond_on='added', wit=40)
        add('twice', 'twice2', depth=2, wit=20)
    return J

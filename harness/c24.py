"""C24 validation of meshes against their data"""
import json
import os
import shutil
import tempfile
import types
from .common import *
from .data import *
from .c27 import csv, config, dom
from meshiphi.mesh_validation import full_mesh_validator as fm
from meshiphi.mesh_validation import mesh_validator as mv
from meshiphi.mesh_validation import sampler as sm
from meshiphi.mesh_generation.aggregated_cellbox import AggregatedCellBox
from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh
from meshiphi.mesh_generation.neighbour_graph import NeighbourGraph

PROPERTY = dict(
    bounds='full validation: meshes of one or two cells of any real size (also across the antimeridian) and up to three datapoints anywhere with any real values, scalar or vector (deviations in a fixed direction); '
           'sampled validation: meshes built from up to four datapoints at any real positions, one or two samples anywhere in the mesh; three sources; eight datapoints on edges, at the pole, at one place, with missing values; sampling: any real ranges of one to three dimensions; also 250 datapoints in 48 cells, one value any real',
    outside='vector data in sampled validation (not supported by the code); missing values in sampled validation; validation without any datapoint; the distribution of the Sobol sequence',
    stubs=[DATA_STUB, NP_STUB, GEOM_STUB, 'scipy Sobol points replaced by any points of the unit cube', 'mean_squared_error replaced by the exact mean of squares (replays use scikit-learn)', 'pandas.read_csv returns in-memory tables'],
    budget=dict(quick=600, thorough=900))


def holds(S, r, p):
    """datapoint p belongs to cell r (unwrapped longitudes), excluding the lower edges"""
    return S.And(p[0] > r[0], p[0] <= r[1], S.Or(S.And(p[1] > r[2], p[1] <= r[3]), S.And(r[3] > 180, p[1] + 360 > r[2], p[1] + 360 <= r[3])))


def absv(x):
    return x if x >= 0 else -x


def cells(S, n, crossing):
    """n cells side by side in longitude"""
    y0, y1 = S.real('y0', -80, 80), S.real('y1', -80, 80)
    S.assume(y0 < y1)
    xs = [S.real(f'x{i}', 0 if crossing else -180, 359 if crossing else 180) for i in range(n + 1)]
    for a, b in zip(xs, xs[1:]):
        S.assume(a < b)
    if crossing:
        S.assume(S.And(xs[0] < 180, xs[-1] > 180, xs[-1] - xs[0] < 300))
        for x in xs[1:-1]:
            S.assume(S.Or(x < 180, x > 180))
    return [(y0, y1, xs[i], xs[i + 1]) for i in range(n)]


def full(S, n=1, npts=2, vec=False, crossing=False, vary='x'):
    rs = cells(S, n, crossing)
    names = ['uC', 'vC'] if vec else ['m']
    vals = [[S.real(f'c{i}{nm}', -10, 10) for nm in names] if not vec or i == 0 else [1.0, -2.0] for i in range(n)]
    boxes = [AggregatedCellBox(Boundary([r[0], r[1]], [r[2], dom(r[3]) if crossing else r[3]] if dom(r[2]) is r[2] else [dom(r[2]), dom(r[3])]), {k: v for k, v in zip(names, vs)}, str(i)) for i, (r, vs) in enumerate(zip(rs, vals))]
    cfg = {'region': {'lat_min': -80.0, 'lat_max': 80.0, 'long_min': -180.0, 'long_max': 180.0, 'start_time': '2020-01-01', 'end_time': '2020-02-01', 'cell_width': 5, 'cell_height': 5}}
    ng = NeighbourGraph()
    ng.neighbour_graph = {str(i): {} for i in range(n)}
    js = EnvironmentMesh(Boundary([-80.0, 80.0], [-180.0, 180.0]), boxes, ng, cfg).to_json()
    pts = []
    for i in range(npts):
        if vary == 'x':
            pts.append((0.0 if i else S.real('py', -80, 80), S.real(f'px{i}', -180, 180)))
        else:
            pts.append((S.real(f'py{i}', -80, 80), 10.0))
    # which cell has which point
    own = []
    for p in pts:
        k = [i for i, r in enumerate(rs) if holds(S, r, p)]
        S.check(len(k) <= 1, 'specification: cells are disjoint')
        own.append(k[0] if k else None)
    if vec:
        ts = [S.real(f't{i}', -4, 4) for i in range(npts)]
        us = [vals[k or 0][0] + 3 * t for k, t in zip(own, ts)]
        vs = [vals[k or 0][1] + 4 * t for k, t in zip(own, ts)]
        df = frame(S, [p[0] for p in pts], [p[1] for p in pts], su=us, sv=vs)
        dev = [5 * absv(t) for k, t in zip(own, ts) if k is not None]
    else:
        ws = [S.real(f'w{i}', -20, 20) for i in range(npts)]
        df = frame(S, [p[0] for p in pts], [p[1] for p in pts], s=ws)
        dev = [absv(w - vals[k][0]) for k, w in zip(own, ws) if k is not None]
    keep = df.copy()
    V, e = S.call(fm.FullMeshValidator, js, df)
    S.check(e is None, 'a mesh and its data can be validated')
    if e is not None:
        return
    res, e = S.call(V.validate_vector, ['su', 'sv'], names) if vec else S.call(V.validate_scalar, 's', 'm')
    if not dev:
        S.reach('none')
        return                              # nothing to compare
    S.check(e is None, 'a mesh and its data can be validated')
    if e is not None:
        return
    a, b = ('mean_d_vector_mag', 'root_mean_squared_d_vector_mag') if vec else ('mean_err', 'root_mean_squared_err')
    S.check(set(res) == {'cellbox_count', a, b} and res['cellbox_count'] == n, 'the number of cells and the two deviations are reported')
    k = len(dev)
    S.check(S.eq(res[a] * k, sum(dev)), 'the mean deviation is that of all datapoints from the cells they belong to, each counted once')
    S.check(S.And(res[b] >= 0, S.eq(res[b] * res[b] * k, sum(d * d for d in dev))), 'the root mean squared deviation is that of all datapoints')
    S.check(list(df.columns) == list(keep.columns) and len(df) == len(keep), 'the data stay as they are')
    S.reach('ok')


def many(S, vec=False):
    """more datapoints: several at one place, on the edges, at the pole, with missing values"""
    rs = [(70.0, 90.0, 160.0, 180.0), (70.0, 90.0, -180.0, -170.0), (0.0, 70.0, 160.0, 180.0)]
    names = ['uC', 'vC'] if vec else ['m']
    gone = S.choice('gone', ['', 'cell', 'point', 'both'])
    vals = [[S.real('c0', -10, 10), 1.0][:len(names)], [float('nan') if gone in ('cell', 'both') else 2.0, -2.0][:len(names)], [0.0, 3.0][:len(names)]]
    boxes = [AggregatedCellBox(Boundary([r[0], r[1]], [r[2], r[3]]), dict(zip(names, vs)), str(i)) for i, (r, vs) in enumerate(zip(rs, vals))]
    cfg = {'region': {'lat_min': 0.0, 'lat_max': 90.0, 'long_min': 160.0, 'long_max': -170.0, 'start_time': '2020-01-01', 'end_time': '2020-02-01', 'cell_width': 5, 'cell_height': 5}}
    ng = NeighbourGraph()
    ng.neighbour_graph = {str(i): {} for i in range(3)}
    js = EnvironmentMesh(Boundary([0.0, 90.0], [160.0, -170.0]), boxes, ng, cfg).to_json()
    pts = [(90.0, 180.0, 0), (80.0, 170.0, 0), (80.0, 170.0, 0), (90.0, -175.0, 1), (70.0, 170.0, 2), (75.0, -170.0, 1), (70.0, -175.0, None), (20.0, 160.0, None)]
    same = S.flag('same')
    ws = [S.real('w0', -20, 20), S.choice('w1', [1.0, 4.0])]
    ws += [ws[1] if same else ws[0], 5.0, float('nan') if gone in ('point', 'both') else 2.5, -3.0, 7.0, 8.0]
    cols = dict(note=[1.0, float('nan'), float('nan')] + [2.0] * 5)
    if vec:
        cols['su'] = [(vals[k or 0][0] if vals[k or 0][0] == vals[k or 0][0] else 0.0) + 3 * w for w, (_, _, k) in zip(ws, pts)]
        cols['sv'] = [vals[k or 0][1] + 4 * (w if w == w else 1.0) for w, (_, _, k) in zip(ws, pts)]
    else:
        cols['s'] = ws
    df = frame(S, [p[0] for p in pts], [p[1] for p in pts], **cols)
    # a missing value of a cell or datapoint is no deviation
    use = [i for i, (_, _, k) in enumerate(pts) if k is not None and vals[k][0] == vals[k][0] and ws[i] == ws[i]]
    dev = [5 * absv(ws[i]) if vec else absv(ws[i] - vals[pts[i][2]][0]) for i in use]
    V, e = S.call(fm.FullMeshValidator, js, df)
    S.check(e is None, 'a mesh and its data can be validated')
    if e is not None:
        return
    for again in range(2):                      # asked for twice
        res, e = S.call(V.validate_vector, ['su', 'sv'], names) if vec else S.call(V.validate_scalar, 's', 'm')
        S.check(e is None, 'a mesh and its data can be validated')
        if e is not None:
            return
        a, b = ('mean_d_vector_mag', 'root_mean_squared_d_vector_mag') if vec else ('mean_err', 'root_mean_squared_err')
        S.check(res['cellbox_count'] == 3, 'the number of cells is reported')
        k = len(dev)
        S.check(S.eq(res[a] * k, sum(dev)), 'the mean deviation is that of all datapoints from the cells they belong to, each counted once')
        S.check(S.And(res[b] >= 0, S.eq(res[b] * res[b] * k, sum(d * d for d in dev))), 'the root mean squared deviation is that of all datapoints')
        S.check(set(df.columns) == {'lat', 'long'} | set(cols) and len(df) == len(pts), 'the data stay as they are')
    S.reach('ok')


def large(S, vec=False):
    """250 datapoints in and around 48 cells"""
    rs = [(2.0 * (i // 8), 2.0 * (i // 8) + 2, 4.0 * (i % 8), 4.0 * (i % 8) + 4) for i in range(48)]
    names = ['uC', 'vC'] if vec else ['m']
    vals = [[0.5 * i, 1.0][:len(names)] for i in range(48)]
    k0 = S.choice('cell', [0, 47])
    vals[k0][0] = S.real('c', -10, 10)
    cfg = {'region': {'lat_min': 0.0, 'lat_max': 12.0, 'long_min': 0.0, 'long_max': 32.0, 'start_time': '2020-01-01', 'end_time': '2020-02-01', 'cell_width': 4, 'cell_height': 2}}
    ng = NeighbourGraph()
    ng.neighbour_graph = {str(i): {} for i in range(48)}
    js = EnvironmentMesh(Boundary([0.0, 12.0], [0.0, 32.0]), [AggregatedCellBox(Boundary([r[0], r[1]], [r[2], r[3]]), dict(zip(names, v)), str(i)) for i, (r, v) in enumerate(zip(rs, vals))], ng, cfg).to_json()
    pts, own = [], []
    for i in range(250):
        y, x = 0.5 + (i * 7 % 26) * 0.5, 1.0 + (i * 11 % 34)
        pts.append((y, x))
        c = [k for k, r in enumerate(rs) if r[0] < y <= r[1] and r[2] < x <= r[3]]
        own.append(c[0] if c else None)
    ts = [float(i % 5) for i in range(250)]
    ts[0], ts[249] = S.real('t0', -4, 4), S.choice('t1', [0.0, 2.0])
    if vec:
        df = frame(S, [p[0] for p in pts], [p[1] for p in pts], su=[vals[k or 0][0] + 3 * t for k, t in zip(own, ts)], sv=[vals[k or 0][1] + 4 * t for k, t in zip(own, ts)])
        dev = [5 * absv(t) for k, t in zip(own, ts) if k is not None]
    else:
        df = frame(S, [p[0] for p in pts], [p[1] for p in pts], s=[vals[k or 0][0] + t for k, t in zip(own, ts)])
        dev = [absv(t) for k, t in zip(own, ts) if k is not None]
    V = fm.FullMeshValidator(js, df)
    res, e = S.call(V.validate_vector, ['su', 'sv'], names) if vec else S.call(V.validate_scalar, 's', 'm')
    S.check(e is None, 'a mesh and its data can be validated')
    if e is not None:
        return
    a, b = ('mean_d_vector_mag', 'root_mean_squared_d_vector_mag') if vec else ('mean_err', 'root_mean_squared_err')
    S.check(res['cellbox_count'] == 48, 'the number of cells is reported')
    n = len(dev)
    d1, d2 = res[a] * n - sum(dev), res[b] * res[b] * n - sum(d * d for d in dev)
    S.check(S.And(d1 <= 1e-6, d1 >= -1e-6), 'the mean deviation is that of all datapoints from the cells they belong to, each counted once (many datapoints)')
    S.check(S.And(res[b] >= 0, d2 <= 1e-5, d2 >= -1e-5), 'the root mean squared deviation is that of all datapoints (many datapoints)')
    S.reach('ok')


def columns(S):
    js = {'config': {'mesh_info': {'region': {'lat_min': 0, 'lat_max': 1, 'long_min': 0, 'long_max': 1, 'start_time': '2020-01-01', 'end_time': '2020-02-01'}}}, 'cellboxes': [], 'neighbour_graph': {}}
    cols = ['lat', 'long', 'v']
    drop = S.choice('drop', [None, 'lat', 'long', 'v'])
    df = pd.DataFrame({c: [S.real('x', 0, 1)] for c in cols if c != drop})
    _, e = S.call(fm.FullMeshValidator, js, df)
    S.check(isinstance(e, ValueError) if drop in ('lat', 'long') else e is None, 'data without positions are refused')
    S.reach(str(drop))


def sampled(S, npts=2, nsamp=1, split=False, crossing=False, vary='x', deep=False):
    """MeshValidator on a mesh built from a CSV source"""
    lon0 = 176 if crossing else 0
    pos = []
    for i in range(npts):
        y, x = 1.0 + 2 * i, 1.5 + 2 * i
        if i == 0:
            if vary == 'x':
                x = S.real('p0', 0.5, 8)
            else:
                y = S.real('p0', 0.5, 8)
        pos.append((y, x + lon0))
    ws = [S.real(f'w{i}', -20, 20) if not split else float(7 * i * i % 5) for i in range(npts)]
    df = frame(S, [p[0] for p in pos], [dom(p[1]) for p in pos], v=ws)
    par = {'files': ['f.csv'], 'data_name': 'v'}
    if split:
        par['splitting_conditions'] = [{'v': {'threshold': 2.5, 'lower_bound': 0.01, 'upper_bound': 0.99}}]
    cfg = config([{'loader': 'scalar_csv', 'params': par}], depth=1, mindp=1, lon=lon0)
    d = tempfile.mkdtemp(prefix='c24')
    real = mv.Sampler, mv.mean_squared_error
    smp = []
    for i in range(nsamp):
        if i == 0:
            smp.append((0.5, lon0 + S.real('sx', 0, 7.99)) if vary == 'x' else (S.real('sy', 0, 7.99), lon0 + 0.5))
        else:
            smp.append((2.95, lon0 + 3.45))
    L = S.choice('len', [0.75, 7.75]) if split or nsamp > 1 or crossing or not deep else S.real('len', 0.05, 7.75)
    asked = []

    class FS:
        def __init__(self, dim, n):
            asked.append((dim, n))

        def generate_samples(self, ranges):
            asked.append([list(r) for r in ranges])
            return np.array([list(s) for s in smp], dtype=object if S.symbolic else float)

    def mse(a, b, *x, **k):
        a, b = list(np.asarray(a).reshape(-1)), list(np.asarray(b).reshape(-1))
        if len(a) != len(b) or not a:
            raise ValueError('inconsistent numbers of samples')
        return sum((p - q) * (p - q) for p, q in zip(a, b)) / len(a)
    try:
        f = os.path.join(d, 'c.json')
        with open(f, 'w') as h:
            json.dump({'config': {'mesh_info': cfg}}, h)
        mv.Sampler = FS
        if S.symbolic:
            mv.mean_squared_error = mse
        with csv(S, {'f.csv': df}):
            V, e = S.call(mv.MeshValidator, f)
            S.check(e is None, 'the mesh is built')
            if e is not None:
                return
            V.validation_length = L
            got, e = S.call(V.validate_mesh, nsamp)
    finally:
        mv.Sampler, mv.mean_squared_error = real
        shutil.rmtree(d)
    if asked:
        S.check(asked[0] == (2, nsamp) and len(asked) == 2 and S.And([S.eq(a, b) for a, b in zip([x for r in asked[1] for x in r], [0, 8, lon0, lon0 + 8])]), 'samples are taken all over the mesh')
    # specification
    inm = [i for i, p in enumerate(pos)]
    cell = lambda i: vcell(S, V, pos[i])
    dev = []
    for sy, sx in smp:
        ey = sy + L if sy + L <= 8 else 8
        ex = sx + L if sx + L <= lon0 + 8 else lon0 + 8
        for i in inm:
            if S.And(pos[i][0] > sy, pos[i][0] <= ey, pos[i][1] > sx, pos[i][1] <= ex):
                dev.append(ws[i] - cell(i))
    if not dev:
        S.reach('none')
        return
    S.check(e is None, 'the mesh is validated')
    if e is not None:
        return
    q = got * got * len(dev) - sum(x * x for x in dev)
    S.check(S.And(got >= 0, q <= 1e-7, q >= -1e-7) if split else S.And(got >= 0, S.eq(q, 0)), 'the distance is the root mean squared deviation of the sampled datapoints from the cells they belong to')
    S.reach('ok')


def sources(S):
    """several sources, each datapoint compared with the value of its own source"""
    pos = [(1.0, 1.0), (3.0, 5.0), (6.0, 7.0)]
    ws = {k: [S.real(f'{k}0', -20, 20), 2.0, -5.0 * (i + 1)] for i, k in enumerate('pqr')}
    dfs = {f'{k}.csv': frame(S, [p[0] for p in pos], [p[1] for p in pos], **{k: ws[k]}) for k in ws}
    aggs = dict(p='MAX', q='MEAN', r='MIN')
    cfg = config([{'loader': 'scalar_csv', 'params': {'files': [f'{k}.csv'], 'data_name': k, 'aggregate_type': aggs[k]}} for k in ws], depth=0, mindp=1)
    d = tempfile.mkdtemp(prefix='c24')
    real = mv.Sampler, mv.mean_squared_error

    class FS:
        def __init__(self, dim, n):
            pass

        def generate_samples(self, ranges):
            return np.array([[0.5, 0.5], [2.5, 4.5]], dtype=object if S.symbolic else float)

    def mse(a, b, *x, **k):
        a, b = list(np.asarray(a).reshape(-1)), list(np.asarray(b).reshape(-1))
        if len(a) != len(b) or not a:
            raise ValueError('inconsistent numbers of samples')
        return sum((p - q) * (p - q) for p, q in zip(a, b)) / len(a)
    try:
        f = os.path.join(d, 'c.json')
        with open(f, 'w') as h:
            json.dump({'config': {'mesh_info': cfg}}, h)
        mv.Sampler = FS
        if S.symbolic:
            mv.mean_squared_error = mse
        with csv(S, dfs):
            V, e = S.call(mv.MeshValidator, f)
            S.check(e is None, 'the mesh is built')
            if e is not None:
                return
            V.validation_length = 4.0
            got, e = S.call(V.validate_mesh, 2)
    finally:
        mv.Sampler, mv.mean_squared_error = real
        shutil.rmtree(d)
    S.check(e is None, 'the mesh is validated')
    if e is not None:
        return
    val = lambda k: max(ws[k]) if aggs[k] == 'MAX' else min(ws[k]) if aggs[k] == 'MIN' else sum(ws[k]) / 3
    dev = []
    for used in ([0], [1, 2]):
        for k in ws:
            v = val(k)
            dev += [ws[k][i] - v for i in used]
    q = got * got * len(dev) - sum(x * x for x in dev)
    S.check(S.And(got >= 0, q <= 1e-6, q >= -1e-6), 'the distance is that of the sampled datapoints of every source from the value of that source')
    S.reach('ok')


def vcell(S, V, p):
    """value of the cell of the built mesh that a datapoint belongs to"""
    for c in V.env_mesh.agg_cellboxes:
        b = c.get_bounds()
        x0, x1 = b.get_long_min(), b.get_long_max()
        if x1 <= x0:
            x1 = x1 + 360
        if holds(S, (b.get_lat_min(), b.get_lat_max(), x0, x1), (p[0], dom(p[1]))):
            return c.get_agg_data()['v']
    S.check(False, 'every datapoint belongs to a cell')
    return 0


def sampler(S, d=2, n=2):
    u = [[S.real(f'u{i}{j}', 0, 1) for j in range(d)] for i in range(n)]
    rg = []
    for j in range(d):
        a, w = S.real(f'a{j}', -200, 200), S.choice(f'w{j}', [0.0, 20.0, 145.5, -3.5])
        rg.append([a, a + w])

    class Sobol:
        def __init__(self, d, **k):
            self.d = d

        def random(self, n=1):
            return np.array([r[:self.d] for r in u[:n]], dtype=object if S.symbolic else float)

        def random_base2(self, m):
            return self.random(2 ** m)
    wrong = S.choice('wrong', [0, 1, -1])
    real = sm.qmc
    sm.qmc = types.SimpleNamespace(Sobol=Sobol)
    try:
        got, e = S.call(sm.Sampler(d + wrong, n).generate_samples, rg)
    finally:
        sm.qmc = real
    if wrong:
        S.check(isinstance(e, ValueError), 'ranges of other dimensions are refused')
        S.reach('wrong')
        return
    S.check(e is None and got.shape == (n, d), 'there are as many samples as asked for')
    if e is not None or got.shape != (n, d):
        return
    for i in range(n):
        for j in range(d):
            lo, hi = rg[j]
            lo, hi = rg[j]
            S.check(S.Or(hi < lo, S.And(got[i, j] >= lo - 1e-9, got[i, j] <= hi + 1e-9)), 'a sample lies in the ranges')
            S.check(S.eq(got[i, j], lo + u[i][j] * (hi - lo)), 'the points of the unit cube are spread over the ranges')
    S.reach('ok')


def jobs(tier):
    J = []

    def add(fn, name, reach=('ok',), wit=5, **c):
        J.append(job(__name__, fn, name, cfg=c, reach=list(reach), wit_every=wit))
    add('full', 'full-1', ('ok', 'none'), n=1, npts=2)
    add('full', 'full-2', ('ok', 'none'), n=2, npts=2)
    add('full', 'full-2-y', ('ok', 'none'), n=2, npts=2, vary='y')
    add('full', 'full-cross', ('ok', 'none'), n=2, npts=1, crossing=True)
    add('full', 'vec-1', ('ok', 'none'), n=1, npts=2, vec=True)
    add('full', 'vec-2', ('ok', 'none'), n=2, npts=1, vec=True)
    add('full', 'vec-cross', ('ok', 'none'), n=1, npts=1, vec=True, crossing=True)
    add('many', 'many', ('ok',))
    add('many', 'many-vec', ('ok',), vec=True)
    add('large', 'large', ('ok',))
    add('large', 'large-vec', ('ok',), vec=True)
    add('columns', 'columns', ('None', 'lat', 'long', 'v'), wit=1)
    add('sampled', 'sampled', ('ok', 'none'), npts=2)
    add('sampled', 'sampled-split', ('ok', 'none'), npts=4, split=True)
    add('sampled', 'sampled-split-y', ('ok', 'none'), npts=3, split=True, vary='y')
    add('sampled', 'sampled-cross-split', ('ok', 'none'), npts=3, crossing=True, split=True)
    add('sources', 'sources')
    add('sampled', 'sampled-twice', ('ok',), npts=2, nsamp=2)
    for d in (1, 2, 3):
        add('sampler', f'sampler-{d}', ('ok', 'wrong'), d=d, wit=2)
    if tier == 'thorough':
        add('sampled', 'sampled-len', ('ok', 'none'), npts=2, deep=True)
        add('sampled', 'sampled-cross', ('ok', 'none'), npts=2, crossing=True)
        add('full', 'full-2-3', ('ok', 'none'), n=2, npts=3, wit=30)
        add('full', 'full-3-2', ('ok', 'none'), n=3, npts=2, wit=30)
        add('full', 'full-cross-2', ('ok', 'none'), n=2, npts=2, crossing=True, wit=30)
    return J

"""C14 mesh files round-trip"""
import copy
import json
import os
import tempfile
from .common import *
from .c08 import cells_of, pre_graph, KS, K0
from meshiphi.mesh_generation.boundary import Boundary
from meshiphi.mesh_generation.aggregated_cellbox import AggregatedCellBox
from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh
from meshiphi.mesh_generation.neighbour_graph import NeighbourGraph

PROPERTY = dict(
    bounds='meshes of up to two cells of any real size and position (one may cross the antimeridian), any real or NaN values, ids as built or as loaded; one save/load cycle, repeated; also a mesh of 120 cells with 25 values each, one of them any real',
    outside='decimal formatting of doubles in JSON text (exact in Python); non-numeric values beyond text and booleans; cells touching the +-180 meridian from outside',
    stubs=[GEOM_STUB, 'JSON text carries symbolic numbers as opaque tokens'])


def build(S, n, crossing, as_int, graph=True, old_id=False):
    names = ['X', 'A'][:n]
    cs = cells_of(S, names, crossing)
    if crossing:
        y0, y1, x0, x1 = cs[crossing][1]
        S.assume(S.And(x0 < 180, x1 > 180))
    ids = (0, 1) if as_int else (13, 6)
    rects = {ids[i]: cs[m][1] for i, m in enumerate(names)}
    raw = pre_graph(S, rects, (lambda i: i) if as_int else str, lambda i: i, KS if crossing else K0)
    ng = NeighbourGraph()
    ng.neighbour_graph = raw if as_int else {k: {str(d): v for d, v in m.items()} for k, m in raw.items()}
    if not graph:
        ng = NeighbourGraph()
    y, w = S.real('cfg_lat', -90, 0), S.real('cfg_w', 0, 5)
    cfg = {'region': {'lat_min': y, 'lat_max': 20.0, 'long_min': -30.0, 'long_max': 40.0, 'start_time': '2020-01-01', 'end_time': '2020-02-01' if as_int else '2020-01-01', 'cell_width': w, 'cell_height': 5},
           'data_sources': [{'loader': 'scalar_csv', 'params': {'files': ['a']}}], 'splitting': {'split_depth': 2, 'minimum_datapoints': 5}}
    if not as_int:
        cfg['merged'] = [{'region': {'lat_min': y, 'start_time': '2020-01-01'}, 'data_sources': [], 'note': None}]
    boxes, vals = [], {}
    for i, m in enumerate(names):
        v = {'SIC': S.val(f'{m}.v', nan=(i == 0), lo=-1000, hi=1000), 'land': bool(i), 'name': 'n%d' % i, 'uC': S.real(f'{m}.u', -10, 10), 'note': None,
             'idle': 1.5, 'identifier': 'x', 'cxy': 2.5, 'cyclone': 3.5, 'dcx2': 4.5, 'dcyan': 5.5, 'geometry_ok': True, 'ID': 6.5}
        vals[str(ids[i])] = v
        boxes.append(AggregatedCellBox(Boundary([cs[m][1][0], cs[m][1][1]], list(cs[m][0])), dict(v, id='77') if old_id else dict(v), str(ids[i])))
    return EnvironmentMesh(Boundary([y, 20.0], [-30.0, 40.0], [cfg['region']['start_time'], cfg['region']['end_time']]), boxes, ng, cfg), cs, dict(zip([str(i) for i in ids], names)), vals, rects


def veq(S, a, b):
    if isinstance(a, (bool, str)) or isinstance(b, (bool, str)) or a is None:
        return type(a) is type(b) and a == b
    return S.eq(a, b)


def same(S, m, cs, who, vals, graph, cfg, msg):
    S.check([c.get_id() for c in m.agg_cellboxes] == list(who), 'cells and ids are kept in order' + msg)
    for c in m.agg_cellboxes:
        if c.get_id() not in who:
            continue
        r, (x0, x1) = cs[who[c.get_id()]][1], cs[who[c.get_id()]][0]
        b = c.get_bounds()
        S.check(S.And(S.eq(b.get_lat_min(), r[0]), S.eq(b.get_lat_max(), r[1]), S.eq(b.get_long_min(), x0), S.eq(b.get_long_max(), x1)), 'bounds survive' + msg)
        d, want = c.get_agg_data(), vals[c.get_id()]
        S.check(set(d) == set(want), 'the same data names' + msg)
        S.check(S.And([veq(S, d[k], want[k]) for k in want if k in d]), 'values survive' + msg)
    g = m.neighbour_graph.get_graph()
    want = {str(k): {str(d): list(v) for d, v in mm.items()} for k, mm in graph.items()}
    S.check({k: {d: list(v) for d, v in mm.items()} for k, mm in g.items()} == want, 'the neighbour graph survives' + msg)
    b = m.bounds
    S.check(S.And(S.eq(b.get_lat_min(), cfg['region']['lat_min']), S.eq(b.get_lat_max(), 20.0), S.eq(b.get_long_min(), -30.0), S.eq(b.get_long_max(), 40.0)), 'mesh bounds survive' + msg)
    S.check(list(b.get_time_range()) == [cfg['region']['start_time'], cfg['region']['end_time']], 'the time range survives' + msg)
    S.check(deep_eq(S, m.config, cfg), 'the configuration survives' + msg)


def deep_eq(S, a, b):
    if isinstance(b, dict):
        return S.And([isinstance(a, dict) and set(a) == set(b)] + ([deep_eq(S, a[k], b[k]) for k in b] if isinstance(a, dict) and set(a) == set(b) else []))
    if isinstance(b, list):
        return S.And([isinstance(a, list) and len(a) == len(b)] + ([deep_eq(S, x, y) for x, y in zip(a, b)] if isinstance(a, list) and len(a) == len(b) else []))
    return veq(S, a, b)


def cycle(S, n=1, crossing=None, as_int=True, via_file=False, **kw):
    m, cs, who, vals, rects = build(S, n, crossing, as_int, **kw)
    graph = {k: {d: list(v) for d, v in mm.items()} for k, mm in m.neighbour_graph.get_graph().items()}
    cfg = m.config
    if via_file:
        d = tempfile.mkdtemp()
        try:
            p = os.path.join(d, 'm.json')
            with open(p, 'w') as f:
                f.write('what was here before')
            m.save(p)
            m.save(p)
            with open(p) as f:
                txt = f.read()
            if S.symbolic:
                from symx.patch import j_loads
                js = j_loads(txt)
            else:
                js = json.loads(txt)
        finally:
            for f in os.listdir(d):
                os.unlink(os.path.join(d, f))
            os.rmdir(d)
    else:
        js = m.to_json()
    S.check(set(js) == {'config', 'cellboxes', 'neighbour_graph'} and len(js['cellboxes']) == n, 'a mesh file has configuration, cells and neighbour graph')
    for c in js['cellboxes']:
        r = cs[who[c['id']]][1]
        S.check(S.And(S.eq(c['cy'] * 2, r[0] + r[1]), S.eq(c['dcy'] * 2, r[1] - r[0]), S.eq(c['dcx'] * 2, r[3] - r[2])), 'centre and half sizes describe the cell')
        S.check(S.Or([S.eq(c['cx'] * 2 + k, r[2] + r[3]) for k in (0, 720)]), 'centre longitude describes the cell')
    back = EnvironmentMesh.load_from_json(js)
    same(S, back, cs, who, vals, graph, cfg, '')
    js2 = back.to_json()
    S.check(deep_eq(S, js2, js), 'saving a loaded mesh gives the same file')
    same(S, EnvironmentMesh.load_from_json(js2), cs, who, vals, graph, cfg, ' twice')
    # values given to a cell after it was written appear in the next file
    w = S.real('later', -1000, 1000)
    for mm in (m, back):
        mm.update_cellbox(n - 1, {'SIC': w, 'new': 2.0})
        vals2 = {i: dict(v, SIC=w, new=2.0) if i == list(who)[n - 1] else v for i, v in vals.items()}
        same(S, EnvironmentMesh.load_from_json(mm.to_json()), cs, who, vals2, graph, cfg, ' after an update')


def large(S):
    """120 cells in mixed order"""
    nx, ny = 12, 10
    order = [(7 * k + 5) % (nx * ny) for k in range(nx * ny)]
    rects = {i: (2.0 * (i // nx), 2.0 * (i // nx + 1), 4.0 * (i % nx), 4.0 * (i % nx + 1)) for i in order}
    g = {str(i): {str(d): [(i // nx + dy) * nx + i % nx + dx] if 0 <= i // nx + dy < ny and 0 <= i % nx + dx < nx else [] for d, (dy, dx) in
                  {1: (1, 1), 2: (0, 1), 3: (-1, 1), 4: (-1, 0), -1: (-1, -1), -2: (0, -1), -3: (1, -1), -4: (1, 0)}.items()} for i in order}
    ng = NeighbourGraph.from_json(copy.deepcopy(g))
    v, at = S.real('v', -1000, 1000), S.choice('at', [0, 60, 119])
    cfg = {'region': {'lat_min': 0.0, 'lat_max': 20.0, 'long_min': -30.0, 'long_max': 40.0, 'start_time': '2020-01-01', 'end_time': '2020-02-01', 'cell_width': 4, 'cell_height': 2}, 'data_sources': [], 'splitting': {'split_depth': 2, 'minimum_datapoints': 5}}
    vals = {i: dict({f'name{k}': 0.25 * k + i for k in range(24)}, SIC=v if k_ == at else 0.5 * i) for k_, i in enumerate(order)}
    m = EnvironmentMesh(Boundary([0.0, 20.0], [-30.0, 40.0], ['2020-01-01', '2020-02-01']), [AggregatedCellBox(Boundary([r[0], r[1]], [r[2], r[3]]), dict(vals[i]), str(i)) for i, r in rects.items()], ng, cfg)
    back = EnvironmentMesh.load_from_json(m.to_json())
    S.check([c.get_id() for c in back.agg_cellboxes] == [str(i) for i in order], 'cells and ids are kept in order (large mesh)')
    for i, c in zip(order, back.agg_cellboxes):
        b = c.get_bounds()
        S.check((b.get_lat_min(), b.get_lat_max(), b.get_long_min(), b.get_long_max()) == rects[i], 'bounds survive (large mesh)')
        d = c.get_agg_data()
        S.check(set(d) == set(vals[i]) and S.And([S.eq(d[k], vals[i][k]) for k in d if k in vals[i]]), 'values survive (large mesh)')
    S.check({k: {d: list(x) for d, x in mm.items()} for k, mm in back.neighbour_graph.get_graph().items()} == g, 'the neighbour graph survives (large mesh)')


def update(S, n=2):
    """adding values to a cell"""
    boxes = [AggregatedCellBox(Boundary([0, 1], [i, i + 1]), {'a': float(i), 'b': 1.0}, str(i)) for i in range(n)]
    m = EnvironmentMesh(Boundary([0, 1], [0, n]), list(boxes), NeighbourGraph(), {})
    k = S.cint('index', -3, n + 2)
    v = S.real('v')
    _, e = S.call(m.update_cellbox, k, {'a': v, 'c': 2.0, 'd': None})
    S.check((e is None) == (0 <= k < n), 'accepted iff the index denotes a cell')
    S.check(e is None or isinstance(e, ValueError), 'refusal is a ValueError')
    for i, c in enumerate(m.agg_cellboxes):
        d = c.get_agg_data()
        if i == k:
            S.check(S.And(S.eq(d['a'], v), d.get('c') == 2.0, d['b'] == 1.0, 'd' in d and d['d'] is None, len(d) == 4), 'the values are added to the cell')
        else:
            S.check(d == {'a': float(i), 'b': 1.0}, 'other cells are untouched')


def equal(S, n=2):
    """equality of aggregated cells"""
    def cell(k):
        y, x = S.real(f'y{k}', -80, 80), S.real(f'x{k}', -170, 160)
        h, w = S.real(f'h{k}', 0, 10), S.real(f'w{k}', 0, 10)
        S.assume(S.And(h > 0, w > 0))
        v, i = S.real(f'v{k}'), str(S.cint(f'id{k}', 1, 2))
        d = {'SIC': v}
        if S.cint(f'more{k}', 0, 1):
            d['u'] = 1.0
        return AggregatedCellBox(Boundary([y, y + h], [x, x + w]), d, i), (y, y + h, x, x + w, v), (i, len(d))
    (a, ra, ka), (b, rb, kb) = cell(0), cell(1)
    want = S.And([ka == kb] + [p == q for p, q in zip(ra, rb)])
    r = bool(a == b)
    S.check(want if r else S.Not(want), 'cells are equal exactly when id, bounds and values agree')
    S.check(not (a == 'a') and not (a == None), 'a cell equals no other thing')


def jobs(tier):
    js = [job(__name__, 'cycle', f'cycle-{n}-{int(a)}', cfg=dict(n=n, as_int=a)) for n in (1, 2) for a in (True, False)]
    js += [job(__name__, 'cycle', 'cycle-cross', cfg=dict(n=2, crossing='X')), job(__name__, 'cycle', 'cycle-cross2', cfg=dict(n=2, crossing='A', as_int=False)),
           job(__name__, 'cycle', 'file', cfg=dict(n=2, via_file=True)), job(__name__, 'cycle', 'file-cross', cfg=dict(n=1, crossing='X', via_file=True)),
           job(__name__, 'cycle', 'no-graph', cfg=dict(n=1, graph=False, via_file=True)), job(__name__, 'cycle', 'old-id', cfg=dict(n=2, old_id=True)),
           job(__name__, 'update'), job(__name__, 'equal'), job(__name__, 'large')]
    return js

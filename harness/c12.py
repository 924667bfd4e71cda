"""C12 splitting a mesh around points"""
from .common import *
from .c07 import graph_is
from .c08 import pre_graph, K0
from meshiphi.mesh_generation.boundary import Boundary
from meshiphi.mesh_generation.aggregated_cellbox import AggregatedCellBox
from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh
from meshiphi.mesh_generation.neighbour_graph import NeighbourGraph

PROPERTY = dict(
    bounds='any real points in and around a mesh of one or two cells (8 x 8 and 8 x 4 degrees, placed at the origin, north west of it, or crossing the antimeridian), maximum split depth 0..2 (thorough 3; 6 for points near a corner of the finest cells), one or two points, '
           'initial cells at any depth; also a mesh of 72 cells with thirteen points, one of them arbitrary in latitude',
    outside='larger meshes (cells not containing the point are not touched, which is checked); deeper limits', stubs=[GEOM_STUB, NP_STUB], budget=dict(quick=600, thorough=900))


def points(S, depth=1, npts=1, cells=1, lon=0, h=8, level=0, graph=False, near=False, ch=None):
    W, H = 8, h
    ids = ['5', '2'][:cells]
    w, hh = W / 2 ** level, H / 2 ** level
    rects = {i: (0, hh, lon + k * w, lon + (k + 1) * w) for k, i in enumerate(ids)}

    def dom(x):
        return x - 360 if x > 180 else x
    boxes = [AggregatedCellBox(Boundary([r[0], r[1]], [dom(r[2]), dom(r[3])]), {'SIC': float(i)}, i) for i, r in rects.items()]
    raw = pre_graph(S, {int(i): r for i, r in rects.items()}, str, lambda i: i, K0)
    ng = NeighbourGraph.from_json({k: {str(d): list(v) for d, v in m.items()} for k, m in raw.items()})
    cfg = {'region': {'cell_width': W, 'cell_height': ch or H}, 'splitting': {'split_depth': depth, 'minimum_datapoints': 1}}
    mesh = EnvironmentMesh(Boundary([0, 40], [-180, 180]), list(boxes), ng, cfg)
    pts = []
    for k in range(npts):
        if near:                     # around a corner of the finest cells, so that the coarse splits are decided
            py, px = S.real(f'py{k}', 1.26, 1.4), S.real(f'px{k}', lon + 2.26, lon + 2.4)
        else:
            py, px = S.real(f'py{k}', -1, hh + 1), S.real(f'px{k}', lon - 1, lon + cells * w + 1)
        pts.append((py, px))
    real = [(py, px if lon + cells * w <= 180 else (px - 360 if px > 180 else px)) for py, px in pts]
    if lon + cells * w > 180:
        for _, px in pts:
            S.assume(S.Not(px == 180))
    mesh.split_points([tuple(p) for p in real])
    got = list(mesh.agg_cellboxes)
    minw, minh = W / 2 ** depth, (ch or H) / 2 ** depth

    def rect_of(b):
        b = b.get_bounds()
        x0 = b.get_long_min()
        if x0 < lon - 2:
            x0 = x0 + 360
        return (b.get_lat_min(), b.get_lat_max(), x0, x0 + b.get_width())

    def holds(r, p, strict=True):
        py, px = p
        return S.And(py > r[0], py < r[1], px > r[2], px < r[3])
    rs = {b.get_id(): rect_of(b) for b in got}
    S.check(len(rs) == len(got), 'ids stay unique')
    S.check(sum((r[1] - r[0]) * (r[3] - r[2]) for r in rs.values()) == w * hh * cells, 'the cells still cover the same area')
    S.check(all(any(r[0] >= q[0] and r[1] <= q[1] and r[2] >= q[2] and r[3] <= q[3] for q in rects.values()) for r in rs.values()), 'every cell lies in one of the original cells')
    for r in rs.values():
        big = r[3] - r[2] > minw and r[1] - r[0] > minh
        if big:
            S.check(S.Not(S.Or([holds(r, p) for p in pts])), 'no cell above the minimum size contains a given point')
        S.check(r[3] - r[2] >= min(minw, w), 'no cell is split below the minimum size')
    # only cells containing a point are split: every internal node of the quadtree contains one of the points
    for i, q in rects.items():
        S.check(S.Implies(S.Not(S.Or([holds(q, p) for p in pts])), any(g is b for g in got for b in boxes if b.get_id() == i)), 'cells containing no point are left alone')
    for r in rs.values():
        par = r
        while par[3] - par[2] < w:
            pw, ph = (par[3] - par[2]) * 2, (par[1] - par[0]) * 2
            y0 = par[0] // ph * ph
            x0 = lon + (par[2] - lon) // pw * pw
            par = (y0, y0 + ph, x0, x0 + pw)
            S.check(S.Or([holds(par, p) for p in pts]), 'a cell was split only if it contained a point')
    for b in got:
        r = rs[b.get_id()]
        src = [i for i, q in rects.items() if r[0] >= q[0] and r[2] >= q[2] and r[3] <= q[3]]
        S.check(len(src) == 1 and b.get_agg_data().get('SIC') == float(src[0]), 'cells keep the values of the cell they came from')
    if graph:
        graph_is(S, mesh.neighbour_graph.get_graph(), {int(i): r for i, r in rs.items()}, str, entry=int, ks=K0)
    n = len(got)
    mesh.split_points([tuple(p) for p in real])
    S.check(len(mesh.agg_cellboxes) == n, 'splitting again around the same points changes nothing')
    S.observe('n', n)
    S.reach('split' if n > cells else 'same')


def large(S):
    """72 cells, thirteen points of which one is arbitrary"""
    nx, ny, W = 9, 8, 4
    rects = {r * nx + c: (r * W, (r + 1) * W, c * W, (c + 1) * W) for r in range(ny) for c in range(nx)}
    boxes = [AggregatedCellBox(Boundary([r[0], r[1]], [r[2], r[3]]), {'SIC': float(i)}, str(i)) for i, r in rects.items()]
    raw = pre_graph(S, rects, str, lambda i: i, K0)
    ng = NeighbourGraph.from_json({k: {str(d): list(v) for d, v in m.items()} for k, m in raw.items()})
    mesh = EnvironmentMesh(Boundary([0, 40], [0, 40]), list(boxes), ng, {'region': {'cell_width': W, 'cell_height': W}, 'splitting': {'split_depth': 1, 'minimum_datapoints': 1}})
    hit = [0, 5, 11, 17, 23, 31, 38, 44, 52, 60, 66, 71]      # the cells of the fixed points
    pts = [(rects[i][0] + 1, rects[i][2] + 3) for i in hit]
    free = S.choice('cell', [1, 40, 62])
    py, px = S.real('py', rects[free][0] - 1, rects[free][1]), rects[free][2] + 1
    at = S.choice('at', [0, 8, 12])
    pts.insert(at, (py, px))
    mesh.split_points([tuple(p) for p in pts])
    got = list(mesh.agg_cellboxes)
    ids = {b.get_id() for b in got}
    S.check(len(ids) == len(got), 'ids stay unique')
    for i, r in rects.items():
        holds = S.And(py > r[0], py < r[1], px > r[2], px < r[3])
        here = any(g is boxes[i] for g in got)
        if i in hit:
            S.check(not here, 'the cell of every given point is split')
        else:
            S.check(S.Iff(holds, not here), 'a cell is split iff it contains a given point')
        parts = [b.get_bounds() for b in got if b.get_agg_data().get('SIC') == float(i)]
        S.check(len(parts) == (1 if here else 4), 'one level of splitting')
        S.check(sum((b.get_lat_max() - b.get_lat_min()) * b.get_width() for b in parts) == W * W, 'the cells still cover the same area')
    post = {int(b.get_id()): (b.get_bounds().get_lat_min(), b.get_bounds().get_lat_max(), b.get_bounds().get_long_min(), b.get_bounds().get_long_max()) for b in got}
    S.check(graph_concrete(mesh.neighbour_graph.get_graph()) == graph_concrete(pre_graph(S, post, str, lambda i: i, K0)), 'the neighbour graph is that of the new cells')


def graph_concrete(g):
    return {str(k): {int(d): sorted(int(x) for x in v) for d, v in m.items()} for k, m in g.items()}


def jobs(tier):
    R = ['split', 'same']
    js = [job(__name__, 'points', 'depth-0', cfg=dict(depth=0), reach=['same']), job(__name__, 'large'),
          job(__name__, 'points', 'depth-1', cfg=dict(depth=1, graph=True), reach=R),
          job(__name__, 'points', 'depth-2', cfg=dict(depth=2), reach=R, wit_every=4),
          job(__name__, 'points', 'deeper-start', cfg=dict(depth=2, level=1, h=4), reach=R),
          job(__name__, 'points', 'at-limit', cfg=dict(depth=1, level=1), reach=['same']),
          job(__name__, 'points', 'deep', cfg=dict(depth=6, near=True), reach=['split'], wit_every=8),
          job(__name__, 'points', 'other-shape', cfg=dict(depth=1, level=1, ch=4), reach=['same']),
          job(__name__, 'points', 'other-shape-2', cfg=dict(depth=1, level=1, h=4, ch=8), reach=['same']),
          job(__name__, 'points', 'flat', cfg=dict(depth=1, h=4), reach=R),
          job(__name__, 'points', 'two-cells', cfg=dict(depth=1, cells=2, graph=True), reach=R, wit_every=4),
          job(__name__, 'points', 'two-points', cfg=dict(depth=1, npts=2), reach=R, wit_every=8),
          job(__name__, 'points', 'crossing', cfg=dict(depth=1, lon=175, cells=1), reach=R)]
    if tier == 'thorough':
        js += [job(__name__, 'points', 'depth-3', cfg=dict(depth=3), reach=R, wit_every=16),
               job(__name__, 'points', 'two-cells-2', cfg=dict(depth=2, cells=2, graph=True), reach=R, wit_every=16),
               job(__name__, 'points', 'two-points-2', cfg=dict(depth=2, npts=2), reach=R, wit_every=32),
               job(__name__, 'points', 'crossing-2', cfg=dict(depth=2, lon=175, cells=2), reach=R, wit_every=16)]
    return js

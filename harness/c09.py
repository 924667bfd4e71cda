"""C09 splitting a cell of a finished/loaded mesh preserves the exact neighbour graph"""
from .common import *
from .c07 import graph_is
from .c08 import beside_cells, crowd_cells, row_cells, ring_cells, cells_of, pre_graph, quarter_rects, KS, K0
from meshiphi.mesh_generation.boundary import Boundary
from meshiphi.mesh_generation.aggregated_cellbox import AggregatedCellBox
from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh
from meshiphi.mesh_generation.neighbour_graph import NeighbourGraph

PROPERTY = dict(
    bounds='inductive step: the split cell X plus up to two further cells of any real size and position (pairwise disjoint) with exact neighbour lists, as loaded from a mesh file (text ids); '
           'or a row of three (thorough: four) cells along one side, or four cells along one side of a neighbour, or all eight sides and corners occupied; X or a neighbour may cross the antimeridian or the cells lie on the -180/180 seam; widths <= 90 degrees; any position of X in the list; ids not contiguous; a second split, of an old or a new cell, after renumbering or value changes',
    outside='meshes straight from the builder (integer ids), which the splitting operation does not accept; cells wider than 90 degrees', stubs=[],
    budget=dict(quick=600, thorough=900))

IDS = (4, 11, 2, 30, 7, 15, 22, 9, 40, 3, 18)


def row(S, k=3, side='N', seam=False, xpos=0):
    cs = row_cells(S, k, side, seam)
    order = [n for n in cs if n != 'X']
    order.insert(xpos, 'X')
    split(S, cs, order, KS if seam else K0)


def beside(S, k=3, side='N', xpos=1):
    cs = beside_cells(S, k, side)
    order = [n for n in cs if n != 'X']
    order.insert(xpos, 'X')
    split(S, cs, order, K0)


def ring(S, seam=False, cut=False, xpos=4):
    cs = ring_cells(S, seam, cut)
    order = [n for n in cs if n != 'X']
    order.insert(xpos, 'X')
    split(S, cs, order, KS if seam else K0)


def crowd(S, k=6, seam=False, fixed=False):
    cs = crowd_cells(S, k, seam, fixed)
    order = [n for n in cs if n != 'X']
    order.insert(S.choice('pos', [0, 11]), 'X')
    split(S, cs, order, KS if seam else K0)


def step(S, n=1, crossing=None, glob=False, xpos=0):
    names = ['X', 'A', 'B'][:n + 1]
    cs = cells_of(S, names, crossing, glob)
    if glob:
        S.assume(S.Or(cs['X'][1][2] == -180, cs['X'][1][3] == 180))
    order = names[1:]
    order.insert(xpos, 'X')
    split(S, cs, order, KS if crossing or glob else K0)


def split(S, cs, order, ks):
    n = len(order) - 1
    # ids in any order, some of them the end or the beginning of others
    ids = dict(zip(order, IDS if n < 11 else [(i * 7 + 12) % (41 if n < 41 else 101) for i in range(n + 1)]))
    rects = {ids[nm]: cs[nm][1] for nm in order}
    raw = pre_graph(S, rects, str, lambda i: i, ks)
    if 0 < n < 3:
        S.assume(all(any(v for v in m.values()) for m in raw.values()))
    ng = NeighbourGraph.from_json({k: {str(d): v for d, v in m.items()} for k, m in raw.items()})
    boxes = [AggregatedCellBox(Boundary([cs[nm][1][0], cs[nm][1][1]], list(cs[nm][0])), {'SIC': float(ids[nm])}, str(ids[nm])) for nm in order]
    mesh = EnvironmentMesh(Boundary([-90, 90], [-180, 180]), list(boxes), ng, {})
    mesh.split_and_replace(str(ids['X']))
    got = mesh.agg_cellboxes
    m = max(ids.values())
    S.check(len(got) == n + 4 and all(b.get_id() != str(ids['X']) for b in got), 'the split cell is replaced by four')
    S.check(all(any(g is b for g in got) for b, nm in zip(boxes, order) if nm != 'X'), 'other cells are untouched')
    q = quarter_rects(cs['X'][1])
    post = {i: r for i, r in rects.items() if i != ids['X']}
    new = [b for b in got if int(b.get_id()) > m]
    S.check(len(new) == 4 and len({b.get_id() for b in new}) == 4, 'four cells with new ids')
    for b in new:
        S.check(b.get_agg_data().get('SIC') == float(ids['X']), 'new cells carry the values of the split cell')
        bb = b.get_bounds()
        hit = [k for k, r in q.items() if bool(S.And(S.eq(bb.get_lat_min(), r[0]), S.Or([S.eq(bb.get_long_min(), r[2] + d) for d in (0, -360)])))]
        S.check(len(hit) == 1, 'new cells are the quarters')
        if len(hit) == 1:
            post[int(b.get_id())] = q[hit[0]]
    graph_is(S, mesh.neighbour_graph.get_graph(), post, str, entry=int, ks=ks)
    S.observe('g', {str(k): {str(d): list(v) for d, v in mm.items()} for k, mm in mesh.neighbour_graph.get_graph().items()})


def again(S, k=3):
    """a second split, of an old or a new cell, after the mesh changed in between"""
    y, w = S.real('lat', -60, 60), S.real('w', 1, 20)
    h = S.real('h', 1, 20)
    order = [S.choice('big', [7, 30])] + [5 + i for i in range(1, k)]
    rects = {i: (y, y + h, j * w, j * w + w) for j, i in enumerate(order)}
    raw = pre_graph(S, rects, str, lambda i: i, K0)
    ng = NeighbourGraph.from_json({i: {str(d): v for d, v in m.items()} for i, m in raw.items()})
    mesh = EnvironmentMesh(Boundary([-90, 90], [-180, 180]),
                           [AggregatedCellBox(Boundary([r[0], r[1]], [r[2], r[3]]), {'SIC': float(i)}, str(i)) for i, r in rects.items()], ng, {})

    def rect_of(c):
        b = c.get_bounds()
        return b.get_lat_min(), b.get_lat_max(), b.get_long_min(), b.get_long_max()

    def split1(x, rects):
        v = mesh.get_cellbox(str(x)).get_agg_data()['SIC']
        mesh.split_and_replace(str(x))
        post = {i: r for i, r in rects.items() if i != x}
        new = [c for c in mesh.agg_cellboxes if int(c.get_id()) not in post]
        S.check(len(mesh.agg_cellboxes) == len(post) + 4 and len(new) == 4, 'the split cell is replaced by four cells with new ids')
        m = max(rects)
        S.check(sorted(int(c.get_id()) for c in new) == [m + 1, m + 2, m + 3, m + 4] and all(c.get_agg_data()['SIC'] == v for c in new), 'new ids and the values of the split cell')
        q = quarter_rects(rects[x])
        for c in new:
            r = rect_of(c)
            S.check(S.Or([S.And([S.eq(a, b) for a, b in zip(r, t)]) for t in q.values()]), 'new cells are the quarters')
            post[int(c.get_id())] = r
        graph_is(S, mesh.neighbour_graph.get_graph(), post, str, entry=int, ks=K0)
        return post
    now = split1(order[S.cint('x', 0, k - 1)], rects)
    then = S.choice('then', ['again', 'increment', 'values'])
    if then == 'increment':
        mesh.increment_ids(9)
        now = {i + 9: r for i, r in now.items()}
    elif then == 'values':
        mesh.update_cellbox(0, {'SIC': 55.0})
    split1(sorted(now)[S.cint('z', 0, len(now) - 1)], now)


def jobs(tier):
    js = [job(__name__, 'step', 'alone', cfg=dict(n=0)),
          job(__name__, 'step', 'one', cfg=dict(n=1)),
          job(__name__, 'step', 'one-last', cfg=dict(n=1, xpos=1)),
          job(__name__, 'step', 'one-Xcross', cfg=dict(n=1, crossing='X')),
          job(__name__, 'step', 'one-Across', cfg=dict(n=1, crossing='A')),
          job(__name__, 'step', 'one-global', cfg=dict(n=1, glob=True)),
          job(__name__, 'step', 'two', cfg=dict(n=2, xpos=1), wit_every=8)]
    for sd in 'NESW':
        js.append(job(__name__, 'row', f'row-{sd}', cfg=dict(k=3, side=sd, xpos=1), wit_every=8))
    js += [job(__name__, 'beside', f'beside-{sd}', cfg=dict(k=3, side=sd), wit_every=4) for sd in 'NESW']
    js += [job(__name__, 'row', 'row-seam', cfg=dict(k=2, side='N', seam=True), wit_every=8),
           job(__name__, 'again', 'again', cfg=dict(k=2 if tier == 'quick' else 3), wit_every=8),
           job(__name__, 'crowd', 'crowd', cfg=dict(k=5)), job(__name__, 'crowd', 'crowd-6', cfg=dict(k=6)), job(__name__, 'crowd', 'crowd-12', cfg=dict(k=12, fixed=True)),
           job(__name__, 'ring', 'ring', cfg=dict()),
           job(__name__, 'ring', 'ring-cut', cfg=dict(cut=True)),
           job(__name__, 'ring', 'ring-seam', cfg=dict(seam=True))]
    if tier == 'thorough':
        for sd in 'NESW':
            js.append(job(__name__, 'row', f'row4-{sd}', cfg=dict(k=4, side=sd, xpos=2), wit_every=8))
        js += [job(__name__, 'row', f'row-seam-{sd}', cfg=dict(k=3, side=sd, seam=True), wit_every=8) for sd in 'NESW']
        js.append(job(__name__, 'ring', 'ring-seam-cut', cfg=dict(seam=True, cut=True)))
    if tier == 'thorough':
        js += [job(__name__, 'step', 'two-Xcross', cfg=dict(n=2, crossing='X'), wit_every=8),
               job(__name__, 'step', 'two-global', cfg=dict(n=2, glob=True), wit_every=8)]
    return js

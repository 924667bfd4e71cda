"""C13 merging meshes"""
import copy
from .common import *
from .c07 import graph_is
from .c08 import pre_graph, quarter_rects, K0
from meshiphi.mesh_generation.boundary import Boundary
from meshiphi.mesh_generation.aggregated_cellbox import AggregatedCellBox
from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh
from meshiphi.mesh_generation.neighbour_graph import NeighbourGraph

PROPERTY = dict(
    bounds='first mesh of 3 x 3 cells (optionally one of them refined), second mesh of 1 x 1, 2 x 1 or 1 x 2 cells (optionally one refined) placed at any aligned position touching or overlapping the first; '
           'any real origin and cell size; ids of either mesh in shuffled order, starting at any of several offsets; two meshes merged one after the other. Compatibility: any real bounds of the second mesh (up to 3 cells, within two cells of the origin of the first) against cell sizes 2.5 and 5. Meshes as loaded from mesh files; also meshes of 79..100 cells merged at fifteen given places, with a cell refined three times on either side of the seam; six meshes merged in turn',
    outside='meshes crossing the antimeridian; meshes straight from the builder (integer graph keys); second mesh built with larger cells than the first', stubs=[NP_STUB], budget=dict(quick=600, thorough=900))


def loaded(S, lat0, lon0, ch, cw, units, first, tag, bounds_units, ctag=None):
    """a mesh as loaded from a file; units = list of (r0, r1, c0, c1) in cell units"""
    n = len(units)
    step = next(s for s in (5, 7, 3, 2, 1) if n % s or n == 1)
    order = [(step * k + n // 3) % n for k in range(n)]   # ids in no particular order, the highest not last
    ids = {first + (order[k] if tag == 'one' else 3 * order[k] + order[k] % 2): u for k, u in enumerate(units)}
    raw = pre_graph(S, {i: tuple(map(float, u)) for i, u in ids.items()}, str, lambda i: i, K0)
    rects = {i: (lat0 + u[0] * ch, lat0 + u[1] * ch, lon0 + u[2] * cw, lon0 + u[3] * cw) for i, u in ids.items()}
    boxes = [AggregatedCellBox(Boundary([r[0], r[1]], [r[2], r[3]]), {'SIC': i + 0.5, 'src': tag}, str(i)) for i, r in rects.items()]
    bu = bounds_units
    b = Boundary([lat0 + bu[0] * ch, lat0 + bu[1] * ch], [lon0 + bu[2] * cw, lon0 + bu[3] * cw])
    ng = NeighbourGraph.from_json({k: {str(d): list(v) for d, v in m.items()} for k, m in raw.items()})
    cfg = {'region': {'cell_width': cw, 'cell_height': ch, 'tag': ctag or tag}, 'splitting': {'split_depth': 1}}
    return EnvironmentMesh(b, boxes, ng, cfg), rects


def grid(ny, nx, r0, c0, refine):
    out = []
    for r in range(ny):
        for c in range(nx):
            u = (r0 + r, r0 + r + 1, c0 + c, c0 + c + 1)
            if refine == (r, c):
                out += list(quarter_rects(u).values())
            else:
                out.append(u)
    return out


def snap(m):
    return dict(ids=[c.get_id() for c in m.agg_cellboxes], data=[dict(c.get_agg_data()) for c in m.agg_cellboxes],
                graph=copy.deepcopy(m.neighbour_graph.get_graph()), cfg=copy.deepcopy({k: v for k, v in m.config.items() if k != 'region'}))


def merge(S, ny=1, nx=1, ref1=None, ref2=None, rows=(-1, 0, 1, 2, 3), cols=(-1, 0, 1, 2, 3), off=((2, 0),)):
    # exact origin and size so that aligned bounds coincide
    lat0, lon0 = S.real('lat0', -40, 40), S.real('lon0', -90, 90)
    q = S.choice('size', [0.5, 2, 5])
    cw, ch = q, q * 2
    r0, c0 = S.choice('row', rows), S.choice('col', cols)
    o1, o2 = S.choice('off', off)
    u1 = grid(3, 3, 0, 0, ref1)
    m1, rects1 = loaded(S, lat0, lon0, ch, cw, u1, o1, 'one', (0, 3, 0, 3))
    u2 = grid(ny, nx, r0, c0, ref2)
    m2, rects2 = loaded(S, lat0, lon0, ch, cw, u2, o2, 'two', (r0, r0 + ny, c0, c0 + nx))
    before2, old1, old2 = snap(m2), list(m1.agg_cellboxes), list(m2.agg_cellboxes)
    m1.merge_mesh(m2)
    S.check(snap(m2) == before2 and all(a is b for a, b in zip(m2.agg_cellboxes, old2)), 'the given mesh is not modified')
    inb = lambda r: S.And(r[0] >= lat0 + r0 * ch, r[1] <= lat0 + (r0 + ny) * ch, r[2] >= lon0 + c0 * cw, r[3] <= lon0 + (c0 + nx) * cw)
    keep = {i: r for i, r in rects1.items() if not bool(inb(r))}
    got = m1.agg_cellboxes
    ids = [int(c.get_id()) for c in got]
    S.check(len(set(ids)) == len(ids), 'ids are unique')
    S.check(len(got) == len(keep) + len(rects2), 'cells inside the given mesh are replaced by its cells')
    S.check(all(any(g is b for g in got) == (int(b.get_id()) in keep) for b in old1), 'cells outside the given mesh are untouched')
    new = [c for c in got if c.get_agg_data().get('src') == 'two']
    S.check(len(new) == len(rects2), 'every cell of the given mesh is added')
    post = dict(keep)
    vals = {}
    for c in new:
        k = [i for i in rects2 if c.get_agg_data()['SIC'] == i + 0.5]
        S.check(len(k) == 1, 'values are carried over')
        if len(k) == 1:
            r = rects2[k[0]]
            b = c.get_bounds()
            S.check(S.And(S.eq(b.get_lat_min(), r[0]), S.eq(b.get_lat_max(), r[1]), S.eq(b.get_long_min(), r[2]), S.eq(b.get_long_max(), r[3])), 'bounds are carried over')
            post[int(c.get_id())] = r
            S.check(c.to_json()['id'] == c.get_id(), 'a cell has one id')
    S.check(len(m1.config.get('merged', [])) == 1 and m1.config['merged'][0]['region']['tag'] == 'two', 'the configuration of the given mesh is recorded')
    graph_is(S, m1.neighbour_graph.get_graph(), post, str, entry=int, ks=K0)
    S.reach('overlap' if len(keep) < len(rects1) else 'beside')


def twice(S, first=0):
    """two meshes merged one after the other"""
    lat0, lon0 = S.real('lat0', -40, 40), S.real('lon0', -90, 90)
    q = S.choice('size', [0.5, 5])
    m1, rects1 = loaded(S, lat0, lon0, q, q, grid(2, 2, 0, 0, None), first, 'one', (0, 2, 0, 2))
    places = S.choice('places', [((2, 0), (1, 1)), ((0, 0), (0, 0)), ((0, 2), (0, 3)), ((-1, 1), (2, 1))])
    post = dict(rects1)
    equal = S.flag('equal')     # the two meshes may have been built from equal configurations
    for tag, (r, c) in zip(('two', 'three'), places):
        ref = (0, 0) if tag == 'three' else None
        m, rects = loaded(S, lat0, lon0, q, q, grid(1, 1, r, c, ref), 0, tag, (r, r + 1, c, c + 1), 'two' if equal else tag)
        before = snap(m)
        m1.merge_mesh(m)
        S.check(snap(m) == before, 'the given mesh is not modified')
        post = {i: b for i, b in post.items() if not bool(S.And(b[0] >= lat0 + r * q, b[1] <= lat0 + (r + 1) * q, b[2] >= lon0 + c * q, b[3] <= lon0 + (c + 1) * q))}
        for x in m1.agg_cellboxes:
            if x.get_agg_data()['src'] == tag:
                k = [i for i in rects if x.get_agg_data()['SIC'] == i + 0.5]
                S.check(len(k) == 1, 'values are carried over')
                post[int(x.get_id())] = rects[k[0]]
        S.check(sorted(int(x.get_id()) for x in m1.agg_cellboxes) == sorted(post), 'the cells are those outside the given mesh and those of the given mesh, with unique ids')
    S.check([x['region']['tag'] for x in m1.config['merged']] == ['two', 'two' if equal else 'three'], 'the configuration of every merged mesh is recorded')
    graph_is(S, m1.neighbour_graph.get_graph(), post, str, entry=int, ks=K0)


def split_units(us, pick, depth):
    """units of us, the one at index pick refined depth times everywhere"""
    out = []
    for k, u in enumerate(us):
        part = [u]
        if k == pick:
            for _ in range(depth):
                part = [q for p in part for q in quarter_rects(p).values()]
        out += part
    return out


def concrete(g):
    return {str(k): {int(d): sorted(int(x) for x in v) for d, v in m.items()} for k, m in g.items()}


def large(S):
    """a mesh of 40 or more cells replacing more than 20, with finely refined cells along the seam"""
    q = S.choice('size', [0.5, 2])
    # where the second mesh lies, and which cell of the first and of the second is finely refined: on every side of the seam and at corners
    r0, c0, ny, nx, pick1, pick2 = S.choice('place', [(1, 1, 4, 4, 32, 13), (1, 1, 4, 4, 2, 2), (1, 1, 4, 4, 12, 4), (1, 1, 4, 4, 17, 7), (1, 1, 4, 4, 0, 15), (1, 1, 4, 4, 35, 0), (1, 1, 4, 4, 5, 12), (1, 1, 4, 4, 30, 3),
                                                      (0, 0, 5, 5, 32, 22), (0, 0, 5, 5, 17, 14), (2, 3, 4, 6, 8, 0), (6, 1, 4, 6, 33, 1), (1, 6, 6, 4, 17, 4), (-4, 1, 4, 6, 2, 19), (1, -4, 6, 4, 12, 7)])
    u1 = split_units(grid(6, 6, 0, 0, None), pick1, 3)
    u2 = split_units(grid(ny, nx, r0, c0, None), pick2, 3)
    m1, rects1 = loaded(S, 10, 20, q, q, u1, 4, 'one', (0, 6, 0, 6))
    m2, rects2 = loaded(S, 10, 20, q, q, u2, 2, 'two', (r0, r0 + ny, c0, c0 + nx))
    before2, old1 = snap(m2), list(m1.agg_cellboxes)
    m1.merge_mesh(m2)
    S.check(snap(m2) == before2, 'the given mesh is not modified')
    keep = {i: r for i, r in rects1.items() if not (r[0] >= 10 + r0 * q and r[1] <= 10 + (r0 + ny) * q and r[2] >= 20 + c0 * q and r[3] <= 20 + (c0 + nx) * q)}
    got = m1.agg_cellboxes
    ids = [int(c.get_id()) for c in got]
    S.check(len(set(ids)) == len(ids), 'ids are unique')
    S.check(len(got) == len(keep) + len(rects2), 'cells inside the given mesh are replaced by its cells')
    S.check(all(any(g is b for g in got) == (int(b.get_id()) in keep) for b in old1), 'cells outside the given mesh are untouched')
    post = dict(keep)
    for c in got:
        if c.get_agg_data().get('src') == 'two':
            b = c.get_bounds()
            r = (b.get_lat_min(), b.get_lat_max(), b.get_long_min(), b.get_long_max())
            S.check(rects2.get(int(c.get_agg_data()['SIC'] - 0.5)) == r, 'bounds and values are carried over')
            post[int(c.get_id())] = r
    S.check(concrete(m1.neighbour_graph.get_graph()) == concrete(pre_graph(S, post, str, lambda i: i, K0)), 'the neighbour graph is that of the merged cells (large mesh)')


def many(S):
    """six meshes merged one after the other"""
    m1, rects1 = loaded(S, 0, 0, 2, 2, grid(3, 3, 0, 0, None), S.choice('first', [0, 6]), 'one', (0, 3, 0, 3))
    places = [(3, 0), (3, 1), (1, 1), (0, 3), (-1, 2), (1, 1)]
    for k, (r, c) in enumerate(places):
        m1.merge_mesh(loaded(S, 0, 0, 2, 2, grid(1, 1, r, c, (0, 0) if k % 2 else None), k, f'm{k}', (r, r + 1, c, c + 1))[0])
    S.check([x['region']['tag'] for x in m1.config['merged']] == [f'm{k}' for k in range(6)], 'the configuration of every merged mesh is recorded, in order')
    post = {}
    for x in m1.agg_cellboxes:
        b = x.get_bounds()
        post[int(x.get_id())] = (b.get_lat_min(), b.get_lat_max(), b.get_long_min(), b.get_long_max())
    S.check(len(post) == len(m1.agg_cellboxes) == 8 + 1 + 4 + 4 + 1 + 4, 'the cells are those outside the given meshes and those of the given meshes')
    S.check(concrete(m1.neighbour_graph.get_graph()) == concrete(pre_graph(S, post, str, lambda i: i, K0)), 'the neighbour graph is that of the merged cells')


def compat(S, cw=5, ch=5):
    K = 3
    m1, _ = loaded(S, 0, 0, ch, cw, [(0, 1, 0, 1)], 0, 'one', (0, 1, 0, 1))
    y0, x0 = S.real('lat0', -2 * ch, 2 * ch), S.real('lon0', -2 * cw, 2 * cw)
    h, w = S.real('h', 0, K * ch), S.real('w', 0, K * cw)
    S.assume(S.And(h > 0, w > 0))
    m2 = EnvironmentMesh(Boundary([y0, y0 + h], [x0, x0 + w]), [], NeighbourGraph(), {'region': {}})
    ok = m1.validate_merge_compatibility(m2)
    mult = lambda v, c, lo, hi: S.Or([S.eq(v, c * k) for k in range(lo, hi + 1)])
    n = m = 3
    want = S.And(mult(h, ch, 1, K), mult(w, cw, 1, K), mult(x0, cw, -n, n), mult(y0, ch, -m, m))
    S.check(S.Iff(want, bool(ok)), 'meshes can be merged iff the given one is aligned with the grid of this one and filled by whole cells')
    S.reach(str(bool(ok)))


def refused(S):
    """an incompatible mesh is refused and nothing changes"""
    m1, _ = loaded(S, 0, 0, 4, 4, grid(2, 2, 0, 0, None), 0, 'one', (0, 2, 0, 2))
    d = S.real('d', 0, 4)
    S.assume(S.And(d > 0, d < 4))
    if S.flag('before'):                # also after a merge that was possible
        m1.merge_mesh(loaded(S, 0, 0, 4, 4, [(0, 1, 0, 1)], 0, 'three', (0, 1, 0, 1))[0])
    m2, _ = loaded(S, d if S.flag('lat') else 0, d, 4, 4, [(0, 1, 0, 1)], 0, 'two', (0, 1, 0, 1))
    s1, s2 = snap(m1), snap(m2)
    _, e = S.call(m1.merge_mesh, m2)
    S.check(isinstance(e, AssertionError), 'merging an incompatible mesh is refused')
    S.check(snap(m1) == s1 and snap(m2) == s2, 'a refused merge changes nothing')


def ids(S):
    """shifting ids renames every cell and reference consistently"""
    inc = S.cint('inc', 0, 9)
    first = S.choice('first', [0, 3])
    m, rects = loaded(S, 0, 0, 4, 4, grid(2, 2, 0, 0, (0, 0)), first, 'one', (0, 2, 0, 2))
    data = [dict(c.get_agg_data()) for c in m.agg_cellboxes]
    m.increment_ids(inc)
    S.check([int(c.get_id()) for c in m.agg_cellboxes] == [i + inc for i in rects], 'every id is shifted')
    S.check(all(isinstance(c.get_id(), str) for c in m.agg_cellboxes), 'ids stay text')
    S.check([{k: v for k, v in c.get_agg_data().items() if k != 'id'} for c in m.agg_cellboxes] == data, 'values do not change')
    S.check(all(c.to_json()['id'] == c.get_id() == str(c.get_agg_data().get('id', c.get_id())) for c in m.agg_cellboxes), 'a cell has one id')
    graph_is(S, m.neighbour_graph.get_graph(), {i + inc: tuple(map(float, r)) for i, r in rects.items()}, str, entry=int, ks=K0)


def remove(S):
    """removing cells inside given bounds"""
    m, rects = loaded(S, 0, 0, 4, 4, grid(2, 2, 0, 0, (0, 0)), 0, 'one', (0, 2, 0, 2))
    y0, y1, x0, x1 = (S.real(n, -2, 10) for n in ('y0', 'y1', 'x0', 'x1'))
    S.assume(S.And(y0 < y1, x0 < x1))
    b = Boundary([y0, y1], [x0, x1])
    within = m.get_cellboxes_within_bounds(b)
    spec = {i: S.And(r[0] >= y0, r[1] <= y1, r[2] >= x0, r[3] <= x1) for i, r in rects.items()}
    for i, c in spec.items():
        S.check(S.Iff(c, any(int(w.get_id()) == i for w in within)), 'a cell is within bounds iff it lies completely inside')
    m.remove_cellboxes_within_bounds(b)
    left = {int(c.get_id()) for c in m.agg_cellboxes}
    for i, c in spec.items():
        S.check(S.Iff(S.Not(c), i in left), 'exactly the cells within bounds are removed')
    graph_is(S, m.neighbour_graph.get_graph(), {i: tuple(map(float, rects[i])) for i in left if i in rects}, str, entry=int, ks=K0)


def jobs(tier):
    R = ['overlap', 'beside']
    q = tier == 'quick'
    js = [job(__name__, 'merge', 'merge-1x1', cfg=dict(), reach=R, wit_every=4),
          job(__name__, 'merge', 'merge-2x1', cfg=dict(ny=2, rows=(-1, 1, 2), cols=(0, 1, 3)), reach=R, wit_every=4),
          job(__name__, 'merge', 'merge-1x2-refined', cfg=dict(nx=2, ref2=(0, 1), rows=(0, 1, 3), cols=(-1, 0, 1)), reach=R, wit_every=4),
          job(__name__, 'merge', 'merge-refined', cfg=dict(ref1=(1, 1), ref2=(0, 0), rows=(0, 1, 2), cols=(0, 1, 2), off=((0, 0), (5, 40), (95, 2))), reach=['overlap'], wit_every=4),
          job(__name__, 'compat', 'compat-5', reach=['True', 'False']), job(__name__, 'compat', 'compat-2.5', cfg=dict(cw=2.5, ch=5), reach=['True', 'False']),
          job(__name__, 'twice', cfg=dict(first=6)), job(__name__, 'refused'), job(__name__, 'ids'), job(__name__, 'remove'),
          job(__name__, 'large', wit_every=4), job(__name__, 'many')]
    if not q:
        A = (-1, 0, 1, 2, 3)
        for r1 in [None] + [(i, j) for i in range(3) for j in range(3)]:
            for ny, nx in ((1, 1), (2, 1), (1, 2)):
                for r2 in [None] + [(i, j) for i in range(ny) for j in range(nx)]:
                    js.append(job(__name__, 'merge', f'merge-{ny}x{nx}-{r1}-{r2}', cfg=dict(ny=ny, nx=nx, ref1=r1, ref2=r2, off=((0, 0), (95, 2))), wit_every=16))
    return js

"""C11 locating points in a mesh"""
from .common import *
from .c08 import cells_of
from meshiphi.mesh_generation.boundary import Boundary
from meshiphi.mesh_generation.aggregated_cellbox import AggregatedCellBox
from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh
from meshiphi.mesh_generation.neighbour_graph import NeighbourGraph

PROPERTY = dict(
    bounds='meshes of up to three pairwise disjoint cells of any real size and position (one may cross the antimeridian), any real query point off the +-180 meridian; ids given as text or numbers; queries before and after a mesh is changed by splitting, removing or adding a cell or shifting ids; also a mesh of 120 cells queried along given latitudes',
    outside='points exactly on the +-180 meridian; overlapping cells', stubs=[GEOM_STUB, NP_STUB])

DIRS = (1, 2, 3, 4, -1, -2, -3, -4)
IDS = ('12', '2', '1')   # one id is the beginning or the end of another


def locate(S, n=2, crossing=None):
    names = ['X', 'A', 'B'][:n]
    cs = cells_of(S, names, crossing)
    boxes = [AggregatedCellBox(Boundary([cs[m][1][0], cs[m][1][1]], list(cs[m][0])), {'v': 1.0}, IDS[i]) for i, m in enumerate(names)]
    mesh = EnvironmentMesh(Boundary([-90, 90], [-180, 180]), list(boxes), NeighbourGraph(), {})
    px, py = S.real('px', -180, 180), S.real('py', -90, 90)
    S.assume(S.And(px > -180, px < 180))
    inside = {}
    for i, m in enumerate(names):
        y0, y1, x0, x1 = cs[m][1]
        lon = S.Or(S.And(px > x0, px < x1), S.And(px + 360 > x0, px + 360 < x1)) if crossing == m else S.And(px > x0, px < x1)
        inside[IDS[i]] = S.And(py > y0, py < y1, lon)
    got = mesh.query_inside_mesh((py, px))
    S.check(S.Iff(S.Or(list(inside.values())), bool(got)), 'a point is inside the mesh iff it is strictly inside some cell')
    idx, e = S.call(mesh.query_index, (py, px))
    S.check(S.Iff(S.Or(list(inside.values())), e is None), 'the cell of a point is found iff the point is inside the mesh')
    if e is None:
        S.check(idx in inside and type(idx) is str, 'the answer is an id of a cell')
        for k, c in inside.items():
            S.check(S.Iff(c, idx == k), 'the cell found is the one containing the point')
        S.check(mesh.get_cellbox(idx) is boxes[IDS.index(idx)], 'the id leads back to that cell')
        S.check(mesh.get_cellbox(int(idx)) is boxes[IDS.index(idx)], 'ids may be given as numbers')
    S.check(len(mesh.agg_cellboxes) == n and all(a is b for a, b in zip(mesh.agg_cellboxes, boxes)), 'queries do not change the mesh')
    S.observe('idx', idx)
    S.reach('in' if got else 'out')


def large(S):
    """a mesh of 120 cells in mixed order, ids sharing their last or first digits"""
    nx, ny, w, h = 12, 10, 4, 2
    order = [(7 * k + 5) % (nx * ny) for k in range(nx * ny)]
    rects = {str(i): (h * (i // nx), h * (i // nx + 1), w * (i % nx), w * (i % nx + 1)) for i in order}
    boxes = [AggregatedCellBox(Boundary([r[0], r[1]], [r[2], r[3]]), {'v': 1.0}, i) for i, r in rects.items()]
    mesh = EnvironmentMesh(Boundary([-90, 90], [-180, 180]), list(boxes), NeighbourGraph(), {})
    px, py = S.real('px', -2, nx * w + 2), S.choice('py', [0.5, 9, 8, 18.5, 19.5, 21])
    row = None if py in (8, 21) else int(py // h)
    if row is not None:
        S.assume(S.Or(px < w * 2, px > w * (nx - 3)))
    inside = {str(row * nx + c): S.And(px > w * c, px < w * (c + 1)) for c in range(nx)} if row is not None else {}
    anyc = S.Or(list(inside.values())) if inside else False
    S.check(S.Iff(anyc, bool(mesh.query_inside_mesh((py, px)))), 'a point is inside the mesh iff it is strictly inside some cell (large mesh)')
    idx, e = S.call(mesh.query_index, (py, px))
    S.check(S.Iff(anyc, e is None), 'the cell of a point is found iff the point is inside the mesh (large mesh)')
    if e is None:
        S.check(idx in inside, 'the answer is an id of a cell of the row')
        for k, c in inside.items():
            S.check(S.Iff(c, idx == k), 'the cell found is the one containing the point (large mesh)')
        S.check(mesh.get_cellbox(idx) is boxes[list(rects).index(idx)], 'the id leads back to that cell')
        S.check(mesh.get_cellbox(int(idx)) is boxes[list(rects).index(idx)], 'ids may be given as numbers')
    S.reach('in' if e is None else 'out')


def history(S, change='split'):
    """answers follow changes made to the mesh"""
    w = S.real('w', 1, 20)
    rects = {'12': (0, 8, 0, w), '2': (0, 8, w, 2 * w)}
    boxes = [AggregatedCellBox(Boundary([r[0], r[1]], [r[2], r[3]]), {'v': 1.0}, i) for i, r in rects.items()]
    ng = NeighbourGraph.from_json({'12': {str(d): [] for d in DIRS}, '2': {str(d): [] for d in DIRS}})
    ng.get_graph()['12']['2'] = [2]
    ng.get_graph()['2']['-2'] = [12]
    mesh = EnvironmentMesh(Boundary([-90, 90], [-180, 180]), list(boxes), ng, {'region': {'cell_width': w, 'cell_height': 8}})
    px, py = S.real('px', -5, 60), S.real('py', -5, 15)

    def ask(cells):
        inside = {i: S.And(py > r[0], py < r[1], px > r[2], px < r[3]) for i, r in cells.items()}
        S.check(S.Iff(S.Or(list(inside.values())), bool(mesh.query_inside_mesh((py, px)))), 'a point is inside the mesh iff it is strictly inside some cell')
        idx, e = S.call(mesh.query_index, (py, px))
        S.check(S.Iff(S.Or(list(inside.values())), e is None), 'the cell of a point is found iff the point is inside the mesh')
        if e is None:
            S.check(idx in inside, 'the answer is an id of a cell of the mesh')
            for k, c in inside.items():
                S.check(S.Iff(c, idx == k), 'the cell found is the one containing the point')
            S.check([b for b in mesh.agg_cellboxes if b.get_id() == idx] == [mesh.get_cellbox(idx)], 'the id leads back to that cell')
    ask(rects)
    if change == 'split':
        mesh.split_and_replace('12')
    elif change == 'remove':
        mesh.remove_cellbox(mesh.get_cellbox('12'))
    elif change == 'add':
        mesh.add_cellbox(AggregatedCellBox(Boundary([8, 12], [0, w]), {'v': 2.0}, '1'))
    else:
        mesh.increment_ids(10)
    after = {b.get_id(): (b.get_bounds().get_lat_min(), b.get_bounds().get_lat_max(), b.get_bounds().get_long_min(), b.get_bounds().get_long_max()) for b in mesh.agg_cellboxes}
    S.check(len(after) == {'split': 5, 'remove': 1, 'add': 3, 'ids': 2}[change], 'the mesh was changed')
    ask(after)


def jobs(tier):
    js = [job(__name__, 'locate', f'locate-{n}', cfg=dict(n=n), reach=['in', 'out']) for n in (1, 2, 3)]
    js += [job(__name__, 'locate', f'locate-2-cross{c}', cfg=dict(n=2, crossing=c), reach=['in', 'out']) for c in ('X', 'A')]
    js.append(job(__name__, 'large', reach=['in', 'out']))
    js += [job(__name__, 'history', f'history-{c}', cfg=dict(change=c)) for c in ('split', 'remove', 'add', 'ids')]
    return js

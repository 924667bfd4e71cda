"""C08 splitting a cell during mesh building preserves the exact neighbour graph (one inductive step)"""
from .common import *
from .c07 import graph_is
from meshiphi.mesh_generation.boundary import Boundary
from meshiphi.mesh_generation.cellbox import CellBox
from meshiphi.mesh_generation.mesh import Mesh
from meshiphi.mesh_generation.mesh_builder import MeshBuilder
from meshiphi.mesh_generation.neighbour_graph import NeighbourGraph

PROPERTY = dict(
    bounds='inductive step: the split cell X plus up to two further cells of any real size and position (pairwise disjoint) whose neighbour lists are exactly the geometric adjacency; '
           'or a row of three (thorough: four) cells along one side, or four cells along one side of a neighbour, or all eight sides and corners occupied, by up to six cells per side (of one given geometry: twelve); X or a neighbour may cross the antimeridian, or the mesh is global; cell widths <= 90 degrees; X at any position of the cell list. Together with C07 (base case) this covers every split history.',
    outside='more than six cells of any size along one side (each neighbour is updated independently of the others; corner entries hold one cell); cells wider than 90 degrees',
    stubs=[], budget=dict(quick=600, thorough=900))


KS, K0 = (-360, 0, 360), (0,)


def cells_of(S, names, crossing=None, glob=False):
    out = {}
    plain = not crossing and not glob
    lim = 170 if plain else 180
    for n in names:
        y0, y1 = S.real(n + '.lat0', -90, 90), S.real(n + '.lat1', -90, 90)
        x0, x1 = S.real(n + '.lon0', -lim, lim), S.real(n + '.lon1', -lim, lim)
        S.assume(y0 < y1)
        if crossing == n:
            S.assume(x0 > x1)
            r = (y0, y1, x0, x1 + 360)
        else:
            S.assume(x0 < x1)
            r = (y0, y1, x0, x1)
        S.assume(S.And(r[3] - r[2] <= 90, r[3] > r[2]))
        out[n] = ((x0, x1), r)
    ns = list(names)
    for i, a in enumerate(ns):
        for b in ns[:i]:
            S.assume(disjoint_mod(S, out[a][1], out[b][1], K0 if plain else KS))
    return out


def pre_graph(S, rects, key, entry, ks=KS):
    g = {}
    for i, a in rects.items():
        m = {d: [] for d in (1, 2, 3, 4, -1, -2, -3, -4)}
        for j, b in rects.items():
            if i == j:
                continue
            for d, c in rel_mod(S, a, b, ks).items():
                if bool(c):
                    m[d].append(entry(j))
                    break
        g[key(i)] = m
    return g


def quarter_rects(r):
    y0, y1, x0, x1 = r
    ym, xm = (y0 + y1) / 2, (x0 + x1) / 2
    return {'NW': (ym, y1, x0, xm), 'NE': (ym, y1, xm, x1), 'SW': (y0, ym, x0, xm), 'SE': (y0, ym, xm, x1)}


def row_cells(S, k, side, seam=False):
    """X and a row of k cells side by side along one of its sides (they may reach beyond it)"""
    lo, hi = (170, 190) if seam else (-40, 40)
    y0, y1 = S.real('y0', -40, 40), S.real('y1', -40, 40)
    x0, x1 = S.real('x0', lo, hi), S.real('x1', lo, hi)
    S.assume(S.And(y0 < y1, x0 < x1))
    ns = side in 'NS'
    e = [S.real(f'e{i}', lo if ns else -80, hi if ns else 80) for i in range(k + 1)]
    t = [S.real(f't{i}', 0, 10) for i in range(k)]
    S.assume(S.And([a < b for a, b in zip(e, e[1:])] + [q > 0 for q in t]))
    rs = {'X': (y0, y1, x0, x1)}
    for i in range(k):
        rs[f'A{i}'] = {'N': (y1, y1 + t[i], e[i], e[i + 1]), 'S': (y0 - t[i], y0, e[i], e[i + 1]), 'E': (e[i], e[i + 1], x1, x1 + t[i]), 'W': (e[i], e[i + 1], x0 - t[i], x0)}[side]
    return wrapped(S, rs)


def beside_cells(S, k, side):
    """X and k others in a row that share an edge line with one cell A of any length on the other side of it"""
    e = [S.real(f'e{i}', -40, 40) for i in range(k + 2)]
    a0, a1 = S.real('a0', -45, 45), S.real('a1', -45, 45)
    S.assume(S.And([p < q for p, q in zip(e, e[1:])] + [a0 < a1]))
    m = k // 2
    rs = {}
    for i in range(k + 1):
        lo, hi = e[i], e[i + 1]
        rs['X' if i == m else f'B{i}'] = {'N': (0.0, 4.0, lo, hi), 'S': (0.0, 4.0, lo, hi), 'E': (lo, hi, 0.0, 4.0), 'W': (lo, hi, 0.0, 4.0)}[side]
    rs['A'] = {'N': (4.0, 10.0, a0, a1), 'S': (-6.0, 0.0, a0, a1), 'E': (a0, a1, 4.0, 10.0), 'W': (a0, a1, -6.0, 0.0)}[side]
    return wrapped(S, rs)


def beside(S, k=3, side='N', xpos=1):
    cs = beside_cells(S, k, side)
    order = [n for n in cs if n != 'X']
    order.insert(xpos, 'X')
    split(S, cs, order, K0)


def ring_cells(S, seam=False, cut=False):
    """X with all eight sides and corners occupied, each side by one cell (or two, cut at any place)"""
    o = 180 if seam else 0
    y = [S.real(f'y{i}', -40, 40) for i in range(4)]
    x = [S.real(f'x{i}', o - 40, o + 40) for i in range(4)]
    S.assume(S.And([a < b for a, b in zip(y, y[1:])] + [a < b for a, b in zip(x, x[1:])]))
    if seam:
        S.assume(S.And(x[1] < 180, x[2] > 180))
    rs = {}
    for i in range(3):
        for j in range(3):
            rs['X' if i == j == 1 else f'A{i}{j}'] = (y[i], y[i + 1], x[j], x[j + 1])
    if cut:
        c, d = S.real('c', -40, 40), S.real('d', o - 40, o + 40)
        S.assume(S.And(y[1] < c, c < y[2], x[1] < d, d < x[2]))
        r = rs.pop('A12')
        rs['Ae0'], rs['Ae1'] = (r[0], c, r[2], r[3]), (c, r[1], r[2], r[3])
        r = rs.pop('A21')
        rs['An0'], rs['An1'] = (r[0], r[1], r[2], d), (r[0], r[1], d, r[3])
    return wrapped(S, rs)


def crowd_cells(S, k=6, seam=False, fixed=False):
    """X with k cells along each side and one at each corner, at any place and of any size"""
    y, x = S.real('y', -40, 20), S.real('x', 175, 179) if seam else S.real('x', -40, 20)
    h, w = S.real('h', 1, 10), S.real('w', 1, 10)
    if fixed:
        y, x, h, w = -20.0, 10.0, 0.5, 2.0
    rs = {'X': (y, y + k * h, x, x + k * w)}
    for i in range(-1, k + 1):
        for n, r in (('s', (y - h, y, x + i * w, x + (i + 1) * w)), ('n', (y + k * h, y + (k + 1) * h, x + i * w, x + (i + 1) * w))):
            rs[f'{n}{i}'] = r
        if 0 <= i < k:
            rs[f'w{i}'] = (y + i * h, y + (i + 1) * h, x - w, x)
            rs[f'e{i}'] = (y + i * h, y + (i + 1) * h, x + k * w, x + (k + 1) * w)
    return wrapped(S, rs)


def crowd(S, k=6, seam=False, fixed=False):
    cs = crowd_cells(S, k, seam, fixed)
    order = [n for n in cs if n != 'X']
    order.insert(S.choice('pos', [0, 11]), 'X')
    split(S, cs, order, KS if seam else K0)


def wrapped(S, rs):
    out = {}
    for n, r in rs.items():
        a = r[2] - 360 if r[2] >= 180 else r[2]
        b = r[3] - 360 if r[3] > 180 else r[3]
        out[n] = ((a, b), r)
    return out


def row(S, k=3, side='N', seam=False, xpos=0):
    cs = row_cells(S, k, side, seam)
    order = [n for n in cs if n != 'X']
    order.insert(xpos, 'X')
    split(S, cs, order, KS if seam else K0)


def ring(S, seam=False, cut=False, xpos=4):
    cs = ring_cells(S, seam, cut)
    order = [n for n in cs if n != 'X']
    order.insert(xpos, 'X')
    split(S, cs, order, KS if seam else K0)


def step(S, n=1, crossing=None, glob=False, xpos=0):
    names = ['X', 'A', 'B'][:n + 1]
    cs = cells_of(S, names, crossing, glob)
    if glob:
        # a global mesh: X or a neighbour lies on the -180/180 seam
        S.assume(S.Or(cs['X'][1][2] == -180, cs['X'][1][3] == 180))
    order = names[1:]
    order.insert(xpos, 'X')
    split(S, cs, order, KS if crossing or glob else K0, glob)


def split(S, cs, order, ks, glob=False):
    n = len(order) - 1
    rects = {i: cs[nm][1] for i, nm in enumerate(order)}
    # at least one of the others touches X (otherwise nothing to preserve)
    ng = NeighbourGraph()
    ng.neighbour_graph = pre_graph(S, rects, lambda i: i, lambda i: i, ks)
    xi = order.index('X')
    S.assume(all(any(v for v in ng.neighbour_graph[i].values()) for i in rects) if 0 < n < 3 else True)
    S.assume(any(v for v in ng.neighbour_graph[xi].values()) if n else True)
    ng.set_global_mesh(glob)
    boxes = []
    for i, nm in enumerate(order):
        r = cs[nm][1]
        c = CellBox(Boundary([r[0], r[1]], list(cs[nm][0])), str(i))
        c.set_data_source([])
        boxes.append(c)
    X = boxes[xi]
    mb = builder()
    mb.neighbour_graph = ng
    mb.mesh = Mesh(Boundary([-90, 90], [-180, 180]), list(boxes), ng, 3)
    mb.split_and_replace(X)
    cl = mb.mesh.cellboxes
    S.check(len(cl) == n + 5 and cl[xi] is None, 'the split cell is replaced by four')
    S.check(all(cl[i] is boxes[i] for i in rects if i != xi), 'other cells stay in place')
    if len(cl) != n + 5:
        return
    q = quarter_rects(cs['X'][1])
    post = {i: r for i, r in rects.items() if i != xi}
    for k, box in enumerate(cl[n + 1:]):
        S.check(box.get_id() == str(n + 1 + k), 'ids of new cells are their positions in the cell list')
        which = ('NW', 'NE', 'SW', 'SE')[k]
        post[n + 1 + k] = q[which]
        S.check(S.And(S.eq(box.get_bounds().get_lat_min(), q[which][0]), S.eq(box.get_bounds().getcy() * 2, q[which][0] + q[which][1])), 'new cells are the quarters')
    graph_is(S, mb.neighbour_graph.get_graph(), post, lambda i: i, ks=ks)
    S.observe('g', {str(k): {str(d): list(v) for d, v in m.items()} for k, m in mb.neighbour_graph.get_graph().items()})


def jobs(tier):
    js = [job(__name__, 'step', 'alone', cfg=dict(n=0)),
          job(__name__, 'step', 'one', cfg=dict(n=1)),
          job(__name__, 'step', 'one-last', cfg=dict(n=1, xpos=1)),
          job(__name__, 'step', 'one-Xcross', cfg=dict(n=1, crossing='X')),
          job(__name__, 'step', 'one-Across', cfg=dict(n=1, crossing='A')),
          job(__name__, 'step', 'one-global', cfg=dict(n=1, glob=True)),
          job(__name__, 'step', 'two', cfg=dict(n=2, xpos=1), wit_every=8)]
    for sd in 'NESW':
        js.append(job(__name__, 'row', f'row-{sd}', cfg=dict(k=3, side=sd, xpos=1), wit_every=8))
    js += [job(__name__, 'beside', f'beside-{sd}', cfg=dict(k=3, side=sd), wit_every=4) for sd in 'NESW']
    js += [job(__name__, 'row', 'row-seam', cfg=dict(k=2, side='N', seam=True), wit_every=8),
           job(__name__, 'crowd', 'crowd', cfg=dict(k=5)), job(__name__, 'crowd', 'crowd-6', cfg=dict(k=6)), job(__name__, 'crowd', 'crowd-12', cfg=dict(k=12, fixed=True)),
           job(__name__, 'ring', 'ring', cfg=dict()),
           job(__name__, 'ring', 'ring-cut', cfg=dict(cut=True)),
           job(__name__, 'ring', 'ring-seam', cfg=dict(seam=True))]
    if tier == 'thorough':
        for sd in 'NESW':
            js.append(job(__name__, 'row', f'row4-{sd}', cfg=dict(k=4, side=sd, xpos=2), wit_every=8))
        js += [job(__name__, 'row', f'row-seam-{sd}', cfg=dict(k=3, side=sd, seam=True), wit_every=8) for sd in 'NESW']
        js.append(job(__name__, 'ring', 'ring-seam-cut', cfg=dict(seam=True, cut=True)))
    if tier == 'thorough':
        js += [job(__name__, 'step', 'two-Xcross', cfg=dict(n=2, crossing='X'), wit_every=8),
               job(__name__, 'step', 'two-global', cfg=dict(n=2, glob=True), wit_every=8)]
    return js

"""C07 initial neighbour graph"""
import numpy as np
from .common import *
from .c03 import region
from meshiphi.mesh_generation.boundary import Boundary
from meshiphi.mesh_generation.mesh_builder import MeshBuilder
from meshiphi.mesh_generation.neighbour_graph import NeighbourGraph

PROPERTY = dict(
    bounds='regions of nx x ny cells, nx <= 6, ny <= 5 (thorough: up to 8 x 5) with any real origin and cell size; regional, crossing the antimeridian, or global with 2, 4, 8 or 16 columns; also grids of 44 x 3, 3 x 22, 12 x 11, 50 x 2, 64 x 2 and 16 x 16 cells on given origins',
    outside='grids larger than those; global meshes of one column; non-dyadic 360/nx', stubs=[NP_STUB])


def graph_is(S, graph, cells, keyf, msgs='', entry=None, ks=(-360, 0, 360)):
    """graph == geometric adjacency of cells {id: rect}"""
    entry = entry or (lambda i: i)
    S.check(set(graph.keys()) == {keyf(i) for i in cells}, 'one entry per cell' + msgs)
    for i, a in cells.items():
        m = graph.get(keyf(i))
        if m is None:
            continue
        S.check(sorted(int(d) for d in m) == [-4, -3, -2, -1, 1, 2, 3, 4], 'eight directions per cell' + msgs)
        by = {int(d): list(v) for d, v in m.items()}
        known = {entry(j) for j in cells}
        for d, lst in by.items():
            S.check(all(type(x) is type(entry(i)) for x in lst), 'neighbour entries keep their type' + msgs)
            S.check(all(x in known for x in lst), 'neighbours are cells of the mesh' + msgs)
            S.check(len(set(lst)) == len(lst), 'each neighbour listed once' + msgs)
        for j, b in cells.items():
            if i == j:
                S.check(all(entry(j) not in v for v in by.values()), 'no cell is its own neighbour' + msgs)
                continue
            spec = rel_mod(S, a, b, ks)
            for d, c in spec.items():
                S.check(S.Iff(c, entry(j) in by.get(d, [])), f'neighbour in direction {d} iff touching there' + msgs)


def initial(S, kind='regional', nx=2, ny=2):
    lat0, ch, lon0, cw, lon1 = region(S, kind, nx, ny)
    if kind == 'crossing':
        S.assume(nx * cw < 240)
    mb = MeshBuilder({'region': {'lat_min': lat0, 'lat_max': lat0 + ny * ch, 'long_min': lon0, 'long_max': lon1, 'start_time': '2020-01-01', 'end_time': '2020-02-01',
                                 'cell_width': cw, 'cell_height': ch}, 'data_sources': [], 'splitting': {'split_depth': 1, 'minimum_datapoints': 1}})
    rects = {r * nx + c: (lat0 + r * ch, lat0 + (r + 1) * ch, lon0 + c * cw, lon0 + (c + 1) * cw) for r in range(ny) for c in range(nx)}
    graph_is(S, mb.mesh.neighbour_graph.get_graph(), rects, lambda i: i)


def large(S, kind='regional', nx=12, ny=11):
    """a large grid on one of a few given origins: the whole graph against the grid arithmetic"""
    lat0, ch, lon0, cw, lon1 = region(S, kind, nx, ny, fixed=True)
    mb = MeshBuilder({'region': {'lat_min': lat0, 'lat_max': lat0 + ny * ch, 'long_min': lon0, 'long_max': lon1, 'start_time': '2020-01-01', 'end_time': '2020-02-01',
                                 'cell_width': cw, 'cell_height': ch}, 'data_sources': [], 'splitting': {'split_depth': 1, 'minimum_datapoints': 1}})
    graph = mb.mesh.neighbour_graph.get_graph()
    S.check(set(graph) == set(range(nx * ny)), 'one entry per cell')
    steps = {1: (1, 1), 2: (0, 1), 3: (-1, 1), 4: (-1, 0), -1: (-1, -1), -2: (0, -1), -3: (1, -1), -4: (1, 0)}
    for i in range(nx * ny):
        r, c = divmod(i, nx)
        got = {int(d): list(v) for d, v in graph.get(i, {}).items()}
        for d, (dr, dc) in steps.items():
            rr, cc = r + dr, c + dc
            if kind == 'global':
                cc %= nx
            want = [rr * nx + cc] if 0 <= rr < ny and 0 <= cc < nx else []
            S.check(got.get(d) == want, f'neighbour in direction {d} iff touching there (large grid)')


def jobs(tier):
    js = []
    sizes = [(1, 1), (1, 2), (3, 1), (2, 3), (3, 3), (4, 2), (2, 5), (3, 4), (6, 1)] if tier == 'quick' else [(i, j) for i in range(1, 9) for j in range(1, 6)]
    for kind in ('regional', 'crossing', 'global'):
        for nx, ny in sizes + ([(4, 3), (8, 2), (2, 1), (2, 3), (16, 2), (4, 5)] if kind == 'global' and tier == 'quick' else []):
            if kind == 'global' and nx not in (2, 4, 8, 16):
                continue
            js.append(job(__name__, 'initial', f'{kind}-{nx}x{ny}', cfg=dict(kind=kind, nx=nx, ny=ny)))
    for kind, nx, ny in (('regional', 44, 3), ('regional', 3, 22), ('regional', 12, 11), ('crossing', 50, 2), ('crossing', 12, 11), ('global', 64, 2), ('global', 16, 16)):
        js.append(job(__name__, 'large', f'large-{kind}-{nx}x{ny}', cfg=dict(kind=kind, nx=nx, ny=ny)))
    return js

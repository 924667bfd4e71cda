"""C03 the initial grid tiles the region"""
from .common import *
from meshiphi.mesh_generation.boundary import Boundary
from meshiphi.mesh_generation.mesh_builder import MeshBuilder

PROPERTY = dict(
    bounds='any real region origin and cell size; region = nx x ny cells with nx <= 4, ny <= 3 (thorough: 8 x 6), also 16 x 1 and 1 x 9; regional, crossing the antimeridian, or global; also grids of 44 x 3, 3 x 22, 12 x 11, 50 x 2, 64 x 2 and 16 x 16 cells on given origins',
    outside='grids larger than those; cell sizes whose multiples round in double arithmetic',
    stubs=[NP_STUB])


ORIGINS = {'regional': [(-64, 1, -100, 2), (0, 4, 0, 1), (-90, 0.5, -180, 0.25)],
           'crossing': [(-64, 1, 160, 2), (0, 4, 150, 4), (-90, 0.5, 179, 0.25)],
           'global': [(-64, 1), (0, 4), (-90, 0.5)]}


def region(S, kind, nx, ny, fixed=False):
    """(lat0, ch, lon0, cw, lon_max) for a region of nx x ny cells"""
    if fixed:
        o = S.choice('origin', ORIGINS[kind])
        lat0, ch = o[:2]
        if kind == 'global':
            return lat0, ch, -180, 360 / nx, 180
        lon0, cw = o[2:]
        end = lon0 + nx * cw
        return lat0, ch, lon0, cw, end if end <= 180 else end - 360
    lat0 = S.real('lat0', -90, 90)
    ch = S.real('ch', 0, 180)
    S.assume(ch > 0)
    S.assume(lat0 + ny * ch <= 90)
    if kind == 'global':
        return lat0, ch, -180, 360 / nx, 180
    lon0 = S.real('lon0', -180, 180)
    cw = S.real('cw', 0, 360)
    S.assume(cw > 0)
    end = lon0 + nx * cw
    if kind == 'regional':
        S.assume(end <= 180)
        S.assume(S.Or(lon0 > -180, end < 180))
        return lat0, ch, lon0, cw, end
    S.assume(end > 180)
    S.assume(end - 360 < lon0)
    S.assume(S.And(lon0 < 180, cw < 180))
    return lat0, ch, lon0, cw, end - 360


def tile(S, kind='regional', nx=1, ny=1, fixed=False):
    lat0, ch, lon0, cw, lon1 = region(S, kind, nx, ny, fixed)
    time = ['2020-01-01', '2020-02-01']
    mb = MeshBuilder({'region': {'lat_min': lat0, 'lat_max': lat0 + ny * ch, 'long_min': lon0, 'long_max': lon1, 'start_time': time[0], 'end_time': time[1],
                                 'cell_width': cw, 'cell_height': ch}, 'data_sources': [], 'splitting': {'split_depth': 1, 'minimum_datapoints': 1}})
    cells = mb.mesh.get_cellboxes()
    S.check(len(cells) == nx * ny, 'one cell per grid square')
    if len(cells) != nx * ny:
        return
    for r in range(ny):
        for c in range(nx):
            cell = cells[r * nx + c]
            cb = cell.get_bounds()
            S.check(cell.get_id() == str(r * nx + c), 'cells are numbered row by row from the south west')
            S.check(S.eq(cb.get_lat_min(), lat0 + r * ch), 'south edge')
            S.check(S.eq(cb.get_lat_max(), lat0 + (r + 1) * ch), 'north edge')
            w, e = lon0 + c * cw, lon0 + (c + 1) * cw
            S.check(S.Or([S.eq(cb.get_long_min(), w + k) for k in (0, -360)]), 'west edge')
            S.check(S.Or([S.eq(cb.get_long_max(), e + k) for k in (0, -360)]), 'east edge')
            S.check(S.And(cb.get_long_min() >= -180, cb.get_long_min() <= 180, cb.get_long_max() >= -180, cb.get_long_max() <= 180), 'longitudes in range')
            S.check(S.Or(e > 180, cb.get_long_min() < cb.get_long_max()), 'only the cells across or beyond the antimeridian end west of where they begin')
            S.check(S.eq(cb.get_width(), cw), 'every cell has the configured width')
            S.check(list(cb.get_time_range()) == time, 'cells inherit the time range')
    S.observe('b', [[x.get_bounds().get_long_min(), x.get_bounds().get_long_max()] for x in cells])


def jobs(tier):
    js = []
    sizes = [(1, 1), (2, 1), (1, 3), (3, 2), (4, 2)] if tier == 'quick' else [(i, j) for i in range(1, 9) for j in range(1, 7)]
    for kind in ('regional', 'crossing', 'global'):
        for nx, ny in sizes + ([(16, 1), (1, 9)] if tier == 'quick' else [(16, 2), (1, 12)]):
            if kind == 'global' and nx in (3, 5, 6, 7):
                continue                 # 360/nx not dyadic
            if kind == 'global' and nx < 2:
                continue
            js.append(job(__name__, 'tile', f'{kind}-{nx}x{ny}', cfg=dict(kind=kind, nx=nx, ny=ny)))
    for kind, nx, ny in (('regional', 44, 3), ('regional', 3, 22), ('regional', 12, 11), ('crossing', 50, 2), ('crossing', 12, 11), ('global', 64, 2), ('global', 16, 16)):
        js.append(job(__name__, 'tile', f'large-{kind}-{nx}x{ny}', cfg=dict(kind=kind, nx=nx, ny=ny, fixed=True)))
    return js

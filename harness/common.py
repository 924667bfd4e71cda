"""Shared specification helpers (independent of the code under test)."""
import contextlib
import os
import shutil
import sys
import tempfile
import types


@contextlib.contextmanager
def swapped(lib, **new):
    """replace functions of a library, also where a module of the repository has imported them by name"""
    done = []
    for k, f in new.items():
        old = getattr(lib, k)
        for m in [lib] + [m for n, m in list(sys.modules.items()) if n.split('.')[0] == 'meshiphi' and m is not None]:
            for n, v in list(vars(m).items()):
                if v is old and (m is not lib or n == k):
                    done.append((m, n, old))
                    setattr(m, n, f)
    try:
        yield
    finally:
        for m, n, old in done:
            setattr(m, n, old)


@contextlib.contextmanager
def csv_files(S, files):
    """pandas.read_csv reads the given tables: in memory, in replays from real files"""
    import pandas as pd
    d = None if S.symbolic else tempfile.mkdtemp(prefix='csv')
    real = pd.read_csv

    def read_csv(f, *a, **k):
        if S.symbolic:
            return files[str(f)].copy()
        p = os.path.join(d, str(sorted(files).index(str(f))))
        files[str(f)].to_csv(p, index=False)
        k.setdefault('float_precision', 'round_trip')
        return real(p, *a, **k)
    try:
        with swapped(pd, read_csv=read_csv):
            yield
    finally:
        if d:
            shutil.rmtree(d)


def need(*names):
    import importlib
    return [importlib.import_module(n) for n in names]


def ge0(S, *xs):
    return S.And([x >= 0 for x in xs])


def rect(S, p, lo=-180, hi=180, latlo=-90, lathi=90, maxw=None):
    """symbolic non-degenerate rectangle with no antimeridian crossing: (lat0, lat1, lon0, lon1)"""
    y0, y1 = S.real(p + '.lat0', latlo, lathi), S.real(p + '.lat1', latlo, lathi)
    x0, x1 = S.real(p + '.lon0', lo, hi), S.real(p + '.lon1', lo, hi)
    S.assume(y0 < y1)
    S.assume(x0 < x1)
    if maxw is not None:
        S.assume(x1 - x0 <= maxw)
    return y0, y1, x0, x1


DIRS = {'NE': 1, 'E': 2, 'SE': 3, 'S': 4, 'SW': -1, 'W': -2, 'NW': -3, 'N': -4}


def rel(S, a, b):
    """spec: dict direction -> condition 'b lies in that direction of a, touching' for non-crossing rectangles
    a, b = (lat0, lat1, lon0, lon1) in one common longitude frame"""
    ay0, ay1, ax0, ax1 = a
    by0, by1, bx0, bx1 = b
    e, w, n, s = (bx0 == ax1), (bx1 == ax0), (by0 == ay1), (by1 == ay0)
    latov = S.And(by0 < ay1, by1 > ay0)
    lonov = S.And(bx0 < ax1, bx1 > ax0)
    return {1: S.And(e, n), 2: S.And(e, latov), 3: S.And(e, s), 4: S.And(s, lonov),
            -1: S.And(w, s), -2: S.And(w, latov), -3: S.And(w, n), -4: S.And(n, lonov)}


def rel_mod(S, a, b, ks=(-360, 0, 360)):
    """touching relation on the globe: longitudes compared modulo 360 (b tried at -360, 0, +360)"""
    out = {d: [] for d in (1, 2, 3, 4, -1, -2, -3, -4)}
    if len(ks) == 1:
        return rel(S, a, b)
    for k in ks:
        r = rel(S, a, (b[0], b[1], b[2] + k, b[3] + k))
        for d in out:
            out[d].append(r[d])
    return {d: S.Or(v) for d, v in out.items()}


def unwrapped(S, lat0, lat1, lon0, lon1):
    """(lat0,lat1,lon0,lon1') with lon1' >= lon0 by adding 360 when the cell crosses the antimeridian"""
    if lon1 > lon0:
        return lat0, lat1, lon0, lon1
    return lat0, lat1, lon0, lon1 + 360


def disjoint(S, a, b):
    return S.Or(a[1] <= b[0], b[1] <= a[0], a[3] <= b[2], b[3] <= a[2])


def disjoint_mod(S, a, b, ks=(-360, 0, 360)):
    return S.And([disjoint(S, a, (b[0], b[1], b[2] + k, b[3] + k)) for k in ks])


def fake_cell(bounds, id_='0'):
    from meshiphi.mesh_generation.aggregated_cellbox import AggregatedCellBox
    return AggregatedCellBox(bounds, {}, id_)


_BUILDER = []


def builder():
    """a real MeshBuilder (constructed from a one-cell configuration without data sources) whose parts a harness may replace"""
    import copy
    from meshiphi.mesh_generation.mesh_builder import MeshBuilder
    if not _BUILDER:
        _BUILDER.append(MeshBuilder({'region': {'lat_min': 0, 'lat_max': 5, 'long_min': 0, 'long_max': 5, 'start_time': '2020-01-01', 'end_time': '2020-02-01',
                                                'cell_width': 5, 'cell_height': 5}, 'data_sources': [], 'splitting': {'split_depth': 1, 'minimum_datapoints': 1}}))
    return copy.copy(_BUILDER[0])


def job(mod, fn, name=None, **kw):
    d = dict(mod=mod, fn=fn, name=name or fn)
    d.update(kw)
    return d


GEOM_STUB = 'shapely Polygon/MultiPolygon/Point/wkt replaced by an exact axis-aligned-rectangle model (contains = strict interior, wkt round-trips coordinates)'
NP_STUB = 'numpy / math functions on symbolic arguments replaced by exact-rational equivalents; real numpy for concrete arguments'

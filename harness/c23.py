"""C23 raster and GeoJSON export"""
import contextlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import types
from .common import *
from .data import isnan
from meshiphi.mesh_generation.boundary import Boundary
from meshiphi.mesh_generation.aggregated_cellbox import AggregatedCellBox
from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh
from meshiphi.mesh_generation.neighbour_graph import NeighbourGraph

PROPERTY = dict(
    bounds='meshes of one to four cells, any real bounds and any real inner edges (also across the antimeridian and around the globe), images of up to 3 x 4 pixels; any real cell values, missing values, lists, absent names; GeoJSON of up to two cells with numbers, lists, flags and missing values; also images of 128 cells or 2048 pixels and 60 features with one value any real',
    outside='what GDAL does with the raster handed to it (file format, reprojection, colouring); the resolution beyond the listed ones; meshes without any value; text values in GeoJSON',
    stubs=['GDAL (osgeo), gdaldem and temporary files replaced by recorders', 'GeoDataFrame.to_json modelled (one feature per row, NaN as null); replays use geopandas', GEOM_STUB, NP_STUB], budget=dict(quick=600, thorough=900))


class Rec:
    """records the raster"""
    def __init__(self, S):
        self.S = S
        self.created, self.gt, self.arr, self.copies, self.warps, self.cmds, self.epsg = [], None, None, [], [], [], None

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        self.S.missing(f'gdal .{k}')

    # driver
    def Create(self, name, xsize, ysize, bands=1, dtype=None, *a, **k):
        self.created.append((xsize, ysize))
        return self

    def CreateCopy(self, path, ds, *a, **k):
        self.copies.append((str(path), ds is self, self.arr, self.gt))
        return self

    # dataset
    def SetGeoTransform(self, gt):
        self.gt = list(gt)

    def SetProjection(self, w):
        self.proj = w

    def GetRasterBand(self, i):
        return self

    def WriteArray(self, a, *x, **k):
        if x or k:
            self.S.missing('WriteArray of a part')
        self.arr = a
    FlushCache = SetNoDataValue = lambda self, *a: None


@contextlib.contextmanager
def recorder(S, scratch):
    r = Rec(S)

    def lacks(name):
        def get(k):
            if k.startswith('__'):
                raise AttributeError(k)
            S.missing(f'{name}.{k}')
        return get

    class SR:
        def __init__(self, *a):
            self.code = None

        def ImportFromEPSG(self, c):
            self.code = int(c)

        def ExportToWkt(self):
            return f'EPSG:{self.code}'

        def __getattr__(self, k):
            if k.startswith('__'):
                raise AttributeError(k)
            S.missing(f'SpatialReference.{k}')
    gdal = types.ModuleType('osgeo.gdal')
    gdal.GetDriverByName = lambda n: r
    gdal.GDT_Float32, gdal.GDT_Float64 = 6, 7
    gdal.UseExceptions = gdal.DontUseExceptions = lambda *a: None

    def warp(dst, src, options=None, **k):
        if options is not None or 'dstSRS' not in k:
            S.missing('gdal.Warp with options')
        d = k['dstSRS']
        r.warps.append((str(dst), str(src), d.ExportToWkt() if isinstance(d, SR) else str(d)))
    gdal.Warp = warp
    osr = types.ModuleType('osgeo.osr')
    osr.SpatialReference = SR
    ogr = types.ModuleType('osgeo.ogr')
    og = types.ModuleType('osgeo')
    og.gdal, og.osr, og.ogr = gdal, osr, ogr
    for m in (gdal, osr, ogr):
        m.__getattr__ = lacks(m.__name__)
    mods = {'osgeo': og, 'osgeo.gdal': gdal, 'osgeo.osr': osr, 'osgeo.ogr': ogr}
    old = {k: sys.modules.get(k) for k in mods}
    note = lambda c, *a, **k: r.cmds.append(c) or subprocess.CompletedProcess(c, 0)
    zero = lambda c, *a, **k: r.cmds.append(c) or 0
    popen = lambda c, *a, **k: S.missing('Popen')
    td = tempfile.tempdir
    cwd = os.getcwd()
    sys.modules.update(mods)
    tempfile.tempdir = scratch
    os.chdir(scratch)
    try:
        with swapped(subprocess, check_call=zero, call=zero, run=note, check_output=lambda c, *a, **k: r.cmds.append(c) or b'', Popen=popen), swapped(os, system=zero):
            yield r
    finally:
        os.chdir(cwd)
        tempfile.tempdir = td
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


def lon(x):
    return x - 360 if x > 180 else x


def raster(S, cells=(1, 2), res=(1, 2), region='plain', vals='fixed', hole=False, fixed=None, fmt='TIF', proj=None, grid=False):
    """cells = (rows, columns) of unequal cells"""
    if fixed:
        y0, y1 = S.choice('lats', fixed)
    else:
        y0, y1 = S.real('y0', -90, 90), S.real('y1', -90, 90)
        S.assume(y0 < y1)
    if region == 'globe':
        x0, x1 = -180, 180
    elif grid:
        x0, x1 = S.choice('lons', [(0.0, 4.0 * cells[1]), (-64.0, -64 + 0.5 * cells[1])])
    elif region == 'crossing':
        x0, x1 = S.real('x0', 0, 180), S.real('x1', 180, 360)
        S.assume(S.And(x0 < 180, x1 > 180))
    else:
        x0, x1 = S.real('x0', -180, 180), S.real('x1', -180, 180)
        S.assume(x0 < x1)
    ys, xs = [y0], [x0]
    for k in range(cells[0] - 1):
        if grid:
            ys.append(y0 + (y1 - y0) * (k + 1) / cells[0])
            continue
        v = S.real(f'ym{k}', -90, 90)
        S.assume(S.And(v > ys[-1], v < y1))
        ys.append(v)
    for k in range(cells[1] - 1):
        if grid:
            xs.append(x0 + (x1 - x0) * (k + 1) / cells[1])
            continue
        v = S.real(f'xm{k}', -180, 360)
        S.assume(S.And(v > xs[-1], v < x1))
        xs.append(v)
    ys.append(y1)
    xs.append(x1)
    boxes, rects = [], []
    n = 0
    nan = float('nan')
    for i in range(cells[0]):
        for j in range(cells[1]):
            n += 1
            if hole and n == 2:
                continue
            if vals == 'fixed':
                v = w = 10.0 * n
            elif vals == 'real':
                v = w = S.real(f'v{n}', -5, 5) if n == 1 else 10.0 * n
            elif vals == 'list':
                v = [S.real(f'v{n}a', -9, 3), 2.0] if n == 1 else [23.0, 24.0, 28.0] if n == 2 else [2.0, float('inf')]
                w = sum(v) / len(v) if n < 3 else nan
            elif vals == 'absent':
                v, w = None, nan
                if n == 1:
                    v = w = S.real('v1', 1, 5)
            else:
                v = w = S.real('v1', 1, 5) if n == 1 else nan
            d = {'other': -77.0, 'thing': v}
            if v is None:
                del d['thing']
            rects.append(((ys[i], ys[i + 1], xs[j], xs[j + 1]), w))
            boxes.append(AggregatedCellBox(Boundary([ys[i], ys[i + 1]], [lon(xs[j]) if j else x0, lon(xs[j + 1]) if region != 'globe' or j + 1 < cells[1] else 180]), d, str(n)))
    bounds = Boundary([y0, y1], [x0, lon(x1) if region == 'crossing' else x1])
    m = EnvironmentMesh(bounds, boxes, NeighbourGraph(), {})
    nl, nc = res
    d = tempfile.mkdtemp(prefix='c23')
    try:
        p = {'data_name': 'thing', 'sampling_resolution': [nl, nc]}
        if proj is not None:
            p['projection'] = proj
        pf = os.path.join(d, 'p.json')
        with open(pf, 'w') as f:
            json.dump(p, f)
        path = os.path.join(d, 'out.tif')
        with recorder(S, d) as r:
            if fmt == 'direct':
                _, e = S.call(m.to_tif, pf, path)
            else:
                _, e = S.call(m.save, path, fmt, pf)
    finally:
        shutil.rmtree(d)
    if isinstance(e, ValueError) and (vals in ('nan', 'absent', 'list') or hole) and r.arr is not None and all(isnan(v) for v in (r.arr.reshape(-1) if S.symbolic else r.arr.reshape(-1).astype(float))):
        S.reach('empty')
        e = None                        # nothing to colour: outside, but the raster handed over counts
    S.check(e is None, 'the raster is made')
    if e is not None:
        return
    S.check(len(r.copies) == 1 and r.copies[0][0] == path and r.copies[0][1], 'the raster is saved where asked')
    S.check(r.created == [(nc, nl)], 'the image has the given numbers of lines and columns')
    S.check([(a, b, c) for a, b, c in r.warps if c != 'EPSG:4326'] == ([(path, path, f'EPSG:{proj}')] if proj not in (None, '4326', 4326) else []), 'the image is transformed to the given projection')
    A = r.arr
    S.check(getattr(A, 'shape', None) == (nl, nc), 'the image has the given numbers of lines and columns')
    if getattr(A, 'shape', None) != (nl, nc):
        return
    W, H = x1 - x0, y1 - y0
    g = r.gt
    S.check(S.And(S.eq(g[0], x0), S.eq(g[1] * nc, W), g[2] == 0, S.eq(g[3], y1), g[4] == 0, g[5] * nl + H <= 1e-9, g[5] * nl + H >= -1e-9), 'the image is placed on the mesh, north up')
    for i in range(nl):
        for j in range(nc):
            py, px = y1 - (2 * i + 1) * H / (2 * nl), x0 + (2 * j + 1) * W / (2 * nc)
            got = A[i, j]
            if not S.symbolic:
                got = float(got)
            hit = None
            near = []
            for (a, b, c, dd), w in rects:
                if S.symbolic:
                    if S.And(py > a, py < b, px > c, px < dd):
                        hit = w
                        break
                    if S.And(py >= a, py <= b, px >= c, px <= dd):
                        near.append(w)
                else:
                    t = 1e-9
                    if a + t < py < b - t and c + t < px < dd - t and abs(px - 180) > t:
                        hit = w
                        break
                    if a - t <= py <= b + t and c - t <= px <= dd + t:
                        near.append(w)
            if hit is not None:
                S.check(same(S, got, hit), 'a pixel has the value of the cell around its centre')
                S.reach('in')
            elif near:
                S.check(S.Or([same(S, got, w) for w in near] + ([isnan(got)] if not S.symbolic and hole else [])), 'a pixel centred on an edge has the value of a cell there')
                S.reach('edge')
            else:
                S.check(isnan(got), 'a pixel outside of all cells has no value')
                S.reach('out')


def same(S, g, w):
    if isnan(w) or isnan(g):
        return isnan(w) and isnan(g)
    if S.symbolic:
        return S.eq(g, w)
    return abs(g - w) <= 1e-4 * max(1, abs(w))


class FGdf:
    """GeoDataFrame as far as needed in symbolic mode"""
    def __init__(self, df, crs=None, geometry=None):
        if not isinstance(geometry, (str, type(None))):
            df = df.assign(geometry=geometry)
            geometry = 'geometry'
        self.df, self.g = df, geometry or 'geometry'

    def to_json(self, *a, **k):
        from symx.patch import j_dumps
        out = []
        for i in self.df.index:
            row = self.df.loc[i]
            pr = {}
            for c in self.df.columns:
                if c != self.g:
                    v = row[c]
                    pr[c] = None if v is None or isnan(v) else v.item() if hasattr(v, 'dtype') else v
            g = row[self.g]
            co = [[[list(p) for p in q.exterior.coords]] for q in getattr(g, 'geoms', [g])]
            out.append({'id': str(i), 'type': 'Feature', 'properties': pr, 'geometry': {'type': g.geom_type, 'coordinates': co if g.geom_type == 'MultiPolygon' else co[0]}})
        return j_dumps({'type': 'FeatureCollection', 'features': out})

    def __getattr__(self, n):
        from symx.core import taint
        taint('GeoDataFrame.' + n)


def tables(S):
    import geopandas
    return swapped(geopandas, GeoDataFrame=FGdf) if S.symbolic else contextlib.nullcontext()


def geojson(S, n=1, crossing=False, only=None, via='direct'):
    cs = []
    for i in range(n):
        y0, y1, x0, x1 = rect(S, f'c{i}', lo=0 if crossing and i == 0 else -180, hi=360 if crossing and i == 0 else 180)
        if crossing and i == 0:
            S.assume(S.And(x0 > 0, x0 < 180, x1 > 180, x1 < 360))
        nan = float('nan')
        v = {'num': S.val(f'n{i}', nan=i == 0, lo=-100, hi=100), 'flag': bool(S.cint(f'f{i}', 0, 1)), 'list': [S.real(f'l{i}', -10, 10), 4.0] + ([9.0, -3.0] if i == 0 else [9.0]), 'inf': S.choice(f'i{i}', [5.0, float('inf'), -float('inf')])}
        w = {'num': v['num'], 'flag': 1 if v['flag'] else nan, 'list': (v['list'][0] + 10) / 4 if i == 0 else (v['list'][0] + 13) / 3, 'inf': nan if v['inf'] != 5.0 else 5.0}
        if i == 1:
            v['late'] = w['late'] = 7.5
            v['gap'], w['gap'] = [1.0, nan], nan
        else:
            v['gap'], w['gap'] = [3.0, 5.0], 4.0
        cs.append(((y0, y1, x0, x1), v, w, '7%d' % i))
    m = EnvironmentMesh(Boundary([0, 1], [0, 1]), [AggregatedCellBox(Boundary([r[0], r[1]], [r[2], lon(r[3])]), dict(v), k) for r, v, _, k in cs], NeighbourGraph(), {})
    d = tempfile.mkdtemp(prefix='c23')
    try:
        pf = None
        if only:
            pf = os.path.join(d, 'p.json')
            with open(pf, 'w') as f:
                json.dump({'data_name': only}, f)
        if via == 'direct':
            with tables(S):
                js, e = S.call(m.to_geojson, *([pf] if pf or S.flag('none') else []))
        else:
            path = os.path.join(d, 'o.json')
            with tables(S):
                _, e = S.call(m.save, path, via, *([pf] if pf else []))
            if e is None:
                with open(path) as f:
                    js = f.read()
                from symx.patch import j_loads
                js = j_loads(js) if S.symbolic else json.loads(js)
    finally:
        shutil.rmtree(d)
    S.check(e is None, 'the mesh is exported')
    if e is not None:
        return
    fs = js.get('features', [])
    S.check(js.get('type') == 'FeatureCollection' and len(fs) == n, 'there is one feature per cell')
    if len(fs) != n:
        return
    names = {k for c in cs for k in c[2]}
    for f, (r, v, w, k) in zip(fs, cs):
        p = f['properties']
        S.check(p.get('id') == k, 'features keep the ids and the order of the cells')
        want = {only} if only else names
        S.check(set(p) - {'id'} == want, 'a feature has the values of the cell, or the one asked for')
        for nm in want & set(p):
            x = w.get(nm, float('nan'))
            g = p[nm]
            S.check(g is None if isnan(x) else g is not None and S.eq(g, x), 'a feature has the value of its cell, lists their mean, flags 1 if set, and nothing where it is missing')
        co = f['geometry']['coordinates']
        if crossing and k == '70':
            S.check(f['geometry']['type'] == 'MultiPolygon' and len(co) == 2, 'a cell across the antimeridian has two parts')
            if f['geometry']['type'] == 'MultiPolygon' and len(co) == 2:
                ring(S, co[0][0], (r[0], r[1], r[2], 180))
                ring(S, co[1][0], (r[0], r[1], -180, r[3] - 360))
        else:
            S.check(f['geometry']['type'] == 'Polygon' and len(co) == 1, 'a cell is a polygon')
            if f['geometry']['type'] == 'Polygon':
                ring(S, co[0], r)
    S.reach('ok')


def geolarge(S):
    """a feature for each of 60 cells"""
    v, at, nan = S.real('v', -10, 10), S.choice('at', [0, 33, 59]), float('nan')
    rs = [(2.0 * (i // 10), 2.0 * (i // 10) + 2, 3.0 * (i % 10), 3.0 * (i % 10) + 3) for i in range(60)]
    vs = [{'num': v if i == at else nan if i % 7 == 3 else 0.5 * i, 'list': [1.0 * i] * 9 + [2.0 * i]} for i in range(60)]
    m = EnvironmentMesh(Boundary([0, 12], [0, 30]), [AggregatedCellBox(Boundary([r[0], r[1]], [r[2], r[3]]), dict(x), str((7 * i) % 60)) for i, (r, x) in enumerate(zip(rs, vs))], NeighbourGraph(), {})
    with tables(S):
        js, e = S.call(m.to_geojson)
    S.check(e is None, 'the mesh is exported')
    if e is not None:
        return
    fs = js.get('features', [])
    S.check([f['properties'].get('id') for f in fs] == [str((7 * i) % 60) for i in range(60)], 'one feature per cell, with the ids and in the order of the cells')
    for f, r, x in zip(fs, rs, vs):
        p = f['properties']
        S.check(p.get('num') is None if isnan(x['num']) else p.get('num') is not None and S.eq(p['num'], x['num']), 'a feature has the value of its cell')
        w = sum(x['list']) / 10
        S.check(p.get('list') is not None and S.And(p['list'] <= w + 1e-9, p['list'] >= w - 1e-9), 'lists have their mean')
        ring(S, f['geometry']['coordinates'][0], r)
    S.reach('ok')


def ring(S, pts, r):
    S.check(len(pts) == 5, 'a cell is a rectangle')
    ok = [S.And(S.Or(S.eq(x, r[2]), S.eq(x, r[3])), S.Or(S.eq(y, r[0]), S.eq(y, r[1]))) for x, y in pts]
    for cx in (r[2], r[3]):
        for cy in (r[0], r[1]):
            ok.append(S.Or([S.And(S.eq(x, cx), S.eq(y, cy)) for x, y in pts]))
    S.check(S.And(ok), 'a feature has the rectangle of its cell')


def jobs(tier):
    J = []

    def add(name, reach=('in',), wit=3, **c):
        J.append(job(__name__, 'raster', name, cfg=c, reach=list(reach), wit_every=wit))
    add('one-3-4', cells=(1, 1), res=(3, 4))
    add('cols', ('in', 'edge'), cells=(1, 2), res=(1, 3))
    add('rows', ('in', 'edge'), cells=(2, 1), res=(3, 1))
    add('four', ('in', 'edge'), cells=(2, 2), res=(2, 2))
    add('three', ('in', 'edge'), cells=(1, 3), res=(1, 2), vals='list', fmt='direct')
    add('hole', ('in', 'out', 'edge'), cells=(1, 3), res=(1, 3), hole=True)
    add('values', cells=(1, 2), res=(2, 2), vals='real', fmt='tif')
    add('missing', cells=(1, 2), res=(1, 2), vals='nan')
    add('absent', cells=(2, 1), res=(2, 1), vals='absent')
    add('cross', ('in', 'edge'), cells=(1, 2), res=(1, 3), region='crossing')
    add('cross-rows', ('in', 'edge'), cells=(2, 1), res=(2, 2), region='crossing', vals='real')
    add('globe', ('in', 'edge'), cells=(1, 2), res=(1, 4), region='globe')
    add('rows-5', ('in', 'edge'), cells=(2, 1), res=(5, 1))
    add('cols-5', ('in', 'edge'), cells=(1, 2), res=(1, 5))
    for pr in ('3031', 3031, '4326', '3995', 32661):
        add(f'proj-{pr}-{type(pr).__name__}', cells=(1, 1), res=(1, 1), proj=pr)
    add('large', cells=(8, 16), res=(8, 16), vals='real', grid=True, fixed=[(0.0, 16.0)])
    add('large-fine', cells=(4, 2), res=(64, 32), grid=True, fixed=[(0.0, 16.0)])
    J.append(job(__name__, 'geolarge', reach=['ok']))
    add('rounding', cells=(1, 1), res=(100, 1), wit=1, fixed=[(-90.0, 25.0), (-75.0, 40.0), (-90.0, 90.0)])
    for nm, c in (('geo-1', dict()), ('geo-2', dict(n=2)), ('geo-cross', dict(n=2, crossing=True, via='geojson')), ('geo-only', dict(n=2, only='num', via='GEOJSON')), ('geo-only-list', dict(n=1, only='list')),
                  ('geo-only-flag', dict(n=2, only='flag'))):
        J.append(job(__name__, 'geojson', nm, cfg=c, reach=['ok'], wit_every=3))
    if tier == 'thorough':
        add('four-deep', ('in', 'edge'), wit=20, cells=(2, 2), res=(3, 3))
        add('cross-deep', ('in', 'edge'), wit=20, cells=(2, 2), res=(2, 3), region='crossing')
        add('three-deep', ('in', 'edge'), wit=20, cells=(3, 2), res=(4, 2))
    return J

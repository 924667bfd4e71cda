"""C33 command line tools"""
import contextlib
import json
import logging
import os
import shutil
import sys
import tempfile
import types
from .common import *
from .data import isnan
from .c07 import graph_is
from .c08 import pre_graph, K0
from .c14 import deep_eq
from .c23 import recorder, tables
from .c27 import Src, config, cond, column, table, compare, csv, POS
from meshiphi import cli
from meshiphi.mesh_generation import environment_mesh as em
from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh

PROPERTY = dict(
    bounds='one cell region with a CSV source of two to four datapoints of any real value, any real threshold and split depth 0 or 1 (create, rebuild); meshes of four cells and up to two meshes to merge, each cell value any real or missing, '
           'as a file or as a directory (merge); meshes of two cells to JSON, GeoJSON and TIF, with or without parameters, output given or not (export)',
    outside='PNG export; the test automation command; log output; meshes whose merge is refused',
    stubs=['sys.argv and the working directory set to a scratch directory', 'pandas.read_csv returns in-memory tables', 'GDAL replaced by a recorder', NP_STUB, GEOM_STUB], budget=dict(quick=600, thorough=600))


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='c33')
    cwd, argv = os.getcwd(), sys.argv
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(cwd)
        sys.argv = argv
        shutil.rmtree(d)


def put(S, path, o):
    if S.symbolic:
        from symx.patch import j_dumps
        t = j_dumps(o)
    else:
        t = json.dumps(o)
    with open(path, 'w') as f:
        f.write(t)
    return t


def get(S, path):
    with open(path) as f:
        t = f.read()
    if S.symbolic:
        from symx.patch import j_loads
        return j_loads(t)
    return json.loads(t)


def run(S, f, *args):
    logging.disable(logging.CRITICAL)
    sys.argv = ['prog'] + [str(a) for a in args]
    try:
        _, e = S.call(f)
    except SystemExit as x:
        e = x
    if os.environ.get('VERIF_DEBUG') and e is not None:
        print(repr(e), file=sys.stderr)
    S.check(e is None, 'the command succeeds')
    return e is None


def within(S, a, b):
    """a has everything of b (defaults may have been added)"""
    if isinstance(b, dict):
        return isinstance(a, dict) and set(b) <= set(a) and S.And([within(S, a[k], b[k]) for k in b])
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and S.And([within(S, x, y) for x, y in zip(a, b)])
    return deep_eq(S, a, b)


def build(S, n=3, rebuild=False, depth=1):
    pos = POS[:n]
    vals = column(S, n, (0,))
    th = S.real('th', -50, 50)
    c = cond(S, th)
    cfg = config([{'loader': 'scalar_csv', 'params': {'files': ['data.csv'], 'splitting_conditions': [{'SIC': c}], 'aggregate_type': 'MAX'}}], depth, 1)
    given = S.flag('output')
    with scratch() as d, csv(S, {'data.csv': table(S, pos, SIC=vals)}):
        if rebuild:
            mi = cfg
            if rebuild == 'again':
                put(S, 'c.json', cfg)
                if not run(S, cli.create_mesh_cli, 'c.json', '-o', 'first.json'):
                    return
                mi = get(S, 'first.json')['config']['mesh_info']
                os.unlink('first.json')
                os.unlink('c.json')
            old = {'config': {'mesh_info': mi}, 'cellboxes': [{'geometry': 'POLYGON ((0 0, 0 1, 1 1, 1 0, 0 0))', 'cx': 0.5, 'cy': 0.5, 'dcx': 0.5, 'dcy': 0.5, 'SIC': -99.0, 'id': '55'}], 'neighbour_graph': {'55': {}}}
            if rebuild == 'empty':
                old.update(cellboxes=[], neighbour_graph={})
            t = put(S, 'in.json', old)
        else:
            t = put(S, 'in.json', cfg)
        out = 'result.json' if given else 'rebuild_mesh.output.json' if rebuild else 'create_mesh.output.json'
        if not run(S, cli.rebuild_mesh_cli if rebuild else cli.create_mesh_cli, 'in.json', *(S.choice('flag', [['-o', out], ['-v', '--output', out]]) if given else [])):
            return
        S.check(sorted(os.listdir('.')) == sorted(['in.json', out]), 'the mesh is written to the output file only')
        if not os.path.exists(out):
            return
        with open('in.json') as f:
            S.check(f.read() == t, 'the input is not changed')
        js = get(S, out)
    S.check(set(js) == {'config', 'cellboxes', 'neighbour_graph'} and within(S, js['config'], {'mesh_info': cfg}), 'the file carries the configuration')
    if 'cellboxes' not in js:
        return
    env = EnvironmentMesh.load_from_json(js)
    pts = [(p[0], p[1], v) for p, v in zip(pos, vals)]
    compare(S, env, [(0, 8, 0, 8)], {'SIC': Src(pts, cond(S, th), 'parent', 'MAX', 1)}, depth)
    S.reach(f"cells{len(js['cellboxes'])}")


def mesh_json(S, units, first, tag, bounds, nan=False):
    """mesh file of unit cells of size 2; {id: (rect, value)}"""
    raw = pre_graph(S, {first + k: tuple(map(float, u)) for k, u in enumerate(units)}, str, lambda i: i, K0)
    cells, spec = [], []
    for k, u in enumerate(units):
        y0, y1, x0, x1 = [2.0 * v for v in u]
        v = S.val(f'{tag}{k}', nan=nan and k == 0, lo=-50, hi=50)
        spec.append(((y0, y1, x0, x1), v, tag, first + k))
        cells.append({'geometry': f'POLYGON (({x0} {y0}, {x0} {y1}, {x1} {y1}, {x1} {y0}, {x0} {y0}))', 'cx': (x0 + x1) / 2, 'cy': (y0 + y1) / 2, 'dcx': (x1 - x0) / 2, 'dcy': (y1 - y0) / 2,
                      'SIC': v, 'src': tag, 'id': str(first + k)})
    b = [2.0 * v for v in bounds]
    cfg = {'region': {'lat_min': b[0], 'lat_max': b[1], 'long_min': b[2], 'long_max': b[3], 'start_time': '2020-03-01', 'end_time': '2020-03-31', 'cell_width': 2.0, 'cell_height': 2.0, 'tag': tag},
           'data_sources': [], 'splitting': {'split_depth': 1, 'minimum_datapoints': 1}}
    return {'config': {'mesh_info': cfg}, 'cellboxes': cells, 'neighbour_graph': {k: {str(d): list(v) for d, v in m.items()} for k, m in raw.items()}}, spec


TAGS = 'bcdefghijk'


def units(r, c, ny=1, nx=1):
    return [(r + i, r + i + 1, c + j, c + j + 1) for i in range(ny) for j in range(nx)]


def merge(S, how='file'):
    one, s1 = mesh_json(S, units(0, 0, 2, 2), 3, 'a', (0, 2, 0, 2))
    n = 1 if how == 'file' else S.choice('n', [1, 2, 3, 10])
    # overlapping, beside, at a corner; never over each other
    places = S.choice('places', [((0, 0), (1, 1), (0, 2)), ((2, 0), (2, 1), (1, 1)), ((-1, -1), (0, 1), (0, -1))])
    if n > 3:
        places = [(0, 2), (1, 2), (2, 2), (2, 1), (2, 0), (1, 0), (0, 3), (1, 3), (2, 3), (3, 0)]
    places = places[:n]
    more = [mesh_json(S, units(r, c), 0, t, (r, r + 1, c, c + 1), n < 4 or t in 'bh') for (r, c), t in zip(places, TAGS)]
    given = S.flag('output')
    out = 'res.json' if given else 'merged_mesh.output.json'
    with scratch() as d:
        texts = {'one.json': put(S, 'one.json', one)}
        if how == 'file':
            texts['two.json'] = put(S, 'two.json', more[0][0])
            args = ['one.json', 'two.json']
        else:
            os.mkdir('dir')
            os.mkdir('dir/sub')
            for nm, (m, _) in zip(('m9.json', 'one.json', 'north.mesh', 'a1.json', 'a10.json', 'a2.json', 'zz', 'B.json', 'x.y.json', 'k.json'), more):
                texts[f'dir/{nm}'] = put(S, f'dir/{nm}', m)
            args = ['one.json', 'dir', S.choice('dflag', ['-d', '--directory'])]
        if not run(S, cli.merge_mesh_cli, *args, *(['-o', out] if given else [])):
            return
        S.check(sorted(os.listdir('.')) == sorted([out] + (['one.json', 'two.json'] if how == 'file' else ['dir', 'one.json'])), 'the mesh is written to the output file only')
        if not os.path.exists(out):
            return
        for p, t in texts.items():
            with open(p) as f:
                S.check(f.read() == t, 'the input is not changed')
        js = get(S, out)
    new = [x for _, s in more for x in s]
    gone = [x[0] for x in new]
    want = {x[0]: x for x in s1 if x[0] not in gone}
    want.update({x[0]: x for x in new})
    got = {}
    for c in js['cellboxes']:
        r = (c['cy'] - c['dcy'], c['cy'] + c['dcy'], c['cx'] - c['dcx'], c['cx'] + c['dcx'])
        got[tuple(float(v) for v in r)] = c
    S.check(len(js['cellboxes']) == len(want) and set(got) == set(want), 'the cells are those of the merged meshes, and those of the first mesh elsewhere')
    if set(got) != set(want):
        return
    for r, c in got.items():
        w = want[r]
        S.check(S.And(c['src'] == w[2], veq(S, c['SIC'], w[1])), 'cells keep their values')
        if w[2] == 'a':
            S.check(c['id'] == str(w[3]), 'cells of the first mesh keep their ids')
    S.check(len({c['id'] for c in got.values()}) == len(got), 'ids are unique')
    rects = {int(c['id']): r for r, c in got.items()}
    graph_is(S, js['neighbour_graph'], rects, str, entry=int, ks=K0)
    cfg = js['config']['mesh_info']
    S.check(sorted(m['region']['tag'] for m in cfg.get('merged', [])) == sorted(TAGS[:n]) and cfg['region']['tag'] == 'a', 'the configurations of the merged meshes are recorded')
    S.reach('ok')


def veq(S, a, b):
    if isnan(a) or isnan(b):
        return isnan(a) and isnan(b)
    return S.eq(a, b)


def export(S, fmt='JSON', params=False):
    m, spec = mesh_json(S, units(0, 0, 1, 2), 4, 'a', (0, 1, 0, 2))
    for k, c in enumerate(m['cellboxes']):
        c['other'] = 7.0 + k
        del c['src']
    if fmt.upper() == 'TIF':
        m['cellboxes'][0]['SIC'] = S.real('v', 1, 2) if params else 3.5
        m['cellboxes'][1]['SIC'] = 20.0
    given = S.flag('output') if params or fmt.upper() != 'TIF' else False
    out = 'res.out' if given else {'JSON': 'mesh.json', 'GEOJSON': 'mesh_geo.json', 'TIF': 'mesh.tif'}[fmt.upper()]
    pr = {'data_name': 'other', 'sampling_resolution': [1, 2]}
    with scratch() as d:
        if fmt.upper() == 'TIF' and params:
            pr['data_name'] = S.choice('name', ['SIC', 'other'])
        t = put(S, 'in.json', m)
        if params:
            put(S, 'p.json', pr)
        args = ['in.json', fmt] + ([S.choice('fflag', ['-f', '--format_conf']), 'p.json'] if params else []) + (['-o', out] if given else [])
        with tables(S):
            if fmt.upper() == 'TIF':
                with recorder(S, d) as r:
                    ok = run(S, cli.export_mesh_cli, *args)
            else:
                ok = run(S, cli.export_mesh_cli, *args)
        if not ok:
            return
        with open('in.json') as f:
            S.check(f.read() == t, 'the input is not changed')
        if fmt.upper() != 'TIF':
            S.check(sorted(os.listdir('.')) == sorted(['in.json', out] + (['p.json'] if params else [])), 'the mesh is written to the output file only')
            if not os.path.exists(out):
                return
            js = get(S, out)
    if fmt.upper() == 'JSON':
        S.check(set(js) == set(m) and deep_eq(S, js['config'], m['config']) and deep_eq(S, js['neighbour_graph'], m['neighbour_graph']), 'configuration and graph are kept')
        S.check(len(js['cellboxes']) == len(m['cellboxes']) and S.And([deep_eq(S, {k: v for k, v in a.items() if k != 'geometry'}, {k: v for k, v in b.items() if k != 'geometry'})
                                                                       for a, b in zip(js['cellboxes'], m['cellboxes'])]), 'cells are kept')
    elif fmt.upper() == 'GEOJSON':
        fs = js.get('features', [])
        S.check(js.get('type') == 'FeatureCollection' and len(fs) == 2, 'one feature per cell')
        for f, c in zip(fs, m['cellboxes']):
            p = f['properties']
            S.check(p.get('id') == c['id'] and set(p) == ({'id', 'other'} if params else {'id', 'other', 'SIC'}), 'a feature has the values of the cell, or the one asked for')
            S.check(S.And([veq(S, p[k], c[k]) for k in p if k in c]), 'a feature has the value of its cell')
    else:
        S.check(len(r.copies) == 1 and os.path.basename(r.copies[0][0]) == out, 'the raster is saved where asked')
        A = r.arr
        S.check(getattr(A, 'shape', None) == ((1, 2) if params else (100, 100)), 'the image has the size asked for')
        if getattr(A, 'shape', None) is not None:
            h, w = A.shape
            for k, (i, j) in enumerate(((0, 0), (h - 1, w - 1))):
                x = m['cellboxes'][k][pr['data_name'] if params else 'SIC']
                g = A[i, j]
                S.check(S.eq(g, x) if S.symbolic else abs(float(g) - float(x)) < 1e-4 * max(1, abs(float(x))), 'pixels have the value of their cell')
    S.reach('ok')


def jobs(tier):
    J = [job(__name__, 'build', 'create', cfg=dict(), reach=['cells1', 'cells4'], wit_every=2),
         job(__name__, 'build', 'rebuild', cfg=dict(rebuild=True), reach=['cells1', 'cells4'], wit_every=2),
         job(__name__, 'build', 'rebuild-again', cfg=dict(n=2, rebuild='again'), reach=['cells1', 'cells4'], wit_every=2),
         job(__name__, 'build', 'rebuild-empty', cfg=dict(n=2, rebuild='empty'), reach=['cells1', 'cells4'], wit_every=2),
         job(__name__, 'build', 'create-flat', cfg=dict(n=2, depth=0), reach=['cells1'], wit_every=2),
         job(__name__, 'merge', 'merge-file', cfg=dict(how='file'), reach=['ok'], wit_every=2),
         job(__name__, 'merge', 'merge-dir', cfg=dict(how='dir'), reach=['ok'], wit_every=4)]
    for f in ('JSON', 'json', 'GeoJSON', 'GEOJSON', 'tif', 'TIF'):
        J.append(job(__name__, 'export', f'export-{f}', cfg=dict(fmt=f, params=f in ('GEOJSON', 'tif')), reach=['ok'], wit_every=1))
    if tier == 'thorough':
        J.append(job(__name__, 'build', 'create-4', cfg=dict(n=4, depth=2), reach=['cells1', 'cells4'], wit_every=10))
        J.append(job(__name__, 'build', 'rebuild-4', cfg=dict(n=4, depth=2, rebuild=True), reach=['cells1', 'cells4'], wit_every=10))
    return J

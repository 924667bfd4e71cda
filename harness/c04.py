"""C04 region/cell size validation"""
import copy
from .common import *
from meshiphi.mesh_generation.boundary import Boundary
from meshiphi.mesh_generation.mesh_builder import MeshBuilder
from meshiphi.config_validation import config_validator as cv

PROPERTY = dict(
    bounds='any real region in [-180,180]x[-90,90] (regional, antimeridian-crossing, global) and any real cell width/height with at most 4 (thorough: 12) cells per side plus a remainder',
    outside='finer grids; sizes for which the double-precision quotient rounds to or from an integer',
    stubs=['symbolic numbers are numbers to jsonschema', 'in-memory configuration files'])


def divides(S, size, cell, K):
    return S.Or([S.eq(cell * k, size) for k in range(0, K + 1)])


def validate(S, kind='regional', axis='lon', api='config'):
    K = 3 if S.tier == 'quick' else 12
    y0, y1, x0, x1, cw, ch = -10.0, 10.0, 20.0, 40.0, 5.0, 5.0
    if kind == 'global':
        x0, x1 = -180, 180
    if axis == 'lon':
        if kind != 'global':
            x0, x1 = S.real('lon0', -180, 180), S.real('lon1', -180, 180)
            S.assume(x0 < x1 if kind == 'regional' else x0 > x1)
            S.assume(S.And(x1 - x0 < 360, x0 - x1 < 360))
        cw = S.real('cw', 0, 360)
        S.assume(cw > 0)
        width = x1 - x0 + (360 if kind == 'crossing' else 0)
        S.assume(width < cw * (K + 1))
        ok = divides(S, width, cw, K)
    else:
        y0, y1 = S.real('lat0', -90, 90), S.real('lat1', -90, 90)
        S.assume(y0 < y1)
        ch = S.real('ch', 0, 180)
        S.assume(ch > 0)
        S.assume(y1 - y0 < ch * (K + 1))
        ok = divides(S, y1 - y0, ch, K)
    if api == 'config':
        cfg = {'region': {'lat_min': y0, 'lat_max': y1, 'long_min': x0, 'long_max': x1, 'start_time': '2020-01-01', 'end_time': '2020-02-01',
                          'cell_width': cw, 'cell_height': ch}, 'data_sources': [], 'splitting': {'split_depth': 1, 'minimum_datapoints': 1}}
        cfg['data_sources'] = [{'loader': f'l{i}', 'params': {'a': i}} for i in range(40)]
        before = copy.deepcopy(cfg)
        _, e = S.call(cv.validate_mesh_config, cfg)
        S.check(cfg['splitting'] == before['splitting'] and cfg['data_sources'] == before['data_sources'] and sorted(cfg['region']) == sorted(before['region']), 'validation leaves the config alone')
    elif api == 'build':
        cfg = {'region': {'lat_min': y0, 'lat_max': y1, 'long_min': x0, 'long_max': x1, 'start_time': '2020-01-01', 'end_time': '2020-02-01',
                          'cell_width': cw, 'cell_height': ch}, 'data_sources': [], 'splitting': {'split_depth': 1, 'minimum_datapoints': 1}}
        _, e = S.call(MeshBuilder, cfg)
    else:
        mb = builder()
        _, e = S.call(mb.validate_bounds, Boundary([y0, y1], [x0, x1]), cw, ch)
    S.check(S.Iff(ok, e is None), 'accepted iff whole cells fill the region')
    S.check(e is None or isinstance(e, (AssertionError, ValueError)), 'rejection is an AssertionError or ValueError')
    S.reach('ok' if e is None else 'rej')


def config():
    return {'region': {'lat_min': -10, 'lat_max': 10, 'long_min': 20, 'long_max': 40, 'start_time': '2020-01-01', 'end_time': '2020-02-01',
                       'cell_width': 5, 'cell_height': 5}, 'data_sources': [{'loader': 'x', 'params': {}}],
            'splitting': {'split_depth': 1, 'minimum_datapoints': 1}}


BAD = {'lat_min': ['-10', None, [1]], 'lat_max': ['10', None, {}], 'long_min': ['20', None, [20]], 'long_max': [None, '40', {}], 'cell_width': ['5', None, [5]], 'cell_height': ['5', None, [5]],
       'start_time': [None, 20200101, ['2020-01-01']], 'end_time': [None, 20200201, {}], 'split_depth': [1.5, '1', None], 'minimum_datapoints': [2.5, '1', None],
       'loader': [None, 3, ['x']], 'params': [None, [], 'x'], 'region': [None, [], 'x'], 'data_sources': [None, {}, 'x'], 'splitting': [None, [], 1]}


def malformed(S, where='region', api='config'):
    """missing or extra keys / wrong types are rejected"""
    cfg = config()
    if api == 'build':
        cfg['data_sources'] = []
    sect = {'region': cfg['region'], 'splitting': cfg['splitting'], 'top': cfg, 'source': (cfg['data_sources'] or [None])[0]}[where]
    keys = sorted(sect)
    k = S.choice('key', keys)
    how = S.choice('how', ['ok', 'missing', 'extra', 0, 1, 2])
    if how == 'missing':
        del sect[k]
    elif how == 'extra' and where != 'top':
        sect[k + '_'] = 1
    elif isinstance(how, int):
        sect[k] = BAD[k][how]
    before = copy.deepcopy(cfg)
    _, e = S.call(cv.validate_mesh_config if api == 'config' else MeshBuilder, cfg)
    S.check((e is None) == (how == 'ok' or how == 'extra' and where == 'top'), 'a config is accepted iff every required key is present with the right type and its sections have no other')
    S.check(api != 'config' or cfg == before, 'validation leaves the config alone')


GOOD_T = ['2020-01-01', '2020-02-29', '1999-12-31', 'TODAY', 'TODAY + 5', 'TODAY-3', 'TODAY+0', 'TODAY - 12', 'TODAY + 365', 'TODAY-1000']
BAD_T = ['', '2020-02-30', '2021-02-29', '2020-13-01', '2020-00-10', '01-02-2020', '2020/01/01', 'yesterday', 'TODAY 5', 'TODAY + x', 'TODAY +', 'TOMORROW + 1', '2020-01', '01/02/2020', '2020-1-1x', 'TODAY+3x', 'TODAY + 1.x', 'TODAY,3', '+ 3 TODAY', 'TODAY+-3', '2020-01-01x', '2020-02-01 12:00', '2020-01-5', '2020-1-05', '20-01-05', '20200105', '2020-W05-1', 'TODAY + 12x', 'today?']


def dates(S, which='start_time', api='config'):
    cfg = config()
    cfg['data_sources'] = []
    t = S.choice('text', GOOD_T + BAD_T)
    cfg['region'][which] = t
    before = copy.deepcopy(cfg)
    if api == 'build':
        # keep the order of the dates
        cfg['region']['end_time' if which == 'start_time' else 'start_time'] = 'TODAY + 400' if which == 'start_time' else '1990-01-01'
        _, e = S.call(MeshBuilder, cfg)
    else:
        _, e = S.call(cv.validate_mesh_config, cfg)
        S.check(cfg == before, 'validation leaves the config alone')
    S.check((e is None) == (t in GOOD_T), 'a config is accepted iff its dates are dates')
    S.check(e is None or isinstance(e, ValueError), 'a date that is none is refused with a ValueError')
    S.reach('ok' if e is None else 'rej')


def given(S):
    """a configuration is given as such or as the name of its file"""
    import json
    import os
    import shutil
    import tempfile
    d = tempfile.mkdtemp(prefix='c04')
    try:
        cfg = config()
        w = S.choice('width', [5, 7])
        cfg['region']['cell_width'] = w
        p = os.path.join(d, 'c.json')
        with open(p, 'w') as f:
            json.dump(cfg, f)
        how = S.choice('how', ['dict', 'file', 'nofile', 'none', 'list', 'number'])
        _, e = S.call(cv.validate_mesh_config, {'dict': cfg, 'file': p, 'nofile': p + 'x', 'none': None, 'list': [cfg], 'number': 3}[how])
    finally:
        shutil.rmtree(d)
    if how in ('dict', 'file'):
        S.check((e is None) == (w == 5) and (e is None or isinstance(e, AssertionError)), 'a configuration in a file is validated like any other')
    else:
        S.check(isinstance(e, FileNotFoundError if how == 'nofile' else TypeError), 'anything but a configuration or the name of its file is refused')


def jobs(tier):
    js = []
    for api in ('config', 'builder', 'build'):
        for kind in ('regional', 'crossing', 'global'):
            js.append(job(__name__, 'validate', f'{api}-lon-{kind}', cfg=dict(kind=kind, axis='lon', api=api), reach=['ok', 'rej']))
        js.append(job(__name__, 'validate', f'{api}-lat', cfg=dict(kind='regional', axis='lat', api=api), reach=['ok', 'rej']))
    for w in ('region', 'splitting', 'top', 'source'):
        js.append(job(__name__, 'malformed', f'malformed-{w}', cfg=dict(where=w)))
        if w != 'source':
            js.append(job(__name__, 'malformed', f'malformed-{w}-build', cfg=dict(where=w, api='build')))
    for w in ('start_time', 'end_time'):
        for api in ('config', 'build'):
            js.append(job(__name__, 'dates', f'{w}-{api}', cfg=dict(which=w, api=api), reach=['ok', 'rej']))
    js.append(job(__name__, 'given'))
    return js

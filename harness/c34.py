"""C34 vessel, route and waypoint validation"""
import copy
import json
import os
import shutil
import tempfile
import pandas as pd
from .common import *
from meshiphi.config_validation import config_validator as cv

PROPERTY = dict(
    bounds='every number of a vessel configuration any real; every required key of vessel and route configurations missing or of another type; waypoint tables of up to three rows (and of sixty, one of them varied) with any flags, coordinates any real, numeric text, text or missing; every column missing',
    outside='the values of text settings other than the listed ones; keys that are not required', stubs=['symbolic numbers are numbers to jsonschema', 'pandas.to_numeric keeps symbolic numbers'])


def vessel():
    return {'VesselType': 'SDA', 'MaxSpeed': 26.5, 'Unit': 'km/hr', 'MaxIceConc': 80, 'MinDepth': 10, 'Beam': 24}


def route():
    return {'objective_function': 'traveltime', 'path_variables': ['fuel', 'traveltime'], 'vector_names': ['uC', 'vC'], 'variable_speed': True, 'time_unit': 'days', 'early_stopping_criterion': True, 'zero_currents': False,
            'smoothing_blocked_sic': 10.0, 'smoothing_max_iterations': 1000, 'smoothing_merge_separation': 0.001, 'smoothing_converged_sep': 0.001}


OPT = ('smoothing_blocked_sic', 'smoothing_max_iterations', 'smoothing_merge_separation', 'smoothing_converged_sep', 'Beam')
BAD = {'VesselType': [None, 3, ['SDA'], True], 'MaxSpeed': ['fast', None, '26.5', [26.5]], 'Unit': [1, None, ['km/hr']], 'MaxIceConc': ['80', None], 'MinDepth': [[10], None], 'Beam': [],
       'objective_function': [None, 1, ['fuel']], 'path_variables': ['fuel', [1], None, ['fuel', None], {'fuel': 1}], 'vector_names': [['uC'], ['uC', 'vC', 'wC'], 'uC,vC', ['uC', 2], [], None], 'variable_speed': ['yes', 1], 'time_unit': ['weeks', 1, 'Days', 'minutes', '', 'hour'],
       'early_stopping_criterion': ['no', 0], 'zero_currents': [None, 'true'], 'smoothing_blocked_sic': ['10'], 'smoothing_max_iterations': [10.5, 'many'], 'smoothing_merge_separation': [None, '0.1', [1]], 'smoothing_converged_sep': ['x']}
GOOD = {'time_unit': ['days', 'hours', 'seconds'], 'path_variables': [[], ['fuel']]}


def call(S, f, cfg):
    """as such or as a file"""
    how = S.choice('how', ['dict', 'file'])
    if how == 'dict':
        before = copy.deepcopy(cfg)
        _, e = S.call(f, cfg)
        S.check(cfg == before, 'validation leaves the configuration alone')
        return e
    d = tempfile.mkdtemp(prefix='c34')
    try:
        p = os.path.join(d, 'c.json')
        with open(p, 'w') as fh:
            json.dump(cfg, fh)
        return S.call(f, p)[1]
    finally:
        shutil.rmtree(d)


def numbers(S):
    """limits of the numbers of a vessel"""
    cfg = vessel()
    k = S.choice('key', ['MaxSpeed', 'MaxIceConc', 'MinDepth'])
    v = S.real('v', -1000, 1000)
    cfg[k] = v
    _, e = S.call(cv.validate_vessel_config, cfg)
    ok = S.And(v >= 0, v <= 100) if k == 'MaxIceConc' else v >= 0
    S.check(S.Iff(ok, e is None), 'a vessel is accepted iff its speed and depth are not negative and its ice concentration is a percentage')
    S.reach('ok' if e is None else 'rej')


def keys(S, which='vessel'):
    cfg = vessel() if which == 'vessel' else route()
    k = S.choice('key', sorted(cfg))
    ways = ['ok', 'missing'] + list(range(len(BAD[k]))) + ['good%d' % i for i in range(len(GOOD.get(k, [])))]
    w = S.choice('way', ways)
    if w == 'missing':
        del cfg[k]
    elif isinstance(w, int):
        cfg[k] = BAD[k][w]
    elif w != 'ok':
        cfg[k] = GOOD[k][int(w[4:])]
    e = call(S, cv.validate_vessel_config if which == 'vessel' else cv.validate_route_config, cfg)
    ok = not isinstance(w, int) and (w != 'missing' or k in OPT)
    S.check((e is None) == ok, 'a configuration is accepted iff every required key is present and every key has the right type')


def notcfg(S):
    f = S.choice('f', [cv.validate_vessel_config, cv.validate_route_config, cv.validate_waypoints])
    x = S.choice('x', [None, 3, ['a'], 'no_such_file'])
    _, e = S.call(f, x)
    S.check(isinstance(e, FileNotFoundError if isinstance(x, str) else TypeError), 'anything but a configuration or the name of its file is refused')


def waypoints(S, n=2, coords='real'):
    rows = []
    okc = True
    for i in range(n):
        r = {'Name': f'P{i}'}
        for c in ('Lat', 'Long'):
            if coords == 'real':
                r[c] = S.real(f'{c}{i}', -180, 180)
            else:
                r[c] = S.choice(f'{c}{i}', [1.5, '7.5', 'north', None, float('nan')] if i == 0 else [2.0, '70S'])
                okc = okc and r[c] not in ('north', None, '70S') and r[c] == r[c]
        if coords == 'real':
            r['Source'], r['Destination'] = S.choice(f's{i}', ['X', float('nan'), 'x']), S.choice(f'd{i}', ['X', float('nan'), 'Y'])
        else:
            r['Source'], r['Destination'] = ('X', 'X') if i == n - 1 else (float('nan'),) * 2
        rows.append(r)
    df = pd.DataFrame(rows)
    gone = S.choice('without', [None, 'Name', 'Lat', 'Long', 'Source', 'Destination']) if coords != 'real' else None
    if gone:
        df = df.drop(columns=gone)
    if S.flag('extra'):
        df['Note'] = 'n'
    if S.flag('named') and gone != 'Name':
        df = df.set_index('Name')
    before = df.copy()
    _, e = S.call(cv.validate_waypoints, df)
    ok = gone is None and any(r['Source'] == 'X' for r in rows) and any(r['Destination'] == 'X' for r in rows) and okc
    S.check((e is None) == ok, 'waypoints are accepted iff they have all columns, a source, a destination and numbers as coordinates')
    S.check(e is None or isinstance(e, AssertionError), 'refusal is an AssertionError')
    S.check(list(df.columns) == list(before.columns) and len(df) == n, 'validation leaves the waypoints alone')
    S.reach('ok' if e is None else 'rej')


def many(S):
    """sixty waypoints, the source, the destination and one other among them"""
    n = 60
    src, dst, at = S.choice('source', [0, 40, n - 1, None]), S.choice('destination', [0, 33, n - 1, None]), S.choice('at', [0, 29, n - 1])
    col_, v = S.choice('column', ['Lat', 'Long']), S.choice('v', ['real', '7.5', 'north', None])
    x = S.real('x', -80, 80)
    rows = [{'Name': f'P{i}', 'Lat': 0.5 * i - 20, 'Long': 3.0 * i - 90, 'Source': 'X' if i == src else float('nan'), 'Destination': 'X' if i == dst else float('nan')} for i in range(n)]
    rows[at][col_] = x if v == 'real' else v
    df = pd.DataFrame(rows)
    for c in ('Source', 'Destination'):
        df[c] = df[c].astype(object)
    _, e = S.call(cv.validate_waypoints, df)
    S.check((e is None) == (src is not None and dst is not None and v in ('real', '7.5')), 'waypoints are accepted iff they have all columns, a source, a destination and numbers as coordinates')
    S.reach('ok' if e is None else 'rej')


def wayfile(S):
    d = tempfile.mkdtemp(prefix='c34')
    try:
        p = os.path.join(d, 'w.csv')
        k = S.choice('k', ['ok', 'nosource', 'text', 'nocol', 'unnamed', 'okunnamed', 'both', 'nodest', 'blank', 'okextra'])
        with open(p, 'w') as f:
            f.write({'ok': 'Name,Lat,Long,Source,Destination\nA,1,2,X,\nB,3,4,,X\n', 'nosource': 'Name,Lat,Long,Source,Destination\nA,1,2,,\nB,3,4,,X\n',
                     'text': 'Name,Lat,Long,Source,Destination\nA,1,2,X,\nB,3,east,,X\n', 'nocol': 'Name,Lat,Long,Source\nA,1,2,X\n',
                     'unnamed': 'Name,Lat,Long,Source,Destination\nA,1,2,X,\nB,3,4,,X\n,north,4,,\n', 'okunnamed': 'Name,Lat,Long,Source,Destination\nA,1,2,X,\n,3,4,,X\n',
                     'both': 'Name,Lat,Long,Source,Destination\nA,1,2,X,X\nB,3,,,\n', 'nodest': 'Name,Lat,Long,Source,Destination\nA,1,2,X,Y\nB,3,4,X,x\n',
                     'blank': 'Name,Lat,Long,Source,Destination\nA, ,2,X,\nB,3,4,,X\n', 'okextra': 'Note,Name,Lat,Long,Source,Destination\n,A,1,2,X,X\n'}[k])
        _, e = S.call(cv.validate_waypoints, p)
    finally:
        shutil.rmtree(d)
    S.check((e is None) == k.startswith('ok'), 'waypoints in a file are validated like any others')


def jobs(tier):
    R = ['ok', 'rej']
    return [job(__name__, 'numbers', reach=R), job(__name__, 'keys', 'vessel', cfg=dict(which='vessel')), job(__name__, 'keys', 'route', cfg=dict(which='route')), job(__name__, 'notcfg'),
            job(__name__, 'waypoints', 'waypoints-flags', cfg=dict(n=2), reach=R, wit_every=3), job(__name__, 'waypoints', 'waypoints-coords', cfg=dict(n=2, coords='any'), reach=R, wit_every=3),
            job(__name__, 'waypoints', 'waypoints-1', cfg=dict(n=1), reach=R), job(__name__, 'wayfile'), job(__name__, 'many', reach=R, wit_every=20)]

"""C20 filling missing values"""
from .common import *
from .data import *
from meshiphi.mesh_generation.cellbox import CellBox
from meshiphi.mesh_generation.metadata import Metadata
from meshiphi.mesh_generation.mesh_builder import MeshBuilder

PROPERTY = dict(
    bounds='a cell at depth 0, 1, 2, 4 or 9 (its root may cross the antimeridian) with any real value, missing values or no datapoints at each level; scalar and vector sources as tables and grids; fill policy parent, any real number or NaN; '
           'up to three sources, with equal or different names; the fill policy settings listed',
    outside='deeper chains (the search proceeds one level at a time)', stubs=[DATA_STUB, NP_STUB], budget=dict(quick=600, thorough=900))

T0, T1 = '2020-03-01', '2020-03-31'
# positions: inside the grandchild (north east of north west...), only in the child, only in the root
NAN = float('nan')


def chain(depth, crossing=False, extra=0):
    """root, child, ... as built by splitting the south-west quarter each time"""
    w = 8 * 2 ** extra
    return CellBox(Boundary([0, w], [176, -176] if crossing else [0, w], [T0, T1]), '0')


def descend(root, depth):
    c = root
    for _ in range(depth):
        c.set_data_source(c.get_data_source())
        kids = c.split(1)
        c = [k for k in kids if k.get_bounds().get_lat_min() == 0 and k.get_bounds().get_long_min() == c.get_bounds().get_long_min()][0]
    return c


POS = [(1.5, 1.5), (1.5, 3.0), (1.5, 7.0)]        # depth 2 cell = (0..2)^2, depth 1 = (0..4)^2


def levels(S, tag, depth, absent=True):
    """per level nearest first: value, NaN or no datapoint"""
    out = []
    for k in range(3):
        st = S.choice(f'{tag}{k}.state', ['value', 'missing', 'absent'] if absent else ['value', 'missing'])
        out.append((st, S.real(f'{tag}{k}', -50, 50) if st == 'value' else NAN))
    return out


POSX = [(1.0, 177.0), (1.0, 179.0), (1.0, -177.0)]


def loader_s(S, kind, lv, name='SIC', agg='MEAN', crossing=False):
    if kind == 'df':
        rows = [(p, v) for p, (st, v) in zip(POSX if crossing else POS, lv) if st != 'absent']
        data = frame(S, [p[0] for p, _ in rows], [p[1] for p, _ in rows], **{name: [v for _, v in rows]})
    else:
        data = cube(S, [1.0], [-177.0, 177.0, 179.0], **{name: [lv[k][1] for k in (2, 0, 1)]}) if crossing else \
            cube(S, [1.5], [p[1] for p in POS], **{name: [v for _, v in lv]})
    return raw(Scal, data, name, aggregate_type=agg)


def held(d, extra=0):
    """the cell at depth d contains the first so many of POS"""
    return max(0, min(3, 3 - d + extra))


def expect(lv, depth, extra=0):
    """value of the cell or of its nearest ancestor having one: level k holds the points 0..k' """
    for d in range(depth, -1, -1):
        vals = [v for st, v in lv[:held(d, extra)] if st == 'value']
        if vals:
            return vals
    return []


def meaneq(S, got, vals):
    if not vals:
        return isnan(got)
    if isnan(got) or isinstance(got, str):
        return False
    t = vals[0]
    for v in vals[1:]:
        t = t + v
    return S.eq(got * len(vals), t)


def scalar(S, kind='df', depth=2, fill='parent', crossing=False, extra=0):
    lv = levels(S, 'v', depth, kind == 'df')
    l = loader_s(S, kind, lv, crossing=crossing)
    root = chain(depth, crossing, extra)
    ft = S.real('fill', -100, 100) if fill == 'number' else fill
    root.set_data_source([Metadata(l, [], ft, l.trim_datapoints(root.get_bounds()))])
    c = descend(root, depth)
    got, e = S.call(c.aggregate)
    S.check(e is None, 'every cell can be aggregated')
    if e is not None:
        return
    v = got.get_agg_data()
    S.check(list(v) == ['SIC'], 'one value per source')
    own = [x for st, x in lv[:held(depth, extra)] if st == 'value']
    if own:
        S.check(meaneq(S, v['SIC'], own), 'a cell with data has the value of its data')
        S.reach('own')
    elif fill == 'parent':
        S.check(meaneq(S, v['SIC'], expect(lv, depth, extra)), 'a cell without data has the value of its nearest ancestor with data')
        S.reach('parent' if expect(lv, depth, extra) else 'none')
    else:
        S.check(S.eq(v['SIC'], ft), 'a cell without data has the configured value')
        S.reach('filled')
    S.check(got.get_bounds() == c.get_bounds() and got.get_id() == c.get_id(), 'bounds and id are kept')
    S.observe('v', v['SIC'])


def vector(S, kind='df', depth=1, fill='parent', extra=0):
    """each component is filled on its own"""
    lu, lv = levels(S, 'u', depth, False), levels(S, 'w', depth, False)
    present = [S.flag(f'present{k}') if kind == 'df' else True for k in range(3)]
    if kind == 'df':
        idx = [k for k in range(3) if present[k]]
    else:
        idx = [0, 1, 2]
    us, ws = [lu[k][1] for k in idx], [lv[k][1] for k in idx]
    mags = [NAN if isnan(a) or isnan(b) else 1.0 for a, b in zip(us, ws)]
    if kind == 'df':
        data = frame(S, [POS[k][0] for k in idx], [POS[k][1] for k in idx], uC=us, vC=ws, _magnitude=mags)
    else:
        data = cube(S, [1.5], [p[1] for p in POS], uC=us, vC=ws, _magnitude=mags)
    l = raw(Vec, data, 'uC,vC')
    root = chain(depth, extra=extra)
    ft = S.real('fill', -100, 100) if fill == 'number' else fill
    root.set_data_source([Metadata(l, [], ft, l.trim_datapoints(root.get_bounds()))])
    c = descend(root, depth)
    got, e = S.call(c.aggregate)
    S.check(e is None, 'every cell can be aggregated')
    if e is not None:
        return
    v = got.get_agg_data()
    S.check(sorted(v) == ['uC', 'vC'], 'one value per component')
    for name, lx in (('uC', lu), ('vC', lv)):
        eff = [(st, x) if p else ('absent', NAN) for (st, x), p in zip(lx, present)]
        # grids report nothing for a cell in which no complete vector exists
        def lvl(d):
            ks = [k for k in range(held(d, extra)) if present[k]]
            if kind == 'xr' and not any(lu[k][0] == 'value' and lv[k][0] == 'value' for k in ks):
                return None if any(eff[k][0] == 'value' for k in ks) else []
            return [eff[k][1] for k in ks if eff[k][0] == 'value']
        want, vague = [], False
        for d in range(depth, -1, -1) if fill == 'parent' else [depth]:
            w = lvl(d)
            if w is None:
                vague = True
                break
            if w:
                want = w
                break
        if vague:
            continue
        if fill == 'parent' or want:
            S.check(meaneq(S, v[name], want), 'a missing component is taken from the nearest ancestor having it')
        else:
            S.check(S.eq(v[name], ft), 'a missing component has the configured value')
        S.reach('val' if want else 'none')
    S.observe('v', [v['uC'], v['vC']])


def duplicates(S, n=2, vec=False, numbers=False):
    """several sources of the same quantity: the first one with a value wins"""
    root = chain(0)
    src, vals = [], []
    for k in range(n):
        st = S.choice(f's{k}.state', ['value', 'missing'])
        x = S.real(f's{k}', -50, 50) if st == 'value' else NAN
        vals.append(x)
        if vec:
            d = frame(S, [1.0], [1.0], uC=[x], vC=[x + 1 if st == 'value' else NAN], _magnitude=[1.0 if st == 'value' else NAN])
            l = raw(Vec, d, 'uC,vC')
        else:
            l = raw(Scal, frame(S, [1.0], [1.0], SIC=[x]), 'SIC')
        ft = S.real(f's{k}.fill', -50, 50) if numbers and S.flag(f's{k}.number') else 'parent'
        src.append(Metadata(l, [], ft, l.data))
        if st == 'missing' and not isinstance(ft, str):
            vals[-1] = None, ft
    o = S.real('o', -5, 5)
    other = raw(Scal, frame(S, [1.0], [1.0], dep=[o]), 'dep')
    src.insert(S.choice('at', list(range(n + 1))), Metadata(other, [], 'parent', other.data))
    root.set_data_source(src)
    got, e = S.call(root.aggregate)
    S.check(e is None, 'every cell can be aggregated')
    if e is not None:
        return
    v = got.get_agg_data()
    first = [x for x in vals if isinstance(x, tuple) or not isnan(x)]
    names = ['uC', 'vC'] if vec else ['SIC']
    S.check(sorted(v) == sorted(names + ['dep']), 'one value per quantity')
    for i, nme in enumerate(names):
        S.check(S.eq(v[nme], first[0][1] if isinstance(first[0], tuple) else first[0] + i) if first else isnan(v[nme]), 'the first source with a value wins')
    S.check(S.eq(v['dep'], o), 'other quantities are unaffected')
    S.reach('some' if first else 'none')


def dupchain(S, vec=False, depth=1):
    """several sources of the same quantity in a split cell: each is filled from its own ancestors"""
    root = chain(depth)
    src, lvs = [], []
    for k in range(2):
        lv = levels(S, f's{k}.', depth)
        lvs.append(lv)
        rows = [(p, v) for p, (st, v) in zip(POS, lv) if st != 'absent']
        cols = dict(uC=[v for _, v in rows], vC=[NAN if isnan(v) else v + 1 for _, v in rows], _magnitude=[NAN if isnan(v) else 1.0 for _, v in rows]) if vec else dict(SIC=[v for _, v in rows])
        d = frame(S, [p[0] for p, _ in rows], [p[1] for p, _ in rows], **cols)
        l = raw(Vec, d, 'uC,vC') if vec else raw(Scal, d, 'SIC', aggregate_type='MEAN')
        src.append(Metadata(l, [], 'parent', l.trim_datapoints(root.get_bounds())))
    root.set_data_source(src)
    c = root
    for _ in range(depth):
        kids = c.split(1)
        c = [k for k in kids if k.get_bounds().get_lat_min() == 0 and k.get_bounds().get_long_min() == 0][0]
        for k in kids:
            if k is not c:
                k.aggregate()
                break
    got, e = S.call(c.aggregate)
    S.check(e is None, 'every cell can be aggregated')
    if e is not None:
        return
    v = got.get_agg_data()
    filled = [x for x in (expect(lv, depth) for lv in lvs) if x]
    for i, nme in enumerate(['uC', 'vC'] if vec else ['SIC']):
        S.check(meaneq(S, v[nme], [x + i for x in filled[0]] if filled else []), 'the first source that has a value, also from its ancestors, wins')
    S.reach('some' if filled else 'none')


SETTINGS = [('absent', 'parent'), ('parent', 'parent'), ('0', 0.0), ('0.0', 0.0), ('-1.5', -1.5), (0, 0.0), (2.5, 2.5), (-3, -3.0),
            ('nan', NAN), ('Nan', NAN), ('NaN', NAN), ('rubbish', 'parent'), (None, 'parent'), ('PARENT', 'parent'), ('zero', 'parent'), ('', 'parent')]


def setting(S):
    k = S.cint('setting', 0, len(SETTINGS) - 1)
    given, want = SETTINGS[k]
    mb = builder()
    got = mb.check_value_fill_type({'loader': 'x', 'params': {} if given == 'absent' else {'value_fill_types': given}})
    S.check(isnan(got) if isnan(want) else (got == want and isinstance(got, str) == isinstance(want, str)), 'the fill policy is the configured one: parent, a number or NaN; parent when it is invalid')


def jobs(tier):
    js = []
    for k in ('df', 'xr'):
        for f in ('parent', 'number', NAN):
            for d in (0, 1, 2):
                if d == 0 and f != 'parent' or d == 1 and f != 'number' and k == 'df':
                    continue
                js.append(job(__name__, 'scalar', f'{k}-{f}-{d}', cfg=dict(kind=k, depth=d, fill=f), reach=['own'] + (['parent'] if f == 'parent' and d else []), wit_every=4))
        js.append(job(__name__, 'vector', f'{k}-vector', cfg=dict(kind=k, depth=2, fill='parent'), reach=['val'], wit_every=16))
        js.append(job(__name__, 'vector', f'{k}-vector-number', cfg=dict(kind=k, depth=1, fill='number'), reach=['val'], wit_every=16))
    js.append(job(__name__, 'duplicates', 'same-name', cfg=dict(n=2), reach=['some', 'none']))
    js.append(job(__name__, 'duplicates', 'same-name-3', cfg=dict(n=3), reach=['some', 'none'], wit_every=4))
    js.append(job(__name__, 'duplicates', 'same-vector', cfg=dict(n=2, vec=True), reach=['some', 'none']))
    js.append(job(__name__, 'duplicates', 'same-name-filled', cfg=dict(n=2, numbers=True), reach=['some', 'none']))
    js.append(job(__name__, 'duplicates', 'same-vector-filled', cfg=dict(n=2, vec=True, numbers=True), reach=['some', 'none'], wit_every=4))
    for k in ('df', 'xr'):
        js.append(job(__name__, 'scalar', f'{k}-crossing', cfg=dict(kind=k, depth=2, crossing=True), reach=['own', 'parent'], wit_every=4))
        js.append(job(__name__, 'scalar', f'{k}-crossing-number', cfg=dict(kind=k, depth=1, fill='number', crossing=True), reach=['own'], wit_every=4))
    js.append(job(__name__, 'dupchain', 'same-name-split', cfg=dict(depth=1), reach=['some', 'none'], wit_every=8))
    js.append(job(__name__, 'dupchain', 'same-vector-split', cfg=dict(vec=True, depth=1), reach=['some', 'none'], wit_every=16))
    for f in ('parent', 'number'):
        js.append(job(__name__, 'scalar', f'df-deep-{f}', cfg=dict(depth=4, fill=f, extra=2), reach=['own'], wit_every=4))
        js.append(job(__name__, 'scalar', f'df-deeper-{f}', cfg=dict(depth=9, fill=f, extra=1), reach=['parent' if f == 'parent' else 'filled'], wit_every=4))
        js.append(job(__name__, 'vector', f'df-deeper-vector-{f}', cfg=dict(depth=9, fill=f, extra=1), reach=['val' if f == 'parent' else 'none'], wit_every=16))
        js.append(job(__name__, 'vector', f'xr-deep-vector-{f}', cfg=dict(kind='xr', depth=4, fill=f, extra=2), reach=['val'], wit_every=16))
    js.append(job(__name__, 'scalar', 'df-root', cfg=dict(depth=4), reach=['parent', 'none'], wit_every=4))
    js.append(job(__name__, 'vector', 'df-root-vector', cfg=dict(depth=3), reach=['val', 'none'], wit_every=16))
    js.append(job(__name__, 'setting', 'setting'))
    return js

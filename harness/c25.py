"""C25 synthetic shapes"""
from .common import *
from .data import *
from meshiphi.dataloaders.factory import DataLoaderFactory

PROPERTY = dict(
    bounds='grids of 2..5 by 2..5 datapoints over fixed regions (also straddling the equator and the prime meridian); circle: any real radius, any real centre in one direction (given, zero or default); rectangle: any real width, height and centre; '
           'gradient in both directions; checkerboard squares of fixed sizes; any real multiplier; scalar and vector variants; parameters given or left to their defaults',
    outside='regions crossing the antimeridian; the default number of datapoints (101 x 101); the default centre of a grid with an even number of datapoints',
    stubs=[DATA_STUB, NP_STUB], budget=dict(quick=600, thorough=900))

T = ['2020-03-01', '2020-03-31']


def grid(lo, hi, n, endpoint=True):
    d = (hi - lo) / ((n - 1) if endpoint else n)
    return [lo + d * i for i in range(n)]


def load(S, kind, reg, params):
    p = dict(params)
    l, e = S.call(DataLoaderFactory.get_dataloader, kind, Boundary(reg[0], reg[1], T), p, 1)
    S.check(e is None, 'the shape is generated')
    return l if e is None else None


def compare(S, l, lats, lons, spec, vec, at_edge=None):
    """spec(lat, lon) -> tuple of expected component values; datapoints on the lower edges belong to the neighbouring region"""
    names = l.data_name.split(',')
    glat, glon = [float(v) for v in l.data.lat.values], [float(v) for v in l.data.long.values]
    ok = len(glat) == len(lats) - 1 and len(glon) == len(lons) - 1 and all(abs(a - b) < 1e-9 for a, b in zip(sorted(glat) + sorted(glon), lats[1:] + lons[1:]))
    S.check(ok, 'the datapoints are spread evenly over the region')
    S.check(len(names) == (2 if vec else 1), 'a vector has two components, a scalar one')
    if not ok or len(names) != (2 if vec else 1):
        return
    want = {(i, j): spec(y, x) for i, y in enumerate(glat) for j, x in enumerate(glon)}
    for k, nm in enumerate(names):
        A = l.data[nm].transpose('lat', 'long').values
        for (i, j), w in want.items():
            if w is None:
                S.check(S.Or([S.eq(A[i][j], 0), S.eq(A[i][j], m[k])]) if (m := at_edge) else True, 'a value on the edge is one of the two')
            else:
                S.check(S.eq(A[i][j], w[k]), 'the value is the multiplier inside the shape and zero outside')
    S.reach('ok')


def mults(S, vec, given=True):
    if not given:
        return (1, 1) if vec else (1,), {}
    if vec:
        a, b = S.real('mu', -10, 10), S.real('mv', -10, 10)
        return (a, b), {'multiplier_u': a, 'multiplier_v': b}
    a = S.real('m', -10, 10)
    return (a,), {'multiplier': a}


def circle(S, vec=False, reg=((0, 8), (0, 8)), n=(3, 3), cen='lat', mult=True, rad=True, other=4.0):
    """n = (ny, nx)"""
    m, p = mults(S, vec, mult)
    lats, lons = grid(*reg[0], n[0]), grid(*reg[1], n[1])
    r = 1
    if rad:
        r = p['radius'] = S.real('r', 0, 12)
    if cen is None:
        c = lats[n[0] // 2], lons[n[1] // 2]
    elif cen == 'none':
        c = lats[n[0] // 2], other
        p['centre'] = (None, other)
    elif cen == 'none2':
        c = other, lons[n[1] // 2]
        p['centre'] = (other, None)
    elif cen == 'lat':
        v = S.choice('zero', [0, 1]) and S.real('c', -10, 10)
        c = p['centre'] = (v, other)
    else:
        v = S.choice('zero', [0, 1]) and S.real('c', -10, 10)
        c = p['centre'] = (other, v)
    p['nx'], p['ny'] = n[1], n[0]
    l = load(S, 'vector_circle' if vec else 'circle', reg, p)
    if l is None:
        return

    def spec(y, x):
        d = (y - c[0]) * (y - c[0]) + (x - c[1]) * (x - c[1])
        if d <= r * r - 1e-6:
            return m
        if d >= r * r + 1e-6:
            return tuple(0 for _ in m)
        return None                             # on the circle, up to rounding
    compare(S, l, lats, lons, spec, vec, m)


def edge(S, vec=False):
    """points exactly on the circle belong to it (centre on a datapoint, distances without rounding)"""
    m, p = mults(S, vec)
    reg, n = ((-6, 6), (0, 12)), (13, 13)
    lats, lons = grid(*reg[0], 13), grid(*reg[1], 13)
    c = p['centre'] = S.choice('c', [(0, 6), (2, 5), (0.5, 5)])
    r = p['radius'] = S.choice('r', [0, 0.5, 1, 1.5, 2, 4, 5])
    p['nx'] = p['ny'] = 13
    l = load(S, 'vector_circle' if vec else 'circle', reg, p)
    if l is None:
        return
    compare(S, l, lats, lons, lambda y, x: m if (y - c[0]) ** 2 + (x - c[1]) ** 2 <= r * r else tuple(0 for _ in m), vec)


def rect_edge(S, vec=False):
    """points exactly on the edge of a rectangle belong to it"""
    m, p = mults(S, vec)
    reg = ((-4, 4), (0, 8))
    lats, lons = grid(*reg[0], 9), grid(*reg[1], 9)
    c = p['centre'] = S.choice('c', [(0, 4), (-2, 5), (0.5, 3)])
    W = p['width'] = S.choice('w', [0, 0.5, 1, 2.5, 3])
    H = p['height'] = S.choice('h', [0, 0.5, 1, 2, 2.5])
    p['nx'] = p['ny'] = 9
    l = load(S, 'vector_rectangle' if vec else 'rectangle', reg, p)
    if l is None:
        return
    compare(S, l, lats, lons, lambda y, x: m if abs(y - c[0]) <= H and abs(x - c[1]) <= W else tuple(0 for _ in m), vec)


def rectangle(S, vec=False, reg=((0, 8), (-4, 4)), n=(3, 3), cen='both', mult=True, w=True, h=True):
    m, p = mults(S, vec, mult)
    lats, lons = grid(*reg[0], n[0]), grid(*reg[1], n[1])
    W = H = 1
    if w:
        W = p['width'] = S.real('w', 0, 12)
    if h:
        H = p['height'] = S.real('h', 0, 12)
    c = lats[n[0] // 2], lons[n[1] // 2]
    if cen == 'both':
        c = p['centre'] = [S.choice('zy', [0, 1]) and S.real('cy', -10, 10), S.choice('zx', [0, 1]) and S.real('cx', -10, 10)]
    elif cen == 'none':
        p['centre'] = [None, None]
    elif cen == 'none1':
        p['centre'] = [None, S.real('cx', -10, 10)]
        c = c[0], p['centre'][1]
    elif cen == 'none2':
        p['centre'] = [S.real('cy', -10, 10), None]
        c = p['centre'][0], c[1]
    p['nx'], p['ny'] = n[1], n[0]
    l = load(S, 'vector_rectangle' if vec else 'rectangle', reg, p)
    if l is None:
        return

    def spec(y, x):
        dy, dx = abs(y - c[0]) - H, abs(x - c[1]) - W
        if S.And(dy <= 0, dx <= 0) if S.symbolic else dy <= -1e-9 and dx <= -1e-9:
            return m
        if S.symbolic or dy >= 1e-9 or dx >= 1e-9:
            return tuple(0 for _ in m)
        return None                             # on the edge, up to rounding
    compare(S, l, lats, lons, spec, vec, m)


def gradient(S, vec=False, reg=((-4, 4), (0, 9)), n=(5, 4), mult=True, direction=True):
    m, p = mults(S, vec, mult)
    vert = True
    if direction:
        vert = p['vertical'] = S.flag('vertical')
    lats, lons = grid(*reg[0], n[0]), grid(*reg[1], n[1])
    p['nx'], p['ny'] = n[1], n[0]
    l = load(S, 'vector_gradient' if vec else 'gradient', reg, p)
    if l is None:
        return

    def spec(y, x):
        g = (y - reg[0][0]) / (reg[0][1] - reg[0][0]) if vert else (x - reg[1][0]) / (reg[1][1] - reg[1][0])
        if vec:
            return (0, g * m[1]) if vert else (g * m[0], 0)
        return (g * m[0],)
    names = l.data_name.split(',')
    S.check(len(names) == len(m), 'a vector has two components, a scalar one')
    glat, glon = [float(v) for v in l.data.lat.values], [float(v) for v in l.data.long.values]
    for k, nm in enumerate(names):
        A = l.data[nm].transpose('lat', 'long').values
        for i, y in enumerate(glat):
            for j, x in enumerate(glon):
                d = A[i][j] - spec(y, x)[k]
                S.check(S.And(d <= 1e-6, d >= -1e-6), 'the value grows from zero to the multiplier along the chosen direction')
    S.check(len(glat) == n[0] - 1 and len(glon) == n[1] - 1, 'the datapoints are spread evenly over the region')
    S.reach('ok')


def checker(S, reg=((0, 8), (0, 8)), n=(4, 4), size=None):
    p = {'nx': n[1], 'ny': n[0]}
    gx, gy = 1, 1
    if size:
        gx, gy = p['gridsize'] = S.choice('size', size)
    if S.flag('named'):
        p['data_name'] = 'board'
    lats, lons = grid(*reg[0], n[0], False), grid(*reg[1], n[1], False)
    l = load(S, 'checkerboard', reg, p)
    if l is None:
        return
    S.check(l.data_name == p.get('data_name', 'dummy_data'), 'the data have the configured name')

    def spec(y, x):
        return (float((int((y - reg[0][0]) // gy) + int((x - reg[1][0]) // gx)) % 2),)
    compare(S, l, lats, lons, spec, False)


def refused(S):
    """unknown shapes"""
    from meshiphi.dataloaders.scalar.shape import ShapeDataLoader
    from meshiphi.dataloaders.vector.vector_shape import VectorShapeDataLoader
    cls = S.choice('cls', [ShapeDataLoader, VectorShapeDataLoader])
    m = S.real('m', 1, 2)
    _, e = S.call(cls, Boundary([0, 8], [0, 8], T), {'dataloader_name': 'star', 'nx': 3, 'ny': 3, 'multiplier': m, 'multiplier_u': m, 'multiplier_v': m})
    S.check(isinstance(e, ValueError), 'an unknown shape is refused')
    S.reach('ok')


def jobs(tier):
    J = []

    def add(fn, name, cfg, wit=5):
        J.append(job(__name__, fn, name, cfg=cfg, reach=['ok'], wit_every=wit))
    for v in (False, True):
        t = '-v' if v else ''
        add('circle', 'circle-lat' + t, dict(vec=v, n=(3, 2)))
        add('circle', 'circle-long' + t, dict(vec=v, cen='long', reg=((-4, 4), (-4, 4)), other=-1.0 if v else 0.0, n=(2, 3)))
        add('circle', 'circle-default' + t, dict(vec=v, cen=None, reg=((0, 4), (0, 8)), n=(5, 3)))
        add('circle', 'circle-none' + t, dict(vec=v, cen='none', n=(5, 3), other=2.0))
        add('circle', 'circle-none2' + t, dict(vec=v, cen='none2', n=(3, 5), other=2.0))
        add('edge', 'edge' + t, dict(vec=v), 3)
        add('rect_edge', 'rect-edge' + t, dict(vec=v), 6)
        add('rectangle', 'rect-none1' + t, dict(vec=v, cen='none1', n=(5, 3)), 15)
        add('rectangle', 'rect-none2' + t, dict(vec=v, cen='none2', n=(3, 5)), 15)
        add('circle', 'circle-unit' + t, dict(vec=v, cen=None, rad=False, mult=False, reg=((0, 2), (0, 2)), n=(5, 5)), 1)
        add('rectangle', 'rect' + t, dict(vec=v), 15)
        add('rectangle', 'rect-default' + t, dict(vec=v, cen=None, n=(5, 3)))
        add('rectangle', 'rect-none' + t, dict(vec=v, cen='none', n=(3, 5)))
        add('rectangle', 'rect-width' + t, dict(vec=v, cen=None, h=False, mult=False, reg=((0, 3), (0, 8)), n=(3, 5)))
        add('rectangle', 'rect-height' + t, dict(vec=v, cen=None, w=False, reg=((0, 8), (0, 3)), n=(5, 3)))
        add('gradient', 'gradient' + t, dict(vec=v))
        add('gradient', 'gradient-default' + t, dict(vec=v, direction=False, mult=False), 1)
    add('checker', 'checker', dict(size=[(2, 4), (4, 2), (3, 8), (2.5, 1)]), 1)
    add('checker', 'checker-default', dict(reg=((-4, 4), (-2, 2)), n=(4, 8)), 1)
    add('checker', 'checker-odd', dict(reg=((1, 9), (-6, 2)), size=[(2, 4), (4, 2), (3, 8), (2.5, 1)]), 1)
    add('checker', 'checker-wide', dict(n=(3, 5), size=[(2, 4), (4, 2), (3, 8), (2.5, 1)]), 1)
    add('checker', 'checker-tall', dict(n=(6, 3), reg=((0.75, 8.75), (-6.5, 1.5)), size=[(2, 4), (4, 2), (3, 8), (2.5, 1)]), 1)
    add('refused', 'refused', {}, 1)
    if tier == 'thorough':
        add('circle', 'circle-lat-9', {}, 20)
        add('circle', 'circle-long-9', dict(cen='long', reg=((-4, 4), (-4, 4)), other=0.0), 20)
        add('rectangle', 'rect-16', dict(n=(4, 4)), 100)
    return J

"""C01 Boundary validity and derived geometry"""
from .common import *
from meshiphi.mesh_generation.boundary import Boundary
from meshiphi.mesh_generation.aggregated_cellbox import AggregatedCellBox

PROPERTY = dict(
    bounds='any real latitudes/longitudes in [-400,400] for acceptance; any real non-degenerate boundary in [-180,180]x[-90,90], crossing the antimeridian or not, for derived quantities',
    outside='boundaries whose start and end longitude coincide; great-circle size (trigonometry)',
    stubs=[GEOM_STUB])


def accept(S):
    y0, y1, x0, x1 = (S.real(n, -400, 400) for n in ('lat0', 'lat1', 'lon0', 'lon1'))
    b, e = S.call(Boundary, [y0, y1], [x0, x1])
    S.check(e is None or isinstance(e, ValueError), 'rejection is a ValueError')
    good = S.And(y0 <= y1, x0 >= -180, x0 <= 180, x1 >= -180, x1 <= 180)
    S.check(S.Or(good, e is not None), 'invalid ranges are rejected')
    S.check(S.Implies(good, e is None), 'valid ranges are accepted')
    S.reach('reject' if e is not None else 'accept')


def _b(S, crossing):
    y0, y1 = S.real('lat0', -90, 90), S.real('lat1', -90, 90)
    x0, x1 = S.real('lon0', -180, 180), S.real('lon1', -180, 180)
    S.assume(y0 < y1)
    S.assume(x0 > x1 if crossing else x0 < x1)
    if crossing:
        S.assume(S.Or(x0 < 180, x1 > -180))
    return y0, y1, x0, x1


def derived(S, crossing=False):
    y0, y1, x0, x1 = _b(S, crossing)
    b = Boundary([y0, y1], [x0, x1])
    ux1 = x1 + 360 if crossing else x1
    S.check(S.eq(b.get_width(), ux1 - x0), 'width is the eastward extent')
    S.check(S.eq(b.get_height(), y1 - y0), 'height')
    S.check(S.eq(b.getdcx() * 2, ux1 - x0), 'half width')
    S.check(S.eq(b.getdcy() * 2, y1 - y0), 'half height')
    S.check(S.eq(b.getcy() * 2, y0 + y1), 'centre latitude')
    cx = b.getcx()
    S.check(S.And(cx >= -180, cx <= 180), 'centre longitude in range')
    S.check(S.Or(S.eq(cx * 2, x0 + ux1), S.eq(cx * 2 + 720, x0 + ux1)), 'centre longitude is the middle modulo 360')
    S.check(S.And(S.eq(b.get_lat_min(), y0), S.eq(b.get_lat_max(), y1), S.eq(b.get_long_min(), x0), S.eq(b.get_long_max(), x1)), 'getters')
    pts = b.get_bounds()
    S.check(len(pts) == 5, 'closed ring of four corners')
    ring = [(x0, y0), (x0, y1), (x1, y1), (x1, y0), (x0, y0)]
    S.check(S.And([S.And(S.eq(p[0], q[0]), S.eq(p[1], q[1])) for p, q in zip(pts, ring)]), 'corners')
    S.observe('cx', cx)
    S.observe('w', b.get_width())


def polygon(S, crossing=False):
    y0, y1, x0, x1 = _b(S, crossing)
    b = Boundary([y0, y1], [x0, x1])
    poly = b.to_polygon()
    ux1 = x1 + 360 if crossing else x1
    if not S.symbolic:
        # (the solver decides this through point membership below; replays of undecided paths get it directly)
        S.check(S.eq(poly.area, (ux1 - x0) * (y1 - y0)) and S.eq(poly.bounds[1], y0) and S.eq(poly.bounds[3], y1), 'the polygon is the rectangle')
    # point membership decides the shape of the polygon
    px, py = S.real('px', -180, 180), S.real('py', -90, 90)
    S.assume(S.And(px > -180, px < 180))
    lon_in = S.Or(px > x0, px < x1) if crossing else S.And(px > x0, px < x1)
    inside = AggregatedCellBox(b, {}, '0').contains_point(py, px)
    S.check(S.Iff(S.And(py > y0, py < y1, lon_in), inside), 'a point is contained iff it lies strictly inside')
    for back in (Boundary.from_poly_string(b.to_poly_string()),
                 AggregatedCellBox.from_json({'id': '7', 'geometry': b.to_poly_string()}).get_bounds()):
        S.check(S.And(S.eq(back.get_lat_min(), y0), S.eq(back.get_lat_max(), y1)), 'latitudes survive the polygon text')
        same = S.And(S.eq(back.get_long_min(), x0), S.eq(back.get_long_max(), x1))
        if crossing:
            same = S.Or(same, S.And(x0 == 180, S.eq(back.get_long_min(), -180), S.eq(back.get_long_max(), x1)),
                        S.And(x1 == -180, S.eq(back.get_long_min(), x0), S.eq(back.get_long_max(), 180)))
        S.check(same, 'longitudes survive the polygon text')
        S.check(S.eq(back.get_width(), ux1 - x0), 'width survives the polygon text')
    S.reach('in' if inside else 'out')


FINE = [(-12.345678901, 47.123456789, 1.000000001, 33.333333333), (0.1, 0.3, 170.7, -170.000000007), (-89.999999999, -1e-07, -179.999999999, 2e-09), (1e-06, 12.0, 100.0, -1e-06),
        (-12.0, 5.25, -100.5, -170.25), (1.0, 5.5, 170.0, 20.5), (-60.5, -50.25, 170.0, -170.0), (-60.5, -50.25, -20.0, -10.0), (50.0, 60.0, 10.0, 20.0), (-80.0, -70.0, 90.0, 180.0), (-80.0, -70.0, -180.0, 0.0)]


def fine(S):
    """edges with many digits survive the polygon text"""
    y0, y1, x0, x1 = FINE[S.cint('which', 0, len(FINE) - 1)]
    b = Boundary([y0, y1], [x0, x1])
    for back in (Boundary.from_poly_string(b.to_poly_string()), AggregatedCellBox.from_json({'id': '7', 'geometry': b.to_poly_string()}).get_bounds()):
        g = [back.get_lat_min(), back.get_lat_max(), back.get_long_min(), back.get_long_max()]
        S.check(all(abs(p - q) < 1e-12 for p, q in zip(g, (y0, y1, x0, x1))), 'the polygon text keeps the edges to the last digit')
    S.reach('ok')


def equality(S):
    """boundaries compare equal exactly when all four edges agree"""
    a = rect(S, 'a')
    c = rect(S, 'b')
    r = Boundary([a[0], a[1]], [a[2], a[3]]) == Boundary([c[0], c[1]], [c[2], c[3]])
    S.check(S.Iff(S.And([p == q for p, q in zip(a, c)]), r), 'equal iff every edge is equal')
    S.reach(str(bool(r)))


def jobs(tier):
    js = [job(__name__, 'accept', reach=['accept', 'reject']), job(__name__, 'equality', reach=['True', 'False'])]
    js.append(job(__name__, 'fine', reach=['ok'], wit_every=1))
    for c in (False, True):
        js.append(job(__name__, 'derived', f'derived-{int(c)}', cfg=dict(crossing=c)))
        js.append(job(__name__, 'polygon', f'polygon-{int(c)}', cfg=dict(crossing=c), reach=['in', 'out']))
    return js

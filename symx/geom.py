"""Stand-ins for shapely geometry restricted to axis-aligned rectangles (and unions of them).

Used only in symbolic workers.  Contract modelled (exact arithmetic):
  Polygon.contains(Point)  <=> strictly inside;   intersects <=> closed sets meet;
  area / bounds / wkt / geoms as documented by shapely; wkt round-trips coordinates exactly.
Anything that is not an axis-aligned rectangle taints the path.
"""
import re
from .core import And, Or, Not, SymNum, is_sym, taint, eng, Unsupported
from fractions import Fraction


def _num(s):
    s = s.strip()
    v = eng().untoken(s)
    if v is not None:
        return v
    return float(s)


def mn(vals):
    m = vals[0]
    for v in vals[1:]:
        if v is not m and bool(v < m):
            m = v
    return m


def mx(vals):
    m = vals[0]
    for v in vals[1:]:
        if v is not m and bool(v > m):
            m = v
    return m


def same(a, b):
    if a is b:
        return True
    r = a == b
    return r if isinstance(r, bool) else bool(r)


class Geom:
    is_valid = True

    def __hash__(self):
        return id(self)

    # generic algebra on lists of rectangles
    def rects(self):
        raise NotImplementedError

    @property
    def is_empty(self):
        return len(self.rects()) == 0

    @property
    def area(self):
        tot = 0
        for (x0, y0, x1, y1) in self.rects():
            tot = tot + (x1 - x0) * (y1 - y0)
        return tot

    @property
    def bounds(self):
        r = self.rects()
        if not r:
            return ()
        return (mn([q[0] for q in r]), mn([q[1] for q in r]), mx([q[2] for q in r]), mx([q[3] for q in r]))

    @property
    def envelope(self):
        return box(*self.bounds)

    @property
    def centroid(self):
        x0, y0, x1, y1 = self.bounds
        return Point((x0 + x1) / 2, (y0 + y1) / 2)

    def contains(self, o):
        if isinstance(o, Point):
            return bool(Or([And(o.x > x0, o.x < x1, o.y > y0, o.y < y1) for x0, y0, x1, y1 in self.rects()]))
        rs = self.rects()
        if len(rs) == 1:
            a = rs[0]
            return all(bool(And(b[0] >= a[0], b[1] >= a[1], b[2] <= a[2], b[3] <= a[3])) for b in o.rects()) and not o.is_empty
        taint('contains between composite geometries')

    def covers(self, o):
        if isinstance(o, Point):
            return bool(Or([And(o.x >= x0, o.x <= x1, o.y >= y0, o.y <= y1) for x0, y0, x1, y1 in self.rects()]))
        return self.contains(o)

    def within(self, o):
        return o.contains(self)

    def intersects(self, o):
        if isinstance(o, Point):
            return self.covers(o)
        return bool(Or([And(a[0] <= b[2], b[0] <= a[2], a[1] <= b[3], b[1] <= a[3]) for a in self.rects() for b in o.rects()]))

    def disjoint(self, o):
        return not self.intersects(o)

    def touches(self, o):
        if isinstance(o, Point):
            return self.covers(o) and not self.contains(o)
        return self.intersects(o) and not self.interiors_meet(o)

    def interiors_meet(self, o):
        return bool(Or([And(a[0] < b[2], b[0] < a[2], a[1] < b[3], b[1] < a[3]) for a in self.rects() for b in o.rects()]))

    def overlaps(self, o):
        return self.interiors_meet(o) and not self.contains(o) and not o.contains(self)

    def intersection(self, o):
        out, seg = [], []
        for a in self.rects():
            for b in o.rects():
                if bool(And(a[0] < b[2], b[0] < a[2], a[1] < b[3], b[1] < a[3])):
                    out.append((mx([a[0], b[0]]), mx([a[1], b[1]]), mn([a[2], b[2]]), mn([a[3], b[3]])))
                elif bool(And(a[0] <= b[2], b[0] <= a[2], a[1] <= b[3], b[1] <= a[3])):
                    seg.append((mx([a[0], b[0]]), mx([a[1], b[1]]), mn([a[2], b[2]]), mn([a[3], b[3]])))
        if not out and seg:
            return Line()
        if any(_uncovered(s, out) for s in seg):
            return GeometryCollection([box(*r) for r in out] + [Line()])
        return from_rects(out)

    def __and__(self, o):
        return self.intersection(o)

    def union(self, o):
        return unary_union([self, o])

    def buffer(self, d, *a, **k):
        if isinstance(d, (int, float)) and d == 0:
            return self
        taint('buffer')

    def difference(self, o):
        pieces = self.rects()
        for q in o.rects():
            pieces = [r for p in pieces for r in _subtract(p, q)]
        return from_rects(pieces)

    def __sub__(self, o):
        return self.difference(o)

    def __or__(self, o):
        return self.union(o)

    @property
    def boundary(self):
        if isinstance(self, Polygon) and self.holes:
            return Edge([r for q in [Polygon(self.pts)] + self.holes for r in q.rects()])
        if isinstance(self, MultiPolygon):
            return Edge([r for g in self._g for r in g.boundary.rs])
        if len(self.rects()) > 1:
            taint('boundary of a composite geometry')
        return Edge(self.rects())

    def distance(self, o):
        taint('distance')

    def equals(self, o):
        a, b = self.rects(), o.rects()
        if len(a) != len(b):
            return False
        return all(all(same(p, q) for p, q in zip(r, s)) for r, s in zip(a, b))

    def __eq__(self, o):
        if not isinstance(o, Geom):
            return False
        if self is o:
            return True
        if type(self) is not type(o):
            return False
        return self.equals(o)

    def __ne__(self, o):
        return not self == o

    def __str__(self):
        return self.wkt


def from_rects(rs):
    if not rs:
        return Polygon()
    if len(rs) == 1:
        return box(*rs[0])
    return MultiPolygon([box(*r) for r in rs])


def _uncovered(s, rs):
    """does part of the segment (or the point) s lie outside the closed rectangles rs"""
    x0, y0, x1, y1 = s
    if same(x0, x1):
        if same(y0, y1):
            return not bool(Or([And(r[0] <= x0, x0 <= r[2], r[1] <= y0, y0 <= r[3]) for r in rs]))
        left, a, b, i = [(y0, y1)], 0, 2, 1
        p = x0
    else:
        left, a, b, i = [(x0, x1)], 1, 3, 0
        p = y0
    for r in rs:
        if bool(And(r[a] <= p, p <= r[b])):
            nxt = []
            for lo, hi in left:
                if bool(Or(r[i] >= hi, r[i + 2] <= lo)):
                    nxt.append((lo, hi))
                    continue
                if bool(r[i] > lo):
                    nxt.append((lo, r[i]))
                if bool(r[i + 2] < hi):
                    nxt.append((r[i + 2], hi))
            left = nxt
    return bool(left)


class Point(Geom):
    geom_type = 'Point'

    def __init__(self, x, y=None):
        if y is None:
            x, y = x
        self.x, self.y = x, y

    def rects(self):
        return [(self.x, self.y, self.x, self.y)]

    @property
    def coords(self):
        return [(self.x, self.y)]

    @property
    def wkt(self):
        return f'POINT ({self.x} {self.y})'


class Edge:
    """outlines of rectangles"""
    def __init__(self, rs):
        self.rs = rs

    def intersects(self, o):
        # closed sets meet and o is not entirely in the interior
        hit = []
        for a in self.rs:
            for b in o.rects():
                hit.append(And(a[0] <= b[2], b[0] <= a[2], a[1] <= b[3], b[1] <= a[3],
                               Not(And(b[0] > a[0], b[2] < a[2], b[1] > a[1], b[3] < a[3]))))
        return bool(Or(hit))

    def __getattr__(self, n):
        taint('boundary.' + n)


class Line(Geom):
    """degenerate intersection (line or point)"""
    geom_type = 'LineString'
    area = 0.0

    def rects(self):
        return []

    @property
    def wkt(self):
        return 'LINESTRING EMPTY'


class Ring(Edge):
    def __init__(self, coords):
        self.coords = coords
        self.xy = ([c[0] for c in coords], [c[1] for c in coords])

    @property
    def rs(self):
        return Polygon(self.coords).rects()


class Polygon(Geom):
    geom_type = 'Polygon'

    def __init__(self, shell=None, holes=None):
        self.holes = [Polygon(h) for h in holes] if holes else []
        pts = [] if shell is None else [tuple(p) for p in shell]
        if pts and not (same(pts[0][0], pts[-1][0]) and same(pts[0][1], pts[-1][1])):
            pts.append(pts[0])
        self.pts = pts
        self._r = None

    @property
    def exterior(self):
        return Ring(list(self.pts))

    @property
    def interiors(self):
        return [Ring(list(h.pts)) for h in self.holes]

    def rects(self):
        if not self.pts:
            return []
        if self._r is None:
            xs, ys = [p[0] for p in self.pts], [p[1] for p in self.pts]
            x0, x1, y0, y1 = mn(xs), mx(xs), mn(ys), mx(ys)
            if len(self.pts) != 5:
                taint('non-rectangular polygon')
            code = []
            for x, y in self.pts[:4]:
                cx = 0 if same(x, x0) else 1 if same(x, x1) else taint('non-rectangular polygon')
                cy = 0 if same(y, y0) else 1 if same(y, y1) else taint('non-rectangular polygon')
                code.append((cx, cy))
            degenerate = same(x0, x1) or same(y0, y1)
            if not degenerate:
                ok = all(abs(code[i][0] - code[(i + 1) % 4][0]) + abs(code[i][1] - code[(i + 1) % 4][1]) == 1 for i in range(4))
                if not ok or len(set(code)) != 4:
                    taint('non-rectangular polygon')
            self._r = [(x0, y0, x1, y1)]
            for h in self.holes:
                self._r = [r for p in self._r for q in h.rects() for r in _subtract(p, q)]   # (one rectangle per hole)
        return self._r

    @property
    def wkt(self):
        if not self.pts:
            return 'POLYGON EMPTY'
        return 'POLYGON (' + ', '.join('(' + ', '.join(f'{_s(x)} {_s(y)}' for x, y in g.pts) + ')' for g in [self] + self.holes) + ')'


def _s(v):
    if is_sym(v):
        return str(v)
    f = float(v)
    return str(int(f)) if f == int(f) else repr(f)


class MultiPolygon(Geom):
    geom_type = 'MultiPolygon'

    def __init__(self, polys=None):
        self._g = [p if isinstance(p, Polygon) else Polygon(p[0] if len(p) == 2 and not is_sym(p[0]) else p) for p in (polys or [])]

    @property
    def geoms(self):
        return list(self._g)

    def rects(self):
        return [r for g in self._g for r in g.rects()]

    @property
    def wkt(self):
        return 'MULTIPOLYGON (' + ', '.join(g.wkt[len('POLYGON '):] for g in self._g) + ')'


class GeometryCollection(Geom):
    geom_type = 'GeometryCollection'

    def __init__(self, geoms=None):
        self._g = list(geoms or [])

    @property
    def geoms(self):
        return list(self._g)

    def rects(self):
        return [r for g in self._g for r in g.rects()]

    @property
    def wkt(self):
        return 'GEOMETRYCOLLECTION (' + ', '.join(g.wkt for g in self._g) + ')'


def box(minx, miny, maxx, maxy, ccw=True):
    if ccw:
        return Polygon([(maxx, miny), (maxx, maxy), (minx, maxy), (minx, miny), (maxx, miny)])
    return Polygon([(minx, miny), (minx, maxy), (maxx, maxy), (maxx, miny), (minx, miny)])


def _parse_ring(s):
    pts = []
    for c in s.split(','):
        a = c.split()
        pts.append((_num(a[0]), _num(a[1])))
    return pts


def loads(s):
    u = s.strip()
    m = re.match(r'^\s*(MULTIPOLYGON|POLYGON|POINT)\s*(.*)$', u, re.S | re.I)
    if not m:
        taint('unparsed wkt')
    kind, rest = m.group(1).upper(), m.group(2).strip()
    if rest.upper() == 'EMPTY':
        return Polygon()
    if kind == 'POINT':
        a = rest.strip('() ').split()
        return Point(_num(a[0]), _num(a[1]))
    rings = re.findall(r'\(([^()]*)\)', rest)
    if kind == 'POLYGON':
        return Polygon(_parse_ring(rings[0]), [_parse_ring(r) for r in rings[1:]])
    if re.search(r'\)\s*,\s*\((?!\()', rest):
        taint('multi-polygon with holes as text')
    return MultiPolygon([Polygon(_parse_ring(r)) for r in rings])


def dumps(g, **k):
    return g.wkt


def unary_union(geoms):
    """union as a list of disjoint rectangles (sweep over the coordinate grid)"""
    rs = []
    for g in geoms:
        rs += g.rects()
    if len(rs) <= 1:
        return from_rects(rs)
    out = []
    for r in rs:
        pieces = [r]
        for q in out:
            nxt = []
            for p in pieces:
                nxt += _subtract(p, q)
            pieces = nxt
        out += pieces
    return from_rects(out)


def _subtract(p, q):
    if not bool(And(p[0] < q[2], q[0] < p[2], p[1] < q[3], q[1] < p[3])):
        return [p]
    x0, y0, x1, y1 = p
    out = []
    if bool(q[1] > y0):
        out.append((x0, y0, x1, q[1]))
        y0 = q[1]
    if bool(q[3] < y1):
        out.append((x0, q[3], x1, y1))
        y1 = q[3]
    if bool(q[0] > x0):
        out.append((x0, y0, q[0], y1))
    if bool(q[2] < x1):
        out.append((q[2], y0, x1, y1))
    return out


class STRtree:
    def __init__(self, geoms, *a, **k):
        self.geometries = list(geoms)

    def query(self, g, predicate=None, distance=None):
        import numpy as np
        out = []
        for i, h in enumerate(self.geometries):
            if predicate is None:
                a, b = h.bounds, g.bounds
                ok = a and b and bool(And(a[0] <= b[2], b[0] <= a[2], a[1] <= b[3], b[1] <= a[3]))
            else:
                ok = getattr(g, predicate)(h)
            if ok:
                out.append(i)
        return np.array(out, dtype=int)

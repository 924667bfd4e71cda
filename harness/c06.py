"""C06 neighbour direction classification"""
from .common import *
from meshiphi.mesh_generation.boundary import Boundary
from meshiphi.mesh_generation.neighbour_graph import NeighbourGraph

PROPERTY = dict(
    bounds='two arbitrary non-degenerate cells with disjoint interiors, any real bounds in [-180,180]x[-90,90], each may cross the antimeridian (regional) '
           'or lie in a global -180..180 mesh; widths < 180 degrees',
    outside='cells of 180 degrees or more, two-column global meshes, doubles whose sums round',
    stubs=[])


def _cell(S, p, crossing):
    """cell as (bounds args, unwrapped rectangle)"""
    y0, y1 = S.real(p + '.lat0', -90, 90), S.real(p + '.lat1', -90, 90)
    S.assume(y0 < y1)
    x0, x1 = S.real(p + '.lon0', -180, 180), S.real(p + '.lon1', -180, 180)
    if crossing:
        S.assume(x0 > x1)
        r = (y0, y1, x0, x1 + 360)
    else:
        S.assume(x0 < x1)
        r = (y0, y1, x0, x1)
    S.assume(S.And(r[3] - r[2] < 180, r[3] > r[2]))
    return Boundary([y0, y1], [x0, x1]), r


def classify(S, api='case', glob=False, ca=False, cb=False):
    ba, ra = _cell(S, 'a', ca)
    bb, rb = _cell(S, 'b', cb)
    S.assume(S.And(disjoint_mod(S, ra, rb)))
    ng = NeighbourGraph()
    if glob:
        ng.set_global_mesh(True)
    if api == 'case':
        A, B = fake_cell(ba), fake_cell(bb)
        ab = ng.get_neighbour_case(A, B)
        ba_ = ng.get_neighbour_case(B, A)
    else:
        ab = ng.get_neighbour_case_bounds(ba, bb)
        ba_ = ng.get_neighbour_case_bounds(bb, ba)
    spec = rel_mod(S, ra, rb)
    for d, c in spec.items():
        S.check(S.Iff(c, ab == d), f'direction {d} reported iff cells touch in that direction')
    S.check(S.Iff(S.Or(list(spec.values())), ab != 0), 'zero iff not touching')
    S.check(ab == -ba_, 'classification of the swapped pair is the opposite direction')
    S.observe('ab', ab)
    S.observe('ba', ba_)
    S.reach(f'dir{ab}')


def jobs(tier):
    js = []
    for api in ('case', 'bounds'):
        for ca, cb in ((0, 0), (1, 0), (0, 1)):
            js.append(job(__name__, 'classify', f'classify-{api}-{ca}{cb}', cfg=dict(api=api, ca=bool(ca), cb=bool(cb)),
                          reach=[f'dir{d}' for d in (0, 1, 2, 3, 4, -1, -2, -3, -4)] if not ca and not cb else ()))
    js.append(job(__name__, 'classify', 'classify-case-global', cfg=dict(api='case', glob=True)))
    return js

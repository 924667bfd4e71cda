"""C05 splitting a cell partitions it exactly"""
import types
from .common import *
from meshiphi.mesh_generation.boundary import Boundary
from meshiphi.mesh_generation.cellbox import CellBox
from meshiphi.mesh_generation.metadata import Metadata
from meshiphi.mesh_generation.aggregated_cellbox import AggregatedCellBox
from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh
from meshiphi.mesh_generation.neighbour_graph import NeighbourGraph

PROPERTY = dict(
    bounds='any real cell in [-180,180]x[-90,90] narrower than 360 degrees, crossing the antimeridian or not; any start id in 0..40; two data sources; up to seven existing cells, ids up to 30 for two cells (thorough) and the largest id anywhere in the list; a second split after cells were added, removed, renumbered or given new values',
    outside='sizes that are not exactly halvable in doubles', stubs=[])


def sym_cell(S, crossing):
    y0, y1 = S.real('lat0', -90, 90), S.real('lat1', -90, 90)
    x0, x1 = S.real('lon0', -180, 180), S.real('lon1', -180, 180)
    S.assume(y0 < y1)
    S.assume(x0 > x1 if crossing else x0 < x1)
    if crossing:
        S.assume(x0 - x1 < 360)
    return Boundary([y0, y1], [x0, x1], ['2020-01-01', '2020-01-31']), (y0, y1, x0, x1 + 360 if crossing else x1)


def quarters(S, r, bounds, times=['2020-01-01', '2020-01-31']):
    """bounds = {'NW':..,'NE':..,'SW':..,'SE':..} are the four quarters of r (longitudes modulo 360, representation in range)"""
    y0, y1, x0, x1 = r
    for q, b in bounds.items():
        S.check(S.eq(b.get_lat_min() * 2, y0 + y1 if q[0] == 'N' else y0 * 2), f'{q} south edge')
        S.check(S.eq(b.get_lat_max() * 2, y0 + y1 if q[0] == 'S' else y1 * 2), f'{q} north edge')
        w, e = (x0 * 2, x0 + x1) if q[1] == 'W' else (x0 + x1, x1 * 2)
        S.check(S.Or([S.eq(b.get_long_min() * 2, w + k) for k in (0, -720)]), f'{q} west edge')
        S.check(S.Or([S.eq(b.get_long_max() * 2, e + k) for k in (0, -720)]), f'{q} east edge')
        S.check(S.And(b.get_long_min() >= -180, b.get_long_min() <= 180, b.get_long_max() >= -180, b.get_long_max() <= 180), f'{q} longitudes in range')
        S.check(S.eq(b.get_width() * 2, x1 - x0), f'{q} has half the width')
        S.check(list(b.get_time_range()) == times, f'{q} keeps the time range')


def same_bounds(S, a, b):
    if a is b:
        return True
    f = lambda q: (q.get_lat_min(), q.get_lat_max(), q.get_long_min(), q.get_long_max())
    return S.And([S.eq(x, y) for x, y in zip(f(a), f(b))]) and list(a.get_time_range()) == list(b.get_time_range())


class Loader:
    def __init__(self, name, empty=False):
        self.data_name, self.data, self.calls, self.empty = name, {name: 0}, [], empty

    def trim_datapoints(self, bounds, data=None):
        self.calls.append((bounds, data))
        return (Nothing if self.empty else Something)(('subset', self.data_name, bounds, data))


class Something(tuple):
    pass


class Nothing(tuple):
    """a subset without any datapoint"""
    empty = True
    size = 0

    def __len__(self):
        return 0


def builder(S, crossing=False):
    b, r = sym_cell(S, crossing)
    sid = S.cint('start', 0, 6)
    depth = S.choice('depth', [0, 1, 2, 7])
    c = CellBox(b, '3')
    c.set_split_depth(depth)
    if depth:
        up = CellBox(Boundary([-90, 90], [-180, 180], ['2020-01-01', '2020-01-31']), '0')
        up.set_split_depth(depth - 1)
        c.set_parent(up)
    # the child's part of the data may hold no datapoint at all
    L = [Loader(n, S.flag('empty.' + n)) for n in 'ab']
    conds = [[{'x': 1}], []]
    c.set_data_source([Metadata(l, cd, fill, 'D' + l.data_name) for l, cd, fill in zip(L, conds, ('parent', 0.0))])
    kids = c.split(sid)
    S.check(len(kids) == 4, 'four children')
    S.check([k.get_id() for k in kids] == [str(sid + i) for i in range(4)], 'children take the next four ids in order')
    names = dict(zip(('NW', 'NE', 'SW', 'SE'), kids))
    quarters(S, r, {n: k.get_bounds() for n, k in names.items()})
    for k in kids:
        S.check(k.get_split_depth() == depth + 1, 'children are one level deeper')
        S.check(k.get_parent() is c, 'children know their parent')
        ds = k.get_data_source()
        S.check(len(ds) == 2, 'children keep every data source')
        for i, m in enumerate(ds):
            S.check(m.get_data_loader() is L[i], 'same loader in the same order')
            S.check(m.get_splitting_conditions() == conds[i], 'same splitting conditions')
            S.check(m.get_value_fill_type() == ('parent', 0.0)[i], 'same fill policy')
            sub = m.get_data_subset()
            S.check(isinstance(sub, tuple) and sub[0] == 'subset' and sub[1] == L[i].data_name and same_bounds(S, sub[2], k.get_bounds()) and sub[3] == 'D' + L[i].data_name,
                    "children's data is the parent's data trimmed to the child")
    S.check(same_bounds(S, c.get_bounds(), b) and [m.get_data_subset() for m in c.get_data_source()] == ['Da', 'Db'], 'the split cell itself is unchanged')
    S.observe('kids', [[k.get_bounds().get_long_min(), k.get_bounds().get_long_max()] for k in kids])


def bound_split(S, crossing=False):
    b, r = sym_cell(S, crossing)
    bs = b.split()
    S.check(len(bs) == 4, 'four parts')
    quarters(S, r, dict(zip(('SW', 'NW', 'SE', 'NE'), bs)))
    S.observe('b', [[k.get_long_min(), k.get_long_max()] for k in bs])


def mesh_split(S, crossing=False):
    """splitting a cell of a finished mesh: children copy its values, ids are new"""
    b, r = sym_cell(S, crossing)
    ids = [S.cint(f'id{i}', 0, 12 if S.tier == 'quick' else 30) for i in range(2)]
    S.assume(ids[0] != ids[1])
    v = S.real('v', -1000, 1000)
    agg = {'SIC': v, 'uC': 2.0}
    X = AggregatedCellBox(b, dict(agg), str(ids[0]))
    other = AggregatedCellBox(Boundary([-5, 5], [0, 5]), {'SIC': 1.0}, str(ids[1]))
    mesh = EnvironmentMesh(Boundary([-90, 90], [-180, 180]), [X, other], NeighbourGraph(), {})
    kids = mesh.sim_split_cellbox(str(ids[0]))
    S.check(len(kids) == 4, 'four children')
    m = max(ids)
    S.check(sorted(int(k.get_id()) for k in kids) == [m + 1, m + 2, m + 3, m + 4], 'children take the four ids above the largest id in use')
    quarters(S, r, dict(zip(('SW', 'NW', 'SE', 'NE'), [k.get_bounds() for k in kids])))
    for k in kids:
        d = k.get_agg_data()
        S.check(S.And(S.eq(d['SIC'], v), S.eq(d['uC'], 2.0)), 'children copy the aggregated values')
        S.check(set(d) - {'id'} == {'SIC', 'uC'} and d.get('id', k.get_id()) == k.get_id(), 'no other values appear')
    S.check(all(a is c or a.get_agg_data() is not c.get_agg_data() for a in kids for c in kids), 'children do not share their value tables')
    S.check(X.get_agg_data() == agg and len(mesh.agg_cellboxes) == 2, 'simulating a split does not change the mesh')


def many(S, n=7):
    """the largest id may be anywhere in the mesh; a later split sees the ids of the cells then present"""
    b = Boundary([0, 8], [0, 8])
    at = S.cint('at', 0, n - 1)
    big = S.choice('big', [50, 90])
    ids = [3 * i + 1 for i in range(n)]
    ids[at] = big
    x = S.cint('split', 0, n - 1)
    cells = [AggregatedCellBox(Boundary([0, 8], [8 * i, 8 * i + 8]), {'SIC': float(i)}, str(k)) for i, k in enumerate(ids)]
    mesh = EnvironmentMesh(Boundary([-90, 90], [-180, 180]), list(cells), NeighbourGraph(), {})

    def sim(c):
        top = max(int(a.get_id()) for a in mesh.agg_cellboxes)
        kids = mesh.sim_split_cellbox(c.get_id())
        S.check(sorted(int(k.get_id()) for k in kids) == [top + 1, top + 2, top + 3, top + 4], 'children take the four ids above the largest id in use')
        k = cells.index(c)
        quarters(S, (0, 8, 8 * k, 8 * k + 8), dict(zip(('SW', 'NW', 'SE', 'NE'), [k.get_bounds() for k in kids])), [])
        S.check(all(kk.get_agg_data().get('SIC') == c.get_agg_data()['SIC'] for kk in kids), 'children copy the aggregated values')
    sim(cells[x])
    what = S.choice('then', ['add', 'remove', 'increment', 'values'])
    if what == 'add':
        mesh.add_cellbox(AggregatedCellBox(Boundary([8, 16], [0, 8]), {'SIC': 2.0}, str(S.choice('newid', [2, 120]))))
    elif what == 'remove':
        S.assume(at != x)
        mesh.agg_cellboxes.remove(cells[at])
    elif what == 'increment':
        mesh.increment_ids(5)
    else:
        mesh.update_cellbox(x, {'SIC': 77.0})
    sim(cells[x])


def jobs(tier):
    js = []
    for c in (False, True):
        for f in ('builder', 'bound_split', 'mesh_split'):
            js.append(job(__name__, f, f'{f}-{int(c)}', cfg=dict(crossing=c)))
    js.append(job(__name__, 'many', 'many', wit_every=8))
    return js

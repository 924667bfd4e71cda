"""C10 refinement control"""
from .common import *
from meshiphi.mesh_generation.boundary import Boundary
from meshiphi.mesh_generation.cellbox import CellBox
from meshiphi.mesh_generation.mesh import Mesh
from meshiphi.mesh_generation.mesh_builder import MeshBuilder
from meshiphi.mesh_generation.metadata import Metadata
from meshiphi.mesh_generation.neighbour_graph import NeighbourGraph

PROPERTY = dict(
    bounds='decision: up to 4 homogeneity answers over up to 3 data sources, each any of CLR/HOM/MIN/HET; '
           'whole refinement: one or two initial cells, two data sources (with and without splitting conditions), every assignment of answers to the cells reached, maximum depth 0..2, and 3 and 4 along one corner; 63 initial cells of which one and its quarter answer anything',
    outside='more than four conditions per cell; depth above 4',
    stubs=['data loaders replaced by an arbitrary (solver-chosen) homogeneity answer per cell and condition'], budget=dict(quick=600, thorough=900))
ANS = ('CLR', 'HET', 'HOM', 'MIN')


class Loader:
    def __init__(self, S, name, opts=ANS, leaf=None, free=None):
        self.leaf, self.free = leaf, free
        self.S, self.data_name, self.data, self.dataloader_name, self.opts = S, name, {name: 0}, name, opts
        self.given = {}

    def trim_datapoints(self, bounds, data=None):
        return (data or '') + '.'

    def get_hom_condition(self, bounds, cond, data=None):
        key = (self.key(bounds), cond)
        if key not in self.given:
            opts = self.opts if self.free is None or self.free(bounds) else ('CLR',)
            # cells at the maximum depth share one answer per source (their answers must not matter)
            shared = self.leaf is not None and bounds.get_width() <= self.leaf
            self.given[key] = self.S.choice(f'{self.data_name}.leaf' if shared else f'{self.data_name}.{cond}.{key[0]}', opts)
        return self.given[key]

    def get_value(self, bounds, data=None):
        return {self.data_name: 1.0}

    @staticmethod
    def key(b):
        return f'{b.get_lat_min():g}_{b.get_long_min():g}_{b.get_width():g}'


def split_wanted(answers):
    return 'HET' in answers and 'HOM' not in answers and 'MIN' not in answers


def decision(S, shape=(1,), stop=1, bf=False):
    ls = [Loader(S, f's{i}') for i in range(len(shape))]
    b = Boundary([0, 8], [0, 8])
    c = CellBox(b, '0')
    c.set_data_source([Metadata(l, list(range(n)), 'parent', 'd') for l, n in zip(ls, shape)])
    got = c.should_split_breadth_first() if bf else c.should_split(stop)
    n = len(shape) if bf else stop
    ans = [l.get_hom_condition(b, k) for l, cnt in list(zip(ls, shape))[:n] for k in range(cnt)]
    S.check(bool(got) == split_wanted(ans), 'split iff some answer is HET and none is HOM or MIN')
    S.reach(str(bool(got)))


def refine(S, depth=1, conds=(1, 1), opts=('HET', 'HOM', 'CLR'), two=False, sides=False):
    # sides: each source speaks only for one of the two initial cells and its south-western descendants, the others are clear
    frees = [None] * len(conds)
    if sides:
        frees = [lambda b, x=x: b.get_lat_min() == 0 and b.get_long_min() == x for x in sides]
    ls = [Loader(S, f's{i}', opts, 8 / 2 ** depth, f) for i, f in enumerate(frees)]
    cells = []
    rects = [(0, 8, 0, 8)] + ([(0, 8, 8, 16)] if two else [])
    for i, r in enumerate(rects):
        c = CellBox(Boundary([r[0], r[1]], [r[2], r[3]]), str(i))
        c.set_data_source([Metadata(l, list(range(n)), 'parent', 'd') for l, n in zip(ls, conds)])
        cells.append(c)
    mb = builder()
    mb.neighbour_graph = NeighbourGraph(cells, len(rects))
    mb.mesh = Mesh(Boundary([0, 8], [0, 16 if two else 8]), list(cells), mb.neighbour_graph, depth)
    mb.config = {}
    env = mb.build_environmental_mesh()
    leaves = [c for c in mb.mesh.cellboxes if isinstance(c, CellBox)]
    S.check(all(c.get_split_depth() <= depth for c in leaves), 'no cell is deeper than the maximum split depth')
    area = sum(c.get_bounds().get_width() * c.get_bounds().get_height() for c in leaves)
    S.check(area == 64 * len(rects), 'the leaves cover the region')

    def answers(c, upto):
        # an answer the code did not ask for can be anything
        return [ls[i].get_hom_condition(c.get_bounds(), k) for i in range(upto) for k in range(conds[i])]
    last = max([i for i, n in enumerate(conds) if n], default=-1) + 1
    for c in leaves:
        if c.get_split_depth() < depth:
            S.check(not split_wanted(answers(c, last)), 'a leaf above the maximum depth does not ask to be split')
    seen = set()
    for c in leaves:
        p = c.get_parent()
        while p is not None:
            if id(p) not in seen:
                seen.add(id(p))
                S.check(any(split_wanted(answers(p, k)) for k in range(1, len(conds) + 1)), 'a cell is split only when some answer is HET and none blocks')
                S.check(p.get_split_depth() < depth, 'cells at the maximum depth are not split')
            p = p.get_parent()
    S.observe('n', len(leaves))
    S.check(sorted(int(c.get_id()) for c in env.agg_cellboxes) == sorted(mb.neighbour_graph.get_graph()), 'the finished mesh has one cell per leaf and per graph entry')
    S.check(len(env.agg_cellboxes) == len(leaves), 'the finished mesh has one cell per leaf')


def configured(S):
    """the depth of the configuration"""
    depth = S.choice('depth', [0, 1, 2, 3])
    mb = MeshBuilder({'region': {'lat_min': 0, 'lat_max': 8, 'long_min': 0, 'long_max': 8, 'start_time': '2020-01-01', 'end_time': '2020-02-01', 'cell_width': 8, 'cell_height': 8},
                      'data_sources': [], 'splitting': {'split_depth': depth, 'minimum_datapoints': S.choice('mindp', [0, 1, 5])}})
    made = []

    def make(bounds, params):
        made.append(Loader(S, 's', ('HET', 'CLR'), None, lambda b: b.get_lat_min() == 0 and b.get_long_min() == 0))
        return made[0]
    mb.add_dataloader(make, {'splitting_conditions': [{'s': 'c'}]})
    env = mb.build_environmental_mesh()
    got = sorted((c.get_bounds().get_lat_min(), c.get_bounds().get_long_min(), c.get_bounds().get_width()) for c in env.agg_cellboxes)
    want, x = [], (0, 0, 8)
    l = made[0]
    for d in range(depth):
        if l.given.get((f'0_0_{x[2]:g}', 'c')) != 'HET':
            break
        h = x[2] / 2
        want += [(h, 0, h), (0, h, h), (h, h, h)]
        x = (0, 0, h)
    want.append(x)
    S.check(got == sorted(want), 'cells are split as long as the data ask for it, up to the depth of the configuration')
    S.reach(f'd{len(want) // 3}')


def many(S, rows=7, cols=9):
    """many initial cells: one cell and its south-western quarter answer anything, some others always ask for a split"""
    depth = 2
    k = S.choice('cell', [0, 8, 31, 47, rows * cols - 1])
    X, Y = k % cols * 8, k // cols * 8

    def asks(b):
        return (b.get_long_min() + b.get_lat_min()) % 24 == 0 and b.get_width() == 8 and (b.get_long_min(), b.get_lat_min()) != (X, Y)

    class L(Loader):
        def get_hom_condition(self, bounds, cond, data=None):
            return 'HET' if asks(bounds) else super().get_hom_condition(bounds, cond, data)
    l = L(S, 's', ANS, None, lambda b: b.get_lat_min() == Y and b.get_long_min() == X)
    cells = []
    for i in range(rows * cols):
        x, y = i % cols * 8, i // cols * 8
        c = CellBox(Boundary([y, y + 8], [x, x + 8]), str(i))
        c.set_data_source([Metadata(l, ['c'], 'parent', 'd')])
        cells.append(c)
    mb = builder()
    mb.neighbour_graph = NeighbourGraph(cells, cols)
    mb.mesh = Mesh(Boundary([0, 8 * rows], [0, 8 * cols]), list(cells), mb.neighbour_graph, depth)
    mb.config = {}
    env = mb.build_environmental_mesh()
    want = []
    quarters = lambda x, y, w: [(x + dx, y + dy, w / 2) for dx in (0, w / 2) for dy in (0, w / 2)]
    for i in range(rows * cols):
        x, y = i % cols * 8, i // cols * 8
        if (x, y) == (X, Y):
            if l.given.get((f'{y:g}_{x:g}_8', 'c')) == 'HET':
                q = quarters(x, y, 8)
                want += q[1:]
                want += quarters(x, y, 4) if l.given.get((f'{y:g}_{x:g}_4', 'c')) == 'HET' else q[:1]
            else:
                want.append((x, y, 8))
        elif (x + y) % 24 == 0:
            want += quarters(x, y, 8)
        else:
            want.append((x, y, 8))
    got = sorted((c.get_bounds().get_long_min(), c.get_bounds().get_lat_min(), c.get_bounds().get_width()) for c in env.agg_cellboxes)
    S.check(got == sorted(want), 'exactly the cells whose data ask for it are split, wherever they are')
    S.check(sorted(int(c.get_id()) for c in env.agg_cellboxes) == sorted(mb.neighbour_graph.get_graph()), 'the finished mesh has one cell per leaf and per graph entry')
    S.reach('split' if len([w for w in got if w[2] == 2]) else 'one')


def jobs(tier):
    js = []
    for shape, stop in (((1,), 1), ((2,), 1), ((1, 1), 1), ((1, 1), 2), ((2, 1), 2), ((1, 0, 2), 3), ((0, 1), 1), ((3,), 1), ((2, 2), 2), ((1, 1, 1, 1), 4)):
        js.append(job(__name__, 'decision', f'decision-{shape}-{stop}', cfg=dict(shape=shape, stop=stop)))
    js.append(job(__name__, 'decision', 'decision-bf', cfg=dict(shape=(1, 1), bf=True)))
    js.append(job(__name__, 'decision', 'decision-bf3', cfg=dict(shape=(1, 0, 2), bf=True)))
    js.append(job(__name__, 'configured', reach=['d0', 'd1', 'd2', 'd3']))
    js.append(job(__name__, 'many', reach=['split', 'one'], wit_every=4))
    for d in (0, 1):
        js.append(job(__name__, 'refine', f'refine-{d}', cfg=dict(depth=d, conds=(1,), opts=ANS), wit_every=4))
    js.append(job(__name__, 'refine', 'refine-1-two', cfg=dict(depth=1, conds=(1,), opts=('HET', 'HOM'), two=True), wit_every=4))
    js.append(job(__name__, 'refine', 'refine-2', cfg=dict(depth=2, conds=(1,), opts=('HET', 'CLR') if tier == 'quick' else ('HET', 'HOM', 'CLR')), wit_every=4))
    js.append(job(__name__, 'refine', 'refine-1-sources', cfg=dict(depth=1, conds=(1, 1), opts=('HET', 'HOM') if tier == 'quick' else ('HET', 'HOM', 'CLR')), wit_every=8))
    js.append(job(__name__, 'refine', 'refine-1-skip', cfg=dict(depth=1, conds=(1, 0, 1), opts=('HET', 'CLR')), wit_every=8))
    js.append(job(__name__, 'refine', 'refine-2-sides', cfg=dict(depth=2, conds=(1, 1), opts=('HET', 'HOM', 'CLR'), two=True, sides=(0, 8)), wit_every=8))
    js.append(job(__name__, 'refine', 'refine-2-sides-r', cfg=dict(depth=2, conds=(1, 1), opts=('HET', 'HOM', 'CLR'), two=True, sides=(8, 0)), wit_every=8))
    js.append(job(__name__, 'refine', 'refine-2-same', cfg=dict(depth=2, conds=(1, 1), opts=('HET', 'HOM', 'CLR'), two=True, sides=(8, 8)), wit_every=8))
    js.append(job(__name__, 'refine', 'refine-3', cfg=dict(depth=3, conds=(1, 1), opts=('HET', 'HOM', 'CLR'), sides=(0, 0)), wit_every=8))
    js.append(job(__name__, 'refine', 'refine-4', cfg=dict(depth=4, conds=(1,), opts=('HET', 'MIN'), sides=(0,)), wit_every=8))
    if tier == 'thorough':
        js.append(job(__name__, 'refine', 'refine-3-sides', cfg=dict(depth=3, conds=(1, 1, 1), opts=('HET', 'CLR'), two=True, sides=(0, 8, 0)), wit_every=16))
    return js

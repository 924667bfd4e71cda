"""C29 the loader factory"""
import contextlib
import os
import shutil
import tempfile
from .common import *
from meshiphi.dataloaders import factory as fmod
from meshiphi.dataloaders.factory import DataLoaderFactory
from meshiphi.dataloaders.scalar.abstract_scalar import ScalarDataLoader
from meshiphi.dataloaders.vector.abstract_vector import VectorDataLoader
from meshiphi.dataloaders.lut.abstract_lut import LutDataLoader
from meshiphi.mesh_generation.boundary import Boundary

PROPERTY = dict(
    bounds='every documented loader name in three spellings, with and without each required parameter; files given as a file, a folder (with or without trailing slash) or a list; minimum number of datapoints 0..1000 or the default; any real value of further parameters',
    outside='what the loaders do with the files; folders within folders', stubs=['the constructors of the three abstract loaders record their arguments'], budget=dict(quick=600, thorough=300))

F = ['files']
NAMES = {
    'scalar_csv': ('ScalarCSVDataLoader', F), 'scalar_grf': ('ScalarGRFDataLoader', ['binary']), 'binary_grf': ('ScalarGRFDataLoader', ['binary']),
    'amsr': ('AMSRDataLoader', ['files', 'hemisphere']), 'bsose_sic': ('BSOSESeaIceDataLoader', F), 'bsose_depth': ('BSOSEDepthDataLoader', F),
    'baltic_sic': ('BalticSeaIceDataLoader', F), 'gebco': ('GEBCODataLoader', F), 'icenet': ('IceNetDataLoader', F), 'modis': ('MODISDataLoader', F),
    'visual_iced': ('VisualIcedDataLoader', F), 'era5_sig_wave_height': ('ERA5SigWaveHeightDataLoader', F), 'era5_max_wave_height': ('ERA5MaxWaveHeightDataLoader', F),
    'era5_wave_dir': ('ERA5MeanWaveDirDataLoader', F), 'era5_wave_period': ('ERA5WavePeriodDataLoader', F), 'era5_wind_mag': ('ERA5WindMagDataLoader', F),
    'era5_wind_dir': ('ERA5WindDirDataLoader', F), 'ecmwf_sig_wave_height': ('ECMWFSigWaveHeightDataLoader', F),
    'circle': ('ShapeDataLoader', []), 'rectangle': ('ShapeDataLoader', []), 'gradient': ('ShapeDataLoader', []), 'checkerboard': ('ShapeDataLoader', []),
    'vector_csv': ('VectorCSVDataLoader', F), 'vector_grf': ('VectorGRFDataLoader', []), 'baltic_currents': ('BalticCurrentDataLoader', F), 'era5_wind': ('ERA5WindDataLoader', F),
    'era5_wave_direction': ('ERA5WaveDirectionLoader', F), 'northsea_currents': ('NorthSeaCurrentDataLoader', F), 'duacs_currents': ('DuacsCurrentDataLoader', F),
    'oras5_currents': ('ORAS5CurrentDataLoader', F), 'sose': ('SOSEDataLoader', F),
    'vector_circle': ('VectorShapeDataLoader', []), 'vector_gradient': ('VectorShapeDataLoader', []), 'vector_rectangle': ('VectorShapeDataLoader', []),
    'thickness': ('ThicknessDataLoader', []), 'density': ('DensityDataLoader', []), 'scotland_ncmpa': ('ScotlandNCMPA', F),
    'lut_csv': ('LutCSV', F), 'lut_geojson': ('LutGeoJSON', ['files', 'value']), 'lut_shapefile': ('LutShapefile', ['files', 'value']),
}


@contextlib.contextmanager
def recorded():
    seen = []
    real = [(c, c.__init__) for c in (ScalarDataLoader, VectorDataLoader, LutDataLoader)]

    def init(self, bounds, params):
        seen.append((self, bounds, params))
    for c, _ in real:
        c.__init__ = init
    try:
        yield seen
    finally:
        for c, f in real:
            c.__init__ = f


def make(S, part=0, parts=4):
    names = sorted(NAMES)[part::parts]
    name = S.choice('name', names)
    cls, req = NAMES[name]
    spelled = {0: name, 1: name.upper(), 2: name.title()}[S.cint('case', 0, 2)]
    miss = S.choice('missing', [None] + req)
    b = Boundary([0, 10], [0, 10], ['2020-01-01', '2020-02-01'])
    x = S.real('x', -5, 5)
    params = {'other': x, 'data_name': 'thing'}
    for r in req:
        if r != miss:
            params[r] = ['a', 'b'] if r == 'files' else 'south' if r == 'hemisphere' else x
    if S.flag('used'):
        params['nothing'] = None
        want = dict(params)
        params['min_dp'], params['dataloader_name'] = 3, 'gebco'                  # of an earlier use of the same configuration
    else:
        want = dict(params)
    given = S.flag('given')
    m = S.int('min', 0, 1000) if given else 5
    with recorded() as seen:
        if given:
            l, e = S.call(DataLoaderFactory.get_dataloader, spelled, b, params, m)
        else:
            l, e = S.call(DataLoaderFactory.get_dataloader, spelled, b, params)
    if miss is not None:
        S.check(isinstance(e, AssertionError) and not seen, 'a loader without a required parameter is refused')
        S.reach('missing')
        return
    S.check(e is None and len(seen) == 1, 'a loader is made')
    if e is not None or len(seen) != 1:
        return
    S.check(type(l).__name__ == cls and seen[0][0] is l, 'the name decides the loader, in upper or lower case')
    S.check(seen[0][1] == b and list(seen[0][1].get_time_range()) == list(b.get_time_range()), 'the loader gets the region')
    p = seen[0][2]
    S.check(p.get('dataloader_name') == name, 'the loader knows its name')
    S.check('min_dp' in p and S.eq(p['min_dp'], m), 'the loader gets the minimum number of datapoints, 5 by default')
    S.check(S.And([k in p and (p[k] is None if v is None else S.eq(p[k], v) if k != 'files' else list(p[k]) == v) for k, v in want.items()]), 'the loader gets the configured parameters')
    S.reach('ok')


def unknown(S):
    n = S.choice('n', ['', 'scalar', 'csv', 'scalar_csv ', 'era5', 'vector_checkerboard', 'binary'])
    with recorded() as seen:
        _, e = S.call(DataLoaderFactory.get_dataloader, n, Boundary([0, 10], [0, 10]), {'files': ['a'], 'x': S.real('x', 0, 1)}, S.int('m', 0, 9))
    S.check(isinstance(e, ValueError) and not seen, 'an unknown loader is refused')
    S.reach('ok')


def files(S, via='make'):
    d = tempfile.mkdtemp(prefix='c29')
    try:
        sub = os.path.join(d, 'data')
        os.mkdir(sub)
        fs = S.choice('fs', [['b.csv', 'a.csv', 'c.csv'], ['x10.csv', 'x2.csv', 'x1.csv'], ['only.csv'], ['plain', 'with.dot', 'B.NC', 'Z'], [], [f'f{i}.csv' for i in range(300)]])
        for f in fs:
            open(os.path.join(sub, f), 'w').close()
        open(os.path.join(d, 'data_other.csv'), 'w').close()
        k = S.choice('k', ['file', 'folder', 'folder/', 'files', 'none'])
        x = S.real('x', -5, 5)
        p = {'other': x}
        want = None
        if k == 'file':
            p['file'] = 'somewhere/one.csv'
            want = ['somewhere/one.csv']
        elif k == 'files':
            p['files'] = want = ['z.csv', 'a.csv']
        elif k != 'none':
            p['folder'] = sub + ('/' if k == 'folder/' else '')
            want = [os.path.join(sub, f) for f in sorted(fs)]
        if via == 'make':
            with recorded() as seen:
                l, e = S.call(DataLoaderFactory.get_dataloader, 'density', Boundary([0, 10], [0, 10]), p)
            got = seen[0][2] if seen else None
        else:
            got, e = S.call(DataLoaderFactory.translate_file_input, p)
        S.check(e is None and got is not None, 'files may be given as a file, a folder or a list')
        if e is not None or got is None:
            return
        S.check('file' not in got and 'folder' not in got, 'the loader sees a list of files only')
        S.check(('files' not in got) if want is None else list(got.get('files', [])) == want, 'a file is a list of one, a folder all its files in order')
        S.check('other' in got and S.eq(got['other'], x), 'other parameters stay')
        S.reach(k)
    finally:
        shutil.rmtree(d)


def jobs(tier):
    J = [job(__name__, 'make', f'make-{i}', cfg=dict(part=i), reach=['ok', 'missing'], wit_every=5) for i in range(4)]
    J.append(job(__name__, 'unknown', reach=['ok'], wit_every=1))
    for v in ('make', 'translate'):
        J.append(job(__name__, 'files', f'files-{v}', cfg=dict(via=v), reach=['file', 'folder', 'folder/', 'files', 'none'], wit_every=2))
    return J

"""known_findings.json from the fix: commits of /repo (run once after each fix commit; never at check time)"""
import json
import os
import subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {  # subject -> property
    'mesh configurations with dates in other ISO': 'C04',
    'IceNet files may lie': 'C31',
    'refuse boundaries starting east': 'C01',
    'refuse dates that merely contain': 'C22',
    'classify neighbours across the antimeridian': 'C06',
    'keep the split midpoint of a boundary crossing': 'C05',
    'check that the cell width divides a region spanning': 'C04',
    'config validation accepts any cell width': 'C04',
    'config validation accepts relative dates': 'C04',
    'validate_mesh_config fails for a config given as a file path': 'C04',
    'fill missing vector components': 'C20',
    'split_points raises': 'C12',
    'merge_mesh modifies': 'C13',
    'increment_ids adds': 'C13',
    'swapped image dimensions': 'C23',
    'update_cellbox accepts': 'C14',
    'select the datapoints inside a boundary crossing': 'C15',
    'curl of gridded': 'C19',
    'calc_dmag fails': 'C19',
    'numeric value_fill_types': 'C20',
    'meshes cannot be built after add_dataloader': 'C27',
    'a later vector source overwrites': 'C20',
    'split_to_depth fails': 'C27',
    'missing values of a dataloader added': 'C27',
    'configured data_name is not applied': 'C21',
    'LUT splitting conditions without': 'C21',
    'LUT polygons sharing': 'C21',
    'LUT aggregates are not weighted': 'C21',
    'LUT MEDIAN returns': 'C21',
    'MIN/MAX of vectors read': 'C27',
    'every date gets the sea ice thickness': 'C26',
    'default data_name of LUTs read': 'C26',
    'configured data_name is ignored by LUTs': 'C26',
    'LUT CSV files with the value': 'C26',
    'thickness around the Baltic': 'C26',
    'downsampling aggregates rows': 'C28',
    'default height of a rectangle': 'C25',
    'shapes centred on the equator': 'C25',
    'default parameters of vector shapes': 'C25',
    'raster export fails': 'C23',
    'rasters of meshes crossing': 'C23',
    'raster pixels centred': 'C23',
    'full validation ignores': 'C24',
    'full validation counts': 'C24',
    'meshes whose first cell was split': 'C24',
    'validation fails if datapoints': 'C24',
    'meshes crossing the antimeridian are validated': 'C24',
    'cells with differing neighbours': 'C30',
    'asking for the ids': 'C30',
    'magnitudes of vector grids are stored': 'C18',
    'ECMWF forecasts of more': 'C31',
    'MODIS data cannot': 'C31',
    'names given for magnitude': 'C18',
}
EXTRA = os.path.join(HERE, 'tools', 'known_open.json')
if __name__ == '__main__':
    out = []
    log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h%x09%s'], capture_output=True, text=True).stdout
    for line in log.splitlines():
        h, s = line.split('\t', 1)
        if not s.startswith('fix: '):
            continue
        s = s[5:]
        p = [v for k, v in PROP.items() if s.startswith(k)]
        assert len(p) == 1, (h, s)
        out.append(dict(status='fixed', property=p[0], commit=h, what=s, line=f'fixed: property={p[0]} {h} {s}'))
    if os.path.exists(EXTRA):
        out += json.load(open(EXTRA))
    json.dump(out, open(os.path.join(HERE, 'known_findings.json'), 'w'), indent=1)
    print(len(out))

M = {
'C01': 'Boundary constructed from four symbolic reals; getters compared with interval arithmetic in the unwrapped longitude frame; polygon compared by membership of a symbolic point and by the text round trip.',
'C02': 'Symbolic longitude; result compared with "differs by a multiple of 360" using an integer variable.',
'C03': 'MeshBuilder(config) with symbolic origin and cell size for every nx x ny in the bounds; cells compared with the k-th grid square.',
'C04': 'validate_mesh_config and MeshBuilder on symbolic regions and sizes; acceptance compared with divisibility (integer variable); structural variants (missing/mistyped keys) enumerated by a solver-chosen selector.',
'C05': 'CellBox.split / Boundary.split / sim_split_cellbox on a symbolic cell; children compared with the exact quarters, metadata and data trimmed per child.',
'C06': 'get_neighbour_case / _bounds on two symbolic disjoint rectangles; answer compared with contact geometry on the circle.',
'C07': 'MeshBuilder(config), graph compared with pairwise geometric adjacency of the produced cells.',
'C08': 'Inductive step: arbitrary pre-state (X and up to two arbitrary cells with exactly correct neighbour lists), one real split_and_replace, graph compared with adjacency of the post-state. With C07 as base case: any split history.',
'C09': 'As C08 for EnvironmentMesh.split_and_replace on meshes in loaded form.',
'C10': 'Loaders replaced by solver-chosen answers per cell and condition; real split_to_depth/should_split; leaves and parents compared with the rules.',
'C11': 'query_index/query_inside_mesh with symbolic cells and point.',
'C12': 'split_points with symbolic points on meshes in loaded form; cells compared with repeated quartering.',
'C13': 'merge_mesh on symbolic-origin meshes in every aligned position; cells, ids, graph compared with geometry; compatibility on symbolic bounds.',
'C14': 'to_json -> JSON text -> load_from_json -> to_json with symbolic bounds, ids and values; update_cellbox.',
'C15': 'trim_datapoints with symbolic bounds and datapoint positions; partition by siblings.',
'C16': 'get_value with symbolic/missing values; aggregates stated as constraints (order statistics, sums, squared deviations).',
'C17': 'get_hom_condition with symbolic values, threshold and bounds.',
'C18': 'vector get_value with symbolic magnitudes in fixed rational directions; magnitude order decides MIN/MAX.',
'C19': 'get_hom_condition with curl/dmag over symbolic fields; difference quotients and distances restated.',
'C20': 'CellBox.aggregate over chains of cells with symbolic or missing values at each level; policy settings by selector.',
'C21': 'LutDataLoader over symbolic rectangles and values; area weights restated as products.',
'C22': 'Boundary, Boundary.from_json and MeshBuilder with symbolic dates, a symbolic clock and symbolic day offsets (date arithmetic on ordinals); replays use the real clock.',
'C23': 'to_tif on meshes with symbolic edges and values, GDAL, gdaldem and temporary files replaced by recorders; the raster handed to GDAL is compared with the mesh value at every pixel centre; to_geojson against an independent list of features.',
'C24': 'FullMeshValidator, MeshValidator and Sampler on symbolic cells, datapoints and sampled places; deviations restated over the (solver-decided) cell of each datapoint.',
'C25': 'shape loaders made by the factory on small grids with symbolic centre, radius, sizes and multipliers; every datapoint compared with the membership condition.',
'C26': 'density and thickness loaders over symbolic regions and solver-chosen dates, values compared with area- and day-weighted sums of the documented tables; file tables replaced by in-memory ones with symbolic polygons and values.',
'C27': 'MeshBuilder(config) + build_environmental_mesh with in-memory CSV tables of symbolic values; an independent interpreter of refinement, aggregation and filling gives the expected mesh.',
'C28': 'downsample over small grids of symbolic or missing values, every bin compared with its aggregate; calculate_coverage with symbolic positions compared with interval overlap.',
'C29': 'get_dataloader for every name (solver-chosen selector) with the constructors of the abstract loaders replaced by recorders; symbolic parameter values; files in a scratch folder.',
'C30': 'MeshComparator on tables with symbolic values; values are written as K + t units of the fourth figure (K integer, |t| < 1/2), so that equality after rounding is equality of the two integers; log10 is encoded by its decade, decimal rounding by an integer variable.',
'C31': 'every file loader made by the factory over in-memory data sets (3 x 4 places, up to three days) with symbolic values and a symbolic region; every datapoint of the region compared with the value of the file at its place and date.',
'C32': 'reproject and the loaders that use it on tables and grids with symbolic positions and values; the projection is a fixed injective affine map per pair of projections while symbolic, pyproj itself in replays.',
'C33': 'the command line entry points run in a scratch directory over files whose numbers are symbolic (opaque tokens in the JSON text); the files written are read back and compared with the specifications of C27 (create, rebuild), C13 (merge) and C14/C23 (export).',
'C34': 'the validators run with symbolic limits (any real) through the real jsonschema; every required key missing or of another type, every marking of the waypoints and every kind of coordinate are symbolic choices; accepted iff the specification holds.',
}

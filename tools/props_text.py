prop('C01', 'Region and cell boundaries are valid and their derived geometry is exact',
     'A boundary is accepted exactly when its latitudes are ordered and its longitudes lie within -180..180. For every accepted boundary, including ones crossing the antimeridian, '
     'width, height, half-sizes, centre and corner ring describe the same rectangle (width measured eastward, centre longitude within -180..180), and converting it to its polygon text and back gives the same rectangle. '
     'A point is reported inside a cell exactly when it lies strictly inside that rectangle, and two boundaries compare equal exactly when all four edges agree.',
     ['input'], 'all real latitude/longitude ranges, crossing the antimeridian or not, and all query points',
     'tests sample a dozen rectangles; off-by-360 and inclusive/exclusive slips only show for particular positions relative to the antimeridian',
     [M + 'boundary.py', M + 'aggregated_cellbox.py'], ['Boundary: constructor checks, width/centre getters, to_polygon / from_poly_string', 'AggregatedCellBox.contains_point'])
prop('C02', 'Longitudes are normalised to -180..180 without changing the meridian',
     'Normalising a longitude (single value, list or array) yields a value within -180..180 that denotes the same meridian, and leaves values already in range unchanged. '
     'The distance between two longitudes is symmetric, lies within 0..180 and is the smaller angle between the two meridians.',
     ['input'], 'every longitude within +-1080 degrees', 'modular arithmetic errors appear only at exact multiples of 180/360 or for far-out values',
     ['meshiphi/utils.py'], ['longitude_domain', 'longitude_distance'])
prop('C03', 'The initial grid tiles the configured region exactly',
     'For every region filled by whole cells, whether regional, crossing the antimeridian or global, the initial mesh has exactly one cell per grid square, numbered row by row from the south west. '
     'Each cell has the configured width and height, the cells neither overlap nor leave gaps, all longitudes lie within -180..180, and every cell inherits the region\'s time range.',
     ['input'], 'all region origins and cell sizes, grids up to the stated size', 'a missing or doubled row/column depends on the position relative to the antimeridian and on the size',
     [M + 'mesh_builder.py'], ['MeshBuilder.__init__, initialize_cellboxes'])
prop('C04', 'Mesh configurations are accepted iff well formed and cells fill the region',
     'A mesh configuration is accepted exactly when whole cells fill the region in both directions, measured across the antimeridian or around the globe where the region does so, the required sections and keys are present with the right types, sections have no other keys, and dates are YYYY-MM-DD, TODAY or TODAY + or - a number of days. '
     'A configuration is given as such or as the name of its file; anything else is a TypeError, a missing file a FileNotFoundError. '
     'Rejection happens when validating the configuration and when building a mesh from it; validation does not alter the configuration.',
     ['input'], 'all regions and cell sizes; every missing or mistyped required key', 'divisibility is a relation between six numbers, of which tests try a few',
     ['meshiphi/config_validation/config_validator.py', M + 'mesh_builder.py'], ['validate_mesh_config', 'MeshBuilder.validate_bounds'])
prop('C05', 'Splitting a cell partitions it into four exact quarters that inherit everything',
     'Splitting any cell, including one crossing the antimeridian, gives four cells that are exactly its quarters, with longitudes in -180..180 and the same time range. '
     'During mesh building the children are numbered consecutively from the given id, are one level deeper, know their parent and carry every data source of the parent with the same conditions, fill policy and the parent\'s data trimmed to the child. '
     'Splitting a cell of a finished mesh gives children that copy its values and take the four ids above the largest id in use, without touching the mesh.',
     ['input'], 'all cells, ids, depths', 'tests split a handful of cells away from the antimeridian',
     [M + 'cellbox.py', M + 'boundary.py', M + 'environment_mesh.py'], ['CellBox.split/create_splitted_cell_boxes', 'Boundary.split', 'EnvironmentMesh.sim_split_cellbox'])
prop('C06', 'Neighbour direction of two cells matches their geometry',
     'For any two non-overlapping cells the reported direction is the one of the eight compass directions in which the second touches the first (edge contact for N/E/S/W, corner contact for the diagonals), '
     'and "not neighbours" exactly when they do not touch; longitudes are compared around the globe. Swapping the cells gives the opposite direction.',
     ['input'], 'all pairs of disjoint rectangles of any relative size, on either side of or across the antimeridian', 'the case analysis has dozens of regions of an eight-dimensional input space',
     [M + 'neighbour_graph.py'], ['NeighbourGraph.get_neighbour_case', 'get_neighbour_case_bounds'])
prop('C07', 'The initial neighbour graph is exactly the geometric adjacency',
     'After initialisation the neighbour graph has one entry per cell with all eight directions, and lists a cell in a direction exactly when it touches there, each once and never the cell itself. '
     'For a region spanning -180..180 the east and west ends are connected; for other regions they are not.',
     ['input'], 'all region origins and cell sizes, grids up to the stated size, regional/antimeridian/global', 'index arithmetic at grid edges and corners depends on the grid shape',
     [M + 'neighbour_graph.py', M + 'mesh_builder.py'], ['NeighbourGraph.initialise_neighbour_graph', 'MeshBuilder.check_global_mesh'])
prop('C08', 'Splitting while building keeps the neighbour graph exact and symmetric',
     'If the neighbour graph is the exact geometric adjacency of the cells, then after any cell is split during mesh building it is the exact geometric adjacency of the remaining cells and the four new ones: '
     'every touching pair listed once in each direction, nothing else, and no reference to the split cell. The split cell is replaced by four cells whose ids are their positions; all others stay in place.',
     ['input', 'history'], 'one split of a cell with neighbours of any size and position, hence by induction every split history', 'faults need particular relative sizes of neighbouring cells reached by particular split sequences',
     [M + 'mesh_builder.py', M + 'neighbour_graph.py'], ['MeshBuilder.split_and_replace and the fill_*_map helpers', 'NeighbourGraph.update_neighbours, update_corner_neighbours, remove_node'])
prop('C09', 'Splitting a cell of a loaded mesh keeps its neighbour graph exact',
     'Splitting a cell of a mesh loaded from a mesh file replaces it by its four quarters with fresh ids carrying its values, leaves every other cell untouched, '
     'and turns an exact neighbour graph into the exact neighbour graph of the new cells: every touching pair listed once in each direction, nothing else, no reference to the removed cell.',
     ['input', 'history'], 'one split of a cell with neighbours of any size and position, hence by induction every split history', 'faults need particular relative sizes and positions of neighbouring cells',
     [M + 'environment_mesh.py', M + 'neighbour_graph.py'], ['EnvironmentMesh.split_and_replace', 'NeighbourGraph helpers'])
prop('C10', 'Refinement stops exactly where data and depth limit say',
     'A cell is split only if at least one of its splitting conditions answers "heterogeneous" and none answers "homogeneous" or "minimum data"; answers are taken from the data sources in configuration order. '
     'In the finished mesh no cell is deeper than the configured maximum, and no cell above the maximum still asks to be split. The mesh contains exactly one aggregated cell per unsplit cell and these cover the region.',
     ['input', 'history'], 'every combination of answers of up to three sources for every cell reached', 'the number of answer combinations is exponential in the number of cells',
     [M + 'cellbox.py', M + 'mesh_builder.py'], ['CellBox.should_split(_breadth_first)', 'MeshBuilder.split_to_depth, build_environmental_mesh'])
S_ = 'meshiphi/dataloaders/scalar/abstract_scalar.py'
V_ = 'meshiphi/dataloaders/vector/abstract_vector.py'
L_ = 'meshiphi/dataloaders/lut/'
prop('C11', 'A point is located in the one cell that contains it',
     'In a mesh of non-overlapping cells a point is reported inside the mesh exactly when it is strictly inside one of its cells, and the cell id reported for it is the id of that cell, including cells crossing the antimeridian; '
     'looking up that id, given as text or number, returns the same cell; this also holds after cells of the mesh are split, added, removed or renumbered. Queries do not change the mesh.',
     ['input'], 'all cell geometries of up to three cells and all query points', 'tests query a handful of points, none of them on edges or near the antimeridian',
     [M + 'environment_mesh.py', M + 'aggregated_cellbox.py'], ['EnvironmentMesh.query_index / query_inside_mesh / get_cellbox', 'AggregatedCellBox.contains_point'])
prop('C12', 'Splitting a loaded mesh around points refines exactly where asked',
     'After splitting a loaded mesh around given points to a maximum depth, no cell larger than the minimum size contains a given point, no cell has been split below that size, and only cells containing a point were split. '
     'The cells cover the same area as before, keep the values of the cell they came from, ids stay unique, and doing it again changes nothing; points outside the mesh or on cell edges are harmless.',
     ['input', 'history'], 'all point positions, depths up to the stated limit', 'the split sequence depends on the exact position of the points relative to edges created on the way',
     [M + 'environment_mesh.py'], ['EnvironmentMesh.split_points, split_and_replace'])
prop('C13', 'Merging meshes replaces the overlapped cells and keeps ids unique',
     'A loaded mesh can be merged into another exactly when it is aligned with the other\'s initial grid and filled by whole cells of it; an incompatible merge is refused and changes nothing. '
     'Merging replaces the cells lying inside the given mesh by all its cells with their values, leaves the others untouched, keeps ids unique, makes the neighbour graph the exact adjacency of the result, records the configuration of every mesh merged and does not modify the given mesh. '
     'Shifting ids of a mesh shifts every id in cells and graph alike and nothing else.',
     ['input', 'history'], 'all aligned positions, origins, cell sizes, id ranges; all misalignments', 'adjacency along the seam depends on the relative position and refinement of both meshes',
     [M + 'environment_mesh.py', M + 'neighbour_graph.py'], ['EnvironmentMesh.merge_mesh, validate_merge_compatibility, remove_cellboxes_within_bounds, increment_ids, tie_*_cellbox_ng', 'NeighbourGraph.increment_ids'])
prop('C14', 'Mesh files round-trip',
     'Saving a mesh to JSON and loading it gives back the same cells in the same order with the same ids, bounds (also across the antimeridian), values (including missing ones), the same neighbour graph, configuration and mesh bounds; saving the loaded mesh gives the same file. '
     'The centre and half sizes written for a cell describe its rectangle. Updating the values of a cell changes that cell only, and an invalid cell index is refused with a ValueError. Cells are equal exactly when id, bounds and values are.',
     ['input'], 'all cell geometries and values of up to two cells', 'tests load a few stored meshes; the antimeridian and missing values do not occur in them',
     [M + 'environment_mesh.py', M + 'aggregated_cellbox.py', M + 'neighbour_graph.py'], ['EnvironmentMesh.to_json / load_from_json / update_cellbox', 'AggregatedCellBox.to_json / from_json'])
prop('C15', 'Every datapoint belongs to exactly the cells that contain it',
     'A datapoint of a table or grid, scalar or vector, is selected for a boundary exactly when it lies inside it: above the lower latitude and longitude, up to and including the upper ones, within the dates inclusively, and across the antimeridian where the boundary crosses it (tables). '
     'Selection keeps order, columns and values and does not change the data set. Hence every datapoint of a cell goes to exactly one of its four children, and a loader built for a region holds exactly the datapoints inside the region.',
     ['input'], 'all real positions of datapoints and boundaries', 'edge inclusion only matters for points exactly on an edge, the antimeridian only for crossing cells',
     [S_, V_, M + 'boundary.py'], ['ScalarDataLoader.trim_datapoints', 'VectorDataLoader.trim_datapoints', 'loader constructors'])
prop('C16', 'A cell value is the aggregate of exactly the scalar datapoints inside it',
     'The value a scalar source reports for a cell is the MIN, MAX, MEAN, MEDIAN, STD or COUNT (grids also RMSE, the root mean squared deviation from the mean) of the datapoints inside the cell, under the data name, as a plain number. '
     'The configured aggregate type is used unless one is given with the call, MEAN by default; missing values are ignored unless asked to propagate, in which case the aggregate is missing; a cell without datapoints has no value (NaN; COUNT 0). '
     'STD is the sample deviation for tables and the population deviation for grids. Unknown aggregate types are refused with a ValueError when there is data.',
     ['input'], 'all values of up to four datapoints, missing or not', 'order statistics and missing values interact in ways a few samples miss',
     [S_], ['ScalarDataLoader.get_value (table and grid variants), __init__, add_default_params'])
prop('C17', 'A scalar source asks for a split exactly when its condition says so',
     'For a cell with at least the minimum number of datapoints, the fraction of datapoints over the threshold decides: at or below the lower bound "CLR", at or above the upper bound "HOM" if split_lock is set and "CLR" otherwise, in between "HET". '
     'A cell with fewer datapoints than the minimum (default 5) never asks for a split and never locks. Missing values count towards the minimum, but the fraction is that of the values present; a cell with missing values only is not over the threshold. The configured conditions are not changed.',
     ['input'], 'all values, thresholds, bounds, minimum counts', 'boundary fractions (exactly at a bound) and missing values are not sampled',
     [S_], ['ScalarDataLoader.get_hom_condition'])
prop('C18', 'A cell value is the aggregate of exactly the vectors inside it',
     'For vector sources MIN and MAX report both components of the vector of smallest/largest magnitude inside the cell, MEAN and STD the mean and deviation of each component, COUNT the number of vectors, each under the names of the components; MEDIAN and unknown types are refused. '
     'A cell without vectors has no value. Magnitude and direction derived from a vector (of the source, or of given data and components) are its length and angle, leaving the components as they are.',
     ['input'], 'all magnitudes of up to four vectors in fixed directions, missing components', 'component-wise and magnitude-wise aggregation agree on most samples',
     [V_], ['VectorDataLoader.get_value, calc_*, add_mag_dir'])
prop('C19', 'A vector source asks for a split exactly when curl or magnitude says so',
     'The curl at a datapoint is dv/dx - du/dy by central differences (one-sided at the edges, unit spacing, x along longitude, y along latitude) for tables and grids alike; dmag is the distance of a vector from the mean vector. '
     'The fraction of datapoints of the cell whose curl or dmag exceeds the threshold decides as for scalar sources: at or below the lower bound "CLR", at or above the upper bound "HOM" with split_lock and "CLR" without, in between "HET"; too few datapoints (of a grid, missing vectors not counted) never ask for a split nor lock.',
     ['input'], 'all vector components on small fields, thresholds, bounds', 'axis mix-ups cancel on symmetric samples',
     [V_], ['VectorDataLoader.get_hom_condition, calc_curl, calc_dmag'])
prop('C20', 'Missing cell values are filled from the nearest ancestor or as configured',
     'Every cell of a finished mesh has one value per data name. A cell with data has the value of its data; a cell without data has the value of the nearest enclosing ancestor cell having one (policy "parent", the default and the fallback for invalid settings), or the configured number or NaN. '
     'Vector components are filled separately under their own names. If several sources provide the same quantity, the first one with a value for the cell wins.',
     ['input', 'history'], 'all values, missing or absent at each of up to three levels', 'needs missing data at specific levels of the refinement',
     [M + 'cellbox.py', M + 'mesh_builder.py', M + 'metadata.py'], ['CellBox.aggregate, check_vector_data', 'MeshBuilder.check_value_fill_type'])
prop('C21', 'Look-up-table values are weighted by area and split at polygon edges',
     'A look-up table of polygons gives a cell the area-weighted MEAN, MEDIAN or STD, or the MIN, MAX or COUNT, of the polygons overlapping it (the median is the lowest value reaching half of the covered area), under the configured data name (else the column name), NaN without such polygons (COUNT 0); a missing value inside the cell makes it missing unless skipped. '
     'Coverage is the fraction of the cell covered by the polygons together. With boundary splitting a cell cut by a polygon edge (of its outline or of a hole) answers "HET"; a cell without polygons is locked by split_lock. '
     'Multi-polygons become one row per part with unchanged values; other geometries, and tables without polygons in the region, are refused with a ValueError.',
     ['input'], 'all positions of up to three rectangular polygons and all their values', 'weights matter only for particular overlaps',
     [L_ + 'abstract_lut.py'], ['LutDataLoader.get_value, get_hom_condition, verify_data, calculate_coverage, trim_datapoints, __init__'])
prop('C27', 'A mesh built from a configuration has the cells and values its data ask for',
     'Building from a configuration and CSV data gives exactly the cells obtained by applying the sources\' splitting conditions in their configured order, each refining what the previous left, until no cell asks for a split, a homogeneous (locked) answer forbids it, or split_depth is reached; data outside the configured dates and region plays no role. '
     'Every cell carries for every source the aggregate of the source\'s datapoints inside it (or the fill value), under the configured name, and the neighbour graph is the true one. '
     'A source added with add_dataloader, before or after a build, counts like a configured one, and building again gives the same mesh.',
     ['input', 'history'], 'all values of up to six datapoints and all thresholds', 'needs sources, refinement, limits and fill policies to interact',
     [M + 'mesh_builder.py', M + 'cellbox.py', M + 'metadata.py', 'meshiphi/dataloaders/factory.py', 'meshiphi/dataloaders/scalar/scalar_csv.py', 'meshiphi/dataloaders/vector/vector_csv.py'],
     ['MeshBuilder.build_environmental_mesh, add_dataloader, split_to_depth, initialize_meta_data', 'DataLoaderFactory', 'ScalarCSVDataLoader, VectorCSVDataLoader'])
prop('C22', 'Dates of a region are resolved once and ordered',
     'A region given with two dates, in the form YYYY-MM-DD or as TODAY, TODAY + n or TODAY - n days (in upper or lower case, with or without blanks), has those dates, relative ones counted from the current date, written as YYYY-MM-DD. '
     'A start after the end, text that is no date, and more than two dates are refused with a ValueError; a region without dates has none. '
     'A mesh built from a configuration records the resolved dates in its region and its cells have them.',
     ['input'], 'all pairs of calendar dates and all whole day offsets, on any current day', 'relative dates depend on the day the program runs, tests on a fixed few',
     [M + 'boundary.py', M + 'mesh_builder.py'], ['Boundary.__init__, from_json, parse_datetime, validate_bounds', 'MeshBuilder.__init__'])
prop('C25', 'Generated shapes have their value inside the shape and zero outside',
     'The generated data sources spread their datapoints evenly over the region. A circle has its multiplier at the datapoints within the radius of its centre and zero elsewhere; a rectangle at those at most its width in longitude and its height in latitude away from the centre; '
     'a gradient rises linearly from zero at one edge of the region to the multiplier at the opposite one, northward or eastward; a checkerboard alternates between one and zero from square to square. '
     'Vector variants have both components with a multiplier each. Left-out settings take the defaults (radius, width, height and multiplier 1, centre of the region, gradient northward).',
     ['input'], 'all real centres, radii, sizes and multipliers on small grids', 'a shape moved or resized for particular settings (zero, one given and one not) looks right for the others',
     ['meshiphi/dataloaders/scalar/shape.py', 'meshiphi/dataloaders/vector/vector_shape.py'], ['ShapeDataLoader', 'VectorShapeDataLoader'])
prop('C26', 'Built-in and file look-up tables give each place its own value',
     'The density and thickness tables give a region, also one across the antimeridian, the seasonal or monthly value of every area in it, with each date of the region counting once; the Baltic has its own thickness. '
     'A table read from CSV, GeoJSON or a shapefile gives the listed polygons their value and leaves the rest of the region empty (or with the opposite flag for protected areas); the values are found under the configured data name, or the documented default name.',
     ['input'], 'all positions and sizes of regions, chosen date ranges, all polygon values', 'seasons, area edges and the antimeridian have to coincide',
     [L_ + 'density.py', L_ + 'thickness.py', L_ + 'lut_csv.py', L_ + 'lut_geojson.py', L_ + 'lut_shapefile.py', L_ + 'scotland_ncmpa.py'], ['import_data of the LUT loaders'])
prop('C28', 'Downsampling aggregates whole bins and coverage is the covered fraction',
     'Downsampling a grid by factors [in longitude, in latitude] replaces every bin of datapoints, incomplete bins at the end included, by its MIN, MAX, MEAN, MEDIAN or STD with missing values ignored (with COUNT: by its first datapoint), at the mean position, scalar and vector, for every date separately. '
     'Tables and factors of 1 leave the data as they are. '
     'The coverage of a region is the fraction of its area inside the extent of the present datapoints, also across the antimeridian, and zero without data.',
     ['input'], 'all values and missing values of small grids; all positions of datapoints or of the region', 'incomplete bins and missing values are not sampled',
     [S_, V_], ['downsample', 'calculate_coverage'])
prop('C29', 'The factory gives every loader name its loader with its parameters',
     'Every documented loader name, in upper or lower case, gives the loader of that name with the region, the configured parameters and the minimum number of datapoints (5 by default). '
     'An unknown name is refused with a ValueError, a missing required parameter with an AssertionError. '
     'Files may be given as a file, a folder or a list: the loader gets a list, for a folder all its files in alphabetical order.',
     ['input'], 'all names, all missing required parameters, any parameter values', 'tests construct few of the loaders',
     ['meshiphi/dataloaders/factory.py'], ['DataLoaderFactory.get_dataloader, translate_file_input'])
prop('C23', 'Exported rasters and GeoJSON show the value of the mesh at each place',
     'A raster exported from a mesh (to_tif, or save with format TIF) has the requested number of lines and columns, spans the bounds of the mesh with north at the top, also across the antimeridian and around the globe, and each pixel has the value of the cell around its centre '
     '(on an edge that of one of the adjoining cells); a list counts with its mean, a place without a value or outside every cell is NaN; other projections are requested as a warp of that raster. '
     'The GeoJSON export (to_geojson, or save with format GEOJSON) has one feature per cell, in order, with its rectangle (two for a cell across the antimeridian), its id and its values, or only the data name asked for: flags as 1 or null, lists as their mean (null if one of their values is missing), infinite and missing values as null.',
     ['input'], 'all bounds, inner edges and values of small meshes, all pixels of small images', 'pixels on edges, odd resolutions and the antimeridian are not sampled; tests skip the export',
     [M + 'environment_mesh.py'], ['EnvironmentMesh.to_tif', 'EnvironmentMesh.to_geojson', 'EnvironmentMesh.save'])
prop('C24', 'Validation reports the deviation of the data from their own cells',
     'Full validation of a mesh against a table reports the number of cells and the mean and the root mean squared deviation (of vectors: of the length of the difference) of all datapoints from the cell they lie in, a cell without its lower edges, each datapoint counting once and missing values of a datapoint or a cell left out, also across the antimeridian; '
     'data without lat or long are refused with a ValueError. '
     'Validation by samples reports the root mean squared deviation of the datapoints in the sampled squares (of the validation length, cut off at the edge of the mesh) from the cells they lie in, also if cells are split or the mesh crosses the antimeridian. '
     'The sampler spreads its points linearly over the given ranges and refuses ranges of another number of dimensions with a ValueError.',
     ['input'], 'all positions and values of a few datapoints, all cell sizes, all sampled places', 'tests use fixed meshes; edges and antimeridian cells decide which datapoints count',
     ['meshiphi/mesh_validation/full_mesh_validator.py', 'meshiphi/mesh_validation/mesh_validator.py', 'meshiphi/mesh_validation/sampler.py'], ['FullMeshValidator.validate_scalar, validate_vector, slice_data', 'MeshValidator.validate_mesh', 'Sampler.generate_samples'])
prop('C30', 'The comparison of two meshes reports exactly the differing cells',
     'Comparing two meshes reports exactly: for boundaries the cells of the second that the first does not have; for values the common cells with a common value (number or list) that differs in four significant figures, or is missing in one of them; for attributes the common cells with other names of values; '
     'for neighbour graphs the common ids with other neighbours in some direction, in any order. The result is a table of the cells of the second mesh, or their ids if asked for, one row per cell, empty without differences. '
     'Rounding to significant figures keeps a number, list or array what it is and leaves zero and infinity alone.',
     ['input'], 'all values of small meshes, all combinations of present, missing and differing cells', 'tests compare identical meshes or one fixed pair',
     ['meshiphi/mesh_validation/mesh_comparator.py', 'meshiphi/utils.py'], ['MeshComparator.compare_*', 'round_to_sigfig'])
prop('C31', 'The file loaders give each place and date of the region its value of the file',
     'The sources read from grids in files (gebco, bsose_depth, bsose_sic, baltic_sic, modis, icenet, the era5_* and ecmwf_* waves and winds, baltic_currents, duacs_currents, northsea_currents, oras5_currents, sose), with one file or several, hold under their standard data name exactly the datapoints of the files inside the region and the dates, at columns lat and long '
     '(degrees 0..360 of the global sources moved to -180..180), each with the value of the file at its place and date: sea ice concentration in percent (bsose_sic as fraction if asked for; unknown units are refused with a ValueError), depths as negative elevation, cloudy places missing, currents of the Baltic as mean over the dates at the surface, '
     'wind as magnitude or direction, wave directions as unit vectors. Forecasts (icenet, ecmwf) come from the latest issue before the start; without one, or without a forecast in the range, ecmwf is refused with a FileNotFoundError.',
     ['input'], 'all values of small files, all latitude ranges and all longitude ranges of the region', 'the loaders have no tests; names, units, dates and longitudes are silently wrong',
     sorted(f'meshiphi/dataloaders/{k}/{n}.py' for k, ns in (('scalar', 'gebco bsose_depth bsose_sea_ice baltic_sea_ice modis icenet era5_max_wave_height era5_mean_wave_direction era5_wave_period era5_sig_wave_height era5_wind_dir era5_wind_mag ecmwf_sig_wave_height'), ('vector', 'baltic_current duacs_current era5_wind era5_wave_direction_vector north_sea_current oras5_current sose')) for n in ns.split()), ['import_data of the scalar and vector file loaders', 'DataLoaderFactory'])
prop('C32', 'Reprojected data keep their values and dates at the place they are projected to',
     'A source in another projection (in_proj, with its positions in x_col and y_col), given as table or grid, scalar or vector, holds for every datapoint its values and its date at the latitude and longitude its position is projected to, in place of the projected columns; grid places without a value are left out; data already in the wanted projection stay as they are. '
     'AMSR files of the dates of the region (by the date in their name) are reprojected by hemisphere, an unknown hemisphere is refused with a ValueError, no file in the range with a FileNotFoundError; a visual_iced image (NetCDF or TIFF) gives its concentration in percent, more than one image is refused with a ValueError.',
     ['input'], 'all projected positions and values of small tables and grids', 'swapped axes, dates or values are plausible data that no test looks at',
     [S_, V_, 'meshiphi/dataloaders/scalar/amsr.py', 'meshiphi/dataloaders/scalar/visual_iced.py'], ['ScalarDataLoader.reproject', 'VectorDataLoader.reproject', 'AMSRDataLoader.import_data', 'VisualIcedDataLoader.import_data'])
prop('C33', 'The command line tools do what the library does',
     'create_mesh builds the mesh of a configuration file and rebuild_mesh that of the configuration carried by a mesh file, whatever cells the file has; merge_mesh merges the given mesh file, or with --directory every mesh file of the directory, into the first one; '
     'export_mesh writes the mesh as JSON, GeoJSON or TIF (format in any case), with the export parameters given. Each writes its result to the output file given, else to its default one (create_mesh.output.json, rebuild_mesh.output.json, merged_mesh.output.json; mesh.json, mesh_geo.json, mesh.tif), and changes neither the input files nor anything else.',
     ['input'], 'all values, thresholds and options for small meshes', 'the tests run each command once, on meshes without data',
     ['meshiphi/cli.py', M + 'mesh_builder.py', M + 'environment_mesh.py'], ['create_mesh_cli, rebuild_mesh_cli, merge_mesh_cli, export_mesh_cli, get_args'])
prop('C34', 'Vessel, route and waypoint configurations are accepted exactly when well formed',
     'A vessel configuration is accepted exactly when it has VesselType, Unit (text), MaxSpeed and MinDepth (numbers not below 0) and MaxIceConc (0 to 100); a route configuration when it has objective_function, path_variables (texts), exactly two vector_names, '
     'variable_speed, early_stopping_criterion and zero_currents (true or false), a time_unit of days, hours or seconds, and the smoothing settings, where given, are numbers (smoothing_max_iterations a whole one). '
     'Waypoints are accepted exactly when they have the columns Name, Lat, Long, Source and Destination, at least one row marked X as source and one as destination, and numbers as coordinates; otherwise an AssertionError is raised. '
     'Each is given as such (dict; waypoints as a DataFrame) or as the name of its file; anything else is a TypeError, a missing file a FileNotFoundError. Other keys and columns are allowed; nothing given is modified.',
     ['input'], 'all numbers, flags, missing and mistyped keys', 'tests try one malformed configuration per schema',
     ['meshiphi/config_validation/config_validator.py', 'meshiphi/config_validation/vessel_schema.py', 'meshiphi/config_validation/route_schema.py', 'meshiphi/config_validation/waypoints_schema.py'],
     ['validate_vessel_config, validate_route_config, validate_waypoints, flexi_json_input'])

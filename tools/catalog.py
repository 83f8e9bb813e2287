"""The properties and how they are claimed: writes properties.jsonl and
MANIFEST.json (only properties with a module in props/, and the ones listed
as not applicable)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = {}


def prop(id, title, statement, over, text, why, files, mech, state=(),
         observe=(), note='', na=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=' '.join(statement.split()),
             quantifier=dict(over=list(over), text=' '.join(text.split())),
             why_tests_cant=' '.join(why.split()),
             anchors=dict(files=list(files), mechanism=[
                 dict(name=n, where=w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w)
                                 for n, m, w in state]
    if observe:
        d['anchors']['observe_at'] = list(observe)
    d['anchors']['hook_needed'] = None
    P.append((d, ' '.join(note.split())))
    if na:
        NA[id] = ' '.join(na.split())


prop('C01', 'The tiles partition the input raster',
     '''For every raster size, pixel size and buffer length, the unbuffered
     tiles that the tile grid produces lie inside the raster, are non-empty,
     do not overlap and together cover every cell of the raster exactly
     once.''', ['inputs', 'configurations'],
     '''Every raster size in cells up to several tiles per axis, every real
     buffer length of 0 to 2.5 degrees, listed pixel sizes.''',
     '''No test builds a TileGrid with several tiles; the sizes where the
     last tile is ragged or the buffer exceeds a tile are rare.''',
     ['all_multipliers.py'],
     [('tile grid and limits', 'all_multipliers.py TileGrid.tile_grid, '
       'get_gridlimit')],
     [('x_start..y_end', 'buffered limits per tile', 'TileGrid')],
     ['TileGrid.get_gridlimit'],
     'tiles: up to 3x3 quick, 4x4 and 1x7 thorough; sizes unbounded within')

prop('C02', 'Each tile is processed with its full buffer, clipped at the edges',
     '''The buffered window of every tile is its unbuffered tile extended on
     each of the four sides by the whole number of cells that fit into the
     configured upwind length, cut at the edges of the raster; an unbuffered
     tile spans one degree (rounded up to a whole cell) in each direction,
     less only where the raster ends.''', ['inputs', 'configurations'],
     '''Every raster size up to several tiles per axis, every real upwind
     length, listed pixel sizes (also non-square pixels).''',
     '''The tests contain no multi-tile grid, and the window of a tile next
     to a short last tile differs only for rare sizes.''',
     ['all_multipliers.py'],
     [('buffer limits', 'all_multipliers.py TileGrid.tile_grid, '
       'get_gridlimit_buffer')], (), ['TileGrid.get_gridlimit_buffer'],
     'as C01')

prop('C03', 'Every cell keeps its geographic position through tiling and saving',
     '''For every tile, the clipped DEM covers exactly the cells of the
     buffered window with the georeference of those cells; the longitudes and
     latitudes saved with the tile are the centres of the raster cells of the
     unbuffered tile in raster order; and cutting a buffered result to the
     unbuffered extent returns exactly the cells of the unbuffered tile, in
     spite of floating-point rounding of the coordinates.''',
     ['inputs', 'configurations'],
     '''Every real raster origin, every raster size within the tile bound,
     all tiles, every floating-point rounding of each coordinate operation up
     to 1e-9.''',
     '''Off-by-one cells caused by rounding appear only for particular
     origins and pixel sizes; tests use one DEM tile.''',
     ['all_multipliers.py', 'utilities/nctools.py'],
     [('extents of a tile', 'all_multipliers.py TileGrid.get_tile_extent, '
       'get_tile_extent_buffer'),
      ('rounding to whole cells', 'all_multipliers.py '
       'Multipliers.clip_dataset; utilities/nctools.py clip_array, '
       'get_lat_lon')], (), ['clip_array', 'get_lat_lon', 'clip_dataset'],
     'origin real; pixel sizes listed; raster sizes enumerated by forking')

prop('C04', 'Tile names identify tiles uniquely',
     '''Two different tiles of one run never have the same name, for any
     location of the raster, so that no tile overwrites the files of another.
     A name consists of the longitude of the tile's west edge and its north
     edge's latitude counted southwards, without the buffer, both cut to a
     few digits; it has no path separator and no underscore, which the conversion
     step uses to recover it from file names.''', ['inputs',
                                                   'configurations'],
     '''Every upper-left corner in the listed regions, listed pixel sizes,
     several tiles per axis.''',
     '''Names cut coordinates to a few characters; collisions depend on the
     magnitude and sign of the coordinates, and tests have one tile.''',
     ['all_multipliers.py', 'utilities/mpi_runner.py'],
     [('tile name', 'all_multipliers.py TileGrid.get_tilename')], (),
     ['get_tileinfo'], 'rendering of floats abstracted by prefixes')

prop('C05', 'Terrain classes map to the multiplier of their roughness length',
     '''Every cell whose land-cover class is listed in the terrain table gets
     the terrain multiplier of the roughness length z0 of its row,
     -0.2827 ln(0.4554 ln(z0) + 3.734) + 1.0762; every cell of an unlisted
     class gets 0 (treated as having no data), whatever the order or number
     of rows and the data type of the class raster.''',
     ['inputs', 'configurations'],
     '''Every class value per cell, every table of distinct categories and
     real roughness lengths of 0.0003 to 3 m.''',
     '''Tests compare one fixed table; a table is user configuration and
     class/row coincidences (a class equal to another row's value, class 0)
     are not sampled.''', ['terrain/terrain_mult.py'],
     [('table lookup', 'terrain/terrain_mult.py terrain_class2mz_orig, '
       'get_terrain_table')], (), ['terrain_class2mz_orig'],
     'up to 4 cells and 3 rows quick, 12 cells or 6 rows thorough')

prop('C06', 'Directional terrain averaging uses exactly the upwind cells',
     '''For each of the eight directions, the averaged terrain multiplier of
     a cell is the mean of the cells lying in a straight line towards that
     direction at distances lag+1 to lag+averaging width, limited to those
     inside the raster; if there is none, the cell keeps its own value.''',
     ['inputs'],
     '''Every array content, every averaging and lag width up to and beyond
     the raster; the index arithmetic for raster sizes up to 1e7.''',
     '''The tests compare single directions on fixed arrays with the widths
     smaller than the raster.''',
     ['terrain/terrain_mult.py', 'utilities/value_lookup.py'],
     [('upwind sum', 'terrain/terrain_mult.py convo'),
      ('index tables', 'utilities/value_lookup.py ALL_NEIGHB, POINT_R, '
       'POINT_C')], (), ['convo'],
     'arrays up to 5x4 quick, 6x7 thorough; content and widths symbolic')

prop('C07', 'The terrain multiplier of a tile is complete and correct end to end',
     '''Processing a land-cover tile writes one terrain multiplier file per
     direction, each covering exactly the unbuffered tile; in each, a cell
     without a listed class has no data and every other cell is the upwind
     average (500 m after a lag of 200 m, in whole cells of the mean grid
     size, per axis for diagonals) where cells without a listed class count
     1.0. A tile without any listed class writes no terrain file.''',
     ['inputs', 'configurations'],
     '''Every class per cell of small tiles, several grid sizes and buffers,
     all eight directions.''',
     '''No test runs the terrain step as a whole; nodata handling, direction
     and clipping interact.''',
     ['terrain/terrain_mult.py', 'utilities/nctools.py'],
     [('terrain step', 'terrain/terrain_mult.py terrain'),
      ('clip and save', 'utilities/nctools.py clip_array, '
       'save_multiplier')], (), ['terrain/<tile>_mz_<dir>.nc'],
     'tiles of up to 4x3 cells; classes symbolic; pixel sizes listed')

prop('C08', 'Shielding classes map to their configured initial factor',
     '''Every cell whose land-cover class is listed in the terrain table gets
     the initial shielding factor SHIELDING/100 of its row, every other cell
     1.0 and every no-data cell stays without data, written with the
     georeference of the land-cover tile, for every table and every class
     raster.''', ['inputs', 'configurations'],
     '''Every class per cell, every table of distinct categories and
     shielding percentages, with and without a declared no-data value.''',
     '''Tests use one table and one raster without no-data cells.''',
     ['shielding/shield_mult.py'],
     [('class lookup', 'shielding/shield_mult.py terrain_class2ms_orig, '
       'get_shielding_table')], (), ['shielding/<tile>_ms.img'],
     'up to 4 cells and 3 rows; values symbolic')

prop('C09', 'Directional shielding average covers exactly the upwind kernel',
     '''For each of the eight directions and every kernel size s of at least
     1, the averaged shielding factor of a cell is the plain mean over a
     fixed set of neighbours on the upwind side only (never the cell itself
     or a downwind cell): for the cardinal directions the cell at distance 1
     and the three-cell-wide strip at distances 2 to s, for the diagonals the
     triangle of cells inside the upwind quadrant between the axes at
     row+column distance of at most s+1; cells outside the raster count as
     1.0. The sets for the eight directions are rotations of one
     another.''', ['inputs'],
     '''Every array content on small rasters, every kernel size up to and
     beyond the raster size, all directions.''',
     '''Tests compare one kernel size with fixed matrices per direction and
     one blurred array.''', ['shielding/shield_mult.py'],
     [('kernels', 'shielding/shield_mult.py init_kern, init_kern_diag, '
       'kern_*'), ('convolution', 'shielding/shield_mult.py blur_image')],
     (), ['blur_image'], 'kernel sizes 1..4 quick, 1..7 thorough')

prop('C10', 'Slope and aspect follow from the DEM in true ground distances',
     '''The slope of a cell is the angle in degrees whose tangent is the
     length of the elevation gradient (3x3 weighted differences over the real
     cell width and height in metres), and its aspect class is the
     45-degree compass sector, centred on N, NE, E, SE, S, SW, W, NW, that
     contains the downhill bearing of that gradient; no-data cells have no
     slope. Adding a constant to the DEM changes neither.''', ['inputs'],
     '''Every elevation of a neighbourhood (symbolic reals), several cell
     sizes incl. non-square; every real aspect for the sector
     classification.''',
     '''Tests check one small DEM and a handful of aspects; sector borders,
     sign and axis mistakes show for particular gradients only.''',
     ['shielding/shield_mult.py'],
     [('gradient', 'shielding/shield_mult.py get_slope_aspect'),
      ('sectors', 'shielding/shield_mult.py reclassify_aspect')], (),
     ['get_slope_aspect'],
     'DEM of up to 4x4 cells; flat cells (no downhill bearing) excluded')

prop('C11', 'Shielding is reduced on windward slopes and conservatism removed',
     '''For each direction, a cell whose aspect faces the wind keeps its
     averaged factor on slopes of at most 3.27 degrees, has no shielding
     (1.0) on slopes of at least 12.3 degrees and is interpolated linearly in
     between; cells of any other aspect keep their factor. The result is then
     multiplied by 0.9 if below 0.9 and squared otherwise, and cells without
     data stay without data.''', ['inputs'],
     '''Every factor in 0..1 (or no data), every slope in 0..90 (or no data),
     every aspect class and all eight directions.''',
     '''Tests use one matrix per direction; thresholds and the combination
     of no data with a windward slope are not covered.''',
     ['shielding/shield_mult.py', 'utilities/value_lookup.py'],
     [('combination', 'shielding/shield_mult.py combine'),
      ('aspect of a direction', 'utilities/value_lookup.py DIRE_ASPECT')],
     (), ['combine'], 'arrays of up to 4 cells (cells are independent)')

prop('C12', 'The shielding multiplier of a tile is complete and correct end to end',
     '''Processing a tile writes one shielding multiplier file per direction,
     each covering exactly the unbuffered tile and equal to what the initial
     factors of that tile give when averaged upwind over as many whole cells
     as fit into 100 m (not averaged if the cells are larger) and combined
     with slope and aspect for that direction alone; no direction influences
     another, and the temporary shielding factor file is removed.''',
     ['inputs', 'configurations'],
     '''Every land-cover class and flat or sloping DEM of small tiles, cell
     sizes below and above 100 m, all eight directions.''',
     '''No test runs the shielding step on a whole tile; cross-direction
     contamination needs cells larger than 100 m.''',
     ['shielding/shield_mult.py', 'utilities/nctools.py'],
     [('shielding step', 'shielding/shield_mult.py shield, '
       'convo_combine')], (), ['shielding/<tile>_ms_<dir>.nc'],
     'tiles of up to 8x7 cells; classes symbolic')

prop('C13', 'Ridges and valleys of a profile are found and paired correctly',
     '''For every elevation profile, the reported ridges are exactly the
     points where a rise ends, that is, higher than the upwind neighbour and
     not lower than the downwind neighbour (so a plateau or a terrace on a
     rise counts once, at its upwind start), plus the first point if the
     profile starts by falling, also after an initial plateau. The reported
     valleys are exactly the points where a rise begins, plus the last point
     if the profile ends by falling, also before a final plateau. Both are in
     increasing order and they alternate; a flat profile of several points
     has neither.''', ['inputs'],
     '''Every integer or real profile of up to 6 (thorough: 8) points
     (symbolic values, so every pattern of rises, falls and plateaus).''',
     '''Single test profiles cannot cover the patterns of rises, falls and
     plateaus; plateaus at the ends are rare.''',
     ['topographic/findpeaks.py'],
     [('peaks', 'topographic/findpeaks.py findpeaks, findvalleys')], (),
     ['findpeaks', 'findvalleys'], 'profiles of 1..6 points, 8 thorough')

prop('C14', 'The hill-shape multiplier stays within bounds and within reach',
     '''For every profile and every ridge and upwind valley of it, the
     hill-shape multiplier of each point lies between 1 and 1.71. With h the
     height of the ridge over the valley, Lu the horizontal distance at half
     height, L1 = max(0.36 Lu, 0.4 h) and L2 = 4 L1, it is 1 everywhere if h
     is below 10 m, the slope h/(2 Lu) is below 0.05 or Lu is shorter than
     one point spacing, and 1 at every point outside the influence zone of
     the ridge (L2 upwind, E times L2 downwind, E being the escarpment factor
     2.5 - 1.5 times the ratio of lee to windward slope, limited to 0.5..3).
     At points inside it equals the formula 1 + h/(3.5 (z+L1)) (1 - |x|/L2),
     capped at 1.71, with the reach on the lee side scaled by E; steep
     (slope over 0.45), nearly symmetric (E within 0.2 of 1) hills follow
     1 + 0.71 (1 - |x|/(E L2)) within a quarter of their height behind the
     crest.''', ['inputs'],
     '''Every integer elevation of profiles of up to 6 points, all ridge and
     valley positions, several point distances.''',
     '''Tests use single profiles; the bounds depend on combinations of
     height, spacing and lee slope.''',
     ['topographic/mh.py'],
     [('formula and zone', 'topographic/mh.py mh_calc, '
       'escarpment_factor')], (), ['mh_calc'],
     'profiles of 4..6 points; heights symbolic')

prop('C15', 'A profile takes the largest multiplier of all of its hills',
     '''For every elevation profile, the topographic multiplier at each point
     is the largest of 1 and the hill-shape multipliers of all pairs of a
     ridge and the nearest valley upwind of it; a flat or steadily falling profile is
     1 everywhere, and elevations count in whole metres rounded down.''',
     ['inputs'], '''Every real elevation profile of up to 6 points, several
     point distances.''',
     '''One test profile cannot cover the combinations of hills.''',
     ['topographic/multiplier_calc.py', 'topographic/findpeaks.py',
      'topographic/mh.py'],
     [('combination of hills', 'topographic/multiplier_calc.py '
       'multiplier_calc')], (), ['multiplier_calc'],
     'profiles up to 5 points quick, 6 thorough')

prop('C16', 'The scan lines of each direction visit every cell exactly once',
     '''For every DEM size and each of the eight directions, the lines along
     which the topographic multiplier is computed start at the upwind edge,
     advance by one cell downwind in that direction, end at the opposite
     edge, and together visit every cell exactly once.''', ['inputs'],
     '''Every number of rows and columns within the bound and all starting
     positions (symbolic), all directions; single steps for sizes up to
     1e6.''', '''No test covers the scan lines; non-square and one-row
     rasters differ from square ones.''',
     ['topographic/topo_mult.py', 'topographic/make_path.py'],
     [('lines', 'topographic/make_path.py make_path; '
       'topographic/topo_mult.py topomult')], (), ['make_path'],
     'rasters up to 4x5 quick, 8x7 thorough')

prop('C17', 'Topographic conservatism removal and the Tasmanian elevation factor',
     '''Hill-shape multipliers from 1 to 1.4 are scaled by 1.25 - 0.25 m,
     those of 1.4 or more by 0.9, a value of exactly 1 stays 1 and the result
     is never below 1 for values from 1 to 1.71; in Tasmania (east of 143E,
     south of 40S) cells above 500 m are additionally multiplied by
     1 + 0.00015 elevation, cells at or below 500 m and cells without data
     are not.''', ['inputs'],
     '''Every real multiplier of 1 to 1.71 and every elevation (or no data)
     per cell; every tile origin.''',
     '''The tests use one array of values.''', ['topographic/topo_mult.py'],
     [('scaling', 'topographic/topo_mult.py remove_conservatism, '
       'tasmania, topomult')], (), ['remove_conservatism', 'tasmania'],
     'cells are independent; up to 3 cells')

prop('C18', 'The topographic multiplier of a tile is complete and correct',
     '''Processing a DEM tile writes one topographic multiplier file per
     direction, each covering exactly the unbuffered tile; each value is the
     mean over the 3x3 neighbourhood (edge cells repeated) of the
     conservatism-corrected line multipliers for that direction, using the
     mean cell size as point distance (times the square root of 2 on
     diagonals). Cells without data stay without data and count as elevation
     0, a flat tile is 1 everywhere, and integer and real DEMs give the same
     result.''', ['inputs', 'configurations'],
     '''Every elevation (integer metres, no data) of small DEMs, all
     directions, buffers on and off, in and outside of Tasmania.''',
     '''No test runs the topographic step; edge smoothing and no-data cells
     need whole-tile runs.''',
     ['topographic/topo_mult.py', 'utilities/nctools.py'],
     [('topographic step', 'topographic/topo_mult.py topomult')], (),
     ['topographic/<tile>_mt_<dir>.nc'],
     'tiles up to 5x5 with one free elevation end to end; any DEM up to '
     '4x3 (thorough 6x5) with the line function abstracted')

prop('C19', 'Cell sizes in metres are interpolated over the whole tile',
     '''For every tile shape, the grids of cell widths and heights are filled
     in every cell, agree with the directly computed size at the corners,
     edges middles and centre of the tile, lie between the smallest and the
     largest computed size, and follow the bilinear interpolation of the four
     surrounding computed sizes within each quarter of the tile.''',
     ['inputs'], '''Every real cell size at the evaluated points (symbolic),
     every tile shape within the bound.''',
     '''Tests never check the grids; odd, even and one-cell-wide shapes take
     different branches.''', ['utilities/blrb.py',
                              'utilities/get_pixel_size_grid.py'],
     [('bisection', 'utilities/blrb.py interpolate_grid, subdivide, '
       'bilinear')], (), ['get_pixel_size_grids'],
     'shapes up to 6x6 quick, 9x9 thorough')

prop('C20', 'Saved multiplier files are complete and self-describing',
     '''Saving a multiplier writes a file whose grid holds exactly the given
     values (missing values kept missing) on the given latitudes and
     longitudes, the range of the values, latitudes and longitudes (least and
     greatest, missing values aside), a grid-mapping variable, and global
     attributes naming the multiplier, the direction in the file name, the input data sets and
     every configured option; it succeeds in the same way if the version
     control system is unavailable. A description of dimensions or variables
     that is incomplete or does not fit the values is refused.''', ['inputs', 'configurations',
                                         'fault_sequences'],
     '''Every value per cell, every coordinate, all directions and
     multipliers, with and without git.''',
     '''Tests save one variable with one set of attributes and need git to
     work.''', ['utilities/nctools.py'],
     [('saving', 'utilities/nctools.py save_multiplier, nc_save_grid, '
       'nc_create_dim, nc_create_var')], (), ['netCDF file'],
     'grids of up to 2x3 cells; values and coordinates symbolic')

prop('C21', 'The combined multiplier is the cell-wise product of the three',
     '''For every tile and direction, the band of the combined multiplier
     file is the cell-wise product of the terrain, shielding and topographic
     multiplier of that direction, with no data (-9999) where any of them has
     no data, in the fixed direction order with the direction as band name,
     and with the georeference of the tile; a multiplier file that does not
     exist counts as 1 everywhere
     (the north shielding file, which defines the tile, must exist; tiles are
     at least two cells wide and high).''', ['inputs', 'fault_sequences'],
     '''Every value or no data per cell, any subset of terrain, topographic
     and (other than the north one) shielding files missing, non-square
     tiles.''',
     '''Tests convert one complete tile and check that files exist; values,
     missing files and no-data cells are not covered.''', ['utilities/convert.py'],
     [('product', 'utilities/convert.py Converter.process_tile')], (),
     ['M3/<tile>.tif'], 'tiles up to 3x2 cells; values symbolic')

prop('C22', 'The maximum multiplier is the largest over all directions',
     '''For every tile, the maximum file has the georeference of the tile and
     in each cell the largest of the eight directional combined multipliers,
     ignoring directions without data, and no data (-9999) only where all
     directions have none; it holds this one band.''', ['inputs'],
     '''Every value or no data per cell and direction.''',
     '''Tests only check that a file exists for one tile.''',
     ['utilities/convert.py'],
     [('maximum', 'utilities/convert.py Converter.process_max_tile')], (),
     ['M3_max/<tile>.tif'], 'tiles up to 2x2 cells; values symbolic')

prop('C23', 'Parallel processing computes every tile exactly once and ends',
     '''For every number of processes and tiles and for every order in which
     workers finish, each tile is cut and computed exactly once, with its own
     DEM tile, each worker is told to stop exactly once after its last tile,
     and the master and all workers return; a serial run processes the same
     tiles.''', ['schedules', 'inputs'],
     '''Every interleaving of master and workers (the source of each received
     message is symbolic), every number of tiles and workers within the
     bound, also fewer tiles than workers and none.''',
     '''Tests run the dispatcher with neither several workers nor fewer
     tiles than workers; orders of completion cannot be enumerated by
     running.''', ['all_multipliers.py'],
     [('master and worker loops', 'all_multipliers.py '
       'Multipliers.parallelise_on_tiles')], (),
     ['comm.send/recv', 'multipliers_calculate'],
     'up to 4 workers and 12 tiles (thorough 8 and 20), every order')

prop('C24', 'Conversion covers every tile once and merges all results',
     '''For every number of processes and set of multiplier files, each tile
     that has shielding output is converted exactly once by exactly one
     process, and the two virtual rasters written at the end (combined and
     maximum) each reference exactly the converted files of all processes;
     they are written by the master only, and not at all if there is no
     tile. The same holds when the conversion is run on its own as the script
     mpi_runner.py for a directory of multipliers.''', ['inputs', 'schedules'],
     '''Every number of processes within the bound, every set of tiles, every
     listing order of the directory.''',
     '''Tests run the conversion with a single process and tile.''',
     ['utilities/mpi_runner.py', 'utilities/convert.py'],
     [('scatter and gather', 'utilities/mpi_runner.py '
       'parallelise_convert_on_tiles')], (), ['wind-multipliers.vrt'],
     'up to 4 processes and 5 tiles')

prop('C25', 'Each land-use area takes the settlement covering most of it',
     '''Joining land use with settlement categories assigns each area the
     attribute of the settlement polygon with which its intersection is
     largest, or none if it meets no settlement, without changing, dropping
     or reordering areas; the category code is 100 times the settlement code
     plus the land-use code, 0 for unknown names. Merging areas by an
     attribute leaves one area per value, the union of all its areas.''',
     ['inputs'],
     '''Every intersection area (symbolic), several areas and settlements,
     every combination of names.''',
     '''No test covers the pre-processing.''',
     ['utilities/shapefiles.py', 'pre_process.py'],
     [('join', 'utilities/shapefiles.py shp_file.spatial_join'),
      ('codes', 'pre_process.py pre_process')], (), ['CAT attribute'],
     'up to 3 areas and 3 settlements')

prop('C26', 'Only the master prepares the output directory, and fully',
     '''Creating the output directories empties an existing output directory
     and leaves exactly the five empty result folders, deletes nothing
     outside the configured directory, and is done by the master process
     only: a worker neither deletes nor creates anything. Preparing the
     folders for a conversion keeps existing files.''',
     ['configurations', 'schedules', 'histories'],
     '''Every number of processes and rank, existing or missing output
     directory and subfolders, every subset of existing files.''',
     '''Tests run with one process and do not create the directories.''',
     ['all_multipliers.py', 'utilities/parallel.py',
      'utilities/convert.py'],
     [('guard', 'utilities/parallel.py disable_on_workers'),
      ('creation', 'all_multipliers.py do_output_directory_creation')], (),
     ['file system'], 'ranks and sizes symbolic up to 64')

prop('C27', 'Tile results do not depend on where the tile boundaries fall',
     '''The terrain and shielding multiplier of a cell is the same whether
     the raster is computed as one window or tile by tile with buffers,
     provided the buffer covers the upwind distances used and the mean cell
     sizes of the windows give the same averaging distances in cells.''',
     ['inputs',
                                                  'configurations'],
     '''Every class or factor per cell, cells at both sides of a tile border,
     all directions.''',
     '''The tests process a single array and never compare two tilings.''',
     ['terrain/terrain_mult.py', 'shielding/shield_mult.py',
      'all_multipliers.py'],
     [('buffered windows', 'all_multipliers.py TileGrid'),
      ('upwind averaging', 'terrain/terrain_mult.py convo; '
       'shielding/shield_mult.py blur_image')], (), ['tile outputs'],
     'rasters of up to 10812 cells in 2 to 4 tiles; the classes of up to '
     '84 cells around the borders are unknown')

prop('C28', 'The land cover is resampled to exactly the grid of the DEM tile',
     '''The land-cover tile has the size, georeference and projection of the
     DEM tile it is matched to, takes in each cell the class of the
     land-cover cell that contains the cell centre (classes are never mixed
     or interpolated), and keeps integer classes integer.''', ['inputs'],
     '''Every class value, several relative resolutions and every real
     offset of the land-cover grid.''',
     '''Tests reproject one raster to itself.''',
     ['all_multipliers.py'],
     [('reprojection', 'all_multipliers.py reproject_dataset')], (),
     ['<tile>.img'], 'GDAL nearest-neighbour resampling modelled by its '
     'documented meaning')

prop('C29', 'A run computes and converts every tile of the configured data',
     '''Running the program with a configuration file, with any number of
     processes, prepares the configured output directory before anything is
     computed, computes every tile of the configured DEM that holds data
     exactly once with the configured land cover and DEM, converts each of
     them, and only them, to the multi-band files and the virtual rasters,
     ends on every process, leaves only results in the output directory and
     touches nothing outside it.''',
     ['inputs', 'configurations', 'schedules'],
     '''Every subset of empty tiles, an old output directory or none, every
     order of messages and several orders of the processes.''',
     '''No test runs the program.''',
     ['all_multipliers.py', 'utilities/mpi_runner.py',
      'utilities/config.py', 'utilities/convert.py'],
     [('run', 'all_multipliers.py run'),
      ('conversion', 'utilities/mpi_runner.py parallelise_convert_on_tiles')],
     (), ['output directory'], 'up to 3 processes and 6 tiles')

prop('C30', 'Every tile with data gets all three multipliers; no tile leaves residue',
     '''Processing a tile whose DEM holds data computes terrain, shielding
     and topographic multipliers for that tile's own extent and removes its
     temporary DEM and land-cover files; a tile whose DEM is empty computes
     nothing and leaves no file behind, and in both cases other tiles' files
     are untouched. A missing input raster is reported as an error before
     anything is computed.''', ['inputs', 'histories', 'fault_sequences'],
     '''Every sequence of empty and non-empty tiles within the bound, missing
     inputs.''',
     '''No test runs the tile life cycle.''', ['all_multipliers.py'],
     [('life cycle', 'all_multipliers.py Multipliers.cut_dem, '
       'multipliers_calculate')], (), ['output folder'],
     'up to 3 tiles')

prop('C31', 'Ground distances used for cell sizes are accurate',
     '''The computed ground distance between two neighbouring cell centres
     equals the geodesic distance on the WGS84 ellipsoid to within a
     millimetre, for every location.''', ['inputs'],
     '''Every latitude and longitude.''',
     '''Tests use no distances.''', ['utilities/vincenty.py'],
     [('Vincenty', 'utilities/vincenty.py vinc_dist')], (), ['vinc_dist'],
     na='''vinc_dist iterates sin, cos, atan2 and sqrt of symbolic reals
     until a convergence threshold: no available solver decides nested
     transcendental fixed points, and an uninterpreted-function encoding
     would say nothing about accuracy.''')

prop('C32', 'An interrupted save leaves no multiplier file that looks complete',
     '''If the process is killed while a multiplier file is being written, a
     later conversion never treats the partial file as a complete
     multiplier.''', ['crash_points'], '''Every crash point of a save.''',
     '''Tests never interrupt a save.''', ['utilities/nctools.py'],
     [('file close', 'utilities/nctools.py nc_save_grid')], (),
     ['netCDF file'],
     na='''What is on disk at a crash is decided inside the netCDF C library
     (buffering, header updates), behind a foreign-function interface that
     cannot be encoded; the repository's code makes no attempt at atomicity
     to check, and the documented procedure is to delete and rerun.''')

prop('C33', 'Resampled elevations and rasterised classes are geometrically exact',
     '''Clipping the DEM and rasterising the land-use polygons assign each
     cell the elevation or class found at its centre.''', ['inputs'],
     '''Every polygon and raster.''',
     '''Tests use one raster.''', ['all_multipliers.py', 'pre_process.py'],
     [('GDAL', 'gdal.ReprojectImage, gdal.RasterizeLayer')], (),
     ['rasters'],
     na='''The whole computation is inside GDAL (compiled C++ behind FFI);
     the repository only passes arguments, whose effect on grid metadata C03
     and C28 check.''')

prop('C34', 'Rasterised land cover holds each area\'s code on the DEM grid',
     '''Rasterising the merged land-use areas produces one band on exactly
     the grid of the chosen DEM (size, georeference, projection): a cell
     whose centre lies in an area holds that area's category code, and every
     other cell holds 0, which is declared as no data. The preprocessing
     script takes the DEM from the inputValues section when input_topo is
     True and from the named file otherwise.''',
     ['inputs', 'configurations'],
     '''Every position and size of the areas that do not overlap and every
     code 0 to 511, DEM grids of different sizes and cell shapes, both ways
     of naming the DEM.''',
     '''No test runs the rasterisation or the preprocessing script.''',
     ['pre_process.py', 'rasterize.py'],
     [('burning the codes', 'pre_process.py rasterize'),
      ('scripts', 'pre_process.py and rasterize.py as programs')], (),
     ['GeoTIFF'],
     '''Areas are boxes with symbolic ends; at most 3 areas and 72
     cells''')


prop('C35', 'Relative paths mean the working directory of the run',
     '''Inputs, terrain table, configuration file and output directory may be
     given relative to the working directory. A run over any number of tiles
     then computes and saves exactly what it does with the same paths
     written out in full, in that directory, touches nothing else, and
     leaves the working directory of the process as it was.''',
     ['inputs', 'configurations'],
     '''Every class of the unknown land-cover cells, every listed way to name
     the output directory, several tiles one after the other.''',
     '''The tests run single stages with absolute paths in a temporary
     directory.''',
     ['all_multipliers.py', 'terrain/', 'shielding/', 'topographic/',
      'utilities/'],
     [('stages', 'terrain, shield and topomult as called by '
       'Multipliers.multipliers_calculate'),
      ('whole run', 'run in all_multipliers.py')], (),
     ['temporary tiles', 'result files'],
     '''Up to 6 x 5 cells in up to 4 tiles; 3 unknown classes; elevations
     concrete''')


prop('C36', 'The chosen configuration file decides, option by option',
     '''After a configuration file has been chosen, every module of a
     calculation sees the value the file gives an option, exactly as written
     (upper case, blanks, % and # included), whether the module was imported
     before or after; options the file leaves out keep the value of
     multiplier_conf.cfg in the project directory. Choosing another file
     replaces the values of all options it gives. The terrain table read for
     terrain and shielding is the one configured then.''',
     ['configurations', 'histories'],
     '''Every subset of the listed options given by the file, one or two
     files chosen one after the other, modules imported before and
     after.''',
     '''The tests choose a single complete configuration per process.''',
     ['utilities/config.py', 'terrain/terrain_mult.py',
      'shielding/shield_mult.py'],
     [('choice of the file', 'utilities/config.py _ConfigParser'),
      ('use', 'config.get in all modules')], (),
     ['configuration values', 'terrain tables'],
     '''Seven options; at most two files''')


prop('C37', 'Results do not depend on what was computed before',
     '''Within one process, a computation gives the same result whatever was
     computed before it: the multiplier files of a tile depend only on the
     tile (its size, place, classes and elevations), the terrain table and
     the configuration, not on tiles processed earlier with another number of
     rows and columns, at another latitude or with another cell size; and the
     same holds for cutting, resampling, tiling, converting, saving and
     joining.''',
     ['histories', 'inputs'],
     '''Listed sequences of two to twelve computations and their reverse,
     with classes, elevations and multiplier values as unknowns, each compared
     with the same computation in modules loaded anew.''',
     '''Every test computes one tile per module, and a wrong memory of an
     earlier tile shows only with a second one that differs in the right
     way.''',
     ['all_multipliers.py', 'terrain/terrain_mult.py',
      'shielding/shield_mult.py', 'topographic/topo_mult.py',
      'utilities/nctools.py', 'utilities/convert.py',
      'utilities/get_pixel_size_grid.py'],
     [('tile by tile', 'Multipliers.multipliers_calculate'),
      ('conversion', 'Converter.run')], (),
     ['multiplier files', 'combined files'],
     '''Listed sequences; at most five tiles of up to 24 cells''')


prop('C38', 'Every process of a run keeps its own log, at the chosen level',
     '''Each process of a run writes its messages to a log file of its own:
     the first process to the configured LogFile (relative to the working
     directory), process r to the same name with _r appended. The file holds
     all messages of the configured LogLevel and above that any module of
     the calculation issues after the configuration is read, each once, and
     none below that level; it replaces the log of an older run. A missing
     log directory is created, also when several processes start together
     and another one creates it at the same moment; if it cannot be created
     the log is multipliers.log (with _r) in the working directory. Only with
     Verbose (option or -v) and standard output a terminal, the first process
     also shows the same messages, each once, on standard output; the other
     processes show nothing.''',
     ['configurations', 'schedules', 'faults'],
     '''One to three processes; the five standard levels; log file in the
     working directory, below it, beside it, absolute; older logs present or
     not; directory missing, blocked by a file, or created by another process
     before any of the creations; messages of nine modules.''',
     '''The tests start no run; a log that is shared, misplaced or at the
     wrong level shows only with several processes or an unlucky start.''',
     ['all_multipliers.py', 'utilities/files.py'],
     [('choice of the file', 'run in all_multipliers.py'),
      ('logging', 'utilities/files.py fl_start_log')], (),
     ['log files', 'terminal'],
     '''At most three processes; the logging state of each process is modelled
     by one root logger per process''')

prop('C39', 'Tiles computed at the same time do not disturb one another',
     '''Two processes may compute or convert different tiles of one run in the
     same output directory at the same time. Wherever one of them is in its
     work - cutting its DEM, matching the land cover, computing terrain,
     shielding or topographic multipliers, cleaning up, or converting to
     GeoTIFF - when the other opens, writes, lists or removes files, both
     end without error, every result file of each tile is what it is when
     the tile is computed alone, and besides the results only the files
     that each leaves when alone remain. This holds for any two tile names,
     also if one begins like the other, and for the master cutting one
     tile while a worker computes another.''',
     ['schedules', 'inputs'],
     '''Two processes, every operation on a file at which the first stops
     while the second works (thorough: every pair of operations at which
     they take turns), land cover, elevations, hill-shape results and
     multipliers unknown within the stages.''',
     '''Tests compute one tile at a time; files that two processes share by
     accident show only in certain interleavings.''',
     ['all_multipliers.py', 'terrain/terrain_mult.py',
      'shielding/shield_mult.py', 'topographic/topo_mult.py',
      'utilities/nctools.py', 'utilities/convert.py'],
     [('life cycle', 'all_multipliers.py Multipliers.cut_dem, '
       'multipliers_calculate'),
      ('temporary rasters', 'shield_mult.py terrain_class2ms_orig, '
       'convo_combine'),
      ('conversion', 'Converter.run')], (),
     ['multiplier files', 'combined files', 'output folder'],
     '''Two processes, tiles of up to 4x4 cells with buffer; each operation of
     a library on a file is one step''')


def main():
    have = {f[:-3].upper() for f in os.listdir(os.path.join(HERE, 'props'))
            if f.startswith('c') and f.endswith('.py')}
    rows, checks, na = [], [], []
    for d, note in P:
        i = d['id']
        if i in NA:
            na.append(dict(property=i, reason=NA[i]))
        elif i in have:
            checks.append(dict(
                property=i,
                quick_cmd='/opt/venv/bin/python run_check.py ' + i,
                thorough_cmd='/opt/venv/bin/python run_check.py %s --tier '
                'thorough' % i,
                technique='symbolic execution of the Python source with '
                'z3/cvc5 deciding every obligation (bounded), replay of '
                'counterexamples on the real code',
                level='model_checking', level_note='bounded: ' + note))
        else:
            continue
        rows.append(d)
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for d in rows:
            f.write(json.dumps(d) + '\n')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python '
                       'run_check.py --selftest', checks=checks,
                       not_applicable=na), f, indent=1)
        f.write('\n')
    print(len(checks), 'checks', len(na), 'not applicable')


if __name__ == '__main__':
    main()

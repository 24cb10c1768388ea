prop('C01', 'Every position in a region belongs to exactly one numbered cell',
     'Each position of a gridded region is given exactly one cell number, that number lies between zero and the '
     'largest cell number, and the corner reported for that cell is the corner of the cell containing the position. '
     'Positions outside the region are rejected, and a cell number is reported valid exactly when a cell has it.',
     ['inputs', 'configurations'],
     'all positions (real longitude and latitude), all whole-degree region origins including regions that straddle '
     'the equator or 0E, and all grids within the bounds',
     'The tests evaluate a handful of points in one eastern/southern-hemisphere region; sign changes, edges and '
     'corners of other regions are never reached (an equator-crossing defect had survived them).',
     ['Utilities/stats.py'],
     [('cell number of a position', 'Utilities/stats.py getCellNum'),
      ('corner of a cell', 'Utilities/stats.py getCellLonLat'),
      ('validity and size', 'Utilities/stats.py validCellNum, maxCellNum')],
     note='complete within bounds: grids up to 4x3 cells (6x5 thorough), cell sizes 1, 2, 5 (and 3) degrees, any '
          'whole-degree origin, any real position; real arithmetic')

prop('C02', 'The tiles of the hazard grid hold each grid point of the region once',
     'The hazard grid consists of exactly those wind-field grid points whose coordinates, to the millidegree, lie '
     'within the region limits, limits included. Every such point is in exactly one tile, no tile reaches outside '
     'them, and no tile is larger than the tile size.',
     ['inputs', 'configurations'],
     'all wind-field grids and region limits given in millidegrees and all tile sizes within the bounds, including '
     'the rounding of the coordinates to binary floating point',
     'Hazard tests never build tiles whose limits fall on a grid point with a rounding error; the dropped last row '
     'appears only for particular decimal limits.',
     ['hazard/__init__.py'],
     [('choice of grid points', 'hazard/__init__.py TileGrid.__init__'),
      ('tiling', 'hazard/__init__.py TileGrid.tileGrid, getGridLimit, getTiles'),
      ('coordinates of the result', 'hazard/__init__.py TileGrid.getDomainExtent')],
     note='complete within bounds: up to 4 (6) points along one axis with bounded rounding errors on every '
          'operation, 2x2 (3x3) points in exact arithmetic, tile sizes up to 3 (5)')

prop('C03', 'Hazard results are complete and in place for every order of arrival',
     'With any number of worker processes, and whatever order their results arrive in, every tile is calculated '
     'exactly once, each cell of every output field holds the value calculated for that cell, and all processes '
     'finish. The result is the same as with a single process.',
     ['schedules', 'configurations'],
     'all arrival orders of worker results, for buffered and synchronous message passing, all worker/tile counts '
     'within the bounds, arbitrary calculated values',
     'The test suite runs one process; no test sends a message between ranks.',
     ['hazard/__init__.py'],
     [('master/worker exchange and assembly', 'hazard/__init__.py HazardCalculator.dumpHazardFromTiles')],
     note='all arrival orders for 0-3 workers and up to 4 tiles (thorough: 0-5 workers, up to 5 tiles); cell values '
          'symbolic; MPI replaced by an in-process model with tags, sources and ordering')

prop('C04', 'The event database records every file once at every location',
     'After the database is built with any number of processes, each wind-field file has one event record and one '
     'wind record per location holding the values of that file at the grid point nearest the location, each track '
     'has one distance record per location, and each location has one hazard record per return period. This holds '
     'for every order in which workers report, and all processes finish.',
     ['schedules', 'configurations'],
     'all arrival orders, buffered and synchronous messages, all worker/file counts within the bounds, arbitrary '
     'field values',
     'No test builds the database, and none runs more than one process.',
     ['database/__init__.py', 'database/definitions.py', 'Utilities/parallel.py'],
     [('event ingest', 'database/__init__.py _HazardDatabase.processEvents, processEvent'),
      ('track ingest', 'database/__init__.py _HazardDatabase.processTracks, processTrack'),
      ('hazard ingest', 'database/__init__.py _HazardDatabase.processHazard'),
      ('rank-0 only steps', 'Utilities/parallel.py disableOnWorkers')],
     note='all arrival orders for 0-3 workers and up to 4 files (thorough 4 workers, 5 files), 2 locations, symbolic '
          'values; SQL executed on a real scratch SQLite file')

prop('C05', 'Local-wind worker threads write every pixel once, finish, and share safely',
     'For every interleaving of the worker threads that compute local wind speeds, each pixel of the output is '
     'written exactly once with its own value and every worker ends. No two threads ever read or write the same '
     'raster band at the same time.',
     ['schedules', 'configurations'],
     'all interleavings of queue operations, and all interleavings of queue, lock and raster operations up to a '
     'number of preemptions; raster, segment and thread counts within the bounds',
     'Tests call the unthreaded version, and a thread test would see one schedule of very many (a worker could hang '
     'on an emptied queue).',
     ['ProcessMultipliers/processMultipliers.py'],
     [('segmenting and worker start', 'ProcessMultipliers/processMultipliers.py processMultV2'),
      ('worker loop', 'ProcessMultipliers/processMultipliers.py call_process_multiplier_segment'),
      ('locks', 'ProcessMultipliers/processMultipliers.py processMultiplierSegment, loadAllBandArrayData')],
     note='all schedules within: up to 3 threads and 4 segments for queue operations; 2-3 threads with at most 2 (3) '
          'preemptions at lock and raster operations')

prop('C06', 'Local wind is the gust times the multiplier of the wind\'s direction',
     'For every pixel, the local wind speed is the regional gust multiplied by the site multiplier of the 45-degree '
     'compass sector, centred on the eight main directions, that contains the direction the wind comes from; missing '
     'multipliers count as one. The direction is measured clockwise from north, and both processing versions and '
     'both layouts of the multiplier files give the same result.',
     ['inputs', 'configurations'],
     'every wind vector except calm, every bearing from 0 to 360 inclusive, arbitrary gusts and multipliers, all '
     'raster and segment sizes within the bounds',
     'Tests check a few bearings in the middle of sectors for one layout; sector limits, 360 and the mapping of '
     'bands to sectors in the segmented version are not reached.',
     ['ProcessMultipliers/processMultipliers.py'],
     [('whole-image version', 'ProcessMultipliers/processMultipliers.py processMult, loadRasterFile'),
      ('segmented version', 'ProcessMultipliers/processMultipliers.py processMultV2, processMultiplierSegment'),
      ('direction', 'ProcessMultipliers/processMultipliers.py calculateBearing')],
     note='complete within bounds: rasters up to 2x3 (3x3, 2x5), one free pixel at a time, segments 1-3; real '
          'arithmetic with atan2 axiomatised')

prop('C07', 'Dividing the work among processes neither loses nor repeats any of it',
     'With any number of processes, every simulated year is generated by exactly one of them, with the same random '
     'sequence and event count as in a single-process run. Every track whose positions come within the margin of the '
     'region, in any track file and in whatever order each process lists the files, gets its wind field computed '
     'exactly once.',
     ['configurations', 'inputs', 'schedules'],
     'all process and file counts within the bounds, every directory listing order on every process, arbitrary track '
     'positions and event counts',
     'Tests run in a single process and with one listing order; a lost or doubled share changes nothing they see.',
     ['wind/__init__.py', 'TrackGenerator/TrackGenerator.py'],
     [('sharing of track files and tracks', 'wind/__init__.py run, dumpGustsFromTrackfiles, balanced'),
      ('choice of tracks near the region', 'wind/__init__.py filterTracks, inRegion'),
      ('sharing of simulations and seeding', 'TrackGenerator/TrackGenerator.py run, balanced')],
     note='complete within bounds: 1-4 processes, up to 4 files or simulations, every listing order per process, '
          'one track with arbitrary positions')

prop('C08', 'An interrupted wind-field run can be repeated and then completes',
     'Wherever a run that writes wind fields is interrupted, running it again leaves for every track a complete file '
     'with the values an uninterrupted run would have written. Finished files are not calculated again; files that '
     'are empty, unreadable or lack a field are.',
     ['crash_points', 'histories'],
     'every write operation as the point of interruption, every prefix of the written operations (or an unreadable '
     'file) as what reached the disk, arbitrary field values, every subset of the fields in an existing file',
     'No test interrupts a run; the window between creating the last variable and writing its data is milliseconds '
     'wide.',
     ['wind/__init__.py', 'Utilities/nctools.py'],
     [('skipping finished files', 'wind/__init__.py WindfieldGenerator.dumpGustsFromTracks, gustFileComplete'),
      ('writing a file', 'wind/__init__.py WindfieldGenerator.saveGustToFile; Utilities/nctools.py ncSaveGrid')],
     note='complete within bounds: 2 tracks (3), one interruption (two), every operation and kept prefix; the netCDF '
          'library is a stand-in in the symbolic run and real in the replay')

prop('C09', 'A simulated year depends only on its own seed and number',
     'The tracks generated for a simulated year are determined by the seed and the number of that year alone: they do '
     'not depend on which years the same process generated before, nor on any other source of randomness in the '
     'process. Each storm starts afresh, taking nothing over from the storm before it.',
     ['histories', 'inputs'],
     'all random values of the year\'s own sequence, all values of any other random source, all storms generated '
     'before by the same object; track length and number within the bounds',
     'Tests generate from one fixed state; dependence on earlier storms or on the global random state shows up only '
     'when two runs with a different history are compared for the same year.',
     ['TrackGenerator/TrackGenerator.py'],
     [('storm initialisation', 'TrackGenerator/TrackGenerator.py TrackGenerator.generateTracks'),
      ('stepping state', 'TrackGenerator/TrackGenerator.py TrackGenerator._singleTrack, _stepPressureChange, '
       '_stepBearing, _stepSpeed'),
      ('sequence per simulation', 'TrackGenerator/TrackGenerator.py run')],
     note='complete within bounds: two storms of up to 2 (3) steps, two runs with different histories compared; '
          'physical sub-models are arbitrary functions')

prop('C10', 'Synthetic storms follow the stated model from genesis to decay',
     'Each position of a synthetic storm follows from the previous position, bearing and speed; its motion and pressure '
     'follow the coefficients of the cell it is in, for land or sea as it applies; over land the pressure deficit '
     'decays with the time since that landfall. A storm ends when it leaves the region or becomes too weak, and is '
     'kept only if it lasts 12 hours, deep enough and of ordinary size, inside any inner limits. Times, ages '
     'and positions of the records agree with each other.',
     ['inputs', 'histories'],
     'all random values, all land masks, arbitrary geometry and pressure models; storm length within the bounds',
     'Tests check single helpers; how the state is carried over landfalls, cells and the end of a storm depends on '
     'the whole history of the storm.',
     ['TrackGenerator/TrackGenerator.py'],
     [('stepping', 'TrackGenerator/TrackGenerator.py TrackGenerator._singleTrack'),
      ('autoregressive models', 'TrackGenerator/TrackGenerator.py TrackGenerator._stepPressureChange, _stepBearing, '
       '_stepSpeed'),
      ('acceptance', 'TrackGenerator/TrackGenerator.py TrackGenerator.generateTracks, _notValidTrackStep')],
     note='complete within bounds: up to 2 (3) steps with every ending, 4 (5) steps of storms that live on with every '
          'sequence of land and sea; one or two cells; equality with a reference model, sub-models arbitrary functions')

prop('C11', 'An event\'s wind field holds its strongest gust at every grid point',
     'At every grid point the wind field of an event holds the strongest gust of all time steps whose centre lies in '
     'the region, with the direction and components of that very step, and the lowest pressure of any of them; points '
     'not reached keep no wind and the outer pressure. Values calculated around the storm are stored at grid points '
     'no more than one spacing from where they were calculated, and in the file at their own coordinates. Without a '
     'configured region every storm gets a grid around its own track.',
     ['inputs', 'configurations', 'histories'],
     'any storm position in a region with any limits, arbitrary wind and pressure values at every step, all orders of '
     'positions inside and outside; several tracks',
     'Tests compare one recorded event; misplacement by a row, or a component kept from another step, appears only for '
     'particular positions and orders of values.',
     ['wind/__init__.py', 'Utilities/maputils.py'],
     [('accumulation', 'wind/__init__.py WindfieldAroundTrack.regionalExtremes'),
      ('local grid', 'wind/__init__.py WindfieldAroundTrack.localWindField, polarGridAroundEye; '
       'Utilities/maputils.py makeGrid'),
      ('several tracks, saving', 'wind/__init__.py WindfieldGenerator.calculateExtremesFromTrackfile, '
       'calculateExtremesFromTrack, dumpGustsFromTracks')],
     note='complete within bounds: 3 (4) time steps on up to 5 (6) grid positions, one step at any real position in '
          'regions of up to 2 (3) spacings anywhere on the globe, three (four) tracks; wind models arbitrary')

prop('C12', 'Return-period wind speeds are the quantiles of the fitted distribution',
     'The speed reported for a recurrence interval is the quantile of the distribution fitted to the record, or the '
     'value interpolated from the ranked record, counting every simulated year; a longer interval never gets a lower '
     'speed. The fitted distribution reproduces the L-moments of the record, and intervals and levels are '
     'inverse to each other. A record too short, without spread or without a usable fit gets the missing '
     'value and no speed.',
     ['inputs', 'configurations'],
     'all records of the stated lengths, all intervals, all fitted parameters; skewness over its whole range',
     'Tests compare one record for each distribution to recorded numbers within a few per cent; wrong weights for odd '
     'lengths, wrong branch of an approximation or a wrong block length remain within that tolerance or unvisited.',
     ['hazard/evd.py', 'hazard/GPD.py', 'Utilities/lmomentFit.py'],
     [('L-moments', 'Utilities/lmomentFit.py samlmu, samlmu3'),
      ('parameters', 'Utilities/lmomentFit.py pelgev, pelgpa'),
      ('levels', 'hazard/evd.py gevfit, gpdfit, empfit, powerfit; hazard/GPD.py gpdReturnLevel, '
       'gpdRecurrenceIntervals, gpdfit')],
     note='complete within bounds: records of 3..8 (12) values for the moments, 2..4 for the fits, real-valued data '
          'and intervals; reals instead of floats, stated tolerances; iterative branch below -0.8 skewness at 7 values')

prop('C13', 'The hazard of a grid cell is fitted from that cell\'s own wind record only',
     'Return-period speeds, distribution parameters and confidence limits of a grid cell depend only on the speeds of '
     'all wind field files at that cell: for block maxima the strongest of each simulated year (none counts as zero), '
     'otherwise every event. They are the same in whatever order the files are listed and whatever else lies in the '
     'folder. Cells never reached by wind get zero, and no confidence limits.',
     ['inputs', 'configurations', 'histories'],
     'arbitrary speeds in every file and cell, all assignments of events to years in the list, tiles anywhere in the '
     'grid, both listing orders, all patterns of years without wind',
     'Tests call the fit on one hand-made array; mixing of cells, years or files needs several of each and shows as '
     'plausible numbers in the wrong place.',
     ['hazard/__init__.py'],
     [('annual maxima', 'hazard/__init__.py aggregateWindFields, loadFilesFromPath, loadFile'),
      ('fit per cell', 'hazard/__init__.py calculateGEV, calculateGPD, calculateEMP, calculatePower'),
      ('confidence limits', 'hazard/__init__.py calculateCI')],
     note='complete within bounds: tiles of 1..2 cells, 3 files over 3 years, samples of 2..3 records (up to 9 records); '
          'the fits are arbitrary functions of record and settings')

prop('C14', 'Compiled wind, pressure and distance kernels agree with the Python code',
     'A simulation gives the same gradient wind, vorticity, boundary-layer wind, central pressure field, distances and '
     'bearings whether or not the compiled extension modules are present: for the same storm and grid both versions '
     'return the same value at every grid point, in arrays of the same shape.',
     ['inputs', 'configurations', 'programs'],
     'all storm parameters within their physical ranges in both hemispheres, all distances and directions of the grid '
     'point, all storm positions relative to the grid, with and without each compiled module',
     'Tests run with whichever version happens to be installed and compare it with stored numbers at a few points; the '
     'branches (core, outer region, fast storms, strong curvature, southern latitudes) multiply.',
     ['wind/windmodels.f90', 'wind/windmodels.py', 'Utilities/maputils.f90', 'Utilities/maputils.py',
      'PressureInterface/pressureProfile.f90', 'PressureInterface/pressureProfile.py'],
     [('compiled kernels', 'wind/windmodels.f90, Utilities/maputils.f90, PressureInterface/pressureProfile.f90'),
      ('gradient wind and vorticity', 'wind/windmodels.py HollandWindProfile'),
      ('boundary-layer wind', 'wind/windmodels.py KepertWindField.field'),
      ('distance and bearing grid', 'Utilities/maputils.py makeGrid'),
      ('pressure field', 'PressureInterface/pressureProfile.py PrsProfile')],
     level='translation_validation',
     technique='both versions executed symbolically from source (the Fortran source through a translator regenerated on '
               'each run) and compared as identities over rational functions and by z3; differences replayed on the '
               'compiled kernel and the unmodified Python code',
     note='complete for one or two grid points per profile, grids of up to 5 x 5 points for distances; arithmetic on reals '
          'with elementary functions as arbitrary functions')

prop('C15', 'Observed records: each statistic from one storm only, missing stays missing',
     'From an observed track database, every extracted bearing, speed, pressure, size, and rate of change is computed from '
     'consecutive records of the same storm; storms are separated wherever the identifier changes or the position jumps. '
     'First records, absent or impossible values, and rates with no elapsed time are marked missing, and nothing computed '
     'from a missing value is reported as an observation. Genesis positions, years and days count each storm exactly once.',
     ['inputs', 'configurations'],
     'all positions, pressures, wind speeds and radii; every division of the records into storms under each way of telling '
     'storms apart; each date format and unit system; regular, repeated and out-of-order times; every pattern of missing values',
     'A wrong mask shows only where a storm of a particular length is followed by another with particular values, or where '
     'a missing value sits next to a valid one; the tests run one small database through without checking each record.',
     ['DataProcess/DataProcess.py', 'Utilities/loadData.py', 'Utilities/metutils.py'],
     [('extraction of each quantity', 'DataProcess/DataProcess.py processData and _lonLat ... _juliandays'),
      ('start of storms', 'Utilities/loadData.py getInitialPositions'),
      ('dates and elapsed times', 'Utilities/loadData.py parseDates, getTimeDelta, julianDays'),
      ('unit conversion', 'Utilities/metutils.py convert')],
     level='model_checking',
     technique='symbolic execution of the whole extraction on databases of symbolic records, compared record by record '
               'with the definition by z3; counterexamples replayed on the unmodified code through a real CSV file',
     note='complete for 2-4 records (5 in the thorough tier) and the listed time patterns; reals for single precision')

prop('C16', 'Statistics of a cell come from its own smallest sufficient neighbourhood',
     'The statistics and distributions of a parameter in a grid cell are those of the valid observations in the cell, '
     'widened by the configured increment inside the region until there are more than the configured minimum and they are '
     'not all equal; land statistics use observations over land, water those over water, land falling back to water when '
     'the region has too few. Mean, spread (circular for bearings), lag-one autocorrelation, its complement and minimum '
     'are kept, saved and read back under the cell they belong to, each parameter paired with its own positions.',
     ['inputs', 'configurations'],
     'all positions and values of the observations, every pattern of land and missing values, every cell, minimum and '
     'widening increment of several grids',
     'Which observations count depends on edges, on ties and on how far the cell had to grow; the tests look at one data set '
     'with one grid, where an off-by-one in the widening changes a few numbers in the third digit.',
     ['StatInterface/generateStats.py', 'StatInterface/GenerateDistributions.py', 'StatInterface/StatInterface.py',
      'Utilities/stats.py'],
     [('observations of a cell', 'StatInterface/generateStats.py and GenerateDistributions.py extractParameter'),
      ('statistics of a cell', 'StatInterface/generateStats.py calculate, acf; Utilities/stats.py circmean, circstd'),
      ('keeping, saving and reading', 'StatInterface/generateStats.py calculateStatistics, save, load'),
      ('distributions of all cells', 'StatInterface/GenerateDistributions.py allDistributions'),
      ('parameters and positions', 'StatInterface/StatInterface.py calcCellStatistics, cdfCell...')],
     level='model_checking',
     technique='symbolic execution of the selection of observations with symbolic positions, values and land flags, and of '
               'the statistics; z3 compares with the definition; counterexamples replayed on the unmodified code',
     note='complete for 1-3 observations (4 in the thorough tier) on three small grids; kernel density estimates are arbitrary')

prop('C17', 'Random genesis points and initial values follow the estimated distributions',
     'A genesis point is drawn with the probability the estimated density gives it: the longitude by the share of its column, '
     'the latitude by its share within that column; an initial value is drawn with the probability its cell\'s distribution '
     'gives it. The density is estimated from the genesis points inside the region, at the places of the grid it is saved '
     'and read back with, and a distribution covers the range of its data, or exactly one period when the parameter is periodic.',
     ['inputs', 'configurations'],
     'all densities on the grid, zero columns included, all values and cumulative probabilities of a table, all uniform '
     'random numbers, all genesis points around the region',
     'A transposed or shifted density still gives plausible random points; statistical tests need many draws to notice, and '
     'the tests compare one grid with stored numbers.',
     ['StatInterface/SamplingOrigin.py', 'StatInterface/SamplingParameters.py', 'StatInterface/KDEOrigin.py',
      'StatInterface/KDEParameters.py', 'StatInterface/GenerateDistributions.py', 'TrackGenerator/TrackGenerator.py',
      'Utilities/stats.py', 'Utilities/grid.py'],
     [('drawing genesis points', 'StatInterface/SamplingOrigin.py ppf, generateOneSample, generateSamples, _calculateCDF'),
      ('drawing values', 'TrackGenerator/TrackGenerator.py ppf; StatInterface/SamplingParameters.py'),
      ('density of genesis', 'StatInterface/KDEOrigin.py generateKDE; Utilities/grid.py grdReadFromNetcdf'),
      ('distribution of a parameter', 'StatInterface/KDEParameters.py generateKDE; Utilities/stats.py cdf'),
      ('files of distributions', 'StatInterface/GenerateDistributions.py allDistributions; TrackGenerator/TrackGenerator.py '
       'loadInitialConditionDistributions')],
     level='model_checking',
     technique='symbolic execution of estimation, saving, reading and drawing with arbitrary densities and random numbers; '
               'z3 compares each draw with the share of the unit square it belongs to; replay on the unmodified code',
     note='complete for grids of up to 3 x 2 points (3 x 3 in the thorough tier) and tables of 3-4 (5) values; kernel '
          'estimates are arbitrary functions')
prop('C18', 'Gradient and surface wind: peak, balance, mirror image across the equator',
     'The gradient wind equals the maximum wind of its wind-pressure relation exactly at the radius of maximum wind, whether '
     'pressures are in hPa or Pa; outside, the Holland-type wind balances the pressure gradient and the earth\'s rotation, and '
     'inside it joins with the same slope and curvature; other profiles and the simple surface winds have their published '
     'form. A storm in one hemisphere is the mirror image of the same storm in the other: same speeds, opposite rotation, '
     'for the gradient wind and the surface wind. The surface wind field turns with the storm and its direction of motion.',
     ['inputs'],
     'all latitudes of 2-40 degrees, pressures, deficits of 5-120 hPa, radii of maximum wind of 5-100 km, shape parameters, '
     'distances, directions, speeds and directions of motion',
     'The tests compare one storm in the southern hemisphere with stored numbers: a sign or unit that matters only elsewhere, '
     'or a formula changed with its stored numbers, is not noticed.',
     ['wind/windmodels.py', 'PressureInterface/pressureProfile.py', 'Utilities/metutils.py'],
     [('maximum wind', 'wind/windmodels.py WindSpeedModel and its subclasses'),
      ('gradient wind', 'wind/windmodels.py velocity and vorticity of the profiles; firstDerivative, secondDerivative'),
      ('surface wind', 'wind/windmodels.py field of HubbertWindField, McConochieWindField, KepertWindField'),
      ('rotation of the earth', 'Utilities/metutils.py coriolis')],
     level='model_checking',
     technique='symbolic execution of the profile and field functions; equalities decided as identities of rational functions '
               'over square roots, powers and trigonometric terms, with z3 for branches and the rest; replay on the compiled '
               'and the Python path of the unmodified code',
     note='complete over the reals for one or two grid points; double Holland winds south of the equator and Rankine vorticity '
          'are known findings; vorticity formulas are compared with their mirror image only')
prop('C19', 'Evaluation statistics count what the tracks do',
     'Every step of a storm that crosses a meridian is counted once, in the band of the latitude where it crosses and under '
     'the direction it moves; every arrival on land and every departure is counted at the coastline gate it passes, wherever '
     'the coast begins and whichever way round it is given. Every storm position counts in the one cell it lies in, for the '
     'track density and for mean, lowest, highest and median pressure. The lowest pressure of a storm is taken from all its '
     'positions, and storms that begin outside the region are left out of the distribution.',
     ['inputs', 'configurations'],
     'all positions and pressures of the tracks; several coasts in both directions; several grids of gates and cells',
     'The evaluation modules have no tests; the geometry functions below them are tested with a few points only.',
     ['Evaluate/longitudeCrossing.py', 'Evaluate/landfallRates.py', 'Evaluate/trackDensity.py',
      'Evaluate/pressureDistribution.py', 'Utilities/Intersections.py', 'Utilities/track.py'],
     [('meridian crossings', 'Evaluate/longitudeCrossing.py findCrossings'),
      ('landfall', 'Evaluate/landfallRates.py processTracks'),
      ('point in polygon, crossing of lines', 'Utilities/Intersections.py inLand, LineLine'),
      ('density', 'Evaluate/trackDensity.py calculate'),
      ('pressures', 'Evaluate/pressureDistribution.py calculate, calcMinPressure; Utilities/track.py inRegion')],
     level='model_checking',
     technique='symbolic execution of the evaluation functions on tracks with arbitrary positions; z3 decides each crossing and '
               'compares counts with an oracle without division; replay on the unmodified code',
     note='complete for 1-2 steps per track, three or four coasts of 3-6 gates, 2 x 2 cells; positions exactly on a line are '
          'excluded')

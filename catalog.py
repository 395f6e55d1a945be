#!/usr/bin/env python3
"""The property catalogue: writes properties.jsonl and MANIFEST.json (run by hand after an edit)."""
import json
import os

V = os.path.dirname(os.path.abspath(__file__))
PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique, observe=(), note=""):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mech=mech, technique=technique, observe=list(observe), note=note))


G = 'py_gnome/gnome/'
L = 'py_gnome/lib_gnome/'

P('C01', 'The oil budget balances at every step of every weathering run',
  "At every step of a forward run with a weatherable oil, the mass on the remaining elements plus everything reported as "
  "evaporated, naturally dispersed, sedimented, off the map, skimmed, burned, chemically dispersed or observed beached equals the mass reported "
  "as released. Element and component masses are finite and never negative, an element's mass is the sum of its components, and no "
  "reported loss ever decreases or exceeds what was released.",
  ['inputs', 'configurations', 'histories'],
  "all sample oils, winds, water properties, maps (none, bounded, with land), spills, sets of weathering and cleanup processes, time steps and run lengths, with and without uncertainty",
  "The tests run single processes on fixed spills and mostly cannot be imported here; none sums the budget over whole runs with combined processes.",
  [G + 'model.py', G + 'spill_container.py', G + 'weatherers', G + 'ops/aggregated_data.py', G + 'maps/map.py'],
  [('mass_balance updates next to every mass removal', G + 'weatherers/*.py'), ('off_maps and beached accounting', G + 'maps/map.py'),
   ('fate views written back to the arrays', G + 'spill_container.py')],
  "property-based testing: generated whole-model runs against a conservation invariant", ['SpillContainer.mass_balance', "sc['mass']"])

P('C02', 'Rewinding or rebuilding a model reproduces the run exactly',
  "Running a model to the end, rewinding it at any step and running it again, or building a second model from the same description, "
  "yields bit-identical element arrays, times and mass balances at every step, uncertainty and random processes included. Neither other "
  "models run in between in the same process nor caching, outputters or the use of a full run instead of single steps change the result.",
  ['inputs', 'histories', 'configurations'],
  "all scenarios with transport, diffusion, windage, uncertainty, refloating, weathering and cleanup; all rewind points; all interleavings with another model's run; all sets of observers",
  "Reproducibility quantifies over hidden state left behind by any earlier history; tests compare at most one rerun of one fixed model.",
  [G + 'model.py', G + 'spills', G + 'spill_container.py', G + 'utilities/rand.py', G + 'movers', G + 'weatherers'],
  [('rewind() of model, spills, releases, outputters and cache', G + 'model.py'), ('random seeds reset on rewind', G + 'utilities/rand.py')],
  "property-based testing: differential runs (rewound, rebuilt, interleaved, observed) compared bit for bit", ['SpillContainer arrays', 'Model.model_time'])

P('C03', 'Releases put the right elements, mass and positions in at the right time',
  "By any model time the number of elements a spill has released is what its start, end and element count (total or per time step) "
  "prescribe, none appear before the release time and all are there at the end of the release. Their masses add up to the spilled amount "
  "in whatever mass or volume unit it was given, and every element starts on the point, along the line, in the polygon, on the grid or at the "
  "custom positions described, in the prescribed proportions. Impossible descriptions (ending before the start, negative amounts or "
  "counts, missing positions) are refused.",
  ['inputs', 'configurations'],
  "all release kinds, start and end times relative to the time steps, element counts, amounts and units, geometries, with and without uncertainty",
  "Release schedules are rounding-sensitive functions of start, duration, step and count; tests sample a few aligned combinations.",
  [G + 'spills/release.py', G + 'spills/spill.py', G + 'spills/le.py', G + 'spill_container.py'],
  [('release time series and ceil of the piecewise linear schedule', G + 'spills/release.py'), ('mass per element', G + 'spills/spill.py')],
  "property-based testing: generated releases against an independent schedule/geometry/mass model", ['SpillContainer.num_released', "sc['mass']", "sc['positions']"])

P('C04', 'Element arrays stay aligned and every element keeps its identity',
  "At every point of a run all per-element arrays have one entry per live element, with their declared types and shapes; every element has a unique id "
  "that is never reused, keeps its spill and initial mass, and ages by exactly one time step per step from its release. Only elements that left the map disappear; "
  "spills that are switched off release nothing; adding, removing, replacing or editing spills (edits take effect with the next rewind) leaves the forecast and the "
  "uncertain container with the same spills; splitting an element divides its mass and nothing else; refused splits or assignments change nothing.",
  ['inputs', 'histories', 'configurations'],
  "all runs with releases, beaching, removal and weathering; all edit histories of the spill collections; all splits and assignments",
  "Alignment is a global invariant over histories of appends, deletions and splits across dozens of arrays; tests check a few arrays once.",
  [G + 'spill_container.py', G + 'array_types.py', G + 'model.py', G + 'spills/spill.py'],
  [('_append_data_arrays / np.delete of removed elements', G + 'spill_container.py'), ('id and spill_num initial values', G + 'spill_container.py')],
  "property-based testing: invariants over generated runs, model-based edit histories", ['SpillContainer', "sc['id']", "sc['age']"])

P('C05', 'The model clock visits every time step exactly once',
  "A run has 1 + floor(duration / time step) steps at exactly start_time plus (for backward runs minus) a whole number of time steps, whether driven by step(), "
  "iteration or full_run(), and further steps are refused. Every mover and weatherer is applied once to each interval in order, weathering substeps "
  "partition the interval and backward runs do not weather. Changing the start, step, duration, direction, map or uncertainty, or rewinding, gives the same clock and "
  "elements as a model set up that way from the start.",
  ['inputs', 'histories', 'configurations'],
  "all start times, step lengths, durations (divisible or not), directions, substep counts and histories of steps, rewinds and setting changes",
  "Off-by-one, remainder and stale-state errors appear only for particular durations, substeps or histories.",
  [G + 'model.py'], [('_reset_num_time_steps, current_time_step setter, _split_into_substeps', G + 'model.py')],
  "property-based testing: generated runs and setting histories against a clock model, with recording processes", ['Model.step', 'Model.model_time', 'Model.num_time_steps'])

P('C06', 'Elements stay in the water or on the shore and leave only over the map edge',
  "After every step each live element is inside the map bounds at or below the surface and either afloat over water or beached on land; it never gets from one body "
  "of water to another through land. Beached elements stay put until refloated (never for a negative half-life, at once for zero, else with probability "
  "1 - 0.5**(dt/half-life)) from their last water position, next to the shore; elements released on land stay there. Elements leaving the map are removed in that step and "
  "their mass is added to off_maps; land, lakes, bounds and spillable area are those of the map file, with longitudes shifted as asked; elements on a dry tide flat do not move.",
  ['inputs', 'configurations', 'histories'],
  "all generated coasts, raster resolutions, bounds, half-lives, currents, winds and diffusion, with and without uncertainty",
  "Beaching depends on exact positions relative to rasterised shorelines; tests use a handful of fixed moves.",
  [G + 'maps/map.py', G + 'maps/tideflat_map.py', G + 'model.py', G + 'utilities/map_canvas.py', G + 'utilities/haz_files.py'],
  [('beach_elements / refloat_elements / _set_off_map_status', G + 'maps/map.py')],
  "property-based testing: invariants over generated runs along generated coasts; polygon and connectivity oracles", ["sc['status_codes']", "sc['positions']", "mass_balance"])

P('C07', 'The land check beaches exactly the moves that cross land',
  "For any land raster and any move between two pixels, the native land check beaches the element exactly if the straight path hits land: it never lets an element through land "
  "(not even diagonally or through thin lines), never ends a move on land unbeached, and never beaches in open water. The beached pixel is land on the path, the last water pixel is the "
  "water pixel just before it, elements already on land are left alone, and the layered and the plain check agree, also for moves starting or ending off the raster.",
  ['inputs'],
  "all rasters up to 60x60, layer ratios and moves inside, into, out of and across the raster",
  "The outcome depends on the pixel geometry of every move; the tests sample a few lines on one raster.",
  [G + 'cy_gnome/cy_land_check.pyx', G + 'maps/map.py'], [('c_find_first_pixel, check_land_layers', G + 'cy_gnome/cy_land_check.pyx')],
  "property-based testing: generated rasters and moves against connectivity and line oracles, differential layered/plain", ['check_land', 'check_land_layers', 'RasterMap.beach_elements'])

P('C08', 'Elements move exactly as winds, currents and constant movers prescribe',
  "A step's displacement is the sum of what each active mover would do alone: the current velocity, the element's windage times the interpolated wind, or the constant velocity, times the step, "
  "turned into degrees with the cosine of the latitude, in whatever units and direction convention it was given; only elements in the water move, and horizontal movers leave the depth alone. "
  "With uncertainty on, forecast elements move exactly as without it, and uncertain elements deviate only within the prescribed down- and cross-current or wind bounds, from the start time delay on and with persistent perturbations.",
  ['inputs', 'configurations', 'histories'],
  "all mover sets and orders, winds, currents, uniform and gridded, windages, depths, statuses, latitudes, time steps and directions, uncertainty settings",
  "Displacement is a product of unit, angle, latitude and interpolation arithmetic; tests compare a few values with stored ones.",
  [G + 'movers', G + 'cy_gnome', L + 'WindMover_c.cpp', L + 'SimpleMover_c.cpp', G + 'utilities/projections.py', G + 'model.py'],
  [('get_move of every mover and the sum in Model.move_elements', G + 'movers'), ('wind and current uncertainty', L)],
  "property-based testing: generated movers against an independent displacement model; metamorphic superposition and forecast invariance", ["get_move", "sc['positions']", "sc['next_positions']"])

P('C09', 'Inactive processes change nothing',
  "A mover, weatherer or cleanup that is off, switched off during the run, or outside its active range changes no element, no mass and no budget entry: the run is identical to one without it, "
  "random processes included. A process is active exactly in the steps whose midpoint lies within its active range (both ends included), and a cleanup removes mass only in steps overlapping it.",
  ['inputs', 'configurations', 'histories'],
  "all kinds of movers and weathering processes, active ranges before, after, inside and around the run, and on/off histories",
  "It is a claim about the absence of any effect on any array for every process and schedule; tests check a few flags.",
  [G + 'gnomeobject.py', G + 'movers', G + 'weatherers', G + 'model.py'], [('prepare_for_model_step sets _active', G + 'movers/movers.py'), ('array types only of processes that are on', G + 'model.py')],
  "property-based testing: differential runs with and without inactive processes, compared bit for bit; an activity model", ['Process.active', 'SpillContainer arrays', 'mass_balance'])

P('C10', 'Random diffusion spreads elements with the prescribed variance and no bias',
  "Horizontal diffusion moves every floating surface element by bounded, unbiased, uncorrelated displacements with variance 2 D dt per axis (uncertain elements with D times the uncertain factor), and elements that are not floating not at all. "
  "Three-dimensional diffusion uses the coefficients for above or below the mixed layer according to the element's depth, never puts an element out of the water, reflects it at the surface, and leaves surface elements alone when the surface is allowed; over a run the cloud's variance grows as 2 D t and its centre only follows the currents.",
  ['inputs', 'configurations', 'histories'],
  "all diffusion coefficients, layer depths, time steps, element depths and uncertainty factors",
  "Statistical laws need many generated elements; the tests check a few deterministic values.",
  [G + 'movers/random_movers.py', L + 'Random_c.cpp', L + 'RandomVertical_c.cpp', G + 'cy_gnome/cy_random_mover.pyx'],
  [('sqrt(6 D dt) uniform steps', L + 'Random_c.cpp'), ('reflection at the surface and mixed layer', L + 'RandomVertical_c.cpp')],
  "property-based testing: generated ensembles against moment bounds with error probability below 1e-9 per case", ['get_move'])

P('C11', 'Windage stays in its range and keeps its persistence',
  "An element's windage is drawn from its substance's windage range at release and never changes when the persistence is negative, zero or longer than 15 minutes. With a shorter persistence every active wind mover redraws it each step, "
  "independently for each element, around the range's mean with the range widened or narrowed by sqrt(persistence / time step). Forecast and uncertain elements follow the same law.",
  ['inputs', 'configurations', 'histories'],
  "all windage ranges, persistences, time steps and mixes of spills",
  "It ranges over random draws, time steps and histories of releases.",
  [G + 'spills/substance.py', G + 'movers/wind_movers.py', G + 'utilities/rand.py'], [('random_with_persistance', G + 'utilities/rand.py')],
  "property-based testing: invariants and moment bounds over generated runs and draws", ["sc['windages']"])

P('C14', 'An OrderedCollection is an ordered list of distinct objects',
  "After any history of additions, removals, replacements, updates and clears, an OrderedCollection holds exactly the objects a list would, in the same order and without duplicates, "
  "reachable by the same index, slice and id, and its callbacks have been called once per change with the object concerned. Invalid objects, ids, indices and updates are refused and change nothing.",
  ['histories', 'inputs'],
  "all operation histories over objects with ids, without ids, or comparing equal",
  "Removed objects leave holes internally, so index, slice and replacement errors need particular histories.",
  [G + 'utilities/orderedcollection.py'], [('_d_index and the holes in _elems', G + 'utilities/orderedcollection.py')],
  "property-based testing: model-based operation histories against a Python list", ['OrderedCollection'])

P('C17', 'A wind gives back the series it was given, in between and in any unit',
  "A wind's velocity at any time is the straight-line interpolation, in its east and north components, of the records it was given, whatever units and format (speed and direction or components) "
  "they were given in and are asked for in: exactly the record at a record's time, constant for a single record, an error outside the records unless extrapolation is allowed, when the nearest record counts. "
  "Records entered, edited, read from an OSSM-style wind file or written to one and read again give the same wind, with the file's station, coordinates, units and time zone; records out of order or invalid files are refused. "
  "Other environment series (temperatures, currents) interpolate alike, and a running average of a wind is the mean of its speeds over the past hours.",
  ['inputs', 'histories', 'configurations'],
  "all series, units, formats, query times, edits, wind file variants and uncertainty scales",
  "Interpolation, unit and format conversion and file parsing are done twice, in Python and in C++, over an unbounded space of series and file texts; the wind tests cannot be imported here.",
  [G + 'environment/wind.py', G + 'utilities/timeseries.py', G + 'cy_gnome/cy_ossm_time.pyx', L + 'OSSMTimeValue_c.cpp', G + 'environment/running_average.py', G + 'environment/timeseries_objects_base.py'],
  [('GetTimeValue interpolation and clamping', L + 'OSSMTimeValue_c.cpp'), ('unit and coordinate conversion on set and get', G + 'utilities/timeseries.py'),
   ('ReadTimeValues', L + 'OSSMTimeValue_c.cpp')],
  "property-based testing: generated series, edits and file texts against an independent reference interpolation", ['Wind.get_value', 'Wind.at', 'Wind.timeseries'])

P('C13', "Saving, loading, serializing and updating preserve objects and models",
  "A model or any of its objects that is saved (to a file, zip, folder or memory), serialized to JSON or copied comes back equal: the same settings, names, data-file contents "
  "(also when two data files have the same name), the same sharing of objects between movers, weatherers and environment, and a loaded model runs the same run (up to the eight digits "
  "oil data are written with). Saving in the middle of a run neither changes the rest of the run nor leaves files behind. Updating a model with an edited description of itself applies "
  "the edits, keeps everything that was not edited, keeps the identity of its objects and takes over their order; updating with its own description changes nothing.",
  ['inputs', 'configurations', 'histories'],
  "all object kinds, settings, names, save formats, models, points in a run and edits of a description",
  "About forty classes have their own schemas; the tests that cover them cannot be imported here and use one instance each.",
  [G + 'persist/base_schema.py', G + 'gnomeobject.py', G + 'model.py', G + 'persist/extend_colander.py'],
  [('ObjType save/load/serialize and references', G + 'persist/base_schema.py'), ('update_from_dict, equality', G + 'gnomeobject.py'), ('model updates and mid-run saves', G + 'model.py')],
  "property-based testing: round trips of generated objects and models compared with the generated settings and with the run of the original", ['save', 'load', 'serialize', 'deserialize', 'update_from_dict'])

P('C15', "The element cache gives back every step exactly as it was",
  "For every history of steps, rewinds, switching the cache or the uncertainty on and off and reading steps back, loading a cached step returns exactly the element arrays (values, types and shapes), "
  "mass balance, time and uncertain counterpart the model had after that step. A step that was not cached (never run, run while the cache was off and no longer the latest, or before a rewind) raises CacheError. "
  "Neither changing what was loaded, nor later changes of the live elements, nor another model or cache in the process changes what is cached.",
  ['histories', 'inputs'],
  "all interleavings of stepping, loading, rewinding and reconfiguring; all element data and step numbers",
  "Every outputter reads elements from the cache only, so a stale or aliased step silently shows in every output; tests load one or two steps in order.",
  [G + 'utilities/cache.py', G + 'model.py'],
  [('ElementCache.save_timestep / load_timestep / rewind', G + 'utilities/cache.py'), ('Model.step saving each step', G + 'model.py')],
  "stateful property-based testing: generated operation histories against a dictionary model of the cache", ['ElementCache.load_timestep', 'CacheError'])

P('C16', "Outputs are written on schedule and hold the elements of their step",
  "Every outputter writes at exactly the steps its schedule asks for: on or off, zero step, last step, every given interval from its start time on, single step, forward and backward in time, in a second run after a rewind as in the first, "
  "and after the run from the cache. What the netCDF, geojson, kmz, shapefile, binary, spill-json and weathering outputs and the oil budget table hold is the data of that step's elements: count, positions, depth, mass, age, status, spill, time and "
  "mass balance, for forecast and uncertain elements separately. Adding outputs does not change the run.",
  ['inputs', 'configurations', 'histories'],
  "all output schedules, output kinds and options, and runs",
  "The product of schedule options, direction and output kinds is large, and the outputter tests cannot be imported here.",
  [G + 'outputters/outputter.py', G + 'outputters/netcdf.py', G + 'outputters/geo_json.py', G + 'outputters/shape.py', G + 'outputters/kmz.py', G + 'outputters/binary.py', G + 'outputters/weathering.py'],
  [('Outputter._write_step scheduling', G + 'outputters/outputter.py'), ('NetCDFOutput', G + 'outputters/netcdf.py'), ('ShapeOutput', G + 'outputters/shape.py')],
  "property-based testing: generated runs and schedules; files are read back and compared with a reference schedule and with the model's elements", ['write_output', 'write_output_post_run', 'output files'])

P('C19', "Projections and vector conversions invert each other",
  "For every box, image size and point, a map projection is the affine map its name says (equal degrees, longitude scaled by the cosine of the middle latitude, or a given regular or rectangular grid): the box fits in the image, is centred and fills it "
  "in one direction, north is up; to_lonlat undoes to_pixel, the centre of a pixel lies in that pixel, depth is ignored and the arguments are left unchanged. Metres and degrees, distance and bearing on the sphere, and speed/direction and (u, v) of winds "
  "(blowing from) and currents (going to) convert back to what they were; directions outside 0-360 and negative speeds are refused.",
  ['inputs'],
  "all boxes, image sizes, points, pixels, displacements and vectors",
  "Each is an identity over all real inputs, with half-open pixels and in-place arithmetic that sampled values rarely separate.",
  [G + 'utilities/projections.py', G + 'utilities/transforms.py', G + 'utilities/convert.py'],
  [('set_scale / to_pixel / to_lonlat', G + 'utilities/projections.py'), ('r_theta_to_uv and back', G + 'utilities/transforms.py')],
  "property-based testing: round trips and an independent affine reference over generated boxes, sizes, points and vectors", ['to_pixel', 'to_lonlat', 'meters_to_lonlat', 'geodesic_sphere', 'uv_to_r_theta_wind'])

P('C12', 'Floating oil weathers by the documented equations, element by element',
  "In every weathering step, evaporation, natural dispersion (with its sedimentation), emulsification, gravity-viscous spreading and "
  "Langmuir thinning change each floating element by what their published equations give from that element's own mass, composition, "
  "age, area and water content and the wind, wave and water values of that moment, then density and viscosity follow the new "
  "composition, water content and temperature; other elements are left alone. More wind, warmer water or a larger area never "
  "makes less evaporate, splitting a spill into two changes no total, and half-life weathering loses exactly the fraction its half-lives give.",
  ['inputs', 'configurations', 'histories'],
  "all sample oils, spills of different age and size, winds, water temperatures, salinities and sediment loads, wave heights, time steps and run lengths",
  "The tests compare a few totals of fixed runs with stored numbers; no test recomputes the equations for every element and step of arbitrary runs.",
  [G + 'weatherers', G + 'ops/density.py', G + 'ops/viscosity.py', G + 'ops/aggregated_data.py', L + 'Weatherers_c.cpp', G + 'utilities/weathering'],
  [('weather_elements of every process', G + 'weatherers/*.py'), ('native dispersion and emulsification', L + 'Weatherers_c.cpp'),
   ('recalc_density / recalc_viscosity', G + 'ops/*.py')],
  "property-based testing: generated runs compared call by call with an independent reference of the equations, and metamorphic pairs of runs",
  ['sc arrays before and after weather_elements', 'mass_balance'])

P('C20', "Times convert exactly and runs do not depend on the machine's time zone",
  "Dates convert to the seconds the native code uses and back without change, in every time zone of the machine and in the hours around its clock changes; "
  "time zone offsets of any number of minutes are kept and applied exactly, and giving a release or a wind another known offset moves its times by the difference; infinite times compare, parse and serialize as later (or "
  "earlier) than every date; rounding times to an interval gives the nearest multiple and leaves its argument alone. A run gives the same result in any time zone of the machine.",
  ['inputs', 'configurations'],
  "all dates from 1970 on, time zones with and without daylight saving, offsets, intervals and small models",
  "Tests run in one time zone at fixed dates; the defects are in single hours of the year of particular zones.",
  [G + 'utilities/time_utils.py', G + 'utilities/inf_datetime.py', G + 'persist/extend_colander.py', L + 'StringFunctions.cpp'],
  [('date_to_sec / sec_to_date', G + 'utilities/time_utils.py'), ('DateToSeconds / SecondsToDate', L + 'StringFunctions.cpp'),
   ('InfDateTime', G + 'utilities/inf_datetime.py'), ('LocalDateTime', G + 'persist/extend_colander.py')],
  "property-based testing: round trips, an independent calendar reference and runs compared between machine time zones", ['date_to_sec', 'sec_to_date', 'TZOffset', 'InfDateTime', 'round_time'])

P('C21', 'Polygons, boxes and coast files keep and locate their points',
  "A point is in a polygon exactly if a ray from it crosses the boundary an odd number of times, whatever the direction or start of the "
  "boundary; a point on an edge shared by two polygons is in exactly one of them. Bounding boxes contain exactly their points, and merge, "
  "overlap and inside tests agree with that. A set of polygons gives back every polygon it was given, with its metadata, sliced, copied, saved or read from a coast (BNA) file. "
  "Triangles that a polygon is split into cover it: their areas add up and points drawn from them lie inside it. No function changes the arrays passed to it.",
  ['inputs'],
  "all polygons (concave, closed or not, with holes), points on and off their edges, boxes, sets of polygons and coast files",
  "Whether a point on or near an edge is inside is decided by exact comparisons that sampled points do not hit.",
  [G + 'utilities/geometry', G + 'utilities/file_tools/haz_files.py'],
  [('points_in_poly', G + 'utilities/geometry/cy_point_in_polygon.pyx'), ('BBox', G + 'utilities/geometry/BBox.py'),
   ('PolygonSet', G + 'utilities/geometry/polygons.py'), ('ReadBNA', G + 'utilities/file_tools/haz_files.py')],
  "property-based testing: exact rational parity reference, list models and round trips over generated polygons and files", ['points_in_poly', 'BBox', 'PolygonSet', 'ReadBNA'])

P('C22', 'Drawn element properties follow their distributions and droplets rise',
  "Values drawn from a uniform, normal, lognormal or (truncated) Weibull distribution are within its bounds and distributed as its "
  "parameters say, the same for the same seed; bounds that leave nothing are refused. Elements of a subsurface release get a droplet size or rise "
  "velocity from the given distribution once, at release, and keep it; a droplet rises by Stokes' law below 0.2 mm, by form drag above 10 mm and "
  "by a curve joining them in between, for the density of its own oil, and every step lifts an element by its rise velocity times the step, never above the surface. A "
  "plume releases at each depth the whole elements its flux has filled, however the time is split.",
  ['inputs', 'configurations', 'histories'],
  "all distribution parameters, sample sizes and seeds, droplet sizes and densities, subsurface releases, oils, time steps and plume fluxes",
  "Tests draw one sample and look at its length or a loose range; none compares distributions, or follows elements through a run.",
  [G + 'utilities/distributions.py', G + 'spills/initializers.py', G + 'spills/release.py', G + 'movers/vertical_movers.py', G + 'utilities/plume.py', L + 'RiseVelocity_c.cpp'],
  [('set_values of every distribution', G + 'utilities/distributions.py'), ('GetRiseVelocity', L + 'RiseVelocity_c.cpp'),
   ('InitRiseVelFromDropletSizeFromDist', G + 'spills/initializers.py'), ('PlumeGenerator', G + 'utilities/plume.py')],
  "property-based testing: bounds and Kolmogorov distance of generated draws, independent rise velocity and depth reference over generated runs",
  ['set_values', "sc['rise_vel']", "sc['droplet_diameter']", 'elems_in_range'])

P('C23', 'Oil, water and wave properties follow the measurements and units given',
  "An oil's density and viscosity at any temperature are the ones measured, interpolated between and extrapolated beyond the measurements as documented, never depending on the order "
  "in which they were given, one by one or as arrays; vapor pressures follow the boiling points; all of them follow the measurements when these are edited. A water "
  "object gives back, in any unit, the temperature, salinity, sediment load, wave height and fetch that were set in any unit, and its density and viscosity follow from them; wave height, period and "
  "whitecap fraction follow the wind and fetch by the published formulas, and a wave height that was given overrides them.",
  ['inputs', 'histories'],
  "all measurement sets, temperatures, units, edits, winds, fetches and wave heights",
  "Tests look up a few numbers of fixed oils; the caches, unit conversions and edits in between are histories nobody samples.",
  [G + 'spills/gnome_oil.py', G + 'environment/water.py', G + 'environment/waves.py', G + 'utilities/weathering'],
  [('density_at_temp / kvis_at_temp / vapor_pressure', G + 'spills/gnome_oil.py'), ('Water.get / set', G + 'environment/water.py'),
   ('Waves.get_value', G + 'environment/waves.py'), ('Adios2 and Lehr-Simecek formulas', G + 'utilities/weathering/*.py')],
  "property-based testing: independent reference formulas, unit round trips and edit histories", ['density_at_temp', 'kvis_at_temp', 'vapor_pressure', 'Water.get', 'Waves.get_value'])

P('C24', 'Cleanup removes what it was asked to, when it is active, and no more',
  "Skimming, burning, dispersant and manual beaching remove from the oil, in every step, exactly their rate times the time they are active within that "
  "step (wherever in a step they start or end, and however many weathering substeps it has), in whatever units the amount was given, times their "
  "efficiency, the same fraction from every element and component concerned; never more than the oil that is there, nothing outside "
  "their active range, and what is removed is what the mass balance reports.",
  ['inputs', 'configurations', 'histories'],
  "all amounts, units, efficiencies, areas, thicknesses, time ranges within and across steps, spills, oils, other weathering processes and substeps",
  "Tests start and stop cleanup on step boundaries with one substep; ranges within a step and substeps are never run.",
  [G + 'weatherers/cleanup.py', G + 'weatherers/manual_beaching.py'],
  [('_set__timestep', G + 'weatherers/cleanup.py'), ('weather_elements of Skimmer, Burn, ChemicalDispersion', G + 'weatherers/cleanup.py'),
   ('_remove_mass', G + 'weatherers/manual_beaching.py')],
  "property-based testing: generated cleanup runs compared step by step with an exact reference", ["mass_balance", "sc['mass']"])

P('C18', 'Predicted tides are those of the harmonic constituents in the file',
  "A tide read from a file of harmonic constituents has, at every moment of every year there is data for, the height (progressive waves), the rate of rise or fall between the "
  "high and low waters around (standing waves), or the current (up to the fit between slack and strongest current) that its constituents, their amplitudes and phases, node factors and datum "
  "give, with the corrections of a secondary station, the scale factor and daylight saving time applied; whatever was asked before. A tide read from a series of values "
  "interpolates them. Files that do not have the expected lines are refused.",
  ['inputs', 'histories'],
  "all sets of constituents of realistic proportions, datums, station corrections, years, moments and orders in which they are asked for",
  "Tests compare a handful of values of one station with stored output; the prediction is made in windows of days and kept, so results depend on what was asked before.",
  [L + 'ShioTimeValue_c.cpp', L + 'ShioHeight.cpp', L + 'ShioCurrent1.cpp', L + 'ShioCurrent2.cpp', G + 'environment/tide.py', G + 'cy_gnome/cy_shio_time.pyx'],
  [('GetTimeValue', L + 'ShioTimeValue_c.cpp'), ('RStatHeight, DoOffSetCorrection', L + 'ShioHeight.cpp'), ('GetTideCurrent', L + 'ShioCurrent1.cpp')],
  "property-based testing: independent harmonic reference over generated tide files and query histories", ['Tide', 'CyShioTime.get_time_value'])

P('C25', 'Grid file currents and winds move elements by the velocities in the files',
  "Movers that read currents or winds from gridded files (regular, curvilinear, triangular, or current patterns) move every floating element by the velocity the file gives at its place, depth "
  "and time, in the file's units, interpolated in time between the data times, scaled and shifted in time as set, and by nothing outside the grid, below the deepest level, on land or in holes of "
  "the data; data spread over several files give the same as one file; outside the time of the data they extrapolate if allowed and refuse otherwise; and the result "
  "depends only on place and time, never on which times or places were asked for before. A pattern is scaled to the value at its reference point and by its tide, or, for two "
  "patterns driven by a wind, by that wind (its speed or its stress, now or averaged over the past) along each pattern's direction.",
  ['inputs', 'configurations', 'histories'],
  "all grids, masks, depth levels, data times, splits into files, units, scale factors, time offsets, element places, time steps and query orders",
  "Tests use a few downloaded files and mostly only check that something moved; most need the network and do not run. Which data are loaded depends on the history of calls.",
  [G + 'movers/c_current_movers.py', G + 'movers/c_wind_movers.py', L + 'TimeGridVel_c.cpp', L + 'TimeGridWind_c.cpp', L + 'GridCurrentMover_c.cpp', L + 'GridWindMover_c.cpp', L + 'CATSMover_c.cpp', L + 'ComponentMover_c.cpp'],
  [('GetScaledPatValue, SetInterval, CheckInterval', L + 'TimeGridVel_c.cpp'), ('get_move', G + 'movers/c_current_movers.py'), ('ComputeVelocityScale', L + 'CATSMover_c.cpp')],
  "property-based testing: generated grid files and query histories compared with an independent reference interpolation", ['get_move'])

P('C26', 'Surface concentrations, hulls and contours describe the elements they come from',
  "The surface concentration of every element is the density that the elements of its own spill, of its age group and younger, spread as a kernel estimate in metres weighted by their masses, "
  "sum to at that element: finite, never negative, independent of other spills and of the order of the elements. The hull of a set of elements holds all of them, has only elements as corners, "
  "stays within the convex hull, and is made for each spill, for all, or united, as asked; contours hold exactly the elements of the spill between the cutoffs. None of these changes the elements.",
  ['inputs', 'configurations'],
  "all element sets (any number of spills and elements, coincident or collinear places, zero and unequal masses, any ages), hull ratios, splits in containers, cutoffs and parameters",
  "Tests compute these for one or two hand-made clouds; degenerate clouds and several spills are where the grouping and the weights go wrong.",
  [G + 'utilities/surface_concentration.py', G + 'utilities/hull.py'],
  [('compute_surface_concentration, surface_conc_kde', G + 'utilities/surface_concentration.py'), ('calculate_hull, calculate_contours', G + 'utilities/hull.py')],
  "property-based testing: generated element clouds against an independent kernel density estimate and geometric invariants", ['compute_surface_concentration', 'calculate_hull', 'calculate_contours'])

P('C27', 'A model holds, finds, merges and checks exactly what was put into it',
  "Whatever sequence of edits is made to a model's spills, the forecast and the uncertainty containers hold the same spills in the same order, each once. Element data asked of a model by name and by "
  "conditions on their values are those of exactly the elements whose values fulfil the conditions. Objects looked up by id, class, attribute or reference name are exactly those put in; winds, waves and "
  "waters of added processes are in the environment once. Merging another model adds everything of it not there yet, once and after the own objects, changes neither the settings nor the other model, "
  "and the merged model runs like one put together directly. The check before a run reports exactly the spills off the map, on land, too early or late and the missing wind or water; a set-up it calls invalid does not start.",
  ['inputs', 'histories', 'configurations'],
  "all histories of adding, removing, replacing, switching and updating spills with the uncertainty on or off; all conditions over the element data of runs; all pairs of models with own and shared objects; all placements in space and time of spills relative to model and map, forward and backward",
  "Tests add one or two objects and query one fixed run; the pairing of containers, duplicates and boundary values of conditions only go wrong in particular histories.",
  [G + 'model.py', G + 'spill_container.py', G + 'utilities/orderedcollection.py'],
  [('get_spill_data, find_by_class, find_by_attr, merge, check_inputs, _callback_add_*', G + 'model.py'), ('SpillContainerPair add, remove, replace', G + 'spill_container.py')],
  "property-based testing: generated edit histories and pairs of models against a reference list, a reference filter and a directly built model", ['Model.spills', 'Model.get_spill_data', 'Model.merge', 'Model.check_inputs'])


P('C28', 'Save archives are checked, extracted in place and upgraded from old versions',
  "Extracting an archive writes exactly its members, by their own names without characters that are not allowed in file names, into the given folder and nowhere else, whatever paths its members have "
  "(absolute, '..', folders, one top-level folder); descriptions that name renamed files are adapted. The check of an uploaded archive accepts exactly those that are whole, with every checksum right, "
  "no description larger and no member compressed more than allowed, and no '..' in a name. A model saved by an older version (1 to 4) loads as the model that was saved: the same objects in the same order "
  "under their new class names, the same windage, the same sharing, and it runs the same run; loading can be repeated and leaves the working directory alone.",
  ['inputs', 'configurations'],
  "all member names and contents, limits and damage; all combinations of movers, weatherers, substances and releases in the file formats of versions 1 to 5, as folder or archive",
  "Tests extract and load a few stored files; unusual member names, limits hit exactly, damage and combinations of old objects are not among them.",
  [G + 'persist/save_load.py', G + 'utilities/save_updater.py', G + 'gnomeobject.py'],
  [('is_savezip_valid, extract_zipfile', G + 'persist/save_load.py'), ('extract_zipfile, update_savefile, v1tov2 .. v4tov5', G + 'utilities/save_updater.py'), ('load', G + 'gnomeobject.py')],
  "property-based testing: generated archives against a reference list of files inside a nested scratch folder; generated damage and limits against an independent decision; models written back to older formats and loaded (round trip)",
  ['extract_zipfile', 'is_savezip_valid', 'Model.load'])


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as fd:
        for p in PROPS:
            if not have(p['id']):
                continue
            assert len(p['title']) <= 80, p['title']
            fd.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                            'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
    m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [], 'not_applicable': [],
         'notes': "Every check builds the native code of /repo's working tree (content-hash keyed, in /verif/.build) and imports "
                  "the Python code straight from /repo. VERIF_SEED fixes every random choice."}
    for p in PROPS:
        if have(p['id']):
            m['checks'].append({'property': p['id'], 'quick_cmd': './check.sh ' + p['id'],
                                'thorough_cmd': './check.sh %s --thorough' % p['id'], 'technique': p['technique'], 'level': 'exploration',
                                'level_note': p['note'] or "generated-input search with an explicit oracle: finds violations within the "
                                "generated domain, never proves absence; trusts the gridded stand-in and the oracle's arithmetic tolerances"})
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as fd:
        json.dump(m, fd, indent=1)
        fd.write('\n')


def have(i):
    return os.path.exists(os.path.join(V, 'vlib', 'props', i.lower() + '.py'))


if __name__ == '__main__':
    main()

"""Writes properties.jsonl (source of the property list; run by hand after editing)."""
import json
from pathlib import Path

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, title
    P.append(dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe)),
    ))


OA = "openamundsen/"

prop("C01", "The snow mass balance closes in every pixel and time step",
     "In every pixel and time step, with either snow model and any of its options, the change of the "
     "water stored in the snowpack (ice plus liquid water of all layers, which is also the reported "
     "snow water equivalent) equals snowfall plus rainfall minus runoff minus sublimation. No water is "
     "created, lost or turned into an undefined value by accumulation, compaction, melt, refreezing, "
     "drainage or re-layering. Ice alone changes only by snowfall, melt, refreezing and sublimation as reported.",
     ["inputs", "histories", "configurations"],
     "all weather histories (snow, rain on snow, frost, melt-out), both snow models with all melt "
     "methods, layer set-ups and parameters, time steps of 1 h to 1 d",
     "the test suite has no passing test which runs a snow model; its snow tests need data files which "
     "are not available offline, and sample single scenarios",
     [OA + "modules/snow/multilayermodel.py", OA + "modules/snow/cryolayermodel.py",
      OA + "modules/snow/snow.py", OA + "surface.py"],
     [("layer-wise melt, drainage, refreezing and relayering", OA + "modules/snow/multilayermodel.py"),
      ("cryo layer melt, transitions and drainage", OA + "modules/snow/cryolayermodel.py")],
     ["state variables snow.* and meteo.* after every step"])

prop("C02", "Every reachable snowpack state is physically valid and self-consistent",
     "After every time step layer thickness, ice, liquid water and cold content are finite and not "
     "negative, liquid water stays within the configured holding capacity, snow is never warmer than the "
     "melting point and snow albedo stays within its configured limits. Layer count, depth, density and "
     "snow water equivalent are consistent with the layers, the layers are contiguous with their nominal "
     "thicknesses, and melt, runoff and sublimation never exceed what was available.",
     ["inputs", "histories", "configurations"],
     "all weather histories and snow model configurations as in C01",
     "tests reach a handful of states; the invariants must hold for every reachable state",
     [OA + "modules/snow/multilayermodel.py", OA + "modules/snow/cryolayermodel.py",
      OA + "modules/snow/snow.py"],
     [("relayering", OA + "modules/snow/multilayermodel.py"),
      ("layer transitions", OA + "modules/snow/cryolayermodel.py"),
      ("albedo and liquid water limits", OA + "modules/snow/snow.py")])

prop("C03", "Canopy interception conserves snow and leaves open areas untouched",
     "In forest pixels intercepted snow changes only by interception, sublimation and melt unloading, "
     "what reaches the ground is snowfall minus interception plus unloaded melt, the load respects the "
     "storage capacity and never becomes negative or undefined, also across gaps in the weather data; the amounts follow the "
     "documented interception and sublimation laws. "
     "Radiation, wind, humidity and temperature below the canopy follow from the weather above it and "
     "the effective leaf area index, and pixels outside forests get exactly the weather they would get "
     "without the canopy model.",
     ["inputs", "histories", "configurations"],
     "all land cover maps, leaf area courses, weather histories with or without gaps, canopy parameters",
     "the canopy tests need data which are not available; interception is history-dependent",
     [OA + "modules/canopy/canopy.py"],
     [("interception, sublimation, unloading", OA + "modules/canopy/canopy.py"),
      ("sub-canopy meteorology", OA + "modules/canopy/canopy.py")])

prop("C04", "Evapotranspiration and soil water follow the FAO-56 water balance",
     "For every land cover class, soil type and weather history, reference and crop evapotranspiration, "
     "evaporation, transpiration, water stress, percolation and the root zone, surface layer and "
     "interception storages equal those of the FAO-56 (single/dual crop coefficient) water balance. "
     "Storages never leave their bounds, no more water evaporates than is there, nothing evaporates "
     "from snow-covered ground, and missing weather data never corrupt the storages.",
     ["inputs", "histories", "configurations"],
     "all land cover parameter sets (single, dual, sparse, sealed, water), soils, dates, weather",
     "the daily storages depend on the whole history; tests sample a few classes and need missing data",
     [OA + "modules/evapotranspiration/evapotranspiration.py"],
     [("crop coefficients, stress and soil water balance",
       OA + "modules/evapotranspiration/evapotranspiration.py")])

prop("C05", "Station data are interpolated exactly, in bounds and with the set trend",
     "Every interpolated field is the inverse-distance-squared weighting of the stations reporting the "
     "variable at that time, applied to values with the configured elevation trend (fixed, fractional, "
     "regression, adjustment factor, none) removed and added back: a station's own pixel centre gets its "
     "value moved to the pixel's elevation, and without trend fields stay within the station range. "
     "Results respect physical limits (and the station range if extrapolation is disabled), do not depend "
     "on the order of the stations or on stations without data, and are zero for precipitation and "
     "undefined for other variables if no station reports.",
     ["inputs", "configurations"],
     "all station networks, missing-value patterns, monthly lapse rates, trend methods, terrains",
     "the interpolation tests of the suite sample fixed networks, and most of them cannot run",
     [OA + "meteo/interpolation.py", OA + "interpolation.py"],
     [("detrend - IDW - retrend - clip", OA + "meteo/interpolation.py"),
      ("IDW kernel", OA + "interpolation.py")])

prop("C06", "Meteo input files are read, filtered and resampled without distortion",
     "For CSV and NetCDF station files, every time step of the requested period gets, per station, the "
     "recorded instantaneous value or the mean over the preceding interval (as configured), while "
     "precipitation is always the sum, gusts the maximum and wind direction the vector mean over it; "
     "values outside filter ranges and missing records become missing, and nothing outside the requested "
     "period leaks in. The same data given as CSV, as NetCDF (precipitation as sums or rates) or in memory "
     "yield the same forcing.",
     ["inputs", "configurations"],
     "all record lengths and frequencies, start/end dates, target time steps, missing values, filters, formats",
     "tests cover single frequencies on a fixed data set which is unavailable offline",
     [OA + "fileio/meteo.py", OA + "forcing.py"],
     [("slicing and resampling", OA + "fileio/meteo.py"), ("point datasets", OA + "forcing.py")])

prop("C07", "Exactly the requested stations are used, at their true place in the grid",
     "The stations used are those inside the configured bounds, minus the excluded ones, plus the "
     "explicitly included ones, each once and with its own data. Each is mapped to the grid cell which "
     "contains it, it counts as inside grid or region of interest exactly if that cell does, and extending "
     "the region of interest with stations adds exactly the cells of stations inside the grid.",
     ["inputs", "configurations"],
     "all station networks (inside/outside/at cell borders), bounds, include/exclude lists, regions of interest",
     "combinatorial rule interplay; the tests use one station network",
     [OA + "fileio/meteo.py", OA + "forcing.py", OA + "model.py"],
     [("station rules", OA + "fileio/meteo.py"), ("grid mapping", OA + "forcing.py")])

prop("C08", "Gridded outputs contain exactly the simulated fields and aggregates",
     "Every gridded output field (NetCDF, ASCII, GeoTIFF or in-memory) holds, for each requested output "
     "date or interval, exactly the simulated values of the variable, or their sum or mean over exactly "
     "the time steps of the interval (aggregates being undefined outside the region of interest). Neither the "
     "format, layout, compression nor other requested outputs change the values or dates, and the outputs "
     "for a time step are complete once it has been processed.",
     ["inputs", "histories", "configurations"],
     "all variables, frequencies, date lists, aggregations, formats, layouts, run lengths and time steps",
     "the gridded output tests sample fixed frequencies and need unavailable data",
     [OA + "fileio/griddedoutput.py", OA + "util.py"],
     [("write dates and aggregation", OA + "fileio/griddedoutput.py")])

prop("C09", "Point outputs contain exactly the simulated values of every time step",
     "Every point output (stations and user-defined points; NetCDF, CSV or in-memory) contains for each "
     "time step of the run exactly the value(s) the variable had in the point's grid cell at the end of "
     "that step, in order, without gaps or duplicates. The result does not depend on the output format "
     "or on how often results are flushed to disk, and points outside the grid or duplicate names are "
     "rejected.",
     ["inputs", "histories", "configurations"],
     "all point sets, variables (incl. layered ones), write frequencies, formats, run lengths, time steps",
     "flushing interplays with run length and time step; the tests sample a few and need unavailable data",
     [OA + "fileio/pointoutput.py"],
     [("buffering and flushing", OA + "fileio/pointoutput.py")])

prop("C10", "Configurations are validated, completed and merged faithfully",
     "A configuration is accepted exactly if it is well-formed: unknown keys, wrong types, values outside "
     "the allowed sets, incompatible dates, time steps, coordinate systems or model combinations are "
     "rejected with a configuration error. Every accepted value is used unchanged, everything not given "
     "gets the documented default, the caller's object is not modified, and land cover classes combine "
     "user parameters with the defaults of that class only.",
     ["inputs", "configurations"],
     "all configuration trees",
     "the configuration space is combinatorial; tests check a few keys",
     [OA + "conf.py", OA + "data/configschema.yml", OA + "data/land_cover_class_params.yml"],
     [("schema validation and merging", OA + "conf.py")])

prop("C11", "Results are confined to the region of interest and independent of it",
     "Nothing develops outside the region of interest (no weather, snow, soil or flux values appear or "
     "change there), whatever values are stored there do not influence the results, and the result of a pixel depends "
     "only on its own inputs, apart from the documented domain averages: simulating a subset of the "
     "pixels, adding rows and columns of unused pixels or padding the grid gives the same values in the "
     "common pixels.",
     ["inputs", "histories", "configurations"],
     "all region masks, terrains, weather fields and model configurations",
     "tests never compare runs with different regions",
     [OA + "model.py", OA + "statevars.py", OA + "modules/snow/multilayermodel.py", OA + "surface.py"],
     [("ROI masks and indices", OA + "statevars.py"), ("per-pixel kernels", OA + "modules/snow")])

prop("C12", "Runs are reproducible and independent of how they are executed",
     "The same configuration and inputs always give bit-identical results: on repetition, with any number "
     "of threads, stepping manually or running at once, with or without resetting state variables each "
     "step, whatever outputs are written, and with other model instances being run in the same process "
     "in any interleaving. Input data passed in are not modified, and a finished run refuses to continue.",
     ["schedules", "histories", "configurations"],
     "all interleavings of model instances, thread counts, execution modes, output configurations",
     "tests run every scenario once, in one mode",
     [OA + "model.py", OA + "statevars.py", OA + "interpolation.py", OA + "modules/snow/multilayermodel.py"],
     [("run loop", OA + "model.py"), ("parallel kernels", OA + "interpolation.py")])

prop("C13", "Precipitation phase and undercatch correction are exact and conservative",
     "Precipitation is split into rain and snow by the configured temperature with a linear transition "
     "between the two thresholds, the parts are non-negative and sum up to the total, and the no-snow-below-"
     "rain option removes snow exactly below the highest rain pixel. Gauge correction multiplies each "
     "station's precipitation by the documented function of wind speed and temperature (WMO: solid and mixed "
     "precipitation only), applies constant factors and redistribution factors exactly, and leaves "
     "everything else unchanged.",
     ["inputs", "configurations"],
     "all temperatures, humidities, thresholds, ranges, gauges, wind speeds and missing-value patterns",
     "tests evaluate the phase function for few values and cannot run the correction tests",
     [OA + "meteo/atmosphere.py", OA + "meteo/precipcorr.py", OA + "model.py"],
     [("phase partitioning", OA + "model.py"), ("gauge correction", OA + "meteo/precipcorr.py")])

prop("C14", "Clear-sky radiation obeys solar geometry, shading and energy limits",
     "Potential radiation is zero at night, never negative, never exceeds the extraterrestrial irradiance "
     "and its direct part vanishes in cast shadow and on slopes facing away from the sun, otherwise being "
     "proportional to the cosine of the incidence angle. Sun position follows from date, longitude, "
     "latitude and time zone (expressing the same instant in another time zone changes nothing), and a "
     "cell is shaded exactly if higher terrain along the ray towards the sun blocks it.",
     ["inputs", "configurations"],
     "all dates, places, time zones, terrains, atmospheres",
     "tests check sun positions for a few dates and no radiation values",
     [OA + "modules/radiation/clearsky.py", OA + "modules/radiation/shadows.py",
      OA + "modules/radiation/sunparams.py", OA + "modules/radiation/irradiance.py"],
     [("clear-sky model", OA + "modules/radiation/clearsky.py"),
      ("shadow casting", OA + "modules/radiation/shadows.py")])

prop("C15", "Terrain parameters describe the terrain",
     "For every elevation model slope and aspect are those of the Horn gradient, surface normals are "
     "upward unit vectors perpendicular to the terrain and the sky view factor lies between 0 and 1, is "
     "highest on open ground and is lowered by surrounding terrain. All of them are independent of a "
     "constant elevation offset, follow the terrain when it is mirrored or rotated, and curvature and "
     "openness agree with their definitions.",
     ["inputs"],
     "all elevation models and resolutions",
     "tests check slope and aspect on fixed planes",
     [OA + "terrain.py"],
     [("slope/aspect, normals, SVF, curvature, openness", OA + "terrain.py")])

prop("C16", "Heat conduction in snow and soil conserves energy and never overshoots",
     "In every time step the heat gained by the layers of a soil or snow column equals the time "
     "integral of the flux at its top minus that at its bottom, temperatures relax monotonically without "
     "new extremes when no heat is supplied, and a column in equilibrium stays there. Soil water "
     "is split into frozen and unfrozen parts conserving its total, all unfrozen above the freezing point.",
     ["inputs", "histories"],
     "all layer set-ups, conductivities, temperatures, fluxes and time steps",
     "tests check the linear solver for one system only",
     [OA + "heatconduction.py", OA + "tridiag.py", OA + "modules/soil/soil.py",
      OA + "modules/snow/multilayermodel.py"],
     [("implicit solver", OA + "heatconduction.py"), ("soil properties", OA + "modules/soil/soil.py")])

prop("C17", "The surface energy balance is consistent and drives melt and sublimation",
     "In every pixel and time step the reported net radiation is the sum of its components, outgoing "
     "radiation follows from albedo and surface temperature, and sensible, latent and advective heat fluxes "
     "follow from the reported weather and surface state by the bulk formulas. Snow surfaces are never "
     "above the melting point, melt equals the energy surplus at the melting point divided by the latent "
     "heat of fusion (with temperature-index methods: the degree-day formula), and sublimation "
     "equals the moisture flux.",
     ["inputs", "histories", "configurations"],
     "all weather histories, snow models, melt methods, measurement heights, stability options",
     "no existing test runs the energy balance offline",
     [OA + "surface.py", OA + "modules/snow/snow.py", OA + "modules/snow/cryolayermodel.py"],
     [("energy balance", OA + "surface.py"), ("temperature index", OA + "modules/snow/snow.py")])

prop("C18", "Derived atmospheric variables satisfy their defining relations",
     "For every elevation, temperature and humidity the derived fields (pressure, vapour pressures, "
     "specific and absolute humidity, dew point, wet-bulb temperature, psychrometric constant, air density, "
     "latent heat, wind components) satisfy their defining equations, and functions documented as "
     "inverses invert each other. Dew point and wet-bulb temperature do not exceed air temperature "
     "at or below saturation, and all of them are monotonic in the documented sense.",
     ["inputs"],
     "all physically meaningful elevations, temperatures, humidities, winds, as scalars and arrays",
     "tests compare few tabulated values",
     [OA + "meteo/atmosphere.py", OA + "model.py"],
     [("thermodynamic functions", OA + "meteo/atmosphere.py")])

prop("C19", "Glacier geometry updates conserve ice and stay in the glacier",
     "When glacier geometry is updated, each glacier's total ice mass is unchanged apart from the mass "
     "balance it accounts for, ice never becomes negative, thickness changes follow the elevation-dependent "
     "pattern of the glacier's size class, and pixels which do not belong to the glacier keep their ice. "
     "The mass balance runs from the configured start month to the end of the configured end month, and "
     "updates happen only then.",
     ["inputs", "histories"],
     "all glacier masks, terrains, ice and mass balance fields, dates",
     "there is no offline test of the glacier model",
     [OA + "modules/glacier/glaciermodel.py"],
     [("delta-h parameterisation", OA + "modules/glacier/glaciermodel.py")])

prop("C20", "The time axis is complete and time-step properties are right",
     "A run processes exactly the dates from start to end date in steps of the time step, each once and in "
     "order; an end date given without time includes the whole last day. First/last-of-day/month/year/"
     "run flags (also the strict ones) are true exactly on the respective steps for every start, end and "
     "time step, including leap days and year changes.",
     ["inputs", "histories", "configurations"],
     "all start/end dates, time steps and run lengths",
     "tests check selected dates",
     [OA + "model.py", OA + "conf.py", OA + "util.py"],
     [("date range", OA + "model.py"), ("timestep_props", OA + "model.py")])

prop("C21", "Raster files round-trip and mismatching input grids are rejected",
     "Rasters written by the model are read back with the same values (to the stated precision), "
     "georeference and missing values; every input raster ends up in the right cells with missing values "
     "replaced as documented. Input grids which differ from the elevation model in size, resolution or "
     "position are rejected, pixels with missing elevation never take part, and an extended elevation "
     "model is used exactly where it covers the grid.",
     ["inputs", "configurations"],
     "all grid sizes, values, missing-value patterns, formats and misalignments",
     "tests use one raster",
     [OA + "fileio/raster.py", OA + "model.py", OA + "statevars.py"],
     [("raster I/O", OA + "fileio/raster.py"), ("input grids", OA + "model.py")])

prop("C22", "Cloudiness and longwave radiation follow the chosen method and stay bounded",
     "Cloud factor and cloud fraction stay between 0 and 1 and correspond to each other; cloudiness comes "
     "from the configured source (measured radiation relative to clear sky, humidity, prescribed or "
     "carried on from the previous step, computed by the user's function), falling back only as documented, and global radiation is "
     "clear-sky radiation times the cloud factor. Incoming longwave radiation is the sum of clear-sky, "
     "cloud and terrain emission, increases with cloudiness and temperature and never exceeds "
     "black-body limits.",
     ["inputs", "histories", "configurations"],
     "all station records with gaps, day/night sequences, methods and fallbacks, terrains",
     "method selection depends on data availability at each step; the tests need unavailable data",
     [OA + "modules/radiation/irradiance.py", OA + "meteo/atmosphere.py"],
     [("cloudiness selection", OA + "modules/radiation/irradiance.py"),
      ("longwave balance", OA + "modules/radiation/irradiance.py")])

prop("C23", "State variables keep their identity, type, shape and metadata over a run",
     "Every state variable is available under its name, keeps dtype, dimensions and metadata, and starts with its "
     "type's missing value. Resetting clears exactly the variables which are not marked as retained "
     "(others keep their values bit by bit), and clearing transient variables before every step never "
     "changes the results of a simulation.",
     ["inputs", "histories", "configurations"],
     "all sequences of variable registrations, writes and resets; all model configurations",
     "tests do not cover resets of full model states",
     [OA + "statevars.py"],
     [("StateVariableContainer", OA + "statevars.py")])

prop("C24", "Leaf area index follows the configured growing season",
     "On every day and in every pixel the leaf area index is the class minimum outside the growing "
     "season, rises and falls linearly over the configured stages and stays at the maximum in between, "
     "for seasons with one or several growing cycles, and the effective index adds the class constant. Pixels "
     "without a leaf area description or outside the region of interest have none, and the land cover map "
     "itself never changes.",
     ["inputs", "histories", "configurations"],
     "all growing seasons (zero-length stages, several cycles, year changes), land cover maps, dates",
     "tests sample one class",
     [OA + "landcover.py"],
     [("LAI stages", OA + "landcover.py")])

prop("C25", "Gaps in the forcing data never corrupt the simulation",
     "Whatever variables are missing at whatever stations and times, the run continues and the retained "
     "snow, soil, canopy and glacier states stay finite; after the gap the simulation continues from a valid state. A pixel "
     "whose air temperature is undefined neither gains nor loses snow except by rain (which precipitation of unknown phase counts as), "
     "drainage and melt by the heat of the ground; other pixels, and the weather of other time steps, are not "
     "affected by the gap.",
     ["inputs", "histories", "fault_sequences"],
     "all patterns of missing values in station records and all model configurations",
     "tests use gap-free records",
     [OA + "meteo/interpolation.py", OA + "surface.py", OA + "modules/snow/snow.py", OA + "model.py"],
     [("NaN handling", OA + "surface.py"), ("missing station data", OA + "meteo/interpolation.py")])

prop("C26", "Snow albedo, density and layer classes evolve by the configured laws",
     "In every pixel and time step snow albedo decays exponentially towards its configured minimum with the time scale for "
     "cold or melting snow and is refreshed by snowfall as configured; fresh snow has the density given by the wet-bulb temperature, "
     "snow layers compact by the chosen scheme, and melt and sublimation take snow from the top at constant density. "
     "Multilayer snow is redistributed to its nominal layers without moving ice; cryo layers turn into old snow, firn and ice exactly when the "
     "configured density or month is reached, merging by mass-weighted means.",
     ["inputs", "histories", "configurations"],
     "all weather histories, albedo, compaction and transition parameters, time steps, season changes within a run",
     "no test which can run offline simulates a snow cover",
     [OA + "modules/snow/snow.py", OA + "modules/snow/cryolayermodel.py", OA + "modules/snow/multilayermodel.py"],
     [("albedo, compaction, fresh snow density", OA + "modules/snow/snow.py"), ("layer transitions", OA + "modules/snow/cryolayermodel.py")])

prop("C27", "Compiled kernels compute what their source says, whatever the threads",
     "Every numba-compiled function the model calls (snow layers, snow compaction, soil, heat conduction and its linear solver, "
     "station interpolation, terrain parameters, shadows) returns and leaves in its arguments what its Python source defines, never reads or writes outside its arrays, "
     "and gives the same results for every number of threads and in every repetition, also on grids large "
     "enough that pixels are really processed concurrently.",
     ["inputs", "schedules", "configurations"],
     "all states and grids a simulation can reach, all thread counts and schedules",
     "the tests only use the compiled functions on small grids: races, out-of-bounds accesses and differences between compiled and "
     "interpreted execution stay invisible",
     [OA + "modules/snow/multilayermodel.py", OA + "modules/snow/snow.py", OA + "modules/radiation/shadows.py", OA + "modules/soil/soil.py", OA + "interpolation.py",
      OA + "terrain.py", OA + "heatconduction.py", OA + "tridiag.py"],
     [("parallel loops over pixels", OA + "modules/snow/multilayermodel.py"), ("parallel loops over cells", OA + "terrain.py"),
      ("compiled solvers", OA + "heatconduction.py")])

prop("C28", "Unused features have no influence and no result depends on the future",
     "Settings of methods and modules which are not selected, land cover classes, input grids, stations without data and "
     "variables which are not used never change a result; switching on a module (evapotranspiration, canopy, glaciers) changes "
     "nothing but what it models. The results up to any time step depend only on the inputs up to that step, not on later weather "
     "or the length of the period.",
     ["inputs", "histories", "configurations"],
     "all combinations of used and unused settings and modules, weather histories and split points",
     "tests run single configurations and never compare two of them over the whole model state",
     [OA + "model.py", OA + "conf.py", OA + "meteo/interpolation.py", OA + "modules/evapotranspiration/evapotranspiration.py"],
     [("module selection and order of the submodels", OA + "model.py"), ("reading of input grids and stations", OA + "model.py")])

prop("C29", "A run is determined by its configuration and inputs, however it is started",
     "Running the command line program with a configuration file, or the model with the same configuration as a dictionary, "
     "read from YAML, written and read again, already completed by an earlier run, with other spellings of dates and time steps or with relative paths "
     "gives the same output files and states bit by bit; weather data read from NetCDF files and passed in memory are equivalent. "
     "Output of earlier runs in the results directory has no influence and is replaced, and the configuration passed in is not modified.",
     ["inputs", "configurations"],
     "all configurations, spellings, input formats and output requests",
     "the command line program is not tested, and tests never compare runs started in different ways",
     [OA + "cli.py", OA + "conf.py", OA + "fileio/meteo.py", OA + "model.py"],
     [("command line program", OA + "cli.py"), ("configuration", OA + "conf.py"), ("input data", OA + "fileio/meteo.py")])

out = Path(__file__).resolve().parents[1] / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P))

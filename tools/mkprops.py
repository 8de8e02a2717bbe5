import json
P=[]
def add(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    P.append(d)
S="src/momlevel/"
CL="Every split of the inputs into blocks, every order in which a cluster runs the tasks, and every sequence of worker losses, transient task failures, duplicated or repeated tasks and slow workers."
CLW="The tests only use small in-memory arrays: no test ever builds a chunked input, so no chunk layout, task order or worker fault is exercised at all."
add("C01","Steric sea level is the same on a faulty cluster as in memory",
"Local and global steric, thermosteric and halosteric sea level (with the reference state they return, supplied or derived, with or without annual averaging) computed from inputs held in blocks on a cluster give the same values, missing-value pattern, dimensions, coordinates, data types and metadata as the same call on the same data held in memory. This holds for every block layout of every input, every task order, and any worker loss, task retry, duplicated task or slow worker; once faults stop the computation finishes.",
["schedules","configurations","fault_sequences","inputs"],CL,CLW,
[S+"steric.py",S+"reference.py",S+"derived.py",S+"util.py"],
[("steric() builds its result with block-aware xarray operations only",S+"steric.py:steric"),("reference state from one time level",S+"reference.py:setup_reference_state"),("density applied blockwise with dask='allowed'",S+"derived.py:calc_rho"),("mass and volume sums over all non-time dimensions",S+"derived.py:calc_masso"),("partial bottom cells",S+"derived.py:calc_dz")],
observe=["the returned result and reference datasets after .compute()"])
add("C02","Derived ocean fields are the same on a faulty cluster as in memory",
"Density, potential density, expansion and contraction coefficients, buoyancy frequency and its negative-value adjustment, stability angle, wave speed, Rossby radius, layer thickness, ocean mass/volume/mean density, relative and potential vorticity, Coriolis, spiciness, the inverse barometer and the reference state give, for block-stored inputs, the same values, missing-value pattern, dimensions, coordinates, data types and metadata as for the same data in memory. This holds for every block layout (for fields differentiated in depth: every layout with depth blocks long enough to differentiate; on symmetric grids: every layout not split horizontally), every task order, and any worker loss, retry, duplicated task or slow worker.",
["schedules","configurations","fault_sequences","inputs"],CL,CLW,
[S+"derived.py",S+"dynamic.py",S+"reference.py",S+"eos/wright.py",S+"eos/linear.py",S+"spice/flament.py"],
[("apply_ufunc with dask='allowed'",S+"derived.py:calc_rho/calc_alpha/calc_beta/calc_spice"),("vertical differencing and forward fill across blocks",S+"derived.py:calc_n2/adjust_negative_n2/calc_stability_angle"),("xgcm differences and interpolation across blocks",S+"derived.py:calc_rel_vort/calc_pv"),("inverse barometer",S+"dynamic.py:inverse_barometer")])
add("C03","Time averages and climatologies are the same on a cluster as in memory",
"Annual averages, monthly averages and annual-cycle climatologies (mean, std, min, max) of block-stored arrays or datasets give the same values, missing-value pattern, time axis, dimensions, variables and metadata as the same call on the same data in memory. This holds for every block layout, including block boundaries that cut through months and years, every task order, and any worker loss, retry, duplicated task or slow worker.",
["schedules","configurations","fault_sequences","inputs"],CL,CLW,
[S+"util.py"],[("group by year, weight by days in month, concatenate",S+"util.py:annual_average"),("group by month",S+"util.py:annual_cycle"),("group by year and month",S+"util.py:monthly_average")])
add("C04","Linear trends and detrending are the same on a cluster as in memory",
"Linear trend slopes and intercepts, fitted lines broadcast along time, and linearly detrended arrays or datasets (either mode) give for block-stored inputs the same values, missing-value pattern, dimensions, coordinates, units and metadata (apart from the free-text comment that embeds a printout of the coefficients) as the same call on the same data in memory. This holds for every block layout, including blocks that split the time axis, every task order, and any worker loss, retry, duplicated task or slow worker; and the trend found for one grid point is the one found for that point's series alone.",
["schedules","configurations","fault_sequences","inputs"],CL,CLW,
[S+"trend.py",S+"util.py"],[("polyfit over the whole time axis",S+"trend.py:calc_linear_trend"),("fitted line",S+"trend.py:broadcast_trend"),("detrend per variable",S+"trend.py:_detrend_array/linear_detrend")])
add("C05","Seasonal fits are the same on a cluster as in memory and local to each point",
"Removing or returning the trend-plus-seasonal-cycle fit (residuals, model and coefficients, from both seasonal routines) gives for block-stored inputs the same values, dimensions, coordinates, labels and metadata as for the same data in memory. This holds for every block layout, including ones that split the time axis, every task order (tasks may also run concurrently in threads of one worker or in separate worker processes), and any worker loss, retry, duplicated task or slow worker; and the fit at one grid point is the one obtained from that point's series alone.",
["schedules","configurations","fault_sequences","inputs"],CL,CLW+" The block-parallel seasonal routine has no test of any kind.",
[S+"trend.py"],[("rechunk time to one block before fitting",S+"trend.py:deseason"),("per-block fit",S+"trend.py:_detrend_deseason_chunk/seasonal_cycle_model"),("lazy map over blocks",S+"trend.py:_detrend_deseason_lazy"),("whole-array seasonal fit",S+"trend.py:seasonal_model")])
add("C06","Tide-gauge extraction is the same from block storage as from memory",
"Extracting tide-gauge locations from a field, with grid coordinates and wet mask also held in block or lazily read storage, returns the same stations, in the same order, with the same series, coordinates and station metadata as from the same data in memory. This holds for every block layout, every task order, and any worker loss, retry, duplicated task or slow worker.",
["schedules","configurations","fault_sequences","inputs"],CL,CLW,
[S+"tidegauge.py",S+"util.py"],[("coordinates and mask to a table of grid points",S+"tidegauge.py:extract_tidegauge"),("nearest valid point",S+"util.py:geolocate_points"),("per-station selection",S+"tidegauge.py:extract_point")])
add("C07","Building a result from block-stored data reads no time-varying data",
"Except for spiciness, every routine given block-stored fields returns a deferred result without reading a single block of any time-varying field: it succeeds even if the storage holding those fields is unavailable until evaluation. Evaluating one time step of a steric, thermosteric, halosteric or density result, or one year of annual averages, reads only the blocks that hold that step (or year) and, for sea level, the reference time level.",
["configurations","fault_sequences","inputs"],"Every routine, option and block layout, with the storage of time-varying fields failing at every read during construction.",
"No test uses deferred inputs, so nothing observes when or what is read.",
[S+"steric.py",S+"derived.py",S+"trend.py",S+"util.py",S+"reference.py",S+"tidegauge.py"],
[("no .load()/.values/bool() on time-varying fields",S+"steric.py:steric, "+S+"derived.py"),("keep_lazy",S+"trend.py:deseason"),("validation touches only 2-D static fields",S+"util.py:validate_dataset")])
add("C08","A failed storage read never turns into data",
"If reading any part of any input from storage fails while a routine runs or its deferred result is evaluated, the caller gets an exception: never a result with wrong, missing, zero-filled or default values, and never a silently skipped check, station, variable or time step. When storage recovers, repeating the call or the evaluation on the same objects gives exactly the result of a run without faults.",
["fault_sequences","inputs","configurations"],"Every input variable (fields, static fields, coordinates, masks), every read that the routine performs, every kind of read error, single and repeated, for deferred and for lazily indexed inputs.",
"No test makes a read fail; all inputs are in memory.",
[S+"steric.py",S+"derived.py",S+"util.py",S+"trend.py",S+"tidegauge.py",S+"reference.py",S+"dynamic.py"],
[("validation collects only its own assertion errors",S+"util.py:validate_dataset"),("no blanket exception handlers",S+"*.py")])
add("C09","A call that fails part-way leaves no trace",
"If any operation a routine relies on fails while it runs (out of memory, an I/O error, or the user interrupting it), the failure reaches the caller, the caller's input objects (values, metadata, encoding, order of variables) are exactly as before, and process-wide settings (random state, floating-point error handling, library and interpreter options, warning filters, working directory, environment) are as before, with no file left behind. Repeating the call then gives the same result as if the failure had never happened.",
["crash_points","fault_sequences","inputs"],"Every call that the package makes into a library during every public routine, failing in each of several ways, once or repeatedly, followed by retry.",
"Tests only check completed calls and a few argument errors; none injects a failure inside a call.",
[S+"steric.py",S+"derived.py",S+"util.py",S+"trend.py",S+"tidegauge.py",S+"reference.py",S+"dynamic.py",S+"test_data/__init__.py"],
[("inputs are copied or renamed, not edited in place",S+"util.py:geolocate_points, "+S+"steric.py:steric"),("attributes are copied before editing",S+"trend.py:deseason/calc_linear_trend")])
add("C10","Concurrent calls from several threads do not affect each other",
"When several threads call the package's routines at the same time, on shared or separate inputs, with the same or different options, each call returns exactly what it returns when it runs alone in a fresh process, whatever the interleaving. The shared inputs are unchanged afterwards.",
["schedules","inputs","histories"],"Every interleaving of the package's own steps of two or more concurrent calls of any public routines, including two calls that differ only in values, in one option or in metadata.",
"The tests are single-threaded.",
[S+"steric.py",S+"derived.py",S+"util.py",S+"trend.py",S+"tidegauge.py",S+"eos/wright.py",S+"eos/linear.py",S+"spice/flament.py"],
[("no mutable module state, no scratch buffers, no process-wide settings changed during a call",S+"*.py")],
[("module globals","constants only",S+"eos/*.py, "+S+"spice/flament.py")])
add("C11","Calls depend only on their arguments and never alter them",
"After any sequence of calls to the package's routines, every call returns what it returns as the first call in a fresh process, earlier results keep their values, and the inputs (values, metadata, encoding, order of variables) are unchanged. This holds however inputs of earlier calls resembled later ones (same shape, names, dates or file path but different content or options), and whatever else the program did in between (random numbers drawn, objects freed, clock changes, working directory changes), on whatever day, machine or environment the process runs; resetting the encoding of an object and appending grid fields to a dataset, whose purpose is to edit the object, are the only exceptions to leaving inputs alone.",
["histories","inputs"],"Every sequence of public calls over similar-but-different inputs, with the surrounding program state changing between calls.",
"Each test calls one routine once on a fixed dataset and checks a sum; no test compares inputs before and after or repeats a call with a look-alike input.",
[S+"steric.py",S+"derived.py",S+"util.py",S+"trend.py",S+"tidegauge.py",S+"reference.py",S+"dynamic.py"],
[("results are assembled in new objects",S+"steric.py:steric"),("data frames are copied",S+"util.py:geolocate_points"),("metadata copied before editing",S+"trend.py:deseason")])
add("C12","Results do not depend on the interpreter's hash seed",
"The same call on the same data in different interpreter processes, whatever their hash randomisation, returns bit-identical results: the same variables in the same order, the same values, attributes and station order, and the same error text or printed report when the input is rejected.",
["configurations","inputs"],"Every public routine, every interpreter hash seed.",
"The suite runs with one fixed hash seed and never looks at variable order.",
[S+"util.py",S+"derived.py",S+"steric.py",S+"trend.py",S+"tidegauge.py"],
[("ordered iteration over variables",S+"util.py:annual_average/annual_cycle/monthly_average"),("sorted report of missing variables",S+"util.py:validate_dataset, "+S+"derived.py:calc_rel_vort")])
add("C13","Synthetic datasets are a pure function of their arguments",
"Each synthetic-data generator returns, for given arguments, bit-identical data in every process, thread interleaving and call history, whatever the state of any global random generator, and leaves global random generators untouched. Different seeds give different random fields, and editing a returned dataset never changes one generated before or after.",
["schedules","histories","inputs","configurations"],"Every generator and argument combination, every interleaving of concurrent generator calls with other random-number users, every call history.",
"Tests hash single calls with default arguments in one thread.",
[S+"test_data/__init__.py",S+"test_data/time.py",S+"test_data/tripolar/horizontal.py",S+"test_data/tripolar/vertical.py"],
[("local generator seeded per field",S+"test_data/__init__.py:generate_test_data*"),("local generator for areas and depths",S+"test_data/tripolar/*.py")])
add("C14","The station list is read whole and fresh, or the call fails",
"Extracting tide gauges with a user-supplied station file uses exactly the stations of one version of that file as it exists during the call: if the file is missing, vanishes, is unreadable, fails while being read or has a row that is not a station the call raises, and it never falls back to another list, a partial list or the content of an earlier call. If the file is atomically replaced while the call runs the result is entirely that of the old or of the new version; short reads and the order of its columns make no difference, and the built-in lists do not depend on the working directory.",
["fault_sequences","schedules","histories","inputs"],"Every point of the call at which the file is removed, replaced or starts failing, every split of the data into short reads, and every history of earlier calls on the same path.",
"The tests only use the built-in US list on a healthy file system.",
[S+"tidegauge.py",S+"util.py"],[("existence check, then one read of the whole file per call",S+"tidegauge.py:extract_tidegauge")])
add("C15","Piecewise, restartable processing assembles the same result",
"Splitting a computation into pieces (time segments for sea level against one saved reference state, density and other pointwise fields, tide-gauge extraction; whole years for monthly and annual averages; horizontal tiles for trends and seasonal fits), processing the pieces in any order in separate processes that may be killed at any point and restarted, with only saved netCDF files surviving, assembles the same result as one uninterrupted pass. In particular every result and reference state can be saved to netCDF and reading it back loses nothing beyond the stated output precision.",
["crash_points","fault_sequences","histories","inputs","configurations"],"Every split, order of pieces, crash point inside or between pieces, failed or torn write, and restart.",
"No test saves, reloads or splits anything; one test passes an in-memory reference state.",
[S+"steric.py",S+"reference.py",S+"util.py",S+"trend.py",S+"tidegauge.py",S+"derived.py"],
[("reference state is a plain dataset accepted back by the sea level routines",S+"reference.py:setup_reference_state, "+S+"steric.py:steric"),("output encoding",S+"steric.py:steric"),("plain, storable attributes",S+"*.py")])
add("C16","Deferred results built together do not mix",
"Several deferred results may be built before any of them is evaluated and then be evaluated one by one, together, repeatedly, partially or in other worker processes, in any order and with intermediate results of earlier evaluations kept on the cluster. Each gives what it gives when it is the only result ever built, whatever other calls (on look-alike inputs or with other options) happened between its construction and its evaluation.",
["histories","schedules","configurations","fault_sequences","inputs"],"Every set of deferred results over similar inputs, every order of construction and evaluation, every assignment of tasks to worker processes with no memory of the client, every set of kept intermediate results.",
"No test evaluates a deferred result.",
[S+"trend.py",S+"steric.py",S+"derived.py",S+"util.py"],
[("task names derived from all inputs by dask; everything a task needs is passed in the task",S+"trend.py:_detrend_deseason_lazy"),("no module state read at evaluation time",S+"*.py")])
PURE="Pure function of its input; "
def na(id,title,statement,why,files,mech):
    add(id,title,statement,["inputs"],"Every valid input.",why,files,mech)
na("C20","Equation-of-state derivatives and coefficients are mutually consistent","For each equation of state the density derivatives are the derivatives of the density, and the expansion/contraction coefficients are those derivatives divided by density, for every temperature, salinity and pressure.","Tests check a few points.",[S+"eos/wright.py",S+"eos/linear.py"],[("closed formulas",S+"eos/*.py")])
na("C21","Sea level change follows its definition","Local sea level change is minus the thickness-weighted density change over the reference density, global change is reference height times the log density ratio, both vanish at the reference time level, and thermosteric/halosteric hold salinity/temperature at the reference.","Tests check sums on one random dataset.",[S+"steric.py"],[("formula",S+"steric.py:steric")])
na("C22","Layer thicknesses fill the water column exactly","Layer thicknesses are non-negative, never exceed the nominal layer, vanish below the sea floor, and sum to the water depth within the requested depth range.","Tests check sums on one dataset.",[S+"derived.py"],[("partial cells",S+"derived.py:calc_dz")])
na("C23","Tide gauges map to the nearest valid ocean point","Each returned station is mapped to the great-circle-nearest unmasked grid point, its distance is that distance, and stations beyond the threshold are dropped.","One regional dataset is tested.",[S+"util.py",S+"tidegauge.py"],[("ball tree with haversine metric",S+"util.py:geolocate_points")])
na("C24","Averages weight months and days as the calendar does","Annual means weight each month by its length in the data's calendar, monthly means use each calendar month's days, and time labels are period midpoints, for every calendar and year.","Tests cover two calendars and compare sums.",[S+"util.py"],[("days_in_month weights",S+"util.py:annual_average")])
na("C25","Detrending removes exactly the least-squares line","The detrended series has zero least-squares slope, detrending twice changes nothing, slopes convert consistently between time units, and line plus residual restore the data.","Tests compare sums.",[S+"trend.py"],[("polyfit",S+"trend.py:calc_linear_trend")])
na("C26","Invalid datasets are rejected and valid ones accepted","Validation rejects a dataset exactly when a required variable is missing, a rank is wrong or the ocean area is out of range (only a warning if not strict).","Tests cover eight cases.",[S+"util.py"],[("validate_dataset",S+"util.py:validate_dataset")])
na("C27","Cell areas on a regular grid tile the sphere","Cell areas of any uniform global grid are positive and sum to the area of the sphere.","Not tested.",[S+"util.py"],[("closed formula",S+"util.py:standard_grid_cell_area")])
na("C28","Vorticity and stratification diagnostics follow their definitions","Relative vorticity is circulation over area, potential vorticity is absolute vorticity times N2 over gravity, adjusted N2 is positive wherever N2 is defined, and wave speed and Rossby radius follow from it.","Tests compare sums on one random dataset.",[S+"derived.py"],[("formulas",S+"derived.py")])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
import re
for d in P:
    assert len(d["title"])<=80,(d["id"],len(d["title"]))
    n=len(re.findall(r"\.(?:\s|$)",d["statement"])); assert n<=3,(d["id"],n)

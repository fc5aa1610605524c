NOTES = (
    "All checks run the real code from /repo's working tree in-process (PYTHONPATH order: "
    "/verif, /repo) under generated workloads with monitors and oracles in /verif; no hooks in /repo."
)
NOT_APPLICABLE = []

PROPS = [
    dict(
        id="C01",
        title="Farm results do not depend on engine, chunk sizes or worker count",
        statement="For any wind farm, states, model choice and algorithm, calc_farm returns the same variables, state order and values for every engine, number of processes and state chunk size as a calculation in one single chunk. This includes turbine models with per-state data or per-state selections, iterative algorithms, and gridded states.",
        over=["inputs", "configurations", "schedules"],
        qtext="all farms, states objects, model combinations, algorithms x engines x n_procs x chunk_size_states x chunk_size_points",
        why="tests compare a few engines on one or two setups with homogeneous turbines; the property quantifies over all inputs and partitions",
        files=["foxes/core/engine.py", "foxes/engines", "foxes/core/data.py", "foxes/algorithms"],
        mech=[
            ("Engine.calc_chunk_sizes, get_chunk_input_data, combine_results", "foxes/core/engine.py"),
            ("PoolEngine.run_calculation and the other engines", "foxes/engines"),
            ("chunk slicing, states_i0 bookkeeping", "foxes/core/data.py"),
        ],
        observe=["Dataset returned by algo.calc_farm", "chunks seen by a probe turbine model"],
        technique="differential oracle over recorded runs of the real engines, chunk probe model counting how often each state is processed",
        level="random farms/models, each on 3 further (engine, n_procs, chunk size) settings of 8 engines; thorough adds ray and mpi",
    ),
    dict(
        id="C02",
        title="Point results depend only on state and point",
        statement="calc_points returns, for every requested point and state, values that do not depend on the engine, the chunking of states and points, the order of the points, which other points or states are requested, or which output variables are selected. Results are assigned to the points in the order in which they were passed, and states_sel/states_isel select exactly the requested states.",
        over=["inputs", "configurations", "schedules"],
        qtext="all farms, states, models, point clouds, permutations and subsets of points and states x engines x chunk sizes",
        why="tests evaluate one point set with default chunking; order, subset and chunk boundaries are not varied",
        files=["foxes/core/engine.py", "foxes/engines", "foxes/algorithms/downwind/downwind.py", "foxes/algorithms/downwind/models/point_wakes_calc.py"],
        mech=[
            ("calc_points, new_point_data, select_subsets", "foxes/algorithms/downwind/downwind.py, foxes/core/engine.py"),
            ("chunking over targets and recombination", "foxes/core/engine.py combine_results"),
        ],
        observe=["Dataset returned by algo.calc_points", "echo point model that returns a function of the point coordinates"],
        technique="metamorphic oracle over recorded runs: engines, chunk sizes, point permutations, point and state subsets; echo point model identifies each point",
        level="random farms and point clouds of 1..2300 points on 8 engines with chunk boundaries everywhere",
    ),
    dict(
        id="C03",
        title="Parallel calculations are schedule independent",
        statement="Under any thread interleaving and any order of chunk completion, parallel engines return the same farm and point results as a serial calculation. Concurrently running chunks do not influence each other through shared algorithm or model state.",
        over=["schedules", "inputs"],
        qtext="all interleavings of worker threads and completion orders of chunks, for all farms and models",
        why="unit tests run whatever schedule the machine happens to produce, mostly with a single worker or chunk",
        files=["foxes/engines/futures.py", "foxes/engines/pool.py", "foxes/engines/dask.py", "foxes/core/engine.py", "foxes/core/algorithm.py"],
        mech=[
            ("isolation of algorithm/model objects per submitted chunk", "foxes/engines/futures.py ThreadsEngine._submit"),
            ("results keyed by chunk indices", "foxes/engines/pool.py run_calculation"),
        ],
        observe=["Datasets of calc_farm and calc_points", "thread ids and chunk start/end events logged by delay models", "forced yields"],
        technique="schedule perturbation (forced thread switches at random calls inside the package, chunk delays that reverse completion order) with a serial-result oracle and an interleaving log",
        level="about 100 perturbed threaded runs per quick check, each a distinct interleaving with thousands of forced switches; sampled, not enumerated",
    ),
    dict(
        id="C04",
        title="Results do not depend on the order of turbines in the farm",
        statement="Adding the same turbines, with their own models, state selections and per-turbine data, to the wind farm in a different order permutes the farm results accordingly and leaves every value and all point results unchanged. Each turbine is treated with its own type, hub height, models and data, in every state, whatever the downwind order of the turbines is.",
        over=["inputs"],
        qtext="all heterogeneous farms, model choices, per-turbine data and selections, all wind directions x all permutations of the turbines",
        why="tests use homogeneous farms listed in downwind order, where mixing up farm order and downwind order has no effect",
        files=["foxes/core", "foxes/algorithms", "foxes/models/turbine_models", "foxes/models/wake_frames", "foxes/models/turbine_types"],
        mech=[
            ("downwind ordering and back-ordering of farm data", "foxes/algorithms/downwind/models/init_farm_data.py, reorder_farm_output.py"),
            ("model selections per turbine", "foxes/core/farm_controller.py"),
            ("per-turbine data of turbine models", "foxes/models/turbine_models/set_farm_vars.py"),
        ],
        observe=["Datasets of calc_farm and calc_points for differently ordered farms"],
        technique="metamorphic oracle: permuted farms, results compared turbine by turbine",
        level="72 (quick) random heterogeneous farms x 2 permutations x all states",
    ),
    dict(
        id="C05",
        title="States are calculated independently of each other",
        statement="With steady wakes, the farm and point results of a state do not depend on which other states are calculated along with it: calculating a subset, a permutation, a repetition or a single one of the states gives the same values per state as the full calculation, including states in which turbines stand still, per-state data, per-state turbine selections and yaw. State labels and weights follow the states.",
        over=["inputs"],
        qtext="all farms, models, states x all selections of states",
        why="tests compute one states table; leaks between states (broadcasting, shared accumulators, any/all shortcuts over states) show only for mixed states",
        files=["foxes/core", "foxes/models", "foxes/input/states"],
        mech=[
            ("array operations over the leading state dimension", "foxes/models"),
            ("per-state turbine order", "foxes/core/wake_frame.py"),
        ],
        observe=["Datasets of calc_farm and calc_points for differently selected states"],
        technique="metamorphic oracle: subsets, permutations, repetitions of states, results compared state by state",
        level="64 (quick) random scenarios x 4 selections",
    ),
    dict(
        id="C06",
        title="Results are equivariant under shifts, rotations and mirroring",
        statement="For horizontally homogeneous inflow, shifting the farm and the points horizontally leaves all results unchanged except the coordinates; rotating them together with the wind direction only rotates the directions; mirroring farm, points, wind direction and yaw misalignment changes only the signs of misalignments and mirrors the directions. This holds for all wake models, wake frames, rotor and partial wakes models, including yawed rotors and induction.",
        over=["inputs"],
        qtext="all farms, points, homogeneous states, yaw settings and model choices x all shifts, rotations, mirror images (mirror: rotor discretizations that are mirror symmetric)",
        why="tests use few axis-aligned wind directions and rows along x, where swapped components, wrong signs and angle wrap-around go unnoticed",
        files=["foxes/utils/wind_dir.py", "foxes/core/wake_frame.py", "foxes/models/wake_frames", "foxes/models/wake_models", "foxes/core/rotor_model.py"],
        mech=[
            ("wind direction and vector conversions", "foxes/utils/wind_dir.py"),
            ("wake coordinates", "foxes/models/wake_frames"),
            ("rotor design points", "foxes/core/rotor_model.py"),
        ],
        observe=["Datasets of calc_farm and calc_points for transformed scenarios"],
        technique="metamorphic oracle: transformed scenarios, results compared after transforming back",
        level="80 (quick) random scenarios x shift, rotation, mirror",
    ),
    dict(
        id="C10",
        title="A wake follows the published formulas of the chosen wake model",
        statement="Behind a turbine, the wind speed deficit and the added turbulence at any point, inside or outside of the wake, near or far, equal those of the published formulas of the chosen wake model (Jensen, Bastankhah 2014/2016, TurbOPark, Crespo-Hernandez, IEC), evaluated with the thrust coefficient, TI and diameter of the turbine and the wake growth parameter that the model name specifies (constant, from TI or ambient TI, with offset, or from the turbine model). There is no wake upstream, none from a turbine at rest, and points outside of the wake keep the ambient values. Yawed rotors deflect the wake and its centreline to the side that the misalignment implies.",
        over=["inputs"],
        qtext="all turbines, inflow states, yaw angles, points and all wake model names (wind and TI wakes, superposition, wake growth specification, ground mirrors)",
        why="tests compare one model at one turbine with reference data; formulas, selections of states and points, and parameters of the other models are never evaluated",
        files=["foxes/models/wake_models", "foxes/core/wake_model.py", "foxes/models/axial_induction", "foxes/models/wake_frames"],
        mech=[
            ("calc_wakes_x_r / calc_wakes_x_yz of all wake models", "foxes/models/wake_models/wind, foxes/models/wake_models/ti"),
            ("wake growth parameter", "foxes/core/wake_model.py WakeK"),
            ("wake deflection", "foxes/models/wake_frames/yawed_wakes.py"),
        ],
        observe=["Datasets of calc_farm and calc_points for a single turbine", "centreline points of the wake frame"],
        technique="reference oracle: independent scalar implementation of the published formulas, compared at random points of recorded runs",
        level="270 (quick) random cases over 9 wind and 5 TI wake models x 26 superpositions x 9 growth specifications",
    ),
    dict(
        id="C11",
        title="Farm results equal a turbine-by-turbine reference calculation",
        statement="In a farm, each turbine sees exactly the superposition of the wakes of all turbines upstream of it, in the way that the chosen superposition, partial wakes, rotor and ground models define: wakes scale with the ambient, the local or no wind speed as requested, averages run over the rotor of the affected turbine, and its rotor equivalent wind speeds, TI, power and thrust result from that and in turn determine its own wake. Points in the flow see the superposition of the wakes of all turbines upstream of them.",
        over=["inputs"],
        qtext="all layouts with mixed turbine types, inflow states, superpositions, partial wakes, rotor models, ground models, downwind and iterative algorithms",
        why="tests check single setups against stored numbers; superposition, scaling and partial wakes with several overlapping wakes and mixed diameters are not covered",
        files=["foxes/models/wake_superpositions", "foxes/models/partial_wakes", "foxes/algorithms/downwind", "foxes/algorithms/iterative", "foxes/core/rotor_model.py"],
        mech=[
            ("add_wake / calc_final_wake_delta", "foxes/models/wake_superpositions"),
            ("contribute / finalize_wakes", "foxes/models/partial_wakes"),
            ("FarmWakesCalculation, PointWakesCalculation", "foxes/algorithms/downwind/models, foxes/algorithms/iterative/models"),
        ],
        observe=["Datasets of calc_farm and calc_points"],
        technique="reference oracle: independent scalar farm simulator, results compared turbine by turbine and point by point",
        level="160 (quick) random farms of 2..6 turbines over all superpositions, partial wakes, rotor and ground models",
    ),
    dict(
        id="C07",
        title="Wakes act downstream only and leave the ambient results alone",
        statement="Without blockage models, turbines and points that have no turbine upstream show exactly the ambient results in all variables, and removing turbines further downstream changes nothing for the others. Ambient results never depend on wakes and equal those of an ambient-only run. Wakes never increase wind speed or power, never reduce TI, do not turn the wind, keep the wind speed non-negative for limited superpositions, and do not exist in states without thrust.",
        over=["inputs"],
        qtext="all farms, states, wake models and superpositions, wake frames, points, downwind and iterative algorithms",
        why="tests compare stored numbers for one setup; causality and sign conditions hold for every layout and inflow",
        files=["foxes/algorithms/downwind/models", "foxes/core/rotor_model.py", "foxes/models/wake_models", "foxes/models/wake_superpositions", "foxes/models/wake_frames"],
        mech=[
            ("downwind ordering and sweep", "foxes/algorithms/downwind/models/farm_wakes_calc.py"),
            ("ambient results", "foxes/algorithms/downwind/models/set_amb_farm_results.py, set_amb_point_results.py"),
            ("x > 0 selections", "foxes/models/wake_models"),
        ],
        observe=["Datasets of calc_farm and calc_points, with and without wakes and for truncated farms"],
        technique="invariant monitors over result datasets plus differential runs (ambient-only, truncated farms)",
        level="150 (quick) random farms over all superpositions, 30 points per state; one known finding about yawed turbines",
    ),
    dict(
        id="C08",
        title="Downwind, iterative and sequential algorithms and hub points agree",
        statement="Where they describe the same flow, the algorithms agree: the iterative algorithm converges to the downwind solution, its converged solution does not depend on the convergence path, the sequential algorithm visits each state once and returns the same farm and point results, and point results evaluated at the hub of a turbine equal the rotor results of that turbine for a centre rotor.",
        over=["inputs"],
        qtext="all farms, states, wake models without (downwind) or with (iterative, sequential) growth from wake-added TI",
        why="the tests run each algorithm on its own setup against its own reference numbers",
        files=["foxes/algorithms/downwind", "foxes/algorithms/iterative", "foxes/algorithms/sequential", "foxes/core/rotor_model.py"],
        mech=[
            ("iteration, convergence", "foxes/algorithms/iterative/iterative.py, foxes/algorithms/iterative/models/convergence.py"),
            ("state by state results", "foxes/algorithms/sequential/sequential.py"),
            ("farm versus point wakes", "foxes/algorithms/downwind/models/farm_wakes_calc.py, point_wakes_calc.py"),
        ],
        observe=["Datasets of calc_farm, calc_points and of the sequential iteration"],
        technique="differential oracle between the algorithms of the package on recorded runs",
        level="110 (quick) random farms; one known finding about wake growth from wake-added TI with the downwind algorithm",
    ),
    dict(
        id="C12",
        title="Rotor models average the flow over the rotor disc",
        statement="The rotor equivalent results of a turbine are weighted averages of the flow over its own rotor disc, which is centred at hub height, has the rotor diameter and is perpendicular to the wind: REWS, REWS2 and REWS3 are the first, second and third order means, scalars are weighted means, the wind direction is that of the mean wind vector, ambient and waked alike. Weights are positive and sum to one; uniform flow is returned exactly; refining a rotor design converges to the disc integral.",
        over=["inputs"],
        qtext="all rotor models and designs, diameters and hub heights per turbine, sheared, veered and horizontally varying flow, chunk sizes",
        why="tests use the centre rotor or one grid in one flow; averaging, weighting and orientation must hold for each design and inflow",
        files=["foxes/core/rotor_model.py", "foxes/models/rotor_models"],
        mech=[
            ("design points and weights", "foxes/models/rotor_models/grid.py, levels.py, centre.py"),
            ("equivalent wind speeds, averages", "foxes/core/rotor_model.py"),
        ],
        observe=["rotor results in the Dataset of calc_farm; calc_points results at independently placed rotor points"],
        technique="reference oracle: weighted averages of recorded point results, and disc integrals of the known inflow",
        level="119 (quick) cases over 17 rotor designs; yawed rotors not covered (see C07)",
    ),
    dict(
        id="C13",
        title="Turbine types deliver their power and thrust curves",
        statement="Every turbine type returns the power and thrust coefficient that its data define at the turbine's own conditions: interpolated between data points in any row order, zero outside of the wind speed range, in the unit of the data, for the selected wind speed variables, with the documented corrections for air density (power in partial load is proportional to density) and yaw misalignment; data frames and files, and one or several types in a farm, give the same. Diameter, hub height and nominal power follow from parameters or file name, or from the data.",
        over=["inputs"],
        qtext="all turbine type classes, curves, units, densities, yaw angles, exponents, wind speeds from standstill to storm",
        why="tests run two static types at reference density without yaw",
        files=["foxes/models/turbine_types", "foxes/core/turbine_type.py", "foxes/data/parse.py"],
        mech=[
            ("interpolation of curves", "foxes/models/turbine_types/PCt_file.py, PCt_from_two.py, CpCt_file.py, CpCt_from_two.py, TBL_file.py"),
            ("two-dimensional tables", "foxes/models/turbine_types/wsrho2PCt_from_two.py, wsti2PCt_from_two.py, lookup.py"),
            ("parameters from file names", "foxes/data/parse.py"),
        ],
        observe=["P, CT, REWS*, RHO, TI and their ambient counterparts of calc_farm; P_nominal, D, H"],
        technique="reference oracle: independent interpolation of the curves at recorded rotor conditions",
        level="140 (quick) farms with 1-3 types of 14 kinds; cut-in smoothing of the iterative algorithm switched off",
    ),
    dict(
        id="C14",
        title="Turbine models act on their turbines and states, in list order",
        statement="A turbine model changes exactly the turbines that list it, in exactly the selected states, in the order of each turbine's list, whatever the downwind order, chunking and lists of other turbines; with the effect it defines: set values, wake growth from TI, yaw and relative yaw, sector rules including wrap-around, power mask with consistent induction, table factors, lookup tables, thrust to ct, calculators, hub height data.",
        over=["inputs"],
        qtext="all lists of turbine models, selections of states, downwind orders, chunk sizes, wind conditions",
        why="tests use one list for all turbines without selections; defects appear when the downwind order differs from the farm order or states share chunks",
        files=["foxes/core/farm_controller.py", "foxes/core/turbine.py", "foxes/core/model.py", "foxes/models/turbine_models"],
        mech=[
            ("order of models, selections", "foxes/core/farm_controller.py"),
            ("effects", "foxes/models/turbine_models"),
            ("data lookup with selections", "foxes/core/model.py"),
        ],
        observe=["all turbine variables of calc_farm, ambient and waked"],
        technique="reference simulator of model lists per turbine and state, fed with recorded rotor results",
        level="150 (quick) farms, ten kinds of models; one known finding about sector rules with ranges of REWS",
    ),
    dict(
        id="C15",
        title="States deliver the ambient conditions their data define",
        statement="At every point and state, the ambient wind speed, direction, turbulence intensity, air density and further variables equal what the data source defines - read from data frames, csv, tab, netcdf (preload, lazy, fly; one or many files) or WRG, with renamed columns, fixed variables and state selections, also when used again for another farm or for some of the states, interpolated between heights and grid points as wind vectors - and state weights and labels are those of the data, uniform if absent, in every chunk.",
        over=["inputs"],
        qtext="all data sets in the supported formats, selections, renamings, interpolation points, chunk sizes",
        why="tests run a few fixed data sets as consistency checks; the ambient values themselves are never compared with the data",
        files=["foxes/input/states", "foxes/utils/tab_files.py", "foxes/utils/wrg_utils.py", "foxes/utils/pandas_helpers.py", "foxes/utils/wind_dir.py"],
        mech=[
            ("tables, time series, wind roses", "foxes/input/states/states_table.py"),
            ("heights", "foxes/input/states/multi_height.py"),
            ("gridded fields", "foxes/input/states/field_data_nc.py"),
            ("resource grids", "foxes/input/states/wrg_states.py"),
        ],
        observe=["ambient variables of calc_farm and calc_points, weights, state labels"],
        technique="independent reader and interpolator of the same data as oracle on recorded ambient results",
        level="181 (quick) data sets, eleven kinds of states, repeated use of the same states object",
    ),
    dict(
        id="C16",
        title="Vertical profiles and point models give their defined values",
        statement="At every height, profile-based ambient values follow the chosen law: neutral, stable, unstable and combined Monin-Obukhov log profiles from reference wind speed or friction velocity (matching the reference value at the reference height, no wind below the roughness length), power-law shear, tabulated and uniform profiles, given as name, dict or object; point models give TI from TKE or friction velocity (with upper limit), uniform data, and wake deltas as waked minus ambient, per state in every chunk.",
        over=["inputs"],
        qtext="all heights, stabilities, roughness lengths, reference heights, kinds of states, chunk sizes",
        why="tests contain one or two profile set-ups and no oracle for values between the sampled heights or for states of mixed stability",
        files=["foxes/models/vertical_profiles", "foxes/utils/abl", "foxes/models/point_models", "foxes/core/states.py", "foxes/core/point_data_model.py"],
        mech=[
            ("profiles", "foxes/models/vertical_profiles"),
            ("stability functions", "foxes/utils/abl"),
            ("point models", "foxes/models/point_models"),
        ],
        observe=["ambient results at turbines and points", "DELTA_* variables of calc_points"],
        technique="similarity theory as independent oracle on recorded ambient results",
        level="160 (quick) set-ups, nine profile kinds, four point models",
    ),
    dict(
        id="C17",
        title="Farm result evaluation sums and averages as stated",
        statement="FarmResultsEval reduces the state-turbine results exactly: state means use the state weights (per state or per state and turbine), sums, minima, maxima and plain means act over the dimension they name, farm means and sums over both; turbine and farm yield (time series span, hours or annual; any power unit; waked or ambient; with P75/P90), capacity, turbine efficiency and farm efficiency follow from the recorded powers; states marked by NaN are left out with re-scaled weights where documented.",
        over=["inputs"],
        qtext="all weights, power units, nominal powers, time steps, durations, NaN patterns, farm sizes",
        why="tests evaluate no reductions against an oracle; mistakes only show with non-uniform weights, mixed units, ambient yields or several turbines",
        files=["foxes/output/farm_results_eval.py"],
        mech=[
            ("FarmResultsEval.reduce_states/reduce_turbines/reduce_all", "foxes/output/farm_results_eval.py"),
            ("FarmResultsEval.calc_turbine_yield/calc_farm_yield", "foxes/output/farm_results_eval.py"),
        ],
        observe=["return values of FarmResultsEval", "added CAP and EFF variables"],
        technique="explicit sums over recorded farm results as oracle",
        level="130 (quick) / 1800 (thorough) farms, every reduction",
    ),
    dict(
        id="C18",
        title="Slices, figures, point tables and wind roses equal direct calculation",
        statement="Every derived output is a faithful view of the calculation: slices and stacked slices (xy, xz, yz, any direction, size, resolution, data format, normalisation, limits, labels and choice of states) contain the values and positions that calc_points gives there, means are weighted means over the chosen states; figures draw these values; PointCalculator tables and files likewise; wind roses and bin plots contain the weights or means of exactly the states in each sector and bin; layouts, maps and turbine curves show the recorded values; no output changes the results it is given.",
        over=["inputs"],
        qtext="all grids, directions, formats, state selections, weights, sector counts and bins",
        why="tests never read a slice, rose or figure; format or selection mistakes only appear with particular options",
        files=["foxes/output"],
        mech=[
            ("SliceData, SlicesData, grids", "foxes/output/slice_data.py"),
            ("FlowPlots2D", "foxes/output/flow_plots_2d/flow_plots.py"),
            ("PointCalculator", "foxes/output/calc_points.py"),
            ("RosePlotOutput, WindRoseBinPlot", "foxes/output/rose_plot.py"),
            ("FarmLayoutOutput, StateTurbineTable, StateTurbineMap, TurbineTypeCurves", "foxes/output"),
        ],
        observe=["returned data sets, written files, artists of the figures"],
        technique="direct calc_points and explicit binning as oracle on observed outputs",
        level="132 (quick) / 1760 (thorough) farms over eleven kinds of output",
    ),
    dict(
        id="C19",
        title="Written files contain exactly the data, to the stated digits",
        statement="Whatever a writer writes can be read back and equals the data: ResultsWriter (csv, state-turbine tables, NetCDF, selected or renamed variables and index columns, turbine names), PandasFileHelper (csv, compressed csv, NetCDF), write_nc, Output.write and the state file creators, to the documented number of digits per variable, with the chosen column names and parameters; a writer changes neither the data nor the arguments of the caller, and earlier writes do not influence later ones.",
        over=["inputs", "histories"],
        qtext="all data, variables, options and formats, and all sequences of writes",
        why="tests never read a written file back; state kept between writes only shows in the second write",
        files=["foxes/output", "foxes/utils"],
        mech=[
            ("ResultsWriter", "foxes/output/results_writer.py"),
            ("Output.write, get_fpath", "foxes/output/output.py"),
            ("PandasFileHelper", "foxes/utils/pandas_utils.py"),
            ("write_nc", "foxes/utils/xarray_utils.py"),
            ("create_random_abl_states, random_timseries_data", "foxes/input/states/create"),
        ],
        observe=["files, read back with pandas and xarray"],
        technique="round-trip oracle over random sequences of writes, with input mutation monitors",
        level="120 (quick) / 1500 (thorough) cases of several writes each",
    ),
    dict(
        id="C20",
        title="A wind farm layout becomes exactly the turbines described",
        statement="Every layout function (rows, grids, rings, random, data frames, csv, json, static data) adds exactly the described turbines: positions, names, indices, hub heights, rotor diameters, turbine models in the requested order and on the requested states; minimal distances, bounds and seeds of random layouts hold; layouts written by the layout output and read again give the same farm; turbines do not share mutable state, and farm bounds and recorded variables reflect the turbines.",
        over=["inputs"],
        qtext="all numbers of turbines, offsets, steps, columns, names, model lists and round trips",
        why="tests add a handful of turbines with one function; truncated angles or shared lists stay invisible",
        files=["foxes/input/farm_layout", "foxes/core/wind_farm.py", "foxes/core/turbine.py"],
        mech=[
            ("add_row, add_grid, add_ring, add_random, from_df, from_csv, from_json", "foxes/input/farm_layout"),
            ("WindFarm.add_turbine", "foxes/core/wind_farm.py"),
            ("Turbine", "foxes/core/turbine.py"),
            ("FarmLayoutOutput", "foxes/output/farm_layout.py"),
        ],
        observe=["farm and turbine attributes, recorded farm results, written layout files"],
        technique="independent geometric and tabular oracle on observed farms and recorded results",
        level="156 (quick) / 2080 (thorough) layouts over thirteen kinds of construction",
    ),
    dict(
        id="C22",
        title="Objects can be reused in any order and after failures; inputs stay untouched",
        statement="Results depend only on what is computed, not on what was computed before: after any history of farm and point calculations, ambient runs, state selections, output choices, kept or finalised models, engine changes, interrupted sequential runs, failures inside models, and other algorithms or farms that share model book, states or farm, a calculation gives the same result as freshly built objects. An exception inside a model reaches the caller and leaves all objects usable. Calculations modify neither the farm, its state selections, data frames and arrays of the caller, nor given results, points, output lists or calc_parameters.",
        over=["histories", "fault_sequences", "inputs"],
        qtext="all sequences of operations on shared objects, with failures injected at any point",
        why="a test builds fresh objects and runs them once; state left behind only shows in the second or third operation, or after a failure",
        files=["foxes/core", "foxes/algorithms"],
        mech=[
            ("Algorithm, Model.set_running, load_data, finalize", "foxes/core/algorithm.py, foxes/core/model.py"),
            ("Downwind, Iterative, Sequential", "foxes/algorithms"),
            ("FarmController.find_turbine_types", "foxes/core/farm_controller.py"),
        ],
        observe=["farm and point results after each operation, exceptions, snapshots of all inputs"],
        technique="history monitor: differential comparison of each operation with fresh objects, fault injection, mutation snapshots",
        level="70 (quick) / 900 (thorough) histories of 5 to 18 operations with injected faults",
    ),
    dict(
        id="C23",
        title="Area geometries: membership, distances, bounds and figures of composed areas",
        statement="For any composition of circles, simple polygons and half planes by union, intersection, difference and inversion, in any nesting: a point is inside iff the set algebra says so; distances to the boundary are exact for single areas, for points outside of unions of such and inside of intersections of such, and elsewhere never exceed the true distance and never fall below the distance to the boundary of any united part that contains the point; the nearest point is at that distance and lies on a boundary of one of the parts; p_min and p_max bound all points of the area. Results do not depend on the other points or on the number type of the coordinates, filled figures show these values, and arguments are not modified.",
        over=["inputs", "configurations"],
        qtext="all trees of areas and all points, including centres, corners and integer coordinates",
        why="a test evaluates one or two shapes by eye; compositions multiply and errors show only for some nestings, at special points, or for unbounded areas",
        files=["foxes/utils/geom2d"],
        mech=[
            ("AreaGeometry, AreaUnion, InvertedAreaUnion, AreaIntersection", "foxes/utils/geom2d/area_geometry.py"),
            ("Circle, ClosedPolygon, HalfPlane", "foxes/utils/geom2d"),
        ],
        observe=["points_inside, points_distance, p_min, p_max, cells of filled figures"],
        technique="differential oracle monitor: own evaluation of the same tree of areas, and densely sampled boundaries",
        level="400 (quick) / 8000 (thorough) random trees of depth up to 3, 300 points each",
    ),
    dict(
        id="C25",
        title="Induction models and wake mirrors follow their published formulas",
        statement="The blockage models (Rankine half body, vortex sheet, Rathmann, self similar and self similar 2020) give, at every point and at every rotor, the induced speed-up and slow-down that their published formulas yield for the thrust and the rotor effective wind speed of the turbines, superposed by the chosen rule, upstream and (where the model has it) downstream of the rotor, excluding the own rotor; wake mirrors add the wakes of turbines reflected at the given heights; they combine with wake models, wind deflection and iterations as the superposition rules say, in the same way at rotors and at points.",
        over=["inputs", "configurations"],
        qtext="all farms, states, induction model parameters, superpositions and mirror heights",
        why="a test compares one stored result of one farm; wrong signs, missing terms or wrong reference wind speeds on parts of the domain go unnoticed",
        files=["foxes/models/wake_models/induction", "foxes/models/ground_models", "foxes/algorithms"],
        mech=[
            ("RankineHalfBody, VortexSheet, Rathmann, SelfSimilar, SelfSimilar2020", "foxes/models/wake_models/induction"),
            ("WakeMirror, GroundMirror", "foxes/models/ground_models/wake_mirror.py"),
            ("PointWakesCalculation, FarmWakesCalculation", "foxes/algorithms"),
        ],
        observe=["farm results REWS, WS, WD, CT; point results WS, WD around the turbines"],
        technique="differential oracle monitor: published formulas evaluated on the observed turbine results",
        level="300 (quick) / 6000 (thorough) random farms",
    ),
    dict(
        id="C24",
        title="Names in the model book yield exactly the models they describe",
        statement="A model name in the documented notation (wake models with superposition and wake growth part k, ka, ka+kb, ambka, ambka+kb; rotors, partial wakes, wake frames, superpositions, turbine, induction and ground models with numbers in them) gives the same farm and point results as the object made by the documented constructor with these parameters, whatever was looked up before; lookups return the stored object; names that describe nothing are refused, at the lookup or at the latest when the model is used, and never replaced by another model; templates of own factories parse and refuse names in the same way, for every order of definition; two model books share nothing.",
        over=["inputs", "histories"],
        qtext="all names of all templates with all parameter values, all orders of lookups, and all names outside of them",
        why="tests use a dozen of the thousands of names; a wrong factor, a mixed up option or a name resolved by the wrong template gives plausible results",
        files=["foxes/models/model_book.py", "foxes/utils/factory.py", "foxes/core/wake_model.py"],
        mech=[
            ("ModelBook", "foxes/models/model_book.py"),
            ("Factory, WakeKFactory, FDict", "foxes/utils/factory.py"),
            ("WakeK", "foxes/core/wake_model.py"),
        ],
        observe=["farm and point results, classes of looked up objects, exceptions, table of contents"],
        technique="differential monitor: models by name against models by constructor in the same calculation; acceptance monitor for names outside of the templates",
        level="180 (quick) / 3600 (thorough) cases with 3 names each",
    ),
    dict(
        id="C27",
        title="Numeric, layout, dictionary and file helpers keep their documentation",
        statement="The helpers in foxes.utils keep what their documentation says for all arguments: wind directions and vectors convert into each other for every shape, axis and wind speed; differences of wind directions are the shortest ones; the overlap of two circles is exact for all radii and distances; cubic roots are all the real roots; logarithmic profiles obey similarity theory and pass through the reference; random layouts keep the minimal distance and depend on the seed only; Dict, DataBook and exec_python keep contents and structure; netCDF files hold the rounded data; none modifies its arguments.",
        over=["inputs"],
        qtext="all argument values, shapes and axes",
        why="wake models, states and outputs of all kinds rely on these, and tests only see the values of a few examples",
        files=["foxes/utils"],
        mech=[
            ("wd2uv, uv2wd, wd2wdvec, wdvec2wd, delta_wd", "foxes/utils/wind_dir.py"),
            ("calc_area", "foxes/utils/two_circles.py"),
            ("cubic_roots, sqrt_reg, abl, random_xy_square", "foxes/utils"),
            ("Dict, DataBook, exec_python, write_nc, all_subclasses", "foxes/utils"),
        ],
        observe=["return values, written files, arguments after the call"],
        technique="differential oracle monitor: scalar evaluation of the definitions",
        level="270 (quick) / 9000 (thorough) random batches",
    ),
    dict(
        id="C26",
        title="Engines map, partition, start, stop and fail cleanly",
        statement="For every engine: map(func, inputs, ...) calls func exactly once for each input, unchanged in value and type, returns the results in the order of the inputs, and passes an exception of func on. States and targets are partitioned into non-empty chunks, without gap or overlap and at most one element above the requested size. At most one engine is active: entering or initializing another one is refused with a ValueError and changes nothing; engines can be used again after they were left, refused, or failed; has_engine, get_engine and reset_engine agree with that history. An exception in a model reaches the caller, whatever the engine; the engine remains usable, keeps its settings and gives correct results afterwards. Calculations end, with the same results, on engines used one after the other, also if states read their files during the calculation. No worker processes or threads are left after leaving an engine.",
        over=["histories", "schedules", "inputs", "fault_sequences"],
        qtext="all histories of engine operations, all inputs of map, all sizes of states, targets, chunks and workers, all completion orders and failing calls",
        why="tests use each engine once with one successful calculation; failures, reuse, nesting and other inputs are never run",
        files=["foxes/core/engine.py", "foxes/engines"],
        mech=[
            ("Engine life cycle, calc_chunk_sizes, get_engine, reset_engine", "foxes/core/engine.py"),
            ("PoolEngine.map, run_calculation", "foxes/engines/pool.py"),
            ("DefaultEngine", "foxes/engines/default.py"),
            ("dask engines", "foxes/engines/dask.py"),
        ],
        observe=["return values and exceptions of map and calculations, log of calls, active engine and flags after each operation, child processes and threads"],
        technique="call log checked for exactly-once; online monitor of random operation histories against a reference state machine; fault injection by failing functions and models; process and thread leak monitor",
        level="130 (quick) / 2400 (thorough) random histories, maps and calculations; grid of 210 thousand (quick) partitions",
    ),
    dict(
        id="C21",
        title="Parameter files run the same calculation as the Python interface",
        statement="Input by parameter dict, yaml file and windio data has the meaning of the same models built by constructors: states, model book entries, layouts, algorithm, engine, points and options on the command line give the same farm and point results, and options that overrule replace exactly what they name. An output section calls the named functions in order, with result labels standing for the values (or array elements) of earlier calls, the label 'none' or an empty one dropping its value, and dictionary results stored under their names. Files named there are read relative to the input directory and written to the output directory, whatever the current directory is. windio variables, dimension orders, heights, profiles, turbine curves (power, cp, ct, several types), model names and the requested cases, turbine and flow outputs are honoured. An engine that a run created is released at its end, also if it fails.",
        over=["inputs", "configurations", "histories", "fault_sequences"],
        qtext="all parameter dicts, yaml files, output programs, windio inputs, command line options, current directories and failing runs",
        why="tests run two fixed parameter files and no command line option, windio input or output label at all",
        files=["foxes/input/yaml", "foxes/config/config.py", "foxes/output/slices_data.py", "foxes/output/output.py"],
        mech=[
            ("read_dict, run_dict, run_outputs, run_obj_function", "foxes/input/yaml/dict.py"),
            ("foxes_yaml", "foxes/input/yaml/yaml.py"),
            ("read_windio, foxes_windio", "foxes/input/yaml/windio/windio.py"),
            ("read_site", "foxes/input/yaml/windio/read_site.py"),
            ("read_turbine_types, read_layout", "foxes/input/yaml/windio/read_farm.py"),
            ("read_attributes", "foxes/input/yaml/windio/read_attributes.py"),
            ("read_outputs", "foxes/input/yaml/windio/read_outputs.py"),
        ],
        observe=["farm and point results, files written, log of the calls of output functions, registered engine after each run"],
        technique="runtime monitoring: differential oracle (parameter file against constructors) and trace monitor of output calls over generated inputs and command lines",
        level="290 (quick) / 5000 (thorough) random parameter dicts, output programs, yaml files, windio inputs and command lines",
    ),
    dict(
        id="C09",
        title="Unsteady wakes travel with the flow, delays are those of the air",
        statement="With the dynamic wake frames (Timelines, DynamicWakes, SeqDynamicWakes) the wake at a place and time is that of the air parcel that passed the turbine earlier: parcels emitted at each state move with the wind of the states that follow, wake properties (ct, TI, ...) are those of the time of emission, and no wake is found ahead of the first parcel or beyond the age limit. In constant wind the result is the plain delayed superposition; stationary inflow ends in the result of the steady frame. Results of a state depend on that state and earlier ones only, not on chunks, engine, order of turbines, choice of selected states, or the position of the farm. OnePointFlow states give at the reference point the given series and elsewhere that series shifted by the travel time along the wind, clamped at both ends, for all heights, frames, chunks and selections. A sequential run visits each state once, in order, calls the plugins accordingly, collects the results it returned, can be repeated, respects ambient=True and agrees with a run of all states at once.",
        over=["inputs", "configurations", "histories", "schedules"],
        qtext="all time series of inflow, time steps, layouts, turbine types, wake models, dynamic frames, chunkings, points and iterations",
        why="tests run one dynamic example and compare with nothing; travel times, causality, chunk independence, one point flow and sequential runs are never judged",
        files=["foxes/models/wake_frames", "foxes/input/states/one_point_flow.py", "foxes/algorithms/sequential", "foxes/algorithms/iterative"],
        mech=[
            ("Timelines", "foxes/models/wake_frames/timelines.py"),
            ("DynamicWakes", "foxes/models/wake_frames/dynamic_wakes.py"),
            ("SeqDynamicWakes", "foxes/models/wake_frames/seq_dynamic_wakes.py"),
            ("WakeFrame.get_wake_modelling_data", "foxes/core/wake_frame.py"),
            ("OnePointFlowStates", "foxes/input/states/one_point_flow.py"),
            ("Sequential, SequentialPlugin", "foxes/algorithms/sequential"),
            ("Iterative.calc_farm (blocked convergence)", "foxes/algorithms/iterative/iterative.py"),
        ],
        observe=["turbine and point results of unsteady runs, results returned and collected by sequential runs, log of plugin calls"],
        technique="runtime monitoring: reference simulator of delayed wakes and inflow, metamorphic oracle (future, chunks, selections, moved and permuted farms, stationary limit), call trace monitor of sequential runs",
        level="220 (quick) / 3300 (thorough) random unsteady runs",
    ),
    dict(
        id="C28",
        title="Wakes in curved flow follow the path of the chosen wake frame",
        statement="In wind fields whose direction varies in space, wakes follow the path that the chosen wake frame stands for. With streamline frames the wake of a turbine is found along the streamline of the ambient wind through its rotor centre at hub height, at the arc length as wake distance and the signed offset as lateral coordinate, up to the discretisation by the step, ends at the maximal length, and turbines are evaluated after those whose wakes reach them; centreline points lie on that streamline. With the rotor_wd frame wakes run straight along the local wind direction at the rotor, in the yawed frame additionally deflected, and the farm order frame gives the same converged result. Downwind and iterative algorithms and any chunking see the same paths.",
        over=["inputs", "configurations"],
        qtext="all smooth wind fields with curvature radius above 3 km, steps, lengths, layouts, turbines, chunkings and points",
        why="tests use uniform or coarse flow only, no test looks at the position of a wake in curved flow",
        files=["foxes/models/wake_frames", "foxes/core/wake_frame.py"],
        mech=[
            ("Streamlines2D", "foxes/models/wake_frames/streamlines.py"),
            ("RotorWD", "foxes/models/wake_frames/rotor_wd.py"),
            ("YawedWakes", "foxes/models/wake_frames/yawed_wakes.py"),
            ("FarmOrder", "foxes/models/wake_frames/farm_order.py"),
            ("WakeFrame.calc_centreline_integral", "foxes/core/wake_frame.py"),
        ],
        observe=["turbine and point results in curved flow, order of evaluation, centreline points handed to wake models"],
        technique="runtime monitoring: reference streamline integration (Runge Kutta) with wake formulas, interval oracle for the discretisation error",
        level="64 (quick) / 900 (thorough) random fields and farms",
    ),
]

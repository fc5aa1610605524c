"""writes known_findings.jsonl: repaired defects (subject line of the fix commit) and recorded ones"""

import json
import subprocess
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent

# (property, start of the subject after "fix: ", what failed)
FIXED = [
    ("C22", "do not modify the user's profile dicts", "initializing states with profiles emptied the dict the user passed, a second use failed"),
    ("C01", "isolate algorithm and models between chunks", "threads engine: chunks running at the same time shared algorithm and model state, wrong or missing results"),
    ("C04", "keep model data in downwind order", "iterative algorithm: per-state per-turbine model data used in farm order after the first iteration"),
    ("C22", "provide all farm variables to models", "calc_farm(outputs=[..]) failed or changed results when models need variables that are not in the outputs"),
    ("C07", "ambient calculation with the iterative", "Iterative.calc_farm(ambient=True) failed"),
    ("C01", "represent absence of wakes by zero delta", "product superposition: results depended on which states share a chunk"),
    ("C04", "assign SetFarmVars data and pre-rotor", "SetFarmVars data assigned to the wrong turbines when the downwind order differs from farm order"),
    ("C04", "use rated power of the correct turbine", "PowerMask used rated power of another turbine in mixed farms"),
    ("C14", "apply sector management to the correct", "SectorManagement rules applied to the wrong turbines"),
    ("C04", "turbine order and missing wakes with the streamlines", "streamlines wake frames: wrong turbine order and lost wakes"),
    ("C25", "broadcasting of rankine half body", "Rankine half body induction failed or mixed states for more than one state"),
    ("C14", "apply states selections to the correct models", "models_state_sel applied to the wrong model of a turbine"),
    ("C13", "do not modify rotor wind speeds in place", "power curve turbine types changed REWS in place (density, yaw correction)"),
    ("C11", "keep lateral extent of target rotors", "yawed wake frame: rotor points of the target collapsed laterally"),
    ("C10", "centreline points of the yawed", "yawed wake frame: centreline points on the wrong side of the wake"),
    ("C25", "use the partial wakes model for the main wake", "wake mirrors ignored the partial wakes model for the main wake"),
    ("C11", "partial axiwake for wake centre", "axial partial wakes: nan for a wake centre on the rotor edge"),
    ("C11", "use diameter of the target rotors", "top-hat and axial partial wakes used the diameter of the wrong turbine"),
    ("C22", "turbines do not share the list of turbine models", "turbines created with default turbine_models shared one list"),
    ("C15", "x bounds of the data selection", "FieldDataNC cropped the data with the y bound of the farm in x direction: extrapolated or missing ambient data"),
    ("C13", "nominal power from power curves is in", "default P_nominal was 1000 times too small: capacity, efficiency and PowerMask wrong"),
    ("C13", "pass parameters to turbine types that read two", "turbine types reading two files ignored parameters like P_unit"),
    ("C13", "direction of the air density correction", "power in partial load was inversely proportional to air density"),
    ("C13", "provide ct data to turbine type CpCtFile", "CpCtFile always failed with KeyError ct"),
    ("C13", "selections and wind speed range of the two-dim", "WsRho2PCtFromTwo, WsTI2PCtFromTwo: failed for mixed farms and with density correction, thrust looked up at the power wind speed and in the range of the power data, failed for corrected wind speeds below the range"),
    ("C22", "do not modify the user's data frames in turbine", "turbine tables sorted and renamed the user's data frames in place"),
    ("C14", "selections other than boolean arrays in TableFactors", "TableFactors failed unless states were selected"),
    ("C13", "thrust coefficients of lookup table turbine types", "FromLookupTable: thrust coefficient looked up at the power wind speed"),
    ("C13", "empty selections in LookupTable", "LookupTable and FromLookupTable failed for empty selections (mixed farms)"),
    ("C14", "use ti_val in turbine model kTI", "parameter ti_val of kTI was ignored"),
    ("C14", "apply state-turbine selection in SectorManagement", "SectorManagement ignored models_state_sel and acted on turbines that do not use the model"),
    ("C22", "do not modify the user's data frame in SectorManagement", "SectorManagement changed the data frame of the user, a second use failed"),
    ("C14", "rules for all wind directions in SectorManagement", "a rule for wind directions from 0 to 360 was never active"),
    ("C15", "grid selection in WRGStates", "WRGStates: farm bounds beyond the data selected an empty grid, upper grid cell missing at coarse resolution"),
    ("C15", "sector frequencies in WRGStates", "WRGStates: state weights a factor 100 too large (frequencies in percent)"),
    ("C15", "variables from data attributes", "MultiHeightNCStates with a variable from data attributes failed"),
    ("C15", "positional parameters of TabStates", "TabStates with positional output variables failed"),
    ("C15", "fixed wind speed or direction", "FieldDataNC with fixed wind speed or direction failed"),
    ("C16", "variables that come from a profile only", "StatesTable with a profile variable that has no table column failed"),
    ("C16", "add variable TKE", "point model TKE2TI failed, variable TKE missing"),
    ("C16", "max_ti is an upper limit", "Ustar2TI used max_ti as lower limit"),
    ("C16", "normalized wake deltas", "WakeDeltas with normalize=True failed"),
    ("C16", "uniform friction velocity", "ABLLogWsProfile with friction velocity input failed for single states"),
    ("C16", "point model SetUniformData", "SetUniformData failed for all data sources"),
    ("C17", "ambient yield in FarmResultsEval.calc_farm_yield", "calc_farm_yield(ambient=True) raised KeyError 'YLD'"),
    ("C17", "unweighted turbine mean in FarmResultsEval.reduce_all", "reduce_all with turbines_op mean_no_weights returned the sum"),
    ("C17", "FarmResultsEval.calc_farm_mean averages over turbines", "calc_farm_mean, documented as mean over states and turbines, summed over turbines"),
    ("C18", "write_nc does not round the data of the caller", "writing NetCDF rounded the data set of the caller (e.g. farm results) in place to four digits"),
    ("C18", "default variables in SliceData", "get_mean_data_* / get_states_data_* without variables raised ValueError"),
    ("C18", "SliceData mean over selected states", "mean slices over selected states summed un-normalised weights (e.g. one third of the wind speed)"),
    ("C18", "label_map applies to the fields in all data formats", "label_map was ignored for the variables of mean slices and pandas data"),
    ("C18", "states mean in PointCalculator", "PointCalculator.calculate(states_mean=True) raised IndexError for weights per state"),
    ("C18", "writing state weights in PointCalculator", "PointCalculator.calculate(to_file=...) raised ValueError for weights per state"),
    ("C18", "returned data of FlowPlots2D", "get_mean_fig_*(ret_data=True) returned an arbitrary variable"),
    ("C18", "rotor lines of selected states in FlowPlots2D", "rotor lines were drawn for the wrong states when states were selected"),
    ("C18", "pandas format of states slices", "get_states_data_* in pandas format raised ValueError"),
    ("C19", "ResultsWriter does not modify its data and arguments", "write_csv changed the data frame (second write failed) and removed entries from the variables of the caller"),
    ("C19", "turbine names and renamed index in ResultsWriter", "turbine_names with selected variables or time series, and renamed index columns, raised KeyError"),
    ("C19", "parameters of PandasFileHelper.write_file are not kept", "options of one write (e.g. sep) were applied to all later writes"),
    ("C19", "file formats in PandasFileHelper", "names with dots were rejected and NetCDF writing failed"),
    ("C19", "digits in write_random_abl_states", "an integer number of digits was ignored"),
    ("C19", "random time series with seed 0", "seed=0 was ignored"),
    ("C20", "angles of turbines in add_ring", "default offset truncated the angles of the turbines to integer degrees"),
    ("C20", "random layouts with seed 0", "add_random ignored seed=0"),
    ("C20", "turbines do not share the list of model state selections", "one list of state selections was shared among all turbines of a layout and with the caller"),
    ("C22", "instances of YawedWakes do not share their base frame", "all YawedWakes frames shared one default RotorWD object, so models of different algorithms and model books influenced each other"),
    ("C22", "calc_points without previous farm calculation", "calc_points of a fresh algorithm with given farm results failed, likewise ambient points without farm results"),
    ("C22", "calc_parameters of the farm controller", "the dict of the caller was modified and pre-rotor models ran as post-rotor models"),
    ("C22", "turbine types of algorithms that share a model book", "turbine types were mixed up between algorithms for different farms with the same model book"),
    ("C22", "failed calculations leave algorithms and models usable", "after an exception in a calculation the algorithm and all shared models stayed in running state and could not be used again"),
    ("C22", "YawedWakes takes the wake growth from the current algorithm", "the wake model and growth of the first algorithm were kept for all later ones"),
    ("C22", "PowerMask with nominal powers from power curves", "P_nominal stayed NaN if the turbine type was initialised after the PowerMask"),
    ("C22", "rotor models that are shared between algorithms", "the variables selected for the first algorithm were kept, other states or turbine types failed or returned variables that are not calculated"),
    ("C22", "FieldDataNC load modes lazy and fly with state selections", "calc_points with states_sel or states_isel used the data of the wrong states"),
    ("C25", "Rathmann induction on the rotor axis", "nan instead of an induced wind speed for points on the rotor axis, one rotor radius upstream, by rounding under a root"),
    ("C25", "several wake models in point calculations", "with two or more wake models the point results of the second and later wake models were based on waked instead of ambient results, and contradicted the farm calculation"),
    ("C23", "nearest boundary point of a circle for its centre", "ValueError for the nearest boundary point whenever the circle centre is among the points"),
    ("C23", "polygons from integer points", "UFuncTypeError in distances to polygons from integer coordinates, and truncated nearest points"),
    ("C23", "subtraction of a list of geometries", "AttributeError for geometry - [geometries], which AreaGeometry.__sub__ accepts"),
    ("C23", "geometry figures modify the parameters of the caller", "add_to_figure removed entries of the pars_distance dict of the caller and changed its p_min, p_max arrays; integer arrays failed"),
    ("C23", "bounding points of intersections of unbounded geometries", "p_min = inf and p_max = -inf for intersections with half planes that are not aligned with an axis"),
    ("C23", "figures of geometries that are unbounded on both sides", "ValueError in filled figures of half planes that are not aligned with an axis"),
    ("C27", "differences of wind directions beyond one full turn", "delta_wd left differences beyond 180 degrees for wind directions more than one and a half turns apart, and failed for scalars"),
    ("C27", "wind direction from wind vectors along negative axes", "uv2wd and wdvec2wd ignored axis = -2 and other negative axes and mixed up the components"),
    ("C27", "broadcasting and integers in the intersection area of circles", "calc_area failed for arguments that have to be broadcast, and truncated areas for integer distances"),
    ("C27", "single and threefold roots of cubic polynomials", "cubic_roots gave nan for polynomials with one real root and for threefold roots"),
    ("C27", "arguments of exec_python for nested objects", "indicator, newline and name spaces were dropped inside of lists, tuples and dictionaries"),
    ("C27", "Dict with other than string keys and with overlapping arguments", "TypeError for dictionaries (and yaml files) with integer keys, or a key in both arguments"),
    ("C24", "model names with extra characters after the end of the template", "names like yawed_typo or grid9_rawx were accepted silently as another model"),
    ("C24", "notation of numbers in the example names of model factories", "example names shown by factories, e.g. Jensen_linear_k0.04, do not exist"),
    ("C26", "engine map functions receive the original inputs", "map of the pool and dask engines converted mixed inputs to strings or arrays and failed for ragged lists"),
    ("C26", "default engine stays active if a calculation fails", "an exception inside map or a calculation of the default engine was replaced by 'Exit called for not entered engine'"),
    ("C26", "failed attempts to enter an engine have no side effects", "an engine refused because of an active one could never be entered again, its pool leaked"),
    ("C26", "local cluster engine does not modify the default dask config", "after a local cluster, all dask and xarray engines of the session required a distributed client"),
    ("C26", "loop dimensions of engines with chunk size for points only", "loop_dims was empty for engines with a chunk size for points only"),
    ("C26", "local cluster engine uses calculation parameters of the current run", "calc_points after a failed calc_farm in a local cluster used the parameters of the farm calculation"),
    ("C26", "isolate algorithm and models between the threads of a cluster worker", "several threads per worker shared the chunk store: KeyError 'chunk_store: Cannot find key' (hidden by up to 10 retries)"),
    ("C21", "run_outputs returns the labels only if requested", "run_outputs returned the pair of results and labels also without ret_rlabels"),
    ("C21", "empty strings as parameters of output functions", "an empty string as parameter of an output function of a parameter file raised an IndexError"),
    ("C21", "refusal of wrong result labels of output functions", "wrong result labels raised a NameError inside the construction of the message"),
    ("C21", "calc_points section of parameter files", "the calc_points section demanded an item run, and its points file was not looked up in the input directory"),
    ("C21", "finalize the engine of run_dict also if the run fails", "after an error in run_dict the engine stayed set in the session"),
    ("C21", "verbosity of the engine in read_dict", "the verbosity of read_dict was written to the dict itself instead of its engine section"),
    ("C21", "output directory of foxes_yaml", "the -o option of foxes_yaml did not place the files into the requested folder"),
    ("C21", "turbine data file names without any separator", "a turbine data file without separator in its name raised an error instead of using the given parameters"),
    ("C21", "windio input of a single state", "windio input of a single state was refused"),
    ("C21", "constant turbulence intensity in windio input", "a constant turbulence intensity in windio input was replaced or refused"),
    ("C21", "name of the windio deflection model Bastankhah2016", "the windio deflection model Bastankhah2016 was mapped to a frame that does not exist"),
    ("C21", "class name of the windio wind deficit model TurbOPark", "the windio wind deficit model TurbOPark was mapped to a class that does not exist"),
    ("C21", "windio input without background averaging", "windio input without background averaging raised a NameError"),
    ("C21", "windio outputs without the optional cases_run section", "windio outputs without the optional section cases_run raised a KeyError"),
    ("C21", "wind speed exponents for windio turbines with Cp curve", "wind speed exponents were ignored for windio turbines with Cp curve"),
    ("C21", "command line options of foxes_windio", "command line options of foxes_windio were parsed wrongly or ignored"),
    ("C21", "files written by SlicesData contain all slices", "the file of SlicesData with to_file contained the last slice only"),
    ("C21", "states data file relative to a relative input directory", "states data files below a relative input directory were not found when the states were initialized a second time"),
    ("C09", "target data is not replaced by wake source data with dynamic", "with dynamic wake frames, partial wakes that use data of the target turbine (its D in top_hat and axiwake) got that of the wake source, if the types differ"),
    ("C09", "timelines find the wakes of turbines mirrored by ground", "Timelines with a ground model: the mirrored turbines had no wakes, since their heights were not among the timelines"),
    ("C09", "dynamic wakes of a single turbine reach points in later", "DynamicWakes, one turbine, several chunks of states: results at points had no wakes from states of the chunks before"),
    ("C09", "iterations that are blocked by data exchange between", "DynamicWakes with more chunks of states than 1 + n_turbines**2 / 2: iterations ended before the wakes had passed all chunks, results depended on the chunk size"),
    ("C09", "one point flow downstream of the reach of the first", "OnePointFlowStates: points further downstream than the history reaches got the values of the last (future) state, and mixtures of the first and the last state"),
    ("C09", "one point flow at points on the line through the", "OnePointFlowStates: points beside the reference point, exactly across the wind, got the values of the last state, depending on rounding"),
    ("C09", "one point flow for irregular time steps", "OnePointFlowStates: with irregular time steps or varying wind speed the delay between two states was that of the following interval, other than for dynamic wakes"),
    ("C09", "one point flow in sequential runs", "OnePointFlowStates in Sequential runs: states were clipped to the number of states of the running chunk, i.e. one; all points had the first or mixed values"),
    ("C09", "one point flow for selected states of a run", "OnePointFlowStates: calc_points with states_sel or states_isel (and Sequential runs) looked back and ahead within the selected states only"),
    ("C09", "timelines follow the base states of all types of one", "Timelines with OnePointFlowStates or OnePointFlowMultiHeightTimeseries: streak lines were those of the wind at the origin of coordinates, results changed when the farm was moved"),
    ("C09", "one point flow states accept the parameters of their", "OnePointFlowTimeseries and multi height versions with the data source as positional argument: TypeError"),
    ("C09", "results at points for selected states with unsteady", "calc_points with states_sel or states_isel with Timelines or DynamicWakes: wakes as if the selected states followed one another"),
    ("C09", "sequential runs with ambient=True do not", "Sequential(..., ambient=True) calculated wakes in all variables"),
    ("C09", "repeated sequential runs with dynamic wakes start", "second iteration over the same Sequential algorithm with SeqDynamicWakes: wakes of the first run were present from the first state on, with wrong ages"),
    ("C08", "under-relaxation of the iterative algorithm at entry points pre_wake and last", "Iterative.set_urelax('pre_wake' or 'last', ...) ended with a TypeError"),
    ("C10", "centreline integrals for any step size", "TurbOParkIX failed with a broadcast error for step sizes such as dx=4.1, depending on the farthest point"),
    ("C13", "modify_cutin of PCtFile keeps", "modify_cutin(modify_ct=True, modify_P=False) of a PCtFile turbine type (and the opposite choice) did not keep the other curve, so that Iterative calculations used a changed power curve"),
    ("C22", "new states for an initialized algorithm", "algo.states = ... of an initialized algorithm raised an error, since models that depend on the states stayed initialized"),
    ("C14", "state-wise rotor diameters and hub heights", "SetFarmVars with state-wise D or H raised an error for more than one chunk of states, and entries that are not set became nan instead of the value of the turbine type"),
    ("C15", "FieldDataNC states that are used again with another farm", "gridded states objects kept the data of the surroundings of the first farm: a calculation of a farm elsewhere failed, and the caller's sel dictionary was modified"),
    ("C15", "FieldDataNC states from an xarray Dataset", "the documented data source xarray.Dataset failed, number of states and labels were never set"),
    ("C15", "MultiHeightNCStates without variables that depend on height", "data sets in which no variable depends on height failed"),
    ("C26", "chunk processes hang for lazy loaded states", "states in load mode lazy: forked chunk processes wait forever for a thread pool that exists in the parent process only"),
    ("C19", "format_col2var of labelled variables in state turbine tables", "format_col2var ignored in state turbine tables with labels: values rounded by the label instead of the variable"),
    ("C18", "create and return the axes of turbine type curves if not given", "plot_curves without axs failed with an IndexError for two variables and returned [None]"),
    ("C09", "weighted time series as input of timelines", "time series with weights failed in wake frames and one point flow states that use timelines, or with a false mismatch for several heights"),
    ("C09", "centreline points of timelines", "centreline points had the wrong sign, start state and chunk offset, wake models with centreline integrals (TurbOParkIX) were wrong with timelines, also for stationary wind"),
    ("C09", "centreline integrals end at the last point that is reached by the wake", "targets not reached (x=1e20) extended the integral to max_length_km = 20000 km, calculations took minutes"),
    ("C09", "heights of nested mirrored wake calculations", "ground mirrors with wake models that integrate TI along the centreline (TurbOParkIX) counted the source twice instead of mirroring it from the second iteration on with the process engine, as the nested mirror reset to the hub height"),
    ("C22", "centreline of yawed wakes at a single point", "IndexError of yawed wake frames with wake models that integrate TI along the centreline, if all targets are closer than one integration step"),
    ("C18", "create flow animations for xz and yz", "SeqFlowAnimationPlugin with orientation xz or yz: gen_images raises TypeError or draws the xy figure"),
    ("C18", "keep the titles of the states in flow animations", "SeqFlowAnimationPlugin with a title function: every image has the title of the last state"),
    ("C13", "sort power coefficient tables by wind speed", "CpCtFile/CpCtFromTwo with rows that are not sorted by wind speed: wrong power and thrust curves"),
    ("C20", "assign turbine ids to the rows of a layout table", "add_from_csv/add_from_df with turbine_ids and a filtered table: ids picked by data label, wrong ids or IndexError"),
    ("C18", "give each sequential algorithm its own list", "plugins appended to a Sequential algorithm are also updated by all later Sequential algorithms of the process"),
]

# (property, exact key of the violation, what fails)
KNOWN = [
    (
        "C07",
        "yaw-projection",
        "two equal yawed turbines in free flow differ: with Downwind the first turbine in downwind order keeps the "
        "unprojected REWS, all others are re-evaluated with the flow projected on the yawed rotor axis "
        "(RotorModel.eval_rpoint_results), and then yaw-corrected again by the turbine type",
    ),
    (
        "C14",
        "sector-stale",
        "SectorManagement rules with a range of REWS: values assigned while evaluating the ambient flow (or an earlier "
        "iteration) stay although the final REWS is outside of the range of the rule",
    ),
    (
        "C14",
        "hub-stale",
        "RotorCentreCalc models (hubh_data) with Iterative: the models of all turbines run position by position, so the wake "
        "at the hub is evaluated with the CT of upstream turbines before later models of these (Thrust2Ct, PowerMask, "
        "TableFactors) changed it, and the value stays although the final CT is different",
    ),
    (
        "C08",
        "downwind-multi-model-sweep",
        "Downwind loops over wake models first and turbines second: with wind wakes that grow with wake-added TI "
        "(ka* models plus a TI wake model) the wake growth is calculated from ambient TI when the wind wake model is "
        "listed first, so results depend on the order of wake_models and differ from the converged Iterative solution",
    ),
    (
        "C08",
        "urelax-entry|first",
        "Iterative.set_urelax('first', ...): every iteration repeats the ambient calculations with a model list that the "
        "previous one has already discarded, the calculation ends with a KeyError",
    ),
    (
        "C08",
        "urelax-entry|pre_rotor",
        "Iterative.set_urelax('pre_rotor', ...): every iteration repeats the ambient calculations with a model list that the "
        "previous one has already discarded, the calculation ends with a KeyError",
    ),
    (
        "C08",
        "urelax-entry|post_rotor",
        "Iterative.set_urelax('post_rotor', ...): every iteration repeats the ambient calculations with a model list that the "
        "previous one has already discarded, the calculation ends with a KeyError",
    ),
]


def main():
    log = subprocess.run(
        ["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True
    ).stdout.splitlines()
    log = [l for l in log if l.split(" ", 1)[1].startswith("fix: ")]
    out = []
    used = set()
    for p, s, w in FIXED:
        m = [l for l in log if l.split(" ", 1)[1].startswith("fix: " + s)]
        assert len(m) == 1, (s, m)
        h = m[0].split()[0]
        used.add(h)
        out.append(dict(property=p, status="fixed", commit=h, what=w, line=f"fixed: property={p} {h} {w}"))
    rest = [l for l in log if l.split()[0] not in used]
    assert not rest, rest
    for p, k, w in KNOWN:
        out.append(dict(property=p, status="known", key=k, what=w))
    (ROOT / "known_findings.jsonl").write_text("".join(json.dumps(d) + "\n" for d in out))
    print(len(out), "findings")


if __name__ == "__main__":
    main()

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
GRID = "reservoirflow/grids/regular_cartesian.py"
FDM = "reservoirflow/solutions/numerical/fdm.py"
BO = "reservoirflow/models/black_oil.py"
MODEL = "reservoirflow/models/model.py"
SOLV = "reservoirflow/solutions/numerical/solvers.py"
BASE = "reservoirflow/base.py"
SOLU = "reservoirflow/solutions/solution.py"
COMP = "reservoirflow/solutions/compiler.py"
SP = "reservoirflow/fluids/single_phase.py"
UTIL = "reservoirflow/utils"
SCAL = "reservoirflow/scalers"

P = []


def prop(id, title, statement, over, text, why, files, mech, na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), na=na))


prop("P01", "Transmissibility is the two-point harmonic law",
     "The geometric factor the grid reports between two adjacent cells equals 2·c divided by the sum of d/(A·k) of both cells (c the transmissibility conversion of the unit system), for any positive, heterogeneous and irregular lengths and permeabilities, and is positive. It is the same seen from either cell, the same for one cell and for all cells at once, in dictionary, array, dense and sparse matrix form, with and without boundary cells, and the coefficient matrices connect only cells that share a face.",
     ["inputs", "configurations"], "all positive cell lengths and permeabilities on every 1D, 2D and 3D grid shape, including cells at boundaries",
     "Tests compare a few uniform or nearly uniform grids; the law has to hold for every combination of per-cell lengths and permeabilities, including variation only in boundary cells.",
     [GRID], [("cell and array forms", GRID + " get_cell_G, get_cells_G"), ("matrices", GRID + " get_cells_G_diag_1, get_cells_G_diag_2, get_cells_G_diag_3"), ("harmonic mean", GRID + " get_cell_G, get_cells_G")])
prop("P02", "Cell numbering, coordinates, neighbours and boundaries are consistent",
     "Cell ids number the grid in natural order (x fastest, then y, then z) including boundary cells on every active axis; ids, coordinates and array positions convert into each other exactly. The neighbours of a cell are exactly the cells sharing a face with it, the boundary cells are exactly the cells on the rim, and every form in which they are asked for (list, tuple, set, array, dictionary, by id or by coordinates, with or without boundary cells) describes the same set. Extracting or removing boundaries of an array of the grid returns exactly the corresponding entries.",
     ["inputs", "configurations"], "every grid shape and every cell of it, every requested form",
     "Tests look at chosen cells of chosen grids; the relation has to hold for every cell of every shape and all forms together.",
     [GRID, "reservoirflow/grids/grid.py"], [("ids and coordinates", GRID + " get_cells_id, get_cell_id, get_cell_coords, get_cells_coords, get_cell_icoords"), ("neighbours", GRID + " get_cell_neighbors"), ("boundaries", GRID + " get_cell_boundaries, get_boundaries, extract_boundaries, remove_boundaries")])
prop("P03", "Cell lengths, areas, volumes and centres follow from the given lengths",
     "For any positive cell lengths, face areas are products of the other two lengths, cell volumes the product of all three and total volumes their sums; corners accumulate the lengths along every axis and the centres are the mean of the corners. All of it is the same for single cells and all cells, with or without boundary cells, flat or shaped, for scalar or per-cell input, and using the grid changes neither the stored lengths nor the caller's arrays.",
     ["inputs", "configurations"], "all positive lengths per axis, all grid shapes, every query form",
     "Tests use few grids with mostly uniform lengths; a wrong axis, shift or shared array shows for particular irregular lengths and shapes only.",
     [GRID], [("lengths", GRID + " __calc_cells_d, get_cells_d, get_cell_d"), ("areas and volumes", GRID + " get_cells_A, get_cells_V, get_cell_V"), ("centres and corners", GRID + " get_cells_center, get_cell_center, get_corners")])
prop("P04", "Reading a property returns what was last set",
     "After any sequence of property settings (all cells, one cell by id or coordinates, arrays), every way of reading permeability, porosity, depth or compressibility of the grid returns the value set last for each cell and leaves other cells and properties alone. Flags such as isotropic and homogeneous describe the current values, unknown properties are refused, defaults apply only to what was never set, and the caller's arrays are never modified.",
     ["inputs", "histories"], "all property values, all cells, sequences of settings",
     "A stale cache or a copied array shows only for particular sequences of settings and reads.",
     [GRID, "reservoirflow/grids/grid.py"], [("setting", GRID + " set_props, set_prop, set_cell_value"), ("reading", GRID + " get_prop, get_cells_k, get_cell_k"), ("flags", GRID + " is_isotropic, is_homogeneous, is_regular")])
prop("P05", "Model transmissibility is the geometric factor over viscosity and volume factor",
     "The transmissibility a model reports between adjacent cells is the current geometric factor of the grid divided by fluid viscosity times formation volume factor, for a cell, for all cells and as matrix (dense or sparse, cell by cell or vectorized). It is positive, the off-diagonals cover exactly the adjacent pairs, the diagonal is minus the sum of its row, and changes of grid or fluid properties appear in every form at once.",
     ["inputs", "histories"], "all positive grid and fluid coefficients, all shapes, changes of properties between queries",
     "Tests check fixed cases without later changes; stale values depend on the order of queries and changes.",
     [MODEL, BO, GRID], [("transmissibility", BO + " get_cell_trans, get_cells_trans, get_cells_trans_diag")])
prop("P06", "Storage coefficients follow compressibility, volume and time step",
     "Total compressibility is fluid plus rock compressibility, a model is compressible exactly when it is non-zero, and the storage coefficient of every cell is volume times porosity times compressibility over (volume conversion times formation volume factor times dt), in field, metric and lab units. The diffusivity coefficient is consistent with the one-dimensional transmissibility and storage, and negative compressibility is refused.",
     ["inputs", "configurations"], "all volumes, porosities, non-negative compressibilities, B, dt and unit systems",
     "Tests fix one or two compressible cases in field units.",
     [MODEL, BO, BASE], [("compressibility", MODEL + " set_comp, " + BO + " __calc_comp"), ("accumulation", BO + " __calc_RHS, get_alpha")])
prop("P07", "Assembled equations are the mass balance of each interior cell",
     "At every step the assembled system A·p = d is, for every interior cell and any pressures, the balance of face flow (transmissibility times potential difference with gravity), boundary flow (rate, pressure or gradient condition), well flow (constant rate or bottom-hole pressure) and storage change. The vectorized and the symbolic way of building it give the same system, also after wells, controls or boundary conditions change between steps.",
     ["inputs", "histories"], "all geometry, rock, fluid, depth, pressure, rate and boundary values; histories of changes between steps",
     "Tests compare end results of a few published examples; one missing or doubled term for one combination of face, gravity, well and condition stays unseen.",
     [FDM, MODEL, BO], [("vectorized", FDM + " __init_A, __init_d, __update_z, get_matrices_vect"), ("symbolic", FDM + " get_cell_eq, get_cells_eq, get_matrices_symb, __calc_n_term, __calc_a_term"), ("boundaries", BO + " set_boundary, set_boundaries, " + FDM + " __calc_b_term"), ("wells", BO + " set_well, " + FDM + " __calc_w_term")])
prop("P08", "How equations are built and solved does not change the solution",
     "For the same model, wells, boundaries and history, pressures, rates, bottom-hole pressures and controls of every step are the same whatever the combination of dense or sparse matrices, vectorized or symbolic assembly, threads (in any task order) or none, printing, verbosity, and available solver. Threads that fail raise their error.",
     ["configurations", "schedules", "inputs"], "all settings of solve and run, task orders of the thread pool, all states and conditions",
     "Tests exercise a few settings on a few models; equality has to hold for every setting, state and task order.",
     [FDM, SOLV, COMP], [("settings", FDM + " solve, run, get_matrices_symb, get_matrices_vect"), ("solvers", SOLV + " get_dsolver, get_isolver")])
prop("P09", "Every step conserves mass and the reported error measures it",
     "After every solved step the rates reported for boundaries and wells plus inter-cell flow equal the change of storage of each interior cell, the total reported rate equals the total change of storage (zero for incompressible systems), and cells without a well report no source. Boundary rates are those of the condition in force, and the reported material balance error is then zero.",
     ["inputs", "histories"], "all states, conditions, wells and depths; up to a few consecutive steps with changes in between",
     "Tests check the error value on a few runs with tolerances; a compensating error in single cells or rates does not show in the total.",
     [FDM, BO], [("rates", FDM + " __update_boundaries, __update_wells"), ("error", FDM + " check_MB")])
prop("P10", "Wells keep to their constraints and report what the equations used",
     "At every solved step the reported rate of a well equals its index times the drawdown between cell pressure and reported bottom-hole pressure. A rate-controlled well delivers its target rate or sits exactly at its bottom-hole pressure limit, never below the limit and never beyond its target; the control used next is rate control when the target can be met and pressure control otherwise. Pressure-controlled wells keep their bottom-hole pressure, wells without control report the cell pressure and no rate, and there is one bottom-hole pressure per well and step.",
     ["inputs", "histories"], "all targets, limits, cell pressures, one to three wells, several steps with wells set again in between",
     "Switching depends on the sign of an estimate in each step; tests run a few cases which switch once or never.",
     [FDM, BO], [("control and switching", FDM + " __update_wells, solve, __calc_w_term"), ("well pressures", BO + " set_well, w_pressures")])
prop("P11", "Wells are set with the index of their cell and the values given",
     "The equivalent radius and well index follow from cell sizes, permeabilities, thickness, wellbore radius and skin by the formula for the flow direction in every unit system. A well object and keyword values give the same well, a cell id given beside the object is used instead of the object's, setting an object replaces a well that was in its cell, the object is left alone, keyword values given later replace the earlier ones and keep the others, including zero values, and the order of settings does not matter. Cells outside the interior are refused and change nothing, and wells of one model do not appear in another.",
     ["inputs", "histories"], "all cell sizes, permeabilities, radii, skins, rates and pressures; sequences of settings",
     "Tests set a well once with typical numbers; zero values, overriding and partial changes are not exercised.",
     [BO, "reservoirflow/wells/single_cell.py"], [("well index", BO + " __calc_well_G, __calc_well_r_eq"), ("setting", BO + " set_well")])
prop("P12", "Boundary conditions hold as set, whichever way they are set",
     "A pressure, rate or gradient condition, named by any alias in any case and set for one boundary, as a dictionary or for all boundaries, before or after compilation or between steps, is recorded with its value and the rate it implies and is in force in every following step until it is replaced; all ways of setting the same conditions give the same solution. Boundaries without a condition have no flow. Cells which are not boundaries and unknown conditions are refused and change nothing; the caller's dictionary only has its names unified.",
     ["inputs", "histories", "configurations"], "every boundary cell, every alias, all values, every time of setting",
     "Tests set pressure and rate conditions with the standard names before the first step.",
     [BO, MODEL, FDM], [("setting", BO + " set_boundary, set_boundaries, set_all_boundaries"), ("in force", FDM + " __calc_b_term, __update_boundaries")])
prop("P13", "A reservoir in equilibrium stays at rest",
     "If all pressures, boundary pressures and depths are hydrostatic (constant potential), closed boundaries and wells without rate included, then nothing flows: every step keeps the pressures exactly, all rates are zero and wells report the cell pressure, for compressible and incompressible systems, every assembly and any depths, density and reference pressure. A uniform change of all depths and pressures does not create flow.",
     ["inputs", "histories"], "all depths, densities, reference pressures; every grid shape, assembly form and coefficient",
     "Tests run almost only flat reservoirs; one wrong sign of gravity in one direction is invisible there.",
     [FDM, BO], [("gravity terms", FDM + " __calc_n_term, __init_d, get_matrices_vect"), ("boundary rates", BO + " set_boundary, " + FDM + " __update_boundaries")])
prop("P14", "Pressures stay within the data and respond in the right direction",
     "For any positive coefficients the equations of a step have a negative diagonal, positive coupling of adjacent cells only, are symmetric, and each row sums to storage plus coupling to pressure boundaries and pressure-controlled wells. Therefore without sources every new pressure lies between the smallest and largest of old pressures, boundary pressures and well pressures, and raising an initial or boundary pressure, an injection rate or a bottom-hole pressure lowers no pressure.",
     ["inputs", "configurations"], "all coefficients (equations); all old pressures, boundary values and well values (bounds and response)",
     "A comparison theorem about all states; a single wrong sign shows only for states where it matters.",
     [FDM, MODEL, BO], [("matrix", FDM + " __init_A, get_matrices_vect, get_matrices_symb"), ("solution", FDM + " solve")])
prop("P15", "Steps append to the history and runs compose",
     "Every solved step adds exactly one row to pressures, rates, stored matrices and right-hand sides and one value to every well's bottom-hole pressures, and changes no earlier row. n steps give the same history however they are split into runs and single solves. A step only depends on the pressures before it and on the wells and conditions in force. Solving with update=False changes nothing, the stored equations of a step are satisfied by its pressures, and a run leaves the settings of the model alone.",
     ["histories", "inputs"], "every split of a history into runs and single steps, all pressures and conditions",
     "Tests run one fixed number of steps once; an overwritten row or state carried over shows only for particular splits and changes.",
     [FDM, SOLU, BO], [("steps", FDM + " solve, run, __update_wells"), ("arrays", SOLU + " Solution, " + BO + " get_shape")])
prop("P16", "Scalers are exact linear maps with exact inverses",
     "MinMax maps the smallest and largest value of the data (per column, per row or overall) to the ends of the output range and everything between linearly, with data of any sign; the inverse returns the original values exactly and fit_transform equals fit and transform. A new fit replaces the old one, scalers do not share state, data and ranges given are not modified, and using an unfitted scaler is refused. Dummy returns everything unchanged. A model uses, for each of its variables, the scaler and output range that were set, for one of them or for all at once.",
     ["inputs", "histories"], "all data, axes, input and output ranges; sequences of fits",
     "Tests scale one array; a wrong axis or a shared range shows for other shapes and orders of use.",
     [SCAL + "/minmax.py", SCAL + "/scaler.py", SCAL + "/dummy.py", BO], [("scaling", SCAL + "/minmax.py fit, transform, inverse_transform, fit_transform"), ("model scalers", BO + " set_scalers")])
prop("P17", "Exported tables contain exactly the computed history",
     "get_df has one row per step (times k·dt, dates from the start date), and each column of a cell or well equals the pressures, rates or bottom-hole pressures of the current solution, in whatever selection and order of columns, with or without boundary cells, wide or melted. Units appear in names only, scaled columns are the column mapped from its minimum and maximum onto the range of its scaler, drop_nan and drop_zero remove exactly the columns that are undefined or zero throughout, unknown columns are refused, and exporting leaves the solution alone; a table that is saved to a file is the one returned. Times, centres and domains returned by the model agree with the grid and steps.",
     ["inputs", "configurations", "histories"], "all histories, all options of the export",
     "Tests compare a few exports with stored files; options combine in many ways and the values have to match for every history.",
     [BO], [("export", BO + " get_df, __add_time, __add_cells, __add_wells"), ("domain", BO + " get_time, get_centers, get_domain")])
prop("P18", "Compiled solutions are selected by name and independent of each other",
     "Every documented spelling of type and method (any case) compiles the same solution, listed under model-type-method-sparse; sparse=True is the default. compile and set_solution make a solution current: solve, run, tables and shapes then refer to it. Two solutions of a model (dense and sparse, numerical and analytical) advance independently in any order, each ending with the pressures, rates, well controls and bottom-hole pressures it would have as the only one; compiling again starts over from the initial state. Unknown types, methods or names, methods that are not available and a sparse argument that is not a boolean are refused and leave the current solution and its history as they are.",
     ["histories", "configurations"], "every order of steps of two solutions of a model, every spelling, all pressures, conditions and well targets",
     "Tests compile once per model; shared state shows only when several solutions take turns.",
     [COMP, MODEL, SOLU, FDM], [("names", COMP + " Compiler"), ("selection", MODEL + " compile, set_solution"), ("state", SOLU + " Solution")])
prop("P19", "Results do not depend on the system of units",
     "The same reservoir stated in field, metric and lab units has the same transmissibility, storage, diffusivity and fluid gravity, and every step gives the same pressures, rates and bottom-hole pressures, after conversion and up to the rounding of the documented factors. Every object carries the units and factors of its own system, changing those of one object changes no other, and unknown systems are refused. Fluid gravity is gravity conversion times density times gravitational acceleration whenever density is set; other fluid properties keep the value last set, density and compressibility default to zero and negative compressibility is refused.",
     ["inputs", "configurations"], "all coefficients, pressures and conditions in all three systems, sequences of settings",
     "Tests use field units almost only; a wrong or missing factor is a plausible number.",
     [BASE, SP, GRID, BO, FDM], [("factors", BASE + " FACTORS, UNITS, set_units"), ("fluid", SP + " set_rho, set_props"), ("use", GRID + " get_cell_G, get_cells_G; " + BO + " __calc_RHS, get_alpha, __calc_well_G")])
prop("P20", "Objects do not affect each other",
     "Several models, with their own or a shared grid and fluid, can be built, changed, solved and exported in any order: each has the history it would have alone, with its own wells, boundary conditions and time step. Grids answer for their own shape and properties whatever other grids were asked or changed in between, fluids keep their own properties, and dictionaries of conditions passed in are not modified.",
     ["histories", "inputs"], "every order of steps of two models and queries of two grids, all pressures and conditions",
     "Caches and class-level state mix objects up only in particular orders of use; tests use one object at a time.",
     [BASE, GRID, BO, FDM, UTIL + "/helpers.py"], [("caches", UTIL + "/helpers.py _lru_cache; " + GRID), ("state", BO + " __initialize__, " + SOLU + " Solution")])
prop("P21", "A solver that fails is reported and the history stays valid",
     "If a solver reports that it did not converge (any non-zero exit code), or raises, in any step or repeated step, solve and run raise instead of recording a result. The history then holds the completed steps only, unchanged and consistent in all arrays and bottom-hole pressures, the settings of the model (verbosity) are restored, and carrying on gives the same history as if nothing had happened. Unknown solvers are refused without a step.",
     ["fault_sequences", "inputs"], "every exit code and every solver call that may fail, all pressures and conditions",
     "Solvers do not fail on demand in tests.",
     [FDM, SOLV], [("failure", FDM + " solve, run"), ("solvers", SOLV + " get_isolver")])
prop("P22", "Results respect superposition and the symmetries of the reservoir",
     "Without active limits the result of a mixture of two states, conditions and targets is the mixture of their results. Adding a constant to all pressures (initial, boundary, bottom-hole) or to all depths shifts pressures accordingly and changes no rate or control. Mirroring a reservoir or exchanging axes, with its properties, conditions and wells, mirrors or exchanges the results. Coefficients that cancel (permeability and viscosity, porosity, compressibility and time step, volume factor and surface rates) leave them unchanged, and equal rows side by side with closed sides behave like one row.",
     ["inputs", "configurations"], "all states, conditions and depths; all mirrored and turned versions of heterogeneous reservoirs",
     "Relations between runs which no single expected value of a test can express.",
     [FDM, GRID, BO], [("equations", FDM + " get_matrices_vect, get_matrices_symb, __calc_b_term, __calc_n_term"), ("geometry", GRID), ("wells", BO + " __calc_well_G, __calc_well_r_eq")])
prop("P23", "Figures show the solution",
     "A figure of a model shows every requested cell (with or without boundary cells) once, at its place, with its own value of the requested property (pressures or rates) at the step: the last step at first, the chosen step when the slider moves, and step k in frame k of an animation, which has one frame per recorded step. The limits of the colours are the smallest and largest shown value of all steps, captions state date, step, initial pressure, and mean, smallest and largest value of the shown step, every well is one vertical mark of its radius through its cell, and labels of cells (ids, coordinates, lengths, areas, volumes, centres) stand at the cell they belong to. Charts (plot, plot_grid) show the values of the chosen cell over all steps, or those of all cells (the image: of the interior cells) in order at the chosen step, step 0 included, and at the last step if none is given. Figures leave model and grid alone and do not depend on figures made before; unknown properties and labels are refused.",
     ["inputs"], "all grids, solutions, steps, properties and kinds of labels", "Tests do not look at figures; a figure must be right for every grid, selection and step.",
     [UTIL + "/pyvista.py", GRID], [("figures", UTIL + "/pyvista.py show_grid, show_model, save_gif, get_model_plotter, add_wells, add_grid_labels"), ("cells", GRID + " get_pyvista_grid, get_cells_center"), ("charts", BO + " plot, plot_grid")])
prop("P24", "The analytical solution D1P1 is the series solution of one-dimensional diffusion",
     "For a homogeneous compressible reservoir along one direction between two constant boundary pressures, D1P1 yields one row of pressures per recorded step (row 0 included) and one column per cell (boundary cells included): every value equals the sum of the first N terms of the Fourier series of p_t = alpha p_xx with the initial pressure pi and the two boundary pressures, evaluated at the time of the row (step number times dt) and the centre of the cell measured from the first to the last centre, with alpha the diffusivity along the flow in the unit system; with clean=True values outside of the range of the given pressures are replaced by the nearest end of the range; with scale=True pressures, times and places are mapped to the output range. run(n) records n steps of the series, keeps the boundary pressures at the two ends, stays within the range of the data, agrees with calc_solution() and gives the same pressures when run again.",
     ["inputs"], "all initial and boundary pressures in any order, dimensions, rock and fluid properties, steps and numbers of terms", "A closed formula in symbolic pressures, properties and times: tests compare shapes of one model.",
     ["reservoirflow/solutions/analytical/d1p1.py", MODEL], [("series", "reservoirflow/solutions/analytical/d1p1.py calc_solution, run"), ("diffusivity and domain", MODEL + " get_alpha, get_domain, get_shape"), ("scaling", "reservoirflow/scalers/minmax.py")])
prop("P25", "Iterative solvers converge in floating point",
     "Every available iterative solver reaches the solution of the equations of a step within its tolerance in floating-point arithmetic.",
     ["inputs"], "all symmetric positive definite systems", "Convergence depends on conditioning over unbounded iterations.",
     [FDM, SOLV], [("solvers", SOLV + " get_isolver")],
     na="The iterations are compiled SciPy code, with rounding and data-dependent iteration counts; the checks assume that a solver reporting success solved its system (P08) and check that reported failures are raised (P21).")
prop("P26", "A setting that is refused changes nothing",
     "If a setting is refused with an exception (negative compressibility, unknown properties, cells outside or values of the wrong size, wells outside of the reservoir or without what their index needs, unknown conditions, conditions of cells which are not boundary cells, unknown scalers, variables, units, methods, solutions, solvers or columns, analytical runs of reservoirs with flow in more than one direction), grid, fluid, model, wells, conditions, scalers, solutions and the history of the model stay exactly as they were, whether it was alone or one of several conditions or scalers given together, before compiling, afterwards or between steps; carrying on gives the same results as if it had not been tried.",
     ["inputs", "histories"], "all refused settings with any values, at any point of a history", "Tests look at the exception, not at what is left behind and shows up in later steps.",
     [BO, MODEL, "reservoirflow/grids/grid.py", "reservoirflow/fluids/fluid.py", GRID, BASE], [("conditions", BO + " set_boundary, set_boundaries, set_all_boundaries"), ("wells", BO + " set_well"), ("scalers", BO + " set_scalers"), ("compressibility", "reservoirflow/grids/grid.py set_comp, reservoirflow/fluids/fluid.py set_comp, " + MODEL + " set_comp"), ("properties", GRID + " set_prop"), ("solutions", MODEL + " compile, set_solution")])
prop("P27", "Looking changes nothing",
     "Whatever is asked of a grid or a model - every method of the grid that answers, tables (with any columns, units, melted, scaled), transmissibilities, equations and matrices, previews of a step, balance checks, figures and animations, in any number and order, before compiling, afterwards and between steps - grid, fluid, wells, conditions, settings, conversion tables and the recorded history stay exactly as they were, and steps taken afterwards give the same results, conditions, controls and tables as in a model that was never looked at.",
     ["inputs", "histories"], "all grids, states and conditions; all questions at any point of a history", "A side effect of a reader shows up later and elsewhere; tests read the answer and stop.",
     [GRID, BO, FDM, UTIL + "/pyvista.py"], [("readers", GRID + " get_*, is_*, extract_boundaries, remove_boundaries"), ("tables", BO + " get_df, get_time, get_centers, get_domain"), ("equations", FDM + " get_cell_eq, get_cells_eq, get_matrices_symb, get_matrices_vect, solve(update=False), check_MB"), ("figures", UTIL + "/pyvista.py show_model, show_grid, save_gif")])
prop("P28", "Arguments left out have their documented values",
     "A call without an optional argument answers exactly as the call with its documented default, for every optional argument alone and for all of them together, at every call and whatever was asked of this or any other object before: reading methods of grids and models (boundary cells, flow shape, form, direction of the answer), transmissibilities, tables, times and centres, compile (sparse), solve (one step that is kept), run (ten steps), scalers (each column on its own), units (field), figures and animations (pressures, interior cells, wells shown, no labels, with slider), and the constructors of grids (depth zero, arrays of three axes), fluids (density and compressibility zero) and models (steps of length one).",
     ["inputs", "configurations", "histories"], "every optional argument of the reading, solving and constructing calls, all grids and states", "Tests mostly state their arguments; a default that differs, is shared between calls or depends on an earlier call shows only where it is left out.",
     [GRID, BO, FDM, MODEL, UTIL + "/pyvista.py"], [("reading", GRID + " get_*, remove_boundaries, extract_boundaries"), ("models", BO + " get_df, get_time, get_centers, get_cell_trans, get_cells_trans; " + MODEL + " compile"), ("steps", FDM + " solve, run"), ("units", "reservoirflow/base.py set_units")])
# --8<--

TECH = "symbolic execution of the package's Python source over exact real arithmetic; assertions decided by normal form and z3, counterexamples replayed on the real package"


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k != "na"}, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in P:
        if p["na"]:
            na.append(dict(property=p["id"], reason=p["na"]))
            continue
        names = [f[:-3] for f in os.listdir(os.path.join(ROOT, "harness")) if f.lower().startswith(p["id"].lower() + "_")]
        m = importlib.import_module("harness." + names[0]).META
        note = "Holds for all values within: " + m["bounds"] + ". Outside: " + m["outside"] + "."
        if m.get("assumptions"):
            note += " Assumes: " + "; ".join(m["assumptions"]) + "."
        checks.append(dict(
            property=p["id"], quick_cmd=f"python3 check.py {p['id']} --tier quick", thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
            technique=TECH, level="model_checking", level_note=note, evidence_file=f"evidence/{p['id']}.json"))
    man = dict(version=1, setup_cmd="python3 check.py --self-test", hooks=dict(guard="RESERVOIRFLOW_VERIFY", enable="no hooks were needed; the guard is unused and /repo is loaded as it is"),
               checks=checks, not_applicable=na)
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write("\n")


if __name__ == "__main__":
    main()

"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os

P = []


def prop(id, title, statement, over, text, tests, files, mech, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": tests,
            "anchors": {
                "files": files,
                "mechanism": [{"name": n, "where": w} for n, w in mech],
                "observe_at": list(observe),
            },
        }
    )


S = "src/rkopenmdao/"
RK = S + "runge_kutta_integrator.py"
DISC = S + "time_discretization/stage_ordered_runge_kutta_discretization.py"
ODE = S + "discretized_ode/openmdao_ode.py"

prop(
    "C01",
    "Forward integration equals the Runge-Kutta scheme applied to the user's ODE",
    "For every ODE given as an OpenMDAO problem and every explicit or diagonally implicit Butcher tableau, running the integrator with fixed steps yields the values the Runge-Kutta formulas define: every step solves the stage equations for all quantities at the stage times and adds the weighted stage updates. The final values, the final time, every intermediate state and the embedded error estimate agree with that definition, whatever the number, shape, layout and coupling of the quantities.",
    ["inputs", "programs", "configurations"],
    "All ODEs (nonlinear, time dependent, coupled, with quantities of any shape, output-only quantities and time-independent inputs), all explicit/diagonally implicit tableaux including embedded ones, all initial values, initial times, step sizes and numbers of steps, both termination criteria.",
    "The tests run a handful of fixed ODEs with one or two quantities and compare with analytic solutions to loose tolerances or with stored numbers; they never vary tableau, layout of the quantities and inputs together.",
    [RK, DISC, ODE, S + "om_data_exchange.py"],
    [
        ("stage loop", DISC + ": compute_step"),
        ("stage problem evaluation", ODE + ": compute_update"),
        ("time loop", RK + ": compute, _iterate_on_step"),
    ],
    ["outputs <quantity>_final and time_final", "callbacks"],
)
prop(
    "C02",
    "Forward-mode derivatives are the exact derivative of the discrete solution",
    "Forward-mode derivatives of the final values and final time with respect to initial values, time-independent inputs and initial time equal the exact derivative of the computed discrete solution (for the step sizes that were taken). This holds for matrix-vector products and for total derivatives, for any seed, with fixed and adaptive stepping.",
    ["inputs", "programs", "configurations"],
    "All differentiable ODEs, tableaux, step sequences, inputs and seeds, all subsets of outputs and inputs.",
    "The tests compare with finite differences for a few ODEs and with fixed seeds, mostly with scalar quantities and without time derivatives.",
    [RK, DISC, ODE],
    [
        ("linearised stage loop", DISC + ": compute_step_derivative"),
        ("linearised stage problem", ODE + ": compute_update_derivative"),
        ("time loop", RK + ": _compute_jacvec_product_fwd"),
    ],
    ["Problem.compute_totals", "Problem.compute_jacvec_product"],
)
prop(
    "C03",
    "Reverse-mode derivatives are the exact adjoint of the discrete solution",
    "Reverse-mode derivatives equal the transpose of the exact derivative of the computed discrete solution, for any seed, every checkpointing strategy, fixed and adaptive stepping. In particular the dot product of a reverse result with a forward direction equals that of the seed with the forward result.",
    ["inputs", "programs", "configurations"],
    "All differentiable ODEs, tableaux, step sequences, checkpointing strategies, inputs and seeds, all subsets of outputs and inputs.",
    "The tests compare with finite differences or check the dot product for few fixed ODEs and a handful of fixed numbers of steps.",
    [RK, DISC, ODE, S + "checkpoint_interface/all_checkpointer.py"],
    [
        ("adjoint stage loop", DISC + ": compute_step_adjoint_derivative"),
        ("adjoint stage problem", ODE + ": compute_update_adjoint_derivative"),
        ("reverse time loop", RK + ": _compute_jacvec_product_rev"),
    ],
    ["Problem.compute_totals", "Problem.compute_jacvec_product"],
)
prop(
    "C04",
    "Checkpointing never changes results, for any strategy and memory budget",
    "Keeping no checkpoints, all checkpoints or a limited number in memory or on disk gives the same forward results, and the two strategies able to run in reverse give the same reverse derivatives for every number of steps and of checkpoints. Every reverse step is linearised at the state of its own time step, steps are visited from last to first exactly once, and asking for reverse derivatives without checkpoints is refused.",
    ["configurations", "inputs", "schedules"],
    "All numbers of steps, numbers of checkpoints, revolver types and storages, ODEs and tableaux, fixed and adaptive steps.",
    "The tests use a handful of numbers of steps with the default number of checkpoints; recomputation schedules depend on both numbers.",
    [
        S + "checkpoint_interface/pyrevolve_checkpointer.py",
        S + "checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py",
        S + "checkpoint_interface/all_checkpointer.py",
        S + "checkpoint_interface/no_checkpointer.py",
    ],
    [
        ("store everything", S + "checkpoint_interface/all_checkpointer.py: iterate_forward/iterate_reverse"),
        ("revolve schedule", S + "checkpoint_interface/pyrevolve_checkpointer.py"),
        ("checkpoint content", S + "checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py: RungeKuttaCheckpoint"),
    ],
    ["outputs", "totals", "callbacks of the reverse steps"],
)
prop(
    "C05",
    "Results depend on the current inputs only, never on what ran before",
    "After any sequence of runs, derivative computations in either mode, changes of inputs, repeated setups and failures inside the stage problem, a run or derivative computation returns what a fresh integrator with the same options and inputs returns. Integrators sharing a stage of a program or option objects do not influence each other.",
    ["histories", "fault_sequences"],
    "All sequences of set inputs, run, forward, reverse, totals, setup and injected failures (at any evaluation of the user's components) over one or two integrators, with all checkpointing strategies, fixed and adaptive.",
    "The tests perform one run followed by one derivative computation; cached checkpoints, controller state and persistent buffers only matter over longer histories.",
    [RK, S + "error_controller.py", S + "checkpoint_interface/pyrevolve_checkpointer.py", ODE],
    [
        ("cached inputs of the last run", RK + ": _cached_input, _compute_jacvec_rev_preparation_phase"),
        ("reset of error control", RK + ": _reset_error_control"),
        ("state copies", S + "time_integration_state.py: set"),
    ],
    ["outputs", "totals", "compute_jacvec_product"],
)
prop(
    "C06",
    "Adaptive stepping accepts only steps within tolerance and ends exactly",
    "In adaptive runs every accepted step has an error measure within the tolerance or a step size not above the lower bound, all step sizes respect the upper bound and the time left, time increases contiguously and ends at the requested final time or number of steps. The sequence of accepted steps, errors and suggestions is the one that the error controller equations, the fallback chain and the bounds define, and if no controller can reduce a rejected step the run fails instead of going on.",
    ["inputs", "configurations", "programs"],
    "All ODEs, embedded tableaux, chains of error controllers, tolerances, bounds, safety factors, error measurers, initial step sizes and termination criteria.",
    "The tests run some controllers on one ODE and check the final value with a loose tolerance; acceptance of single steps, rejected steps and bounds are not observed over runs.",
    [RK, S + "error_controller.py", S + "error_measurer.py", S + "termination_criterion.py"],
    [
        ("accept/reject loop", RK + ": _iterate_on_step"),
        ("error control", S + "error_controller.py"),
        ("limitation by the time left", S + "termination_criterion.py: remaining_time"),
    ],
    ["callbacks", "outputs", "HDF5 error measure"],
)
prop(
    "C07",
    "Every error controller computes its published step size formula",
    "A controller's suggestion is the documented product of powers of error measures and step sizes with the exponents of its family for the scheme's order, times the safety factor, limited by bounds and remaining time. A step is accepted exactly if its error is within tolerance or the step can't be made smaller, scaling tolerance and all errors together changes nothing, and a controller with fallbacks only differs from the first controller while that one can't reduce a rejected step.",
    ["inputs", "configurations", "histories"],
    "All shipped controllers, user-defined exponents, orders, tolerances, bounds, errors, step sizes, histories, remaining times, and all call sequences on chains of any depth.",
    "The tests check few hand-computed numbers per controller; exponents multiplied with logarithms of quotients equal to one are not observed by them, nor are longer call sequences.",
    [S + "error_controller.py", S + "error_controllers.py"],
    [
        ("formula and limits", S + "error_controller.py: ErrorController"),
        ("fallback chain", S + "error_controller.py: ErrorControllerDecorator"),
        ("exponents", S + "error_controllers.py"),
    ],
    ["status returned by calling a controller"],
)
prop(
    "C08",
    "Butcher tableaux have the order they claim and are classified correctly",
    "Every shipped tableau fulfils the order conditions up to its stated order for main and embedded weights, has row sums equal to its stage times, and is of the type its properties report. Arbitrary tableaux are classified by their sparsity pattern, inconsistent ones are rejected or warned about exactly when they are inconsistent, and the main and embedded methods derived from an embedded tableau carry its coefficients and orders.",
    ["inputs", "configurations", "programs"],
    "All shipped tableaux over all trees up to the stated order and generated polynomial/nonlinear problems; all matrices and vectors passed to the tableau classes.",
    "The tests check convergence of few schemes on one or two ODEs, which lets wrong coefficients pass that only act on other elementary differentials.",
    [S + "butcher_tableau.py", S + "butcher_tableaux.py"],
    [
        ("coefficients", S + "butcher_tableaux.py"),
        ("classification and validation", S + "butcher_tableau.py"),
    ],
    ["tableau attributes", "warnings and errors", "integration results"],
)
prop(
    "C09",
    "Time integration stops exactly when its termination criterion says so",
    "With a predefined number of steps exactly that many steps are taken; with a predefined final time steps are taken while time is left and no step starts at or after the final time, and with adaptive stepping the last step ends there. Forward mode, reverse mode and rerunning with the same criterion object visit the same number of steps.",
    ["inputs", "configurations"],
    "All numbers of steps, initial and final times, step sizes, adaptive and fixed stepping, all checkpointing strategies able to do so.",
    "The tests only use numbers of steps and final times for which the result is a round number.",
    [S + "termination_criterion.py", RK, S + "checkpoint_interface/no_checkpointer.py", S + "checkpoint_interface/all_checkpointer.py"],
    [
        ("criterion", S + "termination_criterion.py"),
        ("loops", S + "checkpoint_interface/: iterate_forward; " + RK + ": _compute_jacvec_fwd_run_steps"),
    ],
    ["time_final", "callbacks"],
)
prop(
    "C10",
    "Callbacks see every step once, in order, with its own data",
    "For each computed step every registered callback is called before and after it, in the order of registration, with step numbers counting 1 to N (N to 1 in reverse), with time and state before and after that very step, and with its step size and error measure. Callbacks of one mode are never called by another mode, and observing callbacks do not change results.",
    ["configurations", "programs", "histories"],
    "All lists of callbacks in all three modes, all checkpointing strategies, numbers of steps, fixed and adaptive stepping.",
    "The tests count calls for one configuration; numbering and content per checkpointing strategy and mode are not checked.",
    [RK, S + "callback.py", S + "checkpoint_interface/runge_kutta_integrator_pyrevolve_classes.py"],
    [
        ("calls", RK + ": _run_step, _run_step_jacvec_fwd, _run_step_jacvec_rev"),
        ("numbering under checkpointing", S + "checkpoint_interface/"),
    ],
    ["arguments of callbacks"],
)
prop(
    "C11",
    "The result file holds exactly the computed time history",
    "The HDF5 file written during a run contains the initial state and every p-th step and nothing else, with the times, the values of every quantity in its (global) shape and the error measures of those steps, and a later run into the same file replaces the old content. Reading it back yields those values and the errors with respect to the given solution evaluated with the right initial values.",
    ["configurations", "inputs", "programs"],
    "All sets of quantities and shapes, write-out periods, numbers of steps, schemes with and without error estimate, checkpointing strategies, reference solutions.",
    "The tests write files for one or two ODEs and look at single entries.",
    [S + "file_writer.py"],
    [
        ("writing", S + "file_writer.py: OpenMDAOHDF5Callback"),
        ("reading", S + "file_writer.py: read_hdf5_file, read_last_local_error"),
    ],
    ["HDF5 files", "return values of the reader"],
)
prop(
    "C12",
    "Tags map every variable to its quantity, and wrong tagging is refused",
    "For every correctly tagged stage problem the extracted metadata names for each quantity its variables by role, its shape, and index ranges that partition the state vector, also in the presence of foreign tags and untagged variables. Every stage problem with missing, duplicate or contradictory tags, with a requested quantity it doesn't contain, or with variables of one quantity (or of the time) that don't fit in size, is refused at setup with an error instead of giving results.",
    ["programs", "configurations"],
    "All stage problems: any number of quantities, shapes, promotion and nesting, order of quantities and independent inputs; all single tagging mistakes.",
    "The tests use fixed example problems with at most a few quantities and a list of fixed mistakes.",
    [S + "metadata_extractor.py", S + "errors.py"],
    [("extraction and validation", S + "metadata_extractor.py")],
    ["metadata objects", "errors at setup"],
)
prop(
    "C13",
    "The ODE view of an OpenMDAO problem evaluates and linearises that problem",
    "Evaluating the ODE view of an OpenMDAO problem returns the stage update the problem defines at exactly the given time, states and inputs, independent of evaluations and derivative products before, and leaves its arguments and all earlier results unchanged. Its forward and adjoint derivatives are the exact linearisation at the linearisation point given with the perturbation, whichever evaluation that stems from, and transposes of each other; products that overflowed leave no trace in later ones. Its state norm is the chosen norm of the quantities that are not excluded.",
    ["inputs", "programs", "histories"],
    "All stage problems, evaluation points, seeds and sequences of evaluate, save/restore linearisation point and derivative calls.",
    "The tests check single evaluations of a few problems against numbers and never interleave evaluations and linearisations.",
    [ODE, S + "discretized_ode/discretized_ode.py", S + "om_data_exchange.py"],
    [
        ("evaluation", ODE + ": compute_update"),
        ("linearisation", ODE + ": compute_update_derivative, compute_update_adjoint_derivative"),
        ("linearisation points", ODE + ": _get_linearization_point, _set_linearization_point"),
    ],
    ["return values"],
)
prop(
    "C14",
    "State containers copy and round-trip losslessly without sharing memory",
    "Setting one state from another makes all its data equal without sharing memory and keeps its own arrays in place, exporting to a dictionary and creating a state from it gives an equal state of the same kind, and deep copies are independent. This holds for states of all shapes with and without embedded data, and data written through exported arrays is seen by the state.",
    ["inputs", "histories"],
    "All numbers of stages, state and input sizes (including empty ones), data, and sequences of set, export, import and in-place modification.",
    "The tests round-trip one size of each container with constant data.",
    [S + "time_integration_state.py", S + "time_discretization/runge_kutta_discretization_state.py"],
    [
        ("copies", S + "time_discretization/runge_kutta_discretization_state.py: set, to_dict, from_dict"),
        ("integration state", S + "time_integration_state.py"),
    ],
    ["array contents and identity"],
)
prop(
    "C15",
    "State norms and error measures are the documented norms of the whole state",
    "The norm of a state is the norm of the requested order over all entries of all quantities together, for every order including infinity, and the error measures are the norm of the error estimate, absolute or relative to the state as documented. Norms are nonnegative, scale with the data and do not depend on how the state is split into quantities.",
    ["inputs", "configurations"],
    "All state vectors, splittings into quantities, norm orders and parameters of the measures.",
    "The tests evaluate the two-norm for fixed vectors and few other orders for one quantity.",
    [ODE, S + "error_measurer.py", S + "discretized_ode/discretized_ode.py"],
    [
        ("norm", ODE + ": compute_state_norm"),
        ("measures", S + "error_measurer.py"),
    ],
    ["return values"],
)
prop(
    "C16",
    "Distributed parallel runs give the results of the serial run",
    "Running with MPI and distributed quantities or inputs of any partition, including ranks without data, gives the same final values, step sizes, error norms, derivatives in both modes and result files as the serial run of the same ODE. All ranks agree on every acceptance of a step and on every time.",
    ["configurations", "inputs", "schedules"],
    "All partitions of the quantities over ranks, 2 to 4 ranks, ODEs with local, coupled and distributed terms, fixed and adaptive stepping, checkpointing strategies.",
    "The parallel tests use one fixed partition per test of one or two ODEs and two ranks.",
    [RK, ODE, S + "metadata_extractor.py", S + "file_writer.py"],
    [
        ("global indices", S + "metadata_extractor.py"),
        ("global norms", ODE + ": compute_state_norm"),
        ("collective file output", S + "file_writer.py"),
    ],
    ["outputs, totals and files on all ranks"],
)
prop(
    "C17",
    "Shipped ODEs and helper components compute what they document",
    "The shipped ODE problems' components solve the documented stage equations, the derivatives and linear solves they provide are exact in both modes, their reference solutions solve the ODE with the given initial values at the given initial time (Kaps: on its manifold y_1 = y_2^2), and integrating them converges to these with the order of the scheme. The shipped helper components return and differentiate the documented functions for every shape and selection of inputs and outputs. The example problems run from given files, step sizes and command lines write what an integration with these settings gives.",
    ["inputs", "configurations"],
    "All parameters, evaluation points, seeds, initial times, shapes and numbers of inputs.",
    "The tests use one set of parameters and initial time zero, at which several wrong formulas coincide with the right ones.",
    [S + "odes/kaps.py", S + "odes/prothero_robinson_ode.py", S + "odes/simple_linear_ode.py", S + "utils/problems.py", S + "utils/utility_components.py", S + "components.py"],
    [
        ("components", S + "odes/, " + S + "utils/"),
        ("reference solutions", S + "odes/: kaps_solution, simple_linear_solution, solution"),
    ],
    ["component outputs, partials, totals"],
)
prop(
    "C18",
    "The time discretization works for any implementation of the ODE interface",
    "Applied to any object implementing the ODE interface, the discretization computes the Runge-Kutta step and embedded estimate, its forward derivative and its adjoint, for the given step size and linearisation states. It changes none of its arguments except where documented, and repeating or interleaving calls for different states gives the same results.",
    ["inputs", "programs", "histories"],
    "All ODE implementations (explicit functions with arbitrary state and input sizes, with outputs), tableaux, states, step sizes, and call sequences.",
    "The tests apply it to three fixed ODEs and compare with stored numbers for one step.",
    [DISC, S + "time_discretization/runge_kutta_discretization_state.py", S + "time_discretization/time_discretization_scheme_interface.py", S + "discretized_ode/discretized_ode.py"],
    [
        ("stage-ordered discretization", DISC),
        ("interface template methods", S + "time_discretization/time_discretization_scheme_interface.py"),
    ],
    ["discretization states"],
)
prop(
    "C19",
    "Integrators compose in larger OpenMDAO models like any explicit component",
    "In an outer model with components before and after, several integrators in sequence or feedback loops around an integrator, the converged model and its total derivatives in both modes equal those of the composed discrete solution. This holds for any linear solver of the outer model and any choice of outputs and inputs, as products accumulate into what the model passes in and only touch relevant variables.",
    ["programs", "configurations", "inputs"],
    "All outer models composed of algebraic components and one or two integrators, with all linear solvers, derivative modes and subsets of functions and variables.",
    "The tests put at most one algebraic component around one integrator with the default solver.",
    [RK],
    [
        ("adding into the vectors of the outer model", RK + ": _from_numpy_array_time_integration, _from_numpy_array_independent_input"),
        ("inputs and outputs", RK + ": _add_inputs_and_outputs"),
    ],
    ["Problem.compute_totals, Problem.run_model"],
)

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w", encoding="utf-8") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")

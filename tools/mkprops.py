"""Writes /verif/properties.jsonl (the single place where the property texts are edited)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))


prop("C01", "Collocation coefficients are those of the selected implicit RK scheme",
     "For every supported number of stages and both schemes (Radau IIA, Gauss-Legendre), the stage times, Butcher matrix, weights and the polynomial-derivative form of the coefficients define exactly the corresponding collocation method: stage times are the scheme's quadrature nodes, stage and end-point formulas reproduce every polynomial of degree up to the number of stages, and the quadrature weights have the full order of the scheme. Both coefficient forms describe the same method, and the order reported with the Butcher tableau is 2s-1 (Radau IIA) or 2s (Gauss-Legendre).",
     ["inputs", "configurations"], "all schemes, all stage counts 1..9, both coefficient forms, arbitrary polynomials up to the order",
     "tests only check that a fixed example converges with a few stage counts; a wrong digit in a rarely used tableau or a reduced order stays invisible",
     ["nosnoc/rk_utils.py", "nosnoc/nosnoc_opts.py"],
     [("generate_butcher_tableu", "nosnoc/rk_utils.py"), ("generate_butcher_tableu_integral", "nosnoc/rk_utils.py"), ("NosnocOpts.preprocess", "nosnoc/nosnoc_opts.py")])

prop("C02", "The discretisation is the chosen IRK scheme applied to the given dynamics",
     "For every model, every grid layout (control stages, finite elements per stage), scheme, stage count and representation (integral, differential, lifted), the equality constraints linking states, stage derivatives and step lengths in the generated nonlinear program are exactly the IRK stage, lifting and end-point equations of each finite element, chained from the initial state through all elements. They use the controls and the time-varying and global parameters of the element's own control stage, the global variables, the element's own step length and, if enabled, the local or global speed-of-time factor.",
     ["inputs", "programs", "configurations"], "random piecewise smooth models (several subsystems, parameters, controls, algebraic and global variables) x all discretisation options, evaluated at random points of the primal space",
     "the tests run a handful of models through to a solution and compare with coarse tolerances; a wrong stage parameter, a mixed-up control or a missing factor only shows for specific option combinations",
     ["nosnoc/problem.py", "nosnoc/model.py"],
     [("FiniteElement.forward_simulation / X_fe", "nosnoc/problem.py"), ("NosnocProblem.__init__", "nosnoc/problem.py")],
     ["the NLP handed to the solver back end"])

prop("C03", "The reformulated system selects the vector field of the region the state is in",
     "For every piecewise smooth model (switching functions with a sign matrix of complete sign patterns or, for the Step representation, with don't-care zeros; Stewart indicator functions, several independent subsystems, or a general inclusion with explicit step variables), at every state strictly inside a region the algebraic conditions of the selected representation admit a solution with multipliers that are non-negative and complementary, and its state derivative is the sum over subsystems of the vector field of the region the state is in. The stage algebraic equations in the generated program are exactly these representation conditions (indicator balance, convex multipliers summing to one per subsystem) together with the user's algebraic equations.",
     ["inputs", "programs", "configurations"], "random regions (sign matrices from trees of switching functions, with don't-care zeros), vector fields, Stewart functions, user algebraic equations; random states in every region",
     "tests use single- or two-switch models with symmetric data; a sign or index slip for sparse sign matrices, several subsystems or three and more regions is not exercised",
     ["nosnoc/model.py", "nosnoc/problem.py"],
     [("NosnocModel.preprocess_model", "nosnoc/model.py"), ("FiniteElement.forward_simulation", "nosnoc/problem.py")])

prop("C04", "Initial multipliers are those of the initial state",
     "For every model, representation, parameter value and initial state, the multiplier values attached to the beginning of the horizon are the exact ones of the current initial state: per subsystem the indicator functions minus their minimum (Stewart), or the negative and positive parts of the switching functions (Step). They are re-evaluated whenever the initial state or a parameter is changed before a solve, with the first stage's parameters, and with the algebraic variables at their initial guess or, if requested, at the root of the user's algebraic equations.",
     ["inputs", "histories", "configurations"], "random models and sequences of initial states and parameter values set between solves",
     "tests never look at the initial multipliers; errors only change behaviour of the first finite element for special initial states",
     ["nosnoc/model.py", "nosnoc/solver.py"],
     [("NosnocModel.compute_lambda00", "nosnoc/model.py"), ("NosnocSolverBase.compute_lambda00/setup_p_val", "nosnoc/solver.py")])

prop("C05", "Complementarity constraints cover exactly the pairs FESD requires",
     "For every model and option combination, the generated program couples each stage's region multipliers with every multiplier of the same finite element and with the last multiplier of the preceding element (across control-stage borders, and with the initial multipliers for the first one) when FESD is used, and stage by stage only otherwise. Each pair, or in the aggregated mode each sum, appears once in the documented relaxed form of the selected relaxation mode with the current homotopy parameters, and the reported complementarity residual is the largest product over these pairs.",
     ["inputs", "programs", "configurations"], "all relaxation modes x cross-complementarity modes x representations x FESD on/off x grid layouts, on random models and random primal points",
     "only a subset of mode combinations is run by the tests, and a missing pair (for example across control stages) often still converges to the right answer on the sampled examples",
     ["nosnoc/problem.py"],
     [("create_complementarity", "nosnoc/problem.py"), ("create_complementarity_constraints", "nosnoc/problem.py"), ("get_complementarity_vector", "nosnoc/problem.py")])

prop("C06", "User path complementarities are imposed where they vary",
     "Every pair of expressions that the user declares as path complementarity is imposed in the relaxed form of the selected mode: at every integrator stage of every finite element if it depends on states or algebraic variables, once per control stage if it depends only on controls or time-varying parameters, and once for the whole problem if it depends only on global parameters or global variables. It is evaluated with the states, controls, parameters and global variables of that very place, for any number of finite elements per control stage.",
     ["inputs", "programs", "configurations"], "random pairs of expressions over all variable kinds x grid layouts x relaxation modes x representations",
     "tests contain two examples with one kind of pair each and uniform grids",
     ["nosnoc/ocp.py", "nosnoc/problem.py"],
     [("NosnocOcp.preprocess_ocp", "nosnoc/ocp.py"), ("create_complementarity_constraints, create_global_compl_constraints", "nosnoc/problem.py")])

prop("C07", "Step equilibration acts as documented by its mode",
     "For every step equilibration mode, the generated program contains exactly the mode's terms: quadratic penalties against the mean step or between neighbouring elements of the same control stage, penalties or constraints weighted by the switching indicator (product over multiplier components of forward and backward sums) so that step lengths are only equalised where no switch happens, or the complementarity variants. Nothing is added without FESD, nothing couples elements of different control stages, and all terms use the user's weights.",
     ["inputs", "programs", "configurations"], "all modes x representations x relaxations x grid layouts x random models and primal points",
     "tests only check that one example still solves with each mode; a penalty that couples across stages or a wrong indicator only biases switching times",
     ["nosnoc/problem.py"],
     [("FiniteElement.step_equilibration", "nosnoc/problem.py")])

prop("C08", "Step lengths, clock constraints and time grids are consistent",
     "With FESD every element's step length is a variable bounded by (1-gamma) and (1+gamma) times the equidistant length and initialised there, the steps of every control stage add up to the stage length for an equidistant control grid, otherwise all steps add up to the horizon; without FESD the steps are fixed to the equidistant lengths. With time freezing the physical clock at the end of every control stage is constrained to its nominal value within the tolerance, and speed-of-time factors are bounded as configured. The reported time steps, time grid and control grid always belong to the same partition of the horizon.",
     ["inputs", "configurations"], "random horizons, stage counts, elements per stage (uniform and per-stage lists), gammas, clocks, FESD on/off, random primal points",
     "tests use equidistant stages with equal element counts almost everywhere",
     ["nosnoc/problem.py", "nosnoc/solver.py", "nosnoc/nosnoc_opts.py"],
     [("FiniteElement.__init__ (add_step_size_variable)", "nosnoc/problem.py"), ("NosnocProblem.__init__ clock constraints", "nosnoc/problem.py"), ("get_results_from_primal_vector", "nosnoc/solver.py")])

prop("C09", "The objective is the user's cost evaluated with the scheme's quadrature",
     "For every problem, the objective of the generated program equals the running cost integrated with the scheme's quadrature at the stage values of every element (own step length, controls, parameters and speed-of-time factor), plus the terminal cost at the final state with the last stage's parameters, plus only the documented penalty terms (step equilibration, elastic slack with the chosen scaling, squared residuals for least-squares constraint handling). The reported cost value is the objective of the returned point, with its sign.",
     ["inputs", "programs", "configurations"], "random running and terminal costs over all variable kinds x discretisation options x elastic scalings x least-squares handling, random primal points",
     "tests compare costs of a few examples with loose tolerances and one scheme",
     ["nosnoc/problem.py", "nosnoc/solver.py", "nosnoc/ocp.py"],
     [("forward_simulation cost, f_q_T, elastic and least-squares terms", "nosnoc/problem.py"), ("NosnocSolver.solve cost_val", "nosnoc/solver.py")])

prop("C10", "User path and terminal constraints are imposed at all promised points",
     "Every component of the user's path constraint is imposed with its bounds at the end of every control stage, additionally at the end of every finite element or at every integrator stage if so requested, with the controls and parameters of that stage; the terminal constraint is imposed as an equality at the final state with the last stage's parameters. No other user constraint is added and none is dropped, for every scheme and representation, including those without a stage at the right end point.",
     ["inputs", "programs", "configurations"], "random constraint expressions and bounds (one- and two-sided, equalities) x placement options x schemes x representations x grid layouts",
     "one test counts constraints on one problem; wrong bounds, points or parameters are not detected",
     ["nosnoc/problem.py", "nosnoc/ocp.py"],
     [("forward_simulation path constraints", "nosnoc/problem.py"), ("NosnocProblem.__init__ terminal constraint", "nosnoc/problem.py")])

prop("C11", "Variable bounds and initial guesses are the documented ones",
     "In every generated program each variable carries the bounds and the initial guess documented for its kind: user bounds for states, controls, algebraic and global variables, non-negative multipliers for the relaxations that need it, step variables in [..,1], free stage derivatives and normalisation multipliers, configured bounds for speed-of-time and elastic variables. All finite elements expose one state per required point, so that the number and grouping of variables follows from scheme, representation, grid and model alone.",
     ["inputs", "programs", "configurations"], "random bounds and guesses x all options and grid layouts",
     "the tests solve problems whose bounds are inactive or symmetric; a bound attached to the wrong variable goes unnoticed",
     ["nosnoc/problem.py"],
     [("FiniteElement.__init__, add_variable", "nosnoc/problem.py")])

prop("C12", "Setting a parameter value equals building the model with that value",
     "For every problem, setting global or time-varying parameter values (when creating the model or later through the solver) yields the same nonlinear program as a model in which these values are written as constants, for every control stage separately. Setting one kind of parameter never changes the values of the other kind, and a later value replaces the earlier one completely.",
     ["inputs", "histories", "programs"], "random models with both parameter kinds, random sequences of set operations, compared with constant-folded models",
     "tests set parameters of one kind on simple models and look only at one solution",
     ["nosnoc/solver.py", "nosnoc/model.py", "nosnoc/problem.py"],
     [("NosnocSolverBase.set p_global/p_time_var", "nosnoc/solver.py"), ("NosnocModel.preprocess_model", "nosnoc/model.py")])

prop("C13", "Setting initial values and guesses changes exactly what was addressed",
     "For every sequence of set operations and solves, each set operation writes exactly the addressed entries of the initial guess (states per control stage or per finite element, controls, global variables, region multipliers, the whole vector) or the initial state, leaving everything else as it was; badly sized state guesses and unknown fields are rejected. The first subproblem of a solve then starts from that guess as modified only by the selected initialisation strategy: all states at the initial state, additionally everything else from the previous solution, or untouched for external initialisation.",
     ["histories", "inputs", "configurations"], "random sequences of set and solve operations on random problems, against a reference model of the guess",
     "tests set single fields once; interactions between set operations, strategies and repeated solves are not covered",
     ["nosnoc/solver.py"],
     [("NosnocSolverBase.set / initialize", "nosnoc/solver.py"), ("NosnocSolver.solve warm start", "nosnoc/solver.py")])

prop("C14", "Reported trajectories are the primal solution at the right places",
     "For every problem layout and every primal vector returned by the solver back end, the reported states, controls, multipliers, algebraic, global and speed-of-time variables are the entries of that vector belonging to the respective element or stage: states at element ends (and at all points), multipliers and algebraic variables at the last point of each element, one control per control stage, in time order and starting from the initial state. Switch times are exactly the interior grid points at which the active region multipliers change by more than the threshold.",
     ["inputs", "configurations"], "arbitrary primal vectors x all layouts, schemes, representations, numbers of subsystems",
     "tests only look at final states and lengths of a few results",
     ["nosnoc/solver.py", "nosnoc/utils.py"],
     [("get_results_from_primal_vector", "nosnoc/solver.py"), ("index helpers", "nosnoc/utils.py")])

prop("C15", "The homotopy follows its schedule and reports what really happened",
     "For every homotopy configuration and every sequence of subproblem outcomes, the subproblems are solved with the relaxation parameter starting at its initial value and following the linear or superlinear rule, each warm-started from the previous iterate with the problem's bounds, until the complementarity residual is below tolerance, the final parameter is reached or the iteration limit is hit - not earlier and not later. The reported iterates, solution, cost, iteration and timing statistics are those of the subproblems, and the status is success if and only if the last subproblem ended successfully.",
     ["fault_sequences", "histories", "configurations"], "random schedules and scripted back-end behaviour (iterates, residuals, arbitrary return statuses at arbitrary iterations)",
     "tests use the real back end, which nearly always succeeds, with default schedules; failures at chosen iterations never happen",
     ["nosnoc/solver.py", "nosnoc/nosnoc_opts.py"],
     [("NosnocSolver.solve homotopy loop", "nosnoc/solver.py"), ("homotopy_sigma_update", "nosnoc/solver.py"), ("max_iter_homotopy default", "nosnoc/nosnoc_opts.py")])

prop("C16", "A solution reported as successful satisfies the switched system",
     "Whenever a solve reports success with exact constraint handling and a relaxation driven to its final value, the returned trajectory is a solution of the discretised switched system: within tolerance it satisfies the IRK equations of the original vector fields combined by the reported convex region multipliers, multipliers of regions the state is not in vanish, step lengths are non-negative and fill the horizon, and the algebraic equations and all bounds hold.",
     ["inputs", "programs", "configurations"], "random switched systems, initial states, parameters and option combinations solved with the real back end",
     "tests check end states of a few systems with known solution",
     ["nosnoc/solver.py", "nosnoc/problem.py", "nosnoc/model.py"],
     [("NosnocSolver.solve", "nosnoc/solver.py"), ("problem construction", "nosnoc/problem.py")])

prop("C17", "FESD simulation detects switches exactly",
     "For switched systems whose exact hybrid solution is known (crossing a surface, sliding along it, leaving it, several independent switches), every successful FESD simulation with enough finite elements reproduces the exact end state and all intermediate grid states at the accuracy of the underlying scheme without switches, and reports the exact switch times as grid points. This holds for all schemes, stage counts, representations and cross-complementarity modes.",
     ["inputs", "programs", "configurations"], "random affine switched systems with analytic hybrid trajectories, random initial states and switching times, random options",
     "tests use one fixed switched system and one fixed initial state per option combination",
     ["nosnoc/problem.py", "nosnoc/model.py", "nosnoc/solver.py"],
     [("cross complementarity and variable step lengths", "nosnoc/problem.py"), ("switch detection", "nosnoc/solver.py")])

prop("C18", "Away from switches the solution is the plain IRK solution",
     "For every smooth nonlinear vector field and every horizon on which no region boundary is reached, a successful simulation returns at every element boundary the state of the selected implicit RK scheme on the reported grid, independent of FESD, representation, switching model and number of stages, and the integral of the running cost is the scheme's quadrature of that trajectory.",
     ["inputs", "programs", "configurations"], "random nonlinear vector fields and horizons x schemes x stage counts x representations x FESD on/off, against an independent Newton-based IRK integrator",
     "tests cover linear dynamics with two stages in most cases",
     ["nosnoc/problem.py", "nosnoc/rk_utils.py"],
     [("forward_simulation", "nosnoc/problem.py")])

prop("C19", "Equivalent formulations of one problem have the same solution",
     "Formulations that describe the same switched system give the same trajectory, switch times and cost within solver tolerance: Stewart or Step representation, switching functions with sign matrix or Stewart indicators, integral, differential or lifted representation, either cross-complementarity mode, permuted regions, switching functions with flipped sign and sign matrix column, permuted subsystems or states, one coupled or several independent subsystems, and a shifted or rescaled time axis.",
     ["inputs", "programs", "configurations"], "random switched systems with random pairs of equivalent formulations",
     "tests run formulations separately on one example; no comparison between them on other systems",
     ["nosnoc/model.py", "nosnoc/problem.py", "nosnoc/solver.py"],
     [("preprocess_model", "nosnoc/model.py"), ("FiniteElement", "nosnoc/problem.py")])

prop("C20", "The simulation loop is the composition of its single steps",
     "For every number of steps, parameter sequence and guess sequence, the simulation loop's states, step lengths, time grid, multipliers, costs, statuses and switch times are the concatenation of the individual solves, where step i starts from the final state of step i-1 and uses the i-th parameter value and guess. Reported switch times are absolute, and with stop-on-failure the loop ends at the first failing step and reports it, otherwise it runs all steps.",
     ["histories", "fault_sequences", "inputs"], "random sequences of single-step results, including failures at arbitrary steps (scripted back end), and real simulations compared with manual stepping",
     "tests only run successful loops with fixed parameters and check the end state",
     ["nosnoc/helpers.py"],
     [("NosnocSimLooper.run/get_results", "nosnoc/helpers.py")])

prop("C21", "Results do not depend on what was built or solved before",
     "Building and solving a problem gives the same result no matter which other options, models or solvers were created, configured, solved or changed before, in any order; options objects do not share state. Solving the same solver again with the same initial state and guess repeats the same result, and a model can be reused, one after the other, for several solvers and discretisations.",
     ["histories", "configurations"], "random histories of creating and configuring options, building solvers from shared or fresh models, setting values and solving, compared with a fresh process state",
     "every test builds everything from scratch, once",
     ["nosnoc/nosnoc_opts.py", "nosnoc/model.py", "nosnoc/solver.py", "nosnoc/ocp.py"],
     [("class-level defaults of NosnocOpts", "nosnoc/nosnoc_opts.py"), ("preprocess_model overwriting attributes", "nosnoc/model.py")])

prop("C22", "Automatic reformulation preserves the nonsmooth right-hand side",
     "For every right-hand side built from smooth expressions and non-nested sign, max and min terms, the automatically generated switched model has the same right-hand side: at every point off the switching surfaces, its vector field with the region or step variables determined by the switching functions equals the original expression, for all states, controls and parameters. The dimensions, initial state, controls and parameters of the original are kept.",
     ["inputs", "programs"], "random expression trees with several nonsmooth terms, repeated switching functions, products and compositions; random evaluation points",
     "tests check a few hand-written expressions, mostly their structure",
     ["nosnoc/auto_model.py"],
     [("NosnocAutoModel.reformulate", "nosnoc/auto_model.py")])

prop("C23", "Inconsistent problem data is rejected, consistent data accepted",
     "Every problem with inconsistent data (missing or doubly specified switching information, mismatching numbers of regions, rows, parameters, bounds or guesses, wrong option types, wrong representation for the model type, non-vanishing bounds with least-squares handling, non-simulation problems in the simulation loop) is rejected with an exception before any subproblem is solved. Every consistent problem is accepted.",
     ["inputs", "configurations"], "random consistent problems, and the same problems with one randomly chosen defect injected",
     "tests contain a handful of invalid inputs",
     ["nosnoc/model.py", "nosnoc/ocp.py", "nosnoc/utils.py", "nosnoc/helpers.py", "nosnoc/problem.py"],
     [("NosnocModel.__init__/preprocess_model checks", "nosnoc/model.py"), ("NosnocOcp.preprocess_ocp checks", "nosnoc/ocp.py"), ("validate", "nosnoc/utils.py")])

prop("C24", "A dumped problem is the problem",
     "Dumping any generated program to a file and loading it again yields functions, bounds, guesses, index lists and parameter values that describe the same nonlinear program: the loaded objective and constraints agree with the original at every point, and the stored parameter vector is the current one with vanishing homotopy parameters.",
     ["inputs", "programs", "configurations"], "random problems over all options, dumped, reloaded in-process and compared at random points",
     "no test dumps a problem",
     ["nosnoc/problem.py"], [("NosnocProblem.dump", "nosnoc/problem.py")])

prop("C25", "Explicit RK4 and the smoothed start trajectory follow their definition",
     "The explicit integrators perform classical fourth-order Runge-Kutta steps over the requested uniform or non-uniform grid for any vector field and return one state per grid point. The smoothed model replaces every region multiplier by the normalised product of hyperbolic-tangent steps, which form a partition of unity over complete sign patterns and converge to the true region selection as the smoothing vanishes, and the smoothed start strategy initialises every stage on the RK4 trajectory of that model at its own stage time, with the region multipliers of the smoothed model, the exact indicator multipliers, and finite values for every smoothing parameter.",
     ["inputs", "programs", "configurations"], "random vector fields, grids and smoothing parameters; random switched models; random schemes",
     "tests only run one example with this strategy",
     ["nosnoc/rk_utils.py", "nosnoc/model.py", "nosnoc/solver.py"],
     [("rk4, rk4_on_timegrid", "nosnoc/rk_utils.py"), ("add_smooth_step_representation", "nosnoc/model.py"), ("initialize RK4_SMOOTHENED", "nosnoc/solver.py")])

prop("C26", "Polishing and active-set fixing only fix what is decided",
     "The polishing step re-solves with vanishing relaxation (the elastic modes keep their last slack weight, the objective stays the user's) and the original bounds except that region multipliers and their dual multipliers which are numerically zero or one are fixed to exactly that value; all other variables (states, controls, step lengths, slacks, global, normalisation, algebraic) keep their bounds, and the polished point, cost and status are what is reported. Fixing the active set at the start fixes to zero exactly the first element's region multipliers of regions that the initial state is not in, and neither option changes the problem for later solves or invalidates a correct solution.",
     ["inputs", "configurations", "histories"], "random problems and iterates (scripted back end), and random solvable switched systems with the real back end",
     "tests run two examples with these options",
     ["nosnoc/solver.py"],
     [("polish_solution", "nosnoc/solver.py"), ("fix_active_set_fe0", "nosnoc/solver.py")])

prop("C27", "Optimal control solutions are admissible and optimal where known",
     "For every optimal control problem that is reported as solved, re-simulating the true switched system with the reported piecewise constant controls, parameters and speed-of-time factors reproduces the reported state trajectory; the controls and states respect their bounds, the path and terminal constraints hold, and the reported cost is the cost of that trajectory. For problems with a known optimum the reported cost is that optimum.",
     ["inputs", "programs", "configurations"], "random optimal control problems for switched integrators and linear-quadratic problems with analytic optimum, random bounds, horizons, grids, schemes, time-optimal variants",
     "tests solve three fixed optimal control problems",
     ["nosnoc/problem.py", "nosnoc/solver.py", "nosnoc/ocp.py"],
     [("NosnocProblem", "nosnoc/problem.py"), ("get_results_from_primal_vector", "nosnoc/solver.py")])

prop("C28", "Least-squares handling turns all constraints into squared residuals",
     "With least-squares constraint handling the program passed to the back end has no constraints, and its objective is the objective of the exact handling plus the sum of squares of all its constraint residuals, for every problem whose constraints are all equalities with zero right-hand side; variable bounds and guesses are unchanged. Problems with any other constraint bound are rejected.",
     ["inputs", "programs", "configurations"], "random problems and option combinations, built twice (exact and least-squares) and compared at random points",
     "tests solve one simple simulation in this mode",
     ["nosnoc/problem.py"], [("LEAST_SQUARES reformulation", "nosnoc/problem.py")])

if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")

"""Per-property description of the checks (used by run.py for the evidence and by tools/mkmanifest.py)."""
META = {}


def add(pid, technique, rule, note, quick_limit=450, thorough_limit=2400, min_solved=None, assumptions=()):
    META[pid] = dict(rule=rule, limit=dict(quick=quick_limit, thorough=thorough_limit), min_solved=min_solved,
                     assumptions=list(assumptions), technique=technique, note=note)


NUM = "constraints and costs are compared point-wise at random primal points (up to positive scaling, as multisets), tolerance 1e-7"
FAKE = "casadi.nlpsol is replaced by a scripted back end; CasADi's symbolic evaluation is trusted"
IPOPT = "IPOPT solves that do not report success decide nothing (counted as inconclusive); a minimum share has to succeed"

add("C01", "property-based testing, differential against an independent derivation (Legendre polynomials, exact polynomial integration)",
    "(scheme, number of stages, form, random polynomial) tuples plus all (scheme, n_s<=9) pairs; non-trivial: more than one stage",
    "All scheme/stage-count pairs are enumerated; polynomials are sampled. Trusts numpy's polynomial arithmetic.")
add("C02", "property-based testing, generated problems against a point-wise reference NLP",
    "random model x grid x discretisation specifications; non-trivial: several control stages, several subsystems or a non-default representation",
    "Every expected IRK equation must be found in the program, and nothing else of that kind may be there; " + NUM + ".", assumptions=[NUM, FAKE])
add("C03", "property-based testing, reference NLP plus region semantics of random points",
    "random piecewise smooth models (sign matrices, Stewart indicators, general inclusions, several subsystems) and random states inside regions; non-trivial: several subsystems, more than two regions or a general inclusion",
    "Stage equations against a reference, and at random states the multipliers solving them are constructed and the selected vector field compared.", assumptions=[NUM, FAKE])
add("C04", "stateful property-based testing against the closed form of the initial multipliers",
    "random models and histories of initial value/parameter changes and solves; non-trivial: more than one solve or any parameter, algebraic variable or second subsystem",
    "Initial multipliers are read through the constraints of the program handed to the back end.", assumptions=[NUM, FAKE])
add("C05", "property-based testing, generated problems against a point-wise reference NLP",
    "random models x relaxation mode x cross mode x grid x scheme; non-trivial: more than one finite element",
    "All complementarity constraints and the residual function against a reference.", assumptions=[NUM, FAKE])
add("C06", "property-based testing, generated problems against a point-wise reference NLP",
    "random models with 1-3 user complementarity pairs of the three classes; non-trivial: more than one finite element",
    "Multiset comparison of the path complementarity constraints.", assumptions=[NUM, FAKE])
add("C07", "property-based testing, generated problems against a point-wise reference NLP",
    "random models x all step equilibration modes x weights x grids; non-trivial: FESD with several elements per stage",
    "Penalties and constraints against the reference.", assumptions=[NUM, FAKE])
add("C08", "property-based testing, generated problems against a point-wise reference NLP and invariants of the reported grid",
    "random grids, equidistant or not, time freezing, speed-of-time modes; non-trivial: several stages, time freezing or speed of time",
    "Bounds, guesses and clock constraints against the reference; reported grids for random back-end answers.", assumptions=[NUM, FAKE])
add("C09", "property-based testing, objective against an independent quadrature",
    "random costs, parameters, schemes and step equilibration/elastic terms; non-trivial: running cost on several elements",
    "Objective at random primal points, and reported cost against the back end's value.", assumptions=[NUM, FAKE])
add("C10", "property-based testing, generated problems against a point-wise reference NLP",
    "random path/terminal constraints with bounds x scheme x representation x g_path_at_fe/stg; non-trivial: path constraint with several stages or additional points",
    "Multiset comparison of the user constraints.", assumptions=[NUM, FAKE])
add("C11", "property-based testing, documented bounds and guesses as reference",
    "random models, user bounds and guesses x all modes; non-trivial: an OCP or algebraic variables",
    "Bounds and guess of every variable handed to the back end.", assumptions=[FAKE])
add("C12", "metamorphic property-based testing (parameter value = constant in the model)",
    "random models with global and time-varying parameters and histories of set operations; non-trivial: at least one set operation and several control stages",
    "Programs with parameters and with constants agree at random points.", assumptions=[NUM, FAKE])
add("C13", "stateful property-based testing against a model of the initial guess",
    "histories of up to 7 (thorough 13) set operations and solves x initialisation strategy; non-trivial: several solves or more than two kinds of operations",
    "The guess of the first subproblem of each solve is compared entry-wise with a model.", assumptions=[FAKE])
add("C14", "property-based testing, extraction of arbitrary primal vectors against index semantics",
    "random problem layouts and random primal vectors; non-trivial: more than one finite element",
    "All reported lists and the switch times.", assumptions=[FAKE])
add("C15", "property-based testing with a scripted back end (model of the homotopy)",
    "homotopy options x sequences of subproblem outcomes (residual level, status, iterations); non-trivial: more than one subproblem",
    "Number of subproblems, relaxation parameter of each (read through the constraints), warm starts, bounds, statistics, status.", assumptions=[FAKE])
add("C16", "property-based testing with real solves, validity of the result under the reference NLP",
    "random switched systems and OCP-like problems solved with IPOPT; non-trivial: a switch or sliding mode occurs, or several control stages",
    "Every reported success is validated by the point-wise reference of the discretised system. " + IPOPT + ".", min_solved=0.5, assumptions=[IPOPT])
add("C17", "property-based testing with real solves against exact hybrid trajectories",
    "random switched systems with known hybrid solution (crossing, sliding, leaving, several switches) x scheme x n_s x representation x cross mode; non-trivial: at least one switch in the horizon",
    "Composite reference integration of the modes on the reported grid. " + IPOPT + ".", min_solved=0.6, assumptions=[IPOPT])
add("C18", "differential property-based testing with real solves against plain IRK steps",
    "random smooth nonlinear fields far from their switching surface x all discretisations; non-trivial: nonlinear field and several elements",
    "States at element ends and running cost against a reference integrator. " + IPOPT + ".", min_solved=0.7, assumptions=[IPOPT])
add("C19", "metamorphic property-based testing with real solves",
    "random switched problem and a random equivalent reformulation of it; non-trivial: a switch occurs or several subsystems",
    "Trajectories, switch times and costs of both agree. " + IPOPT + ".", min_solved=0.6, assumptions=[IPOPT])
add("C20", "property-based testing against manual stepping (scripted back end)",
    "random simulation problems x numbers of steps x parameter/guess sequences x back-end outcomes; non-trivial: more than one step",
    "All results of the loop against the composition of single solves.", assumptions=[FAKE])
add("C21", "stateful metamorphic property-based testing (a history must not change the target)",
    "random target problem and random history of other builds, option changes and solves; non-trivial: the history contains an operation",
    "Signature of the program, options and answers before/after/without the history.", assumptions=[FAKE])
add("C22", "property-based testing, generated right-hand sides evaluated independently",
    "random right-hand sides with sign/max/min terms at random points off the switching surfaces; non-trivial: several modes visited and several usable points",
    "Every generated model is evaluated with the multipliers of the region the point is in.", assumptions=[])
add("C23", "property-based testing, random inconsistent mutations of consistent problems",
    "random consistent problem x named inconsistency; non-trivial: a mutated problem",
    "Mutated problems must raise before the back end is called, unmutated ones must not.", assumptions=[FAKE])
add("C24", "round-trip property-based testing",
    "random problems and histories of set operations, dumped and loaded again; non-trivial: a set operation or an OCP",
    "Loaded functions, vectors and index lists against the live problem.", assumptions=[FAKE])
add("C25", "differential property-based testing against textbook RK4 and the closed-form smoothing",
    "random vector fields, grids and smoothing parameters, smoothed starts; non-trivial: more than one step",
    "Integrators, partition of unity and the initial guess of every stage.", assumptions=[FAKE])
add("C26", "property-based testing with a scripted back end",
    "random problems and back-end answers with entries near 0, near 1 and in between; non-trivial: something is fixed",
    "Bounds, start point and parameters of the polishing call, reported results, later solves.", assumptions=[FAKE])
add("C27", "property-based testing with real solves (re-simulation of the controls, known optima)",
    "random switched OCPs; non-trivial: controls enter the dynamics and a switch or constraint is active",
    "Reported trajectories against independent re-simulation, known optima against closed forms. " + IPOPT + ".", min_solved=0.5, assumptions=[IPOPT])
add("C28", "metamorphic property-based testing (least squares versus exact handling)",
    "random problems with equality constraints, both handlings; non-trivial: every case",
    "Objectives and constraints of both programs at random points, rejection of other bounds.", assumptions=[NUM, FAKE])

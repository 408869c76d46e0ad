"""C21: results do not depend on what was built or solved before."""
import contextlib
import copy
import zlib

import numpy as np
from hypothesis import strategies as st

from pbt import build, expr, fake, gen, hgen
from pbt.core import fail, quiet, require, sut
from pbt.zygote import Zygote

BUDGET = dict(quick=dict(cases=840, seconds=150), thorough=dict(cases=20000, seconds=1200))

INIT = ["EXTERNAL", "ALL_XCURRENT_W0_START", "ALL_XCURRENT_W0_START", "ALL_XCURRENT_WOPT_PREV"]


def target_extra(draw, spec):
    o = spec["opts"]
    o["max_iter_homotopy"] = draw(st.sampled_from([0, 1, 2, 3]))
    o["initialization_strategy"] = draw(st.sampled_from(INIT))
    o["do_polishing_step"] = draw(st.integers(0, 4)) == 0
    o["fix_active_set_fe0"] = draw(st.integers(0, 4)) == 0
    o["comp_tol"] = draw(st.sampled_from([1e-8, 1e-6, 1e-4]))
    if draw(st.integers(0, 3)) == 0:
        o["tol_ipopt"] = draw(st.sampled_from([1e-9, 1e-12]))
    if draw(st.integers(0, 3)) == 0:
        o["nlp_max_iter"] = draw(st.sampled_from([77, 1500]))


@st.composite
def problem(draw, small=False):
    return draw(gen.problem(n_s=(1, 3 if small else 4), max_stages=2 if small else 3, max_nfe=2, max_total=3 if small else 4, sot=["NONE", "NONE", "LOCAL", "GLOBAL"],
                            steq=gen.STEQ[:4], model_kw=dict(max_nx=2, nz=1, nv=1), extra=target_extra))


CHANGES = [("irk_scheme", gen.SCHEMES), ("irk_representation", gen.REPS), ("n_s", [1, 2, 3, 4]), ("use_fesd", [True, False]), ("terminal_time", [0.3, 5.0]),
           ("mpcc_mode", ["SCHOLTES_INEQ", "ELASTIC_EQ", "ELASTIC_TWO_SIDED", "BOOLEAN"]), ("step_equilibration", gen.STEQ[:4]), ("sigma_0", [0.2, 7.0]), ("gamma_h", [0.5, 0.0]),
           ("rho_h", [3.0]), ("cross_comp_mode", gen.CROSS[1:]), ("equidistant_control_grid", [True, False]), ("do_polishing_step", [True]), ("fix_active_set_fe0", [True]),
           ("comp_tol", [1e-3, 1e-10]), ("objective_scaling_direct", [False]), ("N_finite_elements", [1, 2, 3]), ("max_iter_homotopy", [0, 1, 4]),
           ("initialization_strategy", INIT), ("homotopy_update_slope", [0.5]), ("sigma_N", [1e-3]), ("g_path_at_fe", [True]), ("g_path_at_stg", [True])]


@st.composite
def changes(draw, n=3):
    out = {}
    for k, vs in draw(st.lists(st.sampled_from(CHANGES), min_size=1, max_size=n, unique_by=lambda q: q[0])):
        out[k] = draw(st.sampled_from(vs))
    return out


@st.composite
def strategy_(draw, tier):
    spec = draw(problem())
    spec["real"] = False
    if draw(st.integers(0, 11)) == 0:
        spec = dict(draw(hgen.switched(levels=(0, 1))), real=True, wseed=0)
        spec["opts"] = draw(hgen.solver_opts(spec, n_s=(1, 2)))
        spec["opts"].update(N_stages=1, N_finite_elements=2, terminal_time=1.0, nlp_max_iter=200)
    N = spec["opts"]["N_stages"]
    hist = []
    for _ in range(draw(st.integers(1, 3))):
        kind = draw(st.sampled_from(["opts", "other", "sibling", "sibling", "shared", "shared", "twin", "loop", "auto", "ocp", "before", "before", "edited", "edited"]))
        op = dict(op=kind, seed=draw(st.integers(0, 999)))
        if kind == "opts":
            op.update(change=draw(changes(4)), nested=draw(st.sampled_from([["tol", 1e-3], ["max_iter", 3], ["print_level", 0], ["mu_strategy", "monotone"], ["my_option", 1]])),
                      tol=draw(st.sampled_from([None, 1e-2])), iters=draw(st.sampled_from([None, 2])), preprocess=draw(st.booleans()))
        elif kind == "other":
            op.update(spec=draw(problem(small=True)))
        elif kind in ("sibling", "shared"):
            c = draw(changes())
            if kind == "shared" and draw(st.booleans()) and not spec["npt"] and not spec["real"]:
                c["N_stages"] = draw(st.sampled_from([1, 2]))
            op.update(change=c)
        hist.append(op)
    spec["hist"] = hist
    # what is done with the target
    spec["acts"] = [draw(st.sampled_from(["solve", "solve", "x0", "p_global", "p_time_var", "u", "w"])) for _ in range(draw(st.integers(0, 3)))] + ["solve"]
    return spec


def strategy(tier):
    return strategy_(tier)


def rng(*key):
    return np.random.RandomState(zlib.crc32(repr(key).encode()) % (2**31))


def script(k, c, nlp):
    """the answer depends on the call only"""
    n = len(c["x0"])
    q = rng(n, k)
    return dict(x=q.uniform(0.0, 1.2, n), status=["Solve_Succeeded", "Solved_To_Acceptable_Level", "Maximum_Iterations_Exceeded"][q.randint(3)], iter=int(q.randint(50)), time=0.25)


def numbers(v):
    """nested results as plain data"""
    if isinstance(v, dict):
        return {k: numbers(q) for k, q in sorted(v.items())}
    if isinstance(v, (list, tuple)):
        return [numbers(q) for q in v]
    if v is None or isinstance(v, (str, bool)):
        return v
    if hasattr(v, "name") and hasattr(v, "value"):
        return v.name
    try:
        return np.array(v, float).tolist()
    except (TypeError, ValueError):
        return str(type(v))


def assign(solver, act, spec, seed):
    """a set operation with reproducible values"""
    q = rng(act, seed)
    N = spec["opts"]["N_stages"]
    n = dict(x0=(spec["nx"],), p_global=(spec["npg"],), p_time_var=(N, spec["npt"]), u=(N, spec["nu"]), w=(len(solver.problem.w0),))[act]
    if 0 in n:
        return
    try:
        solver.set(act, q.uniform(-1, 1, n))
    except Warning:
        pass


TIMES = ("cpu_time_nlp", "cpu_time", "wall_time", "t_proc", "t_wall")


def result_numbers(r):
    out = {k: v for k, v in numbers(r).items() if not any(t in k for t in TIMES)}
    if out["status"] != "SUCCESS":
        # IPOPT does not always set the number of iterations when it refuses a problem
        out.pop("nlp_iter")
    return out


@contextlib.contextmanager
def backend(real):
    if real:
        yield None
    else:
        with fake.fake_backend(script) as created:
            yield created


def program(nlp, prob, spec):
    q = rng("points", nlp.nw)
    out = []
    for _ in range(2):
        w = q.uniform(0.05, 1.2, nlp.nw)
        p = q.uniform(0.1, 1.0, nlp.p.shape[0])
        f, g = nlp.fun(w, p)
        out.append([float(f), g.full().flatten().tolist()])
    return out


def make(spec, objs=None):
    """-> (solver, back end)"""
    import nosnoc
    with backend(spec["real"]) as created:
        opts, model, ocp = objs or build.build(spec)[:3]
        solver = nosnoc.NosnocSolver(opts, model, ocp)
    return solver, (created[-1] if created else None)


def signature(spec, solver, nlp):
    out = {}
    prob = solver.problem
    if nlp is not None:
        del nlp.calls[:]
        out["program"] = program(nlp, prob, spec)
        out["nlp options"] = numbers(nlp.opts)
        out["plugin"] = nlp.plugin
    for k in ("w0", "lbw", "ubw", "lbg", "ubg"):
        out[k] = numbers(getattr(prob, k))
    out["results"] = []
    for i, act in enumerate(spec["acts"]):
        if act == "solve":
            r = solver.solve()
            out["results"].append(result_numbers(r))
        else:
            assign(solver, act, spec, i)
    if nlp is not None:
        out["calls"] = [{k: v.tolist() for k, v in c.items() if isinstance(v, np.ndarray) and k != "answer"} for c in nlp.calls]
    return out


def pristine(spec):
    with quiet():
        solver, nlp = make(spec)
        return signature(spec, solver, nlp)


def edited(op, spec, shared):
    """the user's model and ocp objects are used with other contents before"""
    import casadi as ca
    q = rng("edited", op["seed"])
    _, model, ocp = shared
    s = build.syms(spec)
    old = []

    def put(obj, k, v):
        old.append((obj, k, getattr(obj, k)))
        setattr(obj, k, v)
    given = build.model_kwargs(spec, s)
    for k in given:
        v = getattr(model, k)
        if k in ("x0", "z0", "p_global_val", "p_time_var_val") and isinstance(v, np.ndarray):
            put(model, k, v + q.uniform(0.1, 0.4, v.shape))
        elif k in ("F", "c", "g_Stewart", "f_x"):
            put(model, k, [e * float(q.uniform(0.5, 2)) + 0.25 for e in v])
        elif k == "S":
            put(model, k, [-np.array(e) for e in v])
    if ocp is not None:
        bounds = dict(lbu="nu", ubu="nu", u_guess="nu", lbx="nx", ubx="nx", v_global_guess="nv")
        for k, n in bounds.items():
            if k in build.ocp_kwargs(spec, s) and q.randint(2):
                put(ocp, k, q.uniform(-1, 1, spec[n]))
        x = model.x
        put(ocp, "f_q", ca.sumsqr(x) * 3.5)
        put(ocp, "f_terminal", ca.sum1(x) * 1.5)
        if ca.SX(ocp.g_terminal).numel() and q.randint(2):
            put(ocp, "g_terminal", ocp.g_terminal * 2 + 0.5)
        if ca.SX(ocp.g_path).numel() and q.randint(2):
            put(ocp, "g_path", ocp.g_path * 2 + 0.5)
    try:
        solver = make(spec, (build.build_opts(spec["opts"]), model, ocp))[0]
        solver.solve()
    finally:
        for obj, k, v in reversed(old):
            setattr(obj, k, v)


def history(op, spec, shared):
    """one operation of the history"""
    import casadi as ca
    import nosnoc
    if op["op"] == "opts":
        o = build.build_opts(op["change"])
        o.opts_casadi_nlp["ipopt"][op["nested"][0]] = op["nested"][1]
        if op["tol"]:
            o.tol_ipopt = op["tol"]
        if op["iters"]:
            o.nlp_max_iter = op["iters"]
        if op["preprocess"]:
            o.preprocess()
        return
    if op["op"] == "ocp":
        o = nosnoc.NosnocOcp()
        for k, v in vars(o).items():
            # the user may fill in what the object offers
            if isinstance(v, np.ndarray) and v.size:
                v[:] = 3.7
        o.lbu, o.ubu = np.array([-0.1]), np.array([0.1])
        o.f_q = ca.SX.sym("q", 1)
        return
    if op["op"] == "auto":
        x = ca.SX.sym("x", 2)
        a = nosnoc.NosnocAutoModel(x=x, f_nonsmooth_ode=ca.vertcat(ca.sign(x[0]), ca.fmax(x[1], x[0])), x0=np.array([0.4, -0.3]), u=ca.SX.sym("u", 1), p=ca.SX.zeros(0))
        m = a.reformulate()
        make(dict(spec, real=False), (build.build_opts(dict(pss_mode="STEP", n_s=2)), m, None))[0].solve()
        return
    real = False
    if op["op"] == "other":
        s = op["spec"]
        objs = None
    elif op["op"] == "twin":
        # the very same options, model and problem objects
        s, objs = spec, shared
    elif op["op"] == "before":
        return
    elif op["op"] == "edited":
        return edited(op, spec, shared)
    elif op["op"] == "loop":
        s, objs = copy.deepcopy(spec), None
        s["nu"], s["ocp"], s["npt"] = 0, None, 0
        exprs = lambda e: expr.subst(e, dict(u=[0.3] * 9, pt=[0.1] * 9))  # noqa: E731
        for y in s["sys"]:
            for k, v in y.items():
                if k in ("c", "g", "f"):
                    y[k] = [exprs(e) for e in v]
            if "F" in y:
                y["F"] = [[exprs(e) for e in col] for col in y["F"]]
        if s["nz"]:
            s["g_z"] = [exprs(e) for e in s["g_z"]]
        s["opts"].update(N_stages=1, Nfe_list=[], N_finite_elements=2)
    else:
        s = copy.deepcopy(spec)
        s["opts"].update(op["change"])
        if "N_stages" in op["change"] and s["opts"]["N_stages"] != spec["opts"]["N_stages"] or "N_finite_elements" in op["change"]:
            s["opts"]["Nfe_list"] = []
        if s["opts"]["mpcc_mode"] == "FISCHER_BURMEISTER_IP_AUG":
            s["opts"]["cross_comp_mode"] = gen.CROSS[1]
        objs = None
        if op["op"] == "shared":
            objs = (build.build_opts(s["opts"]), shared[1], shared[2])
    s = dict(s, real=real)
    solver, nlp = make(s, objs)
    if op["op"] == "loop":
        nosnoc.NosnocSimLooper(solver, np.array(s["x0"], float), 2, print_level=0).run()
        return
    if objs is None:
        for act in ("x0", "p_global", "p_time_var", "u", "w"):
            assign(solver, act, s, op["seed"])
    solver.solve()
    if objs is None:
        assign(solver, "x0", s, op["seed"] + 1)
        solver.solve()


_zygote = None


def diff(a, b, path=""):
    """first difference of two signatures"""
    if type(a) != type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
        return f"{path}: {str(a)[:80]} / {str(b)[:80]}"
    if isinstance(a, dict):
        if set(a) != set(b):
            return f"{path}: entries {sorted(set(a) ^ set(b))}"
        for k in a:
            d = diff(a[k], b[k], f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return f"{path}: {len(a)} / {len(b)} entries"
        for i, (p, q) in enumerate(zip(a, b)):
            d = diff(p, q, f"{path}[{i}]")
            if d:
                return d
        return None
    if isinstance(a, float) and isinstance(b, float):
        if a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * (1 + abs(a)):
            return None
        return f"{path}: {a} / {b}"
    return None if a == b else f"{path}: {a} / {b}"


def check(spec, ctx):
    global _zygote
    if _zygote is None:
        import nosnoc  # noqa: F401
        _zygote = Zygote(pristine)
    kinds = [op["op"] for op in spec["hist"]]
    ans = _zygote.call(spec)
    if ans[0] != "ok":
        fail(f"building or solving the problem in a new process: {ans[1:]}")
    ref = ans[1]
    with quiet():
        shared = early = None
        repeatable = spec["opts"].get("initialization_strategy", "ALL_XCURRENT_W0_START") != "ALL_XCURRENT_WOPT_PREV"
        with sut("building the target"):
            if {"shared", "twin", "edited"} & set(kinds):
                shared = build.build(spec)[:3]
            if "before" in kinds:
                early = make(spec)
        for op in spec["hist"]:
            try:
                history(op, spec, shared)
            except Exception as e:  # noqa: BLE001 -- what the history does is not judged here, only its consequences
                ctx.label(f"history raised {type(e).__name__}: {str(e)[:60]}")
        # shared objects: the options of the target are new unless the history used them as they are
        if shared and not ("twin" in kinds):
            shared = (build.build_opts(spec["opts"]),) + shared[1:]
        with sut("the target after the history"):
            got = signature(spec, *make(spec, shared))
        d = diff(got, ref)
        require(d is None, lambda: f"after the history {kinds} the result differs from that of a new process: {d}")
        if early:
            with sut("a solver built before the history"):
                got = signature(spec, *early)
            d = diff(got, ref)
            require(d is None, lambda: f"a solver built before the history {kinds} behaves differently: {d}")
        # repetition
        if repeatable and "before" in kinds:
            solver, nlp = make(spec)
            q = rng("x0", spec["wseed"])
            with sut("solving twice"):
                solver.set("x0", q.uniform(-1, 1, spec["nx"]))
                w0 = np.array(solver.problem.w0)
                a = result_numbers(solver.solve())
                if not spec["real"]:
                    calls = [{k: v.tolist() for k, v in c.items() if isinstance(v, np.ndarray)} for c in nlp.calls]
                    # the script answers by the number of calls
                    del nlp.calls[:]
                b = result_numbers(solver.solve())
            d = diff(b, a)
            require(d is None, lambda: f"solving again gives another result: {d}")
            if not spec["real"]:
                d = diff([{k: v.tolist() for k, v in c.items() if isinstance(v, np.ndarray)} for c in nlp.calls], calls)
                require(d is None, lambda: f"solving again makes other calls: {d}")
    ctx.label(*["op:" + k for k in kinds], "real=%s" % spec["real"], "acts=%d" % len(spec["acts"]), "init=" + spec["opts"].get("initialization_strategy", "default"))
    ctx.nontrivial = any(k != "before" for k in kinds)

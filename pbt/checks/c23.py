"""C23: inconsistent problem data is rejected before anything is solved, consistent data is accepted."""
import numpy as np
from hypothesis import strategies as st

from pbt import build, fake, gen
from pbt.core import Inapplicable, fail, quiet, require

BUDGET = dict(quick=dict(cases=7200, seconds=150), thorough=dict(cases=30000, seconds=800))

MUT = {}
KIND = {}


def mut(*kinds):
    def deco(f):
        MUT[f.__name__] = f
        KIND[f.__name__] = kinds or ("S", "g", "gi")
        return f
    return deco


class Skip(Exception):
    pass


def need(c):
    if not c:
        raise Skip()


def resize(v, k, n):
    """an array of another length"""
    m = n + 1 if (k % 2 or n == 0) else n - 1
    return np.resize(np.asarray(v, float).flatten() if np.size(v) else np.zeros(1), m) if m else np.zeros(0)


# each mutation gets: m (model arguments), c (ocp arguments or None), o (options), s (symbols), spec, k (free choice)
@mut()
def nothing(**a):
    pass


@mut("S", "g")
def filippov_and_inclusion(m, s, **a):
    import casadi as ca
    al = ca.SX.sym("al", 1)
    m["f_x"] = [s["x"] * al]
    m["alpha"] = [al]


@mut("S", "g")
def no_vector_field(m, **a):
    del m["F"]


@mut("gi")
def inclusion_incomplete(m, k, **a):
    del m[["f_x", "alpha"][k % 2]]


@mut("S")
def regions_twice(m, s, **a):
    import casadi as ca
    m["g_Stewart"] = [ca.vertcat(*[s["x"][0]] * F.shape[1]) for F in m["F"]]


@mut("g")
def regions_twice_g(m, s, **a):
    m["c"] = [s["x"][0] for F in m["F"]]
    m["S"] = [np.ones((F.shape[1], 1)) for F in m["F"]]


@mut("S")
def regions_missing(m, k, **a):
    if k % 3 != 1:
        del m["c"]
    if k % 3 != 2:
        del m["S"]


@mut("g")
def regions_missing_g(m, **a):
    del m["g_Stewart"]


@mut("S", "g", "gi")
def longer_list(m, spec, k, **a):
    keys = dict(S=["F", "c", "S"], g=["F", "g_Stewart"], gi=["c"])[spec["kind"]]
    key = keys[k % len(keys)]
    m[key] = list(m[key]) + [m[key][0]]


@mut("S", "g")
def shorter_list(m, spec, k, **a):
    keys = dict(S=["F", "c", "S"], g=["F", "g_Stewart"])[spec["kind"]]
    key = keys[k % len(keys)]
    need(len(m[key]) > 1)
    m[key] = list(m[key])[:-1]


@mut("S")
def regions_of_unknown_subsystem(m, **a):
    m["c"] = list(m["c"]) + [m["c"][0]]
    m["S"] = list(m["S"]) + [m["S"][0]]


@mut("S", "g")
def number_of_fields(m, k, **a):
    import casadi as ca
    i = k % len(m["F"])
    F = m["F"][i]
    need(F.shape[1] > 2 or k % 2)
    m["F"][i] = ca.horzcat(F, F[:, 0]) if k % 2 else F[:, :-1]


@mut("S")
def rows_of_S(m, k, **a):
    i = k % len(m["S"])
    S = m["S"][i]
    need(S.shape[0] > 2 or k % 2)
    m["S"][i] = np.vstack((S, S[:1])) if k % 2 else S[:-1]


@mut("S")
def columns_of_S(m, k, **a):
    i = k % len(m["S"])
    S = m["S"][i]
    need(S.shape[1] > 1 or k % 2)
    m["S"][i] = np.hstack((S, S[:, :1])) if k % 2 else S[:, :-1]


@mut("S")
def rows_of_c(m, k, **a):
    import casadi as ca
    i = k % len(m["c"])
    c = m["c"][i]
    need(c.shape[0] > 1 or k % 2)
    m["c"][i] = ca.vertcat(c, c[0]) if k % 2 else c[:-1]


@mut("g")
def rows_of_g(m, k, **a):
    import casadi as ca
    i = k % len(m["g_Stewart"])
    g = m["g_Stewart"][i]
    m["g_Stewart"][i] = ca.vertcat(g, g[0]) if k % 2 else g[:-1]


@mut("S", "g")
def rows_of_F(m, k, **a):
    import casadi as ca
    i = k % len(m["F"])
    F = m["F"][i]
    need(F.shape[0] > 1 or k % 2)
    m["F"][i] = ca.vertcat(F, F[0, :]) if k % 2 else (F[0, :] if k % 4 else F[:-1, :])


@mut("gi")
def rows_of_f_x(m, k, spec, **a):
    import casadi as ca
    i = k % len(m["f_x"])
    f = m["f_x"][i]
    need(f.shape[0] > 1 or k % 2)
    m["f_x"][i] = ca.vertcat(f, f[0]) if k % 2 else f[:-1]


@mut("S", "g")
def one_region_only(m, spec, k, **a):
    i = k % len(m["F"])
    m["F"][i] = m["F"][i][:, 0]
    key = "S" if spec["kind"] == "S" else "g_Stewart"
    m[key][i] = m[key][i][:1]


@mut("g")
def indicators_with_step(o, **a):
    o["pss_mode"] = "STEP"


@mut("gi")
def inclusion_with_stewart(o, **a):
    o["pss_mode"] = "STEWART"


@mut("gi")
def number_of_alpha(m, s, k, **a):
    import casadi as ca
    i = k % len(m["alpha"])
    al = m["alpha"][i]
    need(al.shape[0] > 1 or k % 2)
    if k % 2:
        m["alpha"][i] = ca.vertcat(al, ca.SX.sym("more"))
    else:
        c = m["c"][i]
        m["c"][i] = c[:-1]


@mut()
def p_global_val(m, spec, k, **a):
    v = np.array(spec.get("p_val") or [], float)
    m["p_global_val"] = resize(v, k, len(v)) if k % 3 or not len(v) else v.reshape(-1, 1)


@mut()
def p_global_val_missing(m, spec, **a):
    need(spec["npg"])
    del m["p_global_val"]


@mut()
def p_time_var_val(m, spec, o, k, **a):
    N, n = o["N_stages"], spec["npt"]
    need(n)
    v = np.zeros((N, n))
    m["p_time_var_val"] = [np.zeros((N + 1, n)), np.zeros((N, n + 1)), v.flatten(), np.zeros((n, N)) if n != N else np.zeros((N - 1, n))][k % 4]


@mut()
def algebraic_guess_or_bound(m, spec, k, **a):
    key = ["z0", "lbz", "ubz"][k % 3]
    m[key] = resize(np.zeros(spec["nz"]), k // 3, spec["nz"])


@mut()
def initial_state(m, spec, k, **a):
    m["x0"] = resize(spec["x0"], k, spec["nx"])


@mut()
def initial_state_missing(m, **a):
    m["x0"] = None


@mut()
def undeclared_symbol(m, spec, k, **a):
    import casadi as ca
    q = ca.SX.sym("undeclared")
    key = dict(S=["F", "c"], g=["F", "g_Stewart"], gi=["f_x", "c"])[spec["kind"]][k % 2]
    if spec["kind"] == "S" and not np.any(m["S"][0]):
        key = "F"       # CasADi simplifies 0 * (c + q)
    m[key][0] = m[key][0] + q


@mut()
def ocp_bound(c, spec, k, **a):
    keys = [("lbx", spec["nx"]), ("ubx", spec["nx"]), ("lbu", spec["nu"]), ("ubu", spec["nu"]), ("u_guess", spec["nu"]),
            ("lbv_global", spec["nv"]), ("ubv_global", spec["nv"]), ("v_global_guess", spec["nv"])]
    key, n = keys[k % len(keys)]
    c[key] = resize(np.zeros(n), k // len(keys), n)


@mut()
def ocp_path_bound(c, k, **a):
    n = c["g_path"].shape[0] if "g_path" in c else 0
    c[["lbg", "ubg"][k % 2]] = resize(np.zeros(n), k // 2, n)


@mut()
def ocp_comp_width(c, s, k, **a):
    import casadi as ca
    x = s["x"][0]
    c["g_path_comp"] = ca.horzcat(*[x] * [1, 3][k % 2])


@mut()
def ocp_vector_cost(c, s, k, **a):
    import casadi as ca
    c[["f_q", "f_terminal"][k % 2]] = ca.vertcat(s["x"][0], s["x"][0])


@mut()
def ocp_terminal_depends_on_control(c, s, spec, k, **a):
    import casadi as ca
    need(spec["nu"])
    c[["g_terminal", "f_terminal"][k % 2]] = s["u"][0] + s["x"][0]


ENUM_KEYS = ["irk_scheme", "irk_representation", "mpcc_mode", "pss_mode", "cross_comp_mode", "step_equilibration", "constraint_handling",
             "initialization_strategy", "speed_of_time_variables", "homotopy_update_rule"]


@mut()
def option_type(o, raw, k, **a):
    import nosnoc.nosnoc_types as nt
    keys = [("terminal_time", "1.0"), ("use_fesd", 1), ("print_level", 0.5), ("max_iter_homotopy", 2.0), ("n_s", 2.0), ("n_s", "2"), ("N_finite_elements", 2.0),
            ("Nfe_list", 2), ("comp_tol", "1e-8"), ("sigma_0", None), ("sigma_N", "0"), ("homotopy_update_slope", "0.1"), ("N_stages", 1.0), ("N_stages", "1"),
            ("equidistant_control_grid", "yes"), ("rho_h", "1"), ("gamma_h", "1"), ("time_freezing", 0), ("g_path_at_fe", 1), ("g_path_at_stg", None),
            ("do_polishing_step", 1), ("s_elastic_0", "1"), ("rootfinder_for_initial_z", "no"), ("smoothing_parameter", "1"), ("terminal_time", None)]
    n = len(keys)
    j = k % (n + 2 * len(ENUM_KEYS))
    if j < n:
        raw[keys[j][0]] = keys[j][1]
        return
    j -= n
    key = ENUM_KEYS[j // 2]
    # a string, or a member of another enumeration
    raw[key] = "RADAU_IIA" if j % 2 else (nt.PssMode.STEP if key != "pss_mode" else nt.MpccMode.SCHOLTES_EQ)


@mut()
def number_of_elements(o, raw, k, **a):
    N = o["N_stages"]
    m = [N + 1, N - 1, N + 2][k % 3]
    need(m > 0)
    raw["Nfe_list"] = [2] * m


@mut()
def time_freezing_without_clock(o, m, **a):
    need("t_var" not in m)
    o["time_freezing"] = True


@mut("S")
def smoothing_parameter(o, raw, k, spec, **a):
    raw["smoothing_parameter"] = [0.0, -1.0, -10.0][k % 3]
    o.update(initialization_strategy="RK4_SMOOTHENED", irk_representation="INTEGRAL", irk_scheme="RADAU_IIA", pss_mode="STEWART")


@mut()
def least_squares_with_inequalities(o, k, **a):
    o["mpcc_mode"] = ["SCHOLTES_INEQ", "ELASTIC_INEQ", "ELASTIC_TWO_SIDED"][k % 3]
    o["constraint_handling"] = "LEAST_SQUARES"


@mut()
def unsupported_stage_count(raw, **a):
    raw["n_s"] = 0


LOOP = ["loop_controls", "loop_stages", "loop_cost", "loop_p_values"]


@st.composite
def strategy_(draw, tier):
    name = draw(st.sampled_from(sorted(MUT) + LOOP + ["nothing"] * 6))
    kinds = KIND.get(name, ("S", "g", "gi"))
    spec = draw(gen.problem(kinds=kinds, n_s=(1, 3), max_stages=3, max_nfe=2, max_total=4, mpcc=["SCHOLTES_INEQ", "SCHOLTES_EQ", "ELASTIC_INEQ", "FISCHER_BURMEISTER"],
                            model_kw=dict(max_sys=3), ocp_kw=dict()))
    spec["mut"] = name
    spec["k"] = draw(st.integers(0, 99))
    return spec


def strategy(tier):
    return strategy_(tier)


def base(kind, i):
    """rich consistent problems, one per kind"""
    x0, x1 = ["x", 0], ["x", 1]
    if kind == "gi":
        sy = [dict(f=[["+", ["*", ["a", 0], 2.0], ["u", 0]]], c=[x0]), dict(f=[["*", ["a", 1], ["a", 2]]], c=[x1, ["+", x0, -1.0]])]
    else:
        F2, F3 = [[1.0, x0], [["u", 0], 2.0]], [[1.0, x0], [["p", 0], 2.0], [["pt", 0], x1]]
        if kind == "S":
            sy = [dict(c=[x0], S=[[1], [-1]], F=F2), dict(c=[x1, ["+", x0, -1.0]], S=[[1, 1], [-1, 1], [-1, -1]], F=F3)]
        else:
            sy = [dict(g=[x0, ["-", x0]], F=F2), dict(g=[x0, x1, ["-", x1]], F=F3)]
    o = dict(N_stages=2 - i % 2, N_finite_elements=1 + i % 2, n_s=2, irk_scheme="RADAU_IIA", irk_representation=gen.REPS[i % 3],
             use_fesd=True, pss_mode=gen.pss_for(kind)[i % len(gen.pss_for(kind))], mpcc_mode="SCHOLTES_INEQ", max_iter_homotopy=1, terminal_time=[1.0, 2][i % 2])
    spec = dict(nx=2, kind=kind, nu=1, nz=1, npt=1, npg=2, nv=1, x0=[0.5, -0.5], sys=sy, opts=o, p_val=[1.0, 2.0], pt_val=[[0.5]] * o["N_stages"],
                g_z=[["+", ["z", 0], x0]], wseed=0, ocp=None)
    spec["ocp"] = dict(f_q=["sq", x0], g_path=[x0, x1], lbg=[-1.0, -1.0], ubg=[1.0, 1.0], lbx=[-5.0, -5.0], g_T=[x0])
    return spec


def fixed_cases(tier):
    for name in sorted(MUT):
        for kind in KIND[name]:
            nk = dict(option_type=45, ocp_bound=16, nothing=3).get(name, 6)
            for k in range(nk):
                spec = base(kind, k // 3 if name != "number_of_elements" else 0)
                spec["mut"], spec["k"] = name, k
                yield spec


def check(spec, ctx):
    import nosnoc
    name, k = spec["mut"], spec["k"]
    o = dict(spec["opts"])
    raw = {}
    s = build.syms(spec)
    m = build.model_kwargs(spec, s)
    loop = name in LOOP
    if loop:
        if name == "loop_controls" and not spec["nu"] or name == "loop_stages" and o["N_stages"] == 1 or name == "loop_p_values" and not spec["npg"]:
            raise Inapplicable(name)
        if name in ("loop_cost", "loop_p_values"):
            if spec["nu"] or o["N_stages"] > 1:
                raise Inapplicable(name)
    c = build.ocp_kwargs(spec, s) if spec["ocp"] else None
    if name == "loop_cost":
        c = dict(f_q=s["x"][0] ** 2)
    elif loop:
        c = None
    if name.startswith("ocp_") and c is None:
        c = {}
    if not loop:
        try:
            MUT[name](m=m, c=c, o=o, raw=raw, s=s, spec=spec, k=k)
        except Skip:
            raise Inapplicable(name)
    with fake.fake_backend(None) as created, quiet():
        err = None
        try:
            opts = build.build_opts(o)
            for key, v in raw.items():
                setattr(opts, key, v)
            model = nosnoc.NosnocModel(**m)
            solver = nosnoc.NosnocSolver(opts, model, nosnoc.NosnocOcp(**c) if c is not None else None)
            if loop:
                pv = None
                if name == "loop_p_values":
                    n = spec["npg"]
                    pv = [np.zeros((3, n)), np.zeros((2, n + 1)), np.zeros((1, n)), np.zeros((n, 2)) if n != 2 else np.zeros((4, 2)), np.zeros(2 * n)][k % 5]
                looper = nosnoc.NosnocSimLooper(solver, np.array(spec["x0"], float), 2, p_values=pv)
                looper.run()
            else:
                solver.solve()
        except Exception as e:  # noqa: BLE001
            err = e
        calls = sum(len(b.calls) for b in created)
    if name == "nothing":
        require(err is None, lambda: f"consistent problem rejected: {type(err).__name__}: {str(err)[:300]}")
        require(calls > 0, "nothing was solved")
    else:
        require(err is not None, lambda: f"inconsistent data accepted: {name} (choice {k})")
        require(calls == 0, lambda: f"inconsistent data ({name}, choice {k}) was only noticed after {calls} subproblems: {type(err).__name__}: {str(err)[:200]}")
    ctx.label(name)
    ctx.nontrivial = name != "nothing"

"""C16: what is reported as solved is a solution of the discretised switched system."""
import numpy as np
from hypothesis import strategies as st

from pbt import expr, gen, hgen, hybrid, real, refnlp
from pbt.checks import c18
from pbt.core import Inconclusive, require

BUDGET = dict(quick=dict(cases=720, seconds=150), thorough=dict(cases=8000, seconds=1500))
TOL = 1e-6
TAGS = ("dyn", "alg", "grid", "path", "term", "comp", "comp0", "steq")


@st.composite
def gi_system(draw, nx):
    """x' = f(x) + sum_k a_k g_k(x) with the switching functions of hgen"""
    nc = draw(st.sampled_from([1, 1, 2] if nx == 2 else [1, 1, 2, 3])) if nx > 1 else 1
    js = draw(st.permutations(range(nx)))
    c = [["+", -draw(st.sampled_from(hgen.OFF)), ["*", draw(st.sampled_from([1.0, -1.0])), ["x", js[k]]]] for k in range(nc)]
    f = []
    for i in range(nx):
        e = ["+", draw(st.sampled_from(hgen.VEL if i in js[:nc] else hgen.OFF))]
        for k in range(nc):
            if i == js[k] or draw(st.integers(0, 3)) == 0:
                e.append(["*", ["a", k], draw(st.sampled_from(hgen.VEL))])
        if draw(st.booleans()):
            e.append(["*", 0.3, ["sin", ["x", draw(st.integers(0, nx - 1))]]])
        f.append(e)
    return [dict(f=f, c=c)]


@st.composite
def strategy_(draw, tier):
    kind = draw(st.sampled_from(["S", "S", "S", "g", "gi"]))
    spec = draw(hgen.switched(pt_c=draw(st.integers(0, 3)) == 0))
    nx = spec["nx"]
    if kind == "gi":
        spec.update(kind="gi", sys=draw(gi_system(nx)))
    elif kind == "g":
        n = draw(st.sampled_from([2, 3]))
        j = draw(st.integers(0, nx - 1))
        spec.update(kind="g", sys=[dict(g=[["+", draw(st.sampled_from([0.0, 0.2, -0.3])), ["*", a, ["x", j]]] for a in [1.0, -1.0, 0.4][:n]],
                                        F=[draw(hgen.field(nx, spec["level"], j, spec)) for _ in range(n)])])
    o = draw(hgen.solver_opts(spec, n_s=(1, 3))) if kind == "S" else draw(hgen.solver_opts(dict(spec, sys=[]), n_s=(1, 3)))
    if kind != "S":
        o["pss_mode"] = gen.pss_for(kind)[0]
    o.update(draw(gen.grid(max_stages=3, max_nfe=3, max_total=4)))
    o["terminal_time"] = draw(st.sampled_from([1.0, 0.5, 1.5]))
    o["use_fesd"] = draw(st.sampled_from([True, True, True, False]))
    o["equidistant_control_grid"] = draw(st.sampled_from([True, True, False]))
    o["mpcc_mode"] = draw(st.sampled_from(["SCHOLTES_INEQ"] * 9 + ["SCHOLTES_EQ", "ELASTIC_INEQ", "ELASTIC_INEQ", "ELASTIC_EQ", "FISCHER_BURMEISTER"]))
    o["objective_scaling_direct"] = draw(st.booleans())
    o["gamma_h"] = draw(st.sampled_from([1.0, 1.0, 0.9]))
    o["step_equilibration"] = draw(st.sampled_from(["HEURISTIC_DELTA", "HEURISTIC_DELTA", "HEURISTIC_MEAN", "HEURISTIC_MEAN", "L2_RELAXED_SCALED", "L2_RELAXED", "DIRECT", "DIRECT_COMPLEMENTARITY", "HEURISTIC_DELTA_H_COMP"]))
    o["do_polishing_step"] = draw(st.sampled_from([False, False, True]))
    if o["mpcc_mode"] == "SCHOLTES_INEQ" and draw(st.integers(0, 4)) == 0:
        o["comp_tol"] = o["sigma_N"] = draw(st.sampled_from([1e-3, 1e-4, 1e-5]))
    N = o["N_stages"]
    if spec["npt"]:
        spec["pt_val"] = [[draw(st.sampled_from([0.4, -0.7, 1.0])) for _ in range(spec["npt"])] for _ in range(N)]
    spec["nu"] = draw(st.sampled_from([0, 0, 1, 1, 2]))
    spec["nz"] = draw(st.sampled_from([0, 0, 1]))
    spec["nv"] = draw(st.sampled_from([0, 0, 1]))
    add = []
    for i in range(spec["nu"]):
        add.append(["*", draw(st.sampled_from([1.0, 0.5, -1.0])), ["u", i]])
    if spec["nz"]:
        spec["g_z"] = [["-", ["z", 0], draw(c18.smooth(gen.allvars(spec, ["x", "p", "pt"]), 0, nx))]]
        add.append(["*", 0.5, ["sin", ["z", 0]]])
    if spec["nv"] and draw(st.booleans()):
        add.append(["*", 0.3, ["v", 0]])
    rows = [draw(st.integers(0, nx - 1)) for _ in add]
    y = spec["sys"][0]
    if kind == "gi":
        for r, a in zip(rows, add):
            y["f"][r] = ["+", y["f"][r], a]
    else:
        for col in y["F"]:
            for r, a in zip(rows, add):
                col[r] = ["+", col[r], a]
    spec["ocp"] = None
    if spec["nu"] or spec["nv"] or draw(st.booleans()):
        oc = {}
        cost = ["+", 0.0]
        for i in range(spec["nu"]):
            cost.append(["*", draw(st.sampled_from([0.1, 1.0])), ["u", i], ["u", i]])
        if draw(st.booleans()):
            i = draw(st.integers(0, nx - 1))
            cost.append(["*", 0.5, ["+", ["x", i], -0.3], ["+", ["x", i], -0.3]])
        oc["f_q"] = cost
        t = ["+", 0.0]
        if spec["nv"]:
            t.append(["*", ["+", ["v", 0], -0.3], ["+", ["v", 0], -0.3]])
        if draw(st.booleans()):
            i = draw(st.integers(0, nx - 1))
            t.append(["*", 2.0, ["+", ["x", i], -0.5], ["+", ["x", i], -0.5]])
        oc["f_T"] = t
        if spec["nu"]:
            oc["lbu"] = [draw(st.sampled_from([-2.0, -0.5]))] * spec["nu"]
            oc["ubu"] = [draw(st.sampled_from([2.0, 0.7]))] * spec["nu"]
        if spec["nv"]:
            oc["lbv_global"], oc["ubv_global"] = [-1.0], [draw(st.sampled_from([1.0, 0.2]))]
        if draw(st.booleans()):
            oc["lbx"], oc["ubx"] = [-8.0] * nx, [8.0] * nx
        if draw(st.integers(0, 3)) == 0:
            i = draw(st.integers(0, nx - 1))
            oc["g_path"] = [["+", ["x", i]] + ([["*", 0.5, ["u", 0]]] if spec["nu"] else [])]
            oc["lbg"], oc["ubg"] = [-4.0], [draw(st.sampled_from([4.0, 2.0]))]
            o["g_path_at_fe"] = draw(st.booleans())
            o["g_path_at_stg"] = draw(st.booleans())
        spec["ocp"] = oc
        if draw(st.integers(0, 4)) == 0 and o["use_fesd"]:
            o["speed_of_time_variables"] = draw(st.sampled_from(["LOCAL", "GLOBAL"]))
            o["speed_of_time_min"], o["speed_of_time_max"] = draw(st.sampled_from([[0.5, 2.0], [1.0, 1.5]]))
    spec["opts"] = o
    return spec


def strategy(tier):
    return strategy_(tier)


def last_sigma(opts, n):
    """relaxation parameter of the last of n problems"""
    s = opts.sigma_0
    for _ in range(n - 1):
        t = opts.homotopy_update_slope * s
        s = t if opts.homotopy_update_rule.name == "LINEAR" else max(opts.sigma_N, min(t, s**opts.homotopy_update_exponent))
    return s


def check(spec, ctx):
    o = spec["opts"]
    solver = real.make_solver(spec)
    prob = solver.problem
    r = real.solve(solver, ctx)
    w = np.array(r["w_sol"], float).flatten()
    elastic = o["mpcc_mode"] in refnlp.ELASTIC
    if elastic and abs(w[prob.ind_elastic[0]][0]) > 1e-6:
        raise Inconclusive("elastic variable not driven to zero")
    ctx.solved += 1
    ref = refnlp.Ref(spec, prob, sigma=o["sigma_N"])
    # the homotopy ends early if all products are below comp_tol: the last relaxation is larger than sigma_N then
    over = max(0.0, last_sigma(solver.opts, len(r["w_all"]) - 1) - o["sigma_N"])
    if over <= 1e-6 * o["sigma_N"] or o["do_polishing_step"]:
        over = 0.0
    # constraints of the discretised switched system
    for tag, kind, val in ref.entries(w):
        if tag in TAGS:
            bad = abs(val) if kind == "eq" else max(val, 0.0)
            scale = 1 + np.max(np.abs(w[prob.ind_x[0][0][-1]]))
            if tag == "steq":
                tol = 1e-5 * scale + 2 * o["comp_tol"] + over
            elif not tag.startswith("comp"):
                tol = max(TOL, 0.01 * o["comp_tol"]) * scale
            elif o["mpcc_mode"] in ("SCHOLTES_INEQ", "ELASTIC_INEQ"):
                # the last problem of the homotopy has the relaxation sigma_N
                tol = (2e-8 + 0.05 * o["sigma_N"]) * scale
                if o["mpcc_mode"] == "SCHOLTES_INEQ" and o["cross_comp_mode"].startswith("SUM"):
                    tol += min(over, (o["n_s"] + 2) * o["comp_tol"])
            else:
                tol = 1e-5 * scale + 2 * o["comp_tol"]
            require(bad <= tol,
                    lambda: f"{tag} constraint of the reference violated by {bad} in a solution reported as {r['status']}; steps {r['time_steps']}, states {[list(q) for q in r['x_list']]}")
    # bounds
    for item in ref.variables():
        if len(item) != 5:
            continue
        name, ind, lb, ub, _ = item
        val = w[np.array(ind, int)]
        require(np.all(val >= lb - 1e-6 * (1 + np.where(np.isfinite(lb), np.abs(lb), 0))) and np.all(val <= ub + 1e-6 * (1 + np.where(np.isfinite(ub), np.abs(ub), 0))),
                lambda: f"{name} = {val} outside of its bounds {lb}, {ub}")
    hs = np.array(r["time_steps"], float).flatten()
    require(np.all(hs >= -1e-7) and abs(hs.sum() - o["terminal_time"]) < 1e-6, lambda: f"time steps {hs} for the horizon {o['terminal_time']}")
    # reported multipliers: convex weights, zero for regions the state is not in
    moved = False
    stage_of = [i for i, n in enumerate(o.get("Nfe_list") or [o["N_finite_elements"]] * o["N_stages"]) for _ in range(n)]
    if o["pss_mode"] == "STEWART":
        for k, th in enumerate(r["theta_list"][-len(hs):]):
            th = np.concatenate([np.array(q, float).flatten() for q in th]) if isinstance(th, list) else np.array(th, float).flatten()
            off = 0
            x = np.array(r["x_list"][k], float)
            for s, y in enumerate(spec["sys"]):
                t = th[off:off + len(y["F"])]
                off += len(y["F"])
                require(abs(t.sum() - 1) < 1e-6 and t.min() > -1e-6, lambda: f"element {k}: region weights {t}")
                z = [0.0] * spec["nz"]
                env = ref.env(x, [0.0] * spec["nu"], z, stage_of[k], [0.0] * spec["nv"])
                g = ref.g_ind(s, env)
                far = g > g.min() + 0.02
                if refnlp.explicit(o) and hs[k] > 1e-4 and o["comp_tol"] < 1e-6 and o["mpcc_mode"] != "FISCHER_BURMEISTER":
                    require(np.all(t[far] <= 1e-3), lambda: f"element {k}, subsystem {s}: weights {t} at {x} where the indicators of the regions are {g}")
                moved |= bool(np.any((t > 1e-3) & (t < 1 - 1e-3)))
    moved |= np.ptp(np.array([np.sign(q) for q in r["x_list"]]), axis=0).max() > 0
    ctx.label("kind=" + spec["kind"], o["mpcc_mode"], o["irk_representation"], o["irk_scheme"], o["pss_mode"], "fesd=%s" % o["use_fesd"], "nu=%d" % spec["nu"],
              "nz=%d" % spec["nz"], "sot=" + o.get("speed_of_time_variables", "NONE"), "polish=%s" % o["do_polishing_step"], "stages=%d" % o["N_stages"])
    ctx.nontrivial = bool(moved) or o["N_stages"] > 1

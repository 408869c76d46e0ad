"""C15: homotopy schedule and statistics for arbitrary sequences of subproblem outcomes (scripted back end)."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, nlpcase, refnlp
from pbt.core import Inapplicable, Violation, fail, require

BUDGET = dict(quick=dict(cases=2700, seconds=150), thorough=dict(cases=20000, seconds=800))

GOOD = ["Solve_Succeeded", "Solved_To_Acceptable_Level", "Feasible_Point_Found", "Search_Direction_Becomes_Too_Small"]
BAD = ["Infeasible_Problem_Detected", "Maximum_Iterations_Exceeded", "Restoration_Failed", "Maximum_CpuTime_Exceeded",
       "Diverging_Iterates", "Invalid_Number_Detected", "Error_In_Step_Computation"]

SYS = [dict(c=[["x", 0]], S=[[1], [-1]], F=[[1.0, ["x", 0]], [["-", ["x", 1]], 2.0]])]


@st.composite
def strategy_(draw, tier):
    n_max = draw(st.integers(1, 8))
    o = dict(N_stages=draw(st.integers(1, 2)), N_finite_elements=draw(st.integers(1, 2)), n_s=draw(st.integers(1, 2)),
             irk_scheme=draw(st.sampled_from(gen.SCHEMES)), irk_representation=draw(st.sampled_from(gen.REPS)),
             use_fesd=draw(st.booleans()), pss_mode=draw(st.sampled_from(["STEWART", "STEP"])),
             mpcc_mode=draw(st.sampled_from(["SCHOLTES_INEQ", "SCHOLTES_EQ", "FISCHER_BURMEISTER", "FISCHER_BURMEISTER_IP_AUG"])),
             cross_comp_mode=gen.CROSS[1], sigma_0=draw(st.sampled_from([1.0, 0.1, 3.0, 0.5, 20.0])),
             homotopy_update_slope=draw(st.sampled_from([0.1, 0.3, 0.5, 0.07, 0.9])),
             homotopy_update_exponent=draw(st.sampled_from([1.5, 1.1, 2.0, 1.9])),
             homotopy_update_rule=draw(st.sampled_from(["LINEAR", "SUPERLINEAR"])),
             sigma_N=draw(st.sampled_from([1e-8, 1.7e-4, 1.3e-2, 0.23, 2.3e-12])), comp_tol=draw(st.sampled_from([1e-8, 1e-4, 1e-2])),
             max_iter_homotopy=n_max, initialization_strategy=draw(st.sampled_from(["EXTERNAL", "ALL_XCURRENT_W0_START", "ALL_XCURRENT_WOPT_PREV"])))
    if o["mpcc_mode"] != "SCHOLTES_INEQ" and draw(st.integers(0, 3)) == 0:
        o["constraint_handling"] = "LEAST_SQUARES"
    # per subproblem: level of the complementarity residual relative to the tolerance, status, iterations, time
    out = [[draw(st.sampled_from([2.0, 100.0, 1e4, 3.0, 1.2, 50.0, 0.8, 0.1])), draw(st.sampled_from(GOOD + BAD)),
            draw(st.integers(0, 500)), draw(st.integers(0, 99))] for _ in range(2 * n_max)]
    return dict(nx=2, kind="S", nu=0, nz=0, npt=0, npg=0, nv=0, x0=[draw(gen.val), draw(gen.val)], sys=SYS, ocp=None, opts=o,
                out=out, n_solves=draw(st.integers(1, 2)))


def strategy(tier):
    return strategy_(tier)


def schedule(o, s):
    if o["homotopy_update_rule"] == "LINEAR":
        return o["homotopy_update_slope"] * s
    return max(o["sigma_N"], min(o["homotopy_update_slope"] * s, s ** o["homotopy_update_exponent"]))


def scaled(spec, P, ref, seed, level):
    """a point whose residual is level * comp_tol"""
    w = nlpcase.random_points(P, spec, 1, seed)[0]
    f = refnlp._flat
    tol = spec["opts"]["comp_tol"]
    lam = np.array(f(P.ind_lam) + f(P.ind_lambda_n) + f(P.ind_lambda_p), int)
    # the multipliers of the initial state cannot be changed: remove their partners
    l0 = ref.lambda00()
    if ref.o["use_fesd"]:
        for k in range(ref.o["n_s"]):
            if ref.stewart:
                th = np.array(f(P.ind_theta[0][0][k]), int)
                w[th[l0 > 0]] = 0.0
            else:
                al = np.array(f(P.ind_alpha[0][0][k]), int)
                n = len(al)
                w[al[l0[:n] > 0]] = 0.0
                w[al[l0[n:] > 0]] = 1.0
    w[lam] = np.abs(w[lam])
    w0 = w.copy()
    r = ref.residual(w)
    if r > 0:
        w[lam] *= level * tol / r
    return w if abs(ref.residual(w) / (level * tol) - 1) < 1e-6 else (w0 if ref.residual(w0) > 1.5 * tol else w)


def check(spec, ctx):
    o = spec["opts"]
    points, stats = [], spec["out"]

    def script(k, c, nlp):
        j = k % len(points)
        return dict(x=points[j], status=stats[j][1], iter=stats[j][2], time=0.01 * (stats[j][3] + 1))
    case = nlpcase.Case(spec, script=script, solve=False)
    P = case.prob
    ref = refnlp.Ref(spec, P)
    for level, _, _, seed in stats:
        points.append(scaled(spec, P, ref, seed, level))
    res = [ref.residual(w) for w in points]
    if any(abs(r / o["comp_tol"] - 1) < 1e-3 for r in res):
        raise Inapplicable("residual at the tolerance")
    base = dict(lbx=P.lbw.copy(), ubx=P.ubw.copy(), lbg=P.lbg.copy(), ubg=P.ubg.copy())
    k0 = 0
    for s in range(spec["n_solves"]):
        # expected schedule
        sig, exp = o["sigma_0"], []
        for ii in range(o["max_iter_homotopy"]):
            j = (k0 + ii) % len(points)
            exp.append((sig, j))
            if res[j] < o["comp_tol"] or sig <= o["sigma_N"]:
                break
            sig = schedule(o, sig)
        if o["homotopy_update_rule"] == "LINEAR" and any(abs(e[0] / o["sigma_N"] - 1) < 1e-9 for e in exp):
            raise Inapplicable("relaxation parameter at its final value up to rounding")
        w_start = P.w0.copy()
        result = case.solve()
        calls = case.nlp.calls[k0:]
        require(len(calls) == len(exp), lambda: f"solve {s}: {len(calls)} subproblems, expected {len(exp)} (schedule {[e[0] for e in exp]}, residuals "
                f"{[res[e[1]] for e in exp]}, tolerance {o['comp_tol']}, sigma_N {o['sigma_N']}, limit {o['max_iter_homotopy']})")
        prev = None
        for ii, (c, (sigma, j)) in enumerate(zip(calls, exp)):
            r = refnlp.Ref(spec, P, sigma=sigma)
            try:
                if o.get("constraint_handling") == "LEAST_SQUARES":
                    for w in nlpcase.random_points(P, spec, 3, 11):
                        f, e = float(case.nlp.fun(w, c["p"])[0]), r.total_cost(w) + sum(q[2] ** 2 for q in r.entries(w))
                        require(abs(f - e) <= 1e-8 * (1 + abs(e)), lambda: f"the objective with the squared residuals is {f}, expected {e}")
                else:
                    nlpcase.compare(spec, P, case.nlp, c, {"comp", "comp0"}, 11, ref=r, n_points=3)
            except Violation as e:
                fail(f"subproblem {ii} was not solved with relaxation parameter {sigma}: {e}")
            if prev is not None:
                require(np.array_equal(c["x0"], prev), lambda: f"subproblem {ii} does not start from the previous iterate")
            prev = points[j]
            for key, val in base.items():
                require(np.array_equal(c[key], val), lambda: f"subproblem {ii}: {key} is not the one of the problem")
        # reported
        last = exp[-1][1]
        n = len(exp)
        require(np.array_equal(np.array(result["w_sol"]).flatten(), points[last]), "w_sol is not the last iterate")
        require(len(result["w_all"]) == n + 1, lambda: f"w_all has {len(result['w_all'])} entries for {n} subproblems")
        for ii in range(n):
            require(np.array_equal(np.array(result["w_all"][ii + 1]).flatten(), points[exp[ii][1]]), lambda: f"w_all[{ii + 1}] is not iterate {ii}")
        require(np.array_equal(np.array(result["w_all"][0]).flatten(), calls[0]["x0"]), "w_all[0] is not the initial guess")
        it = list(result["nlp_iter"])
        require(it[:n] == [stats[e[1]][2] for e in exp] and all(v is None for v in it[n:]), lambda: f"nlp_iter {it}, expected {[stats[e[1]][2] for e in exp]}")
        tm = list(result["cpu_time_nlp"])
        require(np.allclose(tm[:n], [0.01 * (stats[e[1]][3] + 1) for e in exp]) and all(v is None for v in tm[n:]), lambda: f"cpu_time_nlp {tm}")
        require(abs(result["cost_val"] - calls[-1]["f"]) <= 1e-12 * (1 + abs(calls[-1]["f"])), "cost_val is not the cost of the last subproblem")
        good = stats[last][1] in GOOD
        require((result["status"].name == "SUCCESS") == good, lambda: f"status {result['status']} after the back end answered {stats[last][1]!r}")
        require(np.array_equal(np.array(result["x_list"][-1]).flatten(), points[last][P.ind_x[-1][-1][-1]]), "the reported states are not those of the last iterate")
        k0 += n
        ctx.label(o["homotopy_update_rule"], "subproblems=%d" % n,
                  "stop=" + ("tolerance" if res[last] < o["comp_tol"] else "sigma_N" if exp[-1][0] <= o["sigma_N"] else "limit"),
                  "success=%s" % good)
        ctx.nontrivial = ctx.nontrivial or n > 1

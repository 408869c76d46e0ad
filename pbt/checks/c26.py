"""C26: polishing and fixing of the initial active set (scripted back end)."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, nlpcase, refnlp
from pbt.checks.c14 import flat
from pbt.core import Inapplicable, Violation, fail, quiet, require, sut

BUDGET = dict(quick=dict(cases=2100, seconds=150), thorough=dict(cases=14000, seconds=800))

GOOD = ["Solve_Succeeded", "Solved_To_Acceptable_Level", "Feasible_Point_Found", "Search_Direction_Becomes_Too_Small"]
BAD = ["Infeasible_Problem_Detected", "Maximum_Iterations_Exceeded", "Restoration_Failed", "Invalid_Number_Detected"]


@st.composite
def strategy_(draw, tier):
    def extra(draw, spec):
        o = spec["opts"]
        o["comp_tol"] = draw(st.sampled_from([1e-8, 1e-4, 1e-3]))
        o["sigma_N"] = draw(st.sampled_from([1e-8, 1e-3]))
        o["max_iter_homotopy"] = draw(st.sampled_from([1, 1, 2]))
        o["do_polishing_step"] = draw(st.integers(0, 3)) > 0
        o["fix_active_set_fe0"] = draw(st.booleans()) or not o["do_polishing_step"]
        o["initialization_strategy"] = draw(st.sampled_from(["EXTERNAL", "ALL_XCURRENT_W0_START", "ALL_XCURRENT_WOPT_PREV"]))
        o["print_level"] = 0
        spec["status"] = [draw(st.sampled_from(GOOD + BAD)) for _ in range(4)]
        spec["x1"] = [draw(gen.val) for _ in range(spec["nx"])]
        spec["p1"] = [draw(gen.val) for _ in range(spec["npg"])]
        spec["n_solves"] = draw(st.integers(1, 3))
    return draw(gen.problem(n_s=(1, 3), max_stages=3, max_nfe=3, max_total=4, sot=gen.SOT, mpcc=gen.MPCC,
                            ocp_kw=dict(comp=False, path=False), model_kw=dict(max_nx=2, max_sys=3, nv=1), extra=extra))


def strategy(tier):
    return strategy_(tier)


def mixed_point(P, spec, seed):
    """a point with entries that are, are almost and are not zero or one"""
    w = nlpcase.random_points(P, spec, 1, seed)[0]
    rs = np.random.RandomState(seed + 17)
    t = spec["opts"]["comp_tol"]
    vals = np.array([0.0, -1e-9, 3 * t, 9 * t, 12 * t, 100 * t, 0.3, 1 - 100 * t, 1 - 12 * t, 1 - 5 * t, 1.0, 1 + 5 * t, 1 + 12 * t, 0.7, -5 * t])
    m = rs.randint(0, 3, len(w)) > 0
    w[m] = rs.choice(vals, m.sum())
    return w


def check(spec, ctx):
    o = spec["opts"]
    pts, cur = [], dict(k=0)

    def script(k, c, nlp):
        j = cur["k"]
        cur["k"] += 1
        return dict(x=pts[j % len(pts)], status=cur["status"][j] if j < len(cur["status"]) else cur["status"][-1], iter=7 + j)
    case = nlpcase.Case(spec, script=script, solve=False)
    P, N = case.prob, o["N_stages"]
    tol = o["comp_tol"]
    eps = 10 * tol
    base = dict(lbx=np.array(P.lbw, float).copy(), ubx=np.array(P.ubw, float).copy(), lbg=np.array(P.lbg, float).copy(), ubg=np.array(P.ubg, float).copy())
    f = refnlp._flat
    fixable = np.zeros(len(P.w0), bool)
    fixable[np.array(f(P.ind_theta) + f(P.ind_lam) + f(P.ind_alpha) + f(P.ind_lambda_n) + f(P.ind_lambda_p), int)] = True
    x0, p = np.array(spec["x0"], float), spec.get("p_val")
    n_fixed = 0
    for s in range(spec["n_solves"]):
        if s:
            # another initial state and parameter
            with quiet(), sut("set"):
                case.solver.set("x0", np.array(spec["x1"], float))
                if spec["npg"]:
                    case.solver.set("p_global", np.array(spec["p1"], float))
            x0, p = np.array(spec["x1"], float), spec["p1"] if spec["npg"] else None
        pts[:] = [mixed_point(P, spec, spec["wseed"] + 31 * s + 7 * k) for k in range(4)]
        cur["k"] = 0
        cur["status"] = spec["status"][s % 4:] + spec["status"][:s % 4]
        ref = refnlp.Ref(spec, P, x0=x0, p_val=p)
        # number of homotopy subproblems
        nh = 1
        if o["max_iter_homotopy"] == 2:
            r = ref.residual(pts[0])
            if abs(r / tol - 1) < 1e-3:
                raise Inapplicable("residual at the tolerance")
            nh = 1 if r < tol else 2
        k0 = len(case.nlp.calls)
        w_guess = np.array(P.w0, float).copy()
        res = case.solve()
        calls = case.nlp.calls[k0:]
        hom, pol = calls[:nh], calls[nh:]
        require(bool(pol) == o["do_polishing_step"] and len(hom) == nh, lambda: f"solve {s}: {len(calls)} subproblems; {nh} homotopy steps expected, polishing {o['do_polishing_step']}")
        # homotopy calls: the initial active set
        lb, ub = base["lbx"].copy(), base["ubx"].copy()
        zero = np.zeros(len(lb), bool)
        if o["fix_active_set_fe0"] and o["pss_mode"] == "STEWART":
            l0 = ref.lambda00()
            if np.any((l0 > 0.3 * eps) & (l0 < 3 * eps)):
                raise Inapplicable("initial state at a region boundary up to the tolerance")
            for k in range(o["n_s"]):
                idx = np.array(f(P.ind_theta[0][0][k]), int)
                zero[idx[l0 > eps]] = True
            lb[zero] = 0.0
            ub[zero] = 0.0
        for k, c in enumerate(hom):
            for key, val in (("lbx", lb), ("ubx", ub), ("lbg", base["lbg"]), ("ubg", base["ubg"])):
                bad = np.where(c[key] != val)[0]
                require(len(bad) == 0, lambda: f"solve {s}, homotopy step {k}: {key} differs at {bad[:6].tolist()}: {c[key][bad[:6]]} instead of {val[bad[:6]]}; "
                        f"regions the initial state is not in: variables {np.where(zero)[0].tolist()}")
        guess = hom[0]["x0"]
        exp = w_guess.copy()
        if o["initialization_strategy"] != "EXTERNAL":
            for i in range(N):
                for fe in P.ind_x[i]:
                    for ind in fe:
                        exp[np.array(ind, int)] = x0
        exp[zero] = 0.0
        bad = np.where(np.abs(guess - exp) > 1e-12)[0]
        require(len(bad) == 0, lambda: f"solve {s}: initial guess differs at {bad[:6].tolist()}: {guess[bad[:6]]} instead of {exp[bad[:6]]}")
        last = pts[nh - 1]
        if pol:
            z = fixable & (last < eps)
            one = fixable & (np.abs(last - 1) < eps)
            lb, ub = base["lbx"].copy(), base["ubx"].copy()
            lb[z] = ub[z] = 0.0
            lb[one] = ub[one] = 1.0
            c = pol[-1]
            for key, val in (("lbx", lb), ("ubx", ub), ("lbg", base["lbg"]), ("ubg", base["ubg"])):
                bad = np.where(c[key] != val)[0]
                require(len(bad) == 0, lambda: f"solve {s}, polishing: {key} differs at {bad[:6].tolist()}: {c[key][bad[:6]]} instead of {val[bad[:6]]}, last iterate there "
                        f"{last[bad[:6]]}, threshold {eps}")
            require(np.array_equal(pol[0]["x0"], last), "the polishing step does not start from the last iterate")
            if o["mpcc_mode"] in refnlp.ELASTIC:
                # the relaxation is the slack variable, sigma its weight in the objective
                sig = o["sigma_0"] * (0.1 if nh == 2 else 1.0)
                rz = refnlp.Ref(spec, P, sigma=sig, x0=x0, p_val=p)
                e = rz.total_cost(c["answer"])
                require(abs(c["f"] - e) <= 1e-7 * (1 + abs(e)), lambda: f"solve {s}: objective of the polishing problem is {c['f']}, the problem's objective with the last weight {sig} is {e}")
            else:
                rz = refnlp.Ref(spec, P, sigma=0.0, tau=0.0, x0=x0, p_val=p)
                require(np.isfinite(c["f"]), "the objective of the polishing problem is not finite")
            try:
                nlpcase.compare(spec, P, case.nlp, c, {"comp", "comp0", "dyn", "alg"}, 11, ref=rz, n_points=3)
            except Violation as e:
                fail(f"polishing is not solved with vanishing relaxation and the current data: {e}")
            n_fixed += int(z.sum() + one.sum())
            final = c
        else:
            final = hom[-1]
        require(np.array_equal(flat(res["w_sol"]), final["answer"]), "w_sol is not the answer of the last subproblem")
        require(abs(res["cost_val"] - final["f"]) <= 1e-12 * (1 + abs(final["f"])), lambda: f"cost_val {res['cost_val']}, objective of the reported point {final['f']}")
        require((res["status"].name == "SUCCESS") == (final["stats"]["return_status"] in GOOD), lambda: f"status {res['status']} after {final['stats']['return_status']}")
        require(np.array_equal(flat(res["x_list"][-1]), final["answer"][P.ind_x[-1][-1][-1]]), "reported states are not those of the reported point")
        if pol:
            require(res["nlp_iter"][-1] == final["stats"]["iter_count"], lambda: f"nlp_iter {res['nlp_iter']}: polishing took {final['stats']['iter_count']}")
        require(all(np.array_equal(np.array(a, float), base[b]) for a, b in ((P.lbw, "lbx"), (P.ubw, "ubx"), (P.lbg, "lbg"), (P.ubg, "ubg"))),
                "the bounds of the problem were changed by the solve")
        if o["initialization_strategy"] != "ALL_XCURRENT_WOPT_PREV":
            exp2 = exp.copy()
            exp2[zero] = w_guess[zero]
            require(np.array_equal(np.array(P.w0, float), exp2), "the initial guess of the problem was changed by fixing")
        ctx.label("polish" if pol else "no_polish", "fix0=%d" % (zero.sum() > 0), o["pss_mode"], o["mpcc_mode"])
        n_fixed += int(zero.sum())
    ctx.nontrivial = n_fixed > 0

"""C20: the simulation loop against manual stepping (scripted back end)."""
import copy

import numpy as np
from hypothesis import strategies as st

from pbt import build, fake, gen, nlpcase, refnlp
from pbt.checks.c14 import flat
from pbt.core import fail, quiet, require, sut

BUDGET = dict(quick=dict(cases=2100, seconds=150), thorough=dict(cases=14000, seconds=800))

GOOD = ["Solve_Succeeded", "Solved_To_Acceptable_Level"]
BAD = ["Infeasible_Problem_Detected", "Maximum_Iterations_Exceeded", "Restoration_Failed"]


@st.composite
def strategy_(draw, tier):
    def extra(draw, spec):
        o = spec["opts"]
        o["max_iter_homotopy"] = draw(st.sampled_from([1, 1, 2, 3]))
        o["initialization_strategy"] = draw(st.sampled_from(["EXTERNAL", "ALL_XCURRENT_W0_START", "ALL_XCURRENT_WOPT_PREV"]))
        o["do_polishing_step"] = draw(st.integers(0, 3)) == 0
        o["print_level"] = 0
        n = draw(st.sampled_from([2, 3, 1, 4] if tier == "quick" else [2, 3, 1, 5, 8]))
        spec["nsim"] = n
        spec["stop"] = draw(st.booleans())
        # one entry per step: does its last subproblem fail?
        spec["bad"] = [draw(st.integers(0, 3)) == 0 for _ in range(n)]
        spec["w_init"] = o["initialization_strategy"] == "EXTERNAL" and draw(st.booleans())
        spec["p_values"] = spec["npg"] > 0 and draw(st.booleans())
        # the parameters of the steps: a few different ones, in any order
        spec["p_rows"] = [draw(st.integers(0, 2)) for _ in range(n)]
        spec["pseed"] = draw(st.integers(0, 99))
        spec["x0_loop"] = [draw(gen.val) for _ in range(spec["nx"])]
    return draw(gen.problem(n_s=(1, 3), max_stages=1, max_nfe=4, max_total=4, sot=["NONE", "NONE", "LOCAL", "GLOBAL"], mpcc=["SCHOLTES_INEQ", "SCHOLTES_EQ", "ELASTIC_INEQ"],
                            ocp=False, model_kw=dict(nu=0, nz=1, max_nx=2), extra=extra))


def strategy(tier):
    return strategy_(tier)


def check(spec, ctx):
    import nosnoc
    n = spec["nsim"]
    o = spec["opts"]
    spec = copy.deepcopy(spec)
    spec["ocp"] = None
    store = {}

    def script(k, c, nlp):
        return dict(x=store["w"][k], status=store["st"][k], iter=5 + k, time=0.001 * (k + 1))
    A = nlpcase.Case(spec, script=script, solve=False)
    B = nlpcase.Case(spec, script=script, solve=False)
    per = o["max_iter_homotopy"] + (1 if o["do_polishing_step"] else 0)
    P = A.prob
    store["w"] = nlpcase.random_points(P, spec, n * per, spec["pseed"])
    for k, w in enumerate(store["w"]):
        w[np.array(refnlp._flat(P.ind_h), int)] *= [1.0, 0.01, 0.2][(spec["pseed"] + k // per) % 3]
    store["st"] = [BAD[i % 3] if (spec["bad"][i] and j == per - 1) else (GOOD[(i + j) % 2] if j == per - 1 or (i + j) % 3 else BAD[j % 3])
                   for i in range(n) for j in range(per)]
    rs = np.random.RandomState(spec["pseed"] + 1)
    kw = {}
    if spec["p_values"]:
        rows = rs.uniform(-2, 2, (3, spec["npg"]))
        rows[1, 0] = rows[0, 0]         # rows that differ in some components only
        kw["p_values"] = rows[spec["p_rows"]]
    if spec["w_init"]:
        kw["w_init"] = [rs.uniform(0.1, 2, len(P.w0)) for _ in range(n)]
    keep = copy.deepcopy(kw)
    x0 = np.array(spec["x0_loop"], float)
    with quiet(), sut("NosnocSimLooper"):
        looper = nosnoc.NosnocSimLooper(A.solver, x0.copy(), n, print_level=0, **copy.deepcopy(kw))
        ret = looper.run(stop_on_failure=True) if spec["stop"] else looper.run()
        res = looper.get_results()
    # manual stepping
    x, steps = x0, []
    with quiet(), sut("manual stepping"):
        for i in range(n):
            B.solver.set("x0", x)
            if spec["w_init"]:
                B.solver.set("w", keep["w_init"][i].copy())
            if spec["p_values"]:
                B.solver.set("p_global", keep["p_values"][i])
            r = B.solver.solve()
            steps.append(r)
            x = r["x_list"][-1]
            if spec["stop"] and spec["bad"][i]:
                break
    m = len(steps)
    require(len(A.nlp.calls) == m * per if not o["do_polishing_step"] else len(A.nlp.calls) == len(B.nlp.calls),
            lambda: f"the loop solved {len(A.nlp.calls)} subproblems, {m} steps of {per} expected (failing steps {spec['bad']}, stop_on_failure={spec['stop']})")
    for k, (a, b) in enumerate(zip(A.nlp.calls, B.nlp.calls)):
        for key in ("x0", "p", "lbx", "ubx", "lbg", "ubg"):
            require(np.array_equal(a[key], b[key]), lambda: f"subproblem {k} (step {k // per}): {key} differs from the one of manual stepping: {a[key]} / {b[key]}")
    failed = any(spec["bad"][:m])
    if spec["stop"]:
        require(bool(ret) == (not failed), lambda: f"run(stop_on_failure=True) returned {ret}, failing steps {spec['bad']}")
    else:
        require(ret is None or bool(ret), lambda: f"run() returned {ret}")

    def same(key, exp):
        got = res[key]
        require(len(got) == len(exp), lambda: f"{key} has {len(got)} entries, expected {len(exp)}")
        for k, (a, b) in enumerate(zip(got, exp)):
            a, b = flat(a), flat(b)
            require(a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=1e-12), lambda: f"{key}[{k}] is {a}, expected {b}")
    # independent of any extraction: states are read from the answers
    ends = [P.ind_x[0][f][-1] for f in range(len(P.ind_x[0]))]
    last = [store["w"][i * per + per - 1] for i in range(m)]
    same("X_sim", [x0] + [w[ind] for w in last for ind in ends])
    ref = refnlp.Ref(spec, P)
    hs = [ref.h(w, 0, f) for w in last for f in range(len(ends))]
    same("time_steps", hs)
    same("t_grid", np.concatenate(([0.0], np.cumsum(hs))))
    same("theta_sim", [r["theta_list"] for r in steps])
    same("lambda_sim", [r["lambda_list"] for r in steps])
    same("alpha_sim", [r["alpha_list"] for r in steps])
    same("z_sim", [r["z_list"] for r in steps])
    same("w_sim", last)
    same("w_all", [r["w_all"] for r in steps])
    same("cost_vals", [r["cost_val"] for r in steps])
    if o["speed_of_time_variables"] != "NONE":
        same("sot", [r["sot"] for r in steps])
    require([s.name for s in res["status"]] == ["INFEASIBLE" if spec["bad"][i] else "SUCCESS" for i in range(m)],
            lambda: f"status {res['status']}, failing steps {spec['bad']}")
    # switch times: absolute
    exp, t = [], 0.0
    for i, r in enumerate(steps):
        exp += [t + s for s in flat(r["switch_times"])]
        t += sum(hs[i * len(ends):(i + 1) * len(ends)])
    same("switch_times", exp)
    cpu = np.array(res["cpu_nlp"], float)
    require(cpu.shape == (n, per), lambda: f"cpu_nlp has shape {cpu.shape}")
    for i in range(n):
        if i >= m:
            row = np.zeros(per)
        else:
            row = np.array([0.0 if v is None else v for v in steps[i]["cpu_time_nlp"]], float)
            if o["do_polishing_step"]:
                require(np.allclose(cpu[i][:-1], row[:-1]), lambda: f"cpu_nlp[{i}] is {cpu[i]}, expected {row}")
                continue
        require(np.allclose(cpu[i], row), lambda: f"cpu_nlp[{i}] is {cpu[i]}, expected {row}")
    require(all(np.array_equal(a, b) for k in keep for a, b in zip(keep[k], kw[k])), "the user's parameter or guess sequence was changed")
    ctx.label("steps=%d" % m, o["initialization_strategy"], *[k for k in ("stop", "w_init", "p_values") if spec[k]], "failed=%s" % failed,
              "switches=%s" % (len(exp) > 0))
    ctx.nontrivial = m > 1

"""C08: step lengths, clock constraints, time grids."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, nlpcase, refnlp
from pbt.core import require

BUDGET = dict(quick=dict(cases=2700, seconds=150), thorough=dict(cases=16000, seconds=800))


def strategy(tier):
    def extra(draw, spec):
        o = spec["opts"]
        o["gamma_h"] = draw(st.sampled_from([1.0, 0.0, 0.3, 0.5, 0.8]))
        if draw(st.booleans()):
            o["time_freezing"] = True
            o["time_freezing_tolerance"] = draw(st.sampled_from([1e-3, 1e-1, 0.25]))
            nx = spec["nx"]
            spec["t_var"] = draw(st.sampled_from([["x", nx - 1], ["x", 0], ["+", ["x", 0], ["*", 2.0, ["x", nx - 1]]]]))
        if o["speed_of_time_variables"] != "NONE":
            o["speed_of_time_min"] = draw(st.sampled_from([1.0, 0.1, 1e-3]))
            o["speed_of_time_max"] = draw(st.sampled_from([25.0, 2.0, 10.0]))
    return gen.problem(n_s=(1, 3), mpcc=["SCHOLTES_INEQ"], sot=gen.SOT, max_stages=4, max_nfe=4, max_total=6 if tier == "quick" else 10,
                       fesd=(True, True, False), model_kw=dict(max_sys=2, max_nc=1, nz=1),
                       ocp_kw=dict(cost=False, comp=False, path=False, terminal=False), extra=extra)


def check(spec, ctx):
    o = spec["opts"]
    case = nlpcase.Case(spec, script=lambda k, c, nlp: dict(x=answer[0]), solve=False)
    answer = nlpcase.random_points(case.prob, spec, 1, spec["wseed"] + 1)
    case.solve()
    ref = refnlp.Ref(spec, case.prob)
    # fixed step lengths are no variables: they are seen in the dynamics
    kinds = {"grid"} if o["use_fesd"] else {"grid", "dyn"}
    W, rows, act, others, extra = nlpcase.compare(spec, case.prob, case.nlp, case.call, kinds, spec["wseed"], ref=ref)
    nlpcase.no_extra(case.prob, case.nlp, others, extra, {"grid", "path"})
    for name, ind, *data in ref.variables():
        if name in ("h", "sot"):
            for key, val in zip(("lbx", "ubx"), data[:2]):
                got = case.call[key][ind]
                require(np.allclose(got, val, rtol=1e-12, atol=1e-14), lambda: f"{name}: {key} {got}, expected {val}")
            got = case.call["x0"][ind]
            require(np.allclose(got, data[2], rtol=1e-12, atol=1e-14), lambda: f"{name}: initial guess {got}, expected {data[2]}")
        elif name == "n_sot":
            require(ind == data[0], lambda: f"{ind} speed of time variables, expected {data[0]}")
    fesd = ref.o["use_fesd"]
    n = sum(ref.o["Nfe_list"])
    nh = len(refnlp._flat(case.prob.ind_h))
    require(nh == (n if fesd else 0), lambda: f"{nh} step length variables for {n} elements, use_fesd={fesd}")
    # reported grids
    r = case.result
    w = answer[0]
    T, N = ref.o["terminal_time"], ref.o["N_stages"]
    steps = [ref.h(w, i, f) for i in range(N) for f in range(ref.o["Nfe_list"][i])]
    got = np.array(r["time_steps"], float).flatten()
    require(got.shape == (n,) and np.allclose(got, steps, rtol=1e-12), lambda: f"time_steps {got}, expected {steps}")
    grid = np.concatenate(([0.0], np.cumsum(steps)))
    got = np.array(r["t_grid"], float).flatten()
    require(got.shape == (n + 1,) and np.allclose(got, grid, rtol=1e-12, atol=1e-13), lambda: f"t_grid {got}, expected {grid}")
    ug = grid[np.concatenate(([0], np.cumsum(ref.o["Nfe_list"])))]
    got = np.array(r["t_grid_u"], float).flatten()
    require(got.shape == ug.shape and np.allclose(got, ug, rtol=1e-12, atol=1e-13), lambda: f"t_grid_u {got}, expected {ug}")
    if not fesd:
        require(abs(grid[-1] - T) <= 1e-9 * T, "fixed steps do not add up to the horizon")
    ctx.label("fesd=%s" % fesd, "equidistant=%s" % o["equidistant_control_grid"], "time_freezing=%s" % bool(o.get("time_freezing")),
              "sot=" + o["speed_of_time_variables"], "N_stages=%d" % N, "ragged=%s" % (len(set(ref.o["Nfe_list"])) > 1))
    ctx.nontrivial = N > 1 or bool(o.get("time_freezing")) or o["speed_of_time_variables"] != "NONE"

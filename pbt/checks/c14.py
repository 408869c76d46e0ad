"""C14: extraction of the reported trajectories from arbitrary primal vectors."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, nlpcase, refnlp
from pbt.core import quiet, require, sut

BUDGET = dict(quick=dict(cases=3600, seconds=150), thorough=dict(cases=24000, seconds=800))


@st.composite
def strategy_(draw, tier):
    def extra(draw, spec):
        total = 8
        # pattern of the region multipliers along the elements: repetition, small change or real change
        if draw(st.booleans()):
            spec["x0_set"] = [draw(gen.val) for _ in range(spec["nx"])]
        spec["pattern"] = [draw(st.integers(0, 3)) for _ in range(total)]
    return draw(gen.problem(n_s=(1, 4), sot=gen.SOT, mpcc=["SCHOLTES_INEQ", "ELASTIC_EQ"], max_stages=4, max_nfe=4,
                            max_total=7, model_kw=dict(max_sys=3, max_nc=2, nz=2, nv=2), ocp_kw=dict(comp=False, path=False),
                            extra=extra))


def strategy(tier):
    return strategy_(tier)


def flat(v):
    if isinstance(v, (list, tuple)):
        return np.concatenate([flat(e) for e in v]) if len(v) else np.zeros(0)
    return np.array(v, float).flatten()


def check(spec, ctx):
    o = spec["opts"]
    answers = []
    case = nlpcase.Case(spec, script=lambda k, c, nlp: dict(x=answers[0]), solve=False)
    P = case.prob
    ref = refnlp.Ref(spec, P)
    nfe = ref.o["Nfe_list"]
    elems = [(i, f) for i in range(len(nfe)) for f in range(nfe[i])]
    w = nlpcase.random_points(P, spec, 1, spec["wseed"])[0]
    rs = np.random.RandomState(spec["wseed"] + 5)
    ns = o["n_s"]
    # multipliers at the last stage of every element
    ind = P.ind_theta if ref.stewart else P.ind_alpha
    prev = None
    for (i, f), pat in zip(elems, spec["pattern"]):
        idx = np.array(refnlp._flat(ind[i][f][ns - 1]), int)
        if prev is not None:
            if pat == 0:
                w[idx] = prev
            elif pat == 1:
                w[idx] = prev + rs.uniform(-0.09, 0.09, len(idx))
            elif pat == 2:
                w[idx] = prev
                w[idx[rs.randint(len(idx))]] += rs.choice([-1, 1]) * rs.uniform(0.12, 1.0)
        prev = w[idx].copy()
    answers.append(w)
    x0 = np.array(spec["x0"], float)
    if spec.get("x0_set"):
        x0 = np.array(spec["x0_set"], float)
        with quiet(), sut("set x0"):
            case.solver.set("x0", x0.copy())
    case.solve()
    r = case.result

    def same(key, exp, idx=None):
        require(key in r, lambda: f"no field {key} in the results")
        got = r[key]
        require(len(got) == len(exp), lambda: f"{key} has {len(got)} entries, expected {len(exp)}")
        for k, (a, b) in enumerate(zip(got, exp)):
            a, b = flat(a), flat(b)
            require(a.shape == b.shape and np.array_equal(a, b), lambda: f"{key}[{k}] is {a}, expected {b} (w has the latter there)")

    x_list = [w[P.ind_x[i][f][-1]] for i, f in elems]
    x_all = [w[ind_] for i, f in elems for ind_ in P.ind_x[i][f]]
    same("x_list", x_list)
    same("x_traj", [x0] + x_list)
    same("x_all_list", [x0] + x_all)
    require(np.array_equal(flat(r["x_out"]), x_list[-1]), "x_out is not the final state")
    if spec["nu"]:
        for key in ("u_list", "u_traj"):
            same(key, [w[P.ind_u[i]] for i in range(len(nfe))])
    if spec["nv"]:
        require(np.array_equal(flat(r["v_global"]), w[np.array(refnlp._flat(P.ind_v_global))]), "v_global")
    if spec["nz"]:
        same("z_list", [w[P.ind_z[i][f][-1]] for i, f in elems])
    if o["speed_of_time_variables"] != "NONE":
        same("sot", [w[s] for s in P.ind_sot])

    def alg(ind_, last=-1):
        return [w[np.array(refnlp._flat(ind_[i][f][last]), int)] for i, f in elems]
    if ref.stewart:
        same("theta_list", alg(P.ind_theta))
        same("lambda_list", alg(P.ind_lam))
        mult = alg(P.ind_theta)
    else:
        same("alpha_list", alg(P.ind_alpha))
        same("lambda_n_list", alg(P.ind_lambda_n))
        same("lambda_p_list", alg(P.ind_lambda_p))
        mult = alg(P.ind_alpha)
    # switches
    steps = [ref.h(w, i, f) for i, f in elems]
    grid = np.concatenate(([0.0], np.cumsum(steps)))
    same("time_steps", steps)
    require(np.allclose(flat(r["t_grid"]), grid, rtol=1e-12, atol=1e-14), lambda: f"t_grid is {r['t_grid']}, the steps are {steps}")
    stages = grid[np.concatenate(([0], np.cumsum(nfe))).astype(int)]
    got = flat(r["t_grid_u"])
    require(got.shape == stages.shape and np.allclose(got, stages, rtol=1e-12, atol=1e-14), lambda: f"t_grid_u is {got}, the control stages start and end at {stages}")
    exp, unclear = [], False
    for k in range(1, len(elems)):
        d = np.max(np.abs(mult[k] - mult[k - 1]))
        unclear = unclear or abs(d - 0.1) < 1e-9
        if d > 0.1:
            exp.append(grid[k])
    got = flat(r["switch_times"])
    if not unclear:
        require(got.shape == (len(exp),) and np.allclose(got, exp, rtol=1e-12), lambda: f"switch times {got}, the multipliers switch at {exp}; grid {grid}")
    require(np.array_equal(flat(r["w_sol"]), w), "w_sol is not the answer of the back end")
    ctx.label(o["irk_representation"], o["irk_scheme"], o["pss_mode"], "switches=%d" % len(exp), "n_sys=%d" % len(spec["sys"]),
              "different_sizes=%s" % (len({len(m) for m in spec["sys"][0].values()}) > 0 and len({len(y.get('F', y.get('c'))) for y in spec['sys']}) > 1),
              "ragged=%s" % (len(set(nfe)) > 1))
    ctx.nontrivial = len(elems) > 1

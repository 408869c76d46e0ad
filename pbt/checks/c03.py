"""C03: representation conditions of the piecewise smooth system: reference NLP and region semantics."""
import numpy as np
from hypothesis import strategies as st

from pbt import expr, gen, irk, nlpcase, refnlp
from pbt.core import Inapplicable, fail, require

BUDGET = dict(quick=dict(cases=2700, seconds=150), thorough=dict(cases=16000, seconds=800))


@st.composite
def semantic(draw):
    spec = draw(gen.model(max_nc=3, max_sys=3, tree=True))
    pss = draw(st.sampled_from(gen.pss_for(spec["kind"])))
    if spec["kind"] == "S" and pss == "STEWART":
        for y in spec["sys"]:                   # Stewart: complete sign patterns
            nc = len(y["c"])
            rows = [[1 if (r >> k) & 1 else -1 for k in range(nc)] for r in range(2 ** nc)]
            y["S"] = draw(st.permutations(rows))
            fv = gen.allvars(spec, ["x", "u", "z", "p", "pt", "v"])
            y["F"] = [y["F"][j] if j < len(y["F"]) else [draw(gen.expression(fv, 1)) for _ in range(spec["nx"])]
                      for j in range(len(rows))]
    spec["opts"] = dict(N_stages=1, N_finite_elements=1, n_s=1, irk_scheme=draw(st.sampled_from(gen.SCHEMES)),
                        terminal_time=draw(st.sampled_from([1.0, 0.5, 2.0])), use_fesd=draw(st.booleans()),
                        irk_representation=draw(st.sampled_from(gen.REPS)), pss_mode=pss, sigma_0=1e-9,
                        cross_comp_mode=draw(st.sampled_from(gen.CROSS)), max_iter_homotopy=1,
                        mpcc_mode=draw(st.sampled_from(["SCHOLTES_INEQ", "ELASTIC_INEQ"])))
    draw(gen.finish_model(spec, 1))
    small = st.integers(-20, 20).map(lambda k: k / 10)
    spec["xs"] = [draw(small) for _ in range(spec["nx"])]
    spec["us"] = [draw(small) for _ in range(spec["nu"])]
    spec["vs"] = [draw(small) for _ in range(spec["nv"])]
    return dict(kind="semantic", spec=spec)


def structural():
    return gen.problem(mpcc=["SCHOLTES_INEQ", "FISCHER_BURMEISTER"], ocp=True, model_kw=dict(nz=2, max_sys=3, max_nc=3),
                       ocp_kw=dict(cost=False, comp=False, path=False, terminal=False),
                       max_total=4).map(lambda s: dict(kind="structural", spec=s))


def strategy(tier):
    return st.one_of(semantic(), structural())


def region_of(spec, s, env, stewart):
    """index of the region of subsystem s that contains the state, and the margin"""
    y = spec["sys"][s]
    if spec["kind"] == "g":
        g = np.array([expr.ev(e, env) for e in y["g"]])
        o = np.sort(g)
        return int(np.argmin(g)), o[1] - o[0]
    c = np.array([expr.ev(e, env) for e in y["c"]])
    inside = [j for j, row in enumerate(y["S"]) if all(sv == 0 or sv * cv > 0 for sv, cv in zip(row, c))]
    if len(inside) != 1:
        raise Inapplicable("the state is on a surface")
    return inside[0], np.min(np.abs(c))


def point(spec, prob, regions, x, x0, f, z, cs, gs):
    """the primal point that represents: state x in the given regions, derivative f"""
    o = spec["opts"]
    w = np.array(prob.w0, float).copy()
    h = o["terminal_time"]
    if o["use_fesd"]:
        w[prob.ind_h[0]] = h
    A, b, _ = irk.butcher(1, o["irk_scheme"])
    xend = x0 + h * b[0] * f
    fe = prob.ind_x[0][0]
    if o["irk_representation"] == "DIFFERENTIAL":
        w[fe[0]] = xend
    else:
        w[fe[0]] = x
        w[fe[-1]] = xend if len(fe) > 1 else x
    if o["irk_representation"] != "INTEGRAL":
        w[prob.ind_v[0][0][0]] = f
    for s in range(len(spec["sys"])):
        if o["pss_mode"] == "STEWART":
            th = np.zeros(len(gs[s]))
            th[regions[s]] = 1
            mu = -gs[s][regions[s]]
            w[prob.ind_theta[0][0][0][s]] = th
            w[prob.ind_lam[0][0][0][s]] = gs[s] + mu
            w[prob.ind_mu[0][0][0][s]] = mu
        else:
            w[prob.ind_alpha[0][0][0][s]] = (cs[s] > 0).astype(float)
            w[prob.ind_lambda_n[0][0][0][s]] = np.maximum(-cs[s], 0)
            w[prob.ind_lambda_p[0][0][0][s]] = np.maximum(cs[s], 0)
    if spec["nz"]:
        w[prob.ind_z[0][0][0]] = z
    if spec["nu"]:
        w[prob.ind_u[0]] = spec["us"]
    if spec["nv"]:
        w[prob.ind_v_global[0]] = spec["vs"]
    for ind in prob.ind_elastic:
        w[ind] = 1e-9
    return w


def violation_of(case, w):
    c = case.call
    g = case.nlp.fun(w, c["p"])[1].full().flatten()
    v = [0.0]
    v += list(np.maximum(c["lbg"] - g, 0)) + list(np.maximum(g - c["ubg"], 0))
    lb = np.maximum(c["lbx"] - w, 0)
    ub = np.maximum(w - c["ubx"], 0)
    return max(np.max(v), np.max(lb), np.max(ub))


def check(case_spec, ctx):
    spec = case_spec["spec"]
    if case_spec["kind"] == "structural":
        case = nlpcase.Case(spec)
        W, rows, act, others, extra = nlpcase.compare(spec, case.prob, case.nlp, case.call, {"alg"}, spec["wseed"])
        nlpcase.no_extra(case.prob, case.nlp, others, extra, {"alg"})
        ctx.label("structural", "structural:" + spec["opts"]["pss_mode"])
        ctx.nontrivial = len(spec["sys"]) > 1 or spec["nz"] > 0
        return
    o = spec["opts"]
    stewart = o["pss_mode"] == "STEWART"
    x = np.array(spec["xs"], float)
    env = dict(x=x, u=spec["us"], v=spec["vs"], p=spec.get("p_val", []), pt=(spec.get("pt_val") or [[]])[0])
    # my g_z are of the form z_i - expression(x, u, p, pt)
    z = np.array([-expr.ev(e, dict(env, z=[0.0] * spec["nz"])) for e in spec.get("g_z", [])])
    env["z"] = z
    nsys = len(spec["sys"])
    cs = [np.array([expr.ev(e, env) for e in y["c"]]) if "c" in y else None for y in spec["sys"]]
    gs = [None] * nsys
    if spec["kind"] == "gi":
        if min(np.min(np.abs(c)) for c in cs) < 1e-3:
            raise Inapplicable("on a surface")
        a = np.concatenate([(c > 0).astype(float) for c in cs])
        f = np.array([expr.ev(e, dict(env, a=a)) for y in spec["sys"] for e in y["f"]])
        regions = [0] * nsys
    else:
        f = np.zeros(spec["nx"])
        regions, margin = [], np.inf
        for s, y in enumerate(spec["sys"]):
            r, m = region_of(spec, s, env, stewart)
            regions.append(r)
            margin = min(margin, m)
            f = f + np.array([expr.ev(e, env) for e in y["F"][r]])
            if spec["kind"] == "g":
                gs[s] = np.array([expr.ev(e, env) for e in y["g"]])
            elif stewart:
                gs[s] = -np.array(y["S"], float) @ cs[s]
        if margin < 1e-3:
            raise Inapplicable("too close to a surface")
    h = o["terminal_time"]
    A = irk.butcher(1, o["irk_scheme"])[0][0, 0]
    x0 = x - h * A * f
    if o["use_fesd"]:
        # the multipliers of the initial state take part in the complementarities: only meaningful in the same region
        spec = dict(spec, opts=dict(o, use_fesd=False))
        o = spec["opts"]
    spec = dict(spec, x0=list(x0), ocp=None)
    case = nlpcase.Case(spec)
    w = point(spec, case.prob, regions, x, x0, f, z, cs, gs)
    scale = 1 + max(np.max(np.abs(f)), np.max(np.abs(x0)))
    v = violation_of(case, w)
    if v > 1e-7 * scale:
        fail(f"state {list(x)} inside regions {regions}: the exact multipliers and derivative {list(f)} violate the "
             f"stage conditions by {v:.3g}")
    # another derivative is not a solution
    for d in range(spec["nx"]):
        f2 = f.copy()
        f2[d] += 0.1
        w2 = point(spec, case.prob, regions, x, x0, f2, z, cs, gs)
        if o["irk_representation"] == "INTEGRAL" and o["irk_scheme"] == "RADAU_IIA":
            w2[case.prob.ind_x[0][0][-1][d]] += 0.1
        require(violation_of(case, w2) > 1e-4 * min(1.0, h), lambda: f"component {d} of the derivative is not determined by the program")
    # Stewart: another region is not admissible
    if stewart and spec["kind"] != "gi":
        for s in range(nsys):
            for r in range(len(gs[s])):
                if r == regions[s] or gs[s][r] - gs[s][regions[s]] < 1e-2:
                    continue
                other = list(regions)
                other[s] = r
                w3 = point(spec, case.prob, other, x, x0, f, z, cs, gs)
                require(violation_of(case, w3) > 1e-3, lambda: f"region {r} of subsystem {s} is admissible although the state is in region {regions[s]}")
    ctx.label("semantic", spec["kind"] + ":" + o["pss_mode"], "nsys=%d" % nsys,
              "regions=%s" % max(len(y.get("F", [])) for y in spec["sys"]))
    if spec["kind"] == "S" and any(0 in row for y in spec["sys"] for row in y["S"]):
        ctx.label("dont-care")
    ctx.nontrivial = nsys > 1 or any(len(y.get("F", [])) > 2 for y in spec["sys"]) or spec["kind"] == "gi"

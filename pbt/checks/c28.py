"""C28: least-squares constraint handling."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, nlpcase, refnlp
from pbt.core import fail, require

BUDGET = dict(quick=dict(cases=1750, seconds=150), thorough=dict(cases=14000, seconds=800))


@st.composite
def strategy_(draw, tier):
    spec = draw(gen.problem(ocp=False, n_s=(1, 3), sot=gen.SOT, steq=gen.STEQ, max_total=5,
                            mpcc=["SCHOLTES_EQ", "FISCHER_BURMEISTER", "FISCHER_BURMEISTER_IP_AUG", "ELASTIC_EQ", "SCHOLTES_EQ", "SCHOLTES_INEQ"],
                            model_kw=dict(nz=1, nv=1)))
    spec["ocp"] = draw(gen.ocp_part(spec)) if draw(st.booleans()) else None
    oc = spec["ocp"]
    if oc and oc.get("lbg") is not None and draw(st.booleans()):
        oc["lbg"] = oc["ubg"] = [draw(st.sampled_from([0.0, 0.0, 0.25])) for _ in oc["lbg"]]
    spec["opts"]["rho_h"] = draw(st.sampled_from([1.0, 0.1]))
    return spec


def strategy(tier):
    return strategy_(tier)


def check(spec, ctx):
    import copy
    exact = nlpcase.Case(spec)
    lbg, ubg = exact.call["lbg"], exact.call["ubg"]
    ok = bool(np.all(lbg == 0) and np.all(ubg == 0))
    s2 = copy.deepcopy(spec)
    s2["opts"]["constraint_handling"] = "LEAST_SQUARES"
    o = spec["opts"]
    ctx.label(o["mpcc_mode"], "equalities=%s" % ok, "ocp=%s" % (spec["ocp"] is not None), o["step_equilibration"])
    if not ok:
        try:
            nlpcase.Case(s2)
        except Exception as e:  # noqa: BLE001
            if "unexpected" in str(e):
                return
            raise
        fail(f"least squares handling accepted a problem with constraint bounds {lbg[(lbg != 0) | (ubg != 0)][:3]}, {ubg[(lbg != 0) | (ubg != 0)][:3]}")
    lsq = nlpcase.Case(s2)
    require(lsq.nlp.g.shape[0] == 0 and len(lsq.call["lbg"]) == 0 and len(lsq.call["ubg"]) == 0, lambda: f"{lsq.nlp.g.shape[0]} constraints remain")
    for k in ("lbx", "ubx", "x0"):
        require(np.array_equal(lsq.call[k], exact.call[k]), lambda: f"{k} differs from the exact handling")
    for w in nlpcase.random_points(lsq.prob, spec, 3, spec["wseed"]):
        f, g = exact.nlp.fun(w, exact.call["p"])
        exp = float(f) + float(np.sum(g.full() ** 2))
        got = float(lsq.nlp.fun(w, lsq.call["p"])[0])
        require(abs(got - exp) <= 1e-9 * (1 + abs(exp)), lambda: f"objective {got!r}, expected {exp!r} = objective plus sum of squared residuals")
        ref = refnlp.Ref(spec, lsq.prob)
        r = ref.total_cost(w) + sum(e[2] ** 2 for e in ref.entries(w))
        require(abs(got - r) <= 1e-8 * (1 + abs(r)), lambda: f"objective {got!r}, reference {r!r}")
    got = float(np.array(lsq.result["cost_val"]).flatten()[0])
    require(abs(got - lsq.call["f"]) <= 1e-9 * (1 + abs(got)), "reported cost")
    ctx.nontrivial = True

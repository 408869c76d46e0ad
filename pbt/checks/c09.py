"""C09: objective function and reported cost."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, nlpcase, refnlp
from pbt.core import require

BUDGET = dict(quick=dict(cases=2700, seconds=150), thorough=dict(cases=16000, seconds=800))


def strategy(tier):
    def extra(draw, spec):
        o = spec["opts"]
        o["rho_h"] = draw(st.sampled_from([0.0, 0.0, 0.5]))
        o["objective_scaling_direct"] = draw(st.booleans())
        if not spec["ocp"].get("f_q") and not spec["ocp"].get("f_T"):
            spec["ocp"]["f_q" if draw(st.booleans()) else "f_T"] = draw(gen.expression(gen.allvars(spec, ["x", "p", "pt", "v"]), 4, must=("x", 0)))
        if o["speed_of_time_variables"] == "NONE" and draw(st.booleans()):
            o["max_iter_homotopy"] = draw(st.integers(1, 3))
    return problem_with_ocp(tier, extra)


@st.composite
def problem_with_ocp(draw, tier, extra):
    spec = draw(gen.problem(ocp=False, n_s=(1, 4 if tier == "quick" else 6), sot=gen.SOT, max_stages=4, max_nfe=3,
                            max_total=5 if tier == "quick" else 8, steq=["HEURISTIC_DELTA", "HEURISTIC_MEAN"],
                            model_kw=dict(max_sys=1, max_nc=1, nu=2, npg=2, npt=2, nv=2)))
    spec["ocp"] = draw(gen.ocp_part(spec))
    extra(draw, spec)
    return spec


def check(spec, ctx):
    o = spec["opts"]
    answers = []

    def script(k, c, nlp):
        return dict(x=answers[k])
    case = nlpcase.Case(spec, script=script, solve=False)
    answers += nlpcase.random_points(case.prob, spec, 3, spec["wseed"] + 1)
    case.solve()
    ref = refnlp.Ref(spec, case.prob)
    W = nlpcase.random_points(case.prob, spec, 3, spec["wseed"])
    for w in W:
        f = float(case.nlp.fun(w, case.call["p"])[0])
        r = ref.total_cost(w)
        require(abs(f - r) <= 1e-8 * (1 + abs(r)), lambda: f"objective {f!r}, expected {r!r}; parts {ref.cost(w)}, sigma {ref.sigma}")
    # reported value: of the returned point, with the last homotopy parameter
    sigma = case.opts.sigma_0
    k = len(case.nlp.calls)
    last = case.nlp.calls[-1]
    ref2 = refnlp.Ref(spec, case.prob, sigma=sigma * 0.1 ** (k - 1))
    exp = ref2.total_cost(answers[k - 1])
    got = float(np.array(case.result["cost_val"]).flatten()[0])
    require(abs(got - exp) <= 1e-8 * (1 + abs(exp)), lambda: f"reported cost {got!r}, expected {exp!r} (subproblem {k})")
    ctx.label(o["irk_representation"], o["irk_scheme"], o["mpcc_mode"], "sot=" + o["speed_of_time_variables"],
              "running=%s" % bool(spec["ocp"].get("f_q")), "terminal=%s" % bool(spec["ocp"].get("f_T")), "n_s=%d" % o["n_s"],
              "calls=%d" % k)
    ctx.nontrivial = bool(spec["ocp"].get("f_q")) and sum(ref.o["Nfe_list"]) > 1

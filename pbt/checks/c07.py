"""C07: step equilibration."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, nlpcase, refnlp
from pbt.core import fail, require

BUDGET = dict(quick=dict(cases=1750, seconds=150), thorough=dict(cases=12000, seconds=800))


def strategy(tier):
    def extra(draw, spec):
        o = spec["opts"]
        o["rho_h"] = draw(st.sampled_from([1.0, 0.0, 0.5, 10.0]))
        o["step_equilibration_sigma"] = draw(st.sampled_from([0.1, 1.0, 0.01, 3.0]))
        if o["step_equilibration"] in ("DIRECT_COMPLEMENTARITY", "HEURISTIC_DELTA_H_COMP"):
            # scalar complementarity: modes that need two comparable vectors are fine as well
            o["s_elastic_0"] = 1.0
        o.setdefault("gamma_h", draw(st.sampled_from([1.0, 0.5])))
    return gen.problem(ocp=False, n_s=(1, 3), fesd=(True, True, True, False), steq=gen.STEQ, max_nfe=4, max_total=6 if tier == "quick" else 8,
                       model_kw=dict(max_nc=2, max_sys=2, nu=1, nv=0, nz=1), extra=extra)


def fixed_cases(tier):
    sysS = [dict(c=[["x", 0]], S=[[1], [-1]], F=[[1.0, ["x", 0]], [["-", ["x", 1]], 2.0]])]
    k = 0
    for steq in gen.STEQ:
        for pss in ("STEWART", "STEP"):
            for mpcc in gen.MPCC:
                k += 1
                o = dict(N_stages=1 + k % 3, Nfe_list=[[3], [2, 3], [1, 3, 2]][k % 3], N_finite_elements=2, n_s=1 + k % 3,
                         irk_scheme=gen.SCHEMES[k % 2], irk_representation=gen.REPS[k % 3], mpcc_mode=mpcc, step_equilibration=steq,
                         cross_comp_mode=gen.CROSS[1], pss_mode=pss, rho_h=[1.0, 0.3][k % 2], step_equilibration_sigma=0.4,
                         terminal_time=1.7, max_iter_homotopy=1)
                yield dict(nx=2, kind="S", nu=0, nz=0, npt=0, npg=0, nv=0, x0=[0.5, -1.0], sys=sysS, ocp=None, opts=o, wseed=k)


def check(spec, ctx):
    case = nlpcase.Case(spec)
    ref = refnlp.Ref(spec, case.prob)
    W, rows, act, others, extra = nlpcase.compare(spec, case.prob, case.nlp, case.call, {"steq"}, spec["wseed"], ref=ref)
    if not others:
        nlpcase.no_extra(case.prob, case.nlp, others, extra, {"steq", "grid", "comp"})
    for w in W:
        f = float(case.nlp.fun(w, case.call["p"])[0])
        r = ref.total_cost(w)
        require(abs(f - r) <= 1e-8 * (1 + abs(r)), lambda: f"objective {f!r}, expected {r!r} (no user cost; step equilibration part "
                f"{ref.cost(w)['steq']!r})")
    o = spec["opts"]
    ctx.label(o["step_equilibration"], o["pss_mode"], "fesd=%s" % o.get("use_fesd", True), "N_stages=%d" % o["N_stages"])
    ctx.nontrivial = o.get("use_fesd", True) and max(ref.o["Nfe_list"]) > 1

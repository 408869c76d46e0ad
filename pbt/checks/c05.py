"""C05: cross complementarities, relaxations and the complementarity residual."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, nlpcase, refnlp
from pbt.core import fail, require

BUDGET = dict(quick=dict(cases=2000, seconds=150), thorough=dict(cases=14000, seconds=800))


def strategy(tier):
    return gen.problem(ocp=False, n_s=(1, 3), model_kw=dict(max_nc=2, max_sys=2, nu=1, nv=0),
                       steq=["HEURISTIC_DELTA"], max_total=4 if tier == "quick" else 6,
                       extra=lambda draw, spec: spec["opts"].update(draw(fb_weights)))


fb_weights = st.one_of(st.just({}), st.fixed_dictionaries(dict(fb_ip_aug1_weight=st.sampled_from([1.0, 0.3, 2.0]),
                                                                fb_ip_aug2_weight=st.sampled_from([0.1, 1.5]))))


def fixed_cases(tier):
    """all combinations of relaxation, cross mode, FESD, scheme and representation of the switched system"""
    sysS = [dict(c=[["x", 0]], S=[[1], [-1]], F=[[1.0, ["x", 0]], [["-", ["x", 1]], 2.0]]),
            dict(c=[["x", 1], ["-", ["x", 0], 0.5]], S=[[1, 1], [1, -1], [-1, 0]], F=[[0.0, 1.0], [1.0, 0.5], [-1.0, ["x", 1]]])]
    k = 0
    for mpcc in gen.MPCC:
        for cross in gen.CROSS:
            for fesd in (True, False):
                for pss in ("STEWART", "STEP"):
                    k += 1
                    o = dict(N_stages=2, Nfe_list=[2, 1] if k % 3 else [1, 3], N_finite_elements=2, n_s=1 + k % 2 if k % 5 else 3,
                             irk_scheme=gen.SCHEMES[(k // 2) % 2], irk_representation=gen.REPS[k % 3], mpcc_mode=mpcc,
                             cross_comp_mode=cross, use_fesd=fesd, pss_mode=pss, sigma_0=[1.0, 0.2][k % 2], max_iter_homotopy=1)
                    if gen.mpcc_ok(o):
                        yield dict(nx=2, kind="S", nu=0, nz=0, npt=0, npg=0, nv=0, x0=[0.5, -1.0], sys=sysS, ocp=None, opts=o, wseed=k)


def check(spec, ctx):
    o = spec["opts"]
    # first answer: a random point, whose residual is known; tolerance slightly above / below it
    case = nlpcase.Case(spec)
    ref = refnlp.Ref(spec, case.prob)
    W, rows, act, others, extra = nlpcase.compare(spec, case.prob, case.nlp, case.call, {"comp", "comp0"}, spec["wseed"], ref=ref)
    nlpcase.no_extra(case.prob, case.nlp, others, extra, {"comp"})
    for i in range(o["N_stages"]):
        for f in range(ref.o["Nfe_list"][i]):
            n = len(refnlp._flat(case.prob.ind_bool[i][f]))
            require(n == ref.n_bool(i, f), lambda: f"{n} binaries in element ({i},{f}), expected {ref.n_bool(i, f)}")
    # residual: the homotopy stops after the first subproblem iff the residual is below the tolerance
    w = W[0]
    r = ref.residual(w)
    if r > 1e-6:
        for factor, expect in ((1.001, 1), (0.999, 2)):
            s2 = dict(spec, opts=dict(o, comp_tol=float(r * factor), max_iter_homotopy=2, sigma_N=1e-12, homotopy_update_slope=0.5))
            s2["opts"]["sigma_0"] = 1.0
            c2 = nlpcase.Case(s2, script=lambda k, c, nlp: dict(x=w))
            require(len(c2.nlp.calls) == expect, lambda: f"largest complementarity product {r:.6g}, tolerance {r * factor:.6g}: "
                    f"{len(c2.nlp.calls)} subproblems solved, expected {expect} (the residual is not the largest product)")
    ctx.label(o["mpcc_mode"], o["cross_comp_mode"][:3], o["pss_mode"], "fesd=%s" % o["use_fesd"], spec["kind"],
              o["irk_scheme"] + ":" + o["irk_representation"])
    ctx.nontrivial = sum(ref.o["Nfe_list"]) > 1

"""C11: variables, their bounds and initial guesses."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, nlpcase, refnlp
from pbt.core import fail, require

BUDGET = dict(quick=dict(cases=2700, seconds=150), thorough=dict(cases=16000, seconds=800))


def strategy(tier):
    def extra(draw, spec):
        o = spec["opts"]
        o["gamma_h"] = draw(st.sampled_from([1.0, 0.3]))
        if o["mpcc_mode"].startswith("ELASTIC"):
            for k, vals in (("s_elastic_0", [1.0, 0.5, None]), ("s_elastic_max", [10.0, 3.0, None]), ("s_elastic_min", [0.0, 0.1, None])):
                v = draw(st.sampled_from(vals))
                if v is not None:
                    o[k] = v
        if o["speed_of_time_variables"] != "NONE":
            for k, vals in (("speed_of_time_min", [1.0, 0.5, None]), ("speed_of_time_max", [25.0, 4.0, None])):
                v = draw(st.sampled_from(vals))
                if v is not None:
                    o[k] = v
        if spec["nz"]:
            for k, c in (("lbz", -1), ("ubz", 1)):
                if draw(st.booleans()):
                    spec[k] = [c * draw(st.sampled_from([1.0, 3.0, 1e300])) for _ in range(spec["nz"])]
    return gen.problem(n_s=(1, 3 if tier == "quick" else 5), sot=gen.SOT, steq=["HEURISTIC_DELTA", "DIRECT_COMPLEMENTARITY", "HEURISTIC_DELTA_H_COMP"],
                       max_total=4 if tier == "quick" else 7, model_kw=dict(max_sys=3, max_nc=2, nz=2, nv=2), extra=extra)


def check(spec, ctx):
    case = nlpcase.Case(spec)
    P, o = case.prob, spec["opts"]
    ref = refnlp.Ref(spec, P)
    c = case.call
    n = len(c["x0"])
    seen = np.zeros(n, int)
    for name, ind, *data in ref.variables():
        if name.startswith("n_") :
            require(ind == data[0], lambda: f"{name}: {ind}, expected {data[0]}")
            continue
        ind = np.array(ind, int).flatten()
        lb, ub, guess = data
        require(len(ind) == len(lb), lambda: f"{name}: {len(ind)} entries, expected {len(lb)}")
        seen[ind] += 1
        for key, val in (("lbx", lb), ("ubx", ub), ("x0", guess)):
            got = c[key][ind]
            require(np.array_equal(got, val) or np.allclose(got, val, rtol=1e-12, atol=1e-14, equal_nan=False),
                    lambda: f"{name}: {dict(lbx='lower bound', ubx='upper bound', x0='initial guess')[key]} {got}, expected {val}")
    # binaries of global complementarities are not attached to an element
    for i in range(o["N_stages"], len(P.ind_bool)):
        seen[np.array(refnlp._flat(P.ind_bool[i]), int)] += 1
    gb = [j for j in refnlp._flat(P.ind_bool)]
    for j in gb:
        if seen[j] == 0:
            seen[j] = 1
    for j in gb:
        require(c["lbx"][j] == 0 and c["ubx"][j] == 1, "binary without bounds 0, 1")
    if (seen != 1).any():
        fail(f"variables {np.where(seen != 1)[0][:10].tolist()} of {n} belong to {seen[seen != 1][:10].tolist()} groups, expected exactly one")
    ctx.label(o["irk_representation"], o["irk_scheme"], o["mpcc_mode"], o["pss_mode"], "sot=" + o["speed_of_time_variables"],
              "z=%d" % spec["nz"], "v=%d" % spec["nv"], "ocp=%s" % (spec["ocp"] is not None))
    ctx.nontrivial = spec["ocp"] is not None or spec["nz"] > 0

"""C10: user path and terminal constraints."""
from hypothesis import strategies as st

from pbt import gen, nlpcase, refnlp

BUDGET = dict(quick=dict(cases=2700, seconds=150), thorough=dict(cases=16000, seconds=800))


@st.composite
def strategy_(draw, tier):
    spec = draw(gen.problem(ocp=False, n_s=(1, 3 if tier == "quick" else 5), mpcc=["SCHOLTES_INEQ"], max_stages=4, max_nfe=3,
                            max_total=6 if tier == "quick" else 9, model_kw=dict(max_sys=1, max_nc=1, nu=2, npg=1, npt=2, nv=1, nz=1)))
    spec["ocp"] = draw(gen.ocp_part(spec, comp=False))
    oc = spec["ocp"]
    if not oc.get("g_path") and not oc.get("g_T"):
        xupv = gen.allvars(spec, ["x", "u", "p", "pt", "v"])
        oc["g_path"] = [draw(gen.expression(xupv, 3, must=draw(st.sampled_from(xupv))))]
        oc["lbg"], oc["ubg"] = [-1e300], [draw(st.sampled_from([0.0, 0.5]))]
    o = spec["opts"]
    o["g_path_at_fe"] = draw(st.booleans())
    o["g_path_at_stg"] = draw(st.booleans())
    return spec


def strategy(tier):
    return strategy_(tier)


def check(spec, ctx):
    case = nlpcase.Case(spec)
    ref = refnlp.Ref(spec, case.prob)
    W, rows, act, others, extra = nlpcase.compare(spec, case.prob, case.nlp, case.call, {"path", "term"}, spec["wseed"], ref=ref)
    nlpcase.no_extra(case.prob, case.nlp, others, extra, {"path"})
    o, oc = spec["opts"], spec["ocp"]
    ctx.label("path=%d" % len(oc.get("g_path") or []), "terminal=%d" % len(oc.get("g_T") or []), "at_fe=%s" % o["g_path_at_fe"],
              "at_stg=%s" % o["g_path_at_stg"], o["irk_scheme"] + ":" + o["irk_representation"], "N_stages=%d" % o["N_stages"],
              "default_bounds=%s" % (oc.get("lbg") is None))
    ctx.nontrivial = bool(oc.get("g_path")) and (o["N_stages"] > 1 or o["g_path_at_fe"] or o["g_path_at_stg"])

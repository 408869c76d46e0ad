"""C06: user path complementarities."""
from hypothesis import strategies as st

from pbt import gen, nlpcase, refnlp
from pbt.core import require

BUDGET = dict(quick=dict(cases=2100, seconds=150), thorough=dict(cases=12000, seconds=800))


def strategy(tier):
    def extra(draw, spec):
        spec["ocp"] = dict(comp=draw(gen.comp_pairs(spec, 3)))
    return gen.problem(ocp=False, n_s=(1, 3), steq=["HEURISTIC_DELTA"], max_total=4 if tier == "quick" else 6,
                       model_kw=dict(max_nc=1, max_sys=2), extra=extra)


def check(spec, ctx):
    case = nlpcase.Case(spec)
    ref = refnlp.Ref(spec, case.prob)
    W, rows, act, others, extra = nlpcase.compare(spec, case.prob, case.nlp, case.call, {"pcomp"}, spec["wseed"], ref=ref)
    if not others:
        nlpcase.no_extra(case.prob, case.nlp, others, extra, {"path", "comp"})
    o = spec["opts"]
    cls = [ref.pair_class(*ab) for ab in spec["ocp"]["comp"]]
    ctx.label(*(["class=" + c for c in set(cls)] + [o["mpcc_mode"], "N_stages=%d" % o["N_stages"],
                                                   "ragged=%s" % bool(o.get("Nfe_list"))]))
    ctx.nontrivial = sum(ref.o["Nfe_list"]) > 1

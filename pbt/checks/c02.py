"""C02: IRK equations of the generated program against the reference NLP."""
from pbt import gen, nlpcase

BUDGET = dict(quick=dict(cases=1920, seconds=150), thorough=dict(cases=12000, seconds=800))


def strategy(tier):
    return gen.problem(n_s=(1, 4 if tier == "quick" else 6), sot=gen.SOT, mpcc=["SCHOLTES_INEQ"],
                       ocp_kw=dict(cost=False, comp=False, path=False, terminal=False))


def fixed_cases(tier):
    """every scheme, representation and stage count on a fixed problem"""
    base = dict(nx=2, kind="S", nu=1, nz=0, npt=1, npg=1, nv=1, x0=[0.5, -1.0], pt_val=[[0.5], [1.0]], p_val=[0.7],
                sys=[dict(c=[["x", 0]], S=[[1], [-1]],
                          F=[[["+", ["*", ["x", 1], ["p", 0]], ["u", 0]], ["-", ["*", ["pt", 0], ["x", 0]], ["v", 0]]],
                             [["sin", ["x", 1]], ["+", ["x", 0], ["*", ["v", 0], ["pt", 0]]]]])], ocp=None, wseed=1)
    for n_s in range(1, 10):
        for scheme in gen.SCHEMES:
            for rep in gen.REPS:
                o = dict(N_stages=2, N_finite_elements=2, terminal_time=1.5, n_s=n_s, irk_scheme=scheme, irk_representation=rep,
                         pss_mode="STEWART", max_iter_homotopy=1, rho_h=0.0)
                yield dict(base, opts=o)


def check(spec, ctx):
    case = nlpcase.Case(spec)
    W, rows, act, others, extra = nlpcase.compare(spec, case.prob, case.nlp, case.call, {"dyn"}, spec["wseed"])
    nlpcase.no_extra(case.prob, case.nlp, others, extra, {"dyn"})
    o = spec["opts"]
    ctx.label(o["irk_representation"], o["irk_scheme"], "n_s=%d" % o["n_s"], "kind=" + spec["kind"],
              "N_stages=%d" % o["N_stages"], "fesd=%s" % o.get("use_fesd", True), "sot=" + o.get("speed_of_time_variables", "NONE"))
    ctx.nontrivial = o["N_stages"] > 1 or len(spec["sys"]) > 1 or o["irk_representation"] != "INTEGRAL"

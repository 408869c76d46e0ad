"""C12: parameter values against constants written into the model."""
import copy

import numpy as np
from hypothesis import strategies as st

from pbt import build, expr, gen, nlpcase, refnlp
from pbt.core import fail, quiet, require, sut

BUDGET = dict(quick=dict(cases=1800, seconds=150), thorough=dict(cases=12000, seconds=800))


@st.composite
def strategy_(draw, tier):
    def extra(draw, spec):
        o = spec["opts"]
        N = o["N_stages"]
        # the values the model is created with; later ones are set through the solver
        ops = []
        for _ in range(draw(st.integers(0, 3))):
            if spec["npt"] and (not spec["npg"] or draw(st.booleans())):
                ops.append(["p_time_var", [[draw(gen.val) for _ in range(spec["npt"])] for _ in range(N)]])
            elif spec["npg"]:
                ops.append(["p_global", [draw(gen.val) for _ in range(spec["npg"])]])
        # some of them between two solves
        spec["ops"] = [e for op in ops for e in ([["solve", None], op] if draw(st.integers(0, 2)) == 0 else [op])]
        spec["same_rows"] = draw(st.booleans())
        spec["default_pt"] = draw(st.integers(0, 3)) == 0
    return draw(gen.problem(n_s=(1, 2), mpcc=["SCHOLTES_INEQ"], max_total=4 if tier == "quick" else 6,
                            model_kw=dict(max_sys=2, max_nc=2, npg=3, npt=3, nz=1, nv=1), ocp_kw=dict(comp=False), extra=extra
                            ).filter(lambda s: s["npg"] + s["npt"] > 0))


def strategy(tier):
    return strategy_(tier)


def constants(spec, pt_row, p):
    """the same problem with the values written as constants"""
    s = copy.deepcopy(spec)

    def sub(e):
        return expr.subst(e, dict(p=p, pt=pt_row))
    for y in s["sys"]:
        for k in ("c", "g", "f"):
            if k in y:
                y[k] = [sub(e) for e in y[k]]
        if "F" in y:
            y["F"] = [[sub(e) for e in col] for col in y["F"]]
    if s.get("g_z"):
        s["g_z"] = [sub(e) for e in s["g_z"]]
    oc = s.get("ocp")
    if oc:
        for k in ("f_q", "f_T"):
            if oc.get(k) is not None:
                oc[k] = sub(oc[k])
        for k in ("g_path", "g_T"):
            if oc.get(k):
                oc[k] = [sub(e) for e in oc[k]]
    s["npg"] = s["npt"] = 0
    s.pop("pt_val", None), s.pop("p_val", None)
    return s


def check(spec, ctx):
    spec = copy.deepcopy(spec)
    o = spec["opts"]
    N = o["N_stages"]
    if spec["default_pt"] and spec["npt"]:
        spec["pt_val"] = None       # documented default: zeros
    pt = np.zeros((N, spec["npt"])) if spec.get("pt_val") is None else np.array(spec["pt_val"], float).reshape(N, -1)
    p = np.array(spec.get("p_val") or [], float)
    case = nlpcase.Case(spec, solve=False)
    for name, val in spec["ops"]:
        if name == "solve":
            case.solve()
            del case.nlp.calls[:]
            continue
        val = np.array(val, float)
        if name == "p_time_var" and spec["same_rows"]:
            val[:] = val[0]
        with quiet(), sut(f"set {name}"):
            case.solver.set(name, val)
        if name == "p_time_var":
            pt = val.reshape(N, -1)
        else:
            p = val
    case.solve()
    ref = refnlp.Ref(spec, case.prob, p_val=list(p), pt_val=pt if spec["npt"] else None)
    W, rows, act, others, extra = nlpcase.compare(spec, case.prob, case.nlp, case.call, {"dyn", "alg", "comp", "comp0", "path", "term", "grid"},
                                                  spec["wseed"], ref=ref)
    for w in W:
        f = float(case.nlp.fun(w, case.call["p"])[0])
        r = ref.total_cost(w)
        require(abs(f - r) <= 1e-8 * (1 + abs(r)), lambda: f"objective {f!r}, with these parameters expected {r!r}")
    equal_rows = not spec["npt"] or bool((pt == pt[0]).all())
    if equal_rows:
        # rebuilt with constants
        c2 = nlpcase.Case(constants(spec, list(pt[0]) if spec["npt"] else [], list(p)))
        act2 = refnlp.actual_entries(c2.nlp, W, c2.call["p"], c2.call["lbg"], c2.call["ubg"])
        m, e = refnlp.match([("x", k, v) for k, v, _ in act2], act)
        if m or e:
            fail(f"with parameters: {len(e)} constraints differ from the model with constants, e.g. {e[:1]} instead of {m[:1]}")
        for w in W:
            a, b = float(case.nlp.fun(w, case.call["p"])[0]), float(c2.nlp.fun(w, c2.call["p"])[0])
            require(abs(a - b) <= 1e-9 * (1 + abs(b)), lambda: f"objective {a!r}, of the model with constants {b!r}")
        for k in ("lbx", "ubx", "x0"):
            require(np.array_equal(case.call[k], c2.call[k]), lambda: f"{k} differs from the model with constants")
    ctx.label("npg=%d" % spec["npg"], "npt=%d" % spec["npt"], "constants=%s" % equal_rows, "set_ops=%d" % len(spec["ops"]), o["pss_mode"])
    ctx.nontrivial = len(spec["ops"]) > 0 and N > 1

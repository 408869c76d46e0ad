"""C04: initial multipliers, over sequences of parameter and initial value changes."""
import numpy as np
from hypothesis import strategies as st

from pbt import expr, gen, nlpcase, refnlp
from pbt.core import fail, quiet, require, sut

BUDGET = dict(quick=dict(cases=2100, seconds=150), thorough=dict(cases=14000, seconds=800))


@st.composite
def history(draw, spec):
    N = spec["opts"]["N_stages"]
    ops = []
    for _ in range(draw(st.integers(0, 3))):
        k = draw(st.integers(0, 2))
        if k == 0 or (k == 1 and not spec["npt"]) or (k == 2 and not spec["npg"]):
            ops.append(["x0", draw(st.lists(gen.val, min_size=spec["nx"], max_size=spec["nx"]))])
        elif k == 1:
            ops.append(["pt", [[draw(gen.val) for _ in range(spec["npt"])] for _ in range(N)]])
        else:
            ops.append(["p", [draw(gen.val) for _ in range(spec["npg"])]])
    return ops


@st.composite
def strategy_(draw, tier):
    def extra(draw, spec):
        o = spec["opts"]
        o["cross_comp_mode"] = gen.CROSS[1]
        o["initialization_strategy"] = draw(st.sampled_from(["ALL_XCURRENT_W0_START", "ALL_XCURRENT_WOPT_PREV", "EXTERNAL"]))
        if spec["nz"] and draw(st.booleans()):
            o["rootfinder_for_initial_z"] = True
        spec["ops"] = draw(history(spec))
    return draw(gen.problem(ocp=False, n_s=(1, 2), fesd=(True,), mpcc=["SCHOLTES_INEQ"], max_nfe=2, max_total=3,
                            model_kw=dict(max_nc=3, max_sys=3, max_nx=3, nu=0, nv=0, nz=2), extra=extra))


def strategy(tier):
    return strategy_(tier)


def root_z(spec, x0, pt, p):
    """the algebraic equations are z_i - e_i(x, u, p) with u = 0"""
    env = dict(x=x0, u=[0.0] * spec["nu"], z=[0.0] * spec["nz"], p=p, pt=pt)
    return [-expr.ev(e, env) for e in spec["g_z"]]


def check(spec, ctx):
    o = spec["opts"]
    case = nlpcase.Case(spec, solve=False)
    x0, pt, p = list(spec["x0"]), [list(r) for r in spec.get("pt_val") or []], list(spec.get("p_val") or [])
    n = 0
    for k, op in enumerate([None] + spec["ops"]):
        if op is not None:
            with quiet(), sut(f"set {op[0]}"):
                if op[0] == "x0":
                    x0 = op[1]
                    case.solver.set("x0", np.array(x0, float))
                elif op[0] == "pt":
                    pt = op[1]
                    case.solver.set("p_time_var", np.array(pt, float))
                else:
                    p = op[1]
                    case.solver.set("p_global", np.array(p, float))
            if k < len(spec["ops"]) and k % 2:
                continue
        with quiet(), sut("solve()"):
            case.solver.solve()
        call = case.nlp.calls[-1]
        z = None
        if o.get("rootfinder_for_initial_z"):
            z = root_z(spec, x0, pt[0] if spec["npt"] else (), p)
        ref = refnlp.Ref(spec, case.prob, x0=x0, p_val=p, pt_val=pt if spec["npt"] else None, z_init=z)
        nlpcase.compare(spec, case.prob, case.nlp, call, {"comp0"}, spec["wseed"] + k, ref=ref)
        n += 1
    ctx.label(o["pss_mode"], spec["kind"], "n_sys=%d" % len(spec["sys"]), "rootfinder=%s" % bool(o.get("rootfinder_for_initial_z")),
              "solves=%d" % n, *["op=" + op[0] for op in spec["ops"]])
    ctx.nontrivial = n > 1 or spec["npt"] + spec["npg"] + spec["nz"] > 0 or len(spec["sys"]) > 1

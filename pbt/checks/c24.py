"""C24: dumped problems."""
import os
import pickle
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt import gen, nlpcase, refnlp
from pbt.core import quiet, require, sut

BUDGET = dict(quick=dict(cases=1500, seconds=150), thorough=dict(cases=10000, seconds=800))


@st.composite
def strategy_(draw, tier):
    def extra(draw, spec):
        N = spec["opts"]["N_stages"]
        ops = []
        for _ in range(draw(st.integers(0, 3))):
            k = draw(st.integers(0, 4))
            if k == 3 and spec["nu"]:
                ops.append(["u", [[draw(gen.val) for _ in range(spec["nu"])] for _ in range(N)]])
            elif k == 4 and spec["nv"]:
                ops.append(["v_global", [draw(gen.val) for _ in range(spec["nv"])]])
            elif k == 1 and spec["npt"]:
                ops.append(["p_time_var", [[draw(gen.val) for _ in range(spec["npt"])] for _ in range(N)]])
            elif k == 2 and spec["npg"]:
                ops.append(["p_global", [draw(gen.val) for _ in range(spec["npg"])]])
            else:
                ops.append(["x0", [draw(gen.val) for _ in range(spec["nx"])]])
        spec["ops"] = ops
        spec["after_solve"] = draw(st.booleans())
    spec = draw(gen.problem(n_s=(1, 3), sot=gen.SOT, steq=gen.STEQ, max_total=4, extra=extra))
    return spec


def strategy(tier):
    return strategy_(tier)


def nested(a, b):
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(nested(s, t) for s, t in zip(a, b))
    return int(a) == int(b)


def check(spec, ctx):
    case = nlpcase.Case(spec, solve=False)
    x0, pt, p = spec["x0"], spec.get("pt_val"), spec.get("p_val")
    for name, val in spec["ops"]:
        with quiet(), sut(f"set {name}"):
            case.solver.set(name, np.array(val, float))
        x0, pt, p = (val if name == "x0" else x0), (val if name == "p_time_var" else pt), (val if name == "p_global" else p)
    if spec["after_solve"]:
        case.solve()
    w0 = np.array(case.prob.w0, float).copy()
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "problem.pkl")
        with quiet(), sut("dump()"):
            case.prob.dump(path)
        with open(path, "rb") as f, sut("loading a dumped problem"):
            data = pickle.load(f)
    P = case.prob
    case.solve()
    call = case.nlp.calls[-1]
    for key, cur in (("lbw", P.lbw), ("ubw", P.ubw), ("lbg", call["lbg"]), ("ubg", call["ubg"])):
        require(np.array_equal(np.array(data[key], float).flatten(), np.array(cur, float).flatten()), lambda: f"{key} differs")
    require(np.array(data["w0"]).shape == w0.shape, "w0 has a different shape")
    require(np.array_equal(np.array(data["w0"], float), w0), "w0 is not the guess of the dumped problem")
    keys = [k for k in ("ind_x", "ind_v", "ind_theta", "ind_lam", "ind_mu", "ind_alpha", "ind_lambda_n", "ind_lambda_p", "ind_z", "ind_h", "ind_u",
                        "ind_sot", "ind_v_global", "ind_elastic", "ind_bool", "ind_x_cont")]
    for key in keys:
        require(key in data, lambda: f"{key} is missing")
        require(nested(data[key], getattr(P, key)), lambda: f"{key} differs")
    require(tuple(data["w_shape"])[0] == len(P.w0) and tuple(data["p_shape"])[0] == len(call["p"]), "shapes")
    # functions at random points, with the current parameters of the solver
    rs = np.random.RandomState(spec["wseed"])
    W = nlpcase.random_points(P, spec, 3, spec["wseed"])
    for w in W:
        for q in (call["p"], rs.uniform(0.1, 2, len(call["p"]))):
            f, g = case.nlp.fun(w, q)
            f2, g2 = data["f"](w, q), data["g"](w, q)
            require(np.allclose(float(f), float(f2), rtol=1e-11, atol=1e-11, equal_nan=True), lambda: f"objective {float(f2)!r} instead of {float(f)!r}")
            require(np.allclose(g.full(), g2.full(), rtol=1e-11, atol=1e-11, equal_nan=True), "constraints differ")
    # stored parameter vector: current values, vanishing homotopy parameters
    o = spec["opts"]
    if o["mpcc_mode"] in ("SCHOLTES_EQ", "SCHOLTES_INEQ", "BOOLEAN", "FISCHER_BURMEISTER"):
        ref = refnlp.Ref(spec, P, sigma=0.0, tau=0.0, x0=x0, p_val=p, pt_val=pt)
        fake = Loaded(data)
        nlpcase.compare(spec, P, fake, dict(p=np.array(data["p0"], float).flatten(), lbg=call["lbg"], ubg=call["ubg"]),
                        {"dyn", "alg", "comp", "comp0", "path", "term", "grid"}, spec["wseed"], ref=ref)
    ctx.label(o["mpcc_mode"], o["pss_mode"], "ops=%d" % len(spec["ops"]), "after_solve=%s" % spec["after_solve"])
    ctx.nontrivial = len(spec["ops"]) > 0 or spec["ocp"] is not None


class Loaded:
    """the loaded program in the form of a back end"""

    def __init__(self, data):
        self.data = data

    def fun(self, w, p):
        return self.data["f"](w, p), self.data["g"](w, p)

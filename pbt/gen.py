"""Hypothesis strategies for problem specifications (plain JSON data)."""
from hypothesis import strategies as st

COEF = [1.0, -1.0, 0.5, 2.0, -0.5, 0.25, -1.5, 0.75, -0.25, 1.25]
VALS = [0.0, 1.0, -1.0, 0.5, -0.5, 0.3, 2.0, -0.7, 1.7, -1.3]

coef = st.sampled_from(COEF)
val = st.sampled_from(VALS)

REPS = ["INTEGRAL", "DIFFERENTIAL", "DIFFERENTIAL_LIFT_X"]
SCHEMES = ["RADAU_IIA", "GAUSS_LEGENDRE"]
MPCC = ["SCHOLTES_INEQ", "SCHOLTES_EQ", "FISCHER_BURMEISTER", "FISCHER_BURMEISTER_IP_AUG", "ELASTIC_INEQ", "ELASTIC_EQ",
        "ELASTIC_TWO_SIDED", "BOOLEAN"]
CROSS = ["SUM_LAMBDAS_COMPLEMENT_WITH_EVERY_THETA", "COMPLEMENT_ALL_STAGE_VALUES_WITH_EACH_OTHER"]
STEQ = ["HEURISTIC_MEAN", "HEURISTIC_DELTA", "L2_RELAXED_SCALED", "L2_RELAXED", "DIRECT", "DIRECT_COMPLEMENTARITY",
        "HEURISTIC_DELTA_H_COMP"]
SOT = ["NONE", "LOCAL", "GLOBAL"]


@st.composite
def expression(draw, vs, max_terms=3, nonlinear=True, must=None):
    """affine combination of variables, with a nonlinear term now and then"""
    vs = list(vs)
    e = ["+", draw(val)]
    if must is not None:
        e.append(["*", draw(coef), list(must)])
    if vs:
        n = draw(st.integers(0, max_terms))
        for _ in range(n):
            v = list(draw(st.sampled_from(vs)))
            k = draw(st.integers(0, 5)) if nonlinear else 0
            c = draw(coef)
            if k <= 2:
                e.append(["*", c, v])
            elif k == 3:
                e.append(["*", c, ["sin", v]])
            elif k == 4:
                e.append(["*", c, v, list(draw(st.sampled_from(vs)))])
            else:
                e.append(["*", c, ["tanh", ["+", v, list(draw(st.sampled_from(vs)))]]])
    return e


def allvars(spec, kinds):
    n = dict(x=spec["nx"], u=spec.get("nu", 0), z=spec.get("nz", 0), p=spec.get("npg", 0), pt=spec.get("npt", 0),
             v=spec.get("nv", 0))
    return [(k, i) for k in kinds for i in range(n[k])]


@st.composite
def sign_tree(draw, nc, max_regions=6):
    """rows of a sign matrix that partition the space: leaves of a random binary tree over the switching functions"""
    def split(fixed, depth):
        free = [k for k in range(nc) if fixed[k] == 0]
        if not free or (depth > 0 and draw(st.integers(0, 2)) == 0):
            return [fixed]
        k = draw(st.sampled_from(free))
        a, b = list(fixed), list(fixed)
        a[k], b[k] = 1, -1
        return split(a, depth + 1) + split(b, depth + 1)
    rows = split([0] * nc, 0)
    if draw(st.booleans()):
        rows = draw(st.permutations(rows))
    return [list(r) for r in rows]


@st.composite
def grid(draw, max_stages=3, max_nfe=3, ragged=True, max_total=6):
    if ragged and max_stages > 1 and max_nfe > 1:
        # now and then a long grid
        k = draw(st.integers(0, 15))
        if k == 15:
            max_stages, max_nfe, max_total = 8, 2, 9
        elif k == 14:
            max_stages, max_nfe, max_total = 2, 8, 9
    N = draw(st.integers(1, max_stages))
    o = dict(N_stages=N)
    if ragged and N > 1 and draw(st.booleans()):
        o["Nfe_list"] = [draw(st.integers(1, max_nfe)) for _ in range(N)]
        while sum(o["Nfe_list"]) > max_total:
            o["Nfe_list"][o["Nfe_list"].index(max(o["Nfe_list"]))] -= 1
        if draw(st.booleans()):
            o["N_finite_elements"] = draw(st.integers(1, max_nfe))
    else:
        o["N_finite_elements"] = draw(st.integers(1, max(1, min(max_nfe, max_total // N))))
    o["terminal_time"] = draw(st.sampled_from([1.0, 0.5, 2.0, 3.7]))
    return o


@st.composite
def model(draw, kinds=("S", "g", "gi"), max_nx=3, max_sys=2, max_nc=2, nu=2, nz=1, npt=2, npg=2, nv=1, tree=False,
          f_vars="xuzppv", lambda_z=True):
    """model part of a specification (without options)"""
    # now and then one of the dimensions is large
    large = draw(st.sampled_from([None] * 24 + ["nx", "sys", "nc", "nu", "nz", "np", "nv", "regions"]))
    max_regions = 4
    if large == "nx" and max_nx >= 3:
        max_nx = 6
    elif large == "sys" and max_sys >= 2:
        max_sys = 4
    elif large == "nc" and max_nc >= 2:
        max_nc = 4
    elif large == "nu" and nu:
        nu = 5
    elif large == "nz" and nz:
        nz = 3
    elif large == "np" and npt and npg:
        npt = npg = 4
    elif large == "nv" and nv:
        nv = 4
    elif large == "regions":
        max_regions = 9
    spec = dict(nx=draw(st.integers(1, max_nx)))
    spec["kind"] = draw(st.sampled_from(list(kinds)))
    spec["nu"] = draw(st.integers(0, nu))
    spec["nz"] = draw(st.integers(0, nz))
    spec["npt"] = draw(st.integers(0, npt))
    spec["npg"] = draw(st.integers(0, npg))
    spec["nv"] = draw(st.integers(0, nv))
    spec["x0"] = draw(st.lists(val, min_size=spec["nx"], max_size=spec["nx"]))
    fv = allvars(spec, ["x", "u", "z", "p", "pt", "v"])
    cv = allvars(spec, ["x", "p", "pt"] + (["z"] if lambda_z else []))
    nsys = draw(st.integers(1, max_sys)) if spec["kind"] != "gi" else draw(st.integers(1, min(2, spec["nx"], max_sys)))
    spec["sys"] = []
    if spec["kind"] == "gi":
        # state rows are distributed over the subsystems in order
        cuts = [spec["nx"]] if nsys == 1 else [1, spec["nx"] - 1]
        ncs = [draw(st.integers(1, max_nc)) for _ in range(nsys)]
        av = [("a", i) for i in range(sum(ncs))]
        for s in range(nsys):
            f = []
            for _ in range(cuts[s]):
                e = draw(expression(fv, 2))
                for a in av:
                    if draw(st.booleans()):
                        e = e + [["*", list(a), draw(expression(fv, 1))]]
                f.append(e)
            spec["sys"].append(dict(f=f, c=[draw(expression(cv, 2, must=("x", draw(st.integers(0, spec["nx"] - 1))))) for _ in range(ncs[s])]))
        return spec
    for s in range(nsys):
        y = {}
        if spec["kind"] == "g":
            n = draw(st.integers(2, max_regions - 1))
            y["g"] = [draw(expression(cv, 2, must=("x", draw(st.integers(0, spec["nx"] - 1))))) for _ in range(n)]
        else:
            nc = draw(st.integers(1, max_nc))
            if tree or draw(st.booleans()):
                y["S"] = draw(sign_tree(nc))
            else:
                n = draw(st.integers(2, max_regions))
                y["S"] = [[draw(st.sampled_from([1, -1, 0])) for _ in range(nc)] for _ in range(n)]
            n = len(y["S"])
            y["c"] = [draw(expression(cv, 2, must=("x", draw(st.integers(0, spec["nx"] - 1))))) for _ in range(nc)]
        y["F"] = [[draw(expression(fv, 2)) for _ in range(spec["nx"])] for _ in range(n)]
        spec["sys"].append(y)
    return spec


@st.composite
def finish_model(draw, spec, N):
    """parameter values, user algebraic equations"""
    if spec["npt"]:
        spec["pt_val"] = [[draw(val) for _ in range(spec["npt"])] for _ in range(N)]
    if spec["npg"]:
        spec["p_val"] = [draw(val) for _ in range(spec["npg"])]
    if spec["nz"]:
        vs = allvars(spec, ["x", "u", "p", "pt"])
        spec["g_z"] = [["+", ["-", ["z", i], draw(expression(vs, 2))]] for i in range(spec["nz"])]
        if draw(st.booleans()):
            spec["z0"] = [draw(val) for _ in range(spec["nz"])]
    return spec


@st.composite
def discretisation(draw, reps=REPS, schemes=SCHEMES, n_s=(1, 4), fesd=(True, False)):
    if n_s[0] == 1 and n_s[1] >= 3 and draw(st.integers(0, 19)) == 19:
        n_s = (5, 9)
    return dict(irk_representation=draw(st.sampled_from(list(reps))), irk_scheme=draw(st.sampled_from(list(schemes))),
                n_s=draw(st.integers(*n_s)), use_fesd=draw(st.sampled_from(list(fesd))))


def pss_for(kind):
    return {"S": ["STEWART", "STEP"], "g": ["STEWART"], "gi": ["STEP"]}[kind]


def mpcc_ok(o):
    """combinations supported by the code (everything else raises or is documented as unsupported)"""
    if o.get("mpcc_mode") == "FISCHER_BURMEISTER_IP_AUG" and o.get("use_fesd", True) and \
            o.get("cross_comp_mode", CROSS[0]) == CROSS[0]:
        return False
    return True


@st.composite
def ocp_part(draw, spec, cost=True, path=True, terminal=True, comp=True, bounds=True):
    o = {}
    xupv = allvars(spec, ["x", "u", "p", "pt", "v"])
    xpv = allvars(spec, ["x", "p", "pt", "v"])
    if cost and draw(st.booleans()):
        o["f_q"] = draw(expression(xupv, 4))
    if cost and draw(st.booleans()):
        o["f_T"] = draw(expression(xpv, 4))
    if path and draw(st.booleans()):
        n = draw(st.sampled_from([1, 1, 2, 2, 2, 4]))
        o["g_path"] = [draw(expression(xupv, 3)) for _ in range(n)]
        if draw(st.booleans()):
            o["lbg"] = [draw(st.sampled_from([-1.0, 0.0, -1e300, -0.5])) for _ in range(n)]
            o["ubg"] = [draw(st.sampled_from([1.0, 0.0, 1e300, 0.25])) for _ in range(n)]
    if terminal and draw(st.booleans()):
        o["g_T"] = [draw(expression(xpv, 3)) for _ in range(draw(st.sampled_from([1, 1, 2, 2, 4])))]
    if comp and draw(st.booleans()):
        o["comp"] = draw(comp_pairs(spec))
    if bounds:
        for lo, up, n in (("lbx", "ubx", spec["nx"]), ("lbu", "ubu", spec["nu"]), ("lbv_global", "ubv_global", spec["nv"])):
            if n and draw(st.booleans()):
                o[lo] = [draw(st.sampled_from([-2.0, -1e300, -10.0, -0.5])) for _ in range(n)]
            if n and draw(st.booleans()):
                o[up] = [draw(st.sampled_from([2.0, 1e300, 10.0, 0.5])) for _ in range(n)]
        for k, n in (("u_guess", spec["nu"]), ("v_global_guess", spec["nv"])):
            if n and draw(st.booleans()):
                o[k] = [draw(val) for _ in range(n)]
    return o


@st.composite
def comp_pairs(draw, spec, max_pairs=3):
    """pairs of the three classes (stage, control, global)"""
    classes = [["x", "u", "z", "p", "pt", "v"]]
    if spec["nu"] or spec["npt"]:
        classes.append(["u", "p", "pt", "v"])
    if spec["npg"] or spec["nv"]:
        classes.append(["p", "v"])
    out = []
    for _ in range(draw(st.integers(1, max_pairs))):
        vs = allvars(spec, draw(st.sampled_from(classes)))
        pair = []
        for _ in range(2):
            pair.append(draw(expression(vs, 2, must=draw(st.sampled_from(vs)))))
        out.append(pair)
    return out


@st.composite
def problem(draw, kinds=("S", "g", "gi"), reps=REPS, schemes=SCHEMES, n_s=(1, 4), fesd=(True, False), mpcc=MPCC, steq=("HEURISTIC_DELTA",),
            sot=("NONE",), max_stages=3, max_nfe=3, max_total=5, model_kw=None, ocp_kw=None, ocp=True, extra=None):
    spec = draw(model(kinds=kinds, **(model_kw or {})))
    o = draw(grid(max_stages=max_stages, max_nfe=max_nfe, max_total=max_total))
    o.update(draw(discretisation(reps, schemes, n_s, fesd)))
    if o["n_s"] >= 5:
        # keep the programs small
        o["N_stages"] = min(o["N_stages"], 2)
        o["N_finite_elements"] = min(o.get("N_finite_elements", 2), 2)
        if "Nfe_list" in o:
            o["Nfe_list"] = [min(n, 2) for n in o["Nfe_list"][:o["N_stages"]]]
    o["pss_mode"] = draw(st.sampled_from(pss_for(spec["kind"])))
    o["cross_comp_mode"] = draw(st.sampled_from(CROSS))
    o["mpcc_mode"] = draw(st.sampled_from(list(mpcc)))
    if not mpcc_ok(o):
        o["cross_comp_mode"] = CROSS[1]
    o["step_equilibration"] = draw(st.sampled_from(list(steq)))
    if o["step_equilibration"] in ("DIRECT_COMPLEMENTARITY", "HEURISTIC_DELTA_H_COMP") and o["use_fesd"]:
        pass
    o["speed_of_time_variables"] = draw(st.sampled_from(list(sot)))
    o["equidistant_control_grid"] = draw(st.booleans())
    o["sigma_0"] = draw(st.sampled_from([1.0, 0.1, 2.0, 0.37]))
    o["max_iter_homotopy"] = 1
    spec["opts"] = o
    draw(finish_model(spec, o["N_stages"]))
    spec["ocp"] = draw(ocp_part(spec, **(ocp_kw or {}))) if ocp and (spec["nu"] or draw(st.booleans())) else None
    if extra:
        extra(draw, spec)
    spec["wseed"] = draw(st.integers(0, 999))
    return spec

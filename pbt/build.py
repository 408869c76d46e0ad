"""From problem specifications (JSON) to nosnoc objects, through the public API only."""
import numpy as np

from pbt import expr


def syms(spec, tag=""):
    import casadi as ca
    s = {}
    for var, n in (("x", spec["nx"]), ("u", spec.get("nu", 0)), ("z", spec.get("nz", 0)),
                   ("pt", spec.get("npt", 0)), ("p", spec.get("npg", 0)), ("v", spec.get("nv", 0))):
        s[var] = ca.SX.sym(var + tag, n)
    na = sum(len(y["c"]) for y in spec["sys"]) if spec.get("kind") == "gi" else 0
    s["a"] = ca.SX.sym("a" + tag, na)
    return s


def vec(es, env):
    import casadi as ca
    return ca.vertcat(*[expr.sx(e, env) for e in es]) if len(es) else ca.SX.zeros(0)


def vec_or_empty(es, env):
    import casadi as ca
    return ca.vertcat(*[expr.sx(e, env) for e in es]) if len(es) else ca.SX.zeros(0, 1)


def build_model(spec, s=None, **over):
    import nosnoc
    kw = model_kwargs(spec, s or syms(spec))
    kw.update(over)
    return nosnoc.NosnocModel(**kw)


def model_kwargs(spec, s):
    import casadi as ca
    kw = dict(x=s["x"], x0=np.array(spec["x0"], dtype=float))
    kind = spec.get("kind", "S")
    if kind == "gi":
        # general inclusion: one right hand side for the whole state
        kw["f_x"] = [vec(y["f"], s) for y in spec["sys"]]
        kw["c"] = [vec(y["c"], s) for y in spec["sys"]]
        off = np.cumsum([0] + [len(y["c"]) for y in spec["sys"]])
        kw["alpha"] = [s["a"][int(off[i]):int(off[i + 1])] for i in range(len(spec["sys"]))]
    else:
        kw["F"] = [ca.horzcat(*[vec(col, s) for col in y["F"]]) for y in spec["sys"]]
        if kind == "g":
            kw["g_Stewart"] = [vec(y["g"], s) for y in spec["sys"]]
        else:
            kw["c"] = [vec(y["c"], s) for y in spec["sys"]]
            kw["S"] = [np.array(y["S"]) for y in spec["sys"]]
    if spec.get("nu", 0):
        kw["u"] = s["u"]
    if spec.get("nz", 0):
        kw["z"] = s["z"]
        kw["g_z"] = vec_or_empty(spec["g_z"], s)
        for k in ("z0", "lbz", "ubz"):
            if spec.get(k) is not None:
                kw[k] = arr(spec[k])
    if spec.get("npt", 0):
        kw["p_time_var"] = s["pt"]
        if spec.get("pt_val") is not None:
            kw["p_time_var_val"] = np.array(spec["pt_val"], dtype=float).reshape(-1, spec["npt"])
    if spec.get("npg", 0):
        kw["p_global"] = s["p"]
        kw["p_global_val"] = np.array(spec["p_val"], dtype=float)
    if spec.get("nv", 0):
        kw["v_global"] = s["v"]
    if spec.get("t_var") is not None:
        kw["t_var"] = expr.sx(spec["t_var"], s)
    return kw


def arr(v):
    """JSON list -> float array; null stands for the missing bound (+/-inf is encoded as +/-1e300)."""
    return np.array([np.inf * np.sign(e) if abs(e) >= 1e300 else e for e in v], dtype=float)


ENUMS = dict(irk_scheme="IrkSchemes", irk_representation="IrkRepresentation", mpcc_mode="MpccMode", pss_mode="PssMode",
             cross_comp_mode="CrossComplementarityMode", step_equilibration="StepEquilibrationMode",
             constraint_handling="ConstraintHandling", initialization_strategy="InitializationStrategy",
             speed_of_time_variables="SpeedOfTimeVariableMode", homotopy_update_rule="HomotopyUpdateRule")


def build_opts(o):
    import nosnoc
    opts = nosnoc.NosnocOpts()
    set_opts(opts, o)
    return opts


def set_opts(opts, o):
    import nosnoc
    for k, v in o.items():
        setattr(opts, k, enum_value(k, v))


def enum_value(k, v):
    import nosnoc
    import nosnoc.nosnoc_types as nt
    if k in ENUMS:
        return getattr(nt, ENUMS[k])[v]
    return v


def build_ocp(spec, s):
    import nosnoc
    if spec.get("ocp") is None:
        return None
    return nosnoc.NosnocOcp(**ocp_kwargs(spec, s))


def ocp_kwargs(spec, s):
    import casadi as ca
    o = spec["ocp"]
    kw = {}
    for k in ("lbu", "ubu", "u_guess", "lbx", "ubx", "lbg", "ubg", "lbv_global", "ubv_global", "v_global_guess"):
        if o.get(k) is not None:
            kw[k] = arr(o[k])
    if o.get("f_q") is not None:
        kw["f_q"] = expr.sx(o["f_q"], s)
    if o.get("f_T") is not None:
        kw["f_terminal"] = expr.sx(o["f_T"], s)
    if o.get("g_path"):
        kw["g_path"] = vec(o["g_path"], s)
    if o.get("g_T"):
        kw["g_terminal"] = vec(o["g_T"], s)
    if o.get("comp"):
        kw["g_path_comp"] = ca.vertcat(*[ca.horzcat(expr.sx(a, s), expr.sx(b, s)) for a, b in o["comp"]])
    return kw


def build(spec):
    """-> (opts, model, ocp, symbols)"""
    s = syms(spec)
    return build_opts(spec["opts"]), build_model(spec, s), build_ocp(spec, s), s

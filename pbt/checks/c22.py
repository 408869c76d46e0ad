"""C22: automatic reformulation of nonsmooth right-hand sides."""
import numpy as np
from hypothesis import strategies as st

from pbt import expr, gen
from pbt.core import Inapplicable, quiet, require, sut

BUDGET = dict(quick=dict(cases=7500, seconds=150), thorough=dict(cases=60000, seconds=800))


@st.composite
def smooth(draw, vs, must=None):
    e = draw(gen.expression(vs, 2, must=must))
    return ["+", e, draw(st.sampled_from([["exp", ["*", 0.3, list(vs[0])]], 0.0]))] if draw(st.integers(0, 5)) == 0 else e


@st.composite
def atom(draw, xp, nx, pool=None):
    k = draw(st.sampled_from(["sign", "sign", "max", "min"]))
    if pool and draw(st.integers(0, 2)):
        # the switching function of an earlier term again
        a, b = draw(st.sampled_from(pool))
        if k == "sign":
            return ["sign", a if b == 0.0 else ["+", a, ["*", -1.0, b]]]
        return [k, a, b]
    a = draw(smooth(xp, must=("x", draw(st.integers(0, nx - 1)))))
    if k == "sign":
        if draw(st.booleans()):
            a = ["x", draw(st.integers(0, nx - 1))]
        if pool is not None:
            pool.append((a, 0.0))
        return ["sign", a]
    b = draw(st.one_of(st.sampled_from([0.0, 1.0, -0.5]), smooth(xp)))
    if pool is not None:
        pool.append((a, b))
    return [k, a, b] if draw(st.booleans()) else [k, b, a]


@st.composite
def nonsmooth_term(draw, xp, xup, nx, pool=None):
    a = draw(atom(xp, nx, pool))
    k = draw(st.integers(0, 9))
    if k <= 1:
        return a
    if k == 2:
        return ["-", a]
    if k == 3:
        return ["*", draw(gen.coef), a]
    if k == 4:
        return ["*", a, draw(smooth(xup))]
    if k == 5:
        return ["*", draw(smooth(xup)), a]
    if k == 6:
        return ["sin", a]
    if k == 7:
        return ["*", a, draw(atom(xp, nx))]
    if k == 8:
        return ["tanh", ["+", a, draw(smooth(xup))]]
    return ["-", ["*", ["-", a], draw(smooth(xup))]]


@st.composite
def strategy_(draw, tier):
    nx = draw(st.integers(1, 3))
    spec = dict(nx=nx, nu=draw(st.integers(0, 2)), npg=draw(st.integers(0, 2)), x0=[draw(gen.val) for _ in range(nx)])
    xp = gen.allvars(spec, ["x", "p"])
    xup = gen.allvars(spec, ["x", "u", "p"])
    linear_only = draw(st.integers(0, 3)) == 0       # no component that selects the general inclusion
    f = []
    total = 0
    pool = [] if draw(st.booleans()) else None
    for i in range(nx):
        e = ["+"]
        if draw(st.integers(0, 4)):
            e.append(draw(smooth(xup)))
        n = draw(st.integers(0, 2)) if i else draw(st.integers(1, 4 if pool is not None else 2))
        for _ in range(n):
            if total >= (6 if pool is not None else 4):
                break
            total += 1
            if linear_only:
                a = draw(atom(xp, nx, pool))
                t = draw(st.sampled_from([["sin", a], ["tanh", ["*", 0.5, a]], ["exp", ["*", 0.25, a]], ["*", 2.0, ["*", 0.5, ["cos", ["+", 0.3, a]]]]]))
            else:
                t = draw(nonsmooth_term(xp, xup, nx, pool))
            # differences as well as sums
            e = ["-", e if len(e) > 1 else 0.0, t] if draw(st.booleans()) else e + [t] if e[0] == "+" else ["+", e, t]
        f.append(e if len(e) > 1 else ["+", 0.0])
    if draw(st.integers(0, 9)) == 0:
        # surfaces that differ relatively little, far from the origin
        K = draw(st.sampled_from([1e6, 4e6, 2.5e7]))
        spec["shift"] = [K] * nx
        spec["x0"] = [K] * nx
        f = []
        wrap = st.sampled_from([lambda a: ["sin", a], lambda a: ["exp", a], lambda a: ["tanh", ["*", 0.5, a]], lambda a: a, lambda a: ["*", 2.0, a]])
        for i in range(nx):
            e = ["+", 0.5]
            for _ in range(draw(st.integers(1, 2))):
                arg = ["+", ["x", draw(st.integers(0, nx - 1))], -(K + draw(st.sampled_from([0.0, 0.75, -1.25, 1.0])))]
                a = ["sign", arg] if draw(st.booleans()) else [draw(st.sampled_from(["max", "min"])), arg, 0.0]
                e.append(draw(wrap)(a))
            f.append(e)
    spec["f"] = f
    spec["names"] = draw(st.sampled_from(["", "", "same"]))
    spec["pss"] = draw(st.sampled_from(["STEWART", "STEP"]))
    spec["wseed"] = draw(st.integers(0, 999))
    return spec


def strategy(tier):
    return strategy_(tier)


def check(spec, ctx):
    import casadi as ca
    import nosnoc
    nx, nu, npg = spec["nx"], spec["nu"], spec["npg"]
    rs = np.random.RandomState(spec["wseed"])
    shift = np.array(spec.get("shift") or [0.0] * nx)
    args = np.array([margins(spec, dict(x=shift + rs.uniform(-2, 2, nx), u=rs.uniform(-1, 1, nu), p=rs.uniform(-1, 1, npg))) for _ in range(4)])
    if args.shape[1] == 0 or np.min(np.ptp(args, axis=0)) < 1e-9:
        raise Inapplicable("constant argument of a nonsmooth function")
    if spec.get("names") == "same":
        # names need not be unique
        x, u, p = [ca.vertcat(ca.SX.zeros(0, 1), *[ca.SX.sym("q") for _ in range(k)]) for k in (nx, nu, npg)]
    else:
        x, u, p = ca.SX.sym("x", nx), ca.SX.sym("u", nu), ca.SX.sym("p", npg)
    s = dict(x=x, u=u, p=p)
    f = ca.vertcat(*[ca.SX(expr.sx(e, s)) for e in spec["f"]])
    if not any(op in str(f) for op in ("sign(", "fmax(", "fmin(")):
        raise Inapplicable("CasADi simplified the nonsmooth terms away")
    orig = ca.Function("orig", [x, u, p], [f])
    x0 = np.array(spec["x0"], float)
    kw = dict(p=p) if npg else {}
    with quiet(), sut("reformulate()"):
        m = nosnoc.NosnocAutoModel(x=x, x0=x0, u=u, f_nonsmooth_ode=f, **kw).reformulate()
        o = nosnoc.NosnocOpts()
        general = m.F is None
        o.pss_mode = nosnoc.PssMode.STEP if general else nosnoc.PssMode[spec["pss"]]
        o.preprocess()
        m.preprocess_model(o)
    require(m.dims.n_x == nx and m.dims.n_u == nu, lambda: f"dimensions {m.dims}")
    require(np.array_equal(np.array(m.x0, float).flatten(), x0), "initial state is not kept")
    if npg:
        require(m.dims.n_p_glob == npg, lambda: f"{m.dims.n_p_glob} parameters, expected {npg}")
    c = ca.vertcat(*m.c)
    cfun = ca.Function("c", [x, u, p], [c])
    rs = np.random.RandomState(spec["wseed"])
    if general:
        alpha = ca.vertcat(*m.alpha)
        rhs = ca.Function("rhs", [alpha, x, u, p], [ca.vertcat(*m.f_x)])
    else:
        rhs = ca.Function("rhs", [x, u, p], list(m.F))
    used = 0
    modes = set()
    for k in range(12):
        xv, uv, pv = shift + rs.uniform(-2, 2, nx), rs.uniform(-1, 1, nu), rs.uniform(-1, 1, npg)
        cv = cfun(xv, uv, pv).full().flatten()
        ref = orig(xv, uv, pv).full().flatten()
        if np.min(np.abs(cv)) < 1e-6 or not np.all(np.isfinite(ref)):
            continue
        if min_margin(spec, dict(x=xv, u=uv, p=pv)) < 1e-6:
            continue
        modes.add(tuple(cv > 0))
        if general:
            got = rhs((cv > 0).astype(float), xv, uv, pv).full().flatten()
        else:
            F = rhs(xv, uv, pv)
            F = [F] if len(m.F) == 1 else F
            got, off = np.zeros(nx), 0
            for Fi, Si in zip(F, m.S):
                Si = np.atleast_2d(np.array(Si))
                ci = cv[off:off + Si.shape[1]]
                off += Si.shape[1]
                sel = [j for j in range(Si.shape[0]) if np.all((Si[j] == 0) | (np.sign(ci) == Si[j]))]
                require(len(sel) == 1, lambda: f"{len(sel)} regions contain the point (sign matrix {Si.tolist()}, c = {ci})")
                got = got + Fi.full()[:, sel[0]]
        require(np.allclose(got, ref, rtol=1e-9, atol=1e-9), lambda: f"vector field {got}, the original one is {ref} at x={xv}, u={uv}, p={pv}, c={cv}")
        used += 1
    ctx.label("general" if general else "pss", "n_c=%d" % len(cv), "modes=%d" % len(modes), "nx=%d" % nx, "p=%d" % npg, "u=%d" % nu)
    ctx.nontrivial = len(modes) > 1 and used > 3


def min_margin(spec, env):
    """distance of the arguments of the nonsmooth functions from their switching surface"""
    return min(abs(a) for a in margins(spec, env))


def margins(spec, env):
    out = []

    def walk(e):
        if isinstance(e, (int, float)) or e[0] in expr.VARS:
            return
        if e[0] == "sign":
            out.append(expr.ev(e[1], env))
        elif e[0] in ("max", "min"):
            out.append(expr.ev(e[1], env) - expr.ev(e[2], env))
        for s in e[1:]:
            walk(s)
    for e in spec["f"]:
        walk(e)
    return out

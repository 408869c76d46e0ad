"""C25: explicit RK4 integrators, smoothed model, smoothed start trajectory."""
import numpy as np
from hypothesis import strategies as st

from pbt import build, expr, gen, irk, nlpcase, refnlp
from pbt.core import Inapplicable, quiet, require, sut

BUDGET = dict(quick=dict(cases=2700, seconds=150), thorough=dict(cases=20000, seconds=800))


@st.composite
def rk_case(draw):
    nx = draw(st.integers(1, 3))
    vs = [("x", i) for i in range(nx)]
    grid = draw(st.lists(st.sampled_from([0.1, 0.05, 0.3, 0.01, 0.2]), min_size=1, max_size=6))
    return dict(what="rk", nx=nx, x0=[draw(gen.val) for _ in range(nx)], f=[draw(gen.expression(vs, 3)) for _ in range(nx)],
                n_steps=draw(st.integers(1, 8)), tf=draw(st.sampled_from([1.0, 0.5, 0.25, 2.0])), grid=grid)


@st.composite
def smooth_case(draw, tier):
    spec = draw(gen.model(kinds=("S",), tree=True, max_nx=3, max_sys=2, max_nc=3, nu=0, nz=0, npt=0, npg=0, nv=0))
    spec["what"] = "smooth"
    spec["smoothing"] = draw(st.sampled_from([10.0, 1.0, 0.1, 0.5, 0.01, 1e-3]))
    nfe = draw(st.integers(1, 3))
    spec["opts"] = dict(N_finite_elements=nfe, n_s=draw(st.integers(1, 4)), terminal_time=draw(st.sampled_from([0.5, 1.0, 0.2])),
                        initialization_strategy="RK4_SMOOTHENED", smoothing_parameter=spec["smoothing"], max_iter_homotopy=1,
                        irk_representation=draw(st.sampled_from(["INTEGRAL", "DIFFERENTIAL_LIFT_X"])), use_fesd=draw(st.booleans()),
                        sigma_0=draw(st.sampled_from([1.0, 0.1])))
    spec["ocp"] = None
    spec["new_x0"] = draw(st.lists(gen.val, min_size=spec["nx"], max_size=spec["nx"])) if draw(st.booleans()) else None
    spec["wseed"] = draw(st.integers(0, 999))
    return spec


def strategy(tier):
    return st.one_of(rk_case(), smooth_case(tier))


def rk4_step(f, x, h):
    k1 = f(x)
    k2 = f(x + h * k1 / 2)
    k3 = f(x + h * k2 / 2)
    if np.max(np.abs([k1, k2, k3])) > 1e6:
        raise Inapplicable("unbounded trajectory")
    k4 = f(x + h * k3)
    return x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)


def close(a, b, what, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    require(a.shape == b.shape, lambda: f"{what}: shape {a.shape}, expected {b.shape}")
    require(np.allclose(a, b, rtol=tol, atol=tol), lambda: f"{what}: {a.tolist()}, expected {b.tolist()}")


def check_rk(spec, ctx):
    import casadi as ca
    from nosnoc.rk_utils import rk4, rk4_on_timegrid
    x = ca.SX.sym("x", spec["nx"])
    fun = ca.Function("f", [x], [ca.vertcat(*[ca.SX(expr.sx(e, dict(x=x))) for e in spec["f"]])])
    f = lambda v: np.array([expr.ev(e, dict(x=v)) for e in spec["f"]])   # noqa: E731
    x0 = np.array(spec["x0"], float)
    n, tf = spec["n_steps"], spec["tf"]
    ref = [x0]
    for _ in range(n):
        ref.append(rk4_step(f, ref[-1], tf / n))
    if np.max(np.abs(ref)) > 1e6 or not np.all(np.isfinite(ref)):
        ctx.label("rk:unbounded")
        return
    with quiet(), sut("rk4"):
        X, t = rk4(fun, x0, tf, n)
    close(t, np.linspace(0, tf, n + 1), "rk4: time grid")
    close(X, ref, "rk4: states")
    ref = [x0]
    for h in spec["grid"]:
        ref.append(rk4_step(f, ref[-1], h))
    if np.max(np.abs(ref)) < 1e6:
        with quiet(), sut("rk4_on_timegrid"):
            X = rk4_on_timegrid(fun, x0=x0, t_grid=np.array(spec["grid"]))
        close(X, ref, "rk4_on_timegrid: states")
    ctx.label("rk", "uniform=%s" % (len(set(spec["grid"])) == 1))
    ctx.nontrivial = n > 1


def check(spec, ctx):
    if spec["what"] == "rk":
        return check_rk(spec, ctx)
    sp = spec["smoothing"]

    def theta(s, x, sp):
        y = spec["sys"][s]
        c = np.array([expr.ev(e, dict(x=x)) for e in y["c"]])
        a = (np.tanh(c / sp) + 1) / 2
        out = np.ones(len(y["S"]))
        for i, row in enumerate(y["S"]):
            for j, v in enumerate(row):
                if v:
                    out[i] *= a[j] if v > 0 else 1 - a[j]
        return out, c

    def indicators(s, x):
        y = spec["sys"][s]
        return -np.array(y["S"], float) @ np.array([expr.ev(e, dict(x=x)) for e in y["c"]])

    def rhs(x):
        f = np.zeros(spec["nx"])
        for s, y in enumerate(spec["sys"]):
            f += theta(s, x, sp)[0] @ np.array([[expr.ev(e, dict(x=x)) for e in col] for col in y["F"]])
        return f

    o = dict(refnlp.DEFAULTS, **spec["opts"])
    case = nlpcase.Case(spec, solve=False)
    m = case.model
    rs = np.random.RandomState(spec["wseed"])
    n_reg = [len(y["F"]) for y in spec["sys"]]
    off = np.cumsum([0] + n_reg)
    for k in range(4):
        x = rs.uniform(-2, 2, spec["nx"])
        got = m.theta_smooth_fun(x, []).full().flatten()
        mu = m.mu_smooth_fun(x, []).full().flatten()
        require(mu.shape == (len(n_reg),), lambda: f"smoothed mu has shape {mu.shape}")
        for s in range(len(n_reg)):
            g = indicators(s, x)
            require(-max(g) - 1e-9 <= mu[s] <= -min(g) + 1e-9, lambda: f"smoothed mu {mu[s]} of subsystem {s} is no average of the indicators {-g} (negated)")
            # weights exp(-g / smoothing)
            wgt = np.exp(-(g - min(g)) / sp)
            close(mu[s], -(wgt @ g) / wgt.sum(), "smoothed mu", 1e-8)
        exp = [theta(s, x, sp)[0] for s in range(len(n_reg))]
        close(got, np.concatenate(exp), "smoothed region multipliers")
        for s in range(len(n_reg)):
            require(abs(got[off[s]:off[s + 1]].sum() - 1) < 1e-9, lambda: f"smoothed multipliers of subsystem {s} sum up to {got[off[s]:off[s + 1]].sum()}")
        close(m.f_x_smooth_fun(x).full().flatten(), rhs(x), "smoothed vector field")
    # vanishing smoothing
    m2 = build.build_model(spec)
    with quiet(), sut("add_smooth_step_representation"):
        m2.preprocess_model(case.opts)
        m2.add_smooth_step_representation(smoothing_parameter=1e-4)
    for k in range(4):
        x = rs.uniform(-2, 2, spec["nx"])
        got = m2.theta_smooth_fun(x, []).full().flatten()
        for s, y in enumerate(spec["sys"]):
            c = theta(s, x, sp)[1]
            if np.min(np.abs(c)) > 0.01:
                exp = [float(all(v == 0 or np.sign(cj) == v for v, cj in zip(row, c))) for row in y["S"]]
                close(got[off[s]:off[s + 1]], exp, "region multipliers for vanishing smoothing", 1e-6)
    # start trajectory
    x = np.array(spec["x0"] if spec["new_x0"] is None else spec["new_x0"], float)
    if spec["new_x0"] is not None:
        with quiet():
            case.solver.set("x0", x.copy())
    case.solve()
    w = case.call["x0"]
    P = case.prob
    c = irk.butcher(o["n_s"], "RADAU_IIA")[2]
    h = o["terminal_time"] / o["N_finite_elements"]
    for f in range(o["N_finite_elements"]):
        t = 0.0
        for k in range(o["n_s"]):
            x = rk4_step(rhs, x, h * (c[k] - t))
            t = c[k]
            if np.max(np.abs(x)) > 1e4:
                ctx.label("smooth:unbounded")
                return
            close(w[P.ind_x[0][f][k]], x, f"start trajectory at stage {k} of element {f}", 1e-7)
            for s in range(len(n_reg)):
                close(w[P.ind_theta[0][f][k][s]], theta(s, x, sp)[0], f"start region multipliers at stage {k} of element {f}", 1e-6)
                g = indicators(s, x)
                close(w[P.ind_lam[0][f][k][s]], g - min(g), f"start indicator multipliers at stage {k} of element {f}", 1e-6)
                mu = w[P.ind_mu[0][f][k][s]]
                require(np.all((mu >= -max(g) - 1e-6) & (mu <= -min(g) + 1e-6)), lambda: f"start value {mu} of mu at stage {k} of element {f}, negated indicators {-g}")
    ctx.label("smooth", "n_sys=%d" % len(n_reg), "n_s=%d" % o["n_s"], o["irk_representation"])
    ctx.nontrivial = True

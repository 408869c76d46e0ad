"""C27: optimal control solutions are admissible, and optimal where the optimum is known."""
import copy
import itertools

import numpy as np
from hypothesis import strategies as st

from pbt import expr, gen, hgen, hybrid, irk, real
from pbt.checks import c18
from pbt.core import Inapplicable, Inconclusive, fail, require

BUDGET = dict(quick=dict(cases=2000, seconds=150), thorough=dict(cases=8000, seconds=1500))


def base_opts(draw, dontcare=False, schemes=gen.SCHEMES):
    o = draw(gen.discretisation(n_s=(1, 3), fesd=(True,), schemes=schemes))
    o["pss_mode"] = "STEP" if dontcare else draw(st.sampled_from(["STEWART", "STEP"]))
    o["cross_comp_mode"] = draw(st.sampled_from(gen.CROSS))
    o["mpcc_mode"] = "SCHOLTES_INEQ"
    o["step_equilibration"] = draw(st.sampled_from(["HEURISTIC_DELTA", "HEURISTIC_MEAN"]))
    o["comp_tol"] = o["sigma_N"] = draw(st.sampled_from([1e-8, 1e-8, 1e-7]))
    o["objective_scaling_direct"] = draw(st.booleans())
    o["initialization_strategy"] = draw(st.sampled_from(["ALL_XCURRENT_W0_START", "ALL_XCURRENT_WOPT_PREV"]))
    o["rho_h"] = draw(st.sampled_from([1.0, 0.1]))
    return o


# (a) random switched problems, checked by re-simulation
def resim(draw):
    spec = draw(hgen.switched(levels=(0, 0, 1, 1, 2)))
    nx = spec["nx"]
    dontcare = any(0 in r for y in spec["sys"] for r in y["S"])
    o = base_opts(draw, dontcare)
    o.update(draw(gen.grid(max_stages=3, max_nfe=3, max_total=6)))
    o["terminal_time"] = draw(st.sampled_from([1.0, 1.5, 2.0]))
    o["equidistant_control_grid"] = draw(st.sampled_from([True, True, False]))
    N = o["N_stages"]
    spec["npt"] = spec["npt"] or draw(st.sampled_from([0, 1]))
    spec["pt_val"] = [[draw(st.sampled_from([0.4, -0.7, 1.0])) for _ in range(spec["npt"])] for _ in range(N)] if spec["npt"] else None
    spec["nu"] = draw(st.sampled_from([1, 1, 2]))
    spec["nv"] = draw(st.sampled_from([0, 0, 1]))
    add = [["*", draw(st.sampled_from([1.0, 0.5, -1.0, 1.5])), ["u", i]] for i in range(spec["nu"])]
    if spec["nv"]:
        add.append(["*", 0.5, ["v", 0]])
    for a in add:
        y = draw(st.sampled_from(spec["sys"]))
        r = draw(st.integers(0, nx - 1))
        only = draw(st.integers(0, 3)) == 0
        for k, col in enumerate(y["F"]):
            if k == 0 or not only:
                col[r] = ["+", col[r], a]
    oc = {}
    q = ["+", 0.0]
    for i in range(spec["nu"]):
        q.append(["*", draw(st.sampled_from([0.05, 0.3])), ["u", i], ["u", i]])
    if draw(st.booleans()):
        i = draw(st.integers(0, nx - 1))
        q.append(["*", 0.5, ["+", ["x", i], -0.3], ["+", ["x", i], -0.3]])
    oc["f_q"] = q
    t = ["+", 0.0]
    if spec["npt"]:
        where = draw(st.sampled_from(["", "q", "T", "T", "qT"]))
        if "q" in where:
            q.append(["*", 0.2, ["pt", 0], ["u", 0]])
        if "T" in where:
            t.append(["*", ["pt", 0], ["x", draw(st.integers(0, nx - 1))]])
    if draw(st.booleans()):
        n = draw(st.sampled_from([1, 2, 2, 3]))
        oc["g_path"] = []
        for _ in range(n):
            g = ["+", ["x", draw(st.integers(0, nx - 1))], ["*", draw(st.sampled_from([0.0, 0.5, -0.5, 1.0])), ["u", draw(st.integers(0, spec["nu"] - 1))]]]
            if spec["npt"] and draw(st.booleans()):
                g.append(["*", 0.5, ["pt", 0]])
            oc["g_path"].append(g)
        oc["lbg"], oc["ubg"] = [draw(st.sampled_from([-4.0, -1.5, -1.0]))] * n, [draw(st.sampled_from([4.0, 1.3, 0.8]))] * n
        if n > 1 and draw(st.booleans()):
            k = draw(st.integers(0, n - 1))
            oc["lbg"][k], oc["ubg"][k] = draw(st.sampled_from([[-2.0, 1e300], [-1e300, 1.6], [-3.0, 2.5]]))
        if draw(st.booleans()):
            # towards one of the bounds
            q.append(["*", draw(st.sampled_from([-2.0, 2.0, -1.0])), draw(st.sampled_from(oc["g_path"]))])
        o["g_path_at_" + draw(st.sampled_from(["fe", "stg"]))] = draw(st.sampled_from([True, False, False]))
    if draw(st.integers(0, 2)) == 0:
        oc["comp"] = []
        for _ in range(draw(st.sampled_from([1, 1, 2]))):
            G = ["+", draw(st.sampled_from([0.0, 0.3])), ["u", 0]]
            if spec["npt"] and draw(st.booleans()):
                G.append(["*", draw(st.sampled_from([0.3, -0.2])), ["pt", 0]])
            H = draw(st.sampled_from([["+", 6.0, ["x", 0]], ["-", 5.0, ["x", nx - 1]], ["+", 0.2, ["u", spec["nu"] - 1]], ["+", 0.3, ["-", ["u", spec["nu"] - 1]]]] + [["+", 0.5, ["v", 0]]] * spec["nv"]))
            if spec["npt"] and spec["nv"] and draw(st.integers(0, 3)) == 0:
                G, H = ["+", draw(st.sampled_from([0.0, 0.3])), ["pt", 0]], ["+", 0.5, ["v", 0]]
            oc["comp"].append([G, H] if draw(st.booleans()) else [H, G])
    for i in range(nx):
        if draw(st.booleans()):
            d = ["+", ["x", i], draw(st.sampled_from([-0.5, 1.0, 0.4, -1.2]))]
            t.append(["*", draw(st.sampled_from([1.0, 5.0])), d, d])
    if spec["nv"]:
        t.append(["*", 0.2, ["+", ["v", 0], -0.3], ["+", ["v", 0], -0.3]])
        oc["lbv_global"], oc["ubv_global"] = [-1.0], [draw(st.sampled_from([1.0, 0.2]))]
    oc["f_T"] = t
    oc["lbu"] = [draw(st.sampled_from([-2.0, -0.5, -1.0]))] * spec["nu"]
    oc["ubu"] = [draw(st.sampled_from([2.0, 0.7, 1.0]))] * spec["nu"]
    if draw(st.booleans()):
        oc["lbx"], oc["ubx"] = [-6.0] * nx, [draw(st.sampled_from([6.0, 2.2]))] * nx
    spec["ocp"] = oc
    if draw(st.integers(0, 3)) == 0:
        o["speed_of_time_variables"] = draw(st.sampled_from(["LOCAL", "GLOBAL"]))
        o["speed_of_time_min"], o["speed_of_time_max"] = draw(st.sampled_from([[0.5, 2.0], [1.0, 1.5], [0.7, 1.0]]))
        oc["f_q"] = ["+", oc["f_q"], draw(st.sampled_from([0.5, 1.0]))]
    spec["opts"] = o
    return spec


# (b) linear-quadratic problems with bounds on the controls, far from the switching surface
def lq(draw):
    nx = draw(st.integers(1, 2))
    o = base_opts(draw)
    N = draw(st.integers(1, 3))
    o.update(N_stages=N, terminal_time=draw(st.sampled_from([1.0, 0.6, 1.5])), use_fesd=draw(st.booleans()))
    o["N_finite_elements"] = 1 if o["use_fesd"] else draw(st.integers(1, 2))
    A = [[draw(st.sampled_from([0.0, 0.5, -0.6, -0.4, 0.3])) for _ in range(nx)] for _ in range(nx)]
    B = [draw(st.sampled_from([1.0, -0.5, 0.7, 2.0])) for _ in range(nx)]
    b = [draw(st.sampled_from([0.0, 0.3, -0.2])) for _ in range(nx)]
    f = [["+", b[i], ["*", B[i], ["u", 0]]] + [["*", A[i][j], ["x", j]] for j in range(nx)] for i in range(nx)]
    bad = [7.0] * nx
    swap = draw(st.booleans())
    sysm = dict(c=[["+", 30.0, ["x", 0]]], S=[[-1], [1]] if swap else [[1], [-1]], F=[bad, f] if swap else [f, bad])
    Q = [draw(st.sampled_from([0.0, 1.0, 0.5])) for _ in range(nx)]
    xr = [draw(st.sampled_from([0.0, 0.5, -1.0])) for _ in range(nx)]
    P = [draw(st.sampled_from([0.5, 2.0, 5.0])) for _ in range(nx)]
    R = draw(st.sampled_from([0.1, 1.0, 0.3]))
    sq = lambda w, e: ["*", w, e, e]  # noqa: E731
    oc = dict(f_q=["+", sq(R, ["u", 0])] + [sq(Q[i], ["+", ["x", i], -xr[i]]) for i in range(nx)], f_T=["+", 0.0] + [sq(P[i], ["+", ["x", i], -xr[i]]) for i in range(nx)],
              lbu=[draw(st.sampled_from([-10.0, -0.5, -1.0]))], ubu=[draw(st.sampled_from([10.0, 0.5, 1.0, 0.2]))])
    return dict(nx=nx, kind="S", nu=1, nz=0, nv=0, npg=0, npt=0, p_val=[], pt_val=None, sys=[sysm], x0=[draw(st.sampled_from([1.0, -1.5, 0.6])) for _ in range(nx)], ocp=oc, opts=o,
                level=1, lq=dict(A=A, B=B, b=b, Q=Q, xr=xr, P=P, R=R))


def chain(draw, with_u):
    """x' = k_i u + d_i, region i between the surfaces; all fields point to the goal for the largest control"""
    n = draw(st.integers(1, 2))
    up = draw(st.sampled_from([1.0, -1.0]))
    cuts = sorted(draw(st.lists(st.sampled_from([-0.5, 0.0, 0.3, 0.7, 1.1]), min_size=n, max_size=n, unique=True)))
    k = [draw(st.sampled_from([1.0, 0.5, 2.0, 1.5])) if with_u else 1.0 for _ in range(n + 1)]
    d = [draw(st.sampled_from([0.0, 0.5, 1.0, 0.3])) for _ in range(n + 1)]
    # surfaces in the direction of motion: s = up * x
    c = [["+", -cuts[i], ["*", up, ["x", 0]]] for i in range(n)]
    S = [[1] * i + [-1] * (n - i) for i in range(n + 1)]
    return n, up, cuts, k, d, c, S


# (c) time-optimal transfer with a speed-of-time factor
def timeopt(draw):
    n, up, cuts, k, d, c, S = chain(draw, True)
    o = base_opts(draw, schemes=gen.SCHEMES[:1])
    N = draw(st.integers(1, 3))
    umax = draw(st.sampled_from([1.0, 0.5, 2.0]))
    o.update(N_stages=N, N_finite_elements=draw(st.sampled_from([n + 1, n + 1, n + 2] if N < 3 else [2, n + 1])), terminal_time=draw(st.sampled_from([1.0, 0.5, 2.0])),
             speed_of_time_variables=draw(st.sampled_from(["LOCAL", "GLOBAL"])), equidistant_control_grid=draw(st.sampled_from([True, True, False])))
    o["speed_of_time_min"], o["speed_of_time_max"] = draw(st.sampled_from([[0.1, 10.0], [0.01, 25.0], [0.05, 8.0]]))
    F = [[["*", up, ["+", d[i], ["*", k[i], ["u", 0]]]], 1.0] for i in range(n + 1)]
    perm = draw(st.permutations(range(n + 1)))
    s0, s1 = cuts[0] - draw(st.sampled_from([0.4, 0.8])), cuts[-1] + draw(st.sampled_from([0.3, 0.6]))
    goal = ["-", ["x", 0], up * s1]
    oc = dict(lbu=[-umax], ubu=[umax])
    time = draw(st.sampled_from(["terminal", "stage"]))
    oc["f_T" if time == "terminal" else "f_q"] = ["x", 1] if time == "terminal" else ["+", 1.0, ["*", 0.0, ["u", 0]]]
    oc["g_T"] = [goal]
    edges = [s0] + cuts + [s1]
    best = sum((edges[i + 1] - edges[i]) / (d[i] + k[i] * umax) for i in range(n + 1))
    return dict(nx=2, kind="S", nu=1, nz=0, nv=0, npg=0, npt=0, p_val=[], pt_val=None, sys=[dict(c=c, S=[S[i] for i in perm], F=[F[i] for i in perm])], x0=[up * s0, 0.0], ocp=oc, opts=o,
                level=0, best=best, umax=umax, duration=best)


# (d) minimal effort transfer in fixed time
def effort(draw):
    n, up, cuts, k, d, c, S = chain(draw, False)
    o = base_opts(draw, schemes=gen.SCHEMES[:1])
    T = draw(st.sampled_from([1.0, 1.5, 2.0]))
    N = draw(st.sampled_from([1, 1, 2]))
    o.update(N_stages=N, N_finite_elements=n + 1, terminal_time=T)
    F = [[["*", up, ["+", d[i], ["u", 0]]]] for i in range(n + 1)]
    s0, s1 = cuts[0] - draw(st.sampled_from([0.4, 0.8])), cuts[-1] + draw(st.sampled_from([0.3, 0.6]))
    umin = 0.05
    oc = dict(lbu=[umin], ubu=[8.0], f_q=["*", ["u", 0], ["u", 0]], g_T=[["-", ["x", 0], up * s1]])
    return dict(nx=1, kind="S", nu=1, nz=0, nv=0, npg=0, npt=0, p_val=[], pt_val=None, sys=[dict(c=c, S=S, F=F)], x0=[up * s0], ocp=oc, opts=o, level=0,
                effort=dict(cuts=cuts, d=d, s0=s0, s1=s1, T=T, N=N, umin=umin, umax=8.0))


# (e) estimation of a field parameter behind a switch
def estimate(draw):
    o = base_opts(draw, schemes=gen.SCHEMES[:1])
    T = draw(st.sampled_from([1.0, 1.5]))
    o.update(N_stages=draw(st.integers(1, 2)), N_finite_elements=2, terminal_time=T)
    s0 = draw(st.sampled_from([-0.4, -0.3, -0.62]))
    v0 = draw(st.sampled_from([1.0, 1.5]))
    up = draw(st.sampled_from([1.0, -1.0]))
    m = draw(st.sampled_from([0.5, 1.0, 1.7, 3.0]))
    lb, ub = draw(st.sampled_from([[0.2, 1.5], [0.5, 4.0]]))
    sysm = dict(c=[["*", up, ["x", 0]]], S=[[1], [-1]], F=[[["*", up, ["v", 0]]], [up * v0]])
    e = ["-", ["*", up, ["x", 0]], m]
    tau = T + s0 / v0
    v = min(max(m / tau, lb), ub)
    return dict(nx=1, kind="S", nu=0, nz=0, nv=1, npg=0, npt=0, p_val=[], pt_val=None, sys=[sysm], x0=[up * s0], level=0, opts=o, best=(v * tau - m)**2, v=v,
                ocp=dict(f_T=["*", e, e], lbv_global=[lb], ubv_global=[ub], v_global_guess=[draw(st.sampled_from([1.0, 0.7]))]))


@st.composite
def strategy_(draw, tier):
    fam = draw(st.sampled_from(["resim", "resim", "resim", "resim", "resim", "lq", "timeopt", "timeopt", "effort", "estimate"]))
    spec = globals()[fam](draw)
    spec["family"] = fam
    return spec


def strategy(tier):
    return strategy_(tier)


class Scaled(hybrid.Hybrid):
    sot = 1.0

    def f(self, x, modes):
        return self.sot * super().f(x, modes)


def lq_optimum(spec):
    """exact optimum over the controls for the discretised dynamics (quadratic in the controls)"""
    o, q = spec["opts"], spec["lq"]
    N, n = o["N_stages"], o["N_finite_elements"]
    h = o["terminal_time"] / N / n
    A, B, b = np.array(q["A"]), np.array(q["B"]), np.array(q["b"])

    if h * np.abs(A).sum(axis=1).max() > 0.7:
        raise Inapplicable("step too large for the dynamics")

    def cost(u):
        x, c = np.array(spec["x0"], float), 0.0
        for k in range(N):
            for _ in range(n):
                x, _, dq = irk.irk_step(lambda y: A @ y + B * u[k] + b, x, h, o["n_s"], o["irk_scheme"],
                                        q=lambda y: q["R"] * u[k]**2 + sum(Q * (v - r)**2 for Q, v, r in zip(q["Q"], y, q["xr"])))
                c += dq
        return c + sum(p * (v - r)**2 for p, v, r in zip(q["P"], x, q["xr"]))
    c0 = cost(np.zeros(N))
    E = np.eye(N)
    g = np.array([(cost(e) - cost(-e)) / 2 for e in E])
    H = np.array([[cost(E[i] + E[j]) - cost(E[i]) - cost(E[j]) + c0 for j in range(N)] for i in range(N)])
    lo, up = spec["ocp"]["lbu"][0], spec["ocp"]["ubu"][0]
    best = None
    for act in itertools.product([0, -1, 1], repeat=N):
        u = np.array([lo if a < 0 else up for a in act], float)
        free = [i for i in range(N) if act[i] == 0]
        if free:
            fix = [i for i in range(N) if act[i] != 0]
            u[free] = np.linalg.solve(H[np.ix_(free, free)], -g[free] - H[np.ix_(free, fix)] @ u[fix])
        if np.all(u >= lo - 1e-12) and np.all(u <= up + 1e-12):
            c = c0 + g @ u + 0.5 * u @ H @ u
            best = c if best is None else min(best, c)
    return best


def effort_optimum(e):
    """minimum of sum of u_k^2 T / N over the controls that reach the goal; None if there are several local minima"""
    edges = [e["s0"]] + e["cuts"] + [e["s1"]]

    def advance(s, t, u):
        i = sum(s >= c - 1e-12 for c in e["cuts"])
        while True:
            v = e["d"][i] + u
            end = edges[i + 1] if i + 1 < len(edges) - 1 else 1e9
            if s + v * t <= end:
                return s + v * t
            t -= (end - s) / v
            s, i = end, i + 1

    def solve_u(s, t):
        lo, up = e["umin"], e["umax"]
        if advance(s, t, lo) > e["s1"] or advance(s, t, up) < e["s1"]:
            return None
        for _ in range(80):
            m = (lo + up) / 2
            if advance(s, t, m) < e["s1"]:
                lo = m
            else:
                up = m
        return (lo + up) / 2
    T = e["T"]
    if e["N"] == 1:
        u = solve_u(e["s0"], T)
        return None if u is None or u < e["umin"] + 0.02 else u * u * T

    def total(u1):
        s = advance(e["s0"], T / 2, u1)
        u2 = solve_u(s, T / 2)
        return None if u2 is None else (u1 * u1 + u2 * u2) * T / 2
    us = np.linspace(e["umin"], e["umax"], 800)
    cs = [total(u) for u in us]
    ok = [i for i in range(len(us)) if cs[i] is not None]
    if len(ok) < 3 or ok[-1] - ok[0] != len(ok) - 1:
        return None
    c = np.array([cs[i] for i in ok])
    d = np.sign(np.diff(c))
    if np.sum(np.diff(d) > 0) != 1 or np.sum(np.diff(d) != 0) != 1:
        return None
    i = int(np.argmin(c))
    lo, up = us[ok[max(i - 1, 0)]], us[ok[min(i + 1, len(ok) - 1)]]
    for _ in range(60):
        a, b = lo + (up - lo) / 3, up - (up - lo) / 3
        if total(a) < total(b):
            up = b
        else:
            lo = a
    return total((lo + up) / 2)


def check(spec, ctx):
    o = spec["opts"]
    fam = spec["family"]
    known = spec.get("best")
    if fam == "lq":
        known = lq_optimum(spec)
    if fam == "effort":
        known = effort_optimum(spec["effort"])
        if known is None:
            raise Inapplicable("several local optima or no solution")
    N = o["N_stages"]
    sotmode = o.get("speed_of_time_variables", "NONE")
    if fam == "timeopt":
        T = o["terminal_time"]
        if not 1.3 * o["speed_of_time_min"] * T < known < 0.7 * o["speed_of_time_max"] * T:
            raise Inapplicable("duration out of the range of the speed of time")
    solver = real.make_solver(spec)
    r = real.solve(solver, ctx)
    ctx.solved += 1
    oc = spec["ocp"] or {}
    nfe = o.get("Nfe_list") or [o["N_finite_elements"]] * N
    hs = np.array(r["time_steps"], float).flatten()
    xs = [np.array(q, float).flatten() for q in r["x_list"]]
    us = [np.array(q, float).flatten() for q in r["u_list"]] if spec["nu"] else [()] * N
    v = np.array(r["v_global"], float).flatten() if spec["nv"] else ()
    sot = [1.0] * N
    if sotmode != "NONE":
        s = [float(np.array(q).flatten()[0]) for q in r["sot"]]
        require(len(s) == (N if sotmode == "LOCAL" else 1), lambda: f"{len(s)} speed of time factors")
        sot = s if sotmode == "LOCAL" else s * N
        require(all(o["speed_of_time_min"] - 1e-6 <= q <= o["speed_of_time_max"] + 1e-6 for q in sot), lambda: f"speed of time {sot}")
    require(len(us) == N and len(hs) == sum(nfe) == len(xs), lambda: f"{len(us)} controls, {len(hs)} steps, {len(xs)} states for {N} stages with {nfe} elements")
    T = o["terminal_time"]
    require(abs(hs.sum() - T) < 1e-6 and hs.min() > -1e-7, lambda: f"steps {hs} for the horizon {T}")
    # bounds
    def inside(name, val, lo, up):
        for i, q in enumerate(val):
            if lo is not None:
                require(q >= lo[i] - 1e-6 * (1 + abs(lo[i])), lambda: f"{name}[{i}] = {q} below {lo[i]}")
            if up is not None:
                require(q <= up[i] + 1e-6 * (1 + abs(up[i])), lambda: f"{name}[{i}] = {q} above {up[i]}")
    for u in us:
        inside("u", u, oc.get("lbu"), oc.get("ubu"))
    for x in xs:
        inside("x", x, oc.get("lbx"), oc.get("ubx"))
    inside("v_global", v, oc.get("lbv_global"), oc.get("ubv_global"))
    # trajectory and cost
    X = hybrid.stage_values(solver, r, spec["x0"], hs)
    x, k = np.array(spec["x0"], float), 0
    cost = pen = 0.0
    switches = 0
    late = None
    for i in range(N):
        n = nfe[i]
        h = hs[k:k + n]
        if o.get("equidistant_control_grid", True):
            require(abs(h.sum() - T / N) < 1e-6, lambda: f"control stage {i} has length {h.sum()} instead of {T / N}")
        H = Scaled(spec, u=us[i], p=spec.get("p_val") or (), pt=spec["pt_val"][i] if spec.get("pt_val") else (), v=v)
        H.sot = sot[i]
        try:
            modes = H.walk(x, h, o["n_s"], o["irk_scheme"], xs[k:k + n], X=X[k:k + n])
        except hybrid.Missed as e:
            if real.undecided(solver, r, i, o["sigma_N"]):
                raise Inconclusive("the solution exploits the relaxation at a surface")
            fail(f"stage {i}, control {us[i]}, parameters {H.e['pt']}, {v}, speed of time {sot[i]}: {e}; from {x}, steps {h}, states {[q.tolist() for q in xs[k:k + n]]}")
        except Inapplicable as e:
            if known is None:
                raise
            late = e
            modes = None
        switches += len({str(m) for m in modes if m is not None}) - 1 if modes else 0
        q = (lambda y: sot[i] * expr.ev(oc["f_q"], H.env(y))) if oc.get("f_q") is not None else None
        for j in range(n):
            if q is not None and modes and modes[j] is not None:
                step = irk.given_step(lambda y: H.f(y, modes[j]), x, X[k], hs[k], o["n_s"], o["irk_scheme"], q=q)
                cost += (step or H.irk(x, modes[j], hs[k], o["n_s"], o["irk_scheme"], q=q, K0=(xs[k] - x) / hs[k]))[2]
            if o["use_fesd"]:
                if o["step_equilibration"] == "HEURISTIC_MEAN":
                    pen += o["rho_h"] * (hs[k] - T / N / n)**2
                elif j > 0:
                    pen += o["rho_h"] * (hs[k] - hs[k - 1])**2
            x = xs[k]
            k += 1
            for e, g in enumerate(oc.get("g_path") or ()):
                points = [x] if j == n - 1 or o.get("g_path_at_fe") else []
                if o.get("g_path_at_stg"):
                    points += list(X[k - 1])
                for y in points:
                    inside("path constraint", [expr.ev(g, H.env(y))], oc["lbg"][e:], oc["ubg"][e:])
            for G, C in oc.get("comp") or ():
                for y in X[k - 1]:
                    a, b = (expr.ev(e, H.env(y)) for e in (G, C))
                    require(a * b <= 2 * o["sigma_N"] + 1e-7 * (1 + abs(a) + abs(b)), lambda: f"stage {i}: complementarity between {a} and {b}")
    env = H.env(x)
    for g in oc.get("g_T") or ():
        val = expr.ev(g, env)
        require(abs(val) <= 1e-6, lambda: f"terminal constraint violated by {val}")
    if oc.get("f_T") is not None:
        cost += expr.ev(oc["f_T"], env)
    got = float(np.array(r["cost_val"]).flatten()[0]) - pen
    if late is None:
        require(abs(got - cost) <= 2e-5 * (1 + abs(cost)), lambda: f"reported cost {got} (without the step penalty {pen}), cost of the reported trajectory {cost}")
    if known is not None:
        # never better than the optimum; not worse where the discretised problem is convex or has one unknown
        # (otherwise local optima and C-stationary points are possible results of the homotopy)
        tol = 1e-4 * (1 + abs(known))
        require(got >= known - tol, lambda: f"{fam}: reported cost {got} is below the optimum {known}")
        if fam in ("lq", "estimate"):
            require(got <= known + tol, lambda: f"{fam}: reported cost {got}, the optimum is {known}; controls {us}, steps {hs}")
    ctx.label(fam, "sot=" + sotmode, o["irk_representation"], o["irk_scheme"], o["pss_mode"], "stages=%d" % N, "fesd=%s" % o["use_fesd"], "switches=%d" % min(switches, 3),
              *(["walk undecided"] if late else []), *(["path %d" % len(oc["g_path"])] if oc.get("g_path") else []), *(["complementarities"] if oc.get("comp") else []), *(["parameter in the cost"] if spec["npt"] else []))
    ctx.nontrivial = switches > 0 or fam != "resim"

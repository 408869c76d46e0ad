"""C18: smooth problems are integrated by the plain IRK scheme."""
import itertools

import numpy as np
from hypothesis import strategies as st

from pbt import expr, gen, hybrid, irk, real
from pbt.core import Inapplicable, require

BUDGET = dict(quick=dict(cases=900, seconds=150), thorough=dict(cases=8000, seconds=1200))


@st.composite
def smooth(draw, vs, i, nx):
    """bounded nonlinear right-hand side of the state i"""
    e = ["+", draw(st.sampled_from([0.0, 0.5, -0.7, 1.2]))]
    if draw(st.booleans()):
        e.append(["*", draw(st.sampled_from([-0.5, 0.4, -1.0, 0.25])), ["x", i]])
    for _ in range(draw(st.integers(1, 3))):
        v = list(draw(st.sampled_from(vs)))
        c = draw(st.sampled_from([0.5, -0.5, 0.8, 1.1, -1.3, 0.3]))
        k = draw(st.integers(0, 4))
        if k == 0:
            e.append(["*", c, v])
        elif k == 1:
            e.append(["*", c, ["sin", ["+", v, draw(st.sampled_from([0.0, 0.4]))]]])
        elif k == 2:
            e.append(["*", c, ["tanh", ["*", 2.0, v]]])
        elif k == 3:
            e.append(["*", c, ["cos", ["*", v, list(draw(st.sampled_from(vs)))]]])
        else:
            e.append(["*", 0.3, v, ["sin", list(draw(st.sampled_from(vs)))]])
    return e


@st.composite
def strategy_(draw, tier):
    spec = dict(nx=draw(st.integers(1, 3)), kind=draw(st.sampled_from(["S", "S", "S", "g", "gi"])), nv=0)
    spec["nu"] = draw(st.sampled_from([0, 0, 1]))
    spec["nz"] = draw(st.sampled_from([0, 0, 1]))
    spec["npg"] = draw(st.sampled_from([0, 1, 2]))
    spec["npt"] = draw(st.sampled_from([0, 1, 2]))
    nx = spec["nx"]
    spec["x0"] = [draw(st.sampled_from([0.0, 0.5, -0.8, 1.3, -0.2])) for _ in range(nx)]
    o = draw(gen.grid(max_stages=3, max_nfe=3, max_total=4))
    o["terminal_time"] = draw(st.sampled_from([1.0, 0.5, 2.0, 1.6]))
    o.update(draw(gen.discretisation(n_s=(1, 4 if tier == "quick" else 7))))
    if draw(st.integers(0, 5)) == 0:
        o["n_s"] = draw(st.sampled_from([5, 6]))
    o["pss_mode"] = draw(st.sampled_from(gen.pss_for(spec["kind"])))
    o["cross_comp_mode"] = draw(st.sampled_from(gen.CROSS))
    o["mpcc_mode"] = draw(st.sampled_from(["SCHOLTES_INEQ"] * 7 + ["SCHOLTES_EQ"]))
    o["step_equilibration"] = draw(st.sampled_from(["HEURISTIC_DELTA", "HEURISTIC_MEAN"]))
    o["rho_h"] = draw(st.sampled_from([1.0, 0.5, 5.0]))
    o["comp_tol"] = o["sigma_N"] = 1e-8
    o["initialization_strategy"] = draw(st.sampled_from(["ALL_XCURRENT_W0_START", "ALL_XCURRENT_WOPT_PREV"]))
    spec["opts"] = o
    draw(gen.finish_model(spec, o["N_stages"]))
    spec["pt_val"] = [[draw(st.sampled_from([0.4, -0.7, 1.0, 0.1, -0.3])) for _ in range(spec["npt"])] for _ in range(o["N_stages"])]
    spec.pop("z0", None)
    if spec["nz"]:
        spec["zx"] = draw(smooth(gen.allvars(spec, ["x", "p", "pt"]), 0, nx))
        spec["g_z"] = [["-", ["z", 0], spec["zx"]]]
    fv = gen.allvars(spec, ["x", "x", "u", "z", "p", "pt"])
    nsys = draw(st.sampled_from([1, 1, 1, 2, 2, 3]))
    if spec["kind"] == "gi":
        nsys = min(nsys, nx)
    spec["sys"], spec["active"] = [], []
    na = 0
    cuts = [1] * (nsys - 1) + [nx - nsys + 1]
    for s in range(nsys):
        y = {}
        nc = draw(st.sampled_from([1, 1, 2, 2, 3]))
        off = [draw(st.sampled_from([8.0, -7.0, 6.0])) for _ in range(nc)]
        c = [["+", off[k], ["*", draw(st.sampled_from([0.1, -0.1, 0.2])), ["x", draw(st.integers(0, nx - 1))]]] for k in range(nc)]
        if spec["kind"] == "gi":
            y["c"] = c
            y["f"] = []
            for i in range(cuts[s]):
                row = sum(cuts[:s]) + i
                e = draw(smooth(fv, row, nx))
                for k in range(nc):
                    if draw(st.booleans()):
                        e = e + [["*", ["a", na + k], draw(smooth(fv, row, nx))]]
                y["f"].append(e)
            spec["active"].append([1.0 if q > 0 else 0.0 for q in off])
            na += nc
        elif spec["kind"] == "g":
            n = draw(st.integers(2, 3))
            act = draw(st.integers(0, n - 1))
            y["g"] = [["+", -8.0 if i == act else draw(st.sampled_from([0.0, 3.0])), ["*", 0.1, ["x", draw(st.integers(0, nx - 1))]]] for i in range(n)]
            spec["active"].append(act)
        else:
            rows = draw(gen.sign_tree(nc))
            if o["pss_mode"] == "STEWART":
                rows = [list(r) for r in itertools.product([1, -1], repeat=nc)]
                rows = [list(r) for r in draw(st.permutations(rows))]
            y["c"], y["S"] = c, rows
            n = len(rows)
            spec["active"].append(next(i for i, r in enumerate(rows) if all(q == 0 or q * f > 0 for q, f in zip(r, off))))
        if spec["kind"] != "gi":
            y["F"] = []
            for i in range(n):
                if i == spec["active"][-1]:
                    y["F"].append([draw(smooth(fv, r, nx)) for r in range(nx)])
                else:
                    y["F"].append([draw(st.sampled_from([7.0, -9.0, ["+", 3.0, ["sin", ["x", 0]]]])) for _ in range(nx)])
        spec["sys"].append(y)
    spec["ocp"] = None
    if spec["nu"] or draw(st.sampled_from([True, True, False])):
        oc = {}
        if spec["nu"]:
            oc["lbu"] = oc["ubu"] = [draw(st.sampled_from([0.5, -0.7]))]
        if draw(st.sampled_from([True, True, True, False])):
            oc["f_q"] = draw(smooth(gen.allvars(spec, ["x", "x", "u", "p", "pt"]), 0, nx))
        if draw(st.booleans()):
            oc["f_T"] = draw(smooth(gen.allvars(spec, ["x", "p", "pt"]), 0, nx))
        spec["ocp"] = oc
    return spec


def strategy(tier):
    return strategy_(tier)


def env(spec, x, stage):
    e = dict(x=x, u=(spec.get("ocp") or {}).get("lbu") or (), p=spec.get("p_val") or (), pt=spec["pt_val"][stage] if spec["npt"] else (), v=(), z=())
    e["a"] = [q for a in spec["active"] for q in a] if spec["kind"] == "gi" else ()
    if spec["nz"]:
        e["z"] = [expr.ev(spec["zx"], e)]
    return e


def field(spec, x, stage):
    e = env(spec, x, stage)
    if spec["kind"] == "gi":
        return np.array([expr.ev(q, e) for y in spec["sys"] for q in y["f"]])
    return sum(np.array([expr.ev(q, e) for q in y["F"][a]]) for y, a in zip(spec["sys"], spec["active"]))


def slope(f, X, x):
    """the largest norm of the Jacobian of f at x and at the stage values X"""
    out = 0.0
    for y in [x] + list(X):
        y = np.asarray(y, float)
        J = np.array([(f(y + d) - f(y - d)) / 2e-5 for d in 1e-5 * np.eye(len(y))])
        out = max(out, np.linalg.norm(J, 2))
    return out


def check(spec, ctx):
    o = spec["opts"]
    N = o["N_stages"]
    nfe = o.get("Nfe_list") or [o["N_finite_elements"]] * N
    solver = real.make_solver(spec)
    r = real.solve(solver, ctx)
    hs = np.array(r["time_steps"], float).flatten()
    xs = [np.array(q, float).flatten() for q in r["x_list"]]
    require(len(hs) == sum(nfe) == len(xs), lambda: f"{len(hs)} steps and {len(xs)} states for {sum(nfe)} finite elements")
    if not o["use_fesd"]:
        exp = [o["terminal_time"] / N / n for n in nfe for _ in range(n)]
        require(np.max(np.abs(hs - exp)) < 1e-9, lambda: f"steps {hs} of a fixed grid {exp}")
    x = np.array(spec["x0"], float)
    oc = spec["ocp"] or {}
    cost, k = 0.0, 0
    stages = hybrid.stage_values(solver, r, x, hs)
    for i in range(N):
        T = sum(hs[k:k + nfe[i]])
        require(abs(T - o["terminal_time"] / N) < 1e-6, lambda: f"control stage {i} has length {T}")
        for j in range(nfe[i]):
            q = (lambda y: expr.ev(oc["f_q"], env(spec, y, i))) if oc.get("f_q") is not None else None
            step = irk.irk_step(lambda y: field(spec, y, i), x, hs[k], o["n_s"], o["irk_scheme"], q=q) if hs[k] > 1e-9 else (x, None, 0.0)
            if step is None or np.max(np.abs(step[0])) > 20:
                raise Inapplicable("reference step")
            if np.max(np.abs(step[0] - xs[k])) > 1e-6 * (1 + np.max(np.abs(step[0]))):
                # the equations of large steps may have several solutions: start from the reported stage values
                step = irk.given_step(lambda y: field(spec, y, i), x, stages[k], hs[k], o["n_s"], o["irk_scheme"], q=q) or step
                # ... and further ones that left the region, far away, when the step is too long for its equations to be contractive
                if max(np.max(np.abs(stages[k])), np.max(np.abs(xs[k]))) > 28 and hs[k] * slope(lambda y: field(spec, y, i), step[1], x) > 0.5:
                    raise Inapplicable("several solutions of a long step")
            require(np.max(np.abs(step[0] - xs[k])) <= 1e-6 * (1 + np.max(np.abs(step[0]))), lambda: f"stage {i}, element {j} of length {hs[k]}: state {xs[k]}, the {o['irk_scheme']}({o['n_s']}) step from {x} gives {step[0]}")
            cost += step[2] or 0.0
            if o["use_fesd"] and o["step_equilibration"] == "HEURISTIC_MEAN":
                cost += o["rho_h"] * (hs[k] - o["terminal_time"] / N / nfe[i])**2
            if o["use_fesd"] and o["step_equilibration"] == "HEURISTIC_DELTA" and j > 0:
                cost += o["rho_h"] * (hs[k] - hs[k - 1])**2
            x = xs[k]
            k += 1
    if oc.get("f_T") is not None:
        cost += expr.ev(oc["f_T"], env(spec, x, N - 1))
    got = float(np.array(r["cost_val"]).flatten()[0])
    require(abs(got - cost) <= 1e-5 * (1 + abs(cost)), lambda: f"reported cost {got}, quadrature along the trajectory {cost}")
    ctx.solved += 1
    ctx.label(o["irk_representation"], o["irk_scheme"], "n_s=%d" % o["n_s"], o["pss_mode"], "kind=" + spec["kind"], "fesd=%s" % o["use_fesd"], "nz=%d" % spec["nz"], "f_q=%s" % bool(oc.get("f_q")),
              "n_c=%d" % max(len(y.get("c", ())) for y in spec["sys"]), "n_sys=%d" % len(spec["sys"]), "uneven=%s" % (np.ptp(hs) > 1e-3), "stages=%d" % N)
    ctx.nontrivial = sum(nfe) > 1

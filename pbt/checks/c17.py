"""C17: FESD simulations against exact Filippov solutions."""
import numpy as np
from hypothesis import strategies as st

from pbt import hgen, hybrid, real
from pbt.core import Inapplicable, Inconclusive, fail, quiet, require, sut

BUDGET = dict(quick=dict(cases=600, seconds=120), thorough=dict(cases=8000, seconds=1500))
TOL = 2e-5


@st.composite
def strategy_(draw, tier):
    T = draw(st.sampled_from([1.0, 1.5, 0.7, 2.0]))
    spec = draw(hgen.eventful(T, pt_c=True))
    spec["opts"] = draw(hgen.solver_opts(spec))
    spec["T"] = T
    spec["nsim"] = draw(st.sampled_from([1, 1, 2, 3]))
    spec["extra"] = draw(st.sampled_from([1, 2]))
    spec["loop"] = draw(st.sampled_from([None, "loop", "p_values"]))
    return spec


def strategy(tier):
    return strategy_(tier)


def results(spec, solver, x0, ctx):
    """the results of the simulation steps, by single calls or by the simulation loop"""
    if spec["loop"] is None:
        x = x0
        for i in range(spec["nsim"]):
            r = real.solve(solver, ctx, x)
            x = np.array(r["x_list"][-1], float).flatten()
            yield r
        return
    import nosnoc
    n = spec["nsim"]
    p = np.tile(np.array(spec.get("p_val") or [], float), (n, 1)) if spec["loop"] == "p_values" else None
    with quiet(), sut("NosnocSimLooper"):
        loop = nosnoc.NosnocSimLooper(solver, x0, n, p_values=p)
        loop.run()
        res = loop.get_results()
    ctx.solves += n
    if any(q.name != "SUCCESS" for q in res["status"]):
        raise Inconclusive("not solved")
    m = len(res["time_steps"]) // n
    for i in range(n):
        yield dict(time_steps=res["time_steps"][i * m:(i + 1) * m], x_list=list(res["X_sim"][1 + i * m:1 + (i + 1) * m]), w_sol=res["w_sim"][i], loop=res)


def check(spec, ctx):
    o = spec["opts"]
    T, nsim = spec["T"], spec["nsim"]
    dt = T / nsim
    H = hybrid.Hybrid(spec, p=spec.get("p_val") or (), pt=(spec.get("pt_val") or [()])[0])
    x0 = np.array(spec["x0"], float)
    events, xT, margin, _ = H.simulate(x0, T, min_gap=0.08 * dt)
    te = [e[0] for e in events]
    if any(min(t % dt, dt - t % dt) < 0.08 * dt for t in te):
        raise Inapplicable("switch at the border of a simulation step")
    if margin < 0.02:
        raise Inapplicable("ends at a switching surface")
    per = [sum(1 for t in te if i * dt < t < (i + 1) * dt) for i in range(nsim)]
    n_fe = max(per) + spec["extra"]
    if n_fe > 5:
        raise Inapplicable("too many switches")
    solver = real.make_solver(spec, n_fe, dt)
    x = x0
    all_grid, reported = [], []
    for i, r in enumerate(results(spec, solver, x0, ctx)):
        hs = np.array(r["time_steps"], float).flatten()
        xs = [np.array(q, float).flatten() for q in r["x_list"]]
        try:
            H.walk(x, hs, o["n_s"], o["irk_scheme"], xs, X=hybrid.stage_values(solver, r, x, hs))
        except hybrid.Missed as e:
            fail(f"step {i}: {e}; from {x}, steps {hs}, states {[q.tolist() for q in xs]}, exact switch times {te}")
        grid = np.concatenate(([0.0], np.cumsum(hs)))
        require(abs(grid[-1] - dt) < 1e-6, lambda: f"step {i}: the steps {hs} do not add up to {dt}")
        all_grid += (i * dt + grid).tolist()
        if spec["loop"] is None:
            reported += [i * dt + float(q) for q in np.array(r["switch_times"]).flatten()]
        ctx.solved += 1
        x = xs[-1]
    if spec["loop"] is not None:
        res = r["loop"]
        require(len(res["t_grid"]) == 1 + n_fe * nsim and np.max(np.abs(np.array(res["X_sim"])[-1].flatten() - x)) == 0, lambda: "length of the simulation results")
        require(np.max(np.abs(res["t_grid"] - np.array([0.0] + [q for i in range(nsim) for q in all_grid[i * (n_fe + 1) + 1:(i + 1) * (n_fe + 1)]]))) < 1e-5, lambda: f"time grid {res['t_grid']}, elements end at {all_grid}")
        reported = [float(q) for q in res["switch_times"]]
    ctx.label("n_c=%d" % max(len(y["c"]) for y in spec["sys"]), "n_sys=%d" % len(spec["sys"]), "events=%d" % len(te), "level=%d" % spec["level"], o["irk_scheme"], "n_s=%d" % o["n_s"], o["pss_mode"], o["irk_representation"], o["cross_comp_mode"][:4],
              *["ev:" + e[3][0] + ":" + e[1][e[2]][0] for e in events])
    ctx.nontrivial = len(te) > 0
    if spec["level"] == 0:
        # constant fields: the scheme is exact
        require(np.max(np.abs(x - xT)) <= 1e-4, lambda: f"final state {x}, exact {xT}; switches at {te}")
        for t in te:
            require(min(abs(t - a) for a in all_grid) <= 1e-4, lambda: f"no grid point at the exact switch time {t}: {all_grid}")
        W = [np.concatenate(H.thetas(x0, H.initial_modes(x0)))] + [np.concatenate(H.thetas(e[4], e[1])) for e in events]
        for k, t in enumerate(te):
            if np.max(np.abs(W[k + 1] - W[k])) > (0.2 if o["pss_mode"] == "STEWART" else 0.9) and t % dt < dt * (1 - 1e-6):
                require(min([abs(t - a) for a in reported], default=1.0) <= 1e-4, lambda: f"the switch at {t} is not among the reported switch times {reported}")
        if o["pss_mode"] == "STEWART":
            for t in reported:
                require(min([abs(t - a) for a in te], default=1.0) <= 1e-4, lambda: f"reported switch time {t}, exact switches at {te}")

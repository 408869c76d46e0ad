"""Helpers for checks with real solves."""
import copy

import numpy as np

from pbt import build
from pbt.core import Inapplicable, Inconclusive, quiet, sut


def make_solver(spec, n_fe=None, T=None):
    import nosnoc
    spec = copy.deepcopy(spec)
    if n_fe is not None:
        spec["opts"].update(N_stages=1, N_finite_elements=n_fe, terminal_time=T)
    o = spec["opts"]
    points = sum(o.get("Nfe_list") or [o.get("N_finite_elements", 2) * o.get("N_stages", 1)]) * o.get("n_s", 2)
    per = spec["nx"] + sum(2 * len(y.get("S") or y.get("g") or ()) + 2 * len(y.get("c", ())) for y in spec["sys"])
    if points * per > 320:
        raise Inapplicable("too large")
    with quiet(), sut("building the solver"):
        opts, model, ocp, _ = build.build(spec)
        opts.opts_casadi_nlp["ipopt"]["max_iter"] = 200
        opts.opts_casadi_nlp["ipopt"]["max_cpu_time"] = 3.0
        return nosnoc.NosnocSolver(opts, model, ocp)


def solve(solver, ctx, x=None):
    with quiet(), sut("solve()"):
        if x is not None:
            solver.set("x0", np.array(x, float))
        r = solver.solve()
    ctx.solves += 1
    if r["status"].name != "SUCCESS":
        raise Inconclusive("not solved")
    return r


def undecided(solver, r, stage, sigma):
    """a pair of multipliers of this control stage exploits the relaxation: both are small, but far from zero

    Within the accuracy of the relaxation the state is on the surface as well as off it.
    """
    from pbt import refnlp
    prob = solver.problem
    w = np.array(r["w_sol"], float).flatten()

    def vals(ind):
        return np.array([w[np.array(refnlp._flat(q), int)] for q in ind])
    small, most = 0.1 * np.sqrt(sigma), 3 * sigma
    before = None
    for f in range(len(prob.ind_x[stage])):
        if len(refnlp._flat(prob.ind_theta[stage][f])):
            th, lam = vals(prob.ind_theta[stage][f]), vals(prob.ind_lam[stage][f])
        else:
            a = vals(prob.ind_alpha[stage][f])
            th = np.hstack((a, 1 - a))
            lam = np.hstack((vals(prob.ind_lambda_n[stage][f]), vals(prob.ind_lambda_p[stage][f])))
        both = lam if before is None else np.vstack((before, lam))
        for t in th:
            for q in both:
                if np.any((np.minimum(t, q) > small) & (t * q <= most)):
                    return True
        before = lam[-1:]
    return False

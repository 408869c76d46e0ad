"""Helpers for checks on the generated nonlinear program (scripted back end)."""
import numpy as np

from pbt import build, fake, refnlp
from pbt.core import fail, quiet, require, sut


class Case:
    """a problem built by the code under test, and the first subproblem it hands to the back end"""

    def __init__(self, spec, script=None, solve=True):
        self.spec = spec
        with fake.fake_backend(script) as created, quiet():
            with sut("building the problem"):
                import nosnoc
                self.opts, self.model, self.ocp, self.syms = build.build(spec)
                self.solver = nosnoc.NosnocSolver(self.opts, self.model, self.ocp)
            if not created:
                raise RuntimeError("no back end was created")
            self.nlp = created[-1]
            self.prob = self.solver.problem
            if solve:
                self.solve()

    def solve(self):
        with quiet(), sut("solve()"):
            self.result = self.solver.solve()
        if not self.nlp.calls:
            fail("solve() did not call the NLP solver")
        self.call = self.nlp.calls[0]
        return self.result


def random_points(prob, spec, n, seed):
    """points of the primal space; multipliers and step lengths positive"""
    rs = np.random.RandomState(seed % (2 ** 31))
    nw = len(prob.w0)
    f = refnlp._flat
    W = []
    o = refnlp.full_opts(spec["opts"])
    for _ in range(n):
        w = rs.uniform(-1.5, 1.5, nw)
        for ind in (prob.ind_theta, prob.ind_lam, prob.ind_lambda_n, prob.ind_lambda_p):
            ii = f(ind)
            w[ii] = rs.uniform(0.05, 1.5, len(ii))
        ii = f(prob.ind_alpha)
        w[ii] = rs.uniform(0.05, 0.95, len(ii))
        ii = f(prob.ind_h)
        w[ii] = rs.uniform(0.3, 1.6, len(ii)) * o["terminal_time"] / o["N_stages"] / 2
        ii = f(prob.ind_sot)
        w[ii] = rs.uniform(0.5, 2.0, len(ii))
        ii = f(prob.ind_elastic)
        w[ii] = rs.uniform(0.1, 0.9, len(ii))
        for i in range(len(prob.ind_bool)):
            if i >= o["N_stages"]:
                w[f(prob.ind_bool[i])] = 0.5
                continue
            for fe in prob.ind_bool[i]:
                w[f(fe)] = rs.uniform(0.2, 0.8)
        W.append(w)
    return W


def compare(spec, prob, nlp, call, tags, seed, ref=None, n_points=4):
    """All reference constraints with one of the tags must be present. Returns (missing of other tags, extra)."""
    ref = ref or refnlp.Ref(spec, prob)
    W = random_points(prob, spec, n_points, seed)
    E = [ref.entries(w) for w in W]
    rows = [(E[0][j][0], E[0][j][1], np.array([E[k][j][2] for k in range(n_points)])) for j in range(len(E[0]))]
    act = refnlp.actual_entries(nlp, W, call["p"], call["lbg"], call["ubg"])
    for k, v, _ in act:
        if not np.all(np.isfinite(v)):
            fail("constraint is not finite at a regular point")
    missing, extra = refnlp.match(rows, act)
    mine = [m for m in missing if m[0] in tags]
    others = [m for m in missing if m[0] not in tags]
    if mine:
        by = {}
        for m in mine:
            by[m[0]] = by.get(m[0], 0) + 1
        fail(f"expected constraints are missing from the program: {by}; first: {mine[0][1]} with values "
             f"{np.array2string(mine[0][2], precision=6)}; {len(extra)} unexpected constraints instead, "
             f"e.g. {extra[:1]}")
    return W, rows, act, others, extra


def kind_of_extra(prob, nlp, row):
    """which variables an unexpected constraint depends on"""
    import casadi as ca
    g = nlp.g[row[2]]
    dep = ca.which_depends(g, nlp.x, 1, False)
    idx = [i for i, d in enumerate(dep) if d]
    f = refnlp._flat
    groups = dict(x=prob.ind_x, v=prob.ind_v, theta=prob.ind_theta, lam=prob.ind_lam, mu=prob.ind_mu,
                  alpha=prob.ind_alpha, lambda_n=prob.ind_lambda_n, lambda_p=prob.ind_lambda_p, z=prob.ind_z, h=prob.ind_h,
                  u=prob.ind_u, sot=prob.ind_sot, v_global=prob.ind_v_global, elastic=prob.ind_elastic, bool=prob.ind_bool)
    return {k for k, ind in groups.items() if set(f(ind)) & set(idx)}


DUALS = {"lam", "lambda_n", "lambda_p"}
PRIMAL_MULT = {"theta", "alpha"}


def classify_extra(prob, nlp, row):
    import casadi as ca
    k = kind_of_extra(prob, nlp, row)
    if k & {"bool"}:
        return "comp"
    if k & DUALS and k & PRIMAL_MULT:
        return "steq" if "h" in k else "comp"
    if k & (DUALS | {"mu"}):
        return "alg"
    if k <= {"h"} and k:
        return "grid"
    if k & {"v"} or (k & {"h"} and k & {"x"}):
        return "dyn"
    if k & {"theta", "alpha"} and not k & {"x"}:
        return "alg"
    if k & {"theta", "alpha"}:
        return "dyn"
    return "path"


def no_extra(prob, nlp, others, extra, tags):
    """unexpected constraints of the kinds a check is responsible for (only if nothing else is missing)"""
    if others:
        return
    for row in extra:
        c = classify_extra(prob, nlp, row)
        if c in tags:
            fail(f"unexpected additional constraint ({c}): {row[0]} row {row[2]}: {str(nlp.g[row[2]])[:200]}")

"""C01: collocation coefficients against an independent construction and against exact integration of polynomials."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, irk
from pbt.core import require, sut

BUDGET = dict(quick=dict(cases=3000, seconds=150), thorough=dict(cases=60000, seconds=600))


def strategy(tier):
    return st.fixed_dictionaries(dict(
        n_s=st.integers(1, 9), scheme=st.sampled_from(gen.SCHEMES), rep=st.sampled_from(gen.REPS),
        # coefficients of a polynomial in the monomials (t - shift)^k, relative degree with respect to the exactness limits
        coef=st.lists(st.integers(-4, 4), min_size=1, max_size=18), shift=st.sampled_from([0.0, 0.5, 1.0, 0.25])))


def fixed_cases(tier):
    for n_s in range(1, 10):
        for scheme in gen.SCHEMES:
            for rep in gen.REPS:
                yield dict(n_s=n_s, scheme=scheme, rep=rep, coef=[1] * 18, shift=0.5)


def close(a, b, tol, what):
    a, b = np.asarray(a, float), np.asarray(b, float)
    require(a.shape == b.shape, lambda: f"{what}: shape {a.shape}, expected {b.shape}")
    err = np.max(np.abs(a - b) / (1 + np.abs(b)), initial=0)
    require(np.isfinite(err) and err <= tol, lambda: f"{what}: {np.array2string(a, precision=10)} instead of {np.array2string(b, precision=10)}, "
            f"relative error {err:.2e}")


def check(spec, ctx):
    import nosnoc
    import nosnoc.nosnoc_types as nt
    from nosnoc.rk_utils import generate_butcher_tableu, generate_butcher_tableu_integral
    n_s, name = spec["n_s"], spec["scheme"]
    scheme = nt.IrkSchemes[name]
    with sut("coefficients"):
        A, b, c, order = generate_butcher_tableu(n_s, scheme)
        B, C, D, tau = generate_butcher_tableu_integral(n_s, scheme)
        o = nosnoc.NosnocOpts()
        o.n_s, o.irk_scheme, o.irk_representation = n_s, scheme, nt.IrkRepresentation[spec["rep"]]
        o.preprocess()
    rA, rb, rc = irk.butcher(n_s, name)
    rC, rD, rB = irk.integral_form(n_s, name)
    # condition of the coefficient computation grows with n_s
    tol = 1e-11 * 10 ** (max(0, n_s - 3) * 0.75)
    A, b, c = np.asarray(A, float), np.asarray(b, float).flatten(), np.asarray(c, float).flatten()
    close(A, rA, tol, "Butcher matrix")
    close(b, rb, tol, "weights")
    close(c, rc, tol, "stage times")
    Cm, Dv, Bv, tm = np.asarray(C, float), np.asarray(D, float).flatten(), np.asarray(B, float).flatten(), np.asarray(tau, float).flatten()
    close(Cm[:, 1:], rC[:, 1:], 10 * tol, "derivative coefficients")
    close(Dv, rD, 10 * tol, "end-point coefficients")
    # weights: with or without the (vanishing) weight of the left point
    require(len(Bv) == n_s + 1, lambda: f"{len(Bv)} quadrature weights of the integral form, expected {n_s + 1}")
    close(Bv[1:], rb, 10 * tol, "quadrature weights of the integral form")
    require(abs(Bv[0]) <= 10 * tol, lambda: f"weight {Bv[0]:.3e} of the left end point")
    close(tm[-n_s:], rc, tol, "stage times of the integral form")
    exp = 2 * n_s - 1 if name == "RADAU_IIA" else 2 * n_s
    require(int(order) == exp, lambda: f"order {order}, expected {exp}")
    # what the problem formulation uses
    close(np.asarray(o.irk_time_points, float).flatten(), rc, tol, "options: stage times")
    require(bool(o.right_boundary_point_explicit) == (name == "RADAU_IIA"), "options: right boundary point")
    # polynomials: exact for the coefficients handed out
    p = np.polynomial.Polynomial(np.array(spec["coef"], float))
    t = lambda s: s - spec["shift"]                      # noqa: E731
    scale = np.sum(np.abs(p.coef))
    q = np.polynomial.Polynomial(np.array(spec["coef"][:exp], float)).integ()
    exact = q(t(1.0)) - q(t(0.0))
    got = b @ np.polynomial.Polynomial(np.array(spec["coef"][:exp], float))(t(c))
    require(abs(got - exact) <= 10 * tol * (1 + scale), lambda: f"quadrature of a polynomial of degree {len(spec['coef'][:exp]) - 1}: {got!r} instead of {exact!r}")
    d = np.polynomial.Polynomial(np.array(spec["coef"][:n_s], float))
    di = d.integ()
    close(A @ d(t(c)), di(t(c)) - di(t(0.0)), 10 * tol * (1 + scale), "stage formula on a polynomial")
    e = np.polynomial.Polynomial(np.array(spec["coef"][:n_s + 1], float))
    nodes = t(np.concatenate(([0.0], c)))
    close(e(nodes) @ Cm[:, 1:], e.deriv()(nodes[1:]), 100 * tol * (1 + scale), "derivative formula on a polynomial")
    close(e(nodes) @ Dv, e(t(1.0)), 100 * tol * (1 + scale), "end-point formula on a polynomial")
    ctx.label(name, "n_s=%d" % n_s, spec["rep"])
    ctx.nontrivial = n_s > 1

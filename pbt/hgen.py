"""Generators of switched systems for checks with real solves."""
import itertools

import numpy as np
from hypothesis import strategies as st

from pbt import gen, hybrid
from pbt.core import Inapplicable

VEL = [1.0, -1.0, 2.0, -2.0, 0.5, -0.5, 3.0, 1.5, -1.5, -3.0]
OFF = [0.0, 0.3, -0.4, 0.7, -0.8, 0.15, 1.1]


@st.composite
def field(draw, nx, level, j, spec):
    """level 0: constant, 1: affine, 2: nonlinear; the component j is transversal"""
    out = []
    for i in range(nx):
        e = ["+", draw(st.sampled_from(VEL if i == j else OFF + VEL))]
        if level >= 1:
            for _ in range(draw(st.integers(0, 2))):
                k = draw(st.integers(0, nx - 1))
                c = draw(st.sampled_from([0.5, -0.5, 0.25, -0.3, 0.8, -1.0] if i != j else [0.25, -0.25, 0.4, -0.4]))
                if level == 2 and draw(st.booleans()):
                    e.append(["*", c, [draw(st.sampled_from(["sin", "cos", "tanh"])), ["x", k]]])
                else:
                    e.append(["*", c, ["x", k]])
        for var, n in (("p", spec.get("npg", 0)), ("pt", spec.get("npt", 0))):
            if n and draw(st.integers(0, 2)) == 0:
                e.append(["*", 0.5, [var, draw(st.integers(0, n - 1))]])
        out.append(e if len(e) > 2 else e[1])
    return out


@st.composite
def subsystem(draw, nx, level, j, spec, sparse=True, pt_c=False):
    """one subsystem switching on the state j (pt_c: switching functions with time-varying parameters)"""
    forms = ["one", "one", "one", "one", "chain", "chain", "chain3"]
    if nx > 1 and sparse:
        forms += ["two", "two", "tree"]
    if nx > 2 and sparse:
        forms += ["three", "tree3"]
    form = draw(st.sampled_from(forms))

    def sf(i, b):
        e = ["+", -b, ["*", draw(st.sampled_from([1.0, 1.0, -1.0, 2.0])), ["x", i]]]
        for var, n in (("p", spec.get("npg", 0)), ("pt", spec.get("npt", 0) if pt_c else 0)):
            if n and draw(st.integers(0, 2)) == 0:
                e.append(["*", draw(st.sampled_from([0.3, -0.2])), [var, draw(st.integers(0, n - 1))]])
        if nx > 1 and draw(st.integers(0, 3)) == 0:
            e.append(["*", draw(st.sampled_from([0.5, -0.5])), ["x", draw(st.sampled_from([q for q in range(nx) if q != i]))]])
        return e
    if form == "one":
        c, S = [sf(j, draw(st.sampled_from(OFF)))], [[1], [-1]]
    elif form == "chain":
        b = draw(st.sampled_from([-0.5, 0.0, 0.3]))
        d = draw(st.sampled_from([0.4, 0.7, 1.0]))
        c = [["+", -b, ["x", j]], ["+", -b - d, ["x", j]]]
        S = [[-1, -1], [1, -1], [1, 1]]
    elif form == "chain3":
        b = draw(st.sampled_from([-0.9, -0.5, 0.0]))
        d = draw(st.sampled_from([0.4, 0.6]))
        c = [["+", -b - i * d, ["x", j]] for i in range(3)]
        S = [[-1, -1, -1], [1, -1, -1], [1, 1, -1], [1, 1, 1]]
        flip = draw(st.sampled_from([None, None, 0, 1, 2]))
        if flip is not None:
            c[flip] = ["-", c[flip]]
            S = [[-q if i == flip else q for i, q in enumerate(r)] for r in S]
        perm = draw(st.permutations(range(3)))
        c, S = [c[i] for i in perm], [[r[i] for i in perm] for r in S]
    elif form in ("three", "tree3"):
        others = draw(st.permutations([q for q in range(nx) if q != j]))
        c = [sf(i, draw(st.sampled_from(OFF))) for i in draw(st.permutations([j] + list(others[:2])))]
        S = [list(r) for r in itertools.product([1, -1], repeat=3)] if form == "three" else [[1, 0, 0], [-1, 1, 0], [-1, -1, 1], [-1, -1, -1]]
    else:
        i = draw(st.sampled_from([q for q in range(nx) if q != j]))
        c = [sf(j, draw(st.sampled_from(OFF))), sf(i, draw(st.sampled_from(OFF)))]
        S = [[1, 1], [1, -1], [-1, 1], [-1, -1]] if form == "two" else [[1, 0], [-1, 1], [-1, -1]]
    S = [list(r) for r in draw(st.permutations(S))]
    F = [draw(field(nx, level, j, spec)) for _ in S]
    return dict(c=c, S=S, F=F)


@st.composite
def switched(draw, levels=(0, 1, 1, 2), max_nx=3, max_sys=3, params=True, sparse=True, pt_c=False):
    nx = draw(st.sampled_from([1, 2, 2, 2, 3, 3] if max_nx >= 3 else [1, 2, 2, 2][:max_nx + 2]))
    spec = dict(nx=nx, kind="S", nu=0, nz=0, nv=0, npg=0, npt=0, ocp=None)
    if params:
        spec["npg"] = draw(st.sampled_from([0, 0, 1]))
        spec["npt"] = draw(st.sampled_from([0, 0, 1]))
        spec["p_val"] = [draw(st.sampled_from([0.5, -0.6, 1.0])) for _ in range(spec["npg"])]
        spec["pt_val"] = [[draw(st.sampled_from([0.4, -0.7, 1.0])) for _ in range(spec["npt"])]] if spec["npt"] else None
    nsys = min(draw(st.sampled_from([1, 1, 2] if nx == 2 else [1, 1, 2, 3, 3])), max_sys) if nx > 1 else 1
    level = draw(st.sampled_from(levels))
    js = draw(st.permutations(range(nx)))
    spec["sys"] = [draw(subsystem(nx, level, js[s], spec, sparse=sparse, pt_c=pt_c)) for s in range(nsys)]
    if nsys > 1:
        # additive fields: the second subsystem acts on its own state (mostly)
        for s, y in enumerate(spec["sys"]):
            for col in y["F"]:
                for i in range(nx):
                    if i != js[s] and (i in js[:nsys] or draw(st.booleans())):
                        col[i] = 0.0 if draw(st.integers(0, 3)) else 0.2
    spec["level"] = level
    spec["x0"] = [draw(st.sampled_from([0.03, -0.93, 0.57, -0.37, 1.13, -1.6, 0.21, 1.93])) for _ in range(nx)]
    return spec


def fields_to_leave(draw, spec):
    """one subsystem that slides along x_j = b and leaves when a drifting state has grown"""
    nx = 2
    j = draw(st.integers(0, 1))
    k = 1 - j
    b = draw(st.sampled_from([0.0, 0.3, -0.4]))
    sg = draw(st.sampled_from([1.0, -1.0]))
    drift = draw(st.sampled_from([1.0, -1.0, 1.5]))
    # field on the side c > 0 / c < 0 along x_j: -p + |slope| * drift, +q
    gain = draw(st.sampled_from([1.0, 1.5, 2.0])) * np.sign(drift)
    up, lo = [0.0, 0.0], [0.0, 0.0]
    up[k], lo[k] = drift, drift * draw(st.sampled_from([1.0, 1.0, 0.8]))
    push = ["*", gain, ["x", k]] if spec["level"] < 2 else ["*", gain, ["+", ["x", k], ["*", 0.2, ["sin", ["x", k]]]]]
    up[j] = ["+", draw(st.sampled_from([-1.0, -0.5, -1.5])), push]
    lo[j] = draw(st.sampled_from([1.0, 2.0, 0.5]))
    if sg < 0:
        up[j], lo[j] = ["-", up[j]], ["-", lo[j]]
    c = ["*", sg, ["-", ["x", j], b]]
    S, F = [[1], [-1]], [up, lo]
    if draw(st.booleans()):
        S, F = S[::-1], F[::-1]
    return [dict(c=[c], S=S, F=F)]


@st.composite
def eventful(draw, T, want=2, tries=5, leave=True, **kw):
    """a switched system and the start value (of a few) with the most switches up to T"""
    spec = draw(switched(**kw))
    if leave and draw(st.integers(0, 3)) == 0:
        spec.update(nx=2, npg=0, npt=0, p_val=[], pt_val=None, level=draw(st.sampled_from([1, 1, 2])))
        spec["sys"] = fields_to_leave(draw, spec)
        spec["x0"] = [-0.37, 0.57]
    rnd = draw(st.randoms(use_true_random=False))
    best = None
    for _ in range(tries):
        x0 = [round(rnd.uniform(-1.6, 1.6), 2) for _ in range(spec["nx"])]
        H = hybrid.Hybrid(spec, p=spec.get("p_val") or (), pt=(spec.get("pt_val") or [()])[0])
        try:
            ev = H.simulate(x0, T, n=60)[0]
        except Inapplicable:
            continue
        score = len(ev) + sum(e[3][0] == "leave" for e in ev)
        if best is None or score > best[0]:
            best = (score, x0)
        if score >= want:
            break
    if best is not None:
        spec["x0"] = best[1]
    return spec


@st.composite
def solver_opts(draw, spec, n_s=(1, 4), fesd=True, mpcc=("SCHOLTES_INEQ",) * 6 + ("SCHOLTES_EQ",)):
    dontcare = any(0 in r for y in spec["sys"] for r in y["S"])
    o = draw(gen.discretisation(n_s=n_s, fesd=(fesd,)))
    o["pss_mode"] = "STEP" if dontcare else draw(st.sampled_from(["STEWART", "STEWART", "STEP"]))
    o["cross_comp_mode"] = draw(st.sampled_from(gen.CROSS))
    o["mpcc_mode"] = draw(st.sampled_from(list(mpcc)))
    o["step_equilibration"] = draw(st.sampled_from(["HEURISTIC_DELTA", "HEURISTIC_MEAN", "HEURISTIC_DELTA", "HEURISTIC_MEAN", "L2_RELAXED_SCALED", "L2_RELAXED"] + ["DIRECT_COMPLEMENTARITY", "HEURISTIC_DELTA_H_COMP", "DIRECT"] * draw(st.sampled_from([0, 0, 1]))))
    o["comp_tol"] = draw(st.sampled_from([1e-7, 1e-8, 1e-8, 1e-9]))
    o["sigma_N"] = o["comp_tol"]
    o["homotopy_update_rule"] = draw(st.sampled_from(["LINEAR", "LINEAR", "LINEAR", "SUPERLINEAR"]))
    o["initialization_strategy"] = draw(st.sampled_from(["ALL_XCURRENT_W0_START", "ALL_XCURRENT_W0_START", "ALL_XCURRENT_WOPT_PREV"]))
    o["rho_h"] = draw(st.sampled_from([1.0, 0.5, 10.0]))
    return o

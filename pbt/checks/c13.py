"""C13: histories of set operations and solves against a model of the initial guess."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, nlpcase, refnlp
from pbt.core import fail, quiet, require, sut

BUDGET = dict(quick=dict(cases=2700, seconds=150), thorough=dict(cases=20000, seconds=800))

STRATEGIES = ["EXTERNAL", "ALL_XCURRENT_W0_START", "ALL_XCURRENT_WOPT_PREV"]
OPS = ["x0", "x_stage", "x_fe", "u", "v_global", "theta", "w", "x_bad", "unknown", "theta_bad", "solve", "solve", "p_global", "p_time_var"]


@st.composite
def strategy_(draw, tier):
    def extra(draw, spec):
        o = spec["opts"]
        o["initialization_strategy"] = draw(st.sampled_from(STRATEGIES))
        n = draw(st.integers(1, 6 if tier == "quick" else 12))
        spec["ops"] = [[draw(st.sampled_from(OPS)), draw(st.integers(0, 99))] for _ in range(n)] + [["solve", draw(st.integers(0, 99))]]
    return draw(gen.problem(n_s=(1, 3), max_total=5, mpcc=["SCHOLTES_INEQ", "ELASTIC_INEQ"], sot=gen.SOT,
                            model_kw=dict(max_nc=2, max_sys=2, nz=1), ocp_kw=dict(comp=False, path=False, cost=False, terminal=False),
                            extra=extra))


def strategy(tier):
    return strategy_(tier)


def check(spec, ctx):
    o = spec["opts"]
    answers = {}

    def script(k, c, nlp):
        return dict(x=answers[k])
    case = nlpcase.Case(spec, script=script, solve=False)
    P, solver = case.prob, case.solver
    ref = refnlp.Ref(spec, P)
    nfe = ref.o["Nfe_list"]
    N, total = len(nfe), sum(nfe)
    nw = len(P.w0)
    model_w = np.array(P.w0, float).copy()
    x0 = np.array(spec["x0"], float)
    pt = np.array(spec["pt_val"], float) if spec.get("pt_val") else None
    p = np.array(spec["p_val"], float) if spec.get("p_val") else None
    strat = o["initialization_strategy"]
    ext = strat == "EXTERNAL"
    solves = 0
    done = set()

    def xinds(i, f):
        return [np.array(ind, int) for ind in P.ind_x[i][f]]

    kept = []       # arrays of the caller and earlier results must not change

    def keep(what, v):
        if isinstance(v, np.ndarray):
            kept.append((what, v, v.copy()))
        elif isinstance(v, (list, tuple)):
            for q in v:
                keep(what, q)

    def do_set(field, val, warn):
        """warn: accepted, but announced with a Warning to be overwritten possibly"""
        keep("the value given to set(%r)" % field, val)
        with quiet():
            try:
                solver.set(field, val)
            except Warning:
                require(warn, lambda: f"set({field!r}) raised a Warning although the guess is used as it is")
            except Exception as e:  # noqa: BLE001
                fail(f"set({field!r}) raised {type(e).__name__}: {e}")

    def must_reject(field, val):
        with quiet():
            try:
                solver.set(field, val)
            except Exception:  # noqa: BLE001
                return
        fail(f"set({field!r}, value of shape {np.shape(val)}) was accepted")

    for step, (op, seed) in enumerate(spec["ops"]):
        rs = np.random.RandomState(seed + 100 * step)
        if op == "x0":
            x0 = rs.uniform(-2, 2, spec["nx"])
            do_set("x0", x0.copy(), False)
        elif op in ("x_stage", "x_fe"):
            val = rs.uniform(-2, 2, (N if op == "x_stage" else total, spec["nx"]))
            do_set("x", val, not ext)
            k = 0
            for i in range(N):
                for f in range(nfe[i]):
                    for ind in xinds(i, f):
                        model_w[ind] = val[i if op == "x_stage" else k]
                    k += 1
        elif op == "u":
            if not spec["nu"]:
                continue
            val = rs.uniform(-2, 2, (N, spec["nu"]))
            do_set("u", val, False)
            for i in range(N):
                model_w[np.array(P.ind_u[i], int)] = val[i]
        elif op == "v_global":
            if not spec["nv"]:
                continue
            val = rs.uniform(-2, 2, spec["nv"])
            do_set("v_global", val, False)
            model_w[np.array(refnlp._flat(P.ind_v_global), int)] = val
        elif op == "theta":
            if not ref.stewart:
                continue
            val = rs.uniform(0, 1, (total, sum(ref.nreg)))
            do_set("theta", val, False)
            k = 0
            for i in range(N):
                for f in range(nfe[i]):
                    for stage in P.ind_theta[i][f]:
                        model_w[np.array(refnlp._flat(stage), int)] = val[k]
                    k += 1
        elif op == "w":
            val = rs.uniform(-2, 2, nw)
            do_set("w", val, not ext)
            model_w = val.copy()
        elif op == "x_bad":
            bad = [r for r in (1, 2, 3, 4, 5, 6, 7, 8, 9) if r not in (N, total)]
            must_reject("x", rs.uniform(-2, 2, (bad[seed % len(bad)], spec["nx"])))
        elif op == "theta_bad":
            if ref.stewart:
                must_reject("theta", rs.uniform(0, 1, (total + 1 + seed % 2, sum(ref.nreg))))
        elif op == "unknown":
            must_reject(["y", "lam", "X0", "alpha", "h", "sot"][seed % 6], np.zeros(spec["nx"]))
        elif op == "p_global":
            if p is None:
                continue
            p = rs.uniform(-2, 2, spec["npg"])
            do_set("p_global", p.copy(), False)
        elif op == "p_time_var":
            if pt is None:
                continue
            pt = rs.uniform(-2, 2, (N, spec["npt"]))
            do_set("p_time_var", pt.copy(), False)
        else:
            k0 = len(case.nlp.calls)
            answers[k0] = nlpcase.random_points(P, spec, 1, seed + 7 * step)[0]
            case.solve()
            require(len(case.nlp.calls) == k0 + 1, lambda: f"{len(case.nlp.calls) - k0} subproblems for max_iter_homotopy = 1")
            call = case.nlp.calls[k0]
            exp = model_w.copy()
            if not ext:
                for i in range(N):
                    for f in range(nfe[i]):
                        for ind in xinds(i, f):
                            exp[ind] = x0
            bad = np.where(~np.isclose(call["x0"], exp, rtol=1e-13, atol=1e-13))[0]
            require(len(bad) == 0, lambda: f"solve {solves}: guess differs from the expected one at {bad[:8].tolist()}: "
                    f"{call['x0'][bad[:4]]} instead of {exp[bad[:4]]} (strategy {strat}, operations {[q[0] for q in spec['ops'][:step]]})")
            model_w = exp
            if strat == "ALL_XCURRENT_WOPT_PREV":
                model_w = answers[k0].copy()
            # initial state and parameters of the program
            r = refnlp.Ref(spec, P, x0=x0, p_val=p if p is not None else None, pt_val=pt)
            nlpcase.compare(spec, P, case.nlp, call, {"dyn"}, seed, ref=r, n_points=3)
            got = np.array(case.result["x_traj"][0], float).flatten()
            require(np.allclose(got, x0, rtol=1e-13), lambda: f"the reported trajectory starts at {got}, the initial state is {x0}")
            for key, v in case.result.items():
                keep(f"{key} of solve {solves}", v)
            solves += 1
        done.add(op)
        for what, v, old in kept:
            require(np.array_equal(v, old, equal_nan=v.dtype.kind == "f"), lambda: f"{what} was changed by {op}: {v} instead of {old}")
    ctx.label(strat, "solves=%d" % solves, *["op=" + d for d in done])
    ctx.nontrivial = solves > 1 or len(done) > 2

"""C19: equivalent formulations of one problem have the same solution."""
import copy
import random

import numpy as np
from hypothesis import strategies as st

from pbt import expr, gen, hgen, hybrid, irk, real
from pbt.checks import c18
from pbt.core import Inapplicable, Inconclusive, fail, require

BUDGET = dict(quick=dict(cases=572, seconds=150), thorough=dict(cases=6000, seconds=1500))

MODEL = ["regions", "flip", "scale_c", "subsystems", "states", "product", "tree", "gi", "g", "time", "clock", "lift", "const_p", "p_to_pt", "split"]
OPTION = ["pss", "rep", "cross", "init", "rule", "steq", "polish", "mpcc", "fix0"]


# every reformulation: (specification of kind "S", random numbers) -> specification; None: not applicable.
# spec["map"]: positions of the original states, spec["alpha"]: factor of the time axis
def exprs(spec, f):
    """apply f to all expressions of the model and the costs"""
    for y in spec["sys"]:
        for k in ("c", "g", "f"):
            if k in y:
                y[k] = [f(e) for e in y[k]]
        if "F" in y:
            y["F"] = [[f(e) for e in col] for col in y["F"]]
    if spec.get("g_z"):
        spec["g_z"] = [f(e) for e in spec["g_z"]]
    for k in ("f_q", "f_T"):
        if (spec.get("ocp") or {}).get(k) is not None:
            spec["ocp"][k] = f(spec["ocp"][k])


def regions(s, rnd):
    for y in s["sys"]:
        p = list(range(len(y["S"])))
        rnd.shuffle(p)
        y["S"], y["F"] = [y["S"][i] for i in p], [y["F"][i] for i in p]


def flip(s, rnd):
    for y in s["sys"]:
        for k in range(len(y["c"])):
            if rnd.random() < 0.7:
                y["c"][k] = ["-", y["c"][k]]
                y["S"] = [[-q if i == k else q for i, q in enumerate(r)] for r in y["S"]]


def scale_c(s, rnd):
    for y in s["sys"]:
        for k in range(len(y["c"])):
            y["c"][k] = ["*", rnd.choice([0.5, 2.0, 1.5]), y["c"][k]]


def subsystems(s, rnd):
    if len(s["sys"]) < 2:
        return False
    s["sys"] = s["sys"][::-1]


def states(s, rnd):
    n = s["nx"]
    if n < 2:
        return False
    p = list(range(n))                # new state i is the old state p[i]
    while p == list(range(n)):
        rnd.shuffle(p)
    inv = [p.index(i) for i in range(n)]
    exprs(s, lambda e: expr.rename(e, lambda v, i: [v, inv[i]] if v == "x" else [v, i]))
    for y in s["sys"]:
        y["F"] = [[col[q] for q in p] for col in y["F"]]
    s["x0"] = [s["x0"][q] for q in p]
    s["map"] = [inv[q] for q in s["map"]]


def product(s, rnd):
    """several independent subsystems as a single one"""
    if len(s["sys"]) < 2:
        return False
    a, b = s["sys"][:2]
    S, F = [], []
    for r, f in zip(a["S"], a["F"]):
        for q, g in zip(b["S"], b["F"]):
            S.append(list(r) + list(q))
            F.append([["+", u, v] for u, v in zip(f, g)])
    s["sys"] = [dict(c=a["c"] + b["c"], S=S, F=F)] + s["sys"][2:]


def tree(s, rnd):
    """don't care entries expanded into one region for each sign"""
    if not any(0 in r for y in s["sys"] for r in y["S"]):
        return False
    for y in s["sys"]:
        while any(0 in r for r in y["S"]):
            i = next(i for i, r in enumerate(y["S"]) if 0 in r)
            k = y["S"][i].index(0)
            rows = [[q if j != k else sg for j, q in enumerate(y["S"][i])] for sg in (1, -1)]
            y["S"] = y["S"][:i] + rows + y["S"][i + 1:]
            y["F"] = y["F"][:i] + [y["F"][i], copy.deepcopy(y["F"][i])] + y["F"][i + 1:]


def split(s, rnd):
    """one region cut in two by a further switching function, with the same field on both sides"""
    y = s["sys"][0]
    if len(y["c"]) > 1 or 0 in [q for r in y["S"] for q in r]:
        return False
    j = rnd.randrange(s["nx"])
    y["c"] = y["c"] + [["+", rnd.choice([3.5, -4.0, 7.0]), ["*", 0.3, ["x", j]]]]
    y["S"] = [list(r) + [q] for r in y["S"] for q in (1, -1)]
    y["F"] = [copy.deepcopy(f) for f in y["F"] for _ in (1, -1)]


def gi(s, rnd):
    n, na = s["nx"], 0
    if n < len(s["sys"]):
        return False
    total = [["+", 0.0] for _ in range(n)]
    for y in s["sys"]:
        for r, f in zip(y["S"], y["F"]):
            w = ["*", 1.0] + [["a", na + k] if q > 0 else ["-", 1.0, ["a", na + k]] for k, q in enumerate(r) if q != 0]
            for i in range(n):
                if f[i] != 0.0:
                    total[i].append(w + [f[i]])
        na += len(y["c"])
    cuts = [1] * (len(s["sys"]) - 1) + [n - len(s["sys"]) + 1]
    off = 0
    for k, y in enumerate(s["sys"]):
        del y["S"], y["F"]
        y["f"] = total[off:off + cuts[k]]
        off += cuts[k]
    s["kind"] = "gi"


def g(s, rnd):
    if any(0 in r for y in s["sys"] for r in y["S"]):
        return False
    for y in s["sys"]:
        y["g"] = [["+", 0.0] + [["*", -float(q), c] for q, c in zip(r, y["c"])] for r in y["S"]]
        del y["S"], y["c"]
    s["kind"] = "g"


def time(s, rnd):
    a = rnd.choice([0.5, 2.0, 0.8, 1.6])
    s["alpha"] *= a
    for y in s["sys"]:
        y["F"] = [[["*", a, e] for e in col] for col in y["F"]]
    if (s.get("ocp") or {}).get("f_q") is not None:
        s["ocp"]["f_q"] = ["*", a, s["ocp"]["f_q"]]
    s["opts"]["terminal_time"] /= a


def clock(s, rnd):
    """a further state that does not influence the others"""
    n = s["nx"]
    for k, y in enumerate(s["sys"]):
        for f in y["F"]:
            f.append(rnd.choice([1.0, 0.5]) if k == 0 else 0.0)
    s["nx"] = n + 1
    s["x0"] = s["x0"] + [rnd.choice([0.0, -0.3])]
    if rnd.random() < 0.5:
        for y in s["sys"]:
            for f in y["F"]:
                f.insert(0, f.pop())
        exprs(s, lambda e: expr.rename(e, lambda v, i: [v, i + 1] if v == "x" else [v, i]))
        s["x0"] = s["x0"][-1:] + s["x0"][:-1]
        s["map"] = [q + 1 for q in s["map"]]


def lift(s, rnd):
    """a part of the right-hand side as algebraic variable"""
    y = s["sys"][rnd.randrange(len(s["sys"]))]
    todo = [(i, k) for i, f in enumerate(y["F"]) for k in range(s["nx"]) if not isinstance(f[k], float)]
    if s["nz"] or not todo:
        return False
    i, k = rnd.choice(todo)
    s["nz"], s["g_z"] = 1, [["-", ["z", 0], y["F"][i][k]]]
    if rnd.random() < 0.5:
        s["g_z"] = [["*", -2.0, s["g_z"][0]]]
    s["lifted"] = y["F"][i][k]
    y["F"][i][k] = ["z", 0]


def const_p(s, rnd):
    if not s["npg"]:
        return False
    exprs(s, lambda e: expr.subst(e, dict(p=s["p_val"])))
    s["npg"], s["p_val"] = 0, []


def p_to_pt(s, rnd):
    if not s["npg"] or s["npt"]:
        return False
    exprs(s, lambda e: expr.rename(e, lambda v, i: ["pt", i] if v == "p" else [v, i]))
    s["npt"], s["pt_val"] = s["npg"], [s["p_val"]]
    s["npg"], s["p_val"] = 0, []


def option(name, s, rnd):
    o = s["opts"]
    if name == "pss":
        if s["kind"] != "S" or any(0 in r for y in s["sys"] for r in y["S"]):
            return False
        o["pss_mode"] = "STEP" if o["pss_mode"] == "STEWART" else "STEWART"
    elif name == "rep":
        o["irk_representation"] = rnd.choice([r for r in gen.REPS if r != o["irk_representation"]])
    elif name == "cross":
        o["cross_comp_mode"] = gen.CROSS[1 - gen.CROSS.index(o["cross_comp_mode"])]
    elif name == "init":
        o["initialization_strategy"] = rnd.choice(["ALL_XCURRENT_WOPT_PREV", "ALL_XCURRENT_W0_START"])
    elif name == "rule":
        o["homotopy_update_rule"] = "SUPERLINEAR" if o["homotopy_update_rule"] == "LINEAR" else "LINEAR"
    elif name == "steq":
        o["step_equilibration"] = "HEURISTIC_MEAN" if o["step_equilibration"] == "HEURISTIC_DELTA" else "HEURISTIC_DELTA"
        o["rho_h"] = 1.0
    elif name == "mpcc":
        o["mpcc_mode"] = "SCHOLTES_EQ" if o["mpcc_mode"] == "SCHOLTES_INEQ" else "SCHOLTES_INEQ"
    elif name == "polish":
        o["do_polishing_step"] = True
    elif name == "fix0":
        o["fix_active_set_fe0"] = True


@st.composite
def strategy_(draw, tier):
    T = draw(st.sampled_from([1.0, 1.5, 0.7, 2.0]))
    spec = draw(hgen.eventful(T, leave=draw(st.booleans()), pt_c=True))
    spec["opts"] = draw(hgen.solver_opts(spec, n_s=(1, 3)))
    spec["T"] = T
    spec["extra"] = draw(st.sampled_from([1, 1, 2]))
    nx = spec["nx"]
    if draw(st.integers(0, 2)) == 0:
        spec["ocp"] = dict(f_q=draw(c18.smooth(gen.allvars(spec, ["x"]), 0, nx)), f_T=draw(c18.smooth(gen.allvars(spec, ["x"]), 0, nx)))
        if draw(st.booleans()):
            del spec["ocp"][draw(st.sampled_from(["f_q", "f_T"]))]
    spec["rseed"] = draw(st.integers(0, 99999))
    rnd = random.Random(spec["rseed"] + 17)
    names = rnd.sample(MODEL, len(MODEL))
    if draw(st.integers(0, 3)) == 0:
        names = rnd.sample(OPTION, len(OPTION)) + names
    # the first ones that apply to this system
    spec["how"] = []
    for name in names:
        if len(reformulate(dict(spec, how=spec["how"] + [name]))[1]) > len(spec["how"]):
            spec["how"].append(name)
        if len(spec["how"]) == 1 + spec["rseed"] % 3:
            break
    return spec


def strategy(tier):
    return strategy_(tier)


def reformulate(spec, ctx=None):
    rnd = random.Random(spec["rseed"])
    b = copy.deepcopy(spec)
    b["opts"].setdefault("terminal_time", 1.0)
    b["map"], b["alpha"] = list(range(spec["nx"])), 1.0
    done = []
    # the forms that are not of kind "S" any more come last
    for name in sorted(spec["how"], key=lambda q: (q in ("g", "gi", "pss"), q in ("gi", "pss"), q == "gi")):
        if name in OPTION:
            ok = option(name, b, rnd)
        elif b["kind"] != "S":
            continue
        else:
            ok = globals()[name](b, rnd)
        if ok is not False:
            done.append(name)
    dontcare = any(0 in r for y in b["sys"] for r in y.get("S", []))
    if b["kind"] == "gi" or dontcare:
        b["opts"]["pss_mode"] = "STEP"
    if b["kind"] == "g":
        b["opts"]["pss_mode"] = "STEWART"
    return b, done


def penalty(o, hs, T):
    if not o["use_fesd"]:
        return 0.0
    if o["step_equilibration"] == "HEURISTIC_MEAN":
        return o["rho_h"] * sum((h - T / len(hs))**2 for h in hs)
    if o["step_equilibration"] == "HEURISTIC_DELTA":
        return o["rho_h"] * sum((hs[k] - hs[k - 1])**2 for k in range(1, len(hs)))
    return None


def reference(H, x, hs, xs, modes, n_s, scheme, oc, X):
    """cost along the reported trajectory"""
    q = (lambda y: expr.ev(oc["f_q"], H.env(y))) if oc.get("f_q") is not None else None
    x = np.array(x, float)
    cost = 0.0
    for k, h in enumerate(hs):
        if modes[k] is None:
            x = xs[k]
            continue
        if q is not None:
            step = irk.given_step(lambda y: H.f(y, modes[k]), x, X[k], h, n_s, scheme, q=q)
            cost += (step or H.irk(x, modes[k], h, n_s, scheme, q=q, K0=(xs[k] - x) / h))[2]
        x = xs[k]
    if oc.get("f_T") is not None:
        cost += expr.ev(oc["f_T"], H.env(x))
    return cost


def run(b, n_fe, ctx):
    b = copy.deepcopy(b)
    solver = real.make_solver(b, n_fe, b["opts"]["terminal_time"])
    r = real.solve(solver, ctx)
    a = b.get("alpha", 1.0)
    hs = a * np.array(r["time_steps"], float).flatten()
    xs = [np.array(q, float).flatten()[b["map"]] for q in r["x_list"]]
    pen = penalty(b["opts"], hs / a, b["opts"]["terminal_time"])
    cost = None if pen is None else float(np.array(r["cost_val"]).flatten()[0]) - pen
    return hs, xs, cost, hybrid.stage_values(solver, r, b["x0"], hs / a, b["map"])


def check(spec, ctx):
    T = spec["T"]
    H = hybrid.Hybrid(spec, p=spec.get("p_val") or (), pt=(spec.get("pt_val") or [()])[0])
    events, xT, margin, _ = H.simulate(spec["x0"], T, min_gap=0.08 * T)
    te = [e[0] for e in events]
    if any(min(t, T - t) < 0.08 * T for t in te) or margin < 0.02:
        raise Inapplicable("switch at the border of the horizon")
    n_fe = len(te) + spec["extra"]
    if n_fe > 5:
        raise Inapplicable("too many switches")
    a = copy.deepcopy(spec)
    a["opts"]["terminal_time"] = T
    a["map"] = list(range(spec["nx"]))
    b, done = reformulate(a)
    if not done:
        raise Inapplicable("no reformulation applies")
    o = spec["opts"]
    oc = spec["ocp"] or {}
    out = []
    for name, p in (("original", a), ("reformulation", b)):
        hs, xs, cost, X = run(p, n_fe, ctx)
        try:
            modes = H.walk(spec["x0"], hs, o["n_s"], o["irk_scheme"], xs, X=X)
        except hybrid.Missed as e:
            fail(f"{name} {done}: {e}; steps {hs}, states {[q.tolist() for q in xs]}, exact switch times {te}")
        if cost is not None:
            ref = reference(H, spec["x0"], hs, xs, modes, o["n_s"], o["irk_scheme"], oc, X)
            require(abs(cost - ref) <= 1e-4 * (1 + abs(ref)), lambda: f"{name} {done}: cost {cost}, along the original fields {ref}; steps {hs}")
        out.append((hs, xs, modes, cost))
        ctx.solved += 1
    (ha, xa, ma, ca), (hb, xb, mb, cb) = out
    same = ma == mb and np.max(np.abs(ha - hb)) < 1e-4
    tol = 1e-3 if same or spec["level"] == 0 else 1e-3 + 4 * max(np.max(np.abs(xa[-1] - xT)), np.max(np.abs(xb[-1] - xT)))
    require(np.max(np.abs(xa[-1] - xb[-1])) <= tol, lambda: f"{done}: end states {xa[-1]} and {xb[-1]} (exact {xT})")
    if same and ca is not None and cb is not None:
        require(abs(ca - cb) <= 2e-3 * (1 + abs(ca)), lambda: f"{done}: costs {ca} and {cb}")
    ga, gb = (np.cumsum(h) for h in (ha, hb))
    if spec["level"] == 0:
        for t in te:
            require(min(abs(ga - t)) < 1e-4 and min(abs(gb - t)) < 1e-4, lambda: f"{done}: switch time {t} is not in both grids {ga}, {gb}")
    ctx.label(*done, *(["same grid"] if same else ["other grid"]), "events=%d" % len(te), "cost=%s" % bool(oc), b["opts"]["pss_mode"], "kind=" + b["kind"])
    ctx.nontrivial = len(te) > 0 or len(spec["sys"]) > 1

"""Independent reference of the nonlinear program that has to be generated for a problem specification.

Everything is computed numerically, point-wise, from the specification and the values of the primal variables,
which are read through the index lists of the problem (their meaning, not their position, is used).
"""
import numpy as np

from pbt import expr, irk
from pbt.core import Inapplicable

DUAL_NONNEG = ("SCHOLTES_EQ", "SCHOLTES_INEQ", "ELASTIC_INEQ", "ELASTIC_EQ")
ELASTIC = ("ELASTIC_INEQ", "ELASTIC_EQ", "ELASTIC_TWO_SIDED")
BIGM = 1e5

DEFAULTS = dict(terminal_time=1.0, use_fesd=True, irk_representation="INTEGRAL", n_s=2, irk_scheme="RADAU_IIA",
                cross_comp_mode="SUM_LAMBDAS_COMPLEMENT_WITH_EVERY_THETA", mpcc_mode="SCHOLTES_INEQ",
                constraint_handling="EXACT", pss_mode="STEWART", gamma_h=1.0, N_finite_elements=2, Nfe_list=[],
                comp_tol=1e-8, sigma_0=1.0, sigma_N=1e-8, step_equilibration="HEURISTIC_DELTA",
                step_equilibration_sigma=0.1, rho_h=1.0, fb_ip_aug1_weight=1.0, fb_ip_aug2_weight=0.1, N_stages=1,
                equidistant_control_grid=True, g_path_at_fe=False, g_path_at_stg=False, s_elastic_0=1.0,
                s_elastic_max=10.0, s_elastic_min=0.0, objective_scaling_direct=True, time_freezing=False,
                time_freezing_tolerance=1e-3, speed_of_time_variables="NONE", speed_of_time_min=1.0,
                speed_of_time_max=25.0, rootfinder_for_initial_z=False, homotopy_update_slope=0.1,
                homotopy_update_exponent=1.5, homotopy_update_rule="LINEAR", max_iter_homotopy=0)


def full_opts(o):
    d = dict(DEFAULTS)
    d.update(o)
    if not d["Nfe_list"]:
        d["Nfe_list"] = [d["N_finite_elements"]] * d["N_stages"]
    return d


def explicit(o):
    return o["irk_scheme"] == "RADAU_IIA"


class Ref:

    def __init__(self, spec, prob, sigma=None, tau=None, x0=None, p_val=None, pt_val=None, lambda00=None, z_init=None):
        self.spec = spec
        self.o = full_opts(spec["opts"])
        self.prob = prob
        self.sigma = self.o["sigma_0"] if sigma is None else sigma
        self.tau = min(self.sigma ** 1.5, self.sigma) if tau is None else tau
        self.x0 = np.array(spec["x0"] if x0 is None else x0, float)
        self.p = list(spec.get("p_val", []) if p_val is None else p_val)
        npt = spec.get("npt", 0)
        pt = spec.get("pt_val") if pt_val is None else pt_val
        self.pt = np.zeros((self.o["N_stages"], npt)) if pt is None else np.array(pt, float).reshape(-1, npt)
        self.nsys = len(spec["sys"])
        self.kind = spec.get("kind", "S")
        self.pss = self.o["pss_mode"]
        self.stewart = self.pss == "STEWART"
        self.nreg = [len(y["F"]) if "F" in y else 0 for y in spec["sys"]]
        self.nc = [len(y["c"]) if "c" in y else 0 for y in spec["sys"]]
        self.z_init = z_init
        self._l00 = lambda00

    # ---- model pieces
    def env(self, x, u, z, i, v, a=()):
        return dict(x=x, u=u, z=z, p=self.p, pt=self.pt[i] if self.pt.size else (), v=v, a=a)

    def g_ind(self, s, env):
        y = self.spec["sys"][s]
        if self.kind == "g":
            return np.array([expr.ev(e, env) for e in y["g"]])
        c = np.array([expr.ev(e, env) for e in y["c"]])
        return -np.array(y["S"], float) @ c

    def c_val(self, s, env):
        return np.array([expr.ev(e, env) for e in self.spec["sys"][s]["c"]])

    def weights(self, s, alg):
        """multipliers of the regions of subsystem s"""
        if self.stewart:
            return alg["theta"][s]
        S = np.array(self.spec["sys"][s]["S"], float)
        a = alg["alpha"][s]
        out = np.ones(S.shape[0])
        for j in range(S.shape[0]):
            for k in range(S.shape[1]):
                if S[j, k] != 0:
                    out[j] *= a[k] if S[j, k] > 0 else 1 - a[k]
        return out

    def fx(self, env, alg):
        if self.kind == "gi":
            env = dict(env, a=np.concatenate(alg["alpha"]))
            return np.array([expr.ev(e, env) for y in self.spec["sys"] for e in y["f"]])
        f = np.zeros(self.spec["nx"])
        for s, y in enumerate(self.spec["sys"]):
            F = np.array([[expr.ev(e, env) for e in col] for col in y["F"]])
            f += self.weights(s, alg) @ F
        return f

    def switching(self, env, alg):
        out = []
        for s in range(self.nsys):
            if self.stewart:
                out += list(self.g_ind(s, env) - alg["lam"][s] + alg["mu"][s])
            else:
                out += list(self.c_val(s, env) - alg["lp"][s] + alg["ln"][s])
        return out

    def lambda00(self):
        if self._l00 is not None:
            return self._l00
        z = self.z0()
        env = self.env(self.x0, [], z, 0, [])
        if self.stewart:
            out = [g - g.min() for g in (self.g_ind(s, env) for s in range(self.nsys))]
            return np.concatenate(out)
        cs = [self.c_val(s, env) for s in range(self.nsys)]
        return np.concatenate([np.maximum(-c, 0) for c in cs] + [np.maximum(c, 0) for c in cs])

    def z0(self):
        if self.z_init is not None:
            return self.z_init
        nz = self.spec.get("nz", 0)
        z0 = self.spec.get("z0")
        return [0.0] * nz if z0 is None else z0

    # ---- primal variables
    def algebraics(self, w, i, f, k):
        P = self.prob

        def get(ind):
            return [w[ind[i][f][k][s]] for s in range(self.nsys)]
        boundary = k == self.o["n_s"] or (k == -1 and len(P.ind_lam[i][f]) > self.o["n_s"])
        if self.stewart:
            return dict(theta=None if boundary else get(P.ind_theta), lam=get(P.ind_lam), mu=[float(m[0]) for m in get(P.ind_mu)])
        return dict(alpha=None if boundary else get(P.ind_alpha), ln=get(P.ind_lambda_n), lp=get(P.ind_lambda_p))

    def Theta(self, w, i, f, k):
        a = self.algebraics(w, i, f, k)
        if self.stewart:
            return np.concatenate(a["theta"])
        al = np.concatenate(a["alpha"])
        return np.concatenate((al, 1 - al))

    def Lambda(self, w, i, f, k):
        a = self.algebraics(w, i, f, k)
        if self.stewart:
            return np.concatenate(a["lam"])
        return np.concatenate(a["ln"] + a["lp"])

    def prev(self, i, f):
        if f > 0:
            return i, f - 1
        if i > 0:
            return i - 1, self.o["Nfe_list"][i - 1] - 1
        return None

    def n_lambda_points(self, i, f):
        return self.o["n_s"] + int(self.boundary(i, f))

    def boundary(self, i, f):
        return self.o["use_fesd"] and not explicit(self.o) and f < self.o["Nfe_list"][i] - 1

    def Lambda_last(self, w, pf):
        return self.lambda00() if pf is None else self.Lambda(w, pf[0], pf[1], self.n_lambda_points(*pf) - 1)

    def h(self, w, i, f):
        if self.o["use_fesd"]:
            return w[self.h_index(i, f)]
        return self.o["terminal_time"] / self.o["N_stages"] / self.o["Nfe_list"][i]

    def h_index(self, i, f):
        return self.prob.ind_h[sum(self.o["Nfe_list"][:i]) + f]

    def x_end(self, w, pf):
        return self.x0 if pf is None else w[self.prob.ind_x[pf[0]][pf[1]][-1]]

    def stage_x(self, w, i, f):
        o, P = self.o, self.prob
        if o["irk_representation"] == "DIFFERENTIAL":
            A, b, c = irk.butcher(o["n_s"], o["irk_scheme"])
            x0 = self.x_end(w, self.prev(i, f))
            V = np.array([w[P.ind_v[i][f][k]] for k in range(o["n_s"])])
            return x0 + self.h(w, i, f) * A @ V
        return np.array([w[P.ind_x[i][f][k]] for k in range(o["n_s"])])

    def u(self, w, i):
        return w[self.prob.ind_u[i]] if self.spec.get("nu", 0) else []

    def v(self, w):
        return w[self.prob.ind_v_global[0]] if self.spec.get("nv", 0) else []

    def z(self, w, i, f, k):
        return w[self.prob.ind_z[i][f][k]] if self.spec.get("nz", 0) else []

    def sot(self, w, i):
        m = self.o["speed_of_time_variables"]
        if m == "NONE":
            return 1.0
        return float(w[self.prob.ind_sot[i if m == "LOCAL" else 0]][0])

    def s_el(self, w):
        return float(w[self.prob.ind_elastic[0]][0]) if self.o["mpcc_mode"] in ELASTIC else None

    def w_bool(self, w, i, f):
        """common value of the binaries of an element (the random points use one value per element)"""
        from nosnoc.utils import flatten
        ind = _flat(self.prob.ind_bool[i][f])
        return float(w[ind[0]]) if len(ind) else 0.5

    # ---- relaxations
    def comp(self, out, tag, xs, y, w, zb):
        m, s = self.o["mpcc_mode"], self.sigma
        xs = [np.asarray(x, float) for x in xs]
        y = np.asarray(y, float)
        X = sum(xs)
        for j in range(len(y)):
            if m in ("SCHOLTES_EQ", "SCHOLTES_INEQ"):
                out.append((tag, "eq" if m == "SCHOLTES_EQ" else "le", X[j] * y[j] - s))
            elif m in ("ELASTIC_EQ", "ELASTIC_INEQ"):
                out.append((tag, "eq" if m == "ELASTIC_EQ" else "le", X[j] * y[j] - self.s_el(w)))
            elif m == "ELASTIC_TWO_SIDED":
                out.append((tag, "le", X[j] * y[j] - self.s_el(w)))
                out.append((tag, "le", -(X[j] * y[j] + self.s_el(w))))
            elif m in ("FISCHER_BURMEISTER", "FISCHER_BURMEISTER_IP_AUG"):
                fb = sum(x[j] + y[j] - np.sqrt(x[j] ** 2 + y[j] ** 2 + s ** 2) for x in xs)
                out.append((tag, "eq", fb))
                if m == "FISCHER_BURMEISTER_IP_AUG":
                    x = xs[0][j]
                    w1, w2 = self.o["fb_ip_aug1_weight"], self.o["fb_ip_aug2_weight"]
                    out.append((tag, "eq", w1 * (x - s) * np.sqrt(self.tau)))
                    out.append((tag, "eq", w1 * (y[j] - s) * np.sqrt(self.tau)))
                    out.append((tag, "eq", w2 * fb * np.sqrt(1 + (x - y[j]) ** 2)))
            elif m == "BOOLEAN":
                out.append((tag, "le", y[j] - BIGM * zb))
                out.append((tag, "le", -y[j] - BIGM * zb))
                out.append((tag, "le", X[j] - BIGM * (1 - zb)))
                out.append((tag, "le", -X[j] - BIGM * (1 - zb)))
            else:
                raise ValueError(m)

    def pair_class(self, a, b):
        vs = expr.variables(a) | expr.variables(b)
        # terms that cancel (x - x): whether the pair "depends" on them is a matter of taste
        rng = np.random.default_rng(5)
        env = {}
        for v, i in vs:
            env.setdefault(v, {})[i] = rng.uniform(-1, 1)
        base = expr.ev(a, env), expr.ev(b, env)
        effective = set()
        for v, i in vs:
            moved = dict(env)
            moved[v] = dict(env[v])
            moved[v][i] += 0.37
            if max(abs(expr.ev(a, moved) - base[0]), abs(expr.ev(b, moved) - base[1])) > 1e-9:
                effective.add(v)

        def name(kinds):
            return "rk" if kinds & {"x", "z"} else "ctrl" if kinds & {"u", "pt"} else "global"
        if name(effective) != name({v for v, _ in vs}):
            raise Inapplicable("a term of a path complementarity cancels")
        return name(effective)

    # ---- the program
    def entries(self, w):
        """list of (tag, 'eq'|'le', value): value == 0 or value <= 0"""
        o, spec, P = self.o, self.spec, self.prob
        out = []
        ns, scheme, rep = o["n_s"], o["irk_scheme"], o["irk_representation"]
        A, b, c = irk.butcher(ns, scheme)
        C, D, B = irk.integral_form(ns, scheme)
        ocp = spec.get("ocp") or {}
        comps = ocp.get("comp") or []
        cls = [self.pair_class(*ab) for ab in comps]
        T, N = o["terminal_time"], o["N_stages"]
        v = self.v(w)
        for i in range(N):
            u = self.u(w, i)
            sot = self.sot(w, i)
            nfe = o["Nfe_list"][i]
            for f in range(nfe):
                pf = self.prev(i, f)
                xp = self.x_end(w, pf)
                h = self.h(w, i, f)
                X = self.stage_x(w, i, f)
                xe_var = w[P.ind_x[i][f][-1]]
                zb = self.w_bool(w, i, f)
                algs = [self.algebraics(w, i, f, k) for k in range(ns)]
                envs = [self.env(X[k], u, self.z(w, i, f, k), i, v) for k in range(ns)]
                V = None if rep == "INTEGRAL" else np.array([w[P.ind_v[i][f][k]] for k in range(ns)])
                for k in range(ns):
                    fk = sot * self.fx(envs[k], algs[k])
                    if rep == "INTEGRAL":
                        r = h * fk - (C[0, k + 1] * xp + sum(C[q + 1, k + 1] * X[q] for q in range(ns)))
                    else:
                        r = fk - V[k]
                    out += [("dyn", "eq", t) for t in r]
                    if rep == "DIFFERENTIAL_LIFT_X":
                        out += [("dyn", "eq", t) for t in X[k] - (xp + h * A[k] @ V)]
                    out += [("alg", "eq", t) for t in self.switching(envs[k], algs[k])]
                    if self.stewart:
                        out += [("alg", "eq", algs[k]["theta"][s].sum() - 1) for s in range(self.nsys)]
                    out += [("alg", "eq", expr.ev(e, envs[k])) for e in spec.get("g_z", [])]
                # end point
                if rep == "INTEGRAL":
                    xe = D[0] * xp + sum(D[q + 1] * X[q] for q in range(ns))
                else:
                    xe = xp + h * b @ V
                if rep == "DIFFERENTIAL" or not explicit(o):
                    out += [("dyn", "eq", t) for t in xe - xe_var]
                # switching conditions at the right boundary point
                if self.boundary(i, f):
                    # user algebraic variables at the boundary point: those of the last stage
                    env = self.env(xe_var, u, self.z(w, i, f, ns - 1), i, v)
                    out += [("alg", "eq", t) for t in self.switching(env, self.algebraics(w, i, f, ns))]
                # user path constraints
                pts = []
                last = f == nfe - 1
                end_added = last or o["g_path_at_fe"]
                if end_added:
                    # with a stage at the right end point, this stage is the end point
                    pts.append(X[ns - 1] if explicit(o) else xe_var)
                if o["g_path_at_stg"]:
                    pts += [X[k] for k in range(ns - (1 if explicit(o) and end_added else 0))]
                for x in pts:
                    env = self.env(x, u, [], i, v)
                    for j, e in enumerate(ocp.get("g_path") or []):
                        g = expr.ev(e, env)
                        lb = 0.0 if ocp.get("lbg") is None else ocp["lbg"][j]
                        ub = 0.0 if ocp.get("ubg") is None else ocp["ubg"][j]
                        if lb == ub:
                            out.append(("path", "eq", g - lb))
                        else:
                            if abs(lb) < 1e300:
                                out.append(("path", "le", lb - g))
                            if abs(ub) < 1e300:
                                out.append(("path", "le", g - ub))
                # path complementarities
                for k in range(ns):
                    for (a_, b_), cl in zip(comps, cls):
                        if cl == "rk":
                            self.comp(out, "pcomp", [[expr.ev(a_, envs[k])]], [expr.ev(b_, envs[k])], w, zb)
                if last:
                    env = self.env([], u, [], i, v)
                    for (a_, b_), cl in zip(comps, cls):
                        if cl == "ctrl":
                            self.comp(out, "pcomp", [[expr.ev(a_, env)]], [expr.ev(b_, env)], w, zb)
                # cross complementarities
                nl = self.n_lambda_points(i, f)
                if not o["use_fesd"]:
                    for k in range(ns):
                        self.comp(out, "comp", [self.Lambda(w, i, f, k)], self.Theta(w, i, f, k), w, zb)
                else:
                    lamp = self.Lambda_last(w, pf)
                    t0 = "comp0" if pf is None else "comp"
                    for k in range(ns):
                        th = self.Theta(w, i, f, k)
                        if o["cross_comp_mode"] == "COMPLEMENT_ALL_STAGE_VALUES_WITH_EACH_OTHER":
                            self.comp(out, t0, [th], lamp, w, zb)
                            for kk in range(nl):
                                self.comp(out, "comp", [th], self.Lambda(w, i, f, kk), w, zb)
                        else:
                            self.comp(out, t0, [self.Lambda(w, i, f, kk) for kk in range(nl)] + [lamp], th, w, zb)
                # step equilibration constraints
                if o["use_fesd"] and f > 0 and o["step_equilibration"] in ("DIRECT", "DIRECT_COMPLEMENTARITY", "HEURISTIC_DELTA_H_COMP"):
                    dh = h - self.h(w, i, f - 1)
                    if o["step_equilibration"] == "DIRECT":
                        out.append(("steq", "eq", self.nu(w, i, f) * dh))
                    elif o["step_equilibration"] == "DIRECT_COMPLEMENTARITY":
                        self.comp(out, "steq", [[self.nu(w, i, f)]], [dh], w, zb)
                    else:
                        self.comp(out, "steq", [[0.0]], [dh], w, zb)
            if o["use_fesd"] and o["equidistant_control_grid"]:
                out.append(("grid", "eq", sum(self.h(w, i, f) for f in range(nfe)) - T / N))
            if o["time_freezing"] and o["equidistant_control_grid"]:
                t = expr.ev(spec["t_var"], dict(x=w[P.ind_x[i][nfe - 1][-1]]))
                t0 = expr.ev(spec["t_var"], dict(x=self.x0))
                d = t - t0 - T / N * (i + 1)
                out.append(("grid", "le", d - o["time_freezing_tolerance"]))
                out.append(("grid", "le", -d - o["time_freezing_tolerance"]))
        # global complementarities: binaries of these are not attached to an element
        env = dict(p=self.p, v=v)
        for (a_, b_), cl in zip(comps, cls):
            if cl == "global":
                self.comp(out, "pcomp", [[expr.ev(a_, env)]], [expr.ev(b_, env)], w, 0.5)
        env = self.env(self.x_end(w, (N - 1, o["Nfe_list"][-1] - 1)), [], [], N - 1, v)
        out += [("term", "eq", expr.ev(e, env)) for e in ocp.get("g_T") or []]
        if o["use_fesd"] and not o["equidistant_control_grid"]:
            out.append(("grid", "eq", sum(self.h(w, i, f) for i in range(N) for f in range(o["Nfe_list"][i])) - T))
        return out

    def sum_lambda(self, w, i, f):
        lam = [self.Lambda(w, i, f, k) for k in range(self.n_lambda_points(i, f))]
        return sum(lam) + self.Lambda_last(w, self.prev(i, f))

    def sum_theta(self, w, i, f):
        return sum(self.Theta(w, i, f, k) for k in range(self.o["n_s"]))

    def nu(self, w, i, f):
        eta = self.sum_lambda(w, i, f - 1) * self.sum_lambda(w, i, f) + self.sum_theta(w, i, f - 1) * self.sum_theta(w, i, f)
        return float(np.prod(eta))

    def cost(self, w):
        """dict of cost parts"""
        o, spec = self.o, self.spec
        ocp = spec.get("ocp") or {}
        A, b, c = irk.butcher(o["n_s"], o["irk_scheme"])
        part = dict(quad=0.0, term=0.0, steq=0.0, elastic=0.0)
        v = self.v(w)
        for i in range(o["N_stages"]):
            u, sot = self.u(w, i), self.sot(w, i)
            for f in range(o["Nfe_list"][i]):
                h = self.h(w, i, f)
                if ocp.get("f_q") is not None:
                    X = self.stage_x(w, i, f)
                    for k in range(o["n_s"]):
                        part["quad"] += h * b[k] * sot * expr.ev(ocp["f_q"], self.env(X[k], u, [], i, v))
                if o["use_fesd"]:
                    m, rho = o["step_equilibration"], o["rho_h"]
                    if m == "HEURISTIC_MEAN":
                        part["steq"] += rho * (h - o["terminal_time"] / (o["N_stages"] * o["Nfe_list"][i])) ** 2
                    elif f > 0:
                        dh = h - self.h(w, i, f - 1)
                        if m == "HEURISTIC_DELTA":
                            part["steq"] += rho * dh ** 2
                        elif m == "L2_RELAXED_SCALED":
                            part["steq"] += rho * np.tanh(self.nu(w, i, f) / o["step_equilibration_sigma"]) * dh ** 2
                        elif m == "L2_RELAXED":
                            part["steq"] += rho * self.nu(w, i, f) * dh ** 2
        if ocp.get("f_T") is not None:
            N = o["N_stages"]
            env = self.env(self.x_end(w, (N - 1, o["Nfe_list"][-1] - 1)), [], [], N - 1, v)
            part["term"] += expr.ev(ocp["f_T"], env)
        return part

    def total_cost(self, w):
        part = self.cost(w)
        c = sum(part.values())
        if self.o["mpcc_mode"] in ELASTIC:
            s = self.s_el(w)
            c = c + s / self.sigma if self.o["objective_scaling_direct"] else self.sigma * c + s
        return c

    def residual(self, w):
        """largest complementarity product"""
        o = self.o
        r = -np.inf
        for i in range(o["N_stages"]):
            for f in range(o["Nfe_list"][i]):
                for k in range(o["n_s"]):
                    th = self.Theta(w, i, f, k)
                    if o["use_fesd"]:
                        r = max(r, np.max(th * self.Lambda_last(w, self.prev(i, f))))
                        for kk in range(self.n_lambda_points(i, f)):
                            r = max(r, np.max(th * self.Lambda(w, i, f, kk)))
                    else:
                        r = max(r, np.max(th * self.Lambda(w, i, f, k)))
        return r

    def n_bool(self, i, f):
        """number of binaries of an element"""
        o = self.o
        if o["mpcc_mode"] != "BOOLEAN":
            return 0
        comps = (self.spec.get("ocp") or {}).get("comp") or []
        cls = [self.pair_class(*ab) for ab in comps]
        nth = sum(self.nreg) if self.stewart else 2 * sum(self.nc)
        n = o["n_s"] * cls.count("rk") + (cls.count("ctrl") if f == o["Nfe_list"][i] - 1 else 0)
        if not o["use_fesd"] or o["cross_comp_mode"].startswith("SUM"):
            n += o["n_s"] * nth
        else:
            n += o["n_s"] * (self.n_lambda_points(i, f) + 1) * nth
        if o["use_fesd"] and f > 0 and o["step_equilibration"] in ("DIRECT_COMPLEMENTARITY", "HEURISTIC_DELTA_H_COMP"):
            n += 1
        return n

    # ---- bounds and guesses: list of (kind, indices, lb, ub, guess)
    def variables(self):
        o, spec, P = self.o, self.spec, self.prob
        inf = np.inf
        ocp = spec.get("ocp") or {}

        def b(key, n, default):
            val = ocp.get(key)
            return np.full(n, default) if val is None else _arr(val)
        nx, nu, nz, nv = spec["nx"], spec.get("nu", 0), spec.get("nz", 0), spec.get("nv", 0)
        lbd = 0.0 if o["mpcc_mode"] in DUAL_NONNEG else -inf
        out = []
        lbx, ubx = b("lbx", nx, -inf), b("ubx", nx, inf)
        lbz = np.full(nz, -inf) if spec.get("lbz") is None else _arr(spec["lbz"])
        ubz = np.full(nz, inf) if spec.get("ubz") is None else _arr(spec["ubz"])
        z0 = np.zeros(nz) if spec.get("z0") is None else _arr(spec["z0"])
        for i in range(o["N_stages"]):
            if nu:
                out.append(("u", P.ind_u[i], b("lbu", nu, -inf), b("ubu", nu, inf), b("u_guess", nu, 0.0)))
            h0 = o["terminal_time"] / o["N_stages"] / o["Nfe_list"][i]
            for f in range(o["Nfe_list"][i]):
                if o["use_fesd"]:
                    out.append(("h", [self.h_index(i, f)], np.array([(1 - o["gamma_h"]) * h0]), np.array([(1 + o["gamma_h"]) * h0]), np.array([h0])))
                xs = P.ind_x[i][f]
                n_exp = 1 if o["irk_representation"] == "DIFFERENTIAL" else o["n_s"] + (0 if explicit(o) else 1)
                out.append(("n_x", len(xs), n_exp))
                for ind in xs:
                    out.append(("x", ind, lbx, ubx, np.array(spec["x0"], float)))
                if o["irk_representation"] != "INTEGRAL":
                    out.append(("n_v", len(P.ind_v[i][f]), o["n_s"]))
                    for ind in P.ind_v[i][f]:
                        out.append(("v", ind, np.full(nx, -inf), np.full(nx, inf), np.zeros(nx)))
                nl = self.n_lambda_points(i, f)
                for s in range(self.nsys):
                    if self.stewart:
                        n = self.nreg[s]
                        g = o["sigma_0"] / n
                        for k in range(o["n_s"]):
                            out.append(("theta", P.ind_theta[i][f][k][s], np.full(n, lbd), np.full(n, inf), np.full(n, g)))
                        for k in range(nl):
                            out.append(("lam", P.ind_lam[i][f][k][s], np.full(n, lbd), np.full(n, inf), np.full(n, g)))
                            out.append(("mu", P.ind_mu[i][f][k][s], np.full(1, -inf), np.full(1, inf), np.ones(1)))
                    else:
                        n = self.nc[s]
                        for k in range(o["n_s"]):
                            out.append(("alpha", P.ind_alpha[i][f][k][s], np.full(n, lbd), np.full(n, 1.0), np.full(n, .5)))
                        for k in range(nl):
                            for nm, ind in (("lambda_n", P.ind_lambda_n), ("lambda_p", P.ind_lambda_p)):
                                out.append((nm, ind[i][f][k][s], np.full(n, lbd), np.full(n, inf), np.full(n, .5)))
                if nz:
                    for k in range(o["n_s"]):
                        out.append(("z", P.ind_z[i][f][k], lbz, ubz, z0))
                nb = self.n_bool(i, f)
                ind = _flat(P.ind_bool[i][f])
                out.append(("n_bool", len(ind), nb))
                if nb:
                    out.append(("bool", ind, np.zeros(nb), np.ones(nb), np.full(nb, .5)))
        if nv:
            out.append(("v_global", P.ind_v_global[0], b("lbv_global", nv, -inf), b("ubv_global", nv, inf), b("v_global_guess", nv, 0.0)))
        m = o["speed_of_time_variables"]
        nsot = dict(NONE=0, LOCAL=o["N_stages"], GLOBAL=1)[m]
        out.append(("n_sot", len(P.ind_sot), nsot))
        for ind in P.ind_sot:
            out.append(("sot", ind, np.array([o["speed_of_time_min"]]), np.array([o["speed_of_time_max"]]), np.ones(1)))
        if o["mpcc_mode"] in ELASTIC:
            out.append(("elastic", P.ind_elastic[0], np.array([o["s_elastic_min"]]), np.array([o["s_elastic_max"]]), np.array([o["s_elastic_0"]])))
        return out


def _arr(v):
    return np.array([np.inf * np.sign(e) if abs(e) >= 1e300 else e for e in v], dtype=float)


def _flat(L):
    if isinstance(L, (list, tuple)):
        return [a for e in L for a in _flat(e)]
    return [L]


# ------------------------------------------------------------------------------------- comparison
def actual_entries(nlp, W, p, lbg, ubg):
    """NLP constraints as rows: list of ('eq'|'le', values over the points, index)."""
    G = np.array([nlp.fun(w, p)[1].full().flatten() for w in W])
    rows = []
    for j in range(G.shape[1]):
        g = G[:, j]
        lb, ub = lbg[j], ubg[j]
        if lb == ub:
            rows.append(("eq", g - lb, j))
        else:
            if np.isfinite(lb):
                rows.append(("le", lb - g, j))
            if np.isfinite(ub):
                rows.append(("le", g - ub, j))
    return rows


def trivial(kind, v):
    """constraints that hold at every point"""
    if kind == "eq":
        return bool(np.all(np.abs(v) <= 1e-12))
    return bool(np.ptp(v) <= 1e-12 * (1 + np.max(np.abs(v))) and np.all(v <= 1e-12))


def match(ref, act, tol=1e-7):
    """Multiset comparison. ref: list of (tag, kind, vector), act: list of (kind, vector, index).

    A constraint is known up to scaling (positive for inequalities). Returns (missing, extra)."""
    ref = [r for r in ref if not trivial(r[1], r[2])]
    act = [a for a in act if not trivial(a[0], a[1])]
    missing = []
    used = np.zeros(len(act), bool)
    for kind in ("eq", "le"):
        ai = [j for j, a in enumerate(act) if a[0] == kind]
        if ai:
            M = np.array([act[j][1] for j in ai])
            nM = np.maximum(np.linalg.norm(M, axis=1), 1e-300)
            Mn = M / nM[:, None]
        for tag, k, v in ref:
            if k != kind:
                continue
            if not ai:
                missing.append((tag, k, v))
                continue
            vn = v / max(np.linalg.norm(v), 1e-300)
            d = np.linalg.norm(Mn - vn, axis=1)
            if kind == "eq":
                d = np.minimum(d, np.linalg.norm(Mn + vn, axis=1))
            d = d + 10.0 * used[ai]
            j = int(np.argmin(d))
            if d[j] <= tol:
                used[ai[j]] = True
            else:
                missing.append((tag, k, v))
    extra = [a for j, a in enumerate(act) if not used[j]]
    return missing, extra

"""Independent Filippov solutions of piecewise smooth systems (kind "S"), for generically transversal trajectories.

A mode assigns to each subsystem either ("in", i): inside region i, or ("slide", i, j, k): sliding along c_k = 0
between the regions i and j.
"""
import itertools

import numpy as np

from pbt import expr, irk
from pbt.core import Inapplicable

VMIN = 0.05


class Degenerate(Inapplicable):
    """not a generic trajectory (grazing, simultaneous switches, corner): nothing is claimed"""


class Hybrid:

    def __init__(self, spec, u=(), p=(), pt=(), v=()):
        self.spec = spec
        self.nx = spec["nx"]
        self.e = dict(u=u, p=p, pt=pt, v=v, z=(), a=())
        self.S = [np.array(y["S"], float) for y in spec["sys"]]
        self.nsys = len(self.S)

    def env(self, x):
        return dict(self.e, x=x)

    def c(self, s, x):
        e = self.env(x)
        return np.array([expr.ev(q, e) for q in self.spec["sys"][s]["c"]])

    def F(self, s, i, x):
        e = self.env(x)
        return np.array([expr.ev(q, e) for q in self.spec["sys"][s]["F"][i]])

    def grad(self, s, k, x):
        g = np.zeros(self.nx)
        for j in range(self.nx):
            d = np.zeros(self.nx)
            d[j] = 1e-5
            g[j] = (self.c(s, x + d)[k] - self.c(s, x - d)[k]) / 2e-5
        return g

    def region(self, s, signs):
        """the region with the given signs of the switching functions"""
        ok = [i for i in range(len(self.S[s])) if all(r == 0 or r == q for r, q in zip(self.S[s][i], signs))]
        if len(ok) != 1:
            raise Degenerate("no unique region")
        return ok[0]

    def thetas(self, x, modes):
        """region weights per subsystem"""
        W = [np.zeros(len(S)) for S in self.S]
        slide = [s for s, m in enumerate(modes) if m[0] == "slide"]
        base = np.zeros(self.nx)
        D, G = [], []
        for s, m in enumerate(modes):
            if m[0] == "in":
                W[s][m[1]] = 1.0
                base += self.F(s, m[1], x)
            else:
                fj = self.F(s, m[2], x)
                base += fj
                D.append(self.F(s, m[1], x) - fj)
                G.append(self.grad(s, m[3], x))
        if slide:
            D, G = np.array(D).T, np.array(G)
            M = G @ D
            if abs(np.linalg.det(M)) < 1e-6:
                raise Degenerate("sliding mode not determined")
            th = np.linalg.solve(M, -G @ base)
            for t, s in zip(th, slide):
                W[s][modes[s][1]] += t
                W[s][modes[s][2]] += 1 - t
        return W

    def f(self, x, modes):
        W = self.thetas(x, modes)
        out = np.zeros(self.nx)
        for s in range(self.nsys):
            for i in np.where(W[s] != 0)[0]:
                out += W[s][i] * self.F(s, int(i), x)
        return out

    def initial_modes(self, x, margin=0.02):
        modes = []
        for s in range(self.nsys):
            c = self.c(s, x)
            if np.min(np.abs(c)) < margin:
                raise Degenerate("start on a switching surface")
            modes.append(("in", self.region(s, np.sign(c))))
        return modes

    def margins(self, x, modes):
        """distances to the events of the current modes: (value, subsystem, event); negative = passed"""
        out = []
        W = None
        for s, m in enumerate(modes):
            c = self.c(s, x)
            if m[0] == "in":
                for k in range(len(c)):
                    if self.S[s][m[1], k] != 0:
                        out.append((self.S[s][m[1], k] * c[k], s, ("hit", k)))
            else:
                W = self.thetas(x, modes) if W is None else W
                out.append((W[s][m[1]], s, ("leave", m[2])))
                out.append((W[s][m[2]], s, ("leave", m[1])))
                for k in range(len(c)):
                    if k != m[3]:
                        for r in (m[1], m[2]):
                            if self.S[s][r, k] != 0:
                                out.append((self.S[s][r, k] * c[k], s, ("corner", k)))
        return out

    def transition(self, x, modes, s, ev, vmin=VMIN):
        """modes after event ev of subsystem s at the point x; None: the surface is not being crossed"""
        m = modes[s]
        new = list(modes)
        if ev[0] == "corner":
            raise Degenerate("sliding into a corner")
        if ev[0] == "leave":
            new[s] = ("in", ev[1])
            return new
        k = ev[1]
        i = m[1]
        sg = self.S[s][i, k]
        g = self.grad(s, k, x)
        vi = sg * g @ self.f(x, modes)
        if vi > vmin:
            return None
        if vi > -vmin:
            raise Degenerate("grazing")
        c = self.c(s, x)
        signs = np.sign(c)
        for q in range(len(c)):
            if q != k and abs(c[q]) < 0.01:
                raise Degenerate("corner")
        signs[k] = -sg
        j = self.region(s, signs)
        # the region on this side with the other signs (a region may border with several others)
        trial = list(modes)
        trial[s] = ("in", j)
        vj = sg * g @ self.f(x, trial)
        if abs(vj) < vmin:
            raise Degenerate("field tangential to the surface")
        new[s] = ("in", j) if vj < 0 else ("slide", i, j, k)
        if new[s][0] == "slide":
            W = self.thetas(x, new)
            if any(not (-1e-9 <= W[q][r] <= 1 + 1e-9) for q, mm in enumerate(new) if mm[0] == "slide" for r in mm[1:3]):
                raise Degenerate("simultaneous change of sliding modes")
            if min(W[s][i], W[s][j]) < 0.05:
                raise Degenerate("sliding mode starts at its end")
        return new

    def rk4(self, x, modes, h):
        k1 = self.f(x, modes)
        k2 = self.f(x + h / 2 * k1, modes)
        k3 = self.f(x + h / 2 * k2, modes)
        k4 = self.f(x + h * k3, modes)
        return x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)

    def simulate(self, x0, T, n=200, min_gap=None, max_events=12):
        """-> (events [(t, modes after)], x(T), min margin away from events); raises Degenerate"""
        x = np.array(x0, float)
        modes = self.initial_modes(x)
        t, events = 0.0, []
        h = T / n
        fresh = {}
        last = {}
        while t < T - 1e-12:
            step = min(h, T - t)
            x1 = self.rk4(x, modes, step)
            if not np.all(np.isfinite(x1)) or np.max(np.abs(x1)) > 50:
                raise Degenerate("trajectory grows")
            bad = [m for m in self.margins(x1, modes) if m[0] < 0 and not (m[1], m[2]) in fresh]
            if bad:
                lo, hi = 0.0, step
                for _ in range(60):
                    mid = (lo + hi) / 2
                    xm = self.rk4(x, modes, mid)
                    if any(m[0] < 0 and not (m[1], m[2]) in fresh for m in self.margins(xm, modes)):
                        hi = mid
                    else:
                        lo = mid
                x1 = self.rk4(x, modes, hi)
                bad = [m for m in self.margins(x1, modes) if m[0] < 0 and not (m[1], m[2]) in fresh]
                if len({m[1:] for m in bad}) != 1:
                    raise Degenerate("simultaneous events")
                _, s, ev = bad[0]
                new = self.transition(x1, modes, s, ev)
                if new is None:
                    raise Degenerate("no transition")
                t += hi
                x = x1
                if events and min_gap and t - events[-1][0] < min_gap:
                    raise Degenerate("events too close")
                # the surface just passed is at distance ~0: ignore it for the next few steps
                fresh = {}
                if ev[0] == "hit" and new[s][0] == "in":
                    fresh[(s, ("hit", ev[1]))] = 1
                if ev[0] == "leave":
                    fresh[(s, ("hit", modes[s][3]))] = 1
                modes = new
                events.append((t, list(modes), s, ev, x.copy()))
                if len(events) > max_events:
                    raise Degenerate("too many events")
                last = {}
            else:
                x, t = x1, t + step
                ms = {(m[1], m[2]): m[0] for m in self.margins(x, modes)}
                for key, val in ms.items():
                    # close to a surface, and on the way back
                    if key in last and key not in fresh:
                        if val > last[key][0] + 1e-12 and last[key][1] and val < 0.02:
                            raise Degenerate("almost grazing")
                last = {k: (q, k in last and q < last[k][0]) for k, q in ms.items() if k not in fresh}
                if fresh:
                    for key in list(fresh):
                        if ms.get(key, 1.0) > 1e-3:
                            del fresh[key]
                        elif ms[key] < -1e-3:
                            raise Degenerate("returns to the surface")
        ms = [m[0] for m in self.margins(x, modes)]
        return events, x, (min(ms) if ms else 1.0), modes

    def irk(self, x, modes, h, n_s, scheme, q=None, K0=None):
        r = irk.irk_step(lambda y: self.f(y, modes), x, h, n_s, scheme, q=q, K0=K0)
        if r is None:
            raise Degenerate("reference step did not converge")
        return r

    def modes_at(self, x, near=5e-5):
        """all combinations of modes that may be active on an element starting at x"""
        per = []
        for s in range(self.nsys):
            c = self.c(s, x)
            close = [k for k in range(len(c)) if abs(c[k]) <= near]
            signs = np.sign(c)
            if not close:
                per.append([("in", self.region(s, signs))])
                continue
            if len(close) > 1:
                raise Degenerate("corner")
            k = close[0]
            signs[k] = 1
            i = self.region(s, signs)
            signs[k] = -1
            j = self.region(s, signs)
            per.append([("in", i)] if i == j else [("slide", i, j, k), ("in", i), ("in", j)])
        return [list(m) for m in itertools.product(*per)]

    def walk(self, x, hs, n_s, scheme, xs, tol=5e-5, acc=2e-5, X=None, end=True):
        """Validates a discretised Filippov trajectory: on the grid with steps hs, an IRK step of one consistent mode
        leads from every reported state to the next one (xs). Consistent: the stage and end states do not leave the
        closed regions of the mode, the weights of sliding modes are in [0, 1].
        X: reported stage values, the arbiter where the equations of a step have several (or multiple) solutions.
        end: the last element ends the horizon.
        -> the mode of every element (None: element of negligible length); raises Missed."""
        x = np.array(x, float)
        out = []
        for k, h in enumerate(hs):
            x1 = np.array(xs[k], float)
            why, got, undecided = [], None, None
            if h < -1e-7:
                raise Missed(f"negative step {h}")
            if h < 1e-6:
                if np.max(np.abs(x1 - x)) > 1e-4:
                    raise Missed(f"element {k} of length {h} changes the state from {x} to {x1}")
                out.append(None)
                x = x1
                continue
            for cand in self.modes_at(x):
                try:
                    msg = self.element(k, h, x, x1, cand, n_s, scheme, tol, acc, end and k == len(hs) - 1, None if X is None else X[k])
                except Degenerate as e:
                    if "crossing behind" in str(e):
                        raise
                    undecided, msg = e, str(e)
                if msg is None:
                    got = cand
                    break
                why.append(msg)
            if got is None:
                if undecided is not None:
                    raise undecided
                raise Missed("; or ".join(why))
            out.append(got)
            x = x1
        return out

    def element(self, k, h, x, x1, modes, n_s, scheme, tol, acc, last, X=None):
        """None if the element from x to x1 is one step of the mode, otherwise what is wrong"""
        given = None if X is None else irk.given_step(lambda y: self.f(y, modes), x, X, h, n_s, scheme)
        ref, stages = (given or self.irk(x, modes, h, n_s, scheme))[:2]
        if np.max(np.abs(ref - x1)) > acc * (1 + np.max(np.abs(ref))):
            if np.max(np.abs(ref)) > 50:
                raise Degenerate("ill-conditioned step")
            # the equations of large steps may have several solutions
            K0 = (x1 - x) / h
            if X is not None:
                K0 = np.linalg.solve(h * irk.butcher(n_s, scheme)[0], np.asarray(X, float) - x).ravel()
            ref, stages = self.irk(x, modes, h, n_s, scheme, K0=K0)[:2]
        if np.max(np.abs(ref - x1)) > acc * (1 + np.max(np.abs(ref))) + self.relaxation(x, stages, modes, h, acc):
            return f"element {k}: state {x1}, the {scheme} step of {modes} gives {ref}"
        points = [("stage", y) for y in stages] + [("end", x1)]
        for what, y in points:
            for val, s, ev in self.margins(y, modes):
                if ev[0] == "leave":
                    if what == "stage" and val < -0.01:
                        return f"element {k}: sliding with a weight {val}"
                elif val < -tol:
                    if what == "end" and last and scheme == "GAUSS_LEGENDRE":
                        # with Gauss-Legendre schemes the very last end point of the horizon has no multipliers
                        raise Degenerate("crossing behind the last stage point of the horizon")
                    return f"element {k} (length {h}): passes the surface {(s, ev)} within the element, margin {val} at its {what} {y}"
        return None

    def relaxation(self, x, stages, modes, h, acc):
        """error of the region multipliers in elements that hardly leave a surface: the relaxed complementarity with
        the distance to the surface is all that determines them"""
        big = {}
        for y in [x] + list(stages):
            for val, s, ev in self.margins(y, modes):
                if ev[0] != "leave":
                    big[(s, ev)] = max(big.get((s, ev), 0.0), abs(val))
        dist = min(big.values(), default=1.0)
        return min(1e-3, acc * 0.05 * h / (dist + 1e-9))


def stage_values(solver, r, x0, hs, states=None):
    """reported stage values of every element (lengths hs in the program's own time)"""
    prob, o = solver.problem, solver.opts
    w = np.array(r["w_sol"], float).flatten()
    n_s, scheme = o.n_s, o.irk_scheme.name
    v = prob.ind_v if o.irk_representation.name == "DIFFERENTIAL" else prob.ind_x
    v = [fe for stage in v for fe in stage]
    out, x = [], np.array(x0, float)
    for k, h in enumerate(hs):
        X = np.array([w[np.array(v[k][i], int).flatten()] for i in range(n_s)])
        if o.irk_representation.name == "DIFFERENTIAL":
            X = x + h * irk.butcher(n_s, scheme)[0] @ X
        out.append(X if states is None else X[:, states])
        x = np.array(r["x_list"][k], float).flatten()
    return out


class Missed(Exception):
    pass

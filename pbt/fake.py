"""A stand-in for the NLP solver back end (casadi.nlpsol): records what it is given, answers from a script."""
import contextlib

import casadi as ca
import numpy as np


class FakeNlp:

    def __init__(self, name, plugin, nlp, opts, script):
        self.name, self.plugin, self.opts = name, plugin, opts
        self.x, self.p = nlp["x"], nlp["p"]
        self.f = nlp["f"]
        self.g = nlp["g"] if "g" in nlp else ca.SX.zeros(0, 1)
        self.fun = ca.Function("nlp", [self.x, self.p], [self.f, self.g])
        self.nw = self.x.shape[0]
        self.calls = []
        self.script = script
        self._stats = {}

    def __call__(self, **kw):
        c = {k: np.array(ca.DM(v)).flatten() if not isinstance(v, np.ndarray) else np.array(v, dtype=float).flatten().copy()
             for k, v in kw.items()}
        k = len(self.calls)
        ans = self.script(k, c, self) if self.script else {}
        w = np.array(ans.get("x", c["x0"]), dtype=float)
        f, g = self.fun(w, c["p"])
        self._stats = dict(t_proc_total=ans.get("time", 0.001 * (k + 1)), t_wall_total=0.001,
                           return_status=ans.get("status", "Solve_Succeeded"), iter_count=ans.get("iter", 3 + k),
                           success=ans.get("status", "Solve_Succeeded") in ("Solve_Succeeded", "Solved_To_Acceptable_Level"))
        c.update(answer=w, f=float(f), g=g.full().flatten(), stats=dict(self._stats))
        self.calls.append(c)
        return dict(x=ca.DM(w), f=f, g=g, lam_x=ca.DM.zeros(self.nw), lam_g=ca.DM.zeros(g.shape), lam_p=ca.DM.zeros(1))

    def stats(self):
        return self._stats


@contextlib.contextmanager
def fake_backend(script=None):
    """Patches casadi.nlpsol; yields the list of back ends created."""
    created = []
    orig = ca.nlpsol

    def nlpsol(name, plugin, nlp, opts=None):
        created.append(FakeNlp(name, plugin, nlp, opts, script))
        return created[-1]

    ca.nlpsol = nlpsol
    try:
        yield created
    finally:
        ca.nlpsol = orig

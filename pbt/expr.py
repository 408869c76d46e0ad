"""Expressions as JSON data with two interpretations: numbers (reference) and CasADi SX (code under test).

e := number | [var, i] | [op, e, ...]      var in VARS
"""
import math

VARS = ("x", "u", "z", "p", "pt", "v", "a")   # p: global parameters, pt: time-varying, v: global variables, a: step variables


def ev(e, env):
    """Numerical value, env: dict var -> sequence of floats."""
    if isinstance(e, (int, float)):
        return float(e)
    op = e[0]
    if op in VARS:
        return float(env[op][e[1]])
    a = [ev(s, env) for s in e[1:]]
    return _apply(op, a, math)


class _CaFuns:

    def __init__(self):
        import casadi as ca
        self.sin, self.cos, self.tanh, self.exp, self.sqrt = ca.sin, ca.cos, ca.tanh, ca.exp, ca.sqrt
        self.sign, self.fmax, self.fmin = ca.sign, ca.fmax, ca.fmin


_CA = None


def sx(e, env):
    """CasADi expression, env: dict var -> SX column vector."""
    global _CA
    import casadi as ca
    if _CA is None:
        _CA = _CaFuns()
    if isinstance(e, (int, float)):
        return ca.SX(e)
    op = e[0]
    if op in VARS:
        return env[op][e[1]]
    a = [sx(s, env) for s in e[1:]]
    return _apply(op, a, _CA)


def _sgn(x):
    return (x > 0) - (x < 0)


def _apply(op, a, m):
    if op == "+":
        s = a[0]
        for t in a[1:]:
            s = s + t
        return s
    if op == "-":
        return -a[0] if len(a) == 1 else a[0] - a[1]
    if op == "*":
        s = a[0]
        for t in a[1:]:
            s = s * t
        return s
    if op == "sq":
        return a[0] * a[0]
    if op == "sin":
        return m.sin(a[0])
    if op == "cos":
        return m.cos(a[0])
    if op == "tanh":
        return m.tanh(a[0])
    if op == "exp":
        return m.exp(a[0])
    if op == "sign":
        return m.sign(a[0]) if m is not math else float(_sgn(a[0]))
    if op == "max":
        return m.fmax(a[0], a[1]) if m is not math else max(a[0], a[1])
    if op == "min":
        return m.fmin(a[0], a[1]) if m is not math else min(a[0], a[1])
    raise ValueError(op)


def subst(e, values):
    """Replace variables by constants: values: dict var -> sequence."""
    if isinstance(e, (int, float)):
        return e
    if e[0] in VARS:
        return float(values[e[0]][e[1]]) if e[0] in values else e
    return [e[0]] + [subst(s, values) for s in e[1:]]


def variables(e):
    if isinstance(e, (int, float)):
        return set()
    if e[0] in VARS:
        return {(e[0], e[1])}
    out = set()
    for s in e[1:]:
        out |= variables(s)
    return out


def rename(e, f):
    """Apply f(var, i) -> expression to all variables."""
    if isinstance(e, (int, float)):
        return e
    if e[0] in VARS:
        return f(e[0], e[1])
    return [e[0]] + [rename(s, f) for s in e[1:]]

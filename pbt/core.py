"""Common vocabulary of the checks."""
import contextlib
import hashlib
import io
import json
import os
import sys


class Violation(Exception):
    """The property does not hold for the current case."""


class Inconclusive(Exception):
    """The case decides nothing (for example: the NLP solver did not converge)."""


class Inapplicable(Exception):
    """The generated case is outside of the property's domain."""


def fail(msg):
    raise Violation(msg)


def require(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


@contextlib.contextmanager
def sut(what):
    """Code under test runs inside: an exception on valid input is a violation."""
    try:
        yield
    except (Violation, Inconclusive, Inapplicable):
        raise
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{what}: unexpected {type(e).__name__}: {str(e)[:300]}") from e


@contextlib.contextmanager
def quiet():
    """Silence the prints of the code under test (python level)."""
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def dumps(spec):
    return json.dumps(spec, sort_keys=True, separators=(",", ":"))


def digest(spec):
    return hashlib.sha256(dumps(spec).encode()).hexdigest()[:12]


class Ctx:
    """Per-case context: labels for the distribution, non-triviality, solver statistics."""

    def __init__(self):
        self.labels = []
        self.nontrivial = False
        self.solves = 0
        self.solved = 0

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

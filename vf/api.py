"""Scenario API: the same scenario runs symbolically and concretely."""

from __future__ import annotations

import importlib
import random
import sys
import time
import traceback
from fractions import Fraction

SCENARIOS: dict = {}  # (prop, name) -> Scenario


class Scenario:
    def __init__(self, prop, name, fn, tier, opts, params, bounds):
        self.prop, self.name, self.fn = prop, name, fn
        self.tier, self.opts, self.params, self.bounds = tier, opts, params, bounds

    @property
    def key(self):
        return f"{self.prop}:{self.name}"


def scenario(prop, *, tier="quick", bounds="", cases=None, **opts):
    """Register a scenario. `cases`: list of param dicts -> one scenario each."""

    def deco(fn):
        if cases is None:
            SCENARIOS[f"{prop}:{fn.__name__}"] = Scenario(
                prop, fn.__name__, fn, tier, opts, {}, bounds
            )
        else:
            for c in cases:
                c = dict(c)
                t = c.pop("_tier", tier)
                nm = fn.__name__ + "[" + ",".join(f"{k}={v}" for k, v in c.items()) + "]"
                SCENARIOS[f"{prop}:{nm}"] = Scenario(prop, nm, fn, t, opts, c, bounds)
        return fn

    return deco


class CheckFailed(Exception):
    pass


class AssumeFailed(BaseException):
    pass


# ---------------------------------------------------------------- concrete


class Con:
    """Concrete driver (replay on the unpatched code)."""

    sym = False

    def __init__(self, inputs, tol_scale=1.0, rng=None):
        self.inputs = inputs
        self.rng = rng
        self.checks = 0
        self.known = []

    def _get(self, name, draw):
        if name in self.inputs:
            return self.inputs[name]
        v = draw()
        self.inputs[name] = v
        return v

    def real(self, name, lo=-1000, hi=1000):
        v = self._get(name, lambda: str(Fraction(lo)))
        f = float(Fraction(v))
        return min(max(f, float(lo)), float(hi))

    def int(self, name, lo, hi):
        return int(self._get(name, lambda: lo))

    def bool(self, name):
        return bool(self._get(name, lambda: False))

    def choice(self, name, options):
        return options[int(self._get(name, lambda: 0))]

    def digits(self, name, n, exact=False):
        v = self._get(name, lambda: "0" * n)
        self.assume(len(v) == n and v.isascii() and (v.isdigit() or not n))
        return v

    def signed_digits(self, name, n, lo=None, hi=None):
        v = self._get(name, lambda: "+" + "0" * n)
        self.assume(len(v) == n + 1 and v[0] in "+-" and v.isascii() and v[1:].isdigit())
        return v

    def numval(self, name):
        return int(self.inputs[name])

    def char(self, name, dom):
        v = self._get(name, lambda: sorted(dom)[0])
        self.assume(v in set(dom))
        return v

    def fixed(self, name, lo, hi, decimals):
        v = int(self._get(name, lambda: int(lo * 10**decimals)))
        return float(Fraction(v, 10**decimals))

    def assume(self, c):
        if not c:
            raise AssumeFailed

    def fmt_digits(self, repr=False):
        pass

    def check(self, c, msg=""):
        self.checks += 1
        if not c:
            raise CheckFailed(msg)

    def eq(self, a, b, msg="", tol=1e-6):
        self.checks += 1
        if isinstance(a, str) or isinstance(b, str):
            if a != b:
                raise CheckFailed(f"{msg}: {a!r} != {b!r}")
            return
        if a is None or b is None:
            if a is not b:
                raise CheckFailed(f"{msg}: {a!r} != {b!r}")
            return
        d = abs(a - b)
        if not d <= tol * 0.9 * max(1.0, abs(a) * 1e-6, abs(b) * 1e-6):
            raise CheckFailed(f"{msg}: {a!r} != {b!r}")

    def le(self, a, b, msg="", tol=1e-6):
        self.checks += 1
        if not a <= b + tol * 0.9:
            raise CheckFailed(f"{msg}: not {a!r} <= {b!r}")

    def neq_text(self, a):
        return a

    def close(self, a, b, tol=1e-6):
        return abs(a - b) <= tol

    def land(self, *cs):
        return all(cs)

    def lor(self, *cs):
        return any(cs)

    def lnot(self, c):
        return not c

    def ite(self, c, a, b):
        return a if c else b

    def sqrt(self, x):
        import math

        return math.sqrt(max(0.0, x)) if x > -1e-9 else math.sqrt(x)

    def cos(self, deg):
        import math

        return math.cos(math.radians(deg))

    def sin(self, deg):
        import math

        return math.sin(math.radians(deg))

    def angle(self, y, x):
        import math

        return math.degrees(math.atan2(y, x))

    direction = angle

    def trig_distinct(self, a, b):
        pass

    def trig_monotone(self, *angles, lo=-3, hi=5):
        pass

    def fail(self, msg):
        raise CheckFailed(msg)

    def raises(self, exc, fn, msg):
        self.checks += 1
        try:
            fn()
        except exc:
            return
        raise CheckFailed(msg)


def run_concrete(scn, inputs):
    """-> (outcome, message). outcome: pass | fail | assume."""
    s = Con(dict(inputs))
    try:
        scn.fn(s, **scn.params)
    except AssumeFailed:
        return "assume", "", s.inputs
    except CheckFailed as e:
        return "fail", f"check: {e}", s.inputs
    except RecursionError as e:
        return "fail", f"raised RecursionError: {e}", s.inputs
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        where = next(
            (f"{f.filename}:{f.lineno}" for f in reversed(tb) if "/repo/" in f.filename),
            f"{tb[-1].filename}:{tb[-1].lineno}",
        )
        return "fail", f"raised {type(e).__name__}: {str(e)[:200]} at {where}", s.inputs
    return "pass", "", s.inputs


def load_props(prop):
    importlib.import_module(f"props.{prop}")
    return {k: v for k, v in SCENARIOS.items() if v.prop == prop}

"""Symbolic driver and exploration loop."""

from __future__ import annotations

import math
import random
import sys
import time
import traceback
from fractions import Fraction

import z3

from vf import core, strings
from vf.api import CheckFailed
from vf.core import (
    SB, SF, SI, Budget, Ctx, PathAbort, Stats, StopPath, Unsupported,
    bexpr, const_of, is_sym, rv,
)

TRIG_PINS = [
    (Fraction(0), 1, 0),
    (Fraction(90), 0, 1),
    (Fraction(180), -1, 0),
    (Fraction(270), 0, -1),
    (Fraction("36.86989764584402"), Fraction(3, 5), Fraction(4, 5)),
    (Fraction("67.38013505195957"), Fraction(5, 13), Fraction(12, 13)),
    (Fraction("126.86989764584402"), Fraction(-3, 5), Fraction(4, 5)),
    (Fraction("306.86989764584402"), Fraction(3, 5), Fraction(-4, 5)),
    (Fraction("-36.86989764584402"), Fraction(3, 5), Fraction(-4, 5)),
    (Fraction("216.86989764584402"), Fraction(-3, 5), Fraction(-4, 5)),
]


class Sym:
    """Symbolic driver with the interface of `api.Con`."""

    sym = True

    def __init__(self, ctx: Ctx, run: "Run"):
        self.c = ctx
        self.run = run
        self.checks = 0
        self.batch = []

    # inputs
    def real(self, name, lo=-1000, hi=1000):
        if name in self.c.inputs:
            return self.c.inputs[name][1]
        v = z3.Real(name)
        self.c.add(v >= rv(Fraction(lo)))
        self.c.add(v <= rv(Fraction(hi)))
        x = SF(v)
        self.c.mag[name] = max(abs(Fraction(lo)), abs(Fraction(hi)))
        self.c.inputs[name] = ("real", x, lo, hi)
        return x

    def fixed(self, name, lo, hi, decimals):
        """A decimal number with at most `decimals` decimals."""
        v = z3.Int(name)
        self.c.add(v >= int(Fraction(lo) * 10**decimals))
        self.c.add(v <= int(Fraction(hi) * 10**decimals))
        self.c.mag[name] = max(abs(Fraction(lo)), abs(Fraction(hi))) * 10**decimals
        self.c.inputs[name] = ("int", SI(v), lo, hi)
        return SF(z3.ToReal(v) * rv(Fraction(1, 10**decimals)))

    def int(self, name, lo, hi):
        v = z3.Int(name)
        self.c.add(v >= lo)
        self.c.add(v <= hi)
        x = SI(v)
        self.c.inputs[name] = ("int", x, lo, hi)
        return x

    def bool(self, name):
        v = z3.Bool(name)
        self.c.inputs[name] = ("bool", SB(v))
        return SB(v)

    def choice(self, name, options):
        if len(options) == 1:
            self.c.inputs[name] = ("const", 0)
            return options[0]
        v = z3.Int(name)
        self.c.add(v >= 0)
        self.c.add(v < len(options))
        self.c.inputs[name] = ("int", SI(v), 0, len(options) - 1)
        for i in range(len(options) - 1):
            if self.c.decide(v == i):
                return options[i]
        self.c.add(v == len(options) - 1)
        return options[-1]

    def digits(self, name, n, exact=False):
        # relaxed: integrality only if a digit is inspected
        v = z3.Int(name) if exact else z3.Real(name)
        self.c.add(v >= 0)
        self.c.add(v <= 10**n - 1)
        num = strings.Num(self.c, v, n)
        s = strings.digits_of(self.c, num)
        self.c.inputs[name] = ("digits", num, s)
        return s

    def numval(self, name):
        num = self.c.inputs[name][1]
        if num.signed:
            v = num.value
            return SF(z3.ToReal(v) if v.sort() == z3.IntSort() else v)
        return SF(num.real())

    def signed_digits(self, name, n, lo=None, hi=None):
        """Sign character followed by n digits."""
        v = z3.Real(name)
        self.c.add(v >= -(10**n - 1) if lo is None else v >= lo)
        self.c.add(v <= (10**n - 1) if hi is None else v <= hi)
        self.c.mag[name] = Fraction(10**n)
        num = strings.Num(self.c, v, n, signed=True)
        t = strings.signed_digits_of(self.c, num)
        self.c.inputs[name] = ("digits", num, t)
        return t

    def char(self, name, dom):
        dom = sorted(set(dom))
        v = z3.Int(name)
        codes = [ord(d) for d in dom]
        if codes == list(range(codes[0], codes[-1] + 1)):
            self.c.add(z3.And(v >= codes[0], v <= codes[-1]))
        else:
            self.c.add(z3.Or(*[v == k for k in codes]))
        s = strings.new_char(self.c, strings.SymChar(dom, v))
        self.c.inputs[name] = ("char", s)
        return s

    def fmt_digits(self, repr=False):
        self.c.fmt_mode = "digits"
        self.c.fmt_repr = repr

    # logic
    def assume(self, c):
        self.c.assume(c)

    def land(self, *cs):
        return SB(z3.And(*[bexpr(c) for c in cs]))

    def lor(self, *cs):
        return SB(z3.Or(*[bexpr(c) for c in cs]))

    def lnot(self, c):
        return SB(z3.Not(bexpr(c)))

    def ite(self, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        return SF(z3.If(bexpr(c), rv(a), rv(b)))

    def sqrt(self, x):
        return core.sym_sqrt(SF(rv(x))) if is_sym(x) else core._real_math["sqrt"](x)

    def cos(self, deg):
        return math.cos(math.radians(deg))

    def sin(self, deg):
        return math.sin(math.radians(deg))

    def angle(self, y, x):
        """Direction of (x, y) in degrees."""
        return math.degrees(math.atan2(y, x))

    def trig_distinct(self, a, b):
        """True fact: angles less than a turn apart have different directions."""
        d = rv(a) - rv(b)
        self.c.add(z3.Implies(z3.Or(z3.And(d > 0, d < 360), z3.And(d < 0, d > -360)),
                              z3.Or(rv(self.cos(a)) != rv(self.cos(b)), rv(self.sin(a)) != rv(self.sin(b)))))

    def direction(self, y, x):
        """Some angle in degrees of the direction of (x, y), not normalised."""
        ey, ex = core.canon(rv(y)), core.canon(rv(x))
        r = self.c._known_angle(ey, ex)
        return SF(r) if r is not None else self.angle(y, x)

    def trig_monotone(self, *angles, lo=-3, hi=5):
        """True facts about sine and cosine: monotone on half turns."""
        es = [(rv(a), rv(self.cos(a)), rv(self.sin(a))) for a in angles]
        A = self.c.add
        for i, (p, cp, sp) in enumerate(es):
            A(z3.And(cp >= -1, cp <= 1, sp >= -1, sp <= 1))
            for k in range(lo * 2, hi * 2):  # signs by quadrant
                g = z3.And(p >= 90 * k, p <= 90 * (k + 1))
                A(z3.Implies(g, z3.And(cp * (1, -1, -1, 1)[k % 4] >= 0, sp * (1, 1, -1, -1)[k % 4] >= 0)))
            for q, cq, sq in es[:i]:
                for k in range(lo, hi):
                    s = 1 if k % 2 == 0 else -1
                    for (x, cx, sx), (y, cy, sy) in (((p, cp, sp), (q, cq, sq)), ((q, cq, sq), (p, cp, sp))):
                        A(z3.Implies(z3.And(x >= 180 * k, x <= y, y <= 180 * (k + 1)), s * cx >= s * cy))
                        A(z3.Implies(z3.And(x >= 180 * k - 90, x <= y, y <= 180 * k + 90), s * sx <= s * sy))

    def close(self, a, b, tol=1e-6):
        d = rv(a) - rv(b)
        t = rv(Fraction(repr(tol)))
        return SB(z3.And(d <= t, -d <= t))

    # checks
    def check(self, cond, msg=""):
        self.checks += 1
        if isinstance(cond, SB):
            self.run.obligation(self, [z3.Not(cond.e)], msg)
        else:
            if not cond:
                self.run.obligation(self, [z3.BoolVal(True)], msg)
            else:
                self.run.stats.obligations += 1
                self.run.stats.discharged += 1

    def eq(self, a, b, msg="", tol=1e-6):
        self.checks += 1
        if isinstance(a, str) and isinstance(b, str):
            r = strings.str_eq(self.c, a, b)
            return self.check(r, msg)
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return self.check(a is b, msg)
        if core._special(a) or core._special(b):
            return self.check(not is_sym(a) and not is_sym(b) and a == b, msg)
        d, slack = core.strip_tiny(self.c, core.canon(rv(a) - rv(b)))
        c = const_of(d)
        t = Fraction(repr(tol))
        t = t - slack if slack < t / 2 else t
        if c is not None:
            self.run.stats.simplified += 1
            if abs(c) <= t and (is_sym(a) or is_sym(b)):
                self.batch.append((rv(a) - rv(b), rv(Fraction(repr(tol)))))
            return self.check(abs(c) <= t, msg)
        big = Fraction(1, 20)
        self.run.obligation(
            self,
            [z3.Or(d > rv(t), -d > rv(t))],
            msg,
            nicer=[z3.Or(d > rv(big), -d > rv(big))],
        )

    def le(self, a, b, msg="", tol=1e-6):
        self.checks += 1
        if core._special(a) or core._special(b):
            return self.check(not is_sym(a) and a <= b if not is_sym(b) else a <= b, msg)
        d, slack = core.strip_tiny(self.c, core.canon(rv(a) - rv(b)))
        c = const_of(d)
        t = Fraction(repr(tol))
        t = t - slack if slack < t / 2 else t
        if c is not None:
            self.run.stats.simplified += 1
            return self.check(c <= t, msg)
        self.run.obligation(self, [d > rv(t)], msg, nicer=[d > rv(Fraction(1, 20))])

    def fail(self, msg):
        self.check(False, msg)

    def raises(self, exc, fn, msg):
        try:
            fn()
        except exc:
            self.run.stats.obligations += 1
            self.run.stats.discharged += 1
            self.checks += 1
            return
        self.check(False, msg)


def model_inputs(ctx, model):
    out = {}
    for n, rec in ctx.inputs.items():
        kind = rec[0]
        if kind == "const":
            out[n] = rec[1]
        elif kind == "real":
            out[n] = str(_real(model, rec[1].e))
        elif kind == "int":
            out[n] = model.eval(rec[1].e, model_completion=True).as_long()
        elif kind == "bool":
            out[n] = z3.is_true(model.eval(rec[1].e, model_completion=True))
        elif kind == "digits":
            out[n] = strings.concretize(model, ctx, rec[2])
        elif kind == "char":
            out[n] = strings.concretize(model, ctx, rec[1])
    return out


def _real(model, e):
    v = model.eval(e, model_completion=True)
    c = const_of(v)
    if c is not None:
        return c
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return const_of(a)
    return Fraction(0)


class Run:
    """Exploration of one scenario."""

    def __init__(self, scn, opts):
        self.scn = scn
        self.opts = {**opts, **scn.opts}
        self.stats = Stats()
        self.candidates = []  # {"msg", "attempts": [inputs...]}
        self.witnesses = []
        self.undecided = []
        self.functions = set()
        self.samples = []
        self.complete = False
        self.max_candidates = self.opts.get("max_candidates", 4)
        self.report = None  # called with partial results

    # one property obligation on the current path
    def obligation(self, s, neg, msg, nicer=None):
        st, c = self.stats, s.c
        st.obligations += 1
        neg = [z3.simplify(n) for n in neg]
        if any(z3.is_false(n) for n in neg):
            st.discharged += 1
            st.simplified += 1
            return
        r = c._check(*neg)
        if r == z3.unsat:
            st.discharged += 1
            return
        if r == z3.unknown:
            r = self._restricted(c, neg, msg)
            if r == z3.unsat:
                st.restricted += 1
                return
            if r == z3.unknown:
                st.undecided += 1
                self.undecided.append(f"{self.scn.name}: {msg} (solver: unknown)")
                return
        attempts = []
        try:
            attempts.append(model_inputs(c, c._model_last()))
        except z3.Z3Exception:
            pass
        self._more_attempts(c, neg, nicer, attempts)
        self.candidates.append(
            {"scenario": self.scn.key, "msg": msg, "attempts": attempts}
        )
        raise StopPath

    def _restricted(self, c, neg, msg):
        """The full query is undecided: pin real inputs one after another."""
        names = [n for n, r in c.inputs.items() if r[0] == "real"]
        rng = random.Random(hash((self.scn.name, msg)) & 0xFFFF if False else 7)
        pins = []
        res = z3.unknown
        for n in names:
            v, lo, hi = c.inputs[n][1].e, *c.inputs[n][2:4]
            cand = [Fraction(k) for k in (1, 2, 3, 5, -1, -4, 0.5, 0) if lo <= k <= hi]
            if not cand:
                cand = [(Fraction(lo) + Fraction(hi)) / 2]
            rng.shuffle(cand)
            for k in cand[:3]:
                if c._check(*pins, v == rv(k)) == z3.sat:
                    pins.append(v == rv(k))
                    break
            res = c._check(*pins, *neg)
            if res != z3.unknown:
                return res
        return res

    def _more_attempts(self, c, neg, nicer, attempts):
        def attempt(*extra):
            if len(attempts) > 9:
                return False
            try:
                if c._check(*extra) == z3.sat:
                    attempts.append(model_inputs(c, c._model_last()))
                    return True
            except (z3.Z3Exception, Budget):
                pass
            return False

        goals = [nicer, neg] if nicer else [neg]
        for g in goals:
            if nicer and g is nicer:
                attempt(*g)
            trig = c._trigmap.items()
            if trig:
                n = len(TRIG_PINS)
                for off in (4, 1, 6, 5, 0, 2, 7):
                    pins = []
                    for i, (k, (cv, sv)) in enumerate(trig):
                        if not z3.is_const(k[0]):
                            continue
                        d, pc, ps = TRIG_PINS[(off + i * 3) % n]
                        pins += [k[0] == rv(d), cv == rv(Fraction(pc)), sv == rv(Fraction(ps))]
                    attempt(*g, *pins)
        # prefer integral real inputs (exact in floating point)
        reals = [r[1].e for r in c.inputs.values() if r[0] == "real"]
        if reals and len(attempts) < 6:
            for g in goals:
                pins = []
                for v in reals:
                    t = pins + [z3.IsInt(v * 4)]
                    pins = t
                if attempt(*g, *pins):
                    break

    def explore(self):
        stack = [[]]
        first = True
        t_end = min(time.time() + self.opts.get("budget_s", 120), self.opts.get("end", float("inf")))
        maxp = self.opts.get("max_paths", 4000)
        sent, known = time.time(), 0
        while stack:
            if self.report and (time.time() - sent > 3 or len(self.candidates) > known):
                sent, known = time.time(), len(self.candidates)
                self.report(self.result())
            if len(self.candidates) >= self.max_candidates:
                return
            if self.stats.paths >= maxp or time.time() > t_end:
                self.undecided.append(
                    f"{self.scn.name}: exploration budget reached after "
                    f"{self.stats.paths} paths, {len(stack)} subtrees left"
                )
                return
            prefix = stack.pop()
            opts = dict(self.opts)
            opts["deadline"] = t_end + 20
            c = Ctx(prefix, self.stats, opts)
            core.CTX = c
            s = Sym(c, self)
            self.stats.paths += 1
            if first:
                sys.setprofile(self._prof)
            status = "ok"
            try:
                try:
                    self.scn.fn(s, **self.scn.params)
                finally:
                    if first:
                        sys.setprofile(None)
                        first = False
            except PathAbort:
                status = "abort"
                self.stats.aborted += 1
            except StopPath:
                status = "cand"
            except Budget as e:
                status = "budget"
                self._undecided_path(c, f"budget: {e}")
            except (Unsupported, z3.Z3Exception) as e:
                status = "unsupported"
                tb = traceback.extract_tb(e.__traceback__)
                w = next((f"{f.filename}:{f.lineno}" for f in reversed(tb) if "/repo/" in f.filename), "")
                self._undecided_path(c, f"not encodable: {e} {w}")
            except RecursionError as e:
                status = "exc"
                self._exception(c, e)
            except Exception as e:  # noqa: BLE001
                status = "exc"
                self._exception(c, e)
            finally:
                core.CTX = None
            if status == "ok" and s.batch:
                self._batch(c, s)
            if status == "ok" and s.checks:
                n = len(self.witnesses)
                if n < 3 or (self.stats.paths % 17 == 0 and n < 25):
                    core.CTX = c
                    try:
                        if c._check() == z3.sat:
                            self.witnesses.append(model_inputs(c, c._model_last()))
                    except (Budget, z3.Z3Exception):
                        pass
                    core.CTX = None
            stack.extend(c.pending)
        self.complete = True

    def _batch(self, c, s):
        """Solver verdict over the obligations closed by normalisation."""
        sv = z3.Solver()
        sv.set("timeout", 1000)
        sv.add(*c.pc)
        seen, ors = set(), []
        for d, t in s.batch:
            if d.get_id() not in seen:
                seen.add(d.get_id())
                ors.append(z3.Or(d > t, -d > t))
        sv.add(z3.Or(*ors))
        t0 = time.time()
        r = sv.check()
        self.stats.solver_s += time.time() - t0
        self.stats.queries += 1
        if r == z3.unsat:
            self.stats.unsat += 1
            self.stats.batch_unsat += len(s.batch)
        elif r == z3.unknown:
            self.stats.unknown += 1
            self.stats.batch_unknown += len(s.batch)
        else:
            self.stats.sat += 1
            self.candidates.append(
                {
                    "scenario": self.scn.key,
                    "msg": "solver disagrees with the normal form",
                    "attempts": [model_inputs(c, sv.model())],
                }
            )

    def _undecided_path(self, c, why):
        self.stats.undecided += 1
        self.undecided.append(f"{self.scn.name}: {why}")
        try:
            if c._check() == z3.sat:
                self.candidates.append(
                    {
                        "scenario": self.scn.key,
                        "msg": why,
                        "soft": True,
                        "attempts": [model_inputs(c, c._model_last())],
                    }
                )
        except (Budget, z3.Z3Exception, Unsupported):
            pass

    def _exception(self, c, e):
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join(f"{f.filename}:{f.lineno}" for f in tb[-3:])
        msg = f"raised {type(e).__name__}: {str(e)[:200]} at {where}"
        self.stats.obligations += 1
        try:
            r = c._check()
        except Budget:
            r = z3.unknown
        if r == z3.unsat:
            self.stats.discharged += 1
            return
        attempts = []
        if r == z3.sat:
            attempts.append(model_inputs(c, c._model_last()))
            try:
                self._more_attempts(c, [z3.BoolVal(True)], None, attempts)
            except Budget:
                pass
        self.candidates.append(
            {"scenario": self.scn.key, "msg": msg, "attempts": attempts, "exc": True}
        )

    def _prof(self, frame, event, arg):
        if event == "call":
            f = frame.f_code
            if f.co_filename.startswith("/repo/src/pygerber"):
                self.functions.add(
                    f.co_filename[len("/repo/src/pygerber/") :] + ":" + f.co_qualname
                )

    def result(self):
        return {
            "scenario": self.scn.key,
            "bounds": self.scn.bounds,
            "stats": self.stats.as_dict(),
            "candidates": self.candidates,
            "witnesses": self.witnesses,
            "undecided": self.undecided,
            "functions": sorted(self.functions),
            "complete": self.complete,
        }

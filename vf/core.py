"""Path-exploring symbolic execution core.

The real pygerber code is executed with proxy values (`SF`, `SI`, `SB`) which
carry z3 terms.  Whenever the code asks for the truth value of a symbolic
condition, `Ctx.decide` asks the solver which sides are feasible under the path
condition and, if both are, forks (depth first, by re-execution with a decision
prefix).  `check` asks the solver for an assignment that satisfies the path
condition and violates the property.
"""

from __future__ import annotations

import decimal
import math
import time
from fractions import Fraction

import z3

_real_math = {k: getattr(math, k) for k in dir(math)}


class PathAbort(BaseException):
    """The current path is infeasible / outside of the stated assumptions."""


class Unsupported(BaseException):
    """The code used an operation the encoding has no model for."""


class Budget(BaseException):
    """The exploration budget of the scenario is used up."""


class StopPath(BaseException):
    """A violation candidate was recorded; no need to go on with this path."""


CTX: "Ctx | None" = None


def ctx() -> "Ctx":
    if CTX is None:
        raise Unsupported("symbolic value used outside of a symbolic run")
    return CTX


def to_frac(x) -> Fraction:
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, (int, decimal.Decimal)):
        return Fraction(x)
    return Fraction(repr(float(x)))


_RV_CACHE: dict = {}


def rv(x):
    """z3 Real term of a number (symbolic or not)."""
    if isinstance(x, SF):
        return x.e
    if isinstance(x, SI):
        return z3.ToReal(x.e)
    if isinstance(x, SB):
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    key = (type(x), x)
    r = _RV_CACHE.get(key)
    if r is None:
        f = to_frac(x)
        r = z3.RealVal(f"{f.numerator}/{f.denominator}")
        _RV_CACHE[key] = r
    return r


def iv(x):
    if isinstance(x, SI):
        return x.e
    if isinstance(x, SB):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(int(x))


def is_sym(x) -> bool:
    return isinstance(x, (SF, SI, SB))


def _num(x) -> bool:
    return isinstance(x, (int, float, decimal.Decimal, SF, SI, SB))


def _special(x) -> bool:
    return isinstance(x, float) and (math.isinf(x) or math.isnan(x))


_math_isinf = math.isinf
_math_isnan = math.isnan


def const_of(e):
    """Return Fraction if z3 arithmetic term is a numeral, otherwise None."""
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return None


def mk(e):
    """Wrap a z3 Real term; fold constants to floats."""
    return SF(e)


class SB:
    """Symbolic boolean."""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().decide(self.e)

    def __and__(self, o):
        return SB(z3.And(self.e, bexpr(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SB(z3.Or(self.e, bexpr(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return SB(z3.Xor(self.e, bexpr(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return SB(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (bool, SB)):
            return SB(self.e == bexpr(o))
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (bool, SB)):
            return SB(self.e != bexpr(o))
        return NotImplemented

    def __hash__(self):
        return self.e.hash()

    def _si(self):
        c = ctx()
        if c.opts.get("exact_angles"):
            return int(c.decide(self.e))
        return SI(iv(self))

    def __mul__(self, o):
        return self._si() * o

    __rmul__ = __mul__

    def __add__(self, o):
        return self._si() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._si() - o

    def __rsub__(self, o):
        return o - self._si()

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __repr__(self):
        return f"SB({self.e})"


def bexpr(x):
    if isinstance(x, SB):
        return x.e
    if isinstance(x, (bool, int)):
        return z3.BoolVal(bool(x))
    raise Unsupported(f"not a boolean: {x!r}")


class _Arith:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __hash__(self):
        return self.e.hash()

    def __bool__(self):
        return ctx().decide(self.e != 0)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _cmp(op, a, b):
    """Compare with at least one symbolic side."""
    for x, y, flip in ((a, b, False), (b, a, True)):
        if _special(x):
            if math_isnan(x):
                return op == "ne"
            pos = x > 0
            if op == "eq":
                return False
            if op == "ne":
                return True
            less = (not pos) != flip  # a < b
            return less if op in ("lt", "le") else not less
    if isinstance(a, (SI, int)) and isinstance(b, (SI, int)):
        l, r = iv(a), iv(b)
    else:
        l, r = rv(a), rv(b)
        if CTX is not None and CTX.opts.get("exact_angles"):
            l, r = CTX.without_common_factor(l, r)
    return SB(
        {
            "lt": lambda: l < r,
            "le": lambda: l <= r,
            "gt": lambda: l > r,
            "ge": lambda: l >= r,
            "eq": lambda: l == r,
            "ne": lambda: l != r,
        }[op]()
    )


math_isnan = math.isnan


def _mkcmp(op):
    def f(self, o):
        if not _num(o):
            return NotImplemented
        return _cmp(op, self, o)

    return f


def _add(a, b):
    for x in (a, b):
        if _special(x):
            return x
    return SF(rv(a) + rv(b))


def _sub(a, b):
    if _special(a):
        return a
    if _special(b):
        return -b
    return SF(rv(a) - rv(b))


def _mul(a, b):
    for x in (a, b):
        if _special(x):
            raise Unsupported("inf * symbolic")
    ca, cb = const_of(rv(a)), const_of(rv(b))
    if ca == 0 or cb == 0:
        return 0.0
    if ca == 1 and isinstance(b, SF):
        return b
    if cb == 1 and isinstance(a, SF):
        return a
    return SF(rv(a) * rv(b))


def _div(a, b):
    if _special(b):
        return 0.0
    if _special(a):
        raise Unsupported("inf / symbolic")
    eb = rv(b)
    cb = const_of(eb)
    if cb is not None:
        if cb == 0:
            raise ZeroDivisionError("float division by zero")
        return SF(rv(a) * z3.RealVal(f"{cb.denominator}/{cb.numerator}"))
    if ctx().decide(eb == 0):
        raise ZeroDivisionError("float division by zero")
    if not isinstance(a, (SF, SI)) and a == 0:
        return 0.0
    return SF(ctx().quotient(rv(a), eb))


def _floor_real(e):
    c = const_of(z3.simplify(e))
    if c is not None:
        return z3.IntVal(math.floor(c))
    return z3.ToInt(e)


class SF(_Arith):
    """Symbolic float, idealised as a real number."""

    __slots__ = ()

    __lt__ = _mkcmp("lt")
    __le__ = _mkcmp("le")
    __gt__ = _mkcmp("gt")
    __ge__ = _mkcmp("ge")
    __eq__ = _mkcmp("eq")
    __ne__ = _mkcmp("ne")
    __hash__ = _Arith.__hash__

    def __add__(self, o):
        return _add(self, o) if _num(o) else NotImplemented

    def __radd__(self, o):
        return _add(o, self) if _num(o) else NotImplemented

    def __sub__(self, o):
        return _sub(self, o) if _num(o) else NotImplemented

    def __rsub__(self, o):
        return _sub(o, self) if _num(o) else NotImplemented

    def __mul__(self, o):
        return _mul(self, o) if _num(o) else NotImplemented

    def __rmul__(self, o):
        return _mul(o, self) if _num(o) else NotImplemented

    def __truediv__(self, o):
        return _div(self, o) if _num(o) else NotImplemented

    def __rtruediv__(self, o):
        return _div(o, self) if _num(o) else NotImplemented

    def __floordiv__(self, o):
        return self._divmod(self, o)[0] if _num(o) else NotImplemented

    def __rfloordiv__(self, o):
        return self._divmod(o, self)[0] if _num(o) else NotImplemented

    def __mod__(self, o):
        return self._divmod(self, o)[1] if _num(o) else NotImplemented

    def __rmod__(self, o):
        return self._divmod(o, self)[1] if _num(o) else NotImplemented

    def __divmod__(self, o):
        return self._divmod(self, o)

    @staticmethod
    def _divmod(a, b):
        q = _div(a, b)
        if ctx().opts.get("exact_angles") and is_sym(q):
            f = ctx().fork_floor(rv(q))
            return float(f), SF(canon(rv(a) - rv(b) * f))
        fl = z3.ToReal(_floor_real(rv(q)))
        return SF(fl), SF(rv(a) - rv(b) * fl)

    def __pow__(self, o):
        return sym_pow(self, o)

    def __rpow__(self, o):
        return sym_pow(o, self)

    def __neg__(self):
        return SF(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SF(z3.If(self.e >= 0, self.e, -self.e))

    def __float__(self):
        raise Unsupported("float() of a symbolic float at a C boundary")

    def __int__(self):
        raise Unsupported("int() of a symbolic float at a C boundary")

    def __trunc__(self):
        return sym_trunc(self)

    def __floor__(self):
        return SI(_floor_real(self.e))

    def __ceil__(self):
        return SI(-_floor_real(-self.e))

    def __round__(self, n=None):
        return sym_round(self, n)

    def is_integer(self):
        return SB(z3.IsInt(self.e))

    def as_integer_ratio(self):
        raise Unsupported("as_integer_ratio")

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def __repr__(self):
        return ctx().fmt(self, "")

    __str__ = __repr__

    def __format__(self, spec):
        return ctx().fmt(self, spec)


def sym_trunc(x):
    e = canon(rv(x))
    c = const_of(z3.simplify(e))
    if c is not None:
        return math_trunc(c)
    if ctx().opts.get("exact_trunc"):
        return SF(e)
    return SI(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))


math_trunc = math.trunc


def sym_round(x, n=None):
    """Round half to even on the real line."""
    if n is not None and is_sym(n):
        n = int(n)
    scale = 10 ** (n or 0)
    e = rv(x) * rv(Fraction(scale))
    fl = z3.ToInt(e)
    diff = e - z3.ToReal(fl)
    half = rv(Fraction(1, 2))
    r = z3.If(
        diff < half, fl, z3.If(diff > half, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1))
    )
    if n is None:
        return SI(r)
    return SF(z3.ToReal(r) / rv(Fraction(scale)))


class SI(_Arith):
    """Symbolic int (mathematical integer, as in Python)."""

    __slots__ = ()

    __lt__ = _mkcmp("lt")
    __le__ = _mkcmp("le")
    __gt__ = _mkcmp("gt")
    __ge__ = _mkcmp("ge")
    __eq__ = _mkcmp("eq")
    __ne__ = _mkcmp("ne")
    __hash__ = _Arith.__hash__

    @staticmethod
    def _ii(o):
        return isinstance(o, (int, SI, SB))

    def _bin(self, o, fi, ff, swap=False):
        if not _num(o):
            return NotImplemented
        a, b = (o, self) if swap else (self, o)
        if self._ii(o):
            return SI(fi(iv(a), iv(b)))
        return ff(a, b)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, _add)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, _add, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, _sub)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, _sub, True)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * int(self)
        return self._bin(o, lambda a, b: a * b, _mul)

    def __rmul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * int(self)
        return self._bin(o, lambda a, b: a * b, _mul, True)

    def __truediv__(self, o):
        return _div(self, o) if _num(o) else NotImplemented

    def __rtruediv__(self, o):
        return _div(o, self) if _num(o) else NotImplemented

    @staticmethod
    def _idivmod(a, b):
        ea, eb = iv(a), iv(b)
        if ctx().decide(eb == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        # Python floors; SMT-LIB div/mod is Euclidean.
        if ctx().decide(eb > 0):
            return SI(ea / eb), SI(ea % eb)
        return SI((-ea) / (-eb)), SI(-((-ea) % (-eb)))

    def __floordiv__(self, o):
        if self._ii(o):
            return self._idivmod(self, o)[0]
        return SF._divmod(self, o)[0] if _num(o) else NotImplemented

    def __rfloordiv__(self, o):
        if self._ii(o):
            return self._idivmod(o, self)[0]
        return SF._divmod(o, self)[0] if _num(o) else NotImplemented

    def __mod__(self, o):
        if self._ii(o):
            return self._idivmod(self, o)[1]
        return SF._divmod(self, o)[1] if _num(o) else NotImplemented

    def __rmod__(self, o):
        if self._ii(o):
            return self._idivmod(o, self)[1]
        return SF._divmod(o, self)[1] if _num(o) else NotImplemented

    def __divmod__(self, o):
        return (self // o, self % o)

    def __pow__(self, o):
        return sym_pow(self, o)

    def __rpow__(self, o):
        return sym_pow(o, self)

    def __neg__(self):
        return SI(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SI(z3.If(self.e >= 0, self.e, -self.e))

    def __float__(self):
        raise Unsupported("float() of a symbolic int at a C boundary")

    def __index__(self):
        return ctx().concretize_int(self.e)

    __int__ = __index__

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def __lshift__(self, o):
        return self * (1 << int(o))

    def __rshift__(self, o):
        return self // (1 << int(o))

    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return SI(self.e % (o + 1))
        return int(self) & int(o)

    def __rand__(self, o):
        return self.__and__(o)

    def __or__(self, o):
        return int(self) | int(o)

    __ror__ = __or__

    def is_integer(self):
        return True

    def __repr__(self):
        return ctx().fmt(self, "")

    __str__ = __repr__

    def __format__(self, spec):
        return ctx().fmt(self, spec)


def sym_pow(a, b):
    if isinstance(b, (SF, SI)):
        b = const_of(z3.simplify(b.e))
        if b is None:
            raise Unsupported("symbolic exponent")
        b = int(b) if b.denominator == 1 else float(b)
    if b == 0.5:
        return sym_sqrt(a)
    if float(b).is_integer():
        b = int(b)
        if b == 0:
            return 1
        r = a
        for _ in range(abs(b) - 1):
            r = r * a
        return 1 / r if b < 0 else r
    raise Unsupported(f"power {b}")


def sym_sqrt(x):
    return ctx().sqrt(x)


class _TermMap:
    """dict keyed by z3 terms (structural)."""

    def __init__(self):
        self.d = {}

    def get(self, *terms):
        r = self.d.get(tuple(t.get_id() for t in terms))
        return None if r is None else r[1]

    def set(self, value, *terms):
        # keep the terms alive so that ids are not reused
        self.d[tuple(t.get_id() for t in terms)] = (terms, value)

    def items(self):
        return [(k, v) for (k, v) in self.d.values()]


PI = Fraction(repr(math.pi))


class _TooBig(Exception):
    pass


class Poly:
    """Normal form of arithmetic terms: sums of monomials over atoms.

    A monomial is a sorted tuple of (atom key, power); powers of an atom which is
    known to be nonzero on the path may be negative.  Squares of square roots and
    of sines are rewritten with their defining equations.
    """

    LIMIT = 1500

    def __init__(self):
        self.memo = {}
        self.atoms = {}  # key -> z3 term
        self.keys = {}
        self.rules = {}  # atom key -> polynomial of its square

    def key(self, t):
        i = t.get_id()
        k = self.keys.get(i)
        if k is None:
            k = self.keys[i] = len(self.atoms)
            self.atoms[k] = t
        return k

    def square_rule(self, var, e):
        self.rules[self.key(var)] = self.of(e)

    def mul(self, a, b):
        if len(a) * len(b) > self.LIMIT:
            raise _TooBig
        out = {}
        for ma, ca in a.items():
            for mb, cb in b.items():
                if not ma:
                    m = mb
                elif not mb:
                    m = ma
                else:
                    d = dict(ma)
                    for k, n in mb:
                        n += d.get(k, 0)
                        if n:
                            d[k] = n
                        else:
                            d.pop(k, None)
                    m = tuple(sorted(d.items()))
                out[m] = out.get(m, 0) + ca * cb
        return self.reduce({m: c for m, c in out.items() if c})

    def reduce(self, p):
        if not self.rules:
            return p
        for m in p:
            for k, n in m:
                if n >= 2 and k in self.rules:
                    break
            else:
                continue
            break
        else:
            return p
        out = {}
        for m, c in p.items():
            hit = next(((k, n) for k, n in m if n >= 2 and k in self.rules), None)
            if hit is None:
                q = {m: c}
            else:
                k, n = hit
                rest = tuple(x for x in m if x[0] != k)
                if n > 2:
                    rest = tuple(sorted(rest + ((k, n - 2),)))
                q = self.mul({rest: c}, self.rules[k])
            for mm, cc in q.items():
                out[mm] = out.get(mm, 0) + cc
        return {m: c for m, c in out.items() if c}

    def of(self, e):
        i = e.get_id()
        r = self.memo.get(i)
        if r is None:
            r = self._of(e)
            self.memo[i] = (e, r)
            return r
        return r[1]

    def _of(self, e):
        c = const_of(e)
        if c is not None:
            return {(): c} if c else {}
        k = e.decl().kind()
        if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
            out = {}
            for n, ch in enumerate(e.children()):
                sg = -1 if n and k == z3.Z3_OP_SUB else 1
                for m, c in self.of(ch).items():
                    out[m] = out.get(m, 0) + sg * c
            if len(out) > self.LIMIT:
                raise _TooBig
            return {m: c for m, c in out.items() if c}
        if k == z3.Z3_OP_UMINUS:
            return {m: -c for m, c in self.of(e.arg(0)).items()}
        if k == z3.Z3_OP_MUL:
            out = {(): Fraction(1)}
            for ch in e.children():
                out = self.mul(out, self.of(ch))
            return out
        if k == z3.Z3_OP_TO_REAL:
            return self.of(e.arg(0)) if e.arg(0).decl().kind() in (
                z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_UNINTERPRETED
            ) and const_of(e.arg(0)) is None else {((self.key(e), 1),): Fraction(1)}
        if k == z3.Z3_OP_DIV:
            b = self.of(e.arg(1))
            if len(b) == 1:
                (m, c), = b.items()
                return self.mul(self.of(e.arg(0)), {tuple((x, -n) for x, n in m): 1 / c})
            a = self.of(e.arg(0))
            one = z3.RealVal(1) / self.term(b)
            return self.mul(a, {((self.key(one), 1),): Fraction(1)})
        if k == z3.Z3_OP_POWER:
            n = const_of(e.arg(1))
            if n is not None and n.denominator == 1 and 0 <= n <= 8:
                out = {(): Fraction(1)}
                for _ in range(int(n)):
                    out = self.mul(out, self.of(e.arg(0)))
                return out
        if k == z3.Z3_OP_ITE:
            t = z3.If(e.arg(0), self.term(self.of(e.arg(1))), self.term(self.of(e.arg(2))))
            if t.arg(1).eq(t.arg(2)):
                return self.of(t.arg(1))
            return {((self.key(t), 1),): Fraction(1)}
        return {((self.key(e), 1),): Fraction(1)}

    def term(self, p):
        if not p:
            return z3.RealVal(0)
        ts = []
        for m, c in sorted(p.items()):
            fs = []
            den = []
            for k, n in m:
                a = self.atoms[k]
                if a.sort() == z3.IntSort():
                    a = z3.ToReal(a)
                (fs if n > 0 else den).extend([a] * abs(n))
            cv = z3.RealVal(f"{c.numerator}/{c.denominator}")
            if not fs:
                t = cv
            elif c == 1:
                t = fs[0] if len(fs) == 1 else z3.Product(fs)
            else:
                t = z3.Product([cv, *fs]) if len(fs) > 1 else cv * fs[0]
            if den:
                t = t / (den[0] if len(den) == 1 else z3.Product(den))
            ts.append(t)
        return ts[0] if len(ts) == 1 else z3.Sum(ts)


def canon(e):
    c = CTX
    if c is None:
        return z3.simplify(e, som=True, arith_lhs=False)
    if e.sort() == z3.IntSort():
        return z3.simplify(e, som=True, arith_lhs=False)
    P = c.poly
    try:
        return P.term(P.of(e))
    except _TooBig:
        return z3.simplify(e, som=True, arith_lhs=False)


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.sat = self.unsat = self.unknown = 0
        self.paths = 0
        self.aborted = 0
        self.decisions = 0
        self.forks = 0
        self.obligations = 0
        self.discharged = 0
        self.simplified = 0
        self.restricted = 0
        self.batch_unsat = self.batch_unknown = 0
        self.undecided = 0

    def as_dict(self):
        return dict(self.__dict__)

    def merge(self, d):
        for k, v in d.items():
            setattr(self, k, getattr(self, k, 0) + v)


class Ctx:
    """One path of one scenario."""

    def __init__(self, prefix, stats, opts):
        self.prefix = prefix
        self.taken: list[bool] = []
        self.pending: list[list[bool]] = []
        self.stats: Stats = stats
        self.opts = opts
        self.timeout = opts.get("timeout_ms", 4000)
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout)
        self.solver.set("random_seed", opts.get("seed", 0) or 0)
        self.pc: list = []
        self.lin = z3.Solver()
        self.lin.set("timeout", 5000)
        self.hard = 0
        self.inputs: dict = {}  # name -> ("real"|"int"|"bool"|"str", ...)
        self.poly = Poly()
        self.mag: dict = {}  # variable name -> bound of its absolute value
        self.notes: list = []
        self.counter = 0
        self._sqrt = _TermMap()
        self._quot = _TermMap()
        self._trig: list = []  # (canonical angle term, cos var, sin var)
        self._trigmap = _TermMap()
        self._atan = _TermMap()
        self._fmt_tokens: dict = {}
        self.fmt_mode = "opaque"
        self.fmt_repr = False
        self.chars: dict = {}  # codepoint -> SymChar (see strings.py)
        self.next_cp = 0xE000
        self.tokens: dict = {}
        self.next_token = 0
        self.deadline = opts.get("deadline")

    # ------------------------------------------------------------ plumbing
    def fresh(self, base, sort="real"):
        self.counter += 1
        n = f"{base}!{self.counter}"
        return {"real": z3.Real, "int": z3.Int, "bool": z3.Bool}[sort](n)

    def add(self, c):
        self.pc.append(c)
        self.solver.add(c)
        if _is_linear(c):
            self.lin.add(c)
        else:
            self.hard += 1

    def _linear_unsat(self, assumptions):
        """True when the linear constraints alone exclude the assumptions."""
        return self.hard > 3 and all(_is_linear(a) for a in assumptions) and self.lin.check(*assumptions) == z3.unsat

    def _check(self, *assumptions):
        if self.deadline and time.time() > self.deadline:
            raise Budget("deadline")
        t = time.time()
        if self._linear_unsat(assumptions):
            r = z3.unsat
        else:
            r = self.solver.check(*assumptions)
        if r == z3.unknown:
            r = self._second_opinion(assumptions)
        dt = time.time() - t
        st = self.stats
        st.queries += 1
        st.solver_s += dt
        if r == z3.sat:
            st.sat += 1
        elif r == z3.unsat:
            st.unsat += 1
        else:
            st.unknown += 1
        return r

    def _second_opinion(self, assumptions):
        """Fresh, non incremental solver (nlsat for nonlinear reals)."""
        for mkr in (
            lambda: z3.SolverFor("QF_NRA"),
            lambda: z3.Then("simplify", "solve-eqs", "smt").solver(),
        ):
            try:
                s = mkr()
                s.set("timeout", self.timeout)
                s.add(*self.pc)
                s.add(*assumptions)
                r = s.check()
            except z3.Z3Exception:
                continue
            if r != z3.unknown:
                self._last = s
                return r
        return z3.unknown

    def feasible(self, c):
        return self._check(c) != z3.unsat

    def assume(self, c):
        c = c.e if isinstance(c, SB) else c
        if isinstance(c, bool):
            if not c:
                raise PathAbort("assume(False)")
            return
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathAbort("assume(False)")
        self.add(c)
        self._assumed = True

    def decide(self, cond) -> bool:
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = len(self.taken)
        self.stats.decisions += 1
        if i < len(self.prefix):
            v = self.prefix[i]
            self.taken.append(v)
            self.add(cond if v else z3.Not(cond))
            return v
        if i > self.opts.get("max_depth", 2000):
            raise Budget("decision depth")
        t = self.feasible(cond)
        if not t:
            # pc |= not cond; (an infeasible pc makes both sides infeasible)
            self.taken.append(False)
            self.add(z3.Not(cond))
            return False
        f = self.feasible(z3.Not(cond))
        if f:
            self.pending.append(self.taken + [False])
            self.stats.forks += 1
        self.taken.append(True)
        self.add(cond)
        return True

    def concretize_int(self, e):
        e = z3.simplify(e)
        c = const_of(e)
        if c is not None:
            return int(c)
        tried = 0
        while True:
            tried += 1
            if tried > 4096:
                raise Unsupported("unbounded integer needed concretely")
            v = self._candidate(e)
            if self.decide(e == v):
                return v

    def _candidate(self, e):
        """Smallest feasible value of an integer term (deterministic)."""
        r = self._check()
        if r == z3.unsat:
            raise PathAbort("infeasible")
        if r == z3.unknown:
            raise Unsupported("integer concretisation undecided")
        v = self._model_last().eval(e, model_completion=True).as_long()
        # walk down to the minimum by bisection with galloping
        step = 1
        best = v
        while True:
            if self._check(e < best) != z3.sat:
                return best
            m = self._model_last().eval(e, model_completion=True).as_long()
            best = m
            while self._check(e <= best - step) == z3.sat:
                best = self._model_last().eval(e, model_completion=True).as_long()
                step *= 2
                if step > 1 << 40:
                    raise Unsupported("unbounded integer needed concretely")
            step = 1

    def _model_last(self):
        try:
            return self.solver.model()
        except z3.Z3Exception:
            return self._last.model()

    # --------------------------------------------------------- definitions
    def sqrt(self, x):
        e = canon(rv(x))
        c = const_of(e)
        if c is not None:
            if c < 0:
                raise ValueError("math domain error")
            return _real_math["sqrt"](float(c))
        if self.opts.get("exact_angles"):
            r = self._square_root(e)
            if r is not None:
                return SF(r) if self.decide(r >= 0) else SF(canon(-r))
        s = self._sqrt.get(e)
        if s is None:
            if self.decide(e < 0):
                raise ValueError("math domain error")
            s = self.fresh("sqrt")
            self.add(s >= 0)
            self.add(s * s == e)
            try:
                self.poly.square_rule(s, e)
            except _TooBig:
                pass
            self._sqrt.set(s, e)
        return SF(s)

    def _square_root(self, e):
        """Term whose square is `e` when `e` is a single square monomial."""
        try:
            p = self.poly.of(e)
        except _TooBig:
            return None
        if len(p) != 1:
            return None
        (m, c), = p.items()
        if c <= 0 or any(n % 2 for _, n in m):
            return None
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n != c.numerator or d * d != c.denominator:
            return None
        return self.poly.term({tuple((k, n // 2) for k, n in m): Fraction(n, d)})

    def fork_floor(self, e, lim=8):
        """floor(e) as a concrete integer, one path per value."""
        e = canon(e)
        for v in [0, -1, 1, -2, 2, 3, -3, 4, -4, 5, -5, 6, -6, 7, -7, 8, -8]:
            if self.decide(z3.And(e >= v, e < v + 1)):
                return v
        raise Unsupported("floor of a number out of bounds")

    def without_common_factor(self, l, r):
        """Equivalent sides of a comparison, divided by positive inputs they share."""
        try:
            p = self.poly.of(l - r)
        except _TooBig:
            return l, r
        if not p or len(p) > 30:
            return (rv(0), rv(0)) if not p else (l, r)
        common = None
        for m in p:
            common = dict(m) if common is None else {k: min(n, common[k]) for k, n in m if k in common}
        drop = {}
        for k, n in common.items():
            t = self.poly.atoms[k]
            i = self.inputs.get(t.decl().name()) if z3.is_const(t) else None
            if n > 0 and i is not None and i[0] == "real" and i[2] > 0:
                drop[k] = n
        if not drop:
            return l, r
        q = {tuple((k, n - drop.get(k, 0)) for k, n in m if n - drop.get(k, 0)): c for m, c in p.items()}
        return self.poly.term(q), rv(0)

    def _known_angle(self, ey, ex):
        """Degrees of the vector (ex, ey) when it is the direction of an angle known
        on this path (or of a sum or difference of two of them); None otherwise."""
        try:
            y, x = self.poly.of(ey), self.poly.of(ex)
            known = [(k[0], self.poly.of(c), self.poly.of(s)) for k, (c, s) in self._trigmap.items()]
        except _TooBig:
            return None
        mul = self.poly.mul

        def sub(a, b):
            out = dict(a)
            for m, c in b.items():
                out[m] = out.get(m, 0) - c
            return {m: c for m, c in out.items() if c}

        def neg(a):
            return {m: -c for m, c in a.items()}

        def add(a, b):
            return sub(a, neg(b))

        def cands():
            for d, c, s in known:
                yield d, c, s
                yield -d, c, neg(s)
            for i, (d, c, s) in enumerate(known[:6]):
                for d2, c2, s2 in known[:i]:
                    cc, ss, sc, cs = mul(c, c2), mul(s, s2), mul(s, c2), mul(c, s2)
                    yield d - d2, add(cc, ss), sub(sc, cs)
                    yield d2 - d, add(cc, ss), sub(cs, sc)
                    yield d + d2, sub(cc, ss), add(sc, cs)
                    yield -d - d2, sub(cc, ss), neg(add(sc, cs))

        for d, c, s in cands():
            try:
                for turn, (cq, sq) in enumerate(((c, s), (neg(s), c), (neg(c), neg(s)), (s, neg(c)))):
                    if sub(mul(y, cq), mul(x, sq)):
                        continue
                    rho = self.poly.term(add(mul(x, cq), mul(y, sq)))
                    if not self.feasible(rho <= 0):
                        return canon(d + 90 * turn)
            except _TooBig:
                continue
        return None

    def quotient(self, a, b):
        """a / b with b != 0 already on the path."""
        return a / b

    def angle_pair(self, angle_rad):
        """(cos, sin) terms of an angle given in radians."""
        e = canon(rv(angle_rad) * rv(Fraction(180) / PI))  # in degrees
        e = _mod_turns(e)
        c = const_of(e)
        if c is not None:
            a = float(angle_rad) if not is_sym(angle_rad) else float(c / 180 * PI)
            return snap(_real_math["cos"](a)), snap(_real_math["sin"](a))
        neg = canon(-e)
        r = self._trigmap.get(e)
        if r is not None:
            return SF(r[0]), SF(r[1])
        r = self._trigmap.get(neg)
        if r is not None:
            return SF(r[0]), SF(-r[1])
        # offset by a multiple of 90 degrees from a known angle
        for k, (cv, sv) in self._trigmap.items():
            d = const_of(canon(e - k[0]))
            if d is not None and d % 90 == 0:
                q = int(d // 90) % 4
                return [
                    (SF(cv), SF(sv)),
                    (SF(-sv), SF(cv)),
                    (SF(-cv), SF(-sv)),
                    (SF(sv), SF(-cv)),
                ][q]
            d = const_of(canon(e + k[0]))
            if d is not None and d % 90 == 0:
                q = int(d // 90) % 4
                c2, s2 = cv, -sv
                return [
                    (SF(c2), SF(s2)),
                    (SF(-s2), SF(c2)),
                    (SF(-c2), SF(-s2)),
                    (SF(s2), SF(-c2)),
                ][q]
        cv, sv = self.fresh("cos"), self.fresh("sin")
        self.add(cv * cv + sv * sv == 1)
        self.poly.square_rule(sv, 1 - cv * cv)
        for k in range(-4, 5):
            self.add(z3.Implies(e == 90 * k, z3.And(
                cv == (1, 0, -1, 0)[k % 4], sv == (0, 1, 0, -1)[k % 4])))
        self.mag[cv.decl().name()] = self.mag[sv.decl().name()] = 1
        self._trigmap.set((cv, sv), e)
        return SF(cv), SF(sv)

    def atan2(self, y, x):
        ey, ex = canon(rv(y)), canon(rv(x))
        cy, cx = const_of(ey), const_of(ex)
        if cy is not None and cx is not None:
            return _real_math["atan2"](float(cy), float(cx))
        t = self._atan.get(ey, ex)
        if t is not None:
            return SF(t)
        if self.opts.get("exact_angles"):
            phi = self._known_angle(ey, ex)
            if phi is not None:
                while self.decide(phi > 180):
                    phi = canon(phi - 360)
                while self.decide(phi <= -180):
                    phi = canon(phi + 360)
                rad = canon(phi * rv(PI / 180))
                self._atan.set(rad, ey, ex)
                return SF(rad)
        # theta in degrees; radians = theta * pi / 180
        th = self.fresh("atan")
        A = self.add
        A(th > -180)
        A(th <= 180)
        A(z3.Implies(ey > 0, z3.And(th > 0, th < 180)))
        A(z3.Implies(ey < 0, z3.And(th < 0)))
        A(z3.Implies(z3.And(ey == 0, ex >= 0), th == 0))
        A(z3.Implies(z3.And(ey == 0, ex < 0), th == 180))
        A(z3.Implies(z3.And(ex == 0, ey > 0), th == 90))
        A(z3.Implies(z3.And(ex == 0, ey < 0), th == -90))
        A(z3.Implies(z3.And(ex > 0, ey != 0), z3.And(th > -90, th < 90)))
        A(z3.Implies(z3.And(ex < 0, ey > 0), th > 90))
        A(z3.Implies(z3.And(ex < 0, ey < 0), th < -90))
        # diagonal: exact comparison of |y| and |x|
        A(z3.Implies(z3.And(ey == ex, ex > 0), th == 45))
        A(z3.Implies(z3.And(ey == -ex, ex > 0), th == -45))
        rad = canon(th * rv(PI / 180))
        self._atan.set(rad, ey, ex)
        # cos/sin of theta tie back to (x, y)
        if self.opts.get("atan_trig", False):
            n = self.sqrt(SF(ey * ey + ex * ex))
            c, s = self.angle_pair(SF(rad))
            A(z3.Implies(rv(n) > 0, z3.And(rv(c) * rv(n) == ex, rv(s) * rv(n) == ey)))
        return SF(rad)

    # ------------------------------------------------------------- strings
    def fmt(self, x, spec):
        from vf import strings

        return strings.format_symbolic(self, x, spec)

    # -------------------------------------------------------------- tokens
    def token_for(self, x):
        """Concrete stand-in of a symbolic number for C-level validators."""
        self.next_token += 1
        if isinstance(x, SI):
            t = 900_000_000_000 + self.next_token
            self.tokens[(int, t)] = x
            self.tokens[(float, float(t))] = SF(z3.ToReal(x.e))
            return t
        t = 1.0e-3 + self.next_token * 1.0e-9
        self.tokens[(float, t)] = x
        return t


_LIN: dict = {}
_HARD_VARS = ("cos!", "sin!", "sqrt!")


def _is_linear(e):
    """No product of variables and no trigonometric variable."""
    if isinstance(e, bool):
        return True
    k = e.get_id()
    r = _LIN.get(k)
    if r is not None:
        return r[1]
    kind = e.decl().kind() if z3.is_app(e) else None
    ok = kind is not None
    if ok:
        ch = e.children()
        if kind == z3.Z3_OP_MUL:
            ok = sum(not (z3.is_rational_value(c) or z3.is_int_value(c)) for c in ch) <= 1
        elif kind in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM):
            ok = z3.is_rational_value(ch[1]) or z3.is_int_value(ch[1])
        elif kind == z3.Z3_OP_POWER:
            ok = False
        elif kind == z3.Z3_OP_UNINTERPRETED and not ch:
            ok = not e.decl().name().startswith(_HARD_VARS)
        ok = ok and all(_is_linear(c) for c in ch)
    if len(_LIN) > 500000:
        _LIN.clear()
    _LIN[k] = (e, ok)
    return ok


def _monomial_bound(mag, t):
    """Bound of the absolute value of a monomial, None if not known."""
    c = const_of(t)
    if c is not None:
        return abs(c)
    if z3.is_mul(t):
        b = Fraction(1)
        for ch in t.children():
            k = _monomial_bound(mag, ch)
            if k is None:
                return None
            b *= k
        return b
    if z3.is_app_of(t, z3.Z3_OP_POWER):
        k = _monomial_bound(mag, t.arg(0))
        n = const_of(t.arg(1))
        if k is None or n is None or n.denominator != 1 or n < 0:
            return None
        return k ** int(n)
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        return _monomial_bound(mag, t.arg(0))
    if z3.is_app_of(t, z3.Z3_OP_UMINUS):
        return _monomial_bound(mag, t.arg(0))
    if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return mag.get(t.decl().name())
    return None


def strip_tiny(ctx, e, limit=Fraction(1, 10**8)):
    """Drop monomials which rounding of float constants leaves behind.

    Returns (remaining term, bound of what was dropped)."""
    if not z3.is_add(e):
        b = _monomial_bound(ctx.mag, e)
        if b is not None and b <= limit:
            return z3.RealVal(0), b
        return e, Fraction(0)
    keep, dropped = [], Fraction(0)
    for t in e.children():
        b = _monomial_bound(ctx.mag, t)
        if b is not None and dropped + b <= limit:
            dropped += b
        else:
            keep.append(t)
    if not keep:
        return z3.RealVal(0), dropped
    if len(keep) == e.num_args():
        return e, Fraction(0)
    return (keep[0] if len(keep) == 1 else z3.Sum(keep)), dropped


def _mod_turns(e):
    """Drop whole turns (360 * integer term) from an angle in degrees."""
    ts = e.children() if z3.is_add(e) else [e]
    keep = []
    for t in ts:
        if z3.is_mul(t) and t.num_args() == 2:
            c = const_of(t.arg(0))
            if c is not None and c % 360 == 0 and z3.is_app_of(t.arg(1), z3.Z3_OP_TO_REAL):
                continue
        keep.append(t)
    if len(keep) == len(ts):
        return e
    return canon(z3.Sum(keep)) if keep else z3.RealVal(0)


def snap(v):
    for k in (0.0, 1.0, -1.0):
        if abs(v - k) < 1e-15:
            return k
    return v

"""Symbolic strings.

A symbolic string is an ordinary `str` in which every symbolic character is a
Unicode private-use code point registered in the current path.  Concatenation,
slicing, joining, f-strings and stream writes therefore need no model at all;
only *inspections* of characters do, and these are modelled here.
"""

from __future__ import annotations

import re as _re
from fractions import Fraction

import z3

from vf.core import SB, SF, SI, PathAbort, Unsupported, canon, const_of, iv, mk, rv

LO, HI = 0xE000, 0xF8FF
_SYM = _re.compile("[\ue000-\uf8ff]")
DIGITS = frozenset("0123456789")


def has_sym(s) -> bool:
    return isinstance(s, str) and not s.isascii() and _SYM.search(s) is not None


class SymChar:
    """One character: concrete domain and a z3 Int term of its code point."""

    def __init__(self, dom, code=None, num=None, idx=None):
        self.dom = frozenset(dom)
        self._code = code
        self.num = num  # Num, for digits of a number
        self.idx = idx

    @property
    def code(self):
        if self._code is None:
            if self.idx == -1:  # sign character
                self._code = z3.If(self.num.value < 0, z3.IntVal(45), z3.IntVal(43))
            else:
                self._code = self.num.digit(self.idx) + 48
        return self._code

    def digit_value(self):
        if self.num is not None:
            return self.num.digit(self.idx)
        return self._code - 48


class Opaque:
    """A whole formatted number standing as one code point."""

    def __init__(self, value, spec):
        self.value = value
        self.spec = spec
        self.dom = frozenset()
        self.num = None

    @property
    def code(self):
        raise Unsupported("character of an opaque number inspected")


class Num:
    """`n` decimal digits whose integer reading is `value` (z3 Int or Real)."""

    def __init__(self, ctx, value, n, signed=False):
        self.ctx = ctx
        self.value = value  # signed reading if `signed`
        self.n = n
        self.signed = signed
        self._d = None

    @property
    def magnitude(self):
        v = self.value
        return z3.If(v < 0, -v, v) if self.signed else v

    def real(self):
        """Integer reading of the digits alone."""
        v = self.magnitude
        return z3.ToReal(v) if v.sort() == z3.IntSort() else v

    def digit(self, i):
        if self._d is None:
            c = self.ctx
            self._d = [c.fresh("dig", "int") for _ in range(self.n)]
            for d in self._d:
                c.add(d >= 0)
                c.add(d <= 9)
            tot = z3.IntVal(0)
            for d in self._d:
                tot = tot * 10 + d
            tot = z3.simplify(tot)
            if self.value.sort() == z3.IntSort():
                c.add(tot == self.magnitude)
            else:
                c.add(z3.ToReal(tot) == self.magnitude)
        return self._d[i]


def new_char(ctx, ch) -> str:
    cp = ctx.next_cp
    if cp > HI:
        raise Unsupported("too many symbolic characters")
    ctx.next_cp += 1
    ctx.chars[cp] = ch
    return chr(cp)


def digits_of(ctx, num) -> str:
    return "".join(new_char(ctx, SymChar(DIGITS, None, num, i)) for i in range(num.n))


def signed_digits_of(ctx, num) -> str:
    return new_char(ctx, SymChar("+-", None, num, -1)) + digits_of(ctx, num)


def get(ctx, c):
    return ctx.chars.get(ord(c))


def char_is(ctx, c, k):
    """Condition: (possibly symbolic) char c equals (possibly symbolic) char k."""
    a, b = get(ctx, c), get(ctx, k)
    if a is None and b is None:
        return c == k
    if c == k:
        return True
    if a is not None and b is not None:
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if isinstance(a, Opaque) and isinstance(b, Opaque):
                return False
            raise Unsupported("opaque number compared with a symbolic character")
        if not (a.dom & b.dom):
            return False
        return SB(a.code == b.code)
    if a is None:
        a, k = b, c
    if isinstance(a, Opaque):
        return _opaque_vs_concrete(a, k)
    if k not in a.dom:
        return False
    if len(a.dom) == 1:
        return True
    if a.dom <= DIGITS:
        return SB(a.digit_value() == int(k))
    return SB(a.code == ord(k))


def _opaque_vs_concrete(a, k):
    if k in "0123456789+-.einfa":
        raise Unsupported("character of an opaque number inspected")
    return False


def _land(conds):
    es = []
    for c in conds:
        if c is False:
            return False
        if c is True:
            continue
        es.append(c.e)
    if not es:
        return True
    return SB(z3.And(*es))


def _lor(conds):
    es = []
    for c in conds:
        if c is True:
            return True
        if c is False:
            continue
        es.append(c.e)
    if not es:
        return False
    return SB(z3.Or(*es))


def str_eq(ctx, a, b):
    if len(a) != len(b):
        return False
    if a == b:
        return True
    return _land(char_is(ctx, x, y) for x, y in zip(a, b))


def _neg(r):
    return (not r) if isinstance(r, bool) else SB(z3.Not(r.e))


def compare(op, a, b):
    from vf import core

    if op in ("Eq", "NotEq"):
        if not (isinstance(a, str) and isinstance(b, str)):
            return NotImplemented
        if not (has_sym(a) or has_sym(b)):
            return NotImplemented
        r = str_eq(core.ctx(), a, b)
        return r if op == "Eq" else _neg(r)
    # In / NotIn
    if isinstance(b, str):
        if not isinstance(a, str) or not (has_sym(a) or has_sym(b)):
            return NotImplemented
        c = core.ctx()
        n = len(a)
        r = _lor(str_eq(c, a, b[i : i + n]) for i in range(len(b) - n + 1))
        return r if op == "In" else _neg(r)
    if isinstance(a, str) and isinstance(b, (list, tuple, set, frozenset, dict)):
        inside = core.CTX is not None and any(isinstance(x, str) and has_sym(x) for x in b)
        if not inside and not has_sym(a):
            return NotImplemented
        c = core.ctx()
        if len(a) == 1 and not inside:
            r = in_set(c, a, [x for x in b if isinstance(x, str) and len(x) == 1])
        else:
            r = _lor(str_eq(c, a, x) for x in b if isinstance(x, str))
        return r if op == "In" else _neg(r)
    return NotImplemented


def resolve(ctx, s, relevant):
    """Fork until every char of s is known to be (or not to be) in `relevant`."""
    out = []
    for c in s:
        ch = get(ctx, c)
        if ch is None or isinstance(ch, Opaque):
            out.append(c)
            continue
        dom = set(ch.dom)
        hit = None
        for k in sorted(ch.dom & relevant):
            r = char_is(ctx, c, k)
            if r is True or (not isinstance(r, bool) and bool(r)):
                hit = k
                break
            dom.discard(k)
        if hit is None:
            if not dom:
                raise PathAbort("empty character domain")
            ch.dom = frozenset(dom)
            out.append(c)
        else:
            out.append(hit)
    return "".join(out)


def in_set(ctx, c, chars):
    ch = get(ctx, c)
    if ch is not None and not isinstance(ch, Opaque) and ch.dom <= frozenset(chars):
        return True
    return _lor(char_is(ctx, c, k) for k in chars)


def method(ctx, s, name, args, kw):
    if name in ("lstrip", "rstrip", "strip"):
        chars = args[0] if args and args[0] is not None else " \t\n\r\x0b\x0c"
        i, j = 0, len(s)
        if name != "rstrip":
            while i < j and in_set(ctx, s[i], chars):
                i += 1
        if name != "lstrip":
            while j > i and in_set(ctx, s[j - 1], chars):
                j -= 1
        return s[i:j]
    if name in ("startswith", "endswith"):
        p = args[0]
        ps = p if isinstance(p, tuple) else (p,)
        rest = args[1:]
        t = s[slice(*rest)] if rest else s
        out = []
        for q in ps:
            if len(q) > len(t):
                out.append(False)
            elif name == "startswith":
                out.append(str_eq(ctx, t[: len(q)], q))
            else:
                out.append(str_eq(ctx, t[len(t) - len(q) :], q))
        return _lor(out)
    if name in ("isdigit", "isdecimal", "isnumeric", "isalpha", "isalnum", "isspace", "isupper", "islower"):
        if not s:
            return False
        out = []
        for c in s:
            ch = get(ctx, c)
            if ch is None:
                out.append(getattr(c, name)())
                continue
            if isinstance(ch, Opaque):
                raise Unsupported("opaque number inspected")
            ok = frozenset(k for k in ch.dom if getattr(k, name)())
            if ok == ch.dom:
                out.append(True)
            elif not ok:
                out.append(False)
            else:
                out.append(in_set(ctx, c, ok))
        return _land(out)
    if name in ("upper", "lower", "casefold"):
        out = []
        for c in s:
            ch = get(ctx, c)
            if ch is None:
                out.append(getattr(c, name)())
            elif isinstance(ch, Opaque):
                out.append(c)
            elif not any(getattr(k, name)() != k for k in ch.dom):
                out.append(c)
            elif not all(k.isascii() for k in ch.dom):
                raise Unsupported(f"str.{name} beyond ASCII")
            else:
                lo, d = (97, -32) if name == "upper" else (65, 32)
                e = ch.code
                out.append(new_char(ctx, SymChar({getattr(k, name)() for k in ch.dom}, z3.If(z3.And(e >= lo, e <= lo + 25), e + d, e))))
        return "".join(out)
    if name in ("title", "capitalize"):
        dom = set()
        for c in s:
            ch = get(ctx, c)
            if ch is not None:
                dom |= {k for k in ch.dom if getattr(k, name)() != k}
        s = resolve(ctx, s, dom)
        return getattr(s, name)()
    if name == "zfill":
        if s and get(ctx, s[0]) is not None and get(ctx, s[0]).dom & {"+", "-"}:
            s = resolve(ctx, s, {"+", "-"})
        return s.zfill(*args)
    relevant = set()
    if not args or args[0] is None:
        relevant |= set(" \t\n\r\x0b\x0c")
    for a in args:
        if isinstance(a, str):
            relevant |= set(a)
    if name == "splitlines":
        relevant |= set("\n\r\x0b\x0c")
    if name == "replace":
        relevant = set(args[0])
    if any(isinstance(a, str) and has_sym(a) for a in args) and name != "replace":
        raise Unsupported(f"str.{name} with a symbolic argument")
    s = resolve(ctx, s, relevant)
    return getattr(s, name)(*args, **kw)


# --------------------------------------------------------------- numbers


def sym_ord(ctx, c):
    return SI(get(ctx, c).code)


def _digit_run(ctx, s):
    """Integer reading of a string of digits -> (z3 Real term)."""
    # strip concrete zeros, look for a complete run of one number
    n = len(s)
    i = 0
    while i < n and s[i] == "0":
        i += 1
    j = n
    while j > i and s[j - 1] == "0":
        j -= 1
    core_s = s[i:j]
    if core_s:
        f = get(ctx, core_s[0])
        if (
            f is not None
            and not isinstance(f, Opaque)
            and f.num is not None
            and f.idx == 0
            and len(core_s) == f.num.n
            and all(
                (g := get(ctx, c)) is not None
                and not isinstance(g, Opaque)
                and g.num is f.num
                and g.idx == k
                for k, c in enumerate(core_s)
            )
        ):
            return f.num.real() * rv(Fraction(10 ** (n - j)))
    tot = z3.IntVal(0)
    for c in s:
        tot = tot * 10 + digit_of(ctx, c, 10)
    return z3.ToReal(z3.simplify(tot))


def _scale_of(x, num):
    """k such that the term x is syntactically num.real() * k."""
    e = rv(x)
    m = num.real()
    if e.eq(m):
        return Fraction(1)
    k = Fraction(1)
    while z3.is_mul(e) and e.num_args() == 2:
        c = const_of(e.arg(1))
        if c is None:
            return None
        k *= c
        e = e.arg(0)
        if e.eq(m):
            return k
    return None


def digit_of(ctx, c, base):
    ch = get(ctx, c)
    if ch is None:
        return z3.IntVal(int(c, base))
    if isinstance(ch, Opaque):
        raise Unsupported("opaque number inspected")
    valid = frozenset(k for k in ch.dom if k.isalnum() and k.isascii() and int(k, 36) < base)
    if valid != ch.dom:
        if not valid or not in_set(ctx, c, valid):
            raise ValueError("invalid literal for int()")
        ch.dom = valid
    if valid <= DIGITS:
        return ch.digit_value()
    e = z3.IntVal(0)
    for k in sorted(valid):
        e = z3.If(ch.code == ord(k), z3.IntVal(int(k, 36)), e)
    return e


_NUMBER = _re.compile(r"\s*([+-]?)(\d*)(?:\.(\d*))?(?:[eE]([+-]?\d+))?\s*$")


def parse_float(ctx, s):
    st = s.strip()
    if len(st) == 1:
        ch = get(ctx, st)
        if isinstance(ch, Opaque):
            return ch.value if isinstance(ch.value, SF) else SF(rv(ch.value))
    # a symbolic sign in front
    first = get(ctx, st[0]) if st else None
    if first is not None and not isinstance(first, Opaque) and first.dom == {"+", "-"}:
        rest = parse_float(ctx, "+" + st[1:]) if has_sym(st[1:]) else float("+" + st[1:])
        if first.idx == -1 and first.num is not None:
            num = first.num
            v = num.value if num.value.sort() != z3.IntSort() else z3.ToReal(num.value)
            # rest == |value| * 10**k  ->  value * 10**k
            ratio = _scale_of(rest, num)
            if ratio is not None:
                return SF(v * rv(ratio))
        return SF(z3.If(first.code == 45, -rv(rest), rv(rest)))
    # resolve non digit possibilities
    for c in s:
        ch = get(ctx, c)
        if ch is not None and not isinstance(ch, Opaque) and not ch.dom <= DIGITS:
            s = resolve(ctx, s, set("+-.eE_ \t\nINFAinfaTYty") | set(ch.dom - DIGITS))
            if not has_sym(s):
                return float(s)
            break
    shadow = "".join("7" if get(ctx, c) is not None else c for c in s)
    m = _NUMBER.match(shadow)
    if not m or not (m.group(2) or m.group(3)):
        float(shadow)  # raises ValueError like the real thing
        raise Unsupported(f"float({shadow!r})")
    a = s[m.start(2) : m.end(2)]
    b = s[m.start(3) : m.end(3)] if m.group(3) is not None else ""
    exp = 0
    if m.group(4) is not None:
        es = s[m.start(4) : m.end(4)]
        exp = int(es) if not has_sym(es) else int(parse_int(ctx, es, 10))
    v = _digit_run(ctx, a + b) if a + b else rv(0)
    scale = Fraction(10) ** (exp - len(b))
    v = v * rv(scale)
    if m.group(1) == "-":
        v = -v
    return SF(v)


def parse_int(ctx, s, base=10):
    st = method(ctx, s, "strip", (), {})
    sign = 1
    if st and (in_set(ctx, st[0], "+-")):
        r = resolve(ctx, st[0], set("+-"))
        sign = -1 if r == "-" else 1
        st = st[1:]
    if not st:
        raise ValueError("invalid literal for int()")
    if len(st) == 1 and isinstance(get(ctx, st), Opaque):
        v = get(ctx, st).value
        if isinstance(v, SI):
            return SI(v.e * sign)
        raise ValueError("invalid literal for int()")
    if base == 10:
        for c in st:
            ch = get(ctx, c)
            if ch is None:
                int(c, base)
            else:
                digit_of(ctx, c, base) if not ch.dom <= DIGITS else None
        e = _digit_run(ctx, st)
        if e.decl().kind() == z3.Z3_OP_TO_REAL:
            e = e.arg(0)
        else:
            r, e = e, z3.ToInt(e)
            ctx.add(z3.ToReal(e) == r)  # digits denote an integer
        return SI(z3.simplify(e * sign))
    tot = z3.IntVal(0)
    for c in st:
        tot = tot * base + digit_of(ctx, c, base)
    return SI(z3.simplify(tot * sign))


_SPEC = _re.compile(r"^([+\- ]?)(0?)(\d*)(?:\.(\d+))?([fdgxX]?)$")


def format_symbolic(ctx, x, spec):
    c = const_of(z3.simplify(x.e))
    if c is not None:
        v = int(c) if isinstance(x, SI) else float(c)
        return format(v, spec)
    if ctx.fmt_mode == "opaque":
        return _format_opaque(ctx, x, spec)
    m = _SPEC.match(spec)
    if not m:
        raise Unsupported(f"format spec {spec!r}")
    plus, zero, width, prec, kind = m.groups()
    if isinstance(x, SI) and kind in ("x", "X") and prec is None:
        body, neg = _fmt_hex(ctx, x, kind)
    elif isinstance(x, SI) and kind in ("", "d"):
        body, neg = _fmt_int(ctx, x)
    elif kind == "f":
        body, neg = _fmt_fixed(ctx, x, int(prec) if prec is not None else 6)
    elif kind == "" and prec is None:
        if not ctx.fmt_repr:
            return _format_opaque(ctx, x, spec)
        body, neg = _fmt_repr(ctx, x)
    else:
        raise Unsupported(f"format spec {spec!r}")
    sign = "-" if neg else ("+" if plus == "+" else "")
    if width:
        w = int(width)
        if zero:
            body = body.rjust(w - len(sign), "0")
        else:
            return (sign + body).rjust(w)
    return sign + body


def _format_opaque(ctx, x, spec):
    e = canon(rv(x))
    kind = "int" if isinstance(x, SI) else "real"
    lst = ctx._fmt_tokens.setdefault((spec, kind), [])
    m = _re.match(r"^\.(\d+)f$", spec)
    prec = int(m.group(1)) if m else None
    for k, tok in lst:
        if k.eq(e):
            return tok
    for k, tok in lst:
        if prec is not None and prec < 6:
            s = rv(Fraction(10**prec))
            h = rv(Fraction(1, 2))
            cond = z3.ToInt(k * s + h) == z3.ToInt(e * s + h)
        else:
            cond = k == e
        if ctx.decide(cond):
            return tok
    tok = new_char(ctx, Opaque(x, spec))
    lst.append((e, tok))
    return tok


def _count_digits(ctx, M, limit):
    """Fork on the number of decimal digits of a non-negative Int term."""
    for k in range(1, limit + 1):
        if ctx.decide(M < 10**k):
            return k
    raise Unsupported("number too long to format")


def _fmt_int(ctx, x):
    neg = ctx.decide(x.e < 0)
    M = -x.e if neg else x.e
    k = _count_digits(ctx, M, 20)
    return digits_of(ctx, Num(ctx, M, k)), neg


def _fmt_hex(ctx, x, kind):
    neg = ctx.decide(x.e < 0)
    M = -x.e if neg else x.e
    for k in range(1, 17):
        if ctx.decide(M < 16**k):
            break
    else:
        raise Unsupported("number too long to format")
    out, tot = [], z3.IntVal(0)
    for _ in range(k):
        d = ctx.fresh("hex", "int")
        ctx.add(d >= 0)
        ctx.add(d <= 15)
        tot = tot * 16 + d
        code = z3.If(d < 10, d + 48, d + (87 if kind == "x" else 55))
        out.append(new_char(ctx, SymChar("0123456789" + ("abcdef" if kind == "x" else "ABCDEF"), code)))
    ctx.add(z3.simplify(tot) == M)
    return "".join(out), neg


def _int_of_scaled(ctx, absx, n):
    """Int term equal to round-half-even(absx * 10**n)."""
    e = z3.simplify(absx * rv(Fraction(10**n)))
    M = ctx.fresh("rnd", "int")
    Mr = z3.ToReal(M)
    h = rv(Fraction(1, 2))
    ctx.add(M >= 0)
    ctx.add(Mr - h <= e)
    ctx.add(e <= Mr + h)
    ctx.add(z3.Implies(e == Mr + h, M % 2 == 0))
    ctx.add(z3.Implies(e == Mr - h, M % 2 == 0))
    return M


def _fmt_fixed(ctx, x, prec):
    e = rv(x)
    neg = ctx.decide(e < 0)
    a = -e if neg else e
    M = _int_of_scaled(ctx, a, prec)
    k = _count_digits(ctx, M, prec + 20)
    n = max(k, prec + 1)
    num = Num(ctx, M, n)
    ds = digits_of(ctx, num)
    if prec == 0:
        return ds, neg
    return ds[: n - prec] + "." + ds[n - prec :], neg


def _fmt_repr(ctx, x):
    """repr() of a float with at most D decimals (D = ctx.opts['repr_decimals'])."""
    D = ctx.opts.get("repr_decimals", 6)
    e = rv(x)
    neg = ctx.decide(e < 0)
    a = -e if neg else e
    if ctx.decide(a == 0):
        return "0.0", neg
    # minimal number of decimals m
    for m in range(D + 1):
        M = ctx.fresh("rep", "int")
        if m == D:
            cond = None
        sc = rv(Fraction(10**m))
        isint = z3.IsInt(z3.simplify(a * sc))
        if m == D:
            ctx.assume(SB(isint))
        elif not ctx.decide(isint):
            continue
        ctx.add(z3.ToReal(M) == a * sc)
        ctx.add(M >= 0)
        break
    if m >= 5 and ctx.decide(a < rv(Fraction(1, 10**4))):
        # scientific notation d[.ddd]e-XX
        k = _count_digits(ctx, M, D)
        exp = k - 1 - m
        ds = digits_of(ctx, Num(ctx, M, k))
        mant = ds[0] + ("." + ds[1:] if k > 1 else "")
        return f"{mant}e-{-exp:02d}", neg
    k = _count_digits(ctx, M, m + 16)
    n = max(k, m + 1)
    ds = digits_of(ctx, Num(ctx, M, n))
    if m == 0:
        return ds + ".0", neg
    return ds[: n - m] + "." + ds[n - m :], neg


def concretize(model, ctx, s):
    """Concrete text of a symbolic string in a model."""
    out = []
    for c in s:
        ch = get(ctx, c)
        if ch is None:
            out.append(c)
        elif isinstance(ch, Opaque):
            out.append(f"<{ch.value!r}>")
        elif ch.num is not None and ch.num._d is None:
            v = model.eval(ch.num.value, model_completion=True)
            if z3.is_algebraic_value(v):
                v = v.approx(20)
            f = const_of(v)
            iv_ = int(round(float(f))) if f is not None else 0
            if ch.idx == -1:
                out.append("-" if iv_ < 0 else "+")
                continue
            t = str(abs(iv_)).rjust(ch.num.n, "0")
            out.append(t[ch.idx])
        else:
            out.append(chr(model.eval(ch.code, model_completion=True).as_long()))
    return "".join(out)

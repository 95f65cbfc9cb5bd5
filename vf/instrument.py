"""Instrumentation that lets the real code run on symbolic values.

* `math` functions, `min` and `max` get a symbolic case (they behave exactly as
  before on concrete arguments).
* pygerber modules are compiled from /repo/src with a source transformation
  that routes `int(...)`, `float(...)`, `isinstance(...)`, `ord(...)`, string
  comparisons and string methods through shims (which again behave exactly as
  before on concrete values).
* `pydantic.BaseModel.__init__` validates with concrete stand-ins in place of
  symbolic numbers and puts the symbolic numbers back afterwards.
"""

from __future__ import annotations

import ast
import builtins
import decimal
from fractions import Fraction
import importlib.abc
import importlib.machinery
import importlib.util
import math
import re
import sys
import typing

import z3

from vf import core
from vf.core import SB, SF, SI, Unsupported, is_sym, rv

REPO_SRC = "/repo/src"

STR_METHODS = {
    "startswith", "endswith", "strip", "lstrip", "rstrip", "zfill", "isdigit",
    "isnumeric", "isdecimal", "replace", "split", "rsplit", "partition",
    "rpartition", "find", "rfind", "index", "count", "upper", "lower",
    "isalpha", "isalnum", "isspace", "removeprefix", "removesuffix", "casefold",
    "splitlines", "title", "capitalize", "isupper", "islower",
}
PATTERN_METHODS = {"match", "search", "fullmatch", "finditer", "findall", "sub", "subn", "split"}
STR_METHODS |= PATTERN_METHODS
DICT_METHODS = {"get", "pop", "setdefault"}
STR_METHODS |= DICT_METHODS


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.depth = 0

    def visit_FunctionDef(self, node):
        self.depth += 1
        node.body = [self.visit(s) for s in node.body]
        self.depth -= 1
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, node):
        self.depth += 1
        node.body = self.visit(node.body)
        self.depth -= 1
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def _name(self, n):
        return ast.Name(id=n, ctx=ast.Load())

    def visit_Call(self, node):
        if self.depth == 0:
            return node
        f = node.func
        if isinstance(f, ast.Name) and f.id == "isinstance":
            node.args = [self.visit(node.args[0]), *node.args[1:]]
            node.func = self._name("vf__isinstance_")
            return node
        new_args = []
        for a in node.args:
            if isinstance(a, ast.Name) and a.id in ("int", "float"):
                new_args.append(self._name(f"vf__{a.id}_"))
            else:
                new_args.append(self.visit(a))
        node.args = new_args
        for k in node.keywords:
            if isinstance(k.value, ast.Name) and k.value.id in ("int", "float") and k.arg in ("key", "default_factory"):
                k.value = self._name(f"vf__{k.value.id}_")
            else:
                k.value = self.visit(k.value)
        if isinstance(f, ast.Name) and f.id in ("int", "float", "ord", "Decimal"):
            node.func = self._name(f"vf__{f.id}_")
            return node
        if isinstance(f, ast.Attribute) and f.attr in STR_METHODS:
            return ast.Call(
                func=self._name("vf__method_"),
                args=[self.visit(f.value), ast.Constant(f.attr), *node.args],
                keywords=node.keywords,
            )
        node.func = self.visit(f)
        return node

    def visit_Subscript(self, node):
        node.value = self.visit(node.value)
        node.slice = self.visit(node.slice)
        if self.depth == 0 or isinstance(node.slice, (ast.Slice, ast.Constant, ast.Tuple)):
            return node
        base = node.value
        while isinstance(base, ast.Attribute):
            base = base.value
        if isinstance(base, ast.Name):  # may be evaluated twice
            again = ast.parse(ast.unparse(node.value), mode="eval").body
            node.slice = ast.Call(func=self._name("vf__key_"), args=[again, node.slice], keywords=[])
        return node

    def visit_Compare(self, node):
        if self.depth == 0:
            return node
        node.left = self.visit(node.left)
        node.comparators = [self.visit(c) for c in node.comparators]
        if len(node.ops) == 1:
            op = type(node.ops[0]).__name__
            if op in ("Eq", "NotEq", "In", "NotIn"):
                return ast.Call(
                    func=self._name("vf__cmp_"),
                    args=[ast.Constant(op), node.left, node.comparators[0]],
                    keywords=[],
                )
        return node


def _is_float_type(t):
    return t is float


def vf_isinstance(obj, types):
    if isinstance(obj, types):
        return True
    if is_sym(obj):
        if isinstance(types, tuple):
            return any(vf_isinstance(obj, t) for t in types)
        if isinstance(obj, SF):
            return types is float
        if isinstance(obj, SI):
            return types is int
        if isinstance(obj, SB):
            return types in (bool, int)
    return False


def vf_float(*args):
    from vf import strings

    if args:
        x = args[0]
        if isinstance(x, SF):
            return x
        if isinstance(x, (SI, SB)):
            return SF(rv(x))
        if isinstance(x, str) and strings.has_sym(x):
            return strings.parse_float(core.ctx(), x)
    return float(*args)


def vf_int(*args, **kw):
    from vf import strings

    if args:
        x = args[0]
        if isinstance(x, SF):
            return core.sym_trunc(x)
        if isinstance(x, SI):
            return x
        if isinstance(x, SB):
            return SI(core.iv(x))
        if isinstance(x, str) and strings.has_sym(x):
            base = args[1] if len(args) > 1 else kw.get("base", 10)
            return strings.parse_int(core.ctx(), x, base)
    return int(*args, **kw)


def vf_ord(x):
    from vf import strings

    if strings.has_sym(x):
        return strings.sym_ord(core.ctx(), x)
    return ord(x)


def vf_key(obj, key):
    """Key of a dictionary which a symbolic text is equal to (forks), or the text."""
    if isinstance(key, str) and isinstance(obj, dict):
        from vf import strings

        if core.CTX is not None and (strings.has_sym(key) or any(isinstance(k, str) and strings.has_sym(k) for k in obj)):
            for k in obj:
                if isinstance(k, str) and len(k) == len(key) and bool(strings.str_eq(core.ctx(), key, k)):
                    return k
    return key


def vf_method(obj, name, *args, **kw):
    from vf import strings

    if name in DICT_METHODS and args:
        return getattr(obj, name)(vf_key(obj, args[0]), *args[1:], **kw)

    if name in PATTERN_METHODS and isinstance(obj, re.Pattern):
        from vf import symre

        if any(symre.active(a) for a in args):
            return symre.pattern_method(obj, name, args, kw)
        return getattr(obj, name)(*args, **kw)
    if isinstance(obj, str) and (
        strings.has_sym(obj) or any(isinstance(a, str) and strings.has_sym(a) for a in args)
    ):
        return strings.method(core.ctx(), obj, name, args, kw)
    return getattr(obj, name)(*args, **kw)


def vf_cmp(op, a, b):
    from vf import strings

    if isinstance(a, str) or isinstance(b, str):
        r = strings.compare(op, a, b)
        if r is not NotImplemented:
            return r
    if op == "Eq":
        return a == b
    if op == "NotEq":
        return a != b
    if op == "In":
        return a in b
    return a not in b


class SymDecimal(SF):
    """Decimal read from symbolic text: remembers its number of decimal places."""

    __slots__ = ("places",)

    def __format__(self, spec):
        from vf import strings

        if spec == "f":
            return strings.format_symbolic(core.ctx(), SF(self.e), f".{self.places}f")
        raise Unsupported(f"format of a decimal with {spec!r}")

    __str__ = __repr__ = lambda self: (_ for _ in ()).throw(Unsupported("text of a decimal"))


def vf_decimal(*args):
    if args and is_sym(args[0]):
        return SF(rv(args[0]))
    if args and isinstance(args[0], str) and core.CTX is not None:
        from vf import strings

        text = args[0]
        if strings.has_sym(text):
            mantissa, _, exp = text.partition("e")
            if strings.has_sym(exp):
                raise Unsupported("decimal with symbolic exponent")
            r = SymDecimal(rv(strings.parse_float(core.ctx(), mantissa)) * rv(Fraction(10) ** int(exp or 0)))
            decimals = len(mantissa.partition(".")[2])
            r.places = max(0, decimals - int(exp or 0))
            return r
    return decimal.Decimal(*args)


SHIMS = {
    "vf__Decimal_": vf_decimal,
    "vf__isinstance_": vf_isinstance,
    "vf__float_": vf_float,
    "vf__int_": vf_int,
    "vf__ord_": vf_ord,
    "vf__method_": vf_method,
    "vf__cmp_": vf_cmp,
    "vf__key_": vf_key,
}

ENCODED_FILES: set = set()


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src, path)
        tree = Rewriter().visit(tree)
        ast.fix_missing_locations(tree)
        ENCODED_FILES.add(path)
        return compile(tree, path, "exec", dont_inherit=True)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != "pygerber" and not fullname.startswith("pygerber."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(
            fullname, path if path is not None else [REPO_SRC]
        )
        if spec is None or not isinstance(
            spec.loader, importlib.machinery.SourceFileLoader
        ):
            return spec
        spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


# ------------------------------------------------------------------- math

_m = {k: getattr(math, k) for k in dir(math)}


def _wrap(name, symf):
    orig = _m[name]

    def f(*a, **kw):
        for x in a:
            if is_sym(x):
                return symf(*a, **kw)
        return orig(*a, **kw)

    f.__name__ = name
    f.__doc__ = orig.__doc__
    return f


def _cos(x):
    return core.ctx().angle_pair(x)[0]


def _sin(x):
    return core.ctx().angle_pair(x)[1]


def _hypot(*a):
    return core.sym_sqrt(SF(sum((rv(v) * rv(v) for v in a), rv(0))))


def _dist(p, q):
    return _hypot(*[x - y for x, y in zip(p, q)])


def _isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
    d = abs(SF(rv(a) - rv(b)))
    m = vf_max(abs(a), abs(b))
    return SB(z3.Or(rv(d) <= rv(m) * rv(rel_tol), rv(d) <= rv(abs_tol)))


def _acos(x):
    # theta in [0, pi], cos(theta) = x
    c = core.ctx()
    if c.decide(z3.Or(rv(x) < -1, rv(x) > 1)):
        raise ValueError("math domain error")
    return c.atan2(core.sym_sqrt(1 - x * x), x)


def _asin(x):
    c = core.ctx()
    if c.decide(z3.Or(rv(x) < -1, rv(x) > 1)):
        raise ValueError("math domain error")
    return c.atan2(x, core.sym_sqrt(1 - x * x))


def _fmod(a, b):
    q = core._div(a, b)
    t = core.sym_trunc(q)
    return SF(rv(a) - rv(b) * rv(t))


def _copysign(a, b):
    a = abs(SF(rv(a)))
    return SF(z3.If(rv(b) >= 0, a.e, -a.e))


def _any_sym(xs):
    return any(is_sym(x) for x in xs)


_builtin_min, _builtin_max = builtins.min, builtins.max


def _minmax(orig, less):
    def f(*args, **kw):
        if kw:
            return orig(*args, **kw)
        seq = args
        if len(args) == 1:
            seq = list(args[0])
            if not _any_sym(seq):
                return orig(seq)
        elif not _any_sym(args):
            return orig(*args)
        r = seq[0]
        for x in seq[1:]:
            c = less(x, r)
            if isinstance(c, SB):
                if isinstance(x, (SI, int)) and isinstance(r, (SI, int)):
                    r = SI(z3.If(c.e, core.iv(x), core.iv(r)))
                else:
                    r = SF(z3.If(c.e, rv(x), rv(r)))
            elif c:
                r = x
        return r

    f.__name__ = orig.__name__
    return f


vf_min = _minmax(_builtin_min, lambda x, r: x < r)
vf_max = _minmax(_builtin_max, lambda x, r: x > r)


def patch_math():
    R = core.Fraction(180)
    sym = {
        "sqrt": core.sym_sqrt,
        "cos": _cos,
        "sin": _sin,
        "tan": lambda x: _sin(x) / _cos(x),
        "atan2": lambda y, x: core.ctx().atan2(y, x),
        "atan": lambda x: core.ctx().atan2(x, 1.0),
        "acos": _acos,
        "asin": _asin,
        "radians": lambda x: x * (core.PI / R) if False else SF(rv(x) * rv(core.PI / R)),
        "degrees": lambda x: SF(rv(x) * rv(R / core.PI)),
        "hypot": _hypot,
        "floor": lambda x: x.__floor__(),
        "ceil": lambda x: x.__ceil__(),
        "trunc": core.sym_trunc,
        "fabs": abs,
        "isclose": _isclose,
        "isnan": lambda x: False,
        "isinf": lambda x: False,
        "isfinite": lambda x: True,
        "pow": core.sym_pow,
        "fmod": _fmod,
        "copysign": _copysign,
    }
    for n, f in sym.items():
        setattr(math, n, _wrap(n, f))
    # tuple arguments
    o = _m["dist"]
    math.dist = lambda p, q: _dist(p, q) if _any_sym((*p, *q)) else o(p, q)
    ocos, osin = _m["cos"], _m["sin"]

    def scos(x):
        return _cos(x) if is_sym(x) else core.snap(ocos(x))

    def ssin(x):
        return _sin(x) if is_sym(x) else core.snap(osin(x))

    math.cos, math.sin = scos, ssin
    ofsum = _m["fsum"]
    def fsum(it):
        it = list(it)
        return sum(it) if _any_sym(it) else ofsum(it)
    math.fsum = fsum
    builtins.min, builtins.max = vf_min, vf_max


# --------------------------------------------------------------- pydantic

def _has_sym(x, depth=0):
    if is_sym(x):
        return True
    if depth < 6:
        t = type(x)
        if t is list or t is tuple:
            for v in x:
                if _has_sym(v, depth + 1):
                    return True
        elif t is dict:
            for v in x.values():
                if _has_sym(v, depth + 1):
                    return True
    return False


def _encode(x):
    if isinstance(x, SB):
        return bool(x)
    if is_sym(x):
        return core.ctx().token_for(x)
    if type(x) in (list, tuple):
        return type(x)(_encode(v) for v in x)
    if type(x) is dict:
        return {k: _encode(v) for k, v in x.items()}
    return x


def _decode(x, tokens):
    t = type(x)
    if t is float or t is int:
        return tokens.get((t, x), x)
    if t in (list, tuple):
        return t(_decode(v, tokens) for v in x)
    if t is dict:
        return {k: _decode(v, tokens) for k, v in x.items()}
    return x


_KINDS: dict = {}


def _field_kinds(cls):
    """Field name -> float/int for fields which take numbers (pydantic reads them from text)."""
    r = _KINDS.get(cls)
    if r is None:
        r = {}
        for n, f in cls.model_fields.items():
            todo, seen = [f.annotation], set()
            while todo:
                a = todo.pop()
                if isinstance(a, type) and not typing.get_args(a):
                    seen.add(a)
                todo += [x for x in typing.get_args(a) if not isinstance(x, str)]
                if hasattr(a, "__supertype__"):
                    todo.append(a.__supertype__)
            if float in seen and str not in seen:
                r[n] = float
            elif int in seen and str not in seen:
                r[n] = int
        _KINDS[cls] = r
    return r


_LIMITS: dict = {}


def _limits(cls):
    """Field name -> [(operator, bound)] for fields with numeric constraints."""
    r = _LIMITS.get(cls)
    if r is None:
        r = {}
        for n, f in cls.model_fields.items():
            cs = [(op, getattr(m, op)) for m in f.metadata for op in ("ge", "le", "gt", "lt") if getattr(m, op, None) is not None]
            if cs:
                r[n] = cs
        _LIMITS[cls] = r
    return r


def _constrained(v, cs):
    """Concrete stand-in which satisfies (or violates) the constraints as the symbolic value does."""
    one = type(v) is SI
    lo, hi = None, None
    for op, b in cs:
        ok = {"ge": v >= b, "le": v <= b, "gt": v > b, "lt": v < b}[op]
        if not bool(ok):
            return {"ge": b - 1, "le": b + 1, "gt": b, "lt": b}[op]
        if op in ("ge", "gt"):
            lo = b + (op == "gt")
        else:
            hi = b - (op == "lt")
    r = lo if lo is not None else hi
    return int(r) if one else float(r)


def _numbers_from_text(cls, data):
    from vf import strings

    out = None
    for n, kind in _field_kinds(cls).items():
        v = data.get(n)
        if isinstance(v, str) and strings.has_sym(v):
            w = _number(strings, kind, v)
        elif type(v) is list and any(isinstance(x, str) and strings.has_sym(x) for x in v):
            w = [_number(strings, kind, x) if isinstance(x, str) and strings.has_sym(x) else x for x in v]
        else:
            continue
        out = out or dict(data)
        out[n] = w
    return out or data


def _number(strings, kind, s):
    # pydantic's lax mode takes digits with sign, point and exponent, surrounding space
    ctx = core.ctx()
    if kind is float:
        return strings.parse_float(ctx, s)
    whole, point, rest = s.partition(".")
    if point and rest and all(strings.get(ctx, c) is not None or c.isdigit() for c in rest):
        # "90.00" is accepted for an integer
        if not bool(strings.parse_int(ctx, rest) == 0 if strings.has_sym(rest) else int(rest) == 0):
            raise ValueError("unable to parse string as an integer")
        s = whole
    return strings.parse_int(ctx, s) if strings.has_sym(s) else int(s)


def patch_pydantic():
    import pydantic

    orig = pydantic.BaseModel.__init__

    def __init__(self, /, **data):
        if core.CTX is not None:
            data = _numbers_from_text(type(self), data)
        if core.CTX is None or not _has_sym(list(data.values())):
            orig(self, **data)
            return
        keep = {}
        limits = _limits(type(self))
        if limits:
            data = dict(data)
            for n, cs in limits.items():
                if is_sym(data.get(n)):
                    keep[n] = data[n]
                    data[n] = _constrained(data[n], cs)
        orig(self, **{k: _encode(v) for k, v in data.items()})
        tokens = core.CTX.tokens
        d = self.__dict__
        d.update(keep)
        for k in list(d):
            d[k] = _decode(d[k], tokens)
        ex = self.__pydantic_extra__
        if ex:
            for k in list(ex):
                ex[k] = _decode(ex[k], tokens)

    __init__.__pydantic_base_init__ = True
    pydantic.BaseModel.__init__ = __init__


def patch_enum():
    import enum

    orig = enum.EnumMeta.__call__

    def __call__(cls, value=None, *args, **kw):
        if core.CTX is not None and isinstance(value, str) and not args and not kw:
            from vf import strings

            if strings.has_sym(value):
                for m in cls:
                    if isinstance(m.value, str) and len(m.value) == len(value) and bool(strings.str_eq(core.ctx(), value, m.value)):
                        return m
        return orig(cls, value, *args, **kw)

    enum.EnumMeta.__call__ = __call__


def install():
    sys.dont_write_bytecode = True
    for m in list(sys.modules):
        assert not m.startswith("pygerber"), "pygerber imported before install()"
    patch_math()
    patch_pydantic()
    patch_enum()
    from vf import symre

    symre.install()
    for n, f in SHIMS.items():
        setattr(builtins, n, f)
    sys.meta_path.insert(0, Finder())

"""Formatting keeps the meaning of a file."""

from vf.api import scenario

from props import gtext
from props.gtext import COMMANDS, E, Gen, N, parser, same
from props.P02 import KINDS, OPS, operand, scope_of, value
from pygerber.gerber.ast.expression_eval_visitor import ExpressionEvalVisitor
from pygerber.gerber.formatter import (
    EmptyLineBeforePolaritySwitch,
    ExplicitParenthesis,
    FloatTrimTrailingZeros,
    KeepNonStandaloneCodes,
    MacroEndInNewLine,
    MacroSplitMode,
    Options,
    RemoveG54,
    RemoveG55,
    StripWhitespace,
    balanced,
    extra_indent,
    formats,
    small_indent,
)

ASSUMPTIONS = [
    "decimal literals denote exact reals; replay on the real code compares with tolerance",
    "numbers of up to two digits on each side of the decimal point (quick), more in the thorough run; texts "
    "of up to three characters; option sets as listed in the machinery (presets and each option away from its default)",
    "an absent optional text and an empty one are the same",
]

SETS = {
    "default": lambda: Options(),
    "indent": lambda: Options(
        macro_body_indent=2, macro_param_indent="   ", macro_split_mode=MacroSplitMode.SplitOnParameters,
        macro_end_in_new_line=MacroEndInNewLine.Yes, block_aperture_body_indent=2, step_and_repeat_body_indent=" ",
        d01_indent=1, d02_indent="  ", d03_indent=3, line_end="\r\n",
        empty_line_before_polarity_switch=EmptyLineBeforePolaritySwitch.Yes,
    ),
    "split": lambda: Options(keep_non_standalone_codes=KeepNonStandaloneCodes.SeparateCodes, macro_split_mode=MacroSplitMode.NoSplit, indent_character="\t", d01_indent=1),
    "strip": lambda: Options(strip_whitespace=StripWhitespace.StripAll, d01_indent=2, macro_split_mode=MacroSplitMode.SplitOnParameters, block_aperture_body_indent=2),
    "legacy": lambda: Options(remove_g54=RemoveG54.Remove, remove_g55=RemoveG55.Remove),
    "balanced": balanced, "extra": extra_indent, "small": small_indent,
    "places3": lambda: Options(float_decimal_places=3),
    "places3z": lambda: Options(float_decimal_places=3, float_trim_trailing_zeros=FloatTrimTrailingZeros.No),
    "places0": lambda: Options(float_decimal_places=0),
    "places1": lambda: Options(float_decimal_places=1),
}


def options(name):
    o = SETS[name]
    o = o() if callable(o) else o
    return o() if callable(o) else o


def tolerance(o):
    return 0.5 * 10.0 ** -o.float_decimal_places if o.float_decimal_places >= 0 else 0.0


def equal(s, a, b, tol, label):
    """Trees are the same apart from the places in the source."""
    s.check(type(a) is type(b), f"{label}: kind of the node")
    for f in type(a).model_fields:
        if f == "source_info":
            continue
        one(s, getattr(a, f), getattr(b, f), tol, f"{label}.{f}")


def one(s, x, y, tol, label):
    if isinstance(x, N.Node):
        equal(s, x, y, tol, label)
    elif isinstance(x, list):
        s.check(isinstance(y, list) and len(x) == len(y), f"{label}: number of elements")
        for i, (p, q) in enumerate(zip(x, y)):
            one(s, p, q, tol, f"{label}[{i}]")
    elif x is None or (isinstance(x, str) and len(x) == 0):
        s.check(y is None or (isinstance(y, str) and len(y) == 0), label)
    elif isinstance(x, (str, bool, E.Enum)):
        s.eq(y, x, label) if isinstance(x, str) else s.check(x == y, label)
    elif y is None:
        s.fail(f"{label}: value lost")
    else:
        s.le(x - y, tol, label, tol=1e-9)
        s.le(y - x, tol, label, tol=1e-9)


def round_trip(s, source, o):
    first = parser().parse(source)
    text = formats(first, o)
    return first, text, parser().parse(text)


def keep(n, o):
    """Nodes which the options ask to drop."""
    return not (type(n) is N.G54 and o.remove_g54 is RemoveG54.Remove) and not (type(n) is N.G55 and o.remove_g55 is RemoveG55.Remove)


def check_file(s, source, o):
    first, text, second = round_trip(s, source, o)
    want = [n for n in first.nodes if keep(n, o)]
    s.check(len(second.nodes) == len(want), "number of commands")
    for i, (a, b) in enumerate(zip(want, second.nodes)):
        equal(s, a, b, tolerance(o), f"{type(a).__name__}")


SMALL = ("2.0", "1.3", "0.2")


def cases_for(name, cases):
    numeric = any("form" in c for c in cases)
    sets = ["default", "places3", "places3z", "places0", "places1"] if numeric else ["default", "indent"]
    out = []
    for c in cases:
        tier = c.get("_tier", "quick")
        if "form" in c and c["form"] not in SMALL:
            tier = "thorough"
        for k, o in enumerate(sets):
            t = tier
            if name == "add_macro_aperture" and (c["n"] in (1, 3) or c["form"] == "0.2"):
                t = "thorough"
            if numeric and o in ("places3z", "places1") and name not in ("load_number", "per_axis", "add_macro_aperture", "numeric_attribute"):
                t = "thorough"
            out.append({**c, "o": o, "_tier": t})
    return out


def _register(name, fn, cases, bounds):
    def run(s, o, **params):
        s.fmt_digits(repr=True)
        numeric = "form" in params
        free = s.choice("free", [0, 1, 2, 3]) if numeric else None
        gtext.CONFIG.update(exact=True, free=free)
        try:
            g, cls = fn(s, **params)
        finally:
            gtext.CONFIG.update(exact=False, free=None)
        s.assume(not numeric or free < max(g.numbers, 1))
        check_file(s, "G71*\n" + g.text + "\nM02*", options(o))

    run.__name__ = name
    scenario("F01", cases=cases_for(name, cases), bounds=bounds + "; see assumptions for the option sets", repr_decimals=8)(run)


for _n, (_f, _c, _b) in COMMANDS.items():
    _register(_n, _f, _c, _b)


# ------------------------------------------------------------ numbers


@scenario("F01", cases=[{"z": z, "o": o} for z in (2, 3, 4, 6) for o in ("default", "places3")], bounds="every number of two digits after z zero decimals", repr_decimals=9)
def small_number(s, z, o):
    s.fmt_digits(repr=True)
    cmd = s.choice("cmd", ["%LR", "%LS", "%OFA", "%ADD10C,", "%ADD10M,"])
    d = s.digits("d", 2, exact=True)
    check_file(s, f"{cmd}0.{'0' * z}{d}*%", options(o))


@scenario("F01", cases=[{"n": n} for n in (3, 5)], bounds="every integer of n digits and sign, each option set for numbers")
def whole_number(s, n):
    s.fmt_digits(repr=True)
    cmd = s.choice("cmd", ["%LR", "%OFB", "%IR"])
    sign = s.choice("sign", ["", "-"])
    d = s.digits("d", n, exact=True)
    check_file(s, f"{cmd}{sign}{d}*%", options(s.choice("o", ["default", "places3", "places3z", "places0", "places1"])))


# ------------------------------------------------------------ plotting


PLOT = {
    "XYD01": (["X", "Y"], "D01"), "XIJD01": (["X", "I", "J"], "D01"), "YD02": (["Y"], "D02"), "XYD03": (["X", "Y"], "D03"), "D03": ([], "D03"),
    "XY": (["X", "Y"], ""), "XYIJ": (["X", "Y", "I", "J"], ""),
}


def plot_text(s, tag, kind):
    axes, code = PLOT[kind]
    out = ""
    for a in axes:
        out += a + s.choice(f"{tag}{a}sign", ["", "-", "+"]) + s.digits(f"{tag}{a}", 3)
    return out + code + "*"


@scenario("F01", cases=[{"kind": k, "o": o} for k in PLOT for o in ("default", "indent", "split", "strip", "balanced", "extra", "small")], bounds="every sign and digit of the coordinates; alone or after a G code")
def plot(s, kind, o):
    opt = options(o)
    g = s.choice("g", ["", "G01", "G02", "G70", "G55"])
    source = "G71*" + g + plot_text(s, "a", kind) + "%LPC*%" + "X1D02*"
    first, text, second = round_trip(s, source, opt)
    separate = opt.keep_non_standalone_codes is KeepNonStandaloneCodes.SeparateCodes
    want = [n for n in first.nodes if keep(n, opt)]
    s.check(len(want) == len(second.nodes), "number of commands")
    for a, b in zip(want, second.nodes):
        if len(want) < len(first.nodes) and hasattr(a, "is_standalone"):
            # the operation stands alone once its prefix is dropped
            if type(a) is type(b) and not a.is_standalone:
                a = a.model_copy(update={"is_standalone": b.is_standalone})
        if separate and hasattr(a, "is_standalone"):
            s.check(b.is_standalone is True, "separated commands")
            a = a.model_copy(update={"is_standalone": True})
        equal(s, a, b, 0.0, type(a).__name__)


@scenario("F01", cases=[{"o": o} for o in ("default", "legacy", "split")], bounds="G54 and G55 prefixes, joined or not, every aperture of two digits")
def prefixes(s, o):
    opt = options(o)
    g, h = s.choice("g", ["G54", "G54*", ""]), s.choice("h", ["G55", "G55*", ""])
    source = f"{g}D1{s.digits('n', 1)}*{h}X{s.digits('x', 2)}Y1D03*M02*"
    first, text, second = round_trip(s, source, opt)
    want = [n for n in first.nodes if keep(n, opt)]
    s.check(len(want) == len(second.nodes), "number of commands")
    for a, b in zip(want, second.nodes):
        s.check(type(a) is type(b), "kind of the command")
    dnn = [n for n in second.nodes if type(n) is N.Dnn]
    d03 = [n for n in second.nodes if type(n) is N.D03]
    s.check(len(dnn) == 1 and len(d03) == 1, "select and flash")
    s.eq(dnn[0].aperture_id, [n for n in first.nodes if type(n) is N.Dnn][0].aperture_id, "aperture")
    s.eq(d03[0].x.value, [n for n in first.nodes if type(n) is N.D03][0].x.value, "coordinate")


# ------------------------------------------------------------ blocks


@scenario("F01", cases=[{"o": o, "outer": k} for o in ("default", "indent", "strip", "extra") for k in ("AB", "SR")], bounds="blocks of up to two operations with an inner block or not; every coordinate digit; each parameter of step and repeat present or not")
def block(s, o, outer):
    if outer == "AB":
        head, tail = f"%ABD1{s.digits('id', 1)}*%", "%AB*%"
    else:
        head = "%SR"
        for a in "XYIJ":
            if s.choice("has" + a, [True, False]):
                head += a + s.digits("v" + a, 1) + (".5" if a in "IJ" else "")
        head, tail = head + "*%", "%SR*%"
    body = ""
    for i in range(s.choice("n", [0, 2])):
        body += f"X{s.digits(f'x{i}', 2)}D0{i + 1}*"
    if s.choice("inner", [False, True]):
        body += "%ABD20*%X1D03*%LPD*%%AB*%D01*"
    check_file(s, f"G71*{head}{body}{tail}G01*", options(o))


# ------------------------------------------------------------ macros


MACRO_SETS = {
    **{k: SETS[k] for k in ("default", "indent", "split", "strip", "extra")},
    "explicit": lambda: Options(explicit_parenthesis=ExplicitParenthesis.AddExplicit, macro_end_in_new_line=MacroEndInNewLine.Yes),
}


def same_values(s, scope, a, b, label):
    s.eq(ExpressionEvalVisitor(scope).evaluate(b), ExpressionEvalVisitor(scope).evaluate(a), label, tol=1e-5)


def assigned(file):
    am = file.nodes[0]
    return am.primitives[0].expression


def expression(s, kinds, ops, o):
    s.fmt_digits(repr=True)
    scope = scope_of(s)
    parts = [operand(s, k, kind, scope, exact=True) for k, kind in enumerate(kinds)]
    text = parts[0][0] + "".join(p + t for p, (t, _) in zip(ops, parts[1:]))
    v = value(s, [p[1] for p in parts], ops)
    opt = MACRO_SETS[o]()
    first, out, second = round_trip(s, f"%AMM*$9={text}*%", opt)
    s.check(type(second.nodes[0]) is N.AM and len(second.nodes[0].primitives) == 1, "one definition")
    a = second.nodes[0].primitives[0]
    s.check(type(a) is N.Assignment and a.variable.variable == "$9", "assignment to the variable")
    s.eq(ExpressionEvalVisitor(scope).evaluate(a.expression), v, "value of the expression", tol=1e-4)




@scenario("F01", cases=[{"kind": k, "o": o} for k in KINDS + ["neg:(pos)", "(neg)"] for o in ("default", "explicit")], bounds="one operand")
def expression_single(s, kind, o):
    if kind == "neg:(pos)":
        custom(s, "-(+$1)", lambda sc: -sc["$1"], o)
    elif kind == "(neg)":
        custom(s, "$2-(-$1)", lambda sc: sc["$2"] + sc["$1"], o)
    else:
        expression(s, [kind], [], o)


def custom(s, text, f, o):
    scope = scope_of(s)
    second = round_trip(s, f"%AMM*$9={text}*%", MACRO_SETS[o]())[2]
    s.eq(ExpressionEvalVisitor(scope).evaluate(assigned(second)), f(scope), "value of the expression", tol=1e-4)


FK = ["int", "var", "neg:var", "paren-", "neg:paren-"]


@scenario("F01", cases=[{"a": a, "op": p, "o": o, "_tier": "quick" if o == "default" or "paren" not in a else "thorough"} for a in FK for p in OPS for o in ("default", "explicit")], bounds="two operands of every kind")
def expression_pair(s, a, op, o):
    # the time of the parser grows steeply with nested parentheses
    expression(s, [a, s.choice("b", ["var", "neg:var"] if o == "explicit" or "paren" in a else ["var", "neg:var", "paren+"])], [op], o)


@scenario("F01", cases=[{"o1": a, "o2": b, "o": o, "_tier": "quick" if o == "default" or (a, b) in (("-", "+"), ("/", "x"), ("x", "-"), ("-", "/")) else "thorough"} for a in OPS for b in OPS for o in ("default", "explicit")], bounds="three operands, two operators of every kind")
def expression_triple(s, o1, o2, o):
    if o == "explicit":
        expression(s, ["var", "var", s.choice("c", ["neg:var", "int"])], [o1, o2], o)
    else:
        expression(s, ["var", *s.choice("bc", [("var", "neg:var"), ("paren-", "var"), ("var", "paren-")])], [o1, o2], o)


CODES = {1: 4, 2: 7, 20: 7, 21: 6, 22: 6, 5: 6, 6: 9, 7: 6}


@scenario("F01", cases=[{"code": c, "o": o} for c in list(CODES) + [4, 0] for o in ("default", "indent", "strip", "explicit")], bounds="one field of every digit and sign, the others given; optional rotation")
def primitive(s, code, o):
    s.fmt_digits(repr=True)
    n = CODES.get(code, 0)
    if code == 0:
        text = "0 " + "".join(s.char(f"c{i}", gtext.TEXT) for i in range(3))
    elif code == 4:
        pts = s.choice("points", [1, 2, 3])
        free = s.choice("free", list(range(2 * pts + 5)) if o == "default" else [3, 2 * pts + 4])
        vals = ["1", str(pts)] + [str(i) + ".5" for i in range(2 * pts + 3)]
        vals[free] = number(s) if free != 1 else "$4"
        text = "4," + ",".join(vals)
    else:
        if code == 1 and s.choice("rotated", [False, True]):
            n += 1
        free = s.choice("free", list(range(n)) if o == "default" else [0, n - 1])
        vals = [str(i) + ".5" for i in range(n)]
        vals[free] = number(s)
        text = f"{code}," + ",".join(vals)
    first, out, second = round_trip(s, f"%AMM*$1=2*{text}*1,1,$1,0,0*%M02*", MACRO_SETS[o]())
    s.check(len(second.nodes) == 2 and type(second.nodes[0]) is N.AM, "one definition")
    p, q = first.nodes[0].primitives, second.nodes[0].primitives
    s.check([type(x) for x in p] == [type(x) for x in q], "primitives")
    scope = scope_of(s)
    for a, b in zip(p, q):
        for f in type(a).model_fields:
            x, y = getattr(a, f), getattr(b, f)
            if f == "points":
                s.check(len(x) == len(y), "number of points")
                for i, (u, w) in enumerate(zip(x, y)):
                    same_values(s, scope, u.x, w.x, f"x of point {i}")
                    same_values(s, scope, u.y, w.y, f"y of point {i}")
            elif isinstance(x, N.Expression):
                same_values(s, scope, x, y, f)
            elif f != "source_info":
                s.eq(y, x, f) if isinstance(x, str) else s.check(x == y, f)


def number(s):
    d = s.digits("d", 2, exact=True)
    return s.choice("sign", ["", "-"]) + d[0] + "." + d[1:]

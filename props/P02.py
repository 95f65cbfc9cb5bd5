"""Parsing of macro definitions and macro arithmetic."""

from vf.api import scenario

from props.P01 import Gen, NAME, NAME0, PM, TEXT, located, parser
from pygerber.gerber.ast import nodes as N
from pygerber.gerber.ast.expression_eval_visitor import ExpressionEvalVisitor

ASSUMPTIONS = [
    "numbers are exact reals; replay on the real code compares with tolerance",
    "expressions of up to three operands (quick) / four (thorough), each a constant, a variable, a signed "
    "operand or a parenthesised pair; divisors away from zero",
    "the pyparsing engine is executed as is, its leaf matchers are interpreted over symbolic characters",
]

SCOPE_SIZE = 4


def scope_of(s):
    return {f"${i + 1}": s.real(f"var{i + 1}", -50, 50) for i in range(SCOPE_SIZE)}


def operand(s, k, kind, scope, exact=False):
    """-> (text, value)"""
    if kind == "const":
        d = s.digits(f"d{k}", 3, exact=exact)
        return f"{d[0]}.{d[1:]}", s.numval(f"d{k}") / 100.0
    if kind == "int":
        d = s.digits(f"d{k}", 2, exact=exact)
        return d, s.numval(f"d{k}")
    if kind == "var":
        n = f"${k % SCOPE_SIZE + 1}"
        return n, scope[n]
    if kind.startswith("neg:"):
        t, v = operand(s, k, kind[4:], scope, exact)
        return "-" + t, -v
    if kind.startswith("pos:"):
        t, v = operand(s, k, kind[4:], scope, exact)
        return "+" + t, v
    op = kind[5]  # paren
    (a, va), (b, vb) = operand(s, 2 * k + 10, "var", scope), operand(s, 2 * k + 11, "int", scope, exact)
    return f"({a}{op}{b})", apply(s, op, va, vb)


def apply(s, op, a, b):
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op in "xX":
        return a * b
    s.assume(s.lor(b > 0.05, b < -0.05))
    return a / b


def value(s, operands, ops):
    """Ordinary precedence: x and / before + and -, each left to right."""
    terms, signs = [operands[0]], []
    for op, v in zip(ops, operands[1:]):
        if op in "xX/":
            terms[-1] = apply(s, op, terms[-1], v)
        else:
            signs.append(op)
            terms.append(v)
    total = terms[0]
    for op, t in zip(signs, terms[1:]):
        total = apply(s, op, total, t)
    return total


KINDS = ["const", "var", "neg:var", "neg:const", "paren+", "paren-", "pos:var", "neg:paren-", "paren/"]
OPS = ["+", "-", "x", "/"]


def expression(s, kinds, ops, label=""):
    scope = scope_of(s)
    parts = [operand(s, k, kind, scope) for k, kind in enumerate(kinds)]
    text = parts[0][0] + "".join(o + t for o, (t, _) in zip(ops, parts[1:]))
    v = value(s, [p[1] for p in parts], ops)
    source = f"%AMM*$9={text}*%"
    am = parser().parse(source).nodes[0]
    s.check(type(am) is N.AM and len(am.primitives) == 1, "one definition")
    a = am.primitives[0]
    s.check(type(a) is N.Assignment and a.variable.variable == "$9", "assignment to the variable")
    s.eq(ExpressionEvalVisitor(scope).evaluate(a.expression), v, "value of the expression", tol=1e-4)


@scenario("P02", cases=[{"kind": k} for k in KINDS], bounds="one operand")
def single(s, kind):
    expression(s, [kind], [])


@scenario("P02", cases=[{"a": a, "op": o} for a in KINDS for o in OPS + ["X"]], bounds="two operands of every kind")
def pair(s, a, op):
    expression(s, [a, s.choice("b", KINDS)], [op])


@scenario("P02", cases=[{"o1": a, "o2": b} for a in OPS for b in OPS], bounds="three operands, two operators of every kind")
def triple(s, o1, o2):
    expression(s, [s.choice("a", ["var", "neg:var"]), s.choice("b", ["int", "var", "paren-"]), s.choice("c", ["const", "paren+", "neg:var"])], [o1, o2])


@scenario("P02", tier="thorough", cases=[{"o1": a, "o2": b, "o3": c} for a in OPS for b in OPS for c in OPS], bounds="four operands, three operators of every kind")
def quadruple(s, o1, o2, o3):
    expression(s, [s.choice("a", ["var", "neg:const"]), s.choice("b", ["int", "paren-"]), s.choice("c", ["const", "neg:var"]), s.choice("d", ["var", "paren/"])], [o1, o2, o3])


# ------------------------------------------------------------ primitives

FIELDS = {
    1: ["exposure", "diameter", "center_x", "center_y"],
    2: ["exposure", "width", "start_x", "start_y", "end_x", "end_y", "rotation"],
    20: ["exposure", "width", "start_x", "start_y", "end_x", "end_y", "rotation"],
    21: ["exposure", "width", "height", "center_x", "center_y", "rotation"],
    22: ["exposure", "width", "height", "x_lower_left", "y_lower_left", "rotation"],
    5: ["exposure", "number_of_vertices", "center_x", "center_y", "diameter", "rotation"],
    6: ["center_x", "center_y", "outer_diameter", "ring_thickness", "gap_between_rings", "max_ring_count", "crosshair_thickness", "crosshair_length", "rotation"],
    7: ["center_x", "center_y", "outer_diameter", "inner_diameter", "gap_thickness", "rotation"],
}


def field_text(s, g, name, k, kind, scope):
    """kind: number, variable or sum."""
    g.lit(",")
    if kind == "num":
        g.num(name, (1, 2), ("-",) if k % 2 else ("",))
    elif kind == "var":
        v = f"${k % SCOPE_SIZE + 1}"
        g.lit(v)
        g.want[name] = scope[v]
    else:
        v = f"${k % SCOPE_SIZE + 1}"
        g.lit(v + "+").num(name, (2, 0))
        g.want[name] = scope[v] + g.want[name]


def evaluate(s, scope, node, want, label):
    s.eq(ExpressionEvalVisitor(scope).evaluate(node), want, label, tol=1e-6)


KIND_ROWS = [("num",), ("var",), ("sum", "num"), ("num", "var", "sum")]


def check_macro(s, g, name, head, prim, cls):
    source = "G71*\n" + head + prim + "%\nM02*"
    nodes = parser().parse(source).nodes
    s.check(len(nodes) == 3 and type(nodes[1]) is N.AM and type(nodes[2]) is N.M02, "one definition")
    am = nodes[1]
    s.eq(am.open.name, name, "name of the macro")
    s.check(len(am.primitives) == 1 and type(am.primitives[0]) is cls, "kind of the primitive")
    p = am.primitives[0]
    located(s, am.open, source, 5, len(head), "opening")
    located(s, p, source, 5 + len(head), len(prim), "primitive")
    located(s, am.close, source, 5 + len(head) + len(prim), 1, "closing")
    return p


def head_of(s):
    g = Gen(s).lit("%AM").chars("name", 3, NAME0 + ".", NAME).lit("*")
    return g.want["name"], g.text


@scenario("P02", cases=[{"code": c, "row": r} for c in FIELDS for r in range(len(KIND_ROWS))], bounds="every field a number, variable or sum; macro name of three characters")
def primitive(s, code, row):
    scope = scope_of(s)
    name, head = head_of(s)
    g = Gen(s).lit(str(code))
    g.k = 50
    kinds = KIND_ROWS[row]
    fields = list(FIELDS[code])
    if code == 1 and s.choice("rotated", [False, True]):
        fields.append("rotation")
    for k, f in enumerate(fields):
        field_text(s, g, f, k, kinds[k % len(kinds)], scope)
    p = check_macro(s, g, name, head, g.lit("*").text, getattr(N, f"Code{code}"))
    for f in fields:
        evaluate(s, scope, getattr(p, f), g.want[f], f)
    if code == 1 and "rotation" not in fields:
        s.check(p.rotation is None, "rotation not given")


@scenario("P02", cases=[{"n": n, "row": r} for n in (1, 2, 3) for r in range(len(KIND_ROWS))] + [{"n": n, "row": r, "_tier": "thorough"} for n in (4, 5) for r in range(len(KIND_ROWS))],
          bounds="outlines of up to three (quick) / five (thorough) further points")
def outline(s, n, row):
    scope = scope_of(s)
    name, head = head_of(s)
    g = Gen(s).lit(f"4")
    g.k = 50
    kinds = KIND_ROWS[row]
    fields = ["exposure"]
    g.lit("," + s.choice("exposure", ["0", "1"]))
    g.want["exposure"] = int(g.text[-1])
    g.lit(f",{n}")
    names = ["start_x", "start_y"] + [f"{a}{i}" for i in range(n) for a in "xy"] + ["rotation"]
    for k, f in enumerate(names):
        field_text(s, g, f, k, kinds[k % len(kinds)], scope)
    p = check_macro(s, g, name, head, g.lit("*").text, N.Code4)
    evaluate(s, scope, p.exposure, g.want["exposure"], "exposure")
    evaluate(s, scope, p.number_of_points, n, "number of points")
    for f in ("start_x", "start_y", "rotation"):
        evaluate(s, scope, getattr(p, f), g.want[f], f)
    s.check(len(p.points) == n, "number of points")
    for i, pt in enumerate(p.points):
        evaluate(s, scope, pt.x, g.want[f"x{i}"], f"x of point {i}")
        evaluate(s, scope, pt.y, g.want[f"y{i}"], f"y of point {i}")


@scenario("P02", cases=[{"n": n} for n in (1, 3)], bounds="every printable text")
def comment(s, n):
    name, head = head_of(s)
    g = Gen(s).lit("0")
    g.k = 50
    g.chars("string", n, TEXT, TEXT + " ")
    p = check_macro(s, g, name, head, g.lit("*").text, N.Code0)
    s.eq(p.string, g.want["string"], "text of the comment")


@scenario("P02", bounds="every sequence of three of: circle, assignment, comment, rectangle, outline")
def order(s):
    texts = ["1,1,2,3,4*", "$1=2*", "0 c*", "21,1,1,1,0,0,0*", "4,1,1,0,0,1,1,0*"]
    classes = [N.Code1, N.Assignment, N.Code0, N.Code21, N.Code4]
    ks = [s.choice(f"k{i}", list(range(5))) for i in range(3)]
    sep = s.choice("sep", ["", "\n"])
    am = parser().parse("%AMX*" + sep + sep.join(texts[k] for k in ks) + "%").nodes[0]
    s.check([type(p) for p in am.primitives] == [classes[k] for k in ks], "primitives in order of the text")


@scenario("P02", cases=[{"n": n} for n in (1, 2, 3)], bounds="every variable number of n digits")
def variable_number(s, n):
    d = s.digits("d", n)
    am = parser().parse(f"%AMX*${d}=${d}x2*%").nodes[0]
    a = am.primitives[0]
    s.eq(a.variable.variable, "$" + d, "assigned variable")
    s.check(type(a.expression) is N.Mul, "product")
    s.eq(a.expression.head.variable, "$" + d, "used variable")

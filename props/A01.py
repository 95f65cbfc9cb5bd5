"""Visiting the syntax tree and linting."""

from props.gtext import COMMANDS, CONFIG, N, parser
from vf.api import scenario

from pygerber.gerber.linter import RULE_REGISTRY, EventAstVisitor, Linter, lint

ASSUMPTIONS = [
    "texts of one to five commands; numbers and names of the commands are those of P01, macro parameters of one symbolic digit",
    "the pyparsing engine is executed as is, its leaf matchers are interpreted over symbolic characters",
]

TYPES = [c for c in vars(N).values() if isinstance(c, type) and issubclass(c, N.Node)]


def nodes_of(node, out):
    """Every node of the tree, parents first, in the order of the fields."""
    out.append(node)
    for f in type(node).model_fields:
        v = getattr(node, f)
        for x in v if isinstance(v, (list, tuple)) else [v]:
            if isinstance(x, N.Node):
                nodes_of(x, out)
    return out


def listen(s, file):
    seen = []
    visitor = EventAstVisitor()
    for t in TYPES:
        visitor.register_listener(t, lambda node, t=t: seen.append((t, node)))
    file.visit(visitor)
    want = nodes_of(file, [])
    s.check(len(seen) == len(want), f"number of notifications: {len(seen)} instead of {len(want)}")
    for (t, got), w in zip(seen, want):
        s.check(got is w and type(w) is t, f"{type(w).__name__} is announced in its turn to the listener of its type")
    return want


PLACES = {"top": ("", ""), "AB": ("%ABD10*%", "%AB*%"), "SR": ("%SRX2Y3I1.0J2.0*%", "%SR*%")}


def _register(name, fn, cases):
    def run(s, place, **params):
        g, cls = fn(s, **params)
        a, b = PLACES[place]
        file = parser().parse(f"G71*\n{a}{g.text}{b}\nM02*")
        nodes = listen(s, file)
        s.check(sum(type(n) is cls for n in nodes) == 1, "command is found in the tree")

    run.__name__ = name
    cs = [{**{k: v for k, v in c.items() if k != "_tier"}, "place": p} for c in cases for p in PLACES]
    scenario("A01", cases=cs, bounds="each command of the language at the top, in a block aperture and in a repetition")(run)


for _n, (_f, _c, _b) in COMMANDS.items():
    _register(_n, _f, [c for c in _c if c.get("_tier") != "thorough"][:1])


BODIES = {
    "code_1": "1,{},{},{},{},{}*", "code_1_short": "1,{},{},{},{}*", "code_2": "2,{},{},{},{},{},{},{}*", "code_20": "20,{},{},{},{},{},{},{}*",
    "code_4": "4,1,2,{},{},{},{},{},{},{}*", "code_5": "5,{},3,{},{},{},{}*", "code_6": "6,{},{},{},{},{},{},{},{},{}*", "code_7": "7,{},{},{},{},{},{}*",
    "code_21": "21,{},{},{},{},{},{}*", "code_22": "22,{},{},{},{},{},{}*", "comment": "0 text*1,1,{},0,0*", "assign": "$4=$1+{}x2-(1/{})*1,1,$4,-{},+$2*",
}


@scenario("A01", cases=[{"body": b} for b in BODIES], bounds="each macro primitive and each kind of expression, every digit")
def macro(s, body):
    t = BODIES[body]
    n = t.count("{}")
    ds = [s.digits(f"d{k}", 1) for k in range(n)]
    nodes = listen(s, parser().parse("%AMM1*\n" + t.format(*ds) + "%\nM02*"))
    s.check(sum(isinstance(x, N.Constant) for x in nodes) >= n - 1, "numbers are found in the tree")


@scenario("A01", cases=[{"axes": a} for a in ("", "X", "Y", "XY", "XYIJ")], bounds="operations with any coordinates, every digit")
def operation(s, axes):
    code = s.choice("code", [1] if "I" in axes else [1, 2, 3])
    nodes = listen(s, parser().parse("G01*\n" + "".join(a + s.digits("c" + a, 2) for a in axes) + f"D0{code}*M02*"))
    s.check(sum(type(x).__name__.startswith("Coordinate") for x in nodes) == len(axes), "coordinates are found in the tree")


@scenario("A01", bounds="several listeners of one type")
def listeners(s):
    file = parser().parse("G01*X" + s.digits("x", 2) + "D01*G01*M02*")
    log = []
    v = EventAstVisitor()
    for k in range(3):
        v.register_listener(N.G01, lambda node, k=k: log.append((k, node)))
    file.visit(v)
    a, b = file.nodes[0], file.nodes[2]
    s.check([k for k, _ in log] == [0, 1, 2] * 2, "every listener is called in the order of registration")
    s.check(all(n is w for (_, n), w in zip(log, [a, a, a, b, b, b])), "with the node visited")


# ---------------------------------------------------------------- linter


def expected(items):
    """items: (code, start, length, line, column) -> violations"""
    out = []
    last = None
    for code, *place in items:
        if code in (1, 2, 3):
            if last == code:
                out.append(("GRB001", *place))
            last = code
        elif code == "AB":
            last = None
        elif code == 54:
            out.append(("DEP001", *place))
        elif code == 55:
            out.append(("DEP002", *place))
    return out


def found(violations):
    return [(v.rule_id, v.start_offset, v.end_offset - v.start_offset, v.line, v.column) for v in violations]


def code_text(s, k, n):
    """-> (text, code or None, length of the node reported)"""
    kinds = ["G", "G54", "G55", "D01", "other"] if n < 3 else ["G", "G54", "other"] if n == 3 else ["G", "other"]
    kind = s.choice(f"kind{k}", kinds if k < n else kinds[:2])
    if kind == "G":
        d = s.char(f"d{k}", "123")
        return f"G0{d}*", d, 4
    if kind == "G54":
        return "G54D10*", 54, 3
    if kind == "G55":
        return "G55X1Y2D03*", 55, 3
    if kind == "D01":
        d = s.char(f"d{k}", "123")
        return f"G0{d}X1Y1D01*", d, 3
    return "D11*", None, None


@scenario("A01", cases=[{"n": n, "place": p} for n in (1, 2, 3) for p in PLACES] + [{"n": 4, "place": p, "_tier": "thorough"} for p in PLACES], weight=2,
          bounds="up to three (thorough four) commands, each any of G01, G02, G03 (alone or joined with an operation), G54, G55 and others, in one line or several, after a G code of any kind; each subset of rules")
def rules(s, n, place):
    a, b = PLACES[place]
    sep = s.choice("sep", ["", "\n"]) if n == 2 else "\n"
    first = s.char("d0", "123")
    text = f"G0{first}*\n"
    items = [(first, 0, 4, 1, 1)]
    text += a
    for k in range(1, n + 1):
        t, code, length = code_text(s, k, n)
        line = text.count("\n") + 1
        col = len(text) - (text.rfind("\n") + 1) + 1
        if code is not None:
            items.append((code, len(text), length, line, col))
        text += t + (sep if k < n else "")
    text += b
    if place == "AB":
        items.append(("AB",))
    line = text.count("\n") + 1
    col = len(text) - (text.rfind("\n") + 1) + 1
    end = s.char("dn", "123")
    items.append((end, len(text), 4, line, col))
    text += f"G0{end}*M02*"
    file = parser().parse(text)
    # the digits are decided by now: read the codes back
    items = [(int(concrete(s, i[0], "123")) if isinstance(i[0], str) and i[0] != "AB" else i[0], *i[1:]) for i in items]
    want = expected(items)
    s.check(found(lint(file)) == want, "all rules report exactly the redundant and deprecated codes, where they are")
    for r in ("GRB001", "DEP001", "DEP002"):
        s.check(found(lint(file, [r])) == [w for w in want if w[0] == r], f"{r} alone")
    linter = Linter([c() for c in RULE_REGISTRY.values()])
    once, again = found(linter.lint(file)), found(linter.lint(file))
    s.check(once == want and again == want, "linting again gives the same")


def concrete(s, c, dom):
    if not s.sym:
        return c
    from vf import core, strings

    for d in dom:
        if bool(strings.char_is(core.ctx(), c, d)):
            return d
    raise AssertionError

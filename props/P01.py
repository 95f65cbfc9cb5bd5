"""Parsing of the commands of a Gerber file."""

from vf.api import scenario

from props.gtext import COMMANDS, E, FIELD, FORMS, Gen, N, NAME, NAME0, PM, TEXT, form_of, forms, parser, same

ASSUMPTIONS = [
    "decimal literals denote exact reals; replay on the real code compares with tolerance",
    "numbers of up to three digits (quick) / five digits (thorough) on each side of the decimal point; "
    "texts and names of up to three (quick) / five characters (thorough); whitespace only where noted",
    "the pyparsing engine is executed as is, its leaf matchers (literals, regular expressions, "
    "character sets) are interpreted over symbolic characters",
]

def located(s, node, source, start, length, label):
    info = node.source_info
    s.check(info is not None and info.location == start and info.length == length, f"{label}: place in the source")
    s.check(info.end_location == start + length, f"{label}: end in the source")


def verify(s, g, cls, defaults=None, strict_fields=True):
    """Parse the command in the middle of a file."""
    # the command stands in the middle of a small file
    before, after = "G71*\n", "\nM02*"
    source = before + g.text + after
    file = parser().parse(source)
    s.check(type(file) is N.File, "root of the tree is a file")
    s.check(len(file.nodes) == 3, "number of commands")
    first, node, last = file.nodes
    s.check(type(first) is N.G71 and type(last) is N.M02, "neighbouring commands")
    s.check(type(node) is cls, f"kind of the command is {cls.__name__}")
    for f in type(node).model_fields:
        if f == "source_info":
            continue
        if f in g.want:
            same(s, getattr(node, f), g.want[f], f)
        elif f == "is_standalone":
            s.check(node.is_standalone is True, "standalone command")
        else:
            d = type(node).model_fields[f]
            s.check(getattr(node, f) == d.get_default(call_default_factory=True), f"{f} not given")
    located(s, first, source, 0, 4, "first command")
    located(s, node, source, len(before), len(g.text), "command")
    located(s, last, source, len(before) + len(g.text) + 1, 4, "last command")
    s.check(node.source_info.line == 2 and node.source_info.column == 1, "line and column of the command")
    s.check(last.source_info.line == 3 and last.source_info.column == 1, "line and column of the next command")
    return node



def _register(name, fn, cases, bounds):
    def run(s, **params):
        g, cls = fn(s, **params)
        verify(s, g, cls)

    run.__name__ = name
    scenario("P01", cases=cases, bounds=bounds)(run)


for _n, (_f, _c, _b) in COMMANDS.items():
    _register(_n, _f, _c, _b)


# ------------------------------------------------------------ plotting


def coordinate(s, g, axis, n):
    sign = s.choice(f"sign_{axis}", ["", "-", "+"])
    start = len(g.text)
    g.lit(axis + sign)
    t = g.digits(n)
    return axis.lower(), sign + t, start, len(g.text) - start


def plot(s, code, axes, n, prefix):
    g = Gen(s)
    if prefix:
        g.lit("G" + s.choice("gzero", ["", "0", "00"]) + str(prefix))
    glen = len(g.text)
    coords = [coordinate(s, g, a, n) for a in axes]
    if code:
        g.lit("D" + s.choice("dzero", ["", "0", "00"]) + str(code))
    g.lit("*")
    source = "G71*\n" + g.text + "\nM02*"
    nodes = parser().parse(source).nodes
    s.check(len(nodes) == (4 if prefix else 3), "number of commands")
    if prefix:
        pre = nodes[1]
        s.check(type(pre) is getattr(N, f"G{prefix:02d}"), "kind of the G code")
        s.check(pre.is_standalone is False, "G code joined with the D code")
        located(s, pre, source, 5, glen, "G code")
    node = nodes[-2]
    cls = {1: N.D01, 2: N.D02, 3: N.D03, None: N.D01}[code]
    s.check(type(node) is cls, "kind of the operation")
    s.check(node.is_standalone is (not prefix), "standalone")
    for f in type(node).model_fields:
        if f in ("source_info", "is_standalone"):
            continue
        given = [c for c in coords if c[0] == f]
        v = getattr(node, f)
        if not given:
            s.check(v is None, f"{f} not given")
        else:
            s.check(type(v) is getattr(N, f"Coordinate{f.upper()}"), f"kind of coordinate {f}")
            s.eq(v.value, given[0][1], f"coordinate {f}")
            located(s, v, source, 5 + given[0][2], given[0][3], f"coordinate {f}")
    located(s, node, source, 5 + glen, len(g.text) - glen, "operation")
    s.check(type(nodes[-1]) is N.M02, "next command")


AXES = {1: ("", "X", "Y", "XY", "XYIJ", "IJ", "XI", "YJ"), 2: ("", "X", "Y", "XY"), 3: ("", "X", "Y", "XY"), None: ("X", "Y", "XY", "XYIJ", "IJ")}


@scenario("P01", cases=[{"code": c, "axes": a} for c in (1, 2, 3, None) for a in AXES[c]], bounds="every sign and digit of coordinates of three digits; leading zeros of the code; omitted D01 code")
def operation(s, code, axes):
    plot(s, code, axes, 3, None)


@scenario("P01", cases=[{"prefix": p, "code": c} for p in (1, 2, 3, 70, 75, 90) for c in (1, 2, 3, None)], bounds="G code joined with an operation; every sign and digit of coordinates of two digits")
def joined(s, prefix, code):
    plot(s, code, "XYIJ" if code == 1 else "XY", 2, prefix)


@scenario("P01", bounds="every aperture number of two and three digits, with and without leading zero, after G54 or alone")
def select_aperture(s):
    pre = s.choice("pre", ["", "G54"])
    g = Gen(s).lit(pre).aperture(s.choice("n", [2, 3])).lit("*")
    nodes = parser().parse("G71*\n" + g.text + "\nM02*").nodes
    s.check(len(nodes) == (4 if pre else 3), "number of commands")
    if pre:
        s.check(type(nodes[1]) is N.G54, "G54")
    s.check(type(nodes[-2]) is N.Dnn, "kind of the command")
    s.check(nodes[-2].is_standalone is (not pre), "standalone")
    s.eq(nodes[-2].aperture_id, g.want["aperture_id"], "aperture")


# ------------------------------------------------------------ blocks


@scenario("P01", cases=[{"n": n} for n in range(4)], bounds="every coordinate of blocks of up to three operations, and an inner block")
def aperture_block(s, n):
    g = Gen(s).lit("%AB").aperture().lit("*%")
    opened, outer = len(g.text), g.want["aperture_id"]
    want = []
    for i in range(n):
        g.lit("\nX")
        t = g.digits(2)
        code = s.choice(f"code{i}", [1, 2, 3])
        g.lit(f"D0{code}*")
        want.append((code, t))
    inner = s.choice("inner", [False, True])
    if inner:
        g.lit("\n%AB").aperture(3).lit("*%%AB*%")
    g.lit("\n%AB*%")
    source = "G71*\n" + g.text + "\nM02*"
    nodes = parser().parse(source).nodes
    s.check(len(nodes) == 3 and type(nodes[1]) is N.AB and type(nodes[2]) is N.M02, "one block")
    ab = nodes[1]
    s.eq(ab.open.aperture_id, outer, "aperture of the block")
    located(s, ab.open, source, 5, opened, "opening")
    located(s, ab.close, source, 5 + len(g.text) - 5, 5, "closing")
    check_ops(s, ab.nodes, want, inner)
    if inner:
        s.check(type(ab.nodes[-1]) is N.AB and ab.nodes[-1].nodes == [], "inner block")
        s.eq(ab.nodes[-1].open.aperture_id, g.want["aperture_id"], "aperture of the inner block")


def check_ops(s, nodes, want, extra):
    s.check(len(nodes) == len(want) + extra, "number of commands in the block")
    for n, (code, t) in zip(nodes, want):
        s.check(type(n) is {1: N.D01, 2: N.D02, 3: N.D03}[code], "operation in the block")
        s.eq(n.x.value, t, "coordinate in the block")


@scenario("P01", cases=[{"n": n, "axes": a} for n in (0, 2) for a in ("", "XY", "XYIJ", "X", "XI", "YJ")], bounds="every repeat count and step of two digits")
def step_repeat(s, n, axes):
    g = Gen(s).lit("%SR")
    vals = {}
    for a in axes:
        g.lit(a)
        start = len(g.text)
        if a in "XY":
            g.digits(1)
        else:
            g.num(None, (1, 2))
        vals[a.lower()] = g.text[start:]
    g.lit("*%")
    want = []
    for i in range(n):
        g.lit("X")
        t = g.digits(2)
        code = s.choice(f"code{i}", [1, 2, 3])
        g.lit(f"D0{code}*")
        want.append((code, t))
    g.lit("%SR*%")
    source = "G71*\n" + g.text + "\nM02*"
    nodes = parser().parse(source).nodes
    s.check(len(nodes) == 3 and type(nodes[1]) is N.SR and type(nodes[2]) is N.M02, "one block")
    sr = nodes[1]
    for a in "xyij":
        v = getattr(sr.open, a)
        if a in vals:
            s.eq(v, vals[a], f"parameter {a}")
        else:
            s.check(v is None, f"parameter {a} not given")
    check_ops(s, sr.nodes, want, 0)
    located(s, sr.close, source, 5 + len(g.text) - 5, 5, "closing")


# ------------------------------------------------------------ files


KINDS = ["G01*", "%LPC*%", "X1Y2D01*", "D10*", "%TD*%", "G04 a*"]
CLS = [N.G01, N.LP, N.D01, N.Dnn, N.TD, N.G04]


@scenario("P01", bounds="every sequence of four commands of six kinds, separated by any of four separators")
def sequence(s):
    ks = [s.choice(f"k{i}", list(range(6))) for i in range(3)]
    sep = s.choice("sep", ["", "\n", "\r\n", " \n\n"])
    source = sep.join(KINDS[k] for k in ks)
    nodes = parser().parse(source).nodes
    s.check([type(n) for n in nodes] == [CLS[k] for k in ks], "commands in order of the text")
    at = 0
    for k, n in zip(ks, nodes):
        located(s, n, source, at, len(KINDS[k]), "command")
        at += len(KINDS[k]) + len(sep)

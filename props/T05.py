"""Places in the source text."""

from props.gtext import N, parser
from vf.api import scenario

from pygerber.common.position import Position
from pygerber.gerber.ast.node_finder import NodeFinder, OneBasedPosition, ZeroBasedPosition

ASSUMPTIONS = [
    "lines and columns up to 10^6 for positions; for the search every place inside of a node of files of up to six commands in every layout of lines listed",
]


@scenario("T05", bounds="every pair of positions")
def order(s):
    a, b = [(s.int(f"line{k}", 1, 10**6), s.int(f"column{k}", 1, 10**6)) for k in range(2)]
    p, q = Position(*a), Position(*b)
    less = s.lor(a[0] < b[0], s.land(a[0] == b[0], a[1] < b[1]))
    same = s.land(a[0] == b[0], a[1] == b[1])
    for got, want, op in (
        (p < q, less, "<"), (p <= q, s.lor(less, same), "<="), (p == q, same, "=="), (p != q, s.lnot(same), "!="),
        (p > q, s.lnot(s.lor(less, same)), ">"), (p >= q, s.lnot(less), ">="),
    ):
        s.check(bool(got) == bool(want), f"{op} compares by line, then by column")


@scenario("T05", bounds="every position and displacement")
def conversions(s):
    line, col = s.int("line", 0, 10**6), s.int("column", 0, 10**6)
    p = Position.from_vscode_position(line, col)
    s.eq(p.line, line + 1, "line counts from one")
    s.eq(p.column, col + 1, "column counts from one")
    dl, dc = s.int("dl", -1000, 1000), s.int("dc", -1000, 1000)
    q = p.offset(dl, dc)
    s.eq(q.line, line + 1 + dl, "line of the displaced position")
    s.eq(q.column, col + 1 + dc, "column of the displaced position")
    s.eq(p.line, line + 1, "the position itself is not moved")
    z = ZeroBasedPosition(line=line, column=col).to_one_based()
    s.eq(z.line, line + 1, "line of the one based position")
    s.eq(z.column, col + 1, "column of the one based position")


# pieces of each file; a piece is one innermost node; \n and blanks between pieces
FILES = {
    "flat": ["G01*", "%ADD10C,1*%", "D10*", "X1Y2D02*", "X3Y4D01*", "M02*"],
    "macro": ["G01*", "%AMX*", "1,1,1,0,0*", "21,1,2,3,0,0,0*", "%", "M02*"],
    "macro_only": ["%AMX*", "1,1,1,0,0*", "20,1,2,3,0,0,0,0*", "$1=2*", "%"],
    "block": ["%ADD10C,1*%", "%ABD12*%", "D10*", "X1Y2D03*", "%AB*%", "M02*"],
    "block_only": ["%ABD12*%", "D10*", "X1Y2D03*", "%AB*%"],
    "repeat": ["D10*", "%SRX2Y2I1J1*%", "X1Y2D03*", "X1Y5D03*", "%SR*%", "M02*"],
    "nested": ["%ABD12*%", "%ABD13*%", "X1Y2D03*", "%AB*%", "D13*", "%AB*%"],
    "one": ["G01*"],
    "two": ["G01*", "M02*"],
}
LAYOUTS = {"line": [""], "lines": ["\n"], "indent": ["\n  "], "mixed": ["", "\n", " "], "pairs": ["", "\n    "], "second": ["\n", "", "\n      "]}
PLOT = ("X", "Y")


@scenario("T05", cases=[{"file": f, "layout": l} for f in FILES for l in LAYOUTS], bounds="every line and column inside of a node")
def search(s, file, layout):
    pieces = FILES[file]
    seps = LAYOUTS[layout]
    text = "\n" if layout == "second" else ""
    text += "   " if layout in ("mixed", "indent") else ""
    at = []
    for k, p in enumerate(pieces):
        if k:
            text += seps[k % len(seps)]
        line = text.count("\n") + 1
        col = len(text) - (text.rfind("\n") + 1) + 1
        at.append((line, col, len(p), len(text)))
        text += p
    ast = parser().parse(text)
    line, col = s.int("line", 1, text.count("\n") + 1), s.int("column", 1, 200)
    s.assume(s.lor(*[s.land(line == a, col >= b, col < b + n) for a, b, n, _ in at]))
    node = NodeFinder(ast).find_node(OneBasedPosition(line=line, column=col))
    s.check(node is not None, "a node is found")
    info = node.source_info
    s.check(info is not None, "the node has a place")
    for (a, b, n, start), piece in zip(at, pieces):
        hit = s.land(line == a, col >= b, col < b + n)
        right = info.location == start and info.length == n and text[start : start + n] == piece
        s.check(s.lor(s.lnot(hit), right), f"node found is the innermost one, {piece}")
    s.check(type(node).__name__ not in ("File", "AM", "AB", "SR"), "innermost node")

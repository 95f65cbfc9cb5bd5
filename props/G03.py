"""Circular draws (multi quadrant)."""

from vf.api import scenario

from props import geo
from props.geo import N, Prog

ASSUMPTIONS = [
    "numbers are exact reals; replay on the real code compares with tolerance 1e-6",
    "multi quadrant mode; round solid apertures; I and J given",
    "single quadrant arcs are outside: the compiler does not draw them",
]


def arc_stroke(s, a, b, c, t, cw, neg):
    return [
        ("shape", neg, geo.ref_circle(a, t)),
        ("shape", neg, geo.ref_arc(s, a, b, c, t, cw)),
        ("shape", neg, geo.ref_circle(b, t)),
    ]


def setup(s, p):
    t = s.real("t", 0.001, 100)
    p.circle("D10", t).select("D10")
    if s.choice("ls", [False, True]):
        k = s.real("scale", 0.01, 20)
        p.add(N.LS(scale=k))
        t = t * k
    return t


@scenario("G03", cases=[{"cw": True}, {"cw": False}], bounds="one arc, any start, end, centre offset, diameter, polarity; G75 before or after G02/G03")
def one_arc(s, cw):
    p = Prog(s)
    t = setup(s, p)
    g = N.G02() if cw else N.G03()
    if s.choice("order", [False, True]):
        p.add(N.G75(), g)
    else:
        p.add(g, N.G75())
    neg = geo.polarity(s)
    p.polarity(neg)
    a = p.moveto("a")
    b, o = p.arc("b")
    s.assume(s.lor(a[0] - b[0] > 0.01, b[0] - a[0] > 0.01, a[1] - b[1] > 0.01, b[1] - a[1] > 0.01))
    c = (a[0] + o[0], a[1] + o[1])
    geo.same_tree(s, p.image(), arc_stroke(s, a, b, c, t, cw, neg))


@scenario("G03", cases=[{"cw": True}, {"cw": False}], bounds="full circle: end point equal to start point (given or omitted)")
def full_circle(s, cw):
    p = Prog(s)
    t = setup(s, p)
    p.add(N.G75(), N.G02() if cw else N.G03())
    neg = geo.polarity(s)
    p.polarity(neg)
    nodes, a = p.xy("a")
    p.add(N.D02(x=nodes[0], y=nodes[1]))
    m, o = p.xy("o", ij=True)
    s.assume(s.lor(o[0] > 0.01, o[0] < -0.01, o[1] > 0.01, o[1] < -0.01))
    if s.choice("omit", [False, True]):
        p.add(N.D01(i=m[0], j=m[1]))
    else:
        p.add(N.D01(x=nodes[0], y=nodes[1], i=m[0], j=m[1]))
    c = (a[0] + o[0], a[1] + o[1])
    b = (c[0] + o[0], c[1] + o[1])
    r = s.sqrt(o[0] * o[0] + o[1] * o[1])
    got = geo.inline(p.image())
    # every object has the polarity; caps on the start point; bands between
    # radius r - t/2 and r + t/2 around c, together a full turn
    bands = []
    for kind, n, body in got:
        s.check(kind == "shape" and bool(n) == neg, "polarity of the full circle")
        circ = geo.as_circle(s, geo.closed(s, body))
        if circ:
            s.eq(circ[0][0], a[0], "end cap x")
            s.eq(circ[0][1], a[1], "end cap y")
            dx, dy = circ[1][0] - circ[0][0], circ[1][1] - circ[0][1]
            s.eq(dx * dx + dy * dy, t * t / 4, "end cap radius squared", tol=1e-5)
        else:
            bands.append(body)
    s.check(len(bands) == 2, "full circle drawn as two half bands")
    for k, (u, v) in enumerate(((a, b), (b, a))):
        geo.same_outline(s, bands[k], geo.ref_arc(s, u, v, c, t, cw), f"half band {k}")


@scenario("G03", bounds="arc, line, arc of other direction: current point and mode changes")
def mixed(s):
    p = Prog(s)
    t = setup(s, p)
    from props.G02 import stroke

    cw = s.choice("cw", [True, False])
    p.add(N.G75(), N.G02() if cw else N.G03())
    a = p.moveto("a")
    b, o = p.arc("b")
    s.assume(s.lor(a[0] - b[0] > 0.01, b[0] - a[0] > 0.01))
    p.add(N.G01())
    c = p.draw("c")
    p.add(N.G03() if cw else N.G02())
    d, q = p.arc("d")
    s.assume(s.lor(d[0] - c[0] > 0.01, c[0] - d[0] > 0.01))
    want = (
        arc_stroke(s, a, b, (a[0] + o[0], a[1] + o[1]), t, cw, False)
        + stroke(s, b, c, t, False)
        + arc_stroke(s, c, d, (c[0] + q[0], c[1] + q[1]), t, not cw, False)
    )
    geo.same_tree(s, p.image(), want)


@scenario("G03", bounds="second arc with I or J omitted: the omitted offset is zero, not the one of the previous arc")
def omitted_offset(s):
    p = Prog(s)
    t = s.real("t", 0.001, 100)
    p.circle("D10", t).select("D10")
    cw = s.choice("cw", [True, False])
    p.add(N.G75(), N.G02() if cw else N.G03())
    a = p.moveto("a")
    b, o = p.arc("b")
    s.assume(s.lor(a[0] - b[0] > 0.01, b[0] - a[0] > 0.01))
    n, c = p.xy("c")
    m, q = p.xy("c.o", ij=True)
    s.assume(s.lor(c[0] - b[0] > 0.01, b[0] - c[0] > 0.01))
    if s.choice("omit", ["i", "j"]) == "i":
        p.add(N.D01(x=n[0], y=n[1], j=m[1]))
        q = (0.0, q[1])
    else:
        p.add(N.D01(x=n[0], y=n[1], i=m[0]))
        q = (q[0], 0.0)
    want = arc_stroke(s, a, b, (a[0] + o[0], a[1] + o[1]), t, cw, False) + arc_stroke(
        s, b, c, (b[0] + q[0], b[1] + q[1]), t, cw, False
    )
    geo.same_tree(s, p.image(), want)

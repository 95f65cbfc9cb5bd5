"""Straight draws."""

from vf.api import scenario

from props import geo
from props.geo import E, N, Prog

ASSUMPTIONS = [
    "numbers are exact reals; replay on the real code compares with tolerance 1e-6",
    "round solid apertures (the only ones the format allows for draws)",
]


def stroke(s, a, b, t, neg):
    return [
        ("shape", neg, geo.ref_circle(a, t)),
        ("shape", neg, geo.ref_line(s, a, b, t)),
        ("shape", neg, geo.ref_circle(b, t)),
    ]


@scenario("G02", bounds="one draw, any start, end, diameter, polarity, quadrant mode")
def one_draw(s):
    p = Prog(s)
    t = s.real("t", 0.001, 100)
    p.circle("D10", t).select("D10")
    quad = s.choice("quad", [None, N.G74, N.G75])
    if quad:
        p.add(quad())
    p.add(N.G01())
    neg = geo.polarity(s)
    p.polarity(neg)
    a = p.moveto("a")
    b = p.draw("b")
    geo.same_tree(s, p.image(), stroke(s, a, b, t, neg))


@scenario("G02", bounds="axis parallel draw chain of 3, omitted coordinates, polarity and width change between draws")
def chain(s):
    p = Prog(s)
    t = s.real("t", 0.001, 100)
    u = s.real("u", 0.001, 100)
    p.circle("D10", t).circle("D11", u).select("D10").add(N.G01())
    a = p.moveto("a")
    # X only, then Y only, then X only
    tx, x = p.coord("x1")
    p.add(N.D01(x=N.CoordinateX(value=tx)))
    b = (x, a[1])
    neg = geo.polarity(s)
    p.polarity(neg)
    swap = s.choice("swap", [False, True])
    if swap:
        p.select("D11")
    ty, y = p.coord("y2")
    p.add(N.D01(y=N.CoordinateY(value=ty)))
    c = (x, y)
    tx3, x3 = p.coord("x3")
    p.add(N.D01(x=N.CoordinateX(value=tx3)))
    d = (x3, y)
    w = u if swap else t
    want = stroke(s, a, b, t, False) + stroke(s, b, c, w, neg) + stroke(s, c, d, w, neg)
    geo.same_tree(s, p.image(), want)


@scenario("G02", bounds="draw without preceding move starts at the origin; flash, then draw starts at the flash; draw does not depend on load rotation or mirroring")
def start_point(s):
    p = Prog(s)
    t = s.real("t", 0.001, 100)
    p.circle("D10", t).select("D10").add(N.G01())
    kind = s.choice("before", ["nothing", "flash", "draw"])
    want = []
    a = (0.0, 0.0)
    if kind == "flash":
        a = p.flash("a")
        want = [("shape", False, geo.ref_circle(a, t))]
    elif kind == "draw":
        c = p.draw("a")
        want = stroke(s, a, c, t, False)
        a = c
    if s.choice("lr", [False, True]):
        p.add(N.LR(rotation=s.real("angle", -360, 360)))
    k = 1.0
    if s.choice("lm", [False, True]):
        p.add(N.LM(mirroring=s.choice("m", list(E.Mirroring))))
    if s.choice("ls", [False, True]):
        k = s.real("scale", 0.01, 20)
        p.add(N.LS(scale=k))
    b = p.draw("b")
    geo.same_tree(s, p.image(), want + stroke(s, a, b, t * k, False))

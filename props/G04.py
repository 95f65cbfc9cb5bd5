"""Regions."""

from vf.api import scenario

from props import geo
from props.geo import N, Prog

ASSUMPTIONS = [
    "numbers are exact reals; replay on the real code compares with tolerance 1e-6",
    "region arcs in multi quadrant mode with I and J given",
]


def contour(s, p, start, k, n, arcs=True):
    """n segments from `start`; returns (segments, end point)."""
    segs = []
    cur = start
    for i in range(n):
        kind = s.choice(f"k{k}.{i}", ["L", "CW", "CCW"] if arcs else ["L"])
        if kind == "L":
            p.add(N.G01())
            e = p.draw(f"p{k}.{i}")
            segs.append(("L", cur, e))
        else:
            p.add(N.G02() if kind == "CW" else N.G03())
            e, o = p.arc(f"p{k}.{i}")
            s.assume(s.lor(cur[0] - e[0] > 0.01, e[0] - cur[0] > 0.01))
            segs.append(("A", cur, e, (cur[0] + o[0], cur[1] + o[1]), kind == "CW"))
        cur = e
    return segs, cur


@scenario("G04", cases=[{"n": 1}, {"n": 2}, {"n": 3}, {"n": 4, "_tier": "thorough"}], bounds="one contour of up to 3 (thorough: 4) segments, each line or arc, any points; polarity")
def one_contour(s, n):
    p = Prog(s)
    p.add(N.G75())
    neg = geo.polarity(s)
    p.polarity(neg).add(N.G36())
    a = p.moveto("a")
    segs, _ = contour(s, p, a, 0, n)
    p.add(N.G37())
    geo.same_tree(s, p.image(), [("shape", neg, segs)])


@scenario("G04", bounds="two contours separated by a move, draw before and after the region with an aperture")
def two_contours(s):
    from props.G02 import stroke

    p = Prog(s)
    t = s.real("t", 0.001, 100)
    p.circle("D10", t).select("D10").add(N.G75(), N.G01())
    a = p.moveto("a")
    b = p.draw("b")
    want = stroke(s, a, b, t, False)
    neg = geo.polarity(s)
    p.polarity(neg).add(N.G36())
    moved = s.choice("moved", [True, False])
    c = p.moveto("c") if moved else b
    segs, e = contour(s, p, c, 0, 2, arcs=False)
    want.append(("shape", neg, segs))
    d = p.moveto("d")
    segs, e = contour(s, p, d, 1, 1)
    want.append(("shape", neg, segs))
    if s.choice("trailing", [False, True]):
        e = p.moveto("e")
    p.add(N.G37(), N.G01())
    f = p.draw("f")
    geo.same_tree(s, p.image(), want + stroke(s, e, f, t, neg))


@scenario("G04", bounds="region contour that is a full circle")
def circle_contour(s):
    p = Prog(s)
    cw = s.choice("cw", [True, False])
    p.add(N.G75(), N.G02() if cw else N.G03(), N.G36())
    nodes, a = p.xy("a")
    p.add(N.D02(x=nodes[0], y=nodes[1]))
    m, o = p.xy("o", ij=True)
    s.assume(s.lor(o[0] > 0.01, o[0] < -0.01, o[1] > 0.01, o[1] < -0.01))
    p.add(N.D01(x=nodes[0], y=nodes[1], i=m[0], j=m[1]), N.G37())
    c = (a[0] + o[0], a[1] + o[1])
    r2 = o[0] * o[0] + o[1] * o[1]
    got = p.image()
    s.check(len(got) == 1 and got[0][0] == "shape", "one object")
    circ = geo.as_circle(s, geo.closed(s, got[0][2]))
    s.check(circ is not None, "the contour is a full circle")
    s.eq(circ[0][0], c[0], "centre x")
    s.eq(circ[0][1], c[1], "centre y")
    dx, dy = circ[1][0] - c[0], circ[1][1] - c[1]
    s.eq(dx * dx + dy * dy, r2, "radius squared", tol=1e-4)


@scenario("G04", bounds="region without a contour draws nothing; region mode ends with it")
def empty(s):
    p = Prog(s)
    t = s.real("t", 0.001, 100)
    p.circle("D10", t).select("D10").add(N.G36())
    if s.choice("move", [False, True]):
        p.moveto("m")
    p.add(N.G37())
    a = p.flash("a")
    geo.same_tree(s, p.image(), [("shape", False, geo.ref_circle(a, t))])


def partial(s, p, cls, name, cur):
    """Operation with any of its coordinates omitted; returns the new point."""
    hx, hy = s.choice(name + ".has", [(True, True), (True, False), (False, True)])
    kw, pt = {}, list(cur)
    if hx:
        txt, pt[0] = p.coord(name + ".x")
        kw["x"] = N.CoordinateX(value=txt)
    if hy:
        txt, pt[1] = p.coord(name + ".y")
        kw["y"] = N.CoordinateY(value=txt)
    p.add(cls(**kw))
    return tuple(pt)


@scenario("G04", bounds="two contours; moves and draws with X or Y omitted", max_paths=4000)
def omitted(s):
    p = Prog(s)
    p.add(N.G01(), N.G36())
    cur = (0.0, 0.0)
    want = []
    for k in range(2):
        cur = partial(s, p, N.D02, f"m{k}", cur)
        segs = []
        for i in range(2 - k):
            e = partial(s, p, N.D01, f"d{k}{i}", cur)
            segs.append(("L", cur, e))
            cur = e
        want.append(("shape", False, segs))
    p.add(N.G37())
    geo.same_tree(s, p.image(), want)

"""Bounding boxes."""

from vf.api import scenario

from pygerber.vm.commands import Arc, Line, Shape
from pygerber.vm.types import Box, Vector

ASSUMPTIONS = [
    "numbers are exact reals; replay on the real code compares with tolerance 1e-6",
    "arcs have their start and end on the same circle",
    "sine and cosine are solver variables with cos^2+sin^2=1, exact at multiples of 90 degrees, monotone on half turns",
]


def inside(s, box, x, y, what):
    s.le(box.min_x, x, what + ": left side")
    s.le(x, box.max_x, what + ": right side")
    s.le(box.min_y, y, what + ": lower side")
    s.le(y, box.max_y, what + ": upper side")


QUAD = [(0, 90), (90, 180), (180, 270), (270, 360)]


@scenario("V02", cases=[{"cw": c, "q": q} for c in (True, False) for q in range(4)], exact_angles=True, weight=3,
          bounds="any centre, radius, start angle in the quadrant, sweep up to a full turn; every point of the arc is in the box, the box stays in the circle's box and touches the arc, its end points or its centre")
def arc(s, cw, q):
    cx, cy = s.real("cx", -100, 100), s.real("cy", -100, 100)
    r = s.real("r", 0.01, 100)
    a = s.real("a", *QUAD[q])
    full = s.choice("full", [False, True])
    w = 360.0 if full else s.real("w", 0.01, 359.99)
    u = s.real("u", 0, 360)
    s.assume(u <= w)
    sg = -1 if cw else 1
    b = a if full else a + sg * w
    t = a + sg * u
    s.trig_monotone(a, b, t)
    pa = (cx + r * s.cos(a), cy + r * s.sin(a))
    pb = pa if full else (cx + r * s.cos(b), cy + r * s.sin(b))
    box = Arc(start=Vector(x=pa[0], y=pa[1]), end=Vector(x=pb[0], y=pb[1]), center=Vector(x=cx, y=cy), clockwise=cw).outer_box
    inside(s, box, cx + r * s.cos(t), cy + r * s.sin(t), "point of the arc")
    if not s.sym and not full and abs(w % 90) < 1e-6:
        return
    s.le(cx - r, box.min_x, "box within the circle's box: left")
    s.le(box.max_x, cx + r, "box within the circle's box: right")
    s.le(cy - r, box.min_y, "box within the circle's box: lower")
    s.le(box.max_y, cy + r, "box within the circle's box: upper")
    # an axis point not swept over does not extend the box
    for k, (name, side, own) in enumerate((
        ("right", box.max_x, (cx, pa[0], pb[0])), ("upper", box.max_y, (cy, pa[1], pb[1])),
        ("left", -box.min_x, (-cx, -pa[0], -pb[0])), ("lower", -box.min_y, (-cy, -pa[1], -pb[1])),
    )):
        swept = False
        for turn in (-1, 0, 1, 2):
            x = (90.0 * k + 360.0 * turn - a) * sg
            swept = s.lor(swept, s.land(x >= -1e-7, x <= w + 1e-7))
        most = own[0]
        for v in own[1:]:
            most = s.ite(v > most, v, most)
        s.check(s.lor(swept, side <= most + 1e-6), f"{name} side of the box touches the arc")


@scenario("V02", bounds="any end points")
def line(s):
    p = [s.real(n, -100, 100) for n in ("x0", "y0", "x1", "y1")]
    box = Line.from_tuples((p[0], p[1]), (p[2], p[3])).outer_box
    for lo, hi, u, v in ((box.min_x, box.max_x, p[0], p[2]), (box.min_y, box.max_y, p[1], p[3])):
        s.eq(lo, s.ite(u < v, u, v), "lower bound")
        s.eq(hi, s.ite(u < v, v, u), "upper bound")


@scenario("V02", cases=[{"kind": k} for k in ("circle", "rectangle", "obround", "points", "line")], exact_angles=True,
          bounds="exact box of a circle, rectangle, obround, polyline of 3 points, thick line, any size and place")
def shape(s, kind):
    cx, cy = s.real("cx", -100, 100), s.real("cy", -100, 100)
    w, h = s.real("w", 0.01, 100), s.real("h", 0.01, 100)
    if kind == "circle":
        box = Shape.new_circle((cx, cy), w, is_negative=False).outer_box
        want = (cx - w / 2, cy - w / 2, cx + w / 2, cy + w / 2)
    elif kind in ("rectangle", "obround"):
        new = Shape.new_rectangle if kind == "rectangle" else Shape.new_obround
        box = new((cx, cy), w, h, is_negative=False).outer_box
        want = (cx - w / 2, cy - h / 2, cx + w / 2, cy + h / 2)
    elif kind == "points":
        x, y = s.real("x", -100, 100), s.real("y", -100, 100)
        box = Shape.new_connected_points((cx, cy), (w, h), (x, y), is_negative=False).outer_box
        lo = lambda a, b, c: s.ite(a < s.ite(b < c, b, c), a, s.ite(b < c, b, c))  # noqa: E731
        hi = lambda a, b, c: -lo(-a, -b, -c)  # noqa: E731
        want = (lo(cx, w, x), lo(cy, h, y), hi(cx, w, x), hi(cy, h, y))
    else:
        x, y = s.real("x", -100, 100), s.real("y", -100, 100)
        s.assume(s.lor(x - cx > 0.01, cx - x > 0.01))
        box = Shape.new_line((cx, cy), (x, y), w, is_negative=False).outer_box
        n = s.sqrt((x - cx) * (x - cx) + (y - cy) * (y - cy))
        ux, uy = (x - cx) / n * (w / 2), (y - cy) / n * (w / 2)
        for px, py in ((cx, cy), (x, y)):
            for sg in (1, -1):
                inside(s, box, px - sg * uy, py + sg * ux, "corner of the line")
        return
    for g, v, n in zip((box.min_x, box.min_y, box.max_x, box.max_y), want, ("left", "lower", "right", "upper")):
        s.eq(g, v, n + " side")

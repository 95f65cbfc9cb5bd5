"""Arcs rendered as polygons."""

from props import raster
from vf.api import scenario

from pygerber.vm.commands import Arc, EndLayer, Line, Shape, StartLayer
from pygerber.vm.pillow import PillowVirtualMachine
from pygerber.vm.rvmc import RVMC
from pygerber.vm.shapely import ShapelyVirtualMachine
from pygerber.vm.types import Box, LayerID, Vector

ASSUMPTIONS = [
    "numbers are exact reals; arcs have their start and end on the same circle",
    "Pillow: rounding to whole pixels is left out of the symbolic run (V06 covers it)",
    "the replay renders the sector with the real library and looks at points inside and outside of it",
]
QUAD = [(0, 90), (90, 180), (180, 270), (270, 360)]


def sector(s, cw, q, rlo, rhi, sweeps=True):
    """Circle sector: arc, then through a point off the arc, back to the start."""
    cx, cy = s.real("cx", -5, 5), s.real("cy", -5, 5)
    r = s.real("r", rlo, rhi)
    a = s.real("a", *QUAD[q])
    full = s.choice("full", [False, True]) if sweeps else True
    w = 360.0 if full else s.real("w", 1, 359)
    b = a if full else a + (-w if cw else w)
    pa = Vector(x=cx + r * s.cos(a), y=cy + r * s.sin(a))
    pb = pa if full else Vector(x=cx + r * s.cos(b), y=cy + r * s.sin(b))
    c = Vector(x=cx, y=cy)
    shape = Shape(commands=[
        Arc(start=pa, end=pb, center=c, clockwise=cw), Line(start=pb, end=c), Line(start=c, end=pa),
    ], is_negative=False)
    box = Box(min_x=-100, min_y=-100, max_x=100, max_y=100) if s.sym else None
    cmds = [StartLayer(id=LayerID(id="%main%"), box=box), shape, EndLayer()]
    return cx, cy, r, a, w, cmds


def check_points(s, pts, cx, cy, r, a, w, cw, step):
    from vf import core

    def same(x, y):
        return core.const_of(core.canon(core.rv(x) - core.rv(y))) == 0

    i = [k for k, p in enumerate(pts) if same(p[0], cx) and same(p[1], cy)]
    if len(i) != 1:
        return s.fail("outline passes through the corner of the sector once")
    pts = pts[i[0] + 1:] + pts[:i[0]]
    sg = -1 if cw else 1
    prev = None
    first = True
    u = None
    for x, y in pts:
        if prev is not None and same(prev[0], x) and same(prev[1], y):
            continue
        prev = (x, y)
        dx, dy = x - cx, y - cy
        s.eq(dx * dx + dy * dy, r * r, "point is on the circle", tol=1e-6)
        t = (s.direction(dy, dx) - a) * sg
        if first:
            s.check(s.lor(s.close(t, 0), s.close(t, 360), s.close(t, -360)), "first point is the start of the arc")
            u, u0, first = t, t, False
            continue
        d = t - u
        while d < -1e-9:
            t, d = t + 360, d + 360
        while d >= 360 - 1e-9:
            t, d = t - 360, d - 360
        s.le(d, step, "next point is not too far along the arc")
        u = t
    if u is None:
        return s.fail("outline has the points of the arc")
    s.trig_distinct(a + sg * u, a + sg * w)  # the code may compare the last point with the end
    s.eq(u - u0, w, "points cover the arc to its end")


def concrete(s, member, cx, cy, r, a, w, cw):
    sg = -1 if cw else 1
    for k in range(72):
        u = 360.0 * k / 72 + 1.0
        t = a + sg * u
        if min(abs(u - w), abs(u), abs(360 - u)) < 6 and w < 359.999:
            continue
        for rho, near in ((0.5, u < w), (0.95, u < w), (1.1, False)):
            v = member(cx + rho * r * s.cos(t), cy + rho * r * s.sin(t))
            s.check(v == near, f"point at {u} degrees along the arc and {rho} of its radius")


CASES = [{"cw": c, "q": q} for c in (True, False) for q in range(4)]


def shapely_points(s, cmds, **kw):
    with raster.shapely(s):
        g = ShapelyVirtualMachine(**kw).run(RVMC(commands=cmds)).shape
    polys = []

    def walk(x):
        if x._kind == "poly":
            polys.append(x._args[0])
        else:
            for y in x._args:
                walk(y)

    walk(g)
    assert len(polys) == 1
    return close(polys[0])


def close(pts):
    from vf import core

    while len(pts) > 1 and all(core.const_of(core.canon(core.rv(p) - core.rv(q))) == 0 for p, q in zip(pts[0], pts[-1])):
        pts = pts[:-1]
    return list(pts)


def shapely_member(cmds):
    import shapely

    g = ShapelyVirtualMachine().run(RVMC(commands=cmds)).shape
    return lambda x, y: bool(g.intersects(shapely.Point(x, y)))


@scenario("V08", cases=CASES, exact_angles=True, weight=3,
          bounds="sector of any centre, radius, start angle in the quadrant, sweep of 1 to 359 degrees or full circle; 6 segments of at most 60 degrees")
def shapely(s, cw, q):
    cx, cy, r, a, w, cmds = sector(s, cw, q, 0.1, 50)
    if not s.sym:
        return concrete(s, shapely_member(cmds), cx, cy, r, a, w, cw)
    pts = shapely_points(s, cmds, angle_length_to_segment_count=lambda _l: 6)
    check_points(s, pts, cx, cy, r, a, w, cw, 60 + 1e-6)


@scenario("V08", cases=CASES, exact_angles=True, weight=5,
          bounds="full circles with the default number of segments, radius below 0.1; steps of at most 15 degrees")
def shapely_default(s, cw, q):
    cx, cy, r, a, w, cmds = sector(s, cw, q, 0.05, 0.1, sweeps=False)
    if not s.sym:
        return concrete(s, shapely_member(cmds), cx, cy, r, a, w, cw)
    pts = shapely_points(s, cmds)
    check_points(s, pts, cx, cy, r, a, w, cw, 15 + 1e-6)


@scenario("V08", cases=CASES, exact_angles=True, exact_trunc=True, weight=5,
          bounds="the same with Pillow at one pixel per mm, radius below 0.9; steps of at most 30 degrees")
def pillow(s, cw, q):
    cx, cy, r, a, w, cmds = sector(s, cw, q, 0.1, 0.9)
    if not s.sym:
        vm = PillowVirtualMachine(int(100 / r))
        im = vm.run(RVMC(commands=cmds))
        box, img = im.main_box, im.image

        def member(x, y):
            i, j = int((x - box.min_x) * vm.dpmm), int((box.max_y - y) * vm.dpmm)
            return 0 <= i < img.width and 0 <= j < img.height and bool(img.getpixel((i, j)))

        return concrete(s, member, cx, cy, r, a, w, cw)
    cmds[0] = StartLayer(id=LayerID(id="%main%"), box=Box(min_x=-10, min_y=-10, max_x=10, max_y=10))
    with raster.pillow(s):
        drawn = PillowVirtualMachine(1).run(RVMC(commands=cmds)).image._drawn
    assert len(drawn) == 1
    pts = [(x - 10, y - 10) for x, y in drawn[0]]
    check_points(s, close(pts), cx, cy, r, a, w, cw, 30 + 1e-6)

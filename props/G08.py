"""Aperture macros."""

from vf.api import scenario

from props import geo
from props.geo import N, Prog, clear, dark

ASSUMPTIONS = [
    "numbers are exact reals; replay on the real code compares with tolerance 1e-6",
    "outline up to 4 points, regular polygon 3..6 vertices, moire up to 3 rings",
    "thermal with gap below inner diameter / sqrt(2) and inner diameter above zero",
]


def const(v):
    return N.Constant(constant=v)


def var(i):
    return N.Variable(variable=f"${i}")


class Macro:
    """Macro whose arguments are AD parameters, constants or expressions."""

    def __init__(self, s):
        self.s = s
        self.params = []
        self.prims = []

    def arg(self, v, kind=None):
        kind = kind or "param"
        if kind == "const":
            return const(v)
        self.params.append(v)
        n = var(len(self.params))
        if kind == "sum":
            self.params.append(v)
            return N.Sub(head=N.Add(head=n, tail=[n]), tail=[var(len(self.params))])
        return n

    def compile(self, p, id_="D10", name="MAC"):
        p.add(
            N.AM(open=N.AMopen(name=name), primitives=self.prims, close=N.AMclose()),
            N.ADmacro(aperture_id=N.ApertureIdStr(id_), name=name, params=self.params or None),
        )


def exposure(s, m, pre=""):
    on = s.choice(pre + "exposure", [True, False])
    return const(1.0 if on else 0.0), not on


def flash(s, m, items, neg=False):
    p = Prog(s)
    m.compile(p)
    p.select("D10").polarity(neg)
    a = p.flash("a")
    geo.same_tree(s, p.image(), [("group", neg, geo.move_tree(items, geo.shift(a)))])


def rotation(s, m, kind="param"):
    a = s.real("rot", -360, 360)
    return m.arg(a, kind), geo.rot(a)


@scenario("G08", bounds="circle primitive: any exposure, diameter, centre; rotation given, omitted")
def circle(s):
    m = Macro(s)
    e, neg = exposure(s, m)
    d, x, y = s.real("d", 0, 100), s.real("x", -100, 100), s.real("y", -100, 100)
    kw = {}
    mat = geo.ID
    if s.choice("rot?", [True, False]):
        kw["rotation"], mat = rotation(s, m)
    m.prims.append(N.Code1(exposure=e, diameter=m.arg(d), center_x=m.arg(x, "sum"), center_y=m.arg(y, "const"), **kw))
    flash(s, m, [("shape", neg, geo.move(geo.ref_circle((x, y), d), mat))], geo.polarity(s))


@scenario("G08", cases=[{"code": 2}, {"code": 20}], bounds="vector line primitive, any width, points, rotation")
def vector_line(s, code):
    m = Macro(s)
    e, neg = exposure(s, m)
    w = s.real("w", 0, 100)
    a = (s.real("ax", -100, 100), s.real("ay", -100, 100))
    b = (s.real("bx", -100, 100), s.real("by", -100, 100))
    r, mat = rotation(s, m)
    cls = N.Code2 if code == 2 else N.Code20
    m.prims.append(
        cls(exposure=e, width=m.arg(w), start_x=m.arg(a[0]), start_y=m.arg(a[1], "const"),
            end_x=m.arg(b[0]), end_y=m.arg(b[1]), rotation=r)
    )
    flash(s, m, [("shape", neg, geo.move(geo.ref_line(s, a, b, w), mat))])


@scenario("G08", cases=[{"code": 21}, {"code": 22}], bounds="rectangle primitives, any size, position, rotation")
def rectangle(s, code):
    m = Macro(s)
    e, neg = exposure(s, m)
    w, h = s.real("w", 0, 100), s.real("h", 0, 100)
    x, y = s.real("x", -100, 100), s.real("y", -100, 100)
    r, mat = rotation(s, m)
    if code == 21:
        n = N.Code21(exposure=e, width=m.arg(w), height=m.arg(h), center_x=m.arg(x), center_y=m.arg(y), rotation=r)
        ref = geo.ref_rect((x, y), w, h)
    else:
        n = N.Code22(exposure=e, width=m.arg(w), height=m.arg(h), x_lower_left=m.arg(x), y_lower_left=m.arg(y), rotation=r)
        ref = geo.ref_rect((x + w / 2, y + h / 2), w, h)
    m.prims.append(n)
    flash(s, m, [("shape", neg, geo.move(ref, mat))])


@scenario("G08", cases=[{"n": 2}, {"n": 3}, {"n": 4, "_tier": "thorough"}], bounds="outline primitive of n+1 points")
def outline(s, n):
    m = Macro(s)
    e, neg = exposure(s, m)
    pts = [(s.real(f"x{i}", -100, 100), s.real(f"y{i}", -100, 100)) for i in range(n + 1)]
    r, mat = rotation(s, m)
    m.prims.append(
        N.Code4(
            exposure=e, number_of_points=const(float(n)), start_x=m.arg(pts[0][0]), start_y=m.arg(pts[0][1]),
            points=[N.Point(x=m.arg(a), y=m.arg(b)) for a, b in pts[1:]], rotation=r,
        )
    )
    flash(s, m, [("shape", neg, geo.move(geo.poly(*pts), mat))])


@scenario("G08", cases=[{"n": 3}, {"n": 4}, {"n": 5}, {"n": 6, "_tier": "thorough"}], bounds="regular polygon primitive")
def polygon(s, n):
    m = Macro(s)
    e, neg = exposure(s, m)
    d, x, y = s.real("d", 0.001, 100), s.real("x", -100, 100), s.real("y", -100, 100)
    r, mat = rotation(s, m)
    m.prims.append(
        N.Code5(exposure=e, number_of_vertices=const(float(n)), center_x=m.arg(x), center_y=m.arg(y), diameter=m.arg(d), rotation=r)
    )
    flash(s, m, [("shape", neg, geo.move(geo.ref_polygon((x, y), d, n, 0), mat))])


def half_rings(s, c, outer, inner):
    r = (outer + inner) / 4
    t = (outer - inner) / 2
    a, b = (c[0] + r, c[1]), (c[0] - r, c[1])
    return [geo.ref_arc(s, a, b, c, t, True), geo.ref_arc(s, b, a, c, t, True)]


@scenario("G08", bounds="moire: crosshair and up to 3 rings, any sizes; the innermost ring is a disc when it reaches the centre")
def moire(s):
    m = Macro(s)
    x, y = s.real("x", -100, 100), s.real("y", -100, 100)
    d, t, g = s.real("d", 0.5, 100), s.real("t", 0.25, 100), s.real("g", 0, 100)
    n = s.choice("n", [0, 1, 2, 3])
    ct, cl = s.real("ct", 0, 10), s.real("cl", 0, 100)
    r, mat = rotation(s, m, "const")
    m.prims.append(
        N.Code6(
            center_x=m.arg(x), center_y=m.arg(y), outer_diameter=m.arg(d), ring_thickness=m.arg(t),
            gap_between_rings=m.arg(g), max_ring_count=const(float(n)),
            crosshair_thickness=m.arg(ct), crosshair_length=m.arg(cl), rotation=r,
        )
    )
    items = []
    if ct > 0 and cl > 0:
        items.append(geo.ref_line(s, (x, y - cl / 2), (x, y + cl / 2), ct))
        items.append(geo.ref_line(s, (x - cl / 2, y), (x + cl / 2, y), ct))
    for k in range(n):
        outer = d - 2 * k * (t + g)
        inner = outer - 2 * t
        if outer <= 0:
            break
        if inner <= 0:
            items.append(geo.ref_circle((x, y), outer))
            break
        items += half_rings(s, (x, y), outer, inner)
    flash(s, m, [dark(geo.move(i, mat)) for i in items])


@scenario("G08", bounds="thermal: ring minus cross, any sizes, centre, rotation; two apertures of the same macro", weight=3)
def thermal(s):
    m = Macro(s)
    x, y = s.real("x", -100, 100), s.real("y", -100, 100)
    sizes = []
    for k in ("", "'"):
        o, i, g = s.real("o" + k, 0.5, 100), s.real("i" + k, 0.25, 100), s.real("g" + k, 0.01, 10)
        s.assume(o > i + 0.01)
        s.assume(g * 1.5 < i)
        sizes.append((o, i, g))
    a = s.real("rot", -360, 360)
    mat = geo.rot(a)
    prim = N.Code7(center_x=const(x), center_y=const(y), outer_diameter=var(1), inner_diameter=var(2), gap_thickness=var(3), rotation=const(a))
    p = Prog(s)
    p.add(N.AM(open=N.AMopen(name="TH"), primitives=[prim], close=N.AMclose()))
    two = s.choice("two", [False, True])
    for k, (o, i, g) in enumerate(sizes[: 2 if two else 1]):
        p.add(N.ADmacro(aperture_id=N.ApertureIdStr(f"D1{k}"), name="TH", params=[o, i, g]))
    which = s.choice("which", [0, 1]) if two else 0
    o, i, g = sizes[which]
    p.select(f"D1{which}")
    q = p.flash("q")
    got = geo.inline(p.image())
    full = mat.then(geo.shift((q[0], q[1])))
    # peel the groups down to the list of shapes
    while len(got) == 1 and got[0][0] == "group":
        s.check(not got[0][1], "thermal polarity")
        got = geo.inline(got[0][2])
    s.check(all(k == "shape" for k, _, _ in got), "thermal consists of shapes")
    darks = [b for k, n, b in got if not n]
    clears = [b for k, n, b in got if n]
    s.check([bool(n) for _, n, _ in got] == [False] * len(darks) + [True] * len(clears), "gaps are cut after the ring")
    s.check(len(darks) == 2 and len(clears) == 2, "ring halves and two gaps")
    for b, r in zip(darks, half_rings(s, (x, y), o, i)):
        geo.same_outline(s, b, geo.move(r, full), "ring half")
    # each gap: rectangle of width g around an axis through the centre, reaching past the ring
    import math

    ca, sa = math.cos(math.radians(a)), math.sin(math.radians(a))
    cx, cy = full((x, y))
    axes = []
    for b in clears:
        b = geo.closed(s, b)
        s.check(len(b) == 4 and all(e[0] == "L" for e in b), "gap is a rectangle")
        # corner coordinates in the frame of the thermal
        loc = []
        for e in b:
            dx, dy = e[1][0] - cx, e[1][1] - cy
            loc.append((dx * ca + dy * sa, dy * ca - dx * sa))
        us = [abs(u) for u, _ in loc]
        vs = [abs(v) for _, v in loc]
        s.check(s.lor(us[0] - vs[0] > 0.001, vs[0] - us[0] > 0.001), "gap longer than wide")
        along = s.choice("axis%d" % len(axes), ["u", "v"])
        axes.append(along)
        long_, short = (us, vs) if along == "u" else (vs, us)
        s.assume(long_[0] > short[0])
        for k in range(4):
            s.eq(short[k], g / 2, "gap half width")
            s.le(o / 2, long_[k], "gap reaches past the ring")
        s.assume(True)
    if axes[0] == axes[1]:
        s.fail("both gaps along the same axis")


@scenario("G08", bounds="several primitives with assignment, comment; parameters missing from the aperture are zero; order and exposure")
def sequence(s):
    d, x, k = s.real("d", 0.001, 100), s.real("x", -100, 100), s.real("k", -10, 10)
    p = Prog(s)
    prims = [
        N.Code0(string=" comment"),
        N.Code1(exposure=const(1.0), diameter=var(1), center_x=var(2), center_y=var(9)),
        N.Assignment(variable=N.Variable(variable="$4"), expression=N.Mul(head=var(3), tail=[var(2)])),
        N.Code1(exposure=const(0.0), diameter=var(1), center_x=var(4), center_y=N.Neg(operand=var(4))),
        N.Assignment(variable=N.Variable(variable="$1"), expression=N.Add(head=var(1), tail=[const(2.0)])),
        N.Code21(exposure=const(1.0), width=var(1), height=var(1), center_x=const(0.0), center_y=const(0.0), rotation=const(0.0)),
    ]
    p.add(N.AM(open=N.AMopen(name="A"), primitives=prims, close=N.AMclose()))
    p.add(N.ADmacro(aperture_id=N.ApertureIdStr("D10"), name="A", params=[d, x, k]))
    second = s.choice("second", [False, True])
    if second:
        e = s.real("e", 0.001, 100)
        p.add(N.ADmacro(aperture_id=N.ApertureIdStr("D11"), name="A", params=[e]))
        p.select("D11")
        d, x, k = e, 0.0, 0.0
    else:
        p.select("D10")
    q = p.flash("q")
    items = [
        dark(geo.ref_circle((x, 0.0), d)),
        clear(geo.ref_circle((k * x, -(k * x)), d)),
        dark(geo.ref_rect((0.0, 0.0), d + 2, d + 2)),
    ]
    geo.same_tree(s, p.image(), [("group", False, geo.move_tree(items, geo.shift(q)))])


@scenario("G08", bounds="flash of a macro aperture under scaling, rotation, mirroring and polarity")
def transformed(s):
    from props.G06 import transform

    w, h, x = s.real("w", 0.001, 100), s.real("h", 0.001, 100), s.real("x", -100, 100)
    m = Macro(s)
    m.prims = [
        N.Code21(exposure=const(1.0), width=m.arg(w), height=m.arg(h), center_x=m.arg(x), center_y=const(1.0), rotation=const(0.0)),
        N.Code1(exposure=const(0.0), diameter=m.arg(h), center_x=const(0.0), center_y=m.arg(x)),
    ]
    items = [dark(geo.ref_rect((x, 1.0), w, h)), clear(geo.ref_circle((0.0, x), h))]
    p = Prog(s)
    m.compile(p)
    p.select("D10")
    neg = geo.polarity(s)
    p.polarity(neg)
    t = transform(s, p, "t")
    a = p.flash("a")
    geo.same_tree(s, p.image(), [("group", neg, geo.move_tree(items, t.then(geo.shift(a))))])


@scenario("G08", bounds="macro that is not defined is an error")
def undefined(s):
    from pygerber.gerber.compiler.errors import MacroNotDefinedError

    p = Prog(s)
    d = s.real("d", 0.001, 100)
    p.add(N.ADmacro(aperture_id=N.ApertureIdStr("D10"), name="NOPE", params=[d]))
    s.raises(MacroNotDefinedError, p.compile, "undefined macro accepted")

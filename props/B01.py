"""Gerber builder: the code draws what the calls asked for."""

from vf.api import scenario

from pygerber.builder.gerber import GerberX3Builder, InvalidRegionOutlineError, NotAPadError
from pygerber.gerber.ast import nodes as N
from pygerber.gerber.ast.nodes import enums as E
from pygerber.gerber.ast.state_tracking_visitor import CoordinateFormat

ASSUMPTIONS = [
    "numbers are exact reals; coordinates of the sequences lie between 2 and 9, those of centres between 30 and 60 (the number of digits is "
    "fixed; C02 decides all magnitudes), widths of traces come from a fixed set",
    "the meaning of the produced commands is that of the reference interpreter in props/B01.py, the tree is also "
    "formatted and parsed again",
]
TOL = 2.1e-6


# ------------------------------------------------ reference interpreter


class Interp:
    """What a sequence of commands draws."""

    def __init__(self, s):
        self.s, self.out = s, []
        self.ap, self.apertures, self.macros, self.attrs = None, {}, {}, {}
        self.pol, self.rot, self.mir, self.scale = E.Polarity.Dark, 0.0, E.Mirroring.NONE, 1.0
        self.mode, self.quad, self.at, self.region = None, None, None, None
        self.fmt, self.unit, self.ta, self.done = None, None, [], False

    def point(self, n):
        s = self.s
        s.check(self.fmt is not None, "coordinate format before coordinates")
        x = self.fmt.unpack_x(n.x.value) if n.x is not None else self.at[0]
        y = self.fmt.unpack_y(n.y.value) if n.y is not None else self.at[1]
        return x, y

    def run(self, file):
        s = self.s
        for n in file.nodes:
            t = type(n)
            s.check(not self.done, "command after the end of the file")
            if t is N.FS:
                s.check(n.coordinate_mode is E.CoordinateNotation.ABSOLUTE, "absolute coordinates")
                self.fmt = CoordinateFormat(zeros=n.zeros, x_integral=n.x_integral, x_decimal=n.x_decimal, y_integral=n.y_integral, y_decimal=n.y_decimal)
            elif t is N.MO:
                self.unit = n.mode
            elif t is N.G75:
                self.quad = "multi"
            elif t is N.M02:
                self.done = True
            elif t in (N.ADC, N.ADR, N.ADO, N.ADP, N.ADmacro):
                s.check(n.aperture_id not in self.apertures, "aperture defined once")
                s.check(int(n.aperture_id[1:]) >= 10, "aperture identifier")
                if t is N.ADmacro:
                    s.check(n.name in self.macros, "macro defined before its aperture")
                self.apertures[n.aperture_id] = n
                self.attrs[n.aperture_id] = list(self.ta)
            elif t is N.AM:
                s.check(n.open.name not in self.macros, "macro defined once")
                self.macros[n.open.name] = n
            elif t in (N.TA_AperFunction, N.TA_DrillTolerance, N.TA_UserName):
                self.ta.append(n)
            elif t is N.TD:
                s.check(n.name is None, "delete all attributes")
                self.ta = []
            elif t is N.Dnn:
                s.check(n.aperture_id in self.apertures, "selected aperture is defined")
                self.ap = self.apertures[n.aperture_id]
            elif t is N.LP:
                self.pol = n.polarity
            elif t is N.LR:
                self.rot = n.rotation
            elif t is N.LM:
                self.mir = n.mirroring
            elif t is N.LS:
                self.scale = n.scale
            elif t in (N.G01, N.G02, N.G03):
                self.mode = t.__name__
            elif t is N.G36:
                s.check(self.region is None, "regions do not nest")
                self.region = []
            elif t is N.G37:
                s.check(self.region is not None, "region is open")
                self.out.append(("region", self.pol, self.region))
                self.region = None
            elif t is N.D02:
                self.at = self.point(n)
                if self.region is not None:
                    self.region.append([])
            elif t is N.D03:
                s.check(self.region is None, "no flash in a region")
                self.at = self.point(n)
                self.out.append(("flash", self.ap, self.at, self.pol, self.rot, self.mir, self.scale))
            elif t is N.D01:
                s.check(self.at is not None, "draw from a known point")
                begin, end, center = self.at, self.point(n), None
                if self.mode != "G01":
                    s.check(self.mode in ("G02", "G03") and self.quad == "multi", "arcs in multi quadrant mode")
                    s.check(n.i is not None and n.j is not None, "offsets of an arc")
                    center = (begin[0] + self.fmt.unpack_x(n.i.value), begin[1] + self.fmt.unpack_y(n.j.value))
                seg = (self.mode, begin, end, center)
                if self.region is not None:
                    s.check(len(self.region) > 0, "contour starts with a move")
                    self.region[-1].append(seg)
                else:
                    self.out.append(("draw", self.ap, self.pol, self.rot, self.mir, self.scale, *seg))
                self.at = end
            else:
                s.fail(f"unexpected command {t.__name__}")
        s.check(self.done and self.region is None, "file is ended")
        s.check(self.unit is E.UnitMode.METRIC, "metric units")
        return self.out


def near(s, a, b, label):
    s.eq(a, b, label, tol=TOL)


def pt(s, got, want, label):
    near(s, got[0], want[0], label + " x")
    near(s, got[1], want[1], label + " y")


def segment(s, got, want, label):
    s.check(got[0] == want[0], f"{label}: kind of the segment {got[0]} instead of {want[0]}")
    pt(s, got[1], want[1], label + ": start")
    pt(s, got[2], want[2], label + ": end")
    if want[3] is not None:
        pt(s, got[3], want[3], label + ": centre")


def compare(s, got, want):
    s.check([g[0] for g in got] == [w[0] for w in want], f"objects drawn {[g[0] for g in got]} instead of {[w[0] for w in want]}")
    for i, (g, w) in enumerate(zip(got, want)):
        label = f"object {i}"
        if g[0] == "flash":
            s.check(g[1] is w[1], f"{label}: aperture")
            pt(s, g[2], w[2], label)
            s.check(g[3] is w[3], f"{label}: polarity")
            near(s, g[4], w[4], f"{label}: rotation")
            s.check(g[5] is w[5], f"{label}: mirroring")
            near(s, g[6], w[6], f"{label}: scale")
        elif g[0] == "draw":
            s.check(type(g[1]) is N.ADC and g[1].hole_diameter is None, f"{label}: round aperture")
            near(s, g[1].diameter, w[1], f"{label}: width")
            s.check(g[2] is E.Polarity.Dark, f"{label}: polarity")
            near(s, g[3], 0.0, f"{label}: rotation")
            s.check(g[4] is E.Mirroring.NONE, f"{label}: mirroring")
            near(s, g[5], 1.0, f"{label}: scale")
            segment(s, g[6:], w[2:], label)
        else:
            s.check(g[1] is E.Polarity.Dark, f"{label}: polarity")
            s.check(len(g[2]) == 1, f"{label}: one contour")
            s.check(len(g[2][0]) == len(w[1]), f"{label}: number of segments")
            for a, b in zip(g[2][0], w[1]):
                segment(s, a, b, label)


# ------------------------------------------------------------ sequences


MIRROR = {(False, False): E.Mirroring.NONE, (True, False): E.Mirroring.X, (False, True): E.Mirroring.Y, (True, True): E.Mirroring.XY}


class Calls:
    """Calls to the builder and what they ask for."""

    def __init__(self, s, free=None):
        # free: number of the call whose points are symbolic, the others have given points
        self.s, self.b, self.want, self.k, self.last, self.free = s, GerberX3Builder(), [], 0, None, free
        p = self.b.new_pad()
        self.pads = [p.circle(1.5), p.rectangle(1.0, 2.0)]

    def loc(self, i, name, sign=1):
        s = self.s
        if self.free is not None and self.free != i:
            self.k += 1
            return (sign * (2.0 + self.k / 8), 5.0 - self.k / 16)
        if sign < 0:  # a centre, far enough for offsets of a fixed number of digits
            return (-s.real(f"{name}{i}x", 30, 60), s.real(f"{name}{i}y", 30, 60))
        return (s.real(f"{name}{i}x", 2, 9), s.real(f"{name}{i}y", 2, 9))

    def pad(self, i, cut, reuse=False, plain=False):
        s = self.s
        pad = self.pads[s.choice(f"pad{i}", [0, 1]) if i == 1 else i % 2]
        p, at = self.loc(i, "p"), None
        if reuse and self.last is not None and self.last[2] == "trace":
            p, at = self.last[1], self.last[0]
        kw, rot, scale, mx, my = {}, 0.0, 1.0, False, False
        if not plain:
            kind = s.choice(f"kind{i}", ["plain", "rotated", "scaled", "x", "y", "xy"])
            if kind == "rotated":
                rot = kw["rotation"] = s.real(f"rot{i}", -360, 360)
            elif kind == "scaled":
                scale = kw["scale"] = s.real(f"scale{i}", 0.1, 10)
            if "x" in kind:
                mx = kw["mirror_x"] = True
            if kind.endswith("y"):
                my = kw["mirror_y"] = True
        f = self.b.add_cutout_pad if cut else self.b.add_pad
        d = f(pad, at if at is not None else p, **kw)
        self.want.append(("flash", pad.node, p, E.Polarity.Clear if cut else E.Polarity.Dark, rot, MIRROR[mx, my], scale))
        self.last = (d, p, "pad")

    def trace(self, i, kind, reuse=False):
        s = self.s
        w = s.choice(f"w{i}", [0.5, 1]) if i == 1 else 0.5
        obj, a = (self.last[0], self.last[1]) if reuse and self.last is not None else ((q := self.loc(i, "a")), q)
        e = self.loc(i, "e")
        if kind == "line":
            d = self.b.add_line_trace(w, obj, e)
            self.want.append(("draw", w, "G01", a, e, None))
        else:
            c = self.loc(i, "c", -1)
            f = self.b.add_clockwise_arc_trace if kind == "cw" else self.b.add_counter_clockwise_arc_trace
            d = f(w, obj, e, c)
            self.want.append(("draw", w, "G02" if kind == "cw" else "G03", a, e, c))
        self.last = (d, e, "trace")

    def region(self, i, kinds, closed):
        s = self.s
        a = self.loc(i, "r")
        r = self.b.new_region(a)
        prev, segs = a, []
        for k, kind in enumerate(kinds):
            e = a if closed and k == len(kinds) - 1 else self.loc(i, f"r{k}")
            if kind == "line":
                r.add_line(e)
                segs.append(("G01", prev, e, None))
            else:
                c = self.loc(i, f"rc{k}", -1)
                (r.add_clockwise_arc if kind == "cw" else r.add_counterclockwise_arc)(e, c)
                segs.append(("G02" if kind == "cw" else "G03", prev, e, c))
            prev = e
        if not closed:
            s.assume(s.lor(prev[0] > a[0] + 0.001, prev[0] < a[0] - 0.001))
            segs.append(("G01", prev, a, None))
        r.create()
        self.want.append(("region", segs))
        self.last = None

    def op(self, i, op, reuse):
        if op in ("pad", "cut"):
            self.pad(i, op == "cut", reuse)
        elif op in ("line", "cw", "ccw"):
            self.trace(i, op, reuse)
        elif op == "rline":
            self.region(i, ["line", "line", "line"], False)
        elif op == "rcw":
            self.region(i, ["line", "line", "cw"], True)
        else:
            self.region(i, ["ccw", "line", "ccw"], self.s.choice(f"closed{i}", [True, False]))

    def verify(self):
        i = Interp(self.s)
        compare(self.s, i.run(self.b.get_code().raw), self.want)
        return i


OPS = ["pad", "cut", "line", "cw", "ccw", "rline", "rcw", "rccw"]


@scenario("B01", cases=[{"a": a, "b": b} for a in OPS for b in OPS], bounds="two calls of every kind, all coordinates, rotations and scales; start points given or taken from the previous object")
def pair(s, a, b):
    s.fmt_digits()
    c = Calls(s, free=s.choice("free", [0, 1]))
    c.op(0, a, False)
    c.op(1, b, s.choice("reuse", [False, True]))
    c.verify()


@scenario("B01", cases=[{"a": a, "b": b, "c": c, "_tier": "quick" if c in ("pad", "line", "ccw") and (a != b or c != b) and a not in ("rline", "rccw") else "thorough"} for a in OPS for b in OPS for c in OPS], bounds="three calls of every kind; points of the last one symbolic")
def triple(s, a, b, c):
    s.fmt_digits()
    k = Calls(s, free=2)
    for i, op in enumerate((a, b, c)):
        if op in ("pad", "cut"):
            k.pad(i, op == "cut", False, plain=i > 0)
        else:
            k.op(i, op, i == 2)
    k.verify()


@scenario("B01", bounds="end of a trace given by an object: the centre of a pad, the begin of a trace")
def ends(s):
    s.fmt_digits()
    c = Calls(s)
    c.trace(0, "line")
    first, begin0 = c.last[0], c.want[0][3]
    c.pad(1, False, plain=True)
    pad, at = c.last[0], c.last[1]
    kind = s.choice("kind", ["line", "cw", "ccw"])
    p, q = c.loc(2, "m"), c.loc(2, "cc", -1)
    f = {"line": c.b.add_line_trace, "cw": c.b.add_clockwise_arc_trace, "ccw": c.b.add_counter_clockwise_arc_trace}[kind]
    args = () if kind == "line" else (q,)
    mode = {"line": "G01", "cw": "G02", "ccw": "G03"}[kind]
    center = None if kind == "line" else q
    f(0.5, p, first, *args)
    c.want.append(("draw", 0.5, mode, p, begin0, center))
    f(0.7, first, pad, *args)
    c.want.append(("draw", 0.7, mode, c.want[0][4], at, center))
    c.verify()


@scenario("B01", bounds="a trace from any place to any place, positive or negative")
def signs(s):
    s.fmt_digits()
    b = GerberX3Builder()
    k = s.choice("free", [0, 1, 2, 3])
    v = [2.5, 3.5, -4.5, 5.25]
    v[k] = s.real("v", -500, 500)
    b.add_line_trace(0.5, (v[0], v[1]), (v[2], v[3]))
    compare(s, Interp(s).run(b.get_code().raw), [("draw", 0.5, "G01", (v[0], v[1]), (v[2], v[3]), None)])


# ------------------------------------------------------------ pads


PADS = ["circle", "rectangle", "rounded_rectangle", "regular_polygon"]


def make_pad(s, b, kind, tag):
    """-> (pad, expected node class, expected fields)"""
    r = lambda n: s.real(tag + n, 0.1, 50)  # noqa: E731
    hole = s.choice(tag + "hole", [None, "given"])
    h = None if hole is None else r("h")
    p = b.new_pad()
    if kind == "circle":
        d = r("d")
        return (p.circle(d) if h is None else p.circle(d, h)), N.ADC, {"diameter": d, "hole_diameter": h}
    if kind == "regular_polygon":
        d, n, t = r("d"), s.choice(tag + "n", [3, 7, 12]), s.real(tag + "t", -360, 360)
        return (p.regular_polygon(d, n, t) if h is None else p.regular_polygon(d, n, t, h)), N.ADP, {"outer_diameter": d, "vertices": n, "rotation": t, "hole_diameter": h}
    w, g = r("w"), r("g")
    f = getattr(p, kind)
    return (f(w, g) if h is None else f(w, g, h)), N.ADR if kind == "rectangle" else N.ADO, {"width": w, "height": g, "hole_diameter": h}


@scenario("B01", cases=[{"a": a, "b": b} for a in PADS for b in PADS], bounds="two pads of every kind, all sizes; attributes of the pads")
def pads(s, a, b):
    bl = GerberX3Builder()
    made = [make_pad(s, bl, k, t) for k, t in ((a, "a"), (b, "b"))]
    fn, tol, user = (s.choice(n, [False, True]) for n in ("function", "tolerance", "user"))
    which = s.choice("which", [0, 1])
    pad = made[which][0]
    plus, minus = s.real("plus", 0, 5), s.real("minus", 0, 5)
    if fn:
        pad.set_aperture_function(s.choice("how", ["ViaPad", E.AperFunction.ViaPad]))
    if tol:
        pad.set_drill_tolerance(plus, minus)
    if user:
        pad.set_custom_attribute("uu", "v1", "v2")
        pad.set_custom_attribute("ww")
    order = s.choice("order", [0, 1])
    for k in (order, 1 - order):
        bl.add_pad(made[k][0], (1.0, 2.0))
    i = Interp(s)
    out = i.run(bl.get_code().raw)
    s.check(len(i.apertures) == 2, "two apertures")
    ids = list(i.apertures)
    for k, (p, cls, want) in enumerate(made):
        node = i.apertures[ids[k]]
        s.check(p.aperture_id == ids[k], "identifier of the pad")
        s.check(type(node) is cls, "kind of the aperture")
        for f, v in want.items():
            got = getattr(node, f)
            if v is None:
                s.check(got is None, f"{f} not given")
            else:
                s.eq(got, v, f)
        at = i.attrs[ids[k]]
        kinds = [type(x) for x in at]
        if k != which:
            s.check(kinds == [], "pad without attributes")
            continue
        s.check(kinds.count(N.TA_AperFunction) == (1 if fn else 0), "aperture function")
        s.check(kinds.count(N.TA_DrillTolerance) == (1 if tol else 0), "drill tolerance")
        for x in at:
            if type(x) is N.TA_AperFunction:
                s.check(x.function is E.AperFunction.ViaPad, "aperture function")
            if type(x) is N.TA_DrillTolerance:
                s.eq(x.plus_tolerance, plus, "plus tolerance")
                s.eq(x.minus_tolerance, minus, "minus tolerance")
        s.check([(x.user_name, list(x.fields)) for x in at if type(x) is N.TA_UserName] == ([("uu", ["v1", "v2"]), ("ww", [])] if user else []), "user attributes")
    s.check([o[1].aperture_id for o in out] == [ids[order], ids[1 - order]], "pads which were flashed")
    s.check(i.ta == [], "attributes do not leak to what follows")


PRIMS = ["circle", "vector_line", "center_line", "outline", "polygon", "thermal"]


def make_primitive(s, c, kind, tag, cut):
    r = lambda n: s.real(tag + n, 0.1, 50)  # noqa: E731
    p = lambda n: (s.real(tag + n + "x", -50, 50), s.real(tag + n + "y", -50, 50))  # noqa: E731
    rot = s.real(tag + "rot", -360, 360) if s.choice(tag + "rotated", [True, False]) else None
    kw = {} if rot is None else {"rotation": rot}
    rv = 0.0 if rot is None else rot
    f = getattr(c, ("cut_" if cut else "add_") + kind)
    e = 0 if cut else 1
    if kind == "circle":
        d, m = r("d"), p("m")
        got = f(d, m, **kw)
        want = (N.Code1, {"exposure": e, "diameter": d, "center_x": m[0], "center_y": m[1], "rotation": rv})
    elif kind == "vector_line":
        w, a, b = r("w"), p("a"), p("b")
        got = f(w, a, b, **kw)
        want = (N.Code20, {"exposure": e, "width": w, "start_x": a[0], "start_y": a[1], "end_x": b[0], "end_y": b[1], "rotation": rv})
    elif kind == "center_line":
        w, h, m = r("w"), r("h"), p("m")
        got = f(w, h, m, **kw)
        want = (N.Code21, {"exposure": e, "width": w, "height": h, "center_x": m[0], "center_y": m[1], "rotation": rv})
    elif kind == "outline":
        pts = [p(f"p{k}") for k in range(s.choice(tag + "n", [3, 4]))]
        got = f(pts, **kw)
        want = (N.Code4, {"exposure": e, "rotation": rv, "points": pts})
    elif kind == "polygon":
        n, m, d = s.choice(tag + "v", [3, 12]), p("m"), r("d")
        got = f(n, m, d, **kw)
        want = (N.Code5, {"exposure": e, "number_of_vertices": n, "center_x": m[0], "center_y": m[1], "diameter": d, "rotation": rv})
    else:
        m, o, i, g = p("m"), r("o"), r("i"), r("g")
        got = c.add_thermal(m, o, i, g, **kw)
        want = (N.Code7, {"center_x": m[0], "center_y": m[1], "outer_diameter": o, "inner_diameter": i, "gap_thickness": g, "rotation": rv})
    s.check(got is c, "calls can be chained")
    return want


def const(s, node, v, label):
    s.check(type(node) is N.Constant, label + " is a constant")
    s.eq(node.constant, v, label)


def primitives(s, got, want):
    s.check([type(p) for p in got] == [w[0] for w in want], "kinds of the primitives")
    for p, (_, fields) in zip(got, want):
        for f, v in fields.items():
            if f != "points":
                const(s, getattr(p, f), v, f)
                continue
            # a closed contour of n edges: start and n points, the last equal to the start
            n = len(v)
            s.check(p.number_of_points.constant == len(p.points), "number of points")
            ring = [(p.start_x, p.start_y)] + [(q.x, q.y) for q in p.points]
            s.check(len(ring) == n + 1, "contour of the outline")
            # the contour starts at any vertex, in order
            const_pt(s, ring[0], v[-1], "start of the contour")
            for k in range(n):
                const_pt(s, ring[k + 1], v[k], f"point {k}")


def const_pt(s, got, want, label):
    const(s, got[0], want[0], label + " x")
    const(s, got[1], want[1], label + " y")


@scenario("B01", cases=[{"a": a, "b": b, "_tier": "quick" if b in ("circle", "outline", "center_line") else "thorough"} for a in PRIMS for b in PRIMS], bounds="custom pads of two primitives of every kind, added or cut, all values; a second custom pad")
def custom(s, a, b):
    bl = GerberX3Builder()
    c = bl.new_pad().custom()
    want = [make_primitive(s, c, a, "a", s.choice("cuta", [False, True]) if a != "thermal" else False), make_primitive(s, c, b, "b", False)]
    other = bl.new_pad().custom()
    want2 = [make_primitive(s, other, "circle", "z", True)]
    first, second = s.choice("first", [(c, other), (other, c)])
    made = {id(first): first.create(), id(second): second.create()}
    for x in (c, other):
        s.raises(RuntimeError, lambda x=x: x.create(), "a custom pad is created once")
        s.raises(RuntimeError, lambda x=x: x.add_circle(1.0, (0.0, 0.0)), "no primitive after creation")
    bl.add_pad(made[id(c)], (1.0, 2.0))
    bl.add_pad(made[id(other)], (1.0, 2.0))
    i = Interp(s)
    out = i.run(bl.get_code().raw)
    s.check(len(out) == 2, "two flashes")
    for o, w in zip(out, (want, want2)):
        s.check(type(o[1]) is N.ADmacro and not o[1].params, "aperture of a macro")
        primitives(s, i.macros[o[1].name].primitives, w)


@scenario("B01", bounds="not a pad, region with less than three segments, outline of less than three points")
def errors(s):
    b = GerberX3Builder()
    p = (s.real("x", -5, 5), s.real("y", -5, 5))
    bad = s.choice("bad", [b.new_pad(), b.new_pad().custom(), None])
    s.raises(NotAPadError, lambda: b.add_pad(bad, p), "not a pad")
    s.raises(NotAPadError, lambda: b.add_cutout_pad(bad, p), "not a pad")
    n = s.choice("n", [0, 1, 2])
    r = b.new_region(p)
    for _ in range(n):
        r.add_line(p)
    s.raises(InvalidRegionOutlineError, r.create, "region of less than three segments")
    s.check(Interp(s).run(b.get_code().raw) == [], "nothing is drawn")


# ------------------------------------------------------------ text


@scenario("B01", cases=[{"op": o} for o in OPS], bounds="text of a call of every kind, coordinates between 2 and 9, parsed again")
def text(s, op):
    from props.gtext import parser

    s.fmt_digits(repr=True)
    c = Calls(s)
    if op in ("pad", "cut"):
        c.pad(0, op == "cut", plain=True)
    else:
        c.op(0, op, False)
    t = c.b.get_code().dumps()
    i = Interp(s)
    out = i.run(parser().parse(t))
    want = [tuple(i.apertures[w[1].aperture_id] if k == 1 and w[0] == "flash" else v for k, v in enumerate(w)) for w in c.want]
    compare(s, out, want)
    for q in c.pads:
        got = i.apertures[q.aperture_id]
        s.check(type(got) is type(q.node), "kind of the aperture")
        for f in type(got).model_fields:
            if f not in ("source_info", "aperture_id") and getattr(q.node, f) is not None:
                s.eq(getattr(got, f), getattr(q.node, f), f)

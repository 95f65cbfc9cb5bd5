"""Shared vocabulary of the geometric properties.

A compiled program (RVMC) is read as an image tree: an ordered list of
("shape", negative, segments) and ("group", negative, items); a paste of a layer
is the group of its translated contents.  Programs are compared as image trees;
outlines are compared as closed contours up to start point and direction.
"""

from __future__ import annotations

from pygerber.gerber.ast import nodes as N
from pygerber.gerber.ast.nodes import enums as E
from pygerber.gerber.compiler.compiler import Compiler
from pygerber.vm.commands import Arc, EndLayer, Line, PasteLayer, Shape, StartLayer

# ------------------------------------------------------------------ numbers


class Mat:
    """Reference 2x2 matrix + translation."""

    def __init__(self, a, b, c, d, e=0, f=0):
        self.v = (a, b, c, d, e, f)

    def __call__(self, p):
        a, b, c, d, e, f = self.v
        return (a * p[0] + b * p[1] + e, c * p[0] + d * p[1] + f)

    def then(self, o):
        """self first, o second."""
        a, b, c, d, e, f = self.v
        A, B, C, D, EE, F = o.v
        return Mat(
            A * a + B * c, A * b + B * d, C * a + D * c, C * b + D * d,
            A * e + B * f + EE, C * e + D * f + F,
        )

    @property
    def det(self):
        return self.v[0] * self.v[3] - self.v[1] * self.v[2]


ID = Mat(1, 0, 0, 1)


def rot(deg):
    import math

    a = math.radians(deg)
    c, s = math.cos(a), math.sin(a)
    return Mat(c, -s, s, c)


def scale(k):
    return Mat(k, 0, 0, k)


def mirror(x, y):
    return Mat(-1 if x else 1, 0, 0, -1 if y else 1)


def shift(p):
    return Mat(1, 0, 0, 1, p[0], p[1])


# --------------------------------------------------------- reference shapes
# segment: ("L", p, q) or ("A", p, q, centre, clockwise)


def poly(*pts):
    return [("L", pts[i], pts[(i + 1) % len(pts)]) for i in range(len(pts))]


def ref_rect(c, w, h):
    x0, x1, y0, y1 = c[0] - w / 2, c[0] + w / 2, c[1] - h / 2, c[1] + h / 2
    return poly((x0, y0), (x1, y0), (x1, y1), (x0, y1))


def ref_circle(c, d):
    r = d / 2
    a, b = (c[0] - r, c[1]), (c[0] + r, c[1])
    return [("A", a, b, c, True), ("A", b, a, c, True)]


def ref_obround(s, c, w, h):
    """Rectangle whose shorter sides are half circles."""
    if w <= h:
        r = w / 2
        k = h / 2 - r
        a, b = (c[0] - r, c[1] - k), (c[0] + r, c[1] - k)
        d, e = (c[0] + r, c[1] + k), (c[0] - r, c[1] + k)
        return [
            ("A", a, b, (c[0], c[1] - k), False), ("L", b, d),
            ("A", d, e, (c[0], c[1] + k), False), ("L", e, a),
        ]
    r = h / 2
    k = w / 2 - r
    a, b = (c[0] - k, c[1] - r), (c[0] + k, c[1] - r)
    d, e = (c[0] + k, c[1] + r), (c[0] - k, c[1] + r)
    return [
        ("L", a, b), ("A", b, d, (c[0] + k, c[1]), False),
        ("L", d, e), ("A", e, a, (c[0] - k, c[1]), False),
    ]


def ref_polygon(c, d, n, rotation):
    import math

    pts = []
    for k in range(n):
        a = math.radians(rotation)
        ca, sa = math.cos(a), math.sin(a)
        b = 2 * math.pi * k / n
        cb, sb = math.cos(b), math.sin(b)
        pts.append((c[0] + d / 2 * (ca * cb - sa * sb), c[1] + d / 2 * (sa * cb + ca * sb)))
    return poly(*pts)


def ref_line(s, a, b, t):
    """Rectangle of width t around the segment a-b."""
    dx, dy = b[0] - a[0], b[1] - a[1]
    if dx == 0 and dy == 0:
        ux, uy = 1, 0
    else:
        n = s.sqrt(dx * dx + dy * dy)
        ux, uy = dx / n, dy / n
    px, py = -uy * (t / 2), ux * (t / 2)
    return poly(
        (a[0] + px, a[1] + py), (b[0] + px, b[1] + py),
        (b[0] - px, b[1] - py), (a[0] - px, a[1] - py),
    )


def _unit(s, v):
    if v[0] == 0 and v[1] == 0:
        return (1, 0)
    n = s.sqrt(v[0] * v[0] + v[1] * v[1])
    return (v[0] / n, v[1] / n)


def ref_arc(s, a, b, c, t, clockwise):
    """Band of width t around the arc a-b."""
    ua = _unit(s, (a[0] - c[0], a[1] - c[1]))
    ub = _unit(s, (b[0] - c[0], b[1] - c[1]))
    h = t / 2
    ao, ai = (a[0] + ua[0] * h, a[1] + ua[1] * h), (a[0] - ua[0] * h, a[1] - ua[1] * h)
    bo, bi = (b[0] + ub[0] * h, b[1] + ub[1] * h), (b[0] - ub[0] * h, b[1] - ub[1] * h)
    return [
        ("A", ao, bo, c, clockwise), ("L", bo, bi),
        ("A", bi, ai, c, not clockwise), ("L", ai, ao),
    ]


def move(segs, m):
    flip = m.det < 0
    if not isinstance(flip, bool):
        flip = bool(flip)
    out = []
    for g in segs:
        if g[0] == "L":
            out.append(("L", m(g[1]), m(g[2])))
        else:
            out.append(("A", m(g[1]), m(g[2]), m(g[3]), g[4] != flip))
    return out


def move_tree(items, m):
    out = []
    for kind, neg, body in items:
        out.append((kind, neg, move(body, m) if kind == "shape" else move_tree(body, m)))
    return out


def dark(segs):
    return ("shape", False, segs)


def clear(segs):
    return ("shape", True, segs)


# ------------------------------------------------------------- from the code


def v2(v):
    return (v.x, v.y)


def segs_of(shape):
    out = []
    for g in shape.commands:
        if isinstance(g, Line):
            out.append(("L", v2(g.start), v2(g.end)))
        elif isinstance(g, Arc):
            out.append(("A", v2(g.start), v2(g.end), v2(g.center), bool(g.clockwise)))
        else:
            raise TypeError(type(g))
    return out


def layers_of(s, rvmc):
    """Layers in order; checks that the command stream is well formed."""
    layers, cur, order = {}, None, []
    for c in rvmc.commands:
        if isinstance(c, StartLayer):
            s.check(cur is None, "a layer is started inside of another layer")
            s.check(c.id.id not in layers, "a layer is started twice")
            cur = c.id.id
            layers[cur] = (c, [])
            order.append(cur)
        elif isinstance(c, EndLayer):
            s.check(cur is not None, "a layer is ended outside of a layer")
            cur = None
        else:
            s.check(cur is not None, "a drawing command outside of a layer")
            if isinstance(c, PasteLayer):
                s.check(
                    c.source_layer_id.id in layers and c.source_layer_id.id != cur,
                    "a layer is pasted before it is complete",
                )
            layers[cur][1].append(c)
    s.check(cur is None, "the last layer is not ended")
    s.check(bool(order) and order[-1] == Compiler.MAIN_BUFFER_ID, "the main layer is not the last one")
    return layers


def flatten(s, rvmc):
    layers = layers_of(s, rvmc)
    memo = {}

    def items_of(lid):
        if lid in memo:
            return memo[lid]
        out = []
        for c in layers[lid][1]:
            if isinstance(c, Shape):
                out.append(("shape", c.is_negative, segs_of(c)))
            else:
                src = layers[c.source_layer_id.id][0]
                sub = items_of(c.source_layer_id.id)
                m = shift((c.center.x - src.origin.x, c.center.y - src.origin.y))
                out.append(("group", c.is_negative, move_tree(sub, m)))
        memo[lid] = out
        return out

    return items_of(Compiler.MAIN_BUFFER_ID)


# ------------------------------------------------------------------ compare


def _same(s, a, b):
    """Is a == b an identity? (symbolic) / are they close (concrete)."""
    if s.sym:
        from vf import core

        if core._special(a) or core._special(b):
            return False
        d, _ = core.strip_tiny(s.c, core.canon(core.rv(a) - core.rv(b)))
        return core.const_of(d) == 0
    return abs(a - b) <= 1e-9


def _samep(s, p, q):
    return _same(s, p[0], q[0]) and _same(s, p[1], q[1])


def closed(s, segs):
    """Insert the implicit closing lines, drop empty lines."""
    out = []
    n = len(segs)
    for i, g in enumerate(segs):
        if not (g[0] == "L" and _samep(s, g[1], g[2])):
            out.append(g)
        h = segs[(i + 1) % n]
        if not _samep(s, g[2], h[1]):
            out.append(("L", g[2], h[1]))
    return out


def reverse(segs):
    out = []
    for g in reversed(segs):
        out.append(("L", g[2], g[1]) if g[0] == "L" else ("A", g[2], g[1], g[3], not g[4]))
    return out


def as_circle(s, segs):
    """(centre, point) if the contour is a full circle of two half circles."""
    if len(segs) == 2 and all(g[0] == "A" for g in segs) and segs[0][4] == segs[1][4]:
        a, b = segs
        c = a[3]
        opposite = (2 * c[0] - a[1][0], 2 * c[1] - a[1][1])
        if (
            _samep(s, a[3], b[3]) and _samep(s, a[2], b[1]) and _samep(s, a[1], b[2])
            and _samep(s, a[2], opposite)
        ):
            return c, a[1]
    return None


def _flat(segs):
    out = []
    for g in segs:
        for p in g[1:4]:
            out += [p[0], p[1]]
    return out


def _approx(s, xs):
    """Float values of the terms in a model of the path (symbolic)."""
    import z3
    from vf import core

    c = s.c
    if getattr(c, "_geo_model", None) is None:
        if c._check() != z3.sat:
            return None
        c._geo_model = c._model_last()
    out = []
    for x in xs:
        v = c._geo_model.eval(core.rv(x), model_completion=True)
        f = core.const_of(v)
        if f is None and z3.is_algebraic_value(v):
            f = core.const_of(v.approx(10))
        out.append(float(f) if f is not None else 0.0)
    return out


def same_outline(s, got, want, msg):
    got, want = closed(s, got), closed(s, want)
    cg, cw = as_circle(s, got), as_circle(s, want)
    if cg and cw:
        for i in (0, 1):
            s.eq(cg[0][i], cw[0][i], f"{msg}: circle centre {'xy'[i]}")
        rg = (cg[1][0] - cg[0][0]) * (cg[1][0] - cg[0][0]) + (cg[1][1] - cg[0][1]) * (cg[1][1] - cg[0][1])
        rw = (cw[1][0] - cw[0][0]) * (cw[1][0] - cw[0][0]) + (cw[1][1] - cw[0][1]) * (cw[1][1] - cw[0][1])
        s.eq(rg, rw, f"{msg}: circle radius squared", tol=1e-5)
        return
    if len(got) != len(want):
        s.fail(f"{msg}: {len(got)} outline segments instead of {len(want)}")
        return
    n = len(got)
    if n == 0:
        return
    variants = []
    for r in (want, reverse(want)):
        for k in range(n):
            w = r[k:] + r[:k]
            if all(a[0] == b[0] and (a[0] == "L" or a[4] == b[4]) for a, b in zip(got, w)):
                variants.append(w)
    if not variants:
        s.fail(f"{msg}: outline of other segments or orientation")
        return
    if s.sym:
        fg = _flat(got)
        best = None
        for w in variants:
            if all(_same(s, a, b) for a, b in zip(fg, _flat(w))):
                best = w
                break
        if best is None and len(variants) > 1:
            ag = _approx(s, fg)
            if ag is not None:
                best = min(
                    variants,
                    key=lambda w: max(abs(a - b) for a, b in zip(ag, _approx(s, _flat(w)))),
                )
        best = best or variants[0]
    else:
        fg = _flat(got)
        best = min(variants, key=lambda w: max(abs(a - b) for a, b in zip(fg, _flat(w))))
    for i, (a, b) in enumerate(zip(got, best)):
        for pa, pb, nm in zip(a[1:4], b[1:4], ("start", "end", "centre")):
            for j in (0, 1):
                s.eq(pa[j], pb[j], f"{msg}: segment {i} {nm} {'xy'[j]}")


def same_tree(s, got, want, msg="image"):
    got, want = inline(got), inline(want)
    if len(got) != len(want):
        s.fail(f"{msg}: {len(got)} objects instead of {len(want)}")
        return
    for i, (g, w) in enumerate(zip(got, want)):
        m = f"{msg}[{i}]"
        if g[0] != w[0]:
            s.fail(f"{m}: {g[0]} instead of {w[0]}")
            return
        s.check(bool(g[1]) == bool(w[1]), f"{m}: polarity")
        if g[0] == "shape":
            same_outline(s, g[2], w[2], m)
        else:
            same_tree(s, g[2], w[2], m)


def inline(items):
    """A group of dark shapes only is the sequence of its shapes."""
    out = []
    for kind, neg, body in items:
        if kind == "group":
            body = inline(body)
            if all(k == "shape" and not n for k, n, _ in body):
                out += [("shape", bool(neg), b) for _, _, b in body]
                continue
        out.append((kind, neg, body))
    return out


# ----------------------------------------------------------------- programs

FMT = dict(x_integral=4, x_decimal=6, y_integral=4, y_decimal=6)
DIG = 10
LIM = 400


class Prog:
    """Builds a Gerber AST with symbolic coordinates (4.6 format)."""

    def __init__(self, s, unit=E.UnitMode.METRIC, lim=LIM):
        self.s = s
        self.lim = lim
        self.nodes = [
            N.FS(zeros=E.Zeros.SKIP_LEADING, coordinate_mode=E.CoordinateNotation.ABSOLUTE, **FMT),
            N.MO(mode=unit),
        ]

    def add(self, *nodes):
        self.nodes += nodes
        return self

    def coord(self, name):
        """-> (packed text, value)"""
        k = self.lim * 10**6
        t = self.s.signed_digits("d:" + name, DIG, -k, k)
        return N.PackedCoordinateStr(t), self.s.numval("d:" + name) / 10**6

    def xy(self, name, ij=False):
        tx, x = self.coord(name + ".x")
        ty, y = self.coord(name + ".y")
        if ij:
            return (N.CoordinateI(value=tx), N.CoordinateJ(value=ty)), (x, y)
        return (N.CoordinateX(value=tx), N.CoordinateY(value=ty)), (x, y)

    def op(self, cls, name):
        n, p = self.xy(name)
        self.nodes.append(cls(x=n[0], y=n[1]))
        return p

    def flash(self, name):
        return self.op(N.D03, name)

    def moveto(self, name):
        return self.op(N.D02, name)

    def draw(self, name):
        return self.op(N.D01, name)

    def arc(self, name):
        n, p = self.xy(name)
        m, q = self.xy(name + ".o", ij=True)
        self.nodes.append(N.D01(x=n[0], y=n[1], i=m[0], j=m[1]))
        return p, q

    def select(self, id_):
        return self.add(N.Dnn(aperture_id=N.ApertureIdStr(id_)))

    def circle(self, id_, d, hole=None):
        return self.add(N.ADC(aperture_id=N.ApertureIdStr(id_), diameter=d, hole_diameter=hole))

    def rect(self, id_, w, h, hole=None):
        return self.add(N.ADR(aperture_id=N.ApertureIdStr(id_), width=w, height=h, hole_diameter=hole))

    def obround(self, id_, w, h, hole=None):
        return self.add(N.ADO(aperture_id=N.ApertureIdStr(id_), width=w, height=h, hole_diameter=hole))

    def polygon(self, id_, d, n, r=None, hole=None):
        return self.add(
            N.ADP(aperture_id=N.ApertureIdStr(id_), outer_diameter=d, vertices=n, rotation=r, hole_diameter=hole)
        )

    def polarity(self, negative):
        return self.add(N.LP(polarity=E.Polarity.Clear if negative else E.Polarity.Dark))

    def sub(self):
        """Nested program (block, step and repeat)."""
        q = Prog.__new__(Prog)
        q.s, q.lim, q.nodes = self.s, self.lim, []
        return q

    def file(self):
        return N.File(nodes=list(self.nodes))

    def compile(self, **kw):
        return Compiler(**kw).compile(self.file())

    def image(self, **kw):
        return flatten(self.s, self.compile(**kw))


def polarity(s, name="clear"):
    return s.choice(name, [False, True])

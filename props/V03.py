"""Vectors, boxes and transformation matrices."""

from vf.api import scenario

from pygerber.vm.types import Box, Matrix3x3, Vector

ASSUMPTIONS = [
    "numbers are exact reals; replay on the real code compares with tolerance 1e-6",
    "angles are decided through sine and cosine (cos^2+sin^2=1, exact at multiples of 90 degrees)",
]


def vec(s, name, lo=-100, hi=100):
    return Vector(x=s.real(name + "x", lo, hi), y=s.real(name + "y", lo, hi))


def same(s, v, x, y, what):
    s.check(isinstance(v, Vector), what + ": is a vector")
    s.eq(v.x, x, what + ": x")
    s.eq(v.y, y, what + ": y")


@scenario("V03", bounds="all pairs of vectors and numbers")
def arithmetic(s):
    a, b, k = vec(s, "a"), vec(s, "b"), s.real("k", -100, 100)
    same(s, a + b, a.x + b.x, a.y + b.y, "sum")
    same(s, a - b, a.x - b.x, a.y - b.y, "difference")
    same(s, a * b, a.x * b.x, a.y * b.y, "product")
    same(s, a + k, a.x + k, a.y + k, "sum with a number")
    same(s, a - k, a.x - k, a.y - k, "difference with a number")
    same(s, a * k, a.x * k, a.y * k, "product with a number")
    same(s, a * 3, a.x * 3, a.y * 3, "product with an integer")
    same(s, -a, -a.x, -a.y, "negation")
    s.assume(s.lor(k > 0.01, k < -0.01))
    same(s, a / k, a.x / k, a.y / k, "quotient with a number")
    s.assume(s.land(s.lor(b.x > 0.01, b.x < -0.01), s.lor(b.y > 0.01, b.y < -0.01)))
    same(s, a / b, a.x / b.x, a.y / b.y, "quotient")
    same(s, Vector.from_tuple((k, b.x)), k, b.x, "from tuple")
    s.eq(a.xy[0], a.x, "xy")
    s.eq(a.xy[1], a.y, "xy")


@scenario("V03", bounds="all pairs of vectors")
def order(s):
    a, b = vec(s, "a"), vec(s, "b")
    gt, lt, ge, le, eq = a > b, a < b, a >= b, a <= b, a == b
    s.check(bool(gt) == bool(s.land(a.x > b.x, a.y > b.y)), "greater: on both axes")
    s.check(bool(lt) == bool(s.land(a.x < b.x, a.y < b.y)), "less: on both axes")
    s.check(bool(ge) == bool(s.land(a.x >= b.x, a.y >= b.y)), "greater or equal: on both axes")
    s.check(bool(le) == bool(s.land(a.x <= b.x, a.y <= b.y)), "less or equal: on both axes")
    s.check(bool(eq) == bool(s.land(a.x == b.x, a.y == b.y)), "equal: on both axes")


@scenario("V03", bounds="all vectors of length 0.01 to 140, the null vector")
def length(s):
    a = vec(s, "a")
    r = a.length()
    s.le(0, r, "length is not negative")
    s.eq(r * r, a.x * a.x + a.y * a.y, "length", tol=1e-4)
    s.assume(r >= 0.01)
    n = a.normalized()
    s.eq(n.x * r, a.x, "unit vector x", tol=1e-5)
    s.eq(n.y * r, a.y, "unit vector y", tol=1e-5)
    z = Vector(x=0.0, y=0.0).normalized()
    s.eq(z.x * z.x + z.y * z.y, 1.0, "the null vector has a direction too")


QUAD = [(0, 90), (90, 180), (180, 270), (270, 360)]


@scenario("V03", cases=[{"q": q} for q in range(4)], exact_angles=True,
          bounds="every direction in the quadrant against every other one, all lengths 0.01 to 100; result compared modulo a full turn")
def angle(s, q):
    a, w = s.real("a", *QUAD[q]), s.real("w", 0, 360)
    r, t = s.real("r", 0.01, 100), s.real("t", 0.01, 100)
    v = Vector(x=r * s.cos(a), y=r * s.sin(a))
    u = Vector(x=t * s.cos(a + w), y=t * s.sin(a + w))
    cc, cw = v.angle_between_cc(u), v.angle_between(u)
    s.le(0, cc, "counterclockwise angle")
    s.le(cc, 360, "counterclockwise angle")
    s.le(0, cw, "clockwise angle")
    s.le(cw, 360, "clockwise angle")
    if s.sym:
        s.check(s.lor(s.close(cc, w), s.land(s.close(cc, 0), s.close(w, 360)), s.land(s.close(cc, 360), s.close(w, 0))), "counterclockwise angle is the one between the vectors")
        s.check(s.lor(s.close(cw, 360 - w), s.land(s.close(cw, 360), s.close(w, 360)), s.land(s.close(cw, 0), s.close(w, 0))), "clockwise angle is the one between the vectors")
    else:
        s.check(min(abs(cc - w), abs(cc - w + 360), abs(cc - w - 360)) < 1e-4, "counterclockwise angle is the one between the vectors")
        s.check(min(abs(cw + w), abs(cw + w - 360), abs(cw + w - 720)) < 1e-4, "clockwise angle is the one between the vectors")


def matrix(s, name):
    kind = s.choice(name, ["translate", "rotate", "scale", "mirror_x", "mirror_y", "mirror_xy"])
    if kind == "translate":
        x, y = s.real(name + "tx", -100, 100), s.real(name + "ty", -100, 100)
        return Matrix3x3.new_translate(x, y), lambda px, py: (px + x, py + y)
    if kind == "rotate":
        t = s.real(name + "t", -720, 720)
        c, d = s.cos(t), s.sin(t)
        return Matrix3x3.new_rotate(t), lambda px, py: (c * px - d * py, d * px + c * py)
    if kind == "scale":
        x, y = s.real(name + "kx", 0.01, 100), s.real(name + "ky", 0.01, 100)
        return Matrix3x3.new_scale(x, y), lambda px, py: (x * px, y * py)
    mx, my = "x" in kind[6:], "y" in kind[6:]
    return Matrix3x3.new_reflect(x=mx, y=my), lambda px, py: (-px if mx else px, -py if my else py)


@scenario("V03", cases=[{"n": 1}, {"n": 2}, {"n": 3, "_tier": "thorough"}], bounds="products of n elementary transformations with any parameters, applied to any point")
def transforms(s, n):
    p = vec(s, "p")
    x, y, m = p.x, p.y, None
    for k in range(n):
        mk, f = matrix(s, f"m{k}")
        x, y = f(x, y)
        m = mk if m is None else mk @ m
    same(s, p.transform(m), x, y, "transformed point")
    same(s, m @ p, x, y, "transformed point")


@scenario("V03", bounds="all boxes, vectors and sizes")
def boxes(s):
    vs = [vec(s, f"v{k}") for k in range(3)]
    b = Box.from_vectors(*vs)
    for v in vs:
        s.le(b.min_x, v.x, "box of points: left")
        s.le(b.min_y, v.y, "box of points: lower")
        s.le(v.x, b.max_x, "box of points: right")
        s.le(v.y, b.max_y, "box of points: upper")
    for side, axis in (("min_x", "x"), ("max_x", "x"), ("min_y", "y"), ("max_y", "y")):
        g = getattr(b, side)
        s.check(s.lor(*[s.close(g, getattr(v, axis)) for v in vs]), f"box of points: {side} is reached")
    w, h, cx, cy = s.real("w", 0, 100), s.real("h", 0, 100), s.real("cx", -100, 100), s.real("cy", -100, 100)
    c = Box.from_center_width_height((cx, cy), w, h)
    s.eq(c.width, w, "width")
    s.eq(c.height, h, "height")
    same(s, c.center, cx, cy, "center")
    for f, sides in (("plus", (c + vs[0])), ("minus", (c - vs[0]))):
        k = 1 if f == "plus" else -1
        s.eq(sides.min_x, cx - w / 2 + k * vs[0].x, f + ": left")
        s.eq(sides.max_x, cx + w / 2 + k * vs[0].x, f + ": right")
        s.eq(sides.min_y, cy - h / 2 + k * vs[0].y, f + ": lower")
        s.eq(sides.max_y, cy + h / 2 + k * vs[0].y, f + ": upper")
    d = Box.from_vectors(vs[0], vs[1])
    for u in (c + d, d + c):
        for side, pick in (("min_x", min), ("min_y", min), ("max_x", max), ("max_y", max)):
            p, q = getattr(c, side), getattr(d, side)
            e = s.ite(p < q, p, q) if pick is min else s.ite(p > q, p, q)
            s.eq(getattr(u, side), e, f"union: {side}")

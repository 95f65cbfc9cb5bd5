"""Step and repeat."""

from vf.api import scenario

from props import geo
from props.G02 import stroke
from props.geo import N, Prog

ASSUMPTIONS = [
    "numbers are exact reals; replay on the real code compares with tolerance 1e-6",
    "repeat counts up to 3 in each direction (thorough: 5)",
    "copies are produced along Y first, then along X",
]


def step(s, name, d=3):
    """Decimal literal with d decimals -> (text, value)."""
    frac = s.digits("d:" + name, d + 2)
    v = s.numval("d:" + name) / 10**d
    if s.choice(name + ".neg", [False, True]):
        return f"-{frac[:2]}.{frac[2:]}", -v
    return f"{frac[:2]}.{frac[2:]}", v


def sr(s, q, nx, ny, omit=False):
    ti, dx = step(s, "i")
    tj, dy = step(s, "j")
    if omit:
        return N.SR(open=N.SRopen(), nodes=q.nodes, close=N.SRclose()), 0, 0
    return (
        N.SR(open=N.SRopen(x=str(nx), y=str(ny), i=ti, j=tj), nodes=q.nodes, close=N.SRclose()),
        dx, dy,
    )


CASES = [
    {"nx": 1, "ny": 1}, {"nx": 2, "ny": 1}, {"nx": 1, "ny": 3}, {"nx": 2, "ny": 3}, {"nx": 3, "ny": 2},
    {"nx": 5, "ny": 4, "_tier": "thorough"}, {"nx": 1, "ny": 5, "_tier": "thorough"},
]


@scenario("G05", cases=CASES, bounds="flash and draw repeated nx times ny, any steps and positions, polarity inside")
def repeat(s, nx, ny):
    p = Prog(s)
    t = s.real("t", 0.001, 100)
    w = s.real("w", 0.001, 100)
    p.circle("D10", t).rect("D11", w, t)
    before = s.choice("before", [False, True])
    want = []
    if before:
        p.select("D10")
        z = p.flash("z")
        want.append(("shape", False, geo.ref_circle(z, t)))
    q = p.sub()
    q.select("D11")
    a = q.flash("a")
    neg = geo.polarity(s)
    q.polarity(neg)
    q.select("D10").add(N.G01())
    b = q.draw("b")
    items = [("shape", False, geo.move(geo.ref_rect((0, 0), w, t), geo.shift(a)))] + stroke(s, a, b, t, neg)
    node, dx, dy = sr(s, q, nx, ny)
    p.add(node)
    for x in range(nx):
        for y in range(ny):
            want += geo.move_tree(items, geo.shift((x * dx, y * dy)))
    geo.same_tree(s, p.image(), want)


@scenario("G05", bounds="region repeated 2x2, object after the block uses the state left by it; counts omitted")
def region_and_after(s):
    p = Prog(s)
    t = s.real("t", 0.001, 100)
    p.circle("D10", t).select("D10").add(N.G75(), N.G01())
    q = p.sub()
    q.add(N.G36())
    a = q.moveto("a")
    b = q.draw("b")
    c = q.draw("c")
    q.add(N.G37())
    items = [("shape", False, [("L", a, b), ("L", b, c)])]
    omit = s.choice("omit", [False, True])
    node, dx, dy = sr(s, q, 2, 2, omit)
    p.add(node)
    want = []
    for x in range(1 if omit else 2):
        for y in range(1 if omit else 2):
            want += geo.move_tree(items, geo.shift((x * dx, y * dy)))
    e = p.flash("e")
    want.append(("shape", False, geo.ref_circle(e, t)))
    geo.same_tree(s, p.image(), want)


@scenario("G05", bounds="aperture defined before, flashed transformed inside of the block; two step and repeat blocks in sequence")
def two_blocks(s):
    p = Prog(s)
    w = s.real("w", 0.001, 100)
    h = s.real("h", 0.001, 100)
    p.rect("D10", w, h).select("D10")
    k = s.real("k", 0.01, 10)
    want = []
    for blk, (nx, ny) in enumerate(((2, 1), (1, 2))):
        q = p.sub()
        if blk == 1:
            q.add(N.LS(scale=k))
        a = q.flash(f"a{blk}")
        ti, dx = step(s, f"i{blk}", 2)
        p.add(N.SR(open=N.SRopen(x=str(nx), y=str(ny), i=ti, j=ti), nodes=q.nodes, close=N.SRclose()))
        f = k if blk == 1 else 1
        for x in range(nx):
            for y in range(ny):
                want.append(
                    ("shape", False, geo.move(geo.ref_rect((0, 0), w * f, h * f), geo.shift((a[0] + x * dx, a[1] + y * dx))))
                )
    geo.same_tree(s, p.image(), want)


MANY = [{"nx": 1, "ny": 9}, {"nx": 9, "ny": 1}, {"nx": 4, "ny": 5}, {"nx": 5, "ny": 4}] + [
    {"nx": a, "ny": b, "_tier": "thorough"} for a, b in ((12, 12), (1, 40), (40, 1))
]


@scenario("G05", cases=MANY, bounds="one flash repeated many times, any steps and position")
def many(s, nx, ny):
    p = Prog(s)
    t = s.real("t", 0.001, 100)
    p.circle("D10", t).select("D10")
    q = p.sub()
    a = q.flash("a")
    node, dx, dy = sr(s, q, nx, ny)
    p.add(node)
    want = []
    for x in range(nx):
        for y in range(ny):
            want.append(("shape", False, geo.ref_circle((a[0] + x * dx, a[1] + y * dy), t)))
    geo.same_tree(s, p.image(), want)

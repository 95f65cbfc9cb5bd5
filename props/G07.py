"""Aperture dictionary: which aperture is flashed."""

from vf.api import scenario

from props import geo
from props.G01 import aperture
from props.geo import E, N, Prog

ASSUMPTIONS = [
    "numbers are exact reals; replay on the real code compares with tolerance 1e-6",
    "each aperture number is defined once (the format forbids redefinition)",
]

PAIRS = [("C", "R"), ("O", "C"), ("R", "O"), ("P", "C")]


@scenario("G07", cases=[{"k1": a, "k2": b} for a, b in PAIRS], bounds="two apertures with symbolic sizes, three flashes, any selection sequence")
def select(s, k1, k2):
    p = Prog(s)
    one = aperture(s, p, "D10", k1, "a", vertices=3)
    two = aperture(s, p, "D011", k2, "b", vertices=4)
    ids = {"D10": one, "D011": two}
    want = []
    cur = None
    for i in range(3):
        sel = s.choice(f"sel{i}", ["D10", "D011"] + (["keep"] if cur else []))
        if sel != "keep":
            p.select(sel)
            cur = sel
        q = p.flash(f"p{i}")
        want.append(("group", False, geo.move_tree(ids[cur], geo.shift(q))))
    geo.same_tree(s, p.image(), want)


@scenario("G07", bounds="selecting an undefined aperture, drawing or flashing without a selected aperture is an error")
def undefined(s):
    from pygerber.gerber.ast.errors import ApertureNotFoundError, ApertureNotSelectedError

    p = Prog(s)
    t = s.real("t", 0.001, 100)
    p.circle("D10", t)
    kind = s.choice("kind", ["select", "flash", "draw"])
    if kind == "select":
        p.select("D12")
        s.raises(ApertureNotFoundError, p.compile, "undefined aperture accepted")
        return
    if kind == "flash":
        p.flash("a")
    else:
        p.draw("a")
    s.raises(ApertureNotSelectedError, p.compile, "flash or draw without an aperture accepted")


@scenario("G07", bounds="same aperture flashed with two different scalings and rotations keeps both images apart")
def transform_cache(s):
    p = Prog(s)
    w = s.real("w", 0.001, 100)
    h = s.real("h", 0.001, 100)
    p.rect("D10", w, h).select("D10")
    want = []
    for i in range(2):
        k = s.real(f"k{i}", 0.01, 50)
        p.add(N.LS(scale=k))
        m = geo.scale(k)
        if i == 1:
            a = s.real("angle", -360, 360)
            p.add(N.LR(rotation=a))
            m = m.then(geo.rot(a))
        q = p.flash(f"p{i}")
        want.append(("shape", False, geo.move(geo.ref_rect((0, 0), w, h), m.then(geo.shift(q)))))
    geo.same_tree(s, p.image(), want)


TR = ["none", "mx", "my", "mxy", "r90", "scale", "rot"]


@scenario("G07", cases=[{"first": a} for a in TR], bounds="asymmetric macro aperture flashed under two transformations out of 7 kinds: both images are their own")
def transform_pairs(s, first):
    from props.G01 import MIRR

    p = Prog(s)
    w = s.real("w", 0.1, 50)
    h = s.real("h", 0.1, 50)
    c = lambda v: N.Constant(constant=v)  # noqa: E731
    prim = N.Code4(
        exposure=c(1.0), number_of_points=c(2.0), start_x=c(0.0), start_y=c(0.0),
        points=[N.Point(x=c(w), y=c(0.0)), N.Point(x=c(w), y=c(h))], rotation=c(0.0),
    )
    p.add(N.AM(open=N.AMopen(name="T"), primitives=[prim], close=N.AMclose()))
    p.add(N.ADmacro(aperture_id=N.ApertureIdStr("D10"), name="T", params=None)).select("D10")
    shape = geo.poly((0.0, 0.0), (w, 0.0), (w, h))
    want = []
    for i, kind in enumerate((first, s.choice("second", TR))):
        p.add(N.LM(mirroring=E.Mirroring.NONE), N.LR(rotation=0.0), N.LS(scale=1.0))
        m = geo.ID
        if kind in ("mx", "my", "mxy"):
            e, mx, my = MIRR[("mx", "my", "mxy").index(kind) + 1]
            p.add(N.LM(mirroring=e))
            m = geo.mirror(mx, my)
        elif kind == "r90":
            a = s.choice(f"a{i}", [90.0, 180.0, 270.0])
            p.add(N.LR(rotation=a))
            m = geo.rot(a)
        elif kind == "rot":
            a = s.real(f"a{i}", -360, 360)
            p.add(N.LR(rotation=a))
            m = geo.rot(a)
        elif kind == "scale":
            k = s.real(f"k{i}", 0.01, 50)
            p.add(N.LS(scale=k))
            m = geo.scale(k)
        q = p.flash(f"p{i}")
        want.append(("shape", False, geo.move(shape, m.then(geo.shift(q)))))
    geo.same_tree(s, p.image(), want)

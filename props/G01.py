"""Flashes: position, polarity and aperture transformations."""

from vf.api import scenario

from props import geo
from props.geo import N, E, Prog, clear, dark

ASSUMPTIONS = [
    "numbers are exact reals; replay on the real code compares with tolerance 1e-6",
    "aperture transformation order as the compiler defines it: scale, then rotate, then mirror",
    "rotation angle is any angle with cos^2+sin^2=1 (its trigonometric values are solver variables)",
]

MIRR = [
    (E.Mirroring.NONE, False, False), (E.Mirroring.X, True, False),
    (E.Mirroring.Y, False, True), (E.Mirroring.XY, True, True),
]


def aperture(s, p, id_, kind, pre="a", vertices=None, hole=None):
    """Define an aperture, return its reference image at the origin."""
    w = s.real(pre + ".w", 0.001, 100)
    if hole is None:
        hole = s.choice(pre + ".hole?", [False, True])
    hd = s.real(pre + ".hole", 0, 100) if hole else None
    if kind == "C":
        p.circle(id_, w, hd)
        items = [dark(geo.ref_circle((0, 0), w))]
        lim = w
    elif kind == "P":
        n = vertices or s.choice(pre + ".n", [3, 4, 5])
        rotated = s.choice(pre + ".rot?", [False, True])
        r = s.real(pre + ".rot", -360, 360) if rotated else None
        p.polygon(id_, w, n, r, hd)
        items = [dark(geo.ref_polygon((0, 0), w, n, r if rotated else 0.0))]
        lim = w
    else:
        h = s.real(pre + ".h", 0.001, 100)
        if kind == "R":
            p.rect(id_, w, h, hd)
            items = [dark(geo.ref_rect((0, 0), w, h))]
        else:
            p.obround(id_, w, h, hd)
            items = [dark(geo.ref_obround(s, (0, 0), w, h))]
        lim = s.ite(w < h, w, h)
    if hole:
        if hd > 0:
            items.append(clear(geo.ref_circle((0, 0), s.ite(hd < lim, hd, lim))))
    return items


CASES = [{"kind": k} for k in "CRO"] + [
    {"kind": "P", "n": n, "hole": h, "mirr": m} for n, h in ((3, False), (4, True), (5, False)) for m in (False, True)
] + [{"kind": "P", "n": n, "_tier": "thorough"} for n in (3, 4, 5, 6, 7, 8, 12)]


@scenario("G01", cases=CASES, bounds="one flash, any position, size, hole, rotation, scale, mirroring and polarity")
def flash(s, kind, n=None, hole=None, mirr=None):
    p = Prog(s)
    items = aperture(s, p, "D10", kind, vertices=n, hole=hole)
    p.select("D10")
    m = geo.ID
    if s.choice("ls?", [False, True]):
        k = s.real("ls", 0.01, 50)
        p.add(N.LS(scale=k))
        m = m.then(geo.scale(k))
    if s.choice("lr?", [False, True]):
        a = s.real("lr", -360, 360)
        p.add(N.LR(rotation=a))
        m = m.then(geo.rot(a))
    mi, mx, my = s.choice("lm", MIRR if mirr is None else (MIRR[:1], MIRR[1:])[mirr])
    if mi is not E.Mirroring.NONE:
        p.add(N.LM(mirroring=mi))
        m = m.then(geo.mirror(mx, my))
    neg = geo.polarity(s)
    p.polarity(neg)
    pos = p.flash("p")
    want = geo.move_tree(items, m.then(geo.shift(pos)))
    geo.same_tree(s, p.image(), [("group", neg, want)])

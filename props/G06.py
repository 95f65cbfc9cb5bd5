"""Block apertures."""

from vf.api import scenario

from props import geo
from props.G01 import MIRR
from props.G02 import stroke
from props.geo import E, N, Prog

ASSUMPTIONS = [
    "numbers are exact reals; replay on the real code compares with tolerance 1e-6",
    "a clear flash of a block toggles the polarity of each of its objects (Gerber format)",
    "nesting depth up to 2",
]


def block(id_, q):
    return N.AB(open=N.ABopen(aperture_id=N.ApertureIdStr(id_)), nodes=q.nodes, close=N.ABclose())


def toggle(items, neg):
    return [(k, bool(n) != neg, b) for k, n, b in items]


def transform(s, p, pre):
    m = geo.ID
    which = s.choice(pre + ".t", ["none", "scale", "rotate", "mirror", "all"])
    if which in ("scale", "all"):
        k = s.real(pre + ".k", 0.01, 50)
        p.add(N.LS(scale=k))
        m = m.then(geo.scale(k))
    if which in ("rotate", "all"):
        a = s.real(pre + ".a", -360, 360)
        p.add(N.LR(rotation=a))
        m = m.then(geo.rot(a))
    if which in ("mirror", "all"):
        mi, mx, my = s.choice(pre + ".m", MIRR[1:])
        p.add(N.LM(mirroring=mi))
        m = m.then(geo.mirror(mx, my))
    return m


def reset(p):
    p.add(N.LS(scale=1.0), N.LR(rotation=0.0), N.LM(mirroring=E.Mirroring.NONE))


@scenario("G06", bounds="block with flash, clear flash and draw; two flashes with any transformation, position and polarity", weight=5)
def flash_block(s):
    p = Prog(s)
    t = s.real("t", 0.001, 100)
    w = s.real("w", 0.001, 100)
    p.circle("D10", t).rect("D11", w, t)
    q = p.sub()
    q.select("D11")
    a = q.flash("a")
    neg0 = geo.polarity(s, "inner clear")
    q.polarity(neg0)
    q.select("D10").add(N.G01())
    b = q.draw("b")
    items = [("shape", False, geo.move(geo.ref_rect((0, 0), w, t), geo.shift(a)))] + stroke(s, a, b, t, neg0)
    p.add(block("D20", q))
    p.select("D20")
    neg = geo.polarity(s)
    p.polarity(neg)
    m = transform(s, p, "t")
    c = p.flash("c")
    want = toggle(geo.move_tree(items, m.then(geo.shift(c))), neg)
    geo.same_tree(s, p.image(), want)


@scenario("G06", bounds="the same block flashed twice at any positions, second time transformed")
def twice(s):
    p = Prog(s)
    w = s.real("w", 0.001, 100)
    h = s.real("h", 0.001, 100)
    p.obround("D10", w, h)
    q = p.sub()
    q.select("D10")
    a = q.flash("a")
    p.add(block("D20", q)).select("D20")
    items = [("shape", False, geo.move(geo.ref_obround(s, (0, 0), w, h), geo.shift(a)))]
    c = p.flash("c")
    want = geo.move_tree(items, geo.shift(c))
    k = s.real("k", 0.01, 10)
    p.add(N.LS(scale=k))
    d = p.flash("d")
    want += geo.move_tree(items, geo.scale(k).then(geo.shift(d)))
    reset(p)
    e = p.flash("e")
    want += geo.move_tree(items, geo.shift(e))
    geo.same_tree(s, p.image(), want)


@scenario("G06", bounds="block in block, inner flash transformed, outer flash transformed and of either polarity", weight=4)
def nested(s):
    p = Prog(s)
    w = s.real("w", 0.001, 100)
    h = s.real("h", 0.001, 100)
    p.rect("D10", w, h)
    inner = p.sub()
    inner.select("D10")
    a = inner.flash("a")
    items = [("shape", False, geo.move(geo.ref_rect((0, 0), w, h), geo.shift(a)))]
    outer = p.sub()
    outer.add(block("D20", inner)).select("D20")
    neg1 = geo.polarity(s, "inner clear")
    outer.polarity(neg1)
    m1 = transform(s, outer, "inner")
    b = outer.flash("b")
    items = toggle(geo.move_tree(items, m1.then(geo.shift(b))), neg1)
    reset(outer)
    p.add(block("D21", outer)).select("D21")
    neg2 = geo.polarity(s)
    p.polarity(neg2)
    k = s.real("k", 0.01, 10)
    p.add(N.LS(scale=k))
    c = p.flash("c")
    want = toggle(geo.move_tree(items, geo.scale(k).then(geo.shift(c))), neg2)
    geo.same_tree(s, p.image(), want)


@scenario("G06", bounds="block holding a transformed flash and a region; aperture also flashed directly outside")
def transformed_inside(s):
    p = Prog(s)
    w = s.real("w", 0.001, 100)
    h = s.real("h", 0.001, 100)
    p.rect("D10", w, h)
    q = p.sub()
    q.select("D10")
    m = transform(s, q, "in")
    a = q.flash("a")
    items = [("shape", False, geo.move(geo.ref_rect((0, 0), w, h), m.then(geo.shift(a))))]
    reset(q)
    q.add(N.G36(), N.G01())
    b = q.moveto("b")
    c = q.draw("c")
    d = q.draw("d")
    q.add(N.G37())
    items.append(("shape", False, [("L", b, c), ("L", c, d)]))
    p.add(block("D20", q)).select("D20")
    e = p.flash("e")
    want = geo.move_tree(items, geo.shift(e))
    p.select("D10")
    f = p.flash("f")
    want.append(("shape", False, geo.move(geo.ref_rect((0, 0), w, h), geo.shift(f))))
    geo.same_tree(s, p.image(), want)

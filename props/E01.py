"""From the text of a file to the pixels and points of its image."""

from props import raster
from vf.api import scenario

from pygerber.gerber.api import CompositeView, GerberFile
from pygerber.gerber.api._gerber_file import Units
from pygerber.vm.types.color import Color
from pygerber.vm.types.style import Style

ASSUMPTIONS = [
    "numbers are exact reals; probe pixels and points keep a distance of two pixels plus one per nested layer (0.001 mm for Shapely) from every edge",
    "coordinates of four digits, two (inch: three) of them decimal; aperture sizes fixed; objects are rectangles so that outlines are exact",
    "Pillow and Shapely are the stand-ins of props/raster.py in the symbolic run; the replay uses the real libraries",
]

IN = 25.4


class Text:
    """Text of a Gerber file together with the list of rectangles it paints."""

    def __init__(self, s, unit, dec, pre=""):
        self.s, self.unit, self.dec, self.pre = s, unit, dec, pre
        self.text = f"%FSLAX{5 - dec}{dec}Y{5 - dec}{dec}*%%MO{unit}*%"
        self.items = []  # (negative, x0, y0, x1, y1), in file units
        self.n = 0

    def lit(self, t):
        self.text += t
        return self

    def number(self, lo, hi):
        """Text and value of a coordinate."""
        self.n += 1
        name = f"{self.pre}c{self.n}"
        k = 10**self.dec
        t = self.s.signed_digits(name, 5)
        v = self.s.numval(name)
        self.s.assume(self.s.land(v >= lo * k, v <= hi * k))
        return t, v / float(k)

    def point(self, lo=-20, hi=20):
        (a, x), (b, y) = self.number(lo, hi), self.number(lo, hi)
        return f"X{a}Y{b}", (x, y)

    def rect(self, neg, x0, y0, x1, y1):
        self.items.append((neg, x0, y0, x1, y1))

    def flash(self, w, h, neg=False):
        t, (x, y) = self.point()
        self.lit(f"{t}D03*")
        self.rect(neg, x - w / 2, y - h / 2, x + w / 2, y + h / 2)
        return x, y

    # ---------------------------------------------------------- reference

    def box(self):
        s = self.s
        out = None
        for _, *b in self.items:
            if out is None:
                out = list(b)
            else:
                out = [s.ite(b[k] < out[k], b[k], out[k]) if k < 2 else s.ite(b[k] > out[k], b[k], out[k]) for k in range(4)]
        return out

    def inside(self, px, py, far, margin):
        s = self.s
        r = False
        for neg, x0, y0, x1, y1 in self.items:
            hit = s.land(px > x0, px < x1, py > y0, py < y1)
            # off every edge of the rectangle
            out = s.lor(px < x0 - margin, px > x1 + margin, py < y0 - margin, py > y1 + margin)
            deep = s.land(px > x0 + margin, px < x1 - margin, py > y0 + margin, py < y1 - margin)
            far.append(s.lor(out, deep))
            r = s.land(r, s.lnot(hit)) if neg else s.lor(r, hit)
        return r


def _two(g):
    g.lit("%ADD10R,4.0X3.0*%%ADD11R,2.0X6.0*%D10*")
    g.flash(4.0, 3.0)
    neg = g.s.choice("clear", [False, True])
    g.lit("%LPC*%" if neg else "").lit("D11*")
    g.flash(2.0, 6.0, neg)


def _region(g):
    g.lit("G01*G36*")
    (ta, a), (tb, b) = g.number(-20, 0), g.number(-20, 0)
    (tc, c), (td, d) = g.number(1, 20), g.number(1, 20)
    g.lit(f"X{ta}Y{tb}D02*X{tc}D01*Y{td}D01*X{ta}D01*Y{tb}D01*G37*")
    g.rect(False, a, b, c, d)


def _macro(g):
    # rectangle away from the origin of the macro, mirrored, with a hole in its middle
    g.lit("%AMBOX*21,1,$1,$2,$3,1.0,0*21,0,1.0,1.0,$3,1.0,0*%%ADD10BOX,5.0X4.0X3.0*%D10*")
    mx = g.s.choice("mirror", ["N", "X", "Y"])
    g.lit(f"%LM{mx}*%")
    t, (x, y) = g.point()
    g.lit(f"{t}D03*")
    cx = x - 3.0 if mx == "X" else x + 3.0
    cy = y - 1.0 if mx == "Y" else y + 1.0
    g.rect(False, cx - 2.5, cy - 2.0, cx + 2.5, cy + 2.0)
    g.rect(True, cx - 0.5, cy - 0.5, cx + 0.5, cy + 0.5)


def _repeat(g):
    g.lit("%ADD10R,2.0X3.0*%D10*%SRX2Y2I7.0J5.0*%")
    t, (x, y) = g.point(-10, 10)
    g.lit(f"{t}D03*%SR*%")
    for i in range(2):
        for j in range(2):
            g.rect(False, x + 7 * i - 1, y + 5 * j - 1.5, x + 7 * i + 1, y + 5 * j + 1.5)


def _block(g):
    g.lit("%ADD10R,2.0X3.0*%%ABD12*%D10*")
    t, (x, y) = g.point(-9, 9)
    g.lit(f"{t}D03*%AB*%D12*")
    t, (u, v) = g.point(-9, 9)
    g.lit(f"{t}D03*")
    g.rect(False, x + u - 1, y + v - 1.5, x + u + 1, y + v + 1.5)


def _one(g):
    g.lit("%ADD10R,4.0X3.0*%D10*")
    g.flash(4.0, 3.0)


def _transformed(g):
    # scaled, rotated by a quarter turn and mirrored off-centre rectangle; the transformation stays for the next flash
    g.lit("%AMBOX*21,1,5.0,4.0,3.0,1.0,0*%%ADD10BOX*%%ADD11R,2.0X1.0*%D10*")
    g.lit("%LS2.0*%").lit("%LR90.0*%")
    m = g.s.choice("mirror", ["N", "X", "XY"])
    g.lit(f"%LM{m}*%")
    t, (x, y) = g.point()
    g.lit(f"{t}D03*")
    cx, cy = -2.0, 6.0  # (3, 1) doubled and rotated
    cx, cy = (-cx if "X" in m else cx), (-cy if "Y" in m else cy)
    g.rect(False, x + cx - 4.0, y + cy - 5.0, x + cx + 4.0, y + cy + 5.0)
    g.lit("D11*")
    t, (x, y) = g.point()
    g.lit(f"{t}D03*")
    g.rect(False, x - 1.0, y - 2.0, x + 1.0, y + 2.0)


def _modal(g):
    # omitted coordinates keep their value; comments and attributes do not matter
    g.lit("G04 modal*%TF.Part,Single*%%TA.AperFunction,Conductor*%%ADD10R,2.0X3.0*%%TD*%%ADD11R,1.0X5.0*%D10*")
    t, (x, y) = g.point()
    g.lit(f"%TO.N,Net1*%{t}D02*")
    (a, u) = g.number(-20, 20)
    g.lit(f"X{a}D03*")
    g.rect(False, u - 1, y - 1.5, u + 1, y + 1.5)
    (b, v) = g.number(-20, 20)
    g.lit(f"D11*\n%TD*%Y{b}D03*")
    g.rect(False, u - 0.5, v - 2.5, u + 0.5, v + 2.5)
    g.lit("%LPC*%D10*D03*")
    g.rect(True, u - 1, v - 1.5, u + 1, v + 1.5)


def _nested(g):
    # block aperture used inside of another one, with a clear object inside
    g.lit("%ADD10R,6.0X5.0*%%ADD11R,1.0X2.0*%%ABD12*%D10*")
    t, (x, y) = g.point(-5, 5)
    g.lit(f"{t}D03*%LPC*%D11*D03*%LPD*%%AB*%%ABD13*%D12*")
    t, (u, v) = g.point(-5, 5)
    g.lit(f"{t}D03*%AB*%D13*")
    t, (p, q) = g.point(-5, 5)
    g.lit(f"{t}D03*M02*")
    cx, cy = x + u + p, y + v + q
    g.rect(False, cx - 3, cy - 2.5, cx + 3, cy + 2.5)
    g.rect(True, cx - 0.5, cy - 1, cx + 0.5, cy + 1)


def _steps(g):
    # repetition of a dark and a clear object, then an object outside of it
    g.lit("%ADD10R,4.0X3.0*%%ADD11R,1.0X6.0*%%SRX2Y1I9.0J0*%D10*")
    t, (x, y) = g.point(-5, 5)
    g.lit(f"{t}D03*%LPC*%D11*D03*%LPD*%%SR*%D11*")
    for i in range(2):
        g.rect(False, x + 9 * i - 2, y - 1.5, x + 9 * i + 2, y + 1.5)
        g.rect(True, x + 9 * i - 0.5, y - 3, x + 9 * i + 0.5, y + 3)
    g.flash(1.0, 6.0)


def _arith(g):
    # arithmetic of macro parameters and variables
    g.lit("%AMCALC*$3=$1x2-$2/4*\n21,1,$3,$1+$2,0,0,0*%%ADD10CALC,3.0X8.0*%D10*")
    t, (x, y) = g.point()
    g.lit(f"{t}D03*")
    g.rect(False, x - 2, y - 5.5, x + 2, y + 5.5)


def _region_clear(g):
    g.lit("%ADD10R,30.0X20.0*%D10*")
    g.flash(30.0, 20.0)
    g.lit("%LPC*%")
    _region(g)
    neg = g.items.pop()
    g.items.append((True, *neg[1:]))
    g.lit("%LPD*%%ADD11R,1.0X2.0*%D11*")
    g.flash(1.0, 2.0)


KINDS = {"one": _one, "two": _two, "region": _region, "macro": _macro, "repeat": _repeat, "block": _block,
         "transformed": _transformed, "modal": _modal, "nested": _nested, "steps": _steps, "arith": _arith, "region_clear": _region_clear}
DEPTH = {"block": 2, "macro": 2, "repeat": 2, "transformed": 2, "nested": 3, "steps": 2, "arith": 2}


def style_of(s, pre=""):
    c = [Color.from_rgba(*[s.int(f"{pre}{n}{k}", 0, 255) for k in "rgba"]) for n in ("fg", "bg")]
    return Style(foreground=c[0], background=c[1])


def rgba(im, s, i, j):
    return im.color(i, j) if s.sym else im.getpixel((i, j))


def check_space(s, sp, box, unit, dpmm):
    f = IN if unit == "IN" else 1.0
    s.check(sp.units is (Units.Inches if unit == "IN" else Units.Millimeters), "units of the image space")
    s.check(sp.dpmm == dpmm, "resolution of the image space")
    for n, b in zip(("min_x", "min_y", "max_x", "max_y"), box):
        s.eq(getattr(sp, n), b, n)
        s.eq(getattr(sp, n + "_mm"), b * f, n + " in millimetres", tol=1e-5)
        p = getattr(sp, n + "_pixels")
        s.le(b * f * dpmm - 1, p, n + " in pixels", tol=1e-4)
        s.le(p, b * f * dpmm + 1, n + " in pixels", tol=1e-4)
    s.eq(sp.width_mm, (box[2] - box[0]) * f, "width", tol=1e-5)
    s.eq(sp.height_mm, (box[3] - box[1]) * f, "height", tol=1e-5)
    s.eq(sp.center_x_mm, (box[2] + box[0]) * f / 2, "centre x", tol=1e-5)
    s.eq(sp.center_y_mm, (box[3] + box[1]) * f / 2, "centre y", tol=1e-5)


def make(s, kind, unit, pre=""):
    g = Text(s, unit, 3 if unit == "IN" else 2, pre)
    KINDS[kind](g)
    g.lit("M02*")
    return g


CASES = [{"kind": k, "unit": u, "dpmm": d} for k, u, d in (
    ("one", "MM", 20), ("one", "IN", 10), ("two", "MM", 10), ("region", "MM", 10), ("macro", "MM", 10), ("repeat", "MM", 10), ("block", "MM", 10), ("two", "IN", 7),
    ("transformed", "MM", 10), ("modal", "IN", 10), ("nested", "MM", 10), ("steps", "MM", 10), ("arith", "MM", 10), ("region_clear", "MM", 10))]
CASES += [{"kind": k, "unit": u, "dpmm": d, "_tier": "thorough"} for k in KINDS for u in ("IN", "MM") for d in (7, 33)]


@scenario("E01", cases=CASES, weight=2, bounds="files of each kind (flashes of either polarity, region, mirrored macro, step and repeat, block aperture) in millimetres and inches, every coordinate, every pixel, every style")
def pillow(s, kind, unit, dpmm):
    g = make(s, kind, unit)
    style = style_of(s)
    ppu = dpmm * (IN if unit == "IN" else 1.0)  # pixels per unit of the file
    i, j = s.int("i", 0, 10**5), s.int("j", 0, 10**5)
    x0, y0, x1, y1 = g.box()
    margin = (DEPTH.get(kind, 1) + 2.0) / ppu
    px, py = x0 + (i + 0.5) / ppu, y1 - (j + 0.5) / ppu
    far = []
    want = g.inside(px, py, far, margin)
    s.assume(s.land(*far))
    s.assume(s.land(px < x1 - margin, py > y0 + margin))
    with raster.pillow(s):
        image = GerberFile.from_str(g.text).render_with_pillow(style=style, dpmm=dpmm)
        im = image.get_image()
        w, h = im.size
        for got, real in ((w, (x1 - x0) * ppu), (h, (y1 - y0) * ppu)):
            s.le(real - 1.001, got, "image is not smaller than its content")
            s.le(got, real + 1.001, "image is not larger than its content")
        got = rgba(im, s, i, j)
    for k, (c, f, b) in enumerate(zip(got, style.foreground.as_rgba_int(), style.background.as_rgba_int())):
        s.eq(c, s.ite(want, f, b), f"channel {'RGBA'[k]} of the pixel")
    check_space(s, image.get_image_space(), (x0, y0, x1, y1), unit, dpmm)


SCASES = [{"kind": k, "unit": u} for k, u in (("one", "IN"), ("two", "MM"), ("region", "MM"), ("macro", "MM"), ("repeat", "MM"), ("block", "IN"), ("transformed", "MM"), ("modal", "MM"), ("nested", "IN"), ("steps", "MM"), ("arith", "MM"), ("region_clear", "IN"))]


@scenario("E01", cases=SCASES, weight=2, bounds="files of each kind in millimetres and inches, every coordinate, every probe point")
def shapely(s, kind, unit):
    g = make(s, kind, unit)
    px, py = s.real("px", -60, 60), s.real("py", -60, 60)
    far = []
    want = g.inside(px, py, far, 1e-3)
    s.assume(s.land(*far))
    with raster.shapely(s):
        image = GerberFile.from_str(g.text).render_with_shapely()
        shape = image._result.shape
        if s.sym:
            got = shape.value(px, py)
        else:
            import shapely as sh

            got = shape.intersects(sh.Point(px, py))
    s.check(s.lor(s.land(want, got), s.land(s.lnot(want), s.lnot(got))), "point is painted as the file says")
    sp = image.get_image_space()
    for n, b in zip(("min_x", "min_y", "max_x", "max_y"), g.box()):
        s.eq(getattr(sp, n), b, n)


@scenario("E01", cases=[{"units": "MM MM", "n": 2}, {"units": "IN MM", "n": 2}, {"units": "MM IN", "n": 2}, {"units": "MM MM MM", "n": 3, "_tier": "thorough"}], weight=3,
          bounds="views of two (thorough three) files of one rectangle each in either unit, every coordinate and color, opaque or transparent, every pixel")
def composite(s, units, n):
    dpmm = 10
    us = units.split()
    gs = [make(s, "one", u, f"f{k}") for k, u in enumerate(us)]
    i, j = s.int("i", 0, 10**5), s.int("j", 0, 10**5)
    boxes = [[b * (IN if g.unit == "IN" else 1.0) for b in g.box()] for g in gs]  # millimetres
    total = boxes[0]
    for b in boxes[1:]:
        total = [s.ite(b[k] < total[k], b[k], total[k]) if k < 2 else s.ite(b[k] > total[k], b[k], total[k]) for k in range(4)]
    px, py = total[0] + (i + 0.5) / dpmm, total[3] - (j + 0.5) / dpmm
    margin = 4.0 / dpmm
    s.assume(s.land(px < total[2] - margin, py > total[1] + margin, px > total[0] + margin, py < total[3] - margin))
    want = (0, 0, 0, 0)
    files = []
    for k, (g, b) in enumerate(zip(gs, boxes)):
        clear = s.choice(f"transparent{k}", [False, True]) if k else False
        fg = Color.from_rgba(*[s.int(f"fg{k}{c}", 0, 255) for c in "rgb"], 0 if clear else 255)
        files.append((g, Style(foreground=fg, background=Color.from_rgba(0, 0, 0, 0))))
        hit = s.land(px > b[0], px < b[2], py > b[1], py < b[3])
        out = s.lor(px < b[0] - margin, px > b[2] + margin, py < b[1] - margin, py > b[3] + margin)
        deep = s.land(px > b[0] + margin, px < b[2] - margin, py > b[1] + margin, py < b[3] - margin)
        s.assume(s.lor(out, deep))
        if not clear:
            want = tuple(s.ite(hit, c, w) for c, w in zip(fg.as_rgba_int(), want))
    with raster.pillow(s):
        gerbers = []
        for g, style in files:
            f = GerberFile.from_str(g.text)
            f.set_color_map({t: style for t in f._color_map})
            gerbers.append(f)
        image = CompositeView(gerbers).render_with_pillow(dpmm=dpmm)
        im = image.get_image()
        w, h = im.size
        for got, real in ((w, (total[2] - total[0]) * dpmm), (h, (total[3] - total[1]) * dpmm)):
            s.le(real - 2.001, got, "view is not smaller than its files")
            s.le(got, real + 2.001, "view is not larger than its files")
        got = rgba(im, s, i, j)
    s.check(len(image.get_sub_images()) == n, "one image per file")
    for k, (c, v) in enumerate(zip(got, want)):
        s.eq(c, v, f"channel {'RGBA'[k]} of the pixel")

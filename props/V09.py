"""Saving a geometry as SVG."""

import io
import tempfile
from pathlib import Path

from vf.api import scenario

from pygerber.vm.shapely.vm import ShapelyResult
from pygerber.vm.types import Box
from pygerber.vm.types.color import Color
from pygerber.vm.types.style import Style

ASSUMPTIONS = [
    "numbers are exact reals, written and read back without loss",
    "the geometry is a stand-in with the bounds given (a rectangle, or nothing); the path data Shapely writes for it is trusted",
    "files are written to a scratch directory of the check",
]


class Shape:
    def __init__(self, bounds):
        self.bounds = bounds

    @property
    def is_empty(self):
        return self.bounds is None

    def svg(self, scale_factor=1.0, fill_color=None, opacity=None):
        return f'<path fill="{fill_color}" stroke="#555555" d="" />'


def geometry(s, bounds):
    if s.sym:
        return Shape(bounds)
    import shapely as sh

    return sh.Polygon() if bounds is None else sh.box(*bounds)


def save(s, result, style, how, encoding):
    """-> text of the SVG file"""
    kw = {} if encoding is None else {"encoding": encoding}
    if how in ("path", "str", "file"):
        with tempfile.TemporaryDirectory() as d:
            p = Path(d) / "image.svg"
            p.write_bytes(b"x" * 4096)  # saving truncates
            if how == "file":
                with p.open("wb") as f:
                    result.save_svg(f, style, **kw)
            else:
                result.save_svg(p if how == "path" else str(p), style, **kw)
            data = p.read_bytes()
    else:
        f = io.BytesIO()
        if how == "save":
            result.save(f, s.choice("format", ["svg", "SVG"]), style, **kw)
        else:
            result.save_svg(f, style, **kw)
        data = f.getvalue()
    return data.decode(encoding or "utf-8")


def number(s, t):
    if not s.sym:
        return float(t)
    from vf import core, strings

    return strings.parse_float(core.ctx(), t)


def between(t, a, b):
    i = t.index(a) + len(a)
    return t[i : t.index(b, i)]


CASES = [{"how": h, "encoding": e} for h, e in (("path", None), ("str", "utf-16"), ("file", None), ("buffer", "utf-8"), ("save", None))]


@scenario("V09", cases=CASES, bounds="all bounds of a geometry, every point of it; each kind of destination, some encodings and colors")
def frame(s, how, encoding):
    x0, y0 = s.real("x0", -1000, 1000), s.real("y0", -1000, 1000)
    w, h = s.real("w", 0.001, 1000), s.real("h", 0.001, 1000)
    color = s.choice("color", ["#ff000080", "#123456ff", "#00000000"])
    style = Style(foreground=Color.from_hex(color), background=Color.from_hex("#0a0b0c0d"))
    box = (x0, y0, x0 + w, y0 + h)
    result = ShapelyResult(Box(min_x=box[0], min_y=box[1], max_x=box[2], max_y=box[3]), geometry(s, box))
    t = save(s, result, style, how, encoding)
    s.check(t.startswith("<svg ") and t.endswith("</svg>"), "one complete element")
    head = t[: t.index(">")]
    vx, vy, vw, vh = [number(s, v) for v in between(head, 'viewBox="', '"').replace(",", " ").split()]
    width, height = [number(s, between(head, f' {n}="', '"')) for n in ("width", "height")]
    s.eq(width, w, "width of the image")
    s.eq(height, h, "height of the image")
    m = [number(s, v) for v in between(t, 'transform="matrix(', ')').replace(",", " ").split()]
    px, py = s.real("px", 0, 1), s.real("py", 0, 1)
    px, py = x0 + px * w, y0 + py * h
    # place in the image, in millimetres from its upper left corner
    gx = (m[0] * px + m[2] * py + m[4] - vx) * width / vw
    gy = (m[1] * px + m[3] * py + m[5] - vy) * height / vh
    s.eq(gx, px - x0, "distance of each point from the left edge", tol=1e-5)
    s.eq(gy, y0 + h - py, "distance of each point from the upper edge, Y pointing up", tol=1e-5)
    s.check(f'fill="{color}"' in t, "geometry has the foreground color")
    s.check("#555555" not in t, "geometry has no outline of its own")


@scenario("V09", cases=[{"how": h} for h in ("path", "buffer", "save")], bounds="an image with nothing on it")
def empty(s, how):
    box = Box(min_x=0, min_y=0, max_x=0, max_y=0)
    t = save(s, ShapelyResult(box, geometry(s, None)), Style.presets.COPPER, how, None)
    s.check(t.startswith("<svg ") and t.endswith(("/>", "</svg>")), "one complete element")
    s.check("<path" not in t and "NaN" not in t and "nan" not in t and "inf" not in t, "nothing is drawn")


def is_one_of(s, c, letters):
    if not s.sym:
        return c in letters
    from vf import core, strings

    return s.lor(*[strings.char_is(core.ctx(), c, l) for l in letters])


@scenario("V09", bounds="every other format name of three letters")
def unknown_format(s):
    name = "".join(s.char(f"c{k}", "svgpnSVGPN") for k in range(3))
    s.assume(s.lnot(s.land(*[is_one_of(s, c, l + l.upper()) for c, l in zip(name, "svg")])))
    result = ShapelyResult(Box(min_x=0, min_y=0, max_x=1, max_y=1), geometry(s, (0, 0, 1, 1)))
    out = io.BytesIO()
    try:
        result.save(out, name)
    except NotImplementedError:
        s.check(not out.getvalue(), "nothing is written")
    else:
        s.check(False, "unknown formats are refused")

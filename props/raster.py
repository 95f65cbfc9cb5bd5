"""Recording stand-ins for Pillow and Shapely, and reference painting semantics.

In symbolic runs the library calls made by the real virtual machines build a
formula "pixel/point p is set"; in concrete replays the real libraries run.
"""

from __future__ import annotations

import contextlib

import numpy as np

from pygerber.vm.commands import EndLayer, PasteLayer, Shape, StartLayer
from pygerber.vm.types import Box, LayerID, Vector

MAIN = "%main%"


def _unsupported(what):
    from vf.core import Unsupported

    raise Unsupported(f"stand-in does not support {what}")


def in_polygon(s, pts, px, py):
    """Even-odd rule."""
    from vf import core

    r = False
    n = len(pts)
    for k in range(n):
        (x1, y1), (x2, y2) = pts[k], pts[(k + 1) % n]

        def diff(a, b):
            d = core.canon(core.rv(a) - core.rv(b))
            return core.const_of(d), core.SF(d)

        cy, dy = diff(y2, y1)
        if cy == 0:
            continue
        cx, dx = diff(x2, x1)
        if cx == 0:
            hit = px < x1
        else:
            w = (px - x1) * dy - dx * (py - y1)
            hit = s.lor(s.land(dy > 0, w < 0), s.land(dy < 0, w > 0))
        cross = s.land(hit, s.lor(s.land(y1 > py, y2 <= py), s.land(y1 <= py, y2 > py)))
        r = cross if r is False else s.lor(s.land(r, s.lnot(cross)), s.land(s.lnot(r), cross))
    return r


def bite(s, c, a, b):
    """Boolean if-then-else."""
    return s.lor(s.land(c, a), s.land(s.lnot(c), b))


# ------------------------------------------------------------------ Pillow


class FakeImage:
    mode = "1"

    def __init__(self, s, size, base=0, ops=()):
        self._s, self.size, self._base, self._ops = s, tuple(size), bool(base), list(ops)
        self._drawn = []

    width = property(lambda self: self.size[0])
    height = property(lambda self: self.size[1])

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        _unsupported(f"Image.{name}")

    def _derived(self, fn):
        snap = list(self._ops)
        base = self._base
        me = self
        out = FakeImage(self._s, self.size)

        def value(i, j, fn=fn):
            return fn(lambda a, b: me._eval(snap, base, a, b), i, j)

        out._ops = [("fn", value)]
        out._drawn = self._drawn
        return out

    def convert(self, *_a, **_k):
        return self._derived(lambda v, i, j: v(i, j))

    copy = convert

    def transpose(self, method):
        from PIL import Image

        w, h = self.size
        if method == Image.Transpose.FLIP_TOP_BOTTOM:
            return self._derived(lambda v, i, j: v(i, h - 1 - j))
        if method == Image.Transpose.FLIP_LEFT_RIGHT:
            return self._derived(lambda v, i, j: v(w - 1 - i, j))
        if method == Image.Transpose.ROTATE_180:
            return self._derived(lambda v, i, j: v(w - 1 - i, h - 1 - j))
        _unsupported("transpose")

    def paste(self, im, box=None, mask=None):
        ox, oy = (0, 0) if box is None else (box[0], box[1])
        if not isinstance(im, FakeImage):
            if not isinstance(im, int):
                _unsupported("paste of a colour")
            const, src = bool(im), None
        else:
            const, src = None, im.convert()
        m = mask.convert() if mask is not None else None
        size = (m or src).size if (m or src) is not None else None
        if size is None:
            _unsupported("fill")
        self._ops.append(("paste", src, const, m, size, ox, oy))

    def _eval(self, ops, base, i, j):
        s = self._s
        v = base
        for op in ops:
            if op[0] == "fn":
                v = op[1](i, j)
            elif op[0] == "poly":
                v = bite(s, in_polygon(s, op[1], i, j), bool(op[2]), v)
            elif op[0] == "rect":
                x0, y0, x1, y1 = op[1]
                v = bite(s, s.land(i >= x0, i <= x1, j >= y0, j <= y1), bool(op[2]), v)
            else:
                _, src, const, m, (w, h), ox, oy = op
                a, b = i - ox, j - oy
                inside = s.land(a >= 0, b >= 0, a < w, b < h)
                on = s.land(inside, m.value(a, b)) if m is not None else inside
                v = bite(s, on, const if src is None else src.value(a, b), v)
        return v

    def value(self, i, j):
        return self._eval(self._ops, self._base, i, j)


class FakeChan:
    """One channel of a color image."""

    mode = "L"

    def __init__(self, s, size, fn):
        self._s, self.size, self._fn = s, tuple(size), fn

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        _unsupported(f"Image.{name}")

    def level(self, i, j):
        return self._fn(i, j)


def _blend(s, mask, a, b):
    """Mix colors a and b by a mask level of 0..255 or a truth value."""
    if isinstance(mask, bool):
        return tuple(a) if mask else tuple(b)
    if not isinstance(mask, (int, float)) and type(mask).__name__ == "SB":
        return tuple(s.ite(mask, x, y) for x, y in zip(a, b))
    return tuple(s.ite(mask == 255, x, s.ite(mask == 0, y, (x * mask + y * (255 - mask)) / 255.0)) for x, y in zip(a, b))


class FakeColor:
    mode = "RGBA"

    def __init__(self, s, size, fn):
        self._s, self.size, self._fn = s, tuple(size), fn

    width = property(lambda self: self.size[0])
    height = property(lambda self: self.size[1])

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        _unsupported(f"Image.{name}")

    def color(self, i, j):
        return self._fn(i, j)

    def copy(self):
        return FakeColor(self._s, self.size, self._fn)

    def convert(self, mode=None, **_k):
        if mode not in (None, "RGBA"):
            _unsupported(f"convert to {mode}")
        return self.copy()

    def getchannel(self, channel):
        k = channel if isinstance(channel, int) else "RGBA".index(channel)
        fn = self._fn
        return FakeChan(self._s, self.size, lambda i, j: fn(i, j)[k])

    def split(self):
        return tuple(self.getchannel(k) for k in range(4))

    def paste(self, im, box=None, mask=None):
        s, old = self._s, self._fn
        ox, oy = (0, 0) if box is None else (box[0], box[1])
        if not isinstance(im, FakeColor):
            _unsupported("paste of something which is not a color image")
        src, (w, h) = im._fn, im.size
        if isinstance(mask, FakeColor):
            mask = mask.getchannel("A")
        mask_fn = None if mask is None else (mask.level if isinstance(mask, FakeChan) else mask.convert().value)

        def fn(i, j):
            a, b = i - ox, j - oy
            inside = s.land(a >= 0, b >= 0, a < w, b < h)
            below = old(i, j)
            new = src(a, b)
            if mask_fn is not None:
                new = _blend(s, mask_fn(a, b), new, below)
            return tuple(s.ite(inside, x, y) for x, y in zip(new, below))

        self._fn = fn


class FakeDraw:
    def __init__(self, im, mode=None):
        self._image = im

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        _unsupported(f"ImageDraw.{name}")

    def polygon(self, xy, fill=None, outline=None, width=1):
        pts = [tuple(p) for p in xy]
        if len(pts) < 2:
            raise TypeError("coordinate list must contain at least 2 coordinates")
        if fill is not None:
            self._image._ops.append(("poly", pts, fill))
            self._image._drawn.append(pts)

    def rectangle(self, xy, fill=None, outline=None, width=1):
        p = list(xy)
        if len(p) == 2:
            p = [*p[0], *p[1]]
        if fill is not None:
            self._image._ops.append(("rect", p, fill))


@contextlib.contextmanager
def pillow(s):
    if not s.sym:
        yield
        return
    from PIL import Image, ImageDraw, ImageOps

    old = Image.new, ImageDraw.Draw, ImageOps.invert, Image.composite

    def new(mode, size, color=0):
        if mode == "RGBA":
            color = (0, 0, 0, 0) if isinstance(color, int) and color == 0 else tuple(color)
            if len(color) == 3:
                color = (*color, 255)
            return FakeColor(s, size, lambda i, j: color)
        if mode not in ("1", "L"):
            _unsupported("mode " + mode)
        return FakeImage(s, size, color)

    def composite(image1, image2, mask):
        if not (isinstance(image1, FakeColor) and isinstance(image2, FakeColor) and isinstance(mask, FakeImage)):
            _unsupported("composite")
        a, b, m = image1._fn, image2._fn, mask.convert()
        return FakeColor(s, image1.size, lambda i, j: _blend(s, m.value(i, j), a(i, j), b(i, j)))

    Image.new, ImageDraw.Draw, Image.composite = new, FakeDraw, composite
    ImageOps.invert = lambda im: im._derived(lambda v, i, j: s.lnot(v(i, j)))
    try:
        yield
    finally:
        Image.new, ImageDraw.Draw, ImageOps.invert, Image.composite = old


# ----------------------------------------------------------------- Shapely


class FakeGeo:
    """Point set: polygon, difference or union."""

    geom_type = "Polygon"

    def __init__(self, s, kind, *args):
        self._s, self._kind, self._args = s, kind, args

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        _unsupported(f"geometry.{name}")

    def buffer(self, d, *a, **k):
        if d != 0:
            _unsupported("buffer")
        return self

    def difference(self, o, **_k):
        return FakeGeo(self._s, "diff", self, o)

    def union(self, o, **_k):
        return FakeGeo(self._s, "union", self, o)

    def intersects(self, _o):
        _unsupported("intersects")

    __sub__ = difference
    __or__ = union

    def map(self, fn):
        if self._kind == "poly":
            return FakeGeo(self._s, "poly", fn(self._args[0]))
        return FakeGeo(self._s, self._kind, *[g.map(fn) for g in self._args])

    def value(self, px, py):
        s = self._s
        if self._kind == "poly":
            return in_polygon(s, self._args[0], px, py)
        vs = [g.value(px, py) for g in self._args]
        if self._kind == "diff":
            return s.land(vs[0], s.lnot(vs[1]))
        return s.lor(*vs) if vs else False


class FakeTree:
    def __init__(self, geoms, *_a, **_k):
        self.n = len(geoms)

    def query(self, geom, predicate=None, distance=None):
        if predicate not in (None, "intersects"):
            _unsupported("predicate")
        if isinstance(geom, FakeGeo):
            return np.arange(self.n)
        m = len(geom)
        return np.array([[i, j] for i in range(m) for j in range(self.n)], dtype=int).reshape(-1, 2).T


@contextlib.contextmanager
def shapely(s):
    if not s.sym:
        yield
        return
    import shapely as sh
    import shapely.affinity as af
    import shapely.ops as so
    import shapely.strtree as st

    def polygon(shell=None, holes=None):
        if holes:
            _unsupported("holes")
        pts = [tuple(p) for p in (shell if shell is not None else [])]
        return FakeGeo(s, "poly", pts)

    def transform(geom, fn, *_a, **_k):
        def one(pts):
            if not pts:
                return pts
            a = np.empty((len(pts), 2), dtype=object)
            for i, p in enumerate(pts):
                a[i, 0], a[i, 1] = p
            out = fn(a)
            return [tuple(r) for r in out]

        if isinstance(geom, FakeGeo):
            return geom.map(one)
        out = np.empty(len(geom), dtype=object)
        for i, g in enumerate(geom):
            out[i] = g.map(one)
        return out

    def translate(geom, xoff=0.0, yoff=0.0, zoff=0.0):
        return geom.map(lambda pts: [(x + xoff, y + yoff) for x, y in pts])

    def unary_union(gs, *_a, **_k):
        return FakeGeo(s, "union", *list(gs))

    def difference(a, b, *_a, **_k):
        return a.difference(b)

    patches = [(sh, "Polygon", polygon), (sh, "transform", transform), (sh, "unary_union", unary_union),
               (sh, "union_all", unary_union), (so, "unary_union", unary_union), (st, "STRtree", FakeTree),
               (sh, "STRtree", FakeTree), (sh, "difference", difference), (af, "translate", translate)]
    old = [(m, n, getattr(m, n)) for m, n, _ in patches]
    for m, n, v in patches:
        setattr(m, n, v)
    try:
        yield
    finally:
        for m, n, v in old:
            setattr(m, n, v)


# --------------------------------------------------------------- reference


class L:
    """Layer of a program: origin and operations in order.

    Operations: ("rect", cx, cy, w, h, negative), ("paste", L, x, y, negative),
    ("layer", L): definition of another layer at this place.
    """

    def __init__(self, name, origin=(0.0, 0.0), box=None):
        self.name, self.origin, self.box, self.ops = name, origin, box, []

    def rect(self, cx, cy, w, h, neg=False):
        self.ops.append(("rect", cx, cy, w, h, neg))
        return self

    def paste(self, layer, x, y, neg=False):
        self.ops.append(("paste", layer, x, y, neg))
        return self

    def define(self, layer):
        self.ops.append(("layer", layer))
        return self


def commands(layer):
    """Commands defining the layer."""
    box = None
    if layer.box is not None:
        x0, y0, x1, y1 = layer.box
        box = Box(min_x=x0, min_y=y0, max_x=x1, max_y=y1)
    out = [StartLayer(id=LayerID(id=layer.name), box=box, origin=Vector(x=layer.origin[0], y=layer.origin[1]))]
    for op in layer.ops:
        if op[0] == "rect":
            out.append(Shape.new_rectangle((op[1], op[2]), op[3], op[4], is_negative=op[5]))
        elif op[0] == "paste":
            out.append(PasteLayer(source_layer_id=LayerID(id=op[1].name), center=Vector(x=op[2], y=op[3]), is_negative=op[4]))
        else:
            out.extend(commands(op[1]))
    out.append(EndLayer())
    return out


def is_empty(layer):
    return layer.box is None and not any(
        op[0] == "rect" or (op[0] == "paste" and not is_empty(op[1])) for op in layer.ops
    )


def paint(s, layer, px, py, far, margin):
    """Value of the layer at the point (layer's coordinates); collects conditions in far."""
    v = False
    for op in layer.ops:
        if op[0] == "rect":
            _, cx, cy, w, h, neg = op
            for d in (px - cx - w / 2, px - cx + w / 2, py - cy - h / 2, py - cy + h / 2):
                far.append(s.lor(d > margin, d < -margin))
            c = s.land(px > cx - w / 2, px < cx + w / 2, py > cy - h / 2, py < cy + h / 2)
            v = bite(s, c, not neg, v)
        elif op[0] == "paste":
            _, src, x, y, neg = op
            c = paint(s, src, px - x + src.origin[0], py - y + src.origin[1], far, margin)
            v = bite(s, c, not neg, v)
    return v


def depth(layer):
    return 1 + max([0, *[depth(op[1]) for op in layer.ops if op[0] == "paste"]])


def box_of(s, layer):
    """(min_x, min_y, max_x, max_y) of a layer, None when it is empty."""
    if layer.box is not None:
        return layer.box
    boxes = []
    for op in layer.ops:
        if op[0] == "rect":
            _, cx, cy, w, h, _n = op
            boxes.append((cx - w / 2, cy - h / 2, cx + w / 2, cy + h / 2))
        elif op[0] == "paste":
            b = box_of(s, op[1])
            if b is not None:
                dx, dy = op[2] - op[1].origin[0], op[3] - op[1].origin[1]
                boxes.append((b[0] + dx, b[1] + dy, b[2] + dx, b[3] + dy))
    if not boxes:
        return None
    r = boxes[0]
    for b in boxes[1:]:
        r = tuple(
            s.ite(b[k] < r[k], b[k], r[k]) if k < 2 else s.ite(b[k] > r[k], b[k], r[k]) for k in range(4)
        )
    return r


def check_box(s, box, layer):
    want = box_of(s, layer) or (0.0, 0.0, 0.0, 0.0)
    for g, w, n in zip((box.min_x, box.min_y, box.max_x, box.max_y), want, ("left", "lower", "right", "upper")):
        s.eq(g, w, f"{n} side of the image")


class Gen:
    """Symbolic parts of programs."""

    def __init__(self, s):
        self.s, self.n = s, 0

    def name(self, k):
        self.n += 1
        return f"{k}{self.n}"

    def at(self, r=50):
        return self.s.real(self.name("x"), -r, r), self.s.real(self.name("y"), -r, r)

    def size(self, lo=0.5, hi=50):
        return self.s.real(self.name("w"), lo, hi), self.s.real(self.name("h"), lo, hi)

    def rect(self, layer, neg=None):
        x, y = self.at()
        w, h = self.size()
        if neg is None:
            neg = self.s.choice(self.name("neg"), [False, True])
        return layer.rect(x, y, w, h, neg)

    def paste(self, layer, src, neg=None):
        x, y = self.at()
        if neg is None:
            neg = self.s.choice(self.name("neg"), [False, True])
        return layer.paste(src, x, y, neg)

    def layer(self, name=None, origin=True):
        o = self.at(20) if origin else (0.0, 0.0)
        return L(name or self.name("layer"), o)


def programs(s, kind):
    """(layers to run in order, main layer)."""
    g = Gen(s)
    main = L(MAIN)
    if kind == "rects":
        for _ in range(3):
            g.rect(main)
        return [main], main
    if kind == "paste":
        a = g.layer()
        g.rect(a, False)
        g.rect(a)
        g.rect(main, False)
        g.paste(main, a)
        return [a, main], main
    if kind == "twice":
        a = g.layer()
        g.rect(a, False)
        g.paste(main, a, False)
        g.rect(main)
        g.paste(main, a)
        return [a, main], main
    if kind == "nested":
        b = g.layer()
        g.rect(b, False)
        a = g.layer()
        g.paste(a, b, False)
        g.rect(a)
        g.rect(main, False)
        g.paste(main, a)
        return [b, a, main], main
    if kind == "inner":  # layer defined while another one is open
        a = g.layer()
        g.rect(a, False)
        g.rect(main, False)
        main.define(a)
        g.rect(main)
        g.paste(main, a)
        return [main], main
    if kind == "empty":  # pastes of a layer with no content
        a = g.layer()
        g.paste(main, a, False)
        g.rect(main, False)
        main.define(b := g.layer())
        g.paste(main, b)
        g.rect(main)
        return [a, main], main
    if kind == "clear_first":
        a = g.layer()
        g.rect(a, True)
        g.rect(a, False)
        g.rect(main, True)
        g.rect(main, False)
        g.paste(main, a)
        return [a, main], main
    if kind == "boxed":  # layers of a given size
        x, y = g.at(20)
        w, h = g.size(1.0, 40)
        a = L("a", g.at(20), box=(x, y, x + w, y + h))
        rx, ry = g.at(60)
        rw, rh = g.size()
        s.assume(s.land(rx - rw / 2 >= x, rx + rw / 2 <= x + w, ry - rh / 2 >= y, ry + rh / 2 <= y + h))
        a.rect(rx, ry, rw, rh, False)
        x, y = g.at(50)
        w, h = g.size(1.0, 80)
        main.box = (x, y, x + w, y + h)
        g.rect(main)
        g.paste(main, a)
        return [a, main], main
    if kind == "boxed_in_auto":
        a = g.layer()
        x, y = g.at(20)
        w, h = g.size(1.0, 40)
        b = L("b", g.at(20), box=(x, y, x + w, y + h))
        b.rect(x + w / 2, y + h / 2, w / 2, h / 2, False)
        a.define(b)
        g.rect(a, False)
        g.paste(a, b)
        g.rect(main, False)
        g.paste(main, a, False)
        return [a, main], main
    if kind == "auto_in_boxed":
        x, y = g.at(50)
        w, h = g.size(1.0, 80)
        main.box = (x, y, x + w, y + h)
        g.rect(main, False)
        a = g.layer()
        main.define(a)
        g.rect(a, False)
        g.rect(main)
        g.paste(main, a)
        main.define(g.layer())
        g.rect(main)
        return [main], main
    if kind == "long":
        a = g.layer()
        g.rect(a, False)
        g.rect(a, True)
        g.rect(a, False)
        g.rect(main, False)
        g.paste(main, a, True)
        g.rect(main, False)
        g.paste(main, a)
        g.rect(main, True)
        g.paste(main, a, True)
        return [a, main], main
    if kind == "deep":
        c = g.layer()
        g.rect(c, False)
        b = g.layer()
        g.rect(b, False)
        g.paste(b, c)
        a = g.layer()
        g.rect(a, False)
        g.paste(a, b)
        g.paste(main, c, False)
        g.paste(main, a)
        g.paste(main, b)
        return [c, b, a, main], main
    if kind == "many":
        for k in range(6):
            g.rect(main, k % 3 == 1 if k != 4 else None)
        return [main], main
    raise AssertionError(kind)


KINDS = ("rects", "paste", "twice", "nested", "inner", "empty", "clear_first", "boxed", "boxed_in_auto",
         "auto_in_boxed", "long", "deep", "many")

"""Pillow rendering."""

from props import raster
from vf.api import scenario

from pygerber.vm.pillow import PillowVirtualMachine
from pygerber.vm.rvmc import RVMC

ASSUMPTIONS = [
    "numbers are exact reals; probe pixels are away from every edge of every placed object by more than two pixels plus one per layer nested",
    "Pillow's polygon filling, paste with mask, invert and transpose do what their documentation says (stand-ins in props/raster.py; the replay uses the real library)",
]


@scenario("V06", cases=[{"kind": k, "dpmm": 10} for k in raster.KINDS if k != "long"] + [{"kind": "paste", "dpmm": 25}, {"kind": "long", "dpmm": 10, "_tier": "thorough"}], weight=2,
          bounds="programs of up to 3 layers and 4 objects, all positions, sizes, origins, polarities; any pixel; 10 and 25 pixels per mm")
def pixels(s, kind, dpmm):
    layers, main = raster.programs(s, kind)
    i, j = s.int("i", 0, 10**4), s.int("j", 0, 10**4)
    x0, y0, x1, y1 = raster.box_of(s, main)
    # row 0 is the top of the image
    px = x0 + (i + 0.5) / dpmm
    py = y1 - (j + 0.5) / dpmm
    margin = (raster.depth(main) + 2.0) / dpmm
    far = []
    want = raster.paint(s, main, px, py, far, margin)
    s.assume(s.land(*far))
    s.assume(s.land(px < x1 - margin, py > y0 + margin))
    cmds = [c for layer in layers for c in raster.commands(layer)]
    with raster.pillow(s):
        result = PillowVirtualMachine(dpmm).run(RVMC(commands=cmds))
        w, h = result.image.size
        for got, real in ((w, (x1 - x0) * dpmm), (h, (y1 - y0) * dpmm)):
            s.le(real - 1.001, got, "image is not smaller than its content")
            s.le(got, real + 1.001, "image is not larger than its content")
        got = result.image.value(i, j) if s.sym else bool(result.image.getpixel((i, j)))
    s.check(s.lor(s.land(want, got), s.land(s.lnot(want), s.lnot(got))), "pixel is painted as the commands say")
    raster.check_box(s, result.main_box, main)

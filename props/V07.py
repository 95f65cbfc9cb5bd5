"""Shapely rendering."""

from props import raster
from vf.api import scenario

from pygerber.vm.rvmc import RVMC
from pygerber.vm.shapely import ShapelyVirtualMachine

ASSUMPTIONS = [
    "numbers are exact reals; probe points are more than 0.001 mm away from every edge",
    "Shapely's Polygon, transform, difference, union and STRtree do what their documentation says (stand-ins in props/raster.py; the replay uses the real library)",
]


@scenario("V07", cases=[{"kind": k} for k in raster.KINDS], weight=2,
          bounds="programs of up to 3 layers and 4 objects, all positions, sizes, origins, polarities; any probe point")
def points(s, kind):
    layers, main = raster.programs(s, kind)
    px, py = s.real("px", -250, 250), s.real("py", -250, 250)
    far = []
    want = raster.paint(s, main, px, py, far, 1e-3)
    s.assume(s.land(*far))
    cmds = [c for layer in layers for c in raster.commands(layer)]
    with raster.shapely(s):
        result = ShapelyVirtualMachine().run(RVMC(commands=cmds))
        if s.sym:
            got = result.shape.value(px, py)
        else:
            import shapely

            got = result.shape.intersects(shapely.Point(px, py))
    s.check(s.lor(s.land(want, got), s.land(s.lnot(want), s.lnot(got))), "point is painted as the commands say")
    raster.check_box(s, result.main_box, main)

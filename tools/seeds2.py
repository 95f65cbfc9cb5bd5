exec(open(__file__.replace("seeds2", "seeds1") if "__file__" in globals() else "/verif/tools/seeds1.py").read().split("SEEDS = {")[0])
SH = "vm/shapely/vm.py"
PV = "vm/pillow/vm.py"
VM = "vm/vm.py"
SHP = "vm/commands/shape.py"
VPRE = PRE + '''
from pygerber.vm.pillow import PillowVirtualMachine
from pygerber.vm.rvmc import RVMC
from pygerber.vm.commands import Arc, Line, Shape, StartLayer, EndLayer, PasteLayer
from pygerber.vm.types import Box, LayerID, Vector
def V(x, y): return Vector(x=float(x), y=float(y))
MAIN = LayerID(id="%main%")
def rect(cx, cy, w, h, neg=False):
    return Shape.new_rectangle((float(cx), float(cy)), float(w), float(h), is_negative=neg)
def shp(cmds): return ShapelyVirtualMachine().run(RVMC(commands=cmds))
def pil(cmds, dpmm=20): return PillowVirtualMachine(dpmm).run(RVMC(commands=cmds))
'''
SEEDS = {
"G05_single_row_step": dict(property="G05",
  edits=[("gerber/ast/nodes/aperture/SR_open.py", "return 0 if self.j is None else float(self.j)", "return 0 if self.j is None else abs(float(self.j))")],
  needs="a step and repeat block with a negative Y step",
  breaks="copies are placed above the original instead of below it",
  demo=PRE + '''
g = image("%ADD10C,1*%\\nD10*\\n%SRX1Y3I0J-5*%\\nX0Y0D03*\\n%SR*%\\nM02*\\n")
assert near(g.bounds, (-0.5, -10.5, 0.5, 0.5)), g.bounds
'''),
"V02_union_y": dict(property="V02",
  edits=[("vm/commands/shape_segments/arc.py", "if angle_y_minus < total_angle:", "if angle_y_minus < min(total_angle, 330):")],
  needs="a clockwise arc of more than 330 degrees whose lowest point comes last",
  breaks="the bounding box does not contain the lowest point of the arc",
  demo=VPRE + '''
import math
full = Arc(start=V(math.cos(math.radians(260)), math.sin(math.radians(260))), end=V(math.cos(math.radians(261)), math.sin(math.radians(261))), center=V(0, 0), clockwise=True)
assert abs(full.outer_box.min_y + 1) < 1e-6, full.outer_box
'''),
"V05_later_paste_origin": dict(property="V05",
  edits=[(VM, "                box = box + (layer.box + cmd.center - layer.origin)\n", "                box = box + (layer.box + (cmd.center - layer.origin) * 1.0 if cmd.is_negative is False else layer.box + cmd.center)\n")],
  needs="an automatically sized layer with a clear paste, not the first object, of a layer with an origin of its own",
  breaks="the layer's box is enlarged as if the pasted layer had its origin at zero",
  demo=VPRE + '''
r = shp([StartLayer(id=LayerID(id="a"), box=Box(min_x=0, min_y=0, max_x=4, max_y=2), origin=V(2, 1)), rect(2, 1, 4, 2), EndLayer(),
  StartLayer(id=MAIN, box=None, origin=V(0, 0)), rect(0, 0, 1, 1), PasteLayer(source_layer_id=LayerID(id="a"), center=V(10, 10), is_negative=True), EndLayer()])
b = r.main_box
assert near((b.min_x, b.min_y, b.max_x, b.max_y), (-0.5, -0.5, 12, 11)), b
'''),
"V06_paste_origin_y": dict(property="V06",
  edits=[(PV, "                    + source_layer.box.center.y\n                    - source_layer.origin.y\n                    - y_offset", "                    + source_layer.box.center.y\n                    - source_layer.origin.x\n                    - y_offset")],
  needs="pasting a layer whose origin has different X and Y",
  breaks="the pasted layer appears at the wrong height",
  demo=VPRE + '''
r = pil([StartLayer(id=LayerID(id="a"), box=Box(min_x=-1, min_y=-1, max_x=3, max_y=1), origin=V(1, 0)), rect(1, 0, 4, 2), EndLayer(),
  StartLayer(id=MAIN, box=Box(min_x=-10, min_y=-10, max_x=10, max_y=10), origin=V(0, 0)), PasteLayer(source_layer_id=LayerID(id="a"), center=V(0, 0), is_negative=False), EndLayer()])
im = r.get_image_no_style()
def at(x, y): return im.getpixel((int((x + 10) * 20), int((10 - y) * 20)))
assert at(0, 0.8) and at(0, -0.8) and not at(0, -1.5), (at(0, .8), at(0, -.8), at(0, -1.5))
'''),
"V07_negative_paste_first": dict(property="V07",
  edits=[(SH, "            for i, j in dest_idx:\n                self.layer.shape[j] = self.layer.shape[j].difference(", "            for i, j in dict(dest_idx.tolist()).items():\n                self.layer.shape[j] = self.layer.shape[j].difference(")],
  needs="a clear paste of a layer one of whose shapes overlaps two objects",
  breaks="only one of the overlapped objects is cleared",
  demo=VPRE + '''
r = shp([StartLayer(id=LayerID(id="a"), box=None, origin=V(0, 0)), rect(0, 0, 20, 1), EndLayer(),
  StartLayer(id=MAIN, box=None, origin=V(0, 0)), rect(-5, 0, 4, 4), rect(5, 0, 4, 4),
  PasteLayer(source_layer_id=LayerID(id="a"), center=V(0, 0), is_negative=True), EndLayer()])
assert abs(r.shape.area - (32 - 8)) < 1e-6, r.shape.area
'''),
"V08_ccw_wrap": dict(property="V08",
  edits=[(SH, "        else:\n            end_angle += FULL_ANGLE_DEGREES\n            angle_generator", "        else:\n            end_angle += FULL_ANGLE_DEGREES if end_angle < FULL_ANGLE_DEGREES / 2 else 0\n            angle_generator")],
  needs="a counterclockwise arc passing through 0 degrees which ends beyond 180 degrees (a sweep of more than half a turn)",
  breaks="the arc is replaced by a straight line to its end",
  demo=VPRE + '''
import math
a0, a1 = math.radians(300), math.radians(200)
s0, s1 = V(math.cos(a0), math.sin(a0)), V(math.cos(a1), math.sin(a1))
r = shp([StartLayer(id=MAIN, box=None, origin=V(0, 0)), Shape(commands=[Arc(start=s0, end=s1, center=V(0, 0), clockwise=False), Line(start=s1, end=s0)], is_negative=False), EndLayer()])
assert r.shape.contains(Point(0.5, 0.5)), r.shape.area
'''),
"G01_obround_square": dict(property="G01",
  edits=[(SHP, "        if width <= height:\n            # Shape is taller than wider", "        if width < height or (width > 0 and height / width > 0.98):\n            # Shape is taller than wider")],
  needs="an obround aperture which is wider than tall by less than two percent",
  breaks="the outline leaves the aperture's box: its top and bottom bulge out by up to one percent",
  demo=PRE + '''
g = image("%ADD10O,100X98.5*%\\nD10*\\nX0Y0D03*\\nM02*\\n")
assert near(g.bounds, (-50, -49.25, 50, 49.25), 0.05), g.bounds
assert abs(g.area - (3.14159265 * 49.25 ** 2 + 1.5 * 98.5)) < 20, g.area
assert not g.contains(Point(49.9, 8)), g.area
'''),
}

PRE = '''
from pygerber.gerber.parser import parse
from pygerber.gerber.compiler import compile
from pygerber.vm.shapely import ShapelyVirtualMachine
from shapely.geometry import Point
HEAD = "%FSLAX26Y26*%\\n%MOMM*%\\nG75*\\n"
def image(src, **kw):
    return ShapelyVirtualMachine().run(compile(parse(HEAD + src), **kw)).shape
def near(a, b, tol=1e-3):
    return len(a) == len(b) and all(abs(x - y) < tol for x, y in zip(a, b))
'''
C = "gerber/compiler/compiler.py"
S = "gerber/ast/state_tracking_visitor.py"
SEEDS = {
"G07_near_rotations": dict(property="G07",
  edits=[("vm/types/matrix.py", 'return str(self.mtx).encode("utf-8").hex()', 'return str(self.mtx[0]).encode("utf-8").hex()')],
  needs="the same aperture flashed twice, under transformations with the same X row: unmirrored and mirrored in Y",
  breaks="the second flash reuses the aperture image transformed for the first one",
  demo=PRE + '''
g = image("%AMT*\\n4,1,3,0,0,5,0,0,5,0,0,0*%\\n%ADD10T*%\\nD10*\\nX0Y0D03*\\n%LMY*%\\nX10000000Y0D03*\\nM02*\\n")
assert near(g.bounds, (0, -5, 15, 5)), g.bounds
'''),
"G03_full_circle_axis": dict(property="G03",
  edits=[(C, "        if start_point == end_point:\n            mid_point =", "        if start_point == end_point and self.coordinate_i != 0:\n            mid_point =")],
  needs="a full circle draw whose centre lies straight above or below its start point",
  breaks="a full circle with I equal to zero disappears except for its end caps",
  demo=PRE + '''
r = compile(parse(HEAD + "%ADD10C,0.1*%\\nD10*\\nG03*\\nX0Y0D02*\\nX0Y0I0J2000000D01*\\nM02*\\n"))
ys = [seg.end.y for c in r.commands for seg in getattr(c, "commands", [])]
assert max(ys) > 3.9, ys
'''),
"G06_nested_center": dict(property="G06",
  edits=[(C, "                        center=cmd.center.transform(transform_matrix),\n                        is_negative=cmd.is_negative,\n                        metadata=cmd.metadata,\n                    )\n                )\n\n            else:\n                raise NotImplementedError(type(cmd))\n\n        return CommandBuffer(\n            layer_id,",
   "                        center=(\n                            cmd.center.transform(transform_matrix)\n                            if self.state.transform.mirroring is Mirroring.NONE\n                            else cmd.center\n                        ),\n                        is_negative=cmd.is_negative,\n                        metadata=cmd.metadata,\n                    )\n                )\n\n            else:\n                raise NotImplementedError(type(cmd))\n\n        return CommandBuffer(\n            layer_id,"),
         (C, "from pygerber.vm.types import Box, LayerID, Matrix3x3, Vector", "from pygerber.gerber.ast.nodes.enums import Mirroring\nfrom pygerber.vm.types import Box, LayerID, Matrix3x3, Vector")],
  needs="a block aperture with a flash away from its origin, flashed mirrored",
  breaks="flashes inside of a mirrored block stay where they are in the unmirrored block",
  demo=PRE + '''
g = image("%ADD10C,1*%\\n%ABD20*%\\nD10*\\nX5000000Y0D03*\\n%AB*%\\nD20*\\n%LMX*%\\nX0Y0D03*\\nM02*\\n")
assert near(g.bounds, (-5.5, -0.5, -4.5, 0.5)), g.bounds
'''),
"G04_region_polarity": dict(property="G04",
  edits=[(S, "        self._update_coordinates()\n        if self.state.is_region:\n            self.on_flush_region()\n        return node", "        if self.state.is_region:\n            self.on_flush_region()\n            if node.x is not None and node.y is None:\n                return node\n        self._update_coordinates()\n        return node")],
  needs="a region with a move which omits Y, followed by a contour",
  breaks="the second contour starts at the end of the first one instead of at the move's target",
  demo=PRE + '''
g = image("G01*\\nG36*\\nX0Y0D02*\\nX1000000D01*\\nY1000000D01*\\nX0D01*\\nY0D01*\\nX5000000D02*\\nX6000000Y1000000D01*\\nX5000000D01*\\nY0D01*\\nG37*\\nM02*\\n")
assert abs(g.area - 1.5) < 1e-6, g.area
assert not g.contains(Point(3, 0.1)), g
'''),
"C05_attrs_shared": dict(property="C05",
  edits=[(S, "        self.state.apertures.apertures[node.aperture_id] = node\n        self.state.apertures.per_aperture_attributes[node.aperture_id] = (\n            self.state.attributes.aperture_attributes.copy()\n        )", "        self.state.apertures.apertures[node.aperture_id] = node\n        self.state.apertures.per_aperture_attributes[node.aperture_id] = (\n            self.state.attributes.aperture_attributes\n        )")],
  needs="an attribute command between the definition of an aperture and the end of the file",
  breaks="attributes set or deleted after an aperture definition change the attributes of the aperture",
  demo='''
from pygerber.gerber.parser import parse
from pygerber.gerber.ast.state_tracking_visitor import StateTrackingVisitor
v = StateTrackingVisitor()
parse("%FSLAX26Y26*%\\n%MOMM*%\\n%TAmine,1*%\\n%ADD10C,1*%\\n%TD*%\\n%TAother,2*%\\n%ADD11C,1*%\\nM02*\\n").visit(v)
per = v.state.apertures.per_aperture_attributes
assert list(per["D10"]) == ["mine"], per["D10"]
assert list(per["D11"]) == ["other"], per["D11"]
'''),
"C03_region_end_ccw": dict(property="C03",
  edits=[(S, '        """Handle end of region."""\n        self.state.is_region = False\n        self._dispatch_d01_handler = self._dispatch_d01_handler_non_region\n        self._dispatch_d01_handler()', '        """Handle end of region."""\n        handler = self._on_d01_handler\n        self.state.is_region = False\n        self._dispatch_d01_handler = self._dispatch_d01_handler_non_region\n        self._dispatch_d01_handler()\n        if self.state.plot_mode is PlotMode.CCW_ARC:\n            self._on_d01_handler = handler')],
  needs="a region ended in counterclockwise mode, followed by an arc without another G03",
  breaks="arcs drawn after the region are taken as region segments",
  demo=PRE + '''
g = image("%ADD10C,0.1*%\\nD10*\\nG01*\\nG36*\\nX0Y0D02*\\nX1000000D01*\\nG03*\\nX0Y0I-500000J0D01*\\nG37*\\nX10000000D02*\\nX12000000Y0I1000000J0D01*\\nM02*\\n")
assert g.distance(Point(12, 0)) < 0.01, g.bounds
'''),
"C01_trailing_sign": dict(property="C01",
  edits=[(S, "        if len(coordinate_str) > (integer + decimal):\n            raise PackedCoordinateTooLongError(coordinate, integer, decimal)\n\n        if len", "        if len(coordinate_str) > (integer + decimal):\n            coordinate_str = coordinate_str[: integer + decimal + 1]\n            if coordinate_str[0] != \"0\":\n                raise PackedCoordinateTooLongError(coordinate, integer, decimal)\n            coordinate_str = coordinate_str[1:]\n\n        if len")],
  needs="a packed coordinate with more digits than the format allows and a leading zero",
  breaks="overlong coordinates are truncated silently",
  demo='''
from pygerber.gerber.ast.state_tracking_visitor import CoordinateFormat
from pygerber.gerber.ast.nodes.enums import Zeros
from pygerber.gerber.ast.nodes.types import PackedCoordinateStr
from pygerber.gerber.ast.errors import PackedCoordinateTooLongError
f = CoordinateFormat(zeros=Zeros.SKIP_LEADING, x_integral=2, x_decimal=3, y_integral=2, y_decimal=3)
try:
    v = f.unpack_x(PackedCoordinateStr("0123456"))
except PackedCoordinateTooLongError:
    v = None
assert v is None, v
'''),
"C02_pack_negative": dict(property="C02",
  edits=[(S, "            integer_str = integer_str.rjust(integer, \"0\")\n", "            integer_str = integer_str.rjust(integer if not sign else 1, \"0\")\n")],
  needs="packing a negative coordinate with trailing zero omission and fewer integer digits than the format has",
  breaks="negative coordinates are packed without their leading zeros and decode to another value",
  demo='''
from pygerber.gerber.ast.state_tracking_visitor import CoordinateFormat
from pygerber.gerber.ast.nodes.enums import Zeros
f = CoordinateFormat(zeros=Zeros.SKIP_TRAILING, x_integral=3, x_decimal=3, y_integral=3, y_decimal=3)
for v in (1.5, -1.5, -12.25, -123.5):
    assert abs(f.unpack_x(f.pack_x(v)) - v) < 1e-6, v
'''),
}

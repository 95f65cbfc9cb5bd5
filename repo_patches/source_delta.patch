From 94c0faf6ebad3d3efa4c6f4891b5731ec860ef4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:36 +0000
Subject: [PATCH 01/44] fix: stop at M00/M02 unless ignore_program_stop is set
 (flag was inverted)

---
 src/pygerber/gerber/ast/state_tracking_visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/ast/state_tracking_visitor.py b/src/pygerber/gerber/ast/state_tracking_visitor.py
index 94467ce..54d1c26 100644
--- a/src/pygerber/gerber/ast/state_tracking_visitor.py
+++ b/src/pygerber/gerber/ast/state_tracking_visitor.py
@@ -948,6 +948,6 @@ class StateTrackingVisitor(AstVisitor):
     def on_exception(self, node: Node, exception: Exception) -> bool:  # noqa: ARG002
         """Handle exception."""
         if isinstance(exception, ProgramStop):
-            return bool(self._ignore_program_stop)
+            return not self._ignore_program_stop
 
         return True
-- 
2.43.0


From 9d7db7adea06e8d077b7af1c7c8a87ba19b2306b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:36 +0000
Subject: [PATCH 02/44] fix: do not displace step and repeat copies by the last
 coordinate

---
 src/pygerber/gerber/compiler/compiler.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index 72f10f7..912553e 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -240,10 +240,8 @@ class Compiler(StateTrackingVisitor):
 
         for x in range(node.open.x_repeats):
             for y in range(node.open.y_repeats):
-                x_coordinate = self.coordinate_x + (x * x_delta)
-                y_coordinate = self.coordinate_y + (y * y_delta)
                 tmp_buffer = self._apply_transform_to_buffer_non_recursive_tmp(
-                    buffer, Matrix3x3.new_translate(x=x_coordinate, y=y_coordinate)
+                    buffer, Matrix3x3.new_translate(x=x * x_delta, y=y * y_delta)
                 )
 
                 self._expand_buffer_to_current_buffer(tmp_buffer)
-- 
2.43.0


From c43b9a9c7717154ebc1b970d3a93074875652594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:36 +0000
Subject: [PATCH 03/44] fix: derive arc orientation after a transform from the
 determinant

---
 src/pygerber/vm/commands/shape_segments/arc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/vm/commands/shape_segments/arc.py b/src/pygerber/vm/commands/shape_segments/arc.py
index 616851d..d2af397 100644
--- a/src/pygerber/vm/commands/shape_segments/arc.py
+++ b/src/pygerber/vm/commands/shape_segments/arc.py
@@ -109,7 +109,9 @@ class Arc(ShapeSegment):
             center=self.center.transform(transform),
             clockwise=(
                 self.clockwise
-                if transform[0][0] * transform[1][1] > 0
+                if (transform[0][0] * transform[1][1])
+                - (transform[0][1] * transform[1][0])
+                > 0
                 else not self.clockwise
             ),
         )
-- 
2.43.0


From c4c6164450bd98d8f69374aecb0c401d11dde49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:36 +0000
Subject: [PATCH 04/44] fix: draw all edges of a rotated regular polygon

---
 src/pygerber/vm/commands/shape.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pygerber/vm/commands/shape.py b/src/pygerber/vm/commands/shape.py
index 1b460fa..2263b55 100644
--- a/src/pygerber/vm/commands/shape.py
+++ b/src/pygerber/vm/commands/shape.py
@@ -234,10 +234,8 @@ class Shape(Command):
         local_vertex_offset = local_vertex_offset.transform(
             Matrix3x3.new_rotate(base_rotation)
         )
-        current_angle = base_rotation
 
-        while current_angle < FULL_ANGLE_DEGREES:
-            current_angle += angle_step
+        for _ in range(vertices_count):
             new_local_vertex_offset = local_vertex_offset.transform(transform_matrix)
 
             commands.append(
-- 
2.43.0


From c07b9a035ed28ebca8cb8819b577e95fe2ad4e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:36 +0000
Subject: [PATCH 05/44] fix: apply rotation of the macro polygon primitive once

---
 src/pygerber/gerber/compiler/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index 912553e..f4c540a 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -908,7 +908,7 @@ class MacroEvalVisitor(AstVisitor):
             (center_x, center_y),
             diameter,
             number_of_vertices,
-            rotation,
+            0.0,
             is_negative=(exposure == 0),
             metadata=self._metadata,
         )
-- 
2.43.0


From c7bd4377b73332cabd11cfec24fda6e7223bd244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:36 +0000
Subject: [PATCH 06/44] fix: return metadata of regions

---
 src/pygerber/gerber/compiler/compiler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index f4c540a..5742c30 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -608,6 +608,7 @@ class Compiler(StateTrackingVisitor):
             metadata.update(
                 _convert_attributes_to_metadata(self.state.attributes.object_attributes)
             )
+            return metadata
         return None
 
     def on_flush_region(self) -> None:
-- 
2.43.0


From 7a90edb8c883839e0001e4a101381440bcd49cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:36 +0000
Subject: [PATCH 07/44] fix: put both end caps of a full circle arc on its
 start point

---
 src/pygerber/gerber/compiler/compiler.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index 5742c30..cab6258 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -471,14 +471,12 @@ class Compiler(StateTrackingVisitor):
             )
         )
         if start_point == end_point:
-            length = Vector(x=self.coordinate_i, y=self.coordinate_j).length()
-            start_point = (center_x - length, center_y)
-            end_point = (center_x + length, center_y)
+            mid_point = (center_x + self.coordinate_i, center_y + self.coordinate_j)
 
             self._append_shape_to_current_buffer(
                 factory_method(
                     start_point,
-                    end_point,
+                    mid_point,
                     center,
                     thickness,
                     is_negative=self.is_negative,
@@ -487,7 +485,7 @@ class Compiler(StateTrackingVisitor):
             )
             self._append_shape_to_current_buffer(
                 factory_method(
-                    end_point,
+                    mid_point,
                     start_point,
                     center,
                     thickness,
-- 
2.43.0


From 6d5ab05802fc5f0dbb2f023b7f909b82e3078bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:36 +0000
Subject: [PATCH 08/44] fix: submit a layer used by several layers only once

---
 src/pygerber/gerber/compiler/compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index cab6258..d7640d9 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -775,6 +775,8 @@ class Compiler(StateTrackingVisitor):
 
         def _(buffer: CommandBuffer) -> None:
             for dependency_id in buffer.depends_on:
+                if dependency_id in buffer_submit_order:
+                    continue
                 dependency = self._get_buffer(dependency_id)
                 _(dependency)
 
-- 
2.43.0


From f78f166b64b237c122150626bc0d4b876e717d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:10 +0000
Subject: [PATCH 09/44] fix: toggle polarity of block contents flashed with
 clear polarity

---
 src/pygerber/gerber/compiler/compiler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index d7640d9..d68862e 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -734,6 +734,11 @@ class Compiler(StateTrackingVisitor):
         tmp_buffer = self._apply_transform_to_buffer_non_recursive_tmp(
             buffer, Matrix3x3.new_translate(x=self.coordinate_x, y=self.coordinate_y)
         )
+        if self.is_negative:
+            tmp_buffer.commands = [
+                cmd.model_copy(update={"is_negative": not cmd.is_negative})
+                for cmd in tmp_buffer.commands
+            ]
 
         self._expand_buffer_to_current_buffer(tmp_buffer)
 
-- 
2.43.0


From 73afa58a4b02f7f198e11c8f5c07c02fab752c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:10 +0000
Subject: [PATCH 10/44] fix: give each thermal primitive of each aperture a
 layer of its own

---
 src/pygerber/gerber/compiler/compiler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index d68862e..a9a5537 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -1018,7 +1018,10 @@ class MacroEvalVisitor(AstVisitor):
         if thickness <= 0:
             return node
 
-        aperture_id = ApertureIdStr(f"%%Code7%{id(node)}%{time.time():.0f}")
+        aperture_id = ApertureIdStr(
+            f"%%Code7%{self._aperture_buffer.id_str}"
+            f"%{len(self._aperture_buffer.commands)}"
+        )
         aperture_buffer = self._compiler._create_aperture_buffer(  # noqa: SLF001
             aperture_id
         )
-- 
2.43.0


From 8fd8234bcb0caa597604f13189428e45f19bb365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:10 +0000
Subject: [PATCH 11/44] fix: draw innermost moire ring as a disc when it
 reaches the center

---
 src/pygerber/gerber/compiler/compiler.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index a9a5537..a8b800b 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -969,10 +969,16 @@ class MacroEvalVisitor(AstVisitor):
             current_inner_diameter = outer_diameter - (ring_thickness * 2)
 
             for _ in range(int(max_ring_count)):
-                if current_outer_diameter <= ring_thickness:
+                if current_outer_diameter <= 0:
+                    break
+
+                if current_inner_diameter <= 0:
                     shapes.append(
                         Shape.new_circle(
-                            center, current_outer_diameter, is_negative=False
+                            center,
+                            current_outer_diameter,
+                            is_negative=False,
+                            metadata=self._metadata,
                         )
                     )
                     break
@@ -983,6 +989,7 @@ class MacroEvalVisitor(AstVisitor):
                         current_outer_diameter,
                         current_inner_diameter,
                         is_negative=False,
+                        metadata=self._metadata,
                     )
                 )
                 current_outer_diameter -= diameter_delta
-- 
2.43.0


From 26fdb1ed519b63eb461ae8f0868f5d67bfbcda62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:53 +0000
Subject: [PATCH 12/44] fix: evaluate macro variables which were not assigned
 to zero

---
 src/pygerber/gerber/ast/expression_eval_visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/ast/expression_eval_visitor.py b/src/pygerber/gerber/ast/expression_eval_visitor.py
index 056c604..5203cde 100644
--- a/src/pygerber/gerber/ast/expression_eval_visitor.py
+++ b/src/pygerber/gerber/ast/expression_eval_visitor.py
@@ -103,7 +103,7 @@ class ExpressionEvalVisitor(AstVisitor):
 
     def on_variable(self, node: Variable) -> Variable:
         """Handle `Variable` node."""
-        self.return_value = self.scope[node.variable]
+        self.return_value = self.scope.get(node.variable, Double(0.0))
         return node
 
     def on_constant(self, node: Constant) -> Constant:
-- 
2.43.0


From c599794d677bb944d97583a1cbfddfc364646626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:10 +0000
Subject: [PATCH 13/44] fix: apply aperture scaling to draws

---
 src/pygerber/gerber/compiler/compiler.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index a8b800b..d348851 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -193,21 +193,24 @@ class Compiler(StateTrackingVisitor):
 
     def _get_line_thickness(self, line_direction: Vector) -> float:
         current_aperture = self.state.current_aperture
+        scaling = self.state.transform.scaling
         if isinstance(current_aperture, ADC):
-            return current_aperture.diameter
+            return current_aperture.diameter * scaling
 
         if isinstance(current_aperture, (ADR, ADO)):
             angle = line_direction.angle_between(Vector.unit.x)
             sin_angle = sin(radians(-angle))
             cos_angle = cos(radians(-angle))
 
-            return Vector(
-                x=current_aperture.width * cos_angle,
-                y=current_aperture.height * sin_angle,
-            ).length()
+            return scaling * (
+                Vector(
+                    x=current_aperture.width * cos_angle,
+                    y=current_aperture.height * sin_angle,
+                ).length()
+            )
 
         if isinstance(current_aperture, ADP):
-            return current_aperture.outer_diameter
+            return current_aperture.outer_diameter * scaling
 
         raise NotImplementedError(type(current_aperture))
 
-- 
2.43.0


From 7a9914ce50a8da416ae746435d813905e9dd714d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:44 +0000
Subject: [PATCH 14/44] fix: do not keep I and J offsets of an arc for the next
 one

---
 src/pygerber/gerber/ast/state_tracking_visitor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pygerber/gerber/ast/state_tracking_visitor.py b/src/pygerber/gerber/ast/state_tracking_visitor.py
index 54d1c26..dd61713 100644
--- a/src/pygerber/gerber/ast/state_tracking_visitor.py
+++ b/src/pygerber/gerber/ast/state_tracking_visitor.py
@@ -586,6 +586,9 @@ class StateTrackingVisitor(AstVisitor):
         super().on_d01(node)
         self._on_d01_handler(node)
         self._update_coordinates()
+        # I and J are not modal, omitted offset is 0.
+        self.state.coordinate_i = None
+        self.state.coordinate_j = None
         return node
 
     def on_draw_line(self, node: D01) -> None:
-- 
2.43.0


From f8a719b98341f72c2a5bc823cc6f802265a2c5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:01 +0000
Subject: [PATCH 15/44] fix: bounding box of counterclockwise full circle arc

---
 src/pygerber/vm/commands/shape_segments/arc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/vm/commands/shape_segments/arc.py b/src/pygerber/vm/commands/shape_segments/arc.py
index d2af397..b28324f 100644
--- a/src/pygerber/vm/commands/shape_segments/arc.py
+++ b/src/pygerber/vm/commands/shape_segments/arc.py
@@ -84,7 +84,7 @@ class Arc(ShapeSegment):
             self.get_relative_end_point(),
         ]
         if not self.clockwise:
-            total_angle = 360 - total_angle
+            total_angle = 360 - total_angle % 360
             angle_x_plus = 360 - angle_x_plus
             angle_y_minus = 360 - angle_y_minus
             angle_x_minus = 360 - angle_x_minus
-- 
2.43.0


From 84cf009ac5cb2ea8def00452d07eb01b39cab793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:41 +0000
Subject: [PATCH 16/44] fix: render arcs which end where they start as full
 circles

---
 src/pygerber/vm/pillow/vm.py  | 5 ++++-
 src/pygerber/vm/shapely/vm.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/vm/pillow/vm.py b/src/pygerber/vm/pillow/vm.py
index b57a680..6d6680a 100644
--- a/src/pygerber/vm/pillow/vm.py
+++ b/src/pygerber/vm/pillow/vm.py
@@ -381,7 +381,10 @@ class PillowVirtualMachine(VirtualMachine):
         assert start_angle < FULL_ANGLE_DEGREES
         assert end_angle < FULL_ANGLE_DEGREES
 
-        angle_delta = abs(start_angle - end_angle)
+        if start_angle == end_angle and not command.clockwise:
+            end_angle += FULL_ANGLE_DEGREES
+
+        angle_delta = abs(start_angle - end_angle) or FULL_ANGLE_DEGREES
         angle_length = (angle_delta / 360) * (command.get_radius() * 2 * math.pi)
         angle_length_pixels = self.to_pixel(angle_length)
         segment_count = self.angle_length_to_segment_count(angle_length_pixels)
diff --git a/src/pygerber/vm/shapely/vm.py b/src/pygerber/vm/shapely/vm.py
index 84e6113..cd8dc72 100644
--- a/src/pygerber/vm/shapely/vm.py
+++ b/src/pygerber/vm/shapely/vm.py
@@ -317,7 +317,10 @@ class ShapelyVirtualMachine(VirtualMachine):
         assert start_angle < FULL_ANGLE_DEGREES
         assert end_angle < FULL_ANGLE_DEGREES
 
-        angle_delta = abs(start_angle - end_angle)
+        if start_angle == end_angle and not command.clockwise:
+            end_angle += FULL_ANGLE_DEGREES
+
+        angle_delta = abs(start_angle - end_angle) or FULL_ANGLE_DEGREES
         angle_length = (angle_delta / 360) * (command.get_radius() * 2 * math.pi)
         segment_count = self.angle_length_to_segment_count(angle_length)
 
-- 
2.43.0


From bf92816ec310c1b9c54eead362b9b4253d9d3937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:45 +0000
Subject: [PATCH 17/44] fix: bound number of points of arcs passing through 0
 degrees

---
 src/pygerber/vm/pillow/vm.py  | 6 +++++-
 src/pygerber/vm/shapely/vm.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/vm/pillow/vm.py b/src/pygerber/vm/pillow/vm.py
index 6d6680a..ab61de5 100644
--- a/src/pygerber/vm/pillow/vm.py
+++ b/src/pygerber/vm/pillow/vm.py
@@ -384,7 +384,11 @@ class PillowVirtualMachine(VirtualMachine):
         if start_angle == end_angle and not command.clockwise:
             end_angle += FULL_ANGLE_DEGREES
 
-        angle_delta = abs(start_angle - end_angle) or FULL_ANGLE_DEGREES
+        angle_delta = abs(start_angle - end_angle)
+        if command.clockwise == (start_angle <= end_angle):
+            # Arc passes through 0 degrees, avoid steps much smaller than necessary.
+            angle_delta = max(angle_delta, FULL_ANGLE_DEGREES - angle_delta)
+
         angle_length = (angle_delta / 360) * (command.get_radius() * 2 * math.pi)
         angle_length_pixels = self.to_pixel(angle_length)
         segment_count = self.angle_length_to_segment_count(angle_length_pixels)
diff --git a/src/pygerber/vm/shapely/vm.py b/src/pygerber/vm/shapely/vm.py
index cd8dc72..2df9069 100644
--- a/src/pygerber/vm/shapely/vm.py
+++ b/src/pygerber/vm/shapely/vm.py
@@ -320,7 +320,11 @@ class ShapelyVirtualMachine(VirtualMachine):
         if start_angle == end_angle and not command.clockwise:
             end_angle += FULL_ANGLE_DEGREES
 
-        angle_delta = abs(start_angle - end_angle) or FULL_ANGLE_DEGREES
+        angle_delta = abs(start_angle - end_angle)
+        if command.clockwise == (start_angle <= end_angle):
+            # Arc passes through 0 degrees, avoid steps much smaller than necessary.
+            angle_delta = max(angle_delta, FULL_ANGLE_DEGREES - angle_delta)
+
         angle_length = (angle_delta / 360) * (command.get_radius() * 2 * math.pi)
         segment_count = self.angle_length_to_segment_count(angle_length)
 
-- 
2.43.0


From 8d3630e6c50797ea863c88b460e4b57aacdaf744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:25 +0000
Subject: [PATCH 18/44] fix: restore command handlers after an empty layer

---
 src/pygerber/vm/vm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pygerber/vm/vm.py b/src/pygerber/vm/vm.py
index d6d5752..1bfa985 100644
--- a/src/pygerber/vm/vm.py
+++ b/src/pygerber/vm/vm.py
@@ -262,6 +262,11 @@ class VirtualMachine(CommandVisitor):
             if box is None:
                 if self._fail_on_empty_auto_sized_layer:
                     raise EmptyAutoSizedLayerNotAllowedError(top_layer.layer_id)
+
+                if self.is_layer_stack_empty():
+                    self.set_eager_handlers()
+                else:
+                    self.set_handlers_for_layer(self.layer)
                 return
 
             new_layer = self.create_eager_layer(
-- 
2.43.0


From 04479a4a505c1c73891f8bd3916e11c77986909f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:37 +0000
Subject: [PATCH 19/44] fix: allow use of layers with no content

---
 src/pygerber/vm/pillow/vm.py  |  8 ++++++++
 src/pygerber/vm/shapely/vm.py |  8 ++++++++
 src/pygerber/vm/vm.py         | 19 ++++++++++++++++++-
 3 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/vm/pillow/vm.py b/src/pygerber/vm/pillow/vm.py
index ab61de5..1e88638 100644
--- a/src/pygerber/vm/pillow/vm.py
+++ b/src/pygerber/vm/pillow/vm.py
@@ -474,6 +474,9 @@ class PillowVirtualMachine(VirtualMachine):
         """Visit `PasteLayer` command."""
         source_layer = self.get_layer(command.source_layer_id)
 
+        if self.is_empty_layer(source_layer):
+            return
+
         if isinstance(source_layer, PillowDeferredLayer):
             raise PasteDeferredLayerNotAllowedError(command.source_layer_id)
 
@@ -531,6 +534,11 @@ class PillowVirtualMachine(VirtualMachine):
                 Box(min_x=0, min_y=0, max_x=0, max_y=0), Image.new("1", (1, 1), 0)
             )
 
+        if self.is_empty_layer(layer):
+            return PillowResult(
+                Box(min_x=0, min_y=0, max_x=0, max_y=0), Image.new("1", (1, 1), 0)
+            )
+
         assert isinstance(layer, PillowEagerLayer)
         return PillowResult(
             layer.box, layer.image.transpose(Image.Transpose.FLIP_TOP_BOTTOM)
diff --git a/src/pygerber/vm/shapely/vm.py b/src/pygerber/vm/shapely/vm.py
index 2df9069..4bde8e1 100644
--- a/src/pygerber/vm/shapely/vm.py
+++ b/src/pygerber/vm/shapely/vm.py
@@ -381,6 +381,9 @@ class ShapelyVirtualMachine(VirtualMachine):
         """Visit `PasteLayer` command."""
         source_layer = self.get_layer(command.source_layer_id)
 
+        if self.is_empty_layer(source_layer):
+            return
+
         if isinstance(source_layer, ShapelyDeferredLayer):
             raise PasteDeferredLayerNotAllowedError(command.source_layer_id)
 
@@ -425,5 +428,10 @@ class ShapelyVirtualMachine(VirtualMachine):
         if layer is None:
             raise NoMainLayerError
 
+        if self.is_empty_layer(layer):
+            return ShapelyResult(
+                Box(min_x=0, min_y=0, max_x=0, max_y=0), sh.unary_union([])
+            )
+
         assert isinstance(layer, ShapelyEagerLayer)
         return ShapelyResult(layer.box, sh.unary_union(layer.shape))
diff --git a/src/pygerber/vm/vm.py b/src/pygerber/vm/vm.py
index 1bfa985..5fbb0bd 100644
--- a/src/pygerber/vm/vm.py
+++ b/src/pygerber/vm/vm.py
@@ -290,10 +290,24 @@ class VirtualMachine(CommandVisitor):
         # interrupted process of creating another eager/deferred layer.
         self.set_handlers_for_layer(self.layer)
 
+    def is_empty_layer(self, layer: Layer) -> bool:
+        """Check if layer is a finished auto sized layer with no content."""
+        return isinstance(layer, DeferredLayer) and not any(
+            layer is unfinished for unfinished in self._layer_stack
+        )
+
     def _calculate_deferred_layer_box(
         self, deferred_layer: DeferredLayer
     ) -> Optional[Box]:
-        commands = deferred_layer.commands
+        # Empty layers do not contribute to the size of layers they are pasted into.
+        commands = [
+            cmd
+            for cmd in deferred_layer.commands
+            if not (
+                isinstance(cmd, PasteLayer)
+                and self.is_empty_layer(self.get_layer(cmd.source_layer_id))
+            )
+        ]
         box: Optional[Box] = None
 
         if len(commands) == 0:
@@ -341,5 +355,8 @@ class VirtualMachine(CommandVisitor):
                 raise NoMainLayerError
             return Result(Box(min_x=0, min_y=0, max_x=0, max_y=0))
 
+        if self.is_empty_layer(layer):
+            return Result(Box(min_x=0, min_y=0, max_x=0, max_y=0))
+
         assert isinstance(layer, EagerLayer)
         return Result(layer.box)
-- 
2.43.0


From 850dc18871520a78a0544e1adb23572dd30a0843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:51 +0000
Subject: [PATCH 20/44] fix: render layers of zero width or height with Pillow

---
 src/pygerber/vm/pillow/vm.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/vm/pillow/vm.py b/src/pygerber/vm/pillow/vm.py
index 1e88638..431c3eb 100644
--- a/src/pygerber/vm/pillow/vm.py
+++ b/src/pygerber/vm/pillow/vm.py
@@ -323,8 +323,8 @@ class PillowVirtualMachine(VirtualMachine):
 
     def create_eager_layer(self, layer_id: LayerID, origin: Vector, box: Box) -> Layer:
         """Create new eager layer instances (factory method)."""
-        assert box.width > 0
-        assert box.height > 0
+        assert box.width >= 0
+        assert box.height >= 0
         return PillowEagerLayer(self.dpmm, layer_id, box, origin)
 
     def create_deferred_layer(self, layer_id: LayerID, origin: Vector) -> Layer:
@@ -540,6 +540,13 @@ class PillowVirtualMachine(VirtualMachine):
             )
 
         assert isinstance(layer, PillowEagerLayer)
+        if 0 in layer.pixel_size:
+            # Images with no pixels can't be saved.
+            width, height = layer.pixel_size
+            return PillowResult(
+                layer.box, Image.new("1", (max(width, 1), max(height, 1)), 0)
+            )
+
         return PillowResult(
             layer.box, layer.image.transpose(Image.Transpose.FLIP_TOP_BOTTOM)
         )
-- 
2.43.0


From 3070c82b7d68bf609f3f3fd9303e24274526f3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:30 +0000
Subject: [PATCH 21/44] fix: keep arcs from vanishing because of nearly
 coincident points

---
 src/pygerber/vm/shapely/vm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pygerber/vm/shapely/vm.py b/src/pygerber/vm/shapely/vm.py
index 4bde8e1..e140124 100644
--- a/src/pygerber/vm/shapely/vm.py
+++ b/src/pygerber/vm/shapely/vm.py
@@ -371,11 +371,12 @@ class ShapelyVirtualMachine(VirtualMachine):
         apply_delta: Callable[[float, float], float],
         compare_angles: Callable[[float, float], bool],
     ) -> Generator[float, None, None]:
-        current_angle = start
-        while compare_angles(current_angle, end):
+        # Start and end point of the arc are known exactly and added by the caller,
+        # points which differ from them only by rounding error make polygon invalid.
+        current_angle = apply_delta(start, delta)
+        while compare_angles(apply_delta(current_angle, delta * 1e-3), end):
             yield current_angle
             current_angle = apply_delta(current_angle, delta)
-        yield end
 
     def on_paste_layer_eager(self, command: PasteLayer) -> None:
         """Visit `PasteLayer` command."""
-- 
2.43.0


From 48d2afe135309c8a86a0d2847c11d1627fc9ef9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:25 +0000
Subject: [PATCH 22/44] fix: reject trailing newline in hexadecimal colors

---
 src/pygerber/vm/types/color.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/vm/types/color.py b/src/pygerber/vm/types/color.py
index 7cc01c3..6f41ade 100644
--- a/src/pygerber/vm/types/color.py
+++ b/src/pygerber/vm/types/color.py
@@ -76,7 +76,7 @@ class Color(ModelType):
             r"(?P<G>[A-Fa-f0-9]{2})"
             r"(?P<B>[A-Fa-f0-9]{2})"
             r"(?P<A>[A-Fa-f0-9]{2})?"
-            r"$",
+            r"\Z",
             string,
         )
         if re_match is None:
-- 
2.43.0


From 47646ac0dac8f68ff2e099620f38e5e9cacc4a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:25 +0000
Subject: [PATCH 23/44] fix: parse decimal numbers ending with a decimal point

---
 src/pygerber/gerber/parser/pyparsing/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/parser/pyparsing/grammar.py b/src/pygerber/gerber/parser/pyparsing/grammar.py
index a67d268..20c4046 100644
--- a/src/pygerber/gerber/parser/pyparsing/grammar.py
+++ b/src/pygerber/gerber/parser/pyparsing/grammar.py
@@ -303,7 +303,7 @@ class Grammar:
     @pp.cached_property
     def double(self) -> pp.ParserElement:
         """Create a parser element capable of parsing doubles."""
-        return pp.Regex(r"[+-]?(([0-9]+(\.[0-9]+)?)|(\.[0-9]+))").set_results_name(
+        return pp.Regex(r"[+-]?(([0-9]+(\.[0-9]*)?)|(\.[0-9]+))").set_results_name(
             "double"
         )
 
-- 
2.43.0


From 4e41217f3bc0a57679eda6d65a677f152b4b99d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:42 +0000
Subject: [PATCH 24/44] fix: ignore leading zeros of aperture identifiers

---
 src/pygerber/gerber/ast/nodes/types.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/ast/nodes/types.py b/src/pygerber/gerber/ast/nodes/types.py
index 71a9acf..33b58a7 100644
--- a/src/pygerber/gerber/ast/nodes/types.py
+++ b/src/pygerber/gerber/ast/nodes/types.py
@@ -15,10 +15,19 @@ Integer: TypeAlias = int
 
 
 class ApertureIdStr(str):
-    """String subclass representing aperture ID."""
+    """String subclass representing aperture ID.
+
+    Leading zeros of aperture number are not significant, `D010` and `D10` identify the
+    same aperture.
+    """
 
     __slots__ = ()
 
+    def __new__(cls, value: str) -> ApertureIdStr:
+        if value.startswith("D0"):
+            value = "D" + value[1:].lstrip("0")
+        return super().__new__(cls, value)
+
     @classmethod
     def __get_pydantic_core_schema__(
         cls, source_type: Any, handler: GetCoreSchemaHandler
-- 
2.43.0


From ad33d5dbe84dcbbdbf15c65e2c3da337ab55c9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:42 +0000
Subject: [PATCH 25/44] fix: keep integer digits when formatting numbers with
 zero decimal places

---
 src/pygerber/gerber/formatter/formatter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/gerber/formatter/formatter.py b/src/pygerber/gerber/formatter/formatter.py
index 7471884..0f8c692 100644
--- a/src/pygerber/gerber/formatter/formatter.py
+++ b/src/pygerber/gerber/formatter/formatter.py
@@ -375,9 +375,9 @@ class Formatter(AstVisitor):
         if self.float_decimal_places < 0:
             return str(value)
         double = f"{value:.{self.float_decimal_places}f}"
-        if self.float_trim_trailing_zeros:
+        if self.float_trim_trailing_zeros and "." in double:
             return double.rstrip("0").rstrip(".")
-        return double  # type: ignore[unreachable]
+        return double
 
     def _insert_base_indent(self) -> None:
         self._write(self._base_indent)
-- 
2.43.0


From 3ca2632dd07105882cc4d0360b3a3bb39921351f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:42 +0000
Subject: [PATCH 26/44] fix: honour FloatTrimTrailingZeros.No in formatter

---
 src/pygerber/gerber/formatter/formatter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/formatter/formatter.py b/src/pygerber/gerber/formatter/formatter.py
index 0f8c692..85e3446 100644
--- a/src/pygerber/gerber/formatter/formatter.py
+++ b/src/pygerber/gerber/formatter/formatter.py
@@ -130,6 +130,7 @@ from pygerber.gerber.ast.nodes import (
 from pygerber.gerber.formatter.enums import (
     EmptyLineBeforePolaritySwitch,
     ExplicitParenthesis,
+    FloatTrimTrailingZeros,
     KeepNonStandaloneCodes,
     MacroEndInNewLine,
     MacroSplitMode,
@@ -279,7 +280,9 @@ class Formatter(AstVisitor):
 
         self.float_decimal_places = self.options.float_decimal_places
 
-        self.float_trim_trailing_zeros = self.options.float_trim_trailing_zeros
+        self.float_trim_trailing_zeros = (
+            self.options.float_trim_trailing_zeros == FloatTrimTrailingZeros.Yes
+        )
 
         if isinstance(self.options.d01_indent, int):
             self.d01_indent = self.options.indent_character * self.options.d01_indent
-- 
2.43.0


From 7e8eda36580447f9ddeecfb59cc5a153d49a0e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:42 +0000
Subject: [PATCH 27/44] fix: format small and large numbers without exponent

---
 src/pygerber/gerber/formatter/formatter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/formatter/formatter.py b/src/pygerber/gerber/formatter/formatter.py
index 85e3446..bebcb55 100644
--- a/src/pygerber/gerber/formatter/formatter.py
+++ b/src/pygerber/gerber/formatter/formatter.py
@@ -5,6 +5,7 @@ configurable Gerber code formatting.
 from __future__ import annotations
 
 from contextlib import contextmanager
+from decimal import Decimal
 from functools import wraps
 from io import StringIO
 from typing import (
@@ -376,7 +377,9 @@ class Formatter(AstVisitor):
 
     def _fmt_double(self, value: Double) -> str:
         if self.float_decimal_places < 0:
-            return str(value)
+            double = str(value)
+            # Gerber decimal numbers have no exponent notation.
+            return f"{Decimal(double):f}" if "e" in double else double
         double = f"{value:.{self.float_decimal_places}f}"
         if self.float_trim_trailing_zeros and "." in double:
             return double.rstrip("0").rstrip(".")
-- 
2.43.0


From dab5f316cdb588669099b0a01b590a1837b0abec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:42 +0000
Subject: [PATCH 28/44] fix: write only given parameters of step and repeat

---
 src/pygerber/gerber/formatter/formatter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pygerber/gerber/formatter/formatter.py b/src/pygerber/gerber/formatter/formatter.py
index bebcb55..4465b6f 100644
--- a/src/pygerber/gerber/formatter/formatter.py
+++ b/src/pygerber/gerber/formatter/formatter.py
@@ -516,13 +516,13 @@ class Formatter(AstVisitor):
             if node.x is not None:
                 self._write(f"X{node.x}")
 
-            if node.x is not None:
+            if node.y is not None:
                 self._write(f"Y{node.y}")
 
-            if node.x is not None:
+            if node.i is not None:
                 self._write(f"I{node.i}")
 
-            if node.x is not None:
+            if node.j is not None:
                 self._write(f"J{node.j}")
 
         return node
-- 
2.43.0


From 40db1824c2385dd0252e0391d2221f038c110666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:42 +0000
Subject: [PATCH 29/44] fix: format macro aperture parameters and offsets like
 other numbers

---
 src/pygerber/gerber/formatter/formatter.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pygerber/gerber/formatter/formatter.py b/src/pygerber/gerber/formatter/formatter.py
index 4465b6f..4360c67 100644
--- a/src/pygerber/gerber/formatter/formatter.py
+++ b/src/pygerber/gerber/formatter/formatter.py
@@ -477,11 +477,11 @@ class Formatter(AstVisitor):
     def on_ad_macro(self, node: ADmacro) -> ADmacro:
         """Handle `AD` macro node."""
         with self._extended_command(f"AD{node.aperture_id}{node.name}"):
-            if node.params is not None:
+            if node.params:
                 first, *rest = node.params
-                self._write(f",{first}")
+                self._write(f",{self._fmt_double(first)}")
                 for param in rest:
-                    self._write(f"X{param}")
+                    self._write(f"X{self._fmt_double(param)}")
         return node
 
     @_decorator_insert_base_indent
@@ -1504,9 +1504,9 @@ class Formatter(AstVisitor):
         """Handle `OF` node."""
         with self._extended_command("OF"):
             if node.a_offset is not None:
-                self._write(f"A{node.a_offset}")
+                self._write(f"A{self._fmt_double(node.a_offset)}")
             if node.b_offset is not None:
-                self._write(f"B{node.b_offset}")
+                self._write(f"B{self._fmt_double(node.b_offset)}")
         return node
 
     @_decorator_insert_base_indent
-- 
2.43.0


From 5fbc42bed05ba4f49bdcc717f2f5a146227e81ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:42 +0000
Subject: [PATCH 30/44] fix: write empty font and size fields of flash text
 attribute

---
 src/pygerber/gerber/formatter/formatter.py | 29 ++++++----------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/src/pygerber/gerber/formatter/formatter.py b/src/pygerber/gerber/formatter/formatter.py
index 4360c67..1ef171c 100644
--- a/src/pygerber/gerber/formatter/formatter.py
+++ b/src/pygerber/gerber/formatter/formatter.py
@@ -580,30 +580,17 @@ class Formatter(AstVisitor):
             self._write(",")
             self._write(node.mirroring)
 
-            if len(node.comments) == 0:
-                if node.font is not None:
-                    self._write(",")
-                    self._write(node.font)
-
-                if node.size is not None:
-                    self._write(",")
-                    self._write(node.size)
+            self._write(",")
+            if node.font is not None:
+                self._write(node.font)
 
-                for comment in node.comments:
-                    self._write(",")
-                    self._write(comment)
-            else:
-                self._write(",")
-                if node.font is not None:
-                    self._write(node.font)
+            self._write(",")
+            if node.size is not None:
+                self._write(node.size)
 
+            for comment in node.comments:
                 self._write(",")
-                if node.size is not None:
-                    self._write(node.size)
-
-                for comment in node.comments:
-                    self._write(",")
-                    self._write(comment)
+                self._write(comment)
 
         return node
 
-- 
2.43.0


From 2afce942ad497856fcdfb80cc89de64ebafa3a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:42 +0000
Subject: [PATCH 31/44] fix: keep parentheses around signed operands with
 explicit parenthesis

---
 src/pygerber/gerber/formatter/formatter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/gerber/formatter/formatter.py b/src/pygerber/gerber/formatter/formatter.py
index 1ef171c..182c6e2 100644
--- a/src/pygerber/gerber/formatter/formatter.py
+++ b/src/pygerber/gerber/formatter/formatter.py
@@ -1175,12 +1175,15 @@ class Formatter(AstVisitor):
 
     def on_parenthesis(self, node: Parenthesis) -> Parenthesis:
         """Handle `Parenthesis` node."""
-        if not self.explicit_parenthesis:
+        # Binary operators add their own parenthesis when they are explicit.
+        keep = not self.explicit_parenthesis or isinstance(node.inner, (Neg, Pos))
+
+        if keep:
             self._write("(")
 
         node.inner.visit(self)
 
-        if not self.explicit_parenthesis:
+        if keep:
             self._write(")")
 
         return node
-- 
2.43.0


From fd9e7193860d59b2c82b19588fb27bdb58456221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:19 +0000
Subject: [PATCH 32/44] fix: select plot mode again for traces added after a
 region

---
 src/pygerber/builder/gerber.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pygerber/builder/gerber.py b/src/pygerber/builder/gerber.py
index fe9fd49..8bab33b 100644
--- a/src/pygerber/builder/gerber.py
+++ b/src/pygerber/builder/gerber.py
@@ -1639,6 +1639,8 @@ class RegionCreator:
                 else:
                     raise NotImplementedError
 
+            self._builder._plot_mode = mode  # noqa: SLF001
+
             yield G37()
             yield D02(
                 x=self._builder._pack_x(self._begin[0]),  # noqa: SLF001
-- 
2.43.0


From fc97da97c39d0c080eb7f1ed0d91c4f2b17d9e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:02 +0000
Subject: [PATCH 33/44] fix: add drill map style to default alpha color map

---
 src/pygerber/gerber/api/_enums.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pygerber/gerber/api/_enums.py b/src/pygerber/gerber/api/_enums.py
index 1437b4d..c20546d 100644
--- a/src/pygerber/gerber/api/_enums.py
+++ b/src/pygerber/gerber/api/_enums.py
@@ -243,6 +243,7 @@ DEFAULT_ALPHA_COLOR_MAP: COLOR_MAP_T = {
     FileTypeEnum.VCUT: Style.presets.PASTE_MASK_ALPHA,
     FileTypeEnum.VIAFILL: Style.presets.PASTE_MASK_ALPHA,
     FileTypeEnum.PADS: Style.presets.PASTE_MASK_ALPHA,
+    FileTypeEnum.DRILLMAP: Style.presets.SILK_ALPHA,
     FileTypeEnum.FABRICATIONDRAWING: Style.presets.SILK_ALPHA,
     FileTypeEnum.VCUTMAP: Style.presets.SILK_ALPHA,
     FileTypeEnum.ASSEMBLYDRAWING: Style.presets.SILK_ALPHA,
-- 
2.43.0


From e625e9b3d2da8ac4337a52f1b21c2a66c50a09ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:02 +0000
Subject: [PATCH 34/44] fix: ignore case of numbered layer extensions

---
 src/pygerber/gerber/api/_enums.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/api/_enums.py b/src/pygerber/gerber/api/_enums.py
index c20546d..9719c90 100644
--- a/src/pygerber/gerber/api/_enums.py
+++ b/src/pygerber/gerber/api/_enums.py
@@ -156,6 +156,8 @@ class FileTypeEnum(Enum):
 
     @classmethod
     def infer_from_extension(cls, extension: str) -> FileTypeEnum:
+        extension = extension.lower()
+
         if re.match(r"\.g[0-9]+", extension):
             return FileTypeEnum.COPPER
 
@@ -166,7 +168,7 @@ class FileTypeEnum(Enum):
             return FileTypeEnum.COPPER
 
         return GERBER_EXTENSION_TO_FILE_TYPE_MAPPING.get(
-            extension.lower(), FileTypeEnum.UNDEFINED
+            extension, FileTypeEnum.UNDEFINED
         )
 
 
-- 
2.43.0


From bb7fcc5f71736e262099e20a65f4a1f33a91a16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:02 +0000
Subject: [PATCH 35/44] fix: order inner layers by number

---
 src/pygerber/gerber/api/_gerber_job_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/api/_gerber_job_file.py b/src/pygerber/gerber/api/_gerber_job_file.py
index ad41c84..368ec74 100644
--- a/src/pygerber/gerber/api/_gerber_job_file.py
+++ b/src/pygerber/gerber/api/_gerber_job_file.py
@@ -229,7 +229,7 @@ class GerberJobFile(_ModelType):
             top=CompositeView(extract_and_sort_files(top)),
             inner=(
                 CompositeView(extract_and_sort_files(inner[key]))
-                for key in sorted(inner)
+                for key in sorted(inner, key=int)
             ),
             bottom=CompositeView(extract_and_sort_files(bottom)),
         )
-- 
2.43.0


From 1a91b472de0b7d6e6939002bcedf1bcb4ce4b4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:02 +0000
Subject: [PATCH 36/44] fix: compare positions in text by line, then by column

---
 src/pygerber/common/position.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pygerber/common/position.py b/src/pygerber/common/position.py
index 95861f5..c7417a7 100644
--- a/src/pygerber/common/position.py
+++ b/src/pygerber/common/position.py
@@ -54,7 +54,7 @@ class Position:
     def __ne__(self, __value: object) -> bool:
         if not isinstance(__value, self.__class__):
             return NotImplemented
-        return self.line != __value.line and self.column != __value.column
+        return self.line != __value.line or self.column != __value.column
 
     def __gt__(self, __value: object) -> bool:
         if not isinstance(__value, self.__class__):
@@ -66,7 +66,7 @@ class Position:
     def __ge__(self, __value: object) -> bool:
         if not isinstance(__value, self.__class__):
             return NotImplemented
-        return self.line >= __value.line or (
+        return self.line > __value.line or (
             self.line == __value.line and self.column >= __value.column
         )
 
@@ -80,6 +80,6 @@ class Position:
     def __le__(self, __value: object) -> bool:
         if not isinstance(__value, self.__class__):
             return NotImplemented
-        return self.line <= __value.line or (
+        return self.line < __value.line or (
             self.line == __value.line and self.column <= __value.column
         )
-- 
2.43.0


From 7c315313c4dea24f48c5ff0218e8681c8b560a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:37 +0000
Subject: [PATCH 37/44] fix: render files in inches with requested resolution

Virtual machines work in units of the file, so dots per millimeter have to
be converted to dots per inch for files which use imperial units. Without
that image of such file was 25.4 times smaller than requested and did not
match image space reported with it.
---
 src/pygerber/gerber/api/_gerber_file.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/gerber/api/_gerber_file.py b/src/pygerber/gerber/api/_gerber_file.py
index f21ece3..ff3d47b 100644
--- a/src/pygerber/gerber/api/_gerber_file.py
+++ b/src/pygerber/gerber/api/_gerber_file.py
@@ -610,15 +610,17 @@ class GerberFile:
         style = self._dispatch_style(style)
 
         rvmc = self._get_rvmc()
+        unit_mode = self._get_final_state().unit_mode
         result = render(
             rvmc,
             backend="pillow",
-            dpmm=dpmm,
+            # Virtual machine works in units of the file.
+            dpmm=dpmm * 25.4 if unit_mode == UnitMode.IMPERIAL else dpmm,
         )
         assert isinstance(result, PillowResult)
         return PillowImage(
             image_space=ImageSpace(
-                units=self._get_final_state().unit_mode,
+                units=unit_mode,
                 box=result.main_box,
                 dpmm=dpmm,
             ),
-- 
2.43.0


From 9444b8aa9ff8e658f163ebaed23c317927af56b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:37 +0000
Subject: [PATCH 38/44] fix: find nodes which span multiple lines by any of
 their columns

A node which spans multiple lines was not found from columns smaller than
column at which it begins, and nodes inside of the only node of a file were
not found at all.
---
 src/pygerber/gerber/ast/node_finder.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pygerber/gerber/ast/node_finder.py b/src/pygerber/gerber/ast/node_finder.py
index 002c0b4..8af4d7d 100644
--- a/src/pygerber/gerber/ast/node_finder.py
+++ b/src/pygerber/gerber/ast/node_finder.py
@@ -50,10 +50,6 @@ class NodeFinder(AstVisitor):
         if len(node.nodes) == 0:
             return node
 
-        if len(node.nodes) == 1:
-            self.return_node = node.nodes[0]
-            return node
-
         self.return_node = self._bin_search(node.nodes)
 
         return node
@@ -77,7 +73,11 @@ class NodeFinder(AstVisitor):
         if len(nodes) == 1:
             self.return_node = nodes[0]
             source_info = self.return_node.source_info
-            if source_info is not None and self.location.column < source_info.column:
+            if (
+                source_info is not None
+                and self.location.column < source_info.column
+                and not source_info.line < self.location.line <= source_info.end_line
+            ):
                 self.return_node = None
                 return None
 
-- 
2.43.0


From 2c048e845c1716d900093adefd8dc1751a5af79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:26 +0000
Subject: [PATCH 39/44] fix: include whitespace between nodes in length of
 their parent

Length of nodes which consist of other nodes did not include characters
between those nodes, so end of such node was reported too early.
---
 src/pygerber/gerber/parser/pyparsing/grammar.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pygerber/gerber/parser/pyparsing/grammar.py b/src/pygerber/gerber/parser/pyparsing/grammar.py
index 20c4046..b66eeae 100644
--- a/src/pygerber/gerber/parser/pyparsing/grammar.py
+++ b/src/pygerber/gerber/parser/pyparsing/grammar.py
@@ -330,10 +330,16 @@ class Grammar:
         """Create a callback for unpacking the results of the parser."""
 
         def _(s: str, loc: int, tokens: pp.ParseResults) -> Node:
+            token_list = tokens.as_list()
+            last = token_list[-1] if token_list else None
+            if isinstance(last, Node) and last.source_info is not None:
+                # Nodes can be separated by whitespace, which is not part of any token.
+                length = last.source_info.end_location - loc
+            else:
+                length = sum(len(t) for t in token_list)
+
             return self.get_cls(node_type)(
-                source_info=SourceInfo(
-                    source=s, location=loc, length=sum(len(t) for t in tokens.as_list())
-                ),
+                source_info=SourceInfo(source=s, location=loc, length=length),
                 **tokens.as_dict(),
                 **kwargs,
             )
-- 
2.43.0


From 7a6cb2e54489037e7f9eaea9a57221ab68af2d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:32 +0000
Subject: [PATCH 40/44] fix: compare extents of composite view files in
 millimeters

Files of composite view can use different units, extents of such files were
compared as if they were expressed in the same unit.
---
 src/pygerber/gerber/api/_composite_view.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pygerber/gerber/api/_composite_view.py b/src/pygerber/gerber/api/_composite_view.py
index 29eee02..0b79399 100644
--- a/src/pygerber/gerber/api/_composite_view.py
+++ b/src/pygerber/gerber/api/_composite_view.py
@@ -67,10 +67,10 @@ class CompositeView:
             file.render_with_pillow(dpmm=dpmm) for file in self.files
         ]
 
-        max_x_image = max(sub_images, key=lambda x: x.get_image_space().max_x)
-        max_y_image = max(sub_images, key=lambda x: x.get_image_space().max_y)
-        min_x_image = min(sub_images, key=lambda x: x.get_image_space().min_x)
-        min_y_image = min(sub_images, key=lambda x: x.get_image_space().min_y)
+        max_x_image = max(sub_images, key=lambda x: x.get_image_space().max_x_mm)
+        max_y_image = max(sub_images, key=lambda x: x.get_image_space().max_y_mm)
+        min_x_image = min(sub_images, key=lambda x: x.get_image_space().min_x_mm)
+        min_y_image = min(sub_images, key=lambda x: x.get_image_space().min_y_mm)
 
         width_pixels = (
             max_x_image.get_image_space().max_x_pixels
-- 
2.43.0


From 80dd3b3c462c46716fe70ca92b4565d80e3e8bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:50 +0000
Subject: [PATCH 41/44] fix: notify linter listeners about each node once

Handlers of generic nodes are called by handlers of specialized ones, hence
listeners of apertures, attributes, expressions and coordinates were called
twice for each node, same as listeners of the file itself.
---
 .../gerber/linter/event_ast_visitor.py        | 34 -------------------
 1 file changed, 34 deletions(-)

diff --git a/src/pygerber/gerber/linter/event_ast_visitor.py b/src/pygerber/gerber/linter/event_ast_visitor.py
index 8b996c3..4164999 100644
--- a/src/pygerber/gerber/linter/event_ast_visitor.py
+++ b/src/pygerber/gerber/linter/event_ast_visitor.py
@@ -10,7 +10,6 @@ from pygerber.gerber.ast.nodes import Node
 if TYPE_CHECKING:
     from pygerber.gerber.ast.nodes import (
         AB,
-        AD,
         ADC,
         ADO,
         ADP,
@@ -51,11 +50,8 @@ if TYPE_CHECKING:
         OF,
         SF,
         SR,
-        TA,
         TD,
-        TF,
         TF_MD5,
-        TO,
         TO_C,
         TO_CMNP,
         TO_N,
@@ -78,14 +74,12 @@ if TYPE_CHECKING:
         Code21,
         Code22,
         Constant,
-        Coordinate,
         CoordinateI,
         CoordinateJ,
         CoordinateX,
         CoordinateY,
         Div,
         Dnn,
-        Expression,
         File,
         Invalid,
         Mul,
@@ -158,10 +152,6 @@ class EventAstVisitor(AstVisitor):
         self._trigger_listeners(node)
         return super().on_ab_open(node)
 
-    def on_ad(self, node: AD) -> None:  # noqa: D102
-        self._trigger_listeners(node)
-        return super().on_ad(node)
-
     def on_adc(self, node: ADC) -> ADC:  # noqa: D102
         self._trigger_listeners(node)
         return super().on_adc(node)
@@ -206,10 +196,6 @@ class EventAstVisitor(AstVisitor):
         self._trigger_listeners(node)
         return super().on_sr_open(node)
 
-    def on_ta(self, node: TA) -> None:  # noqa: D102
-        self._trigger_listeners(node)
-        return super().on_ta(node)
-
     def on_ta_user_name(self, node: TA_UserName) -> TA_UserName:  # noqa: D102
         self._trigger_listeners(node)
         return super().on_ta_user_name(node)
@@ -234,10 +220,6 @@ class EventAstVisitor(AstVisitor):
         self._trigger_listeners(node)
         return super().on_td(node)
 
-    def on_tf(self, node: TF) -> None:  # noqa: D102
-        self._trigger_listeners(node)
-        return super().on_tf(node)
-
     def on_tf_user_name(self, node: TF_UserName) -> TF_UserName:  # noqa: D102
         self._trigger_listeners(node)
         return super().on_tf_user_name(node)
@@ -284,10 +266,6 @@ class EventAstVisitor(AstVisitor):
         self._trigger_listeners(node)
         return super().on_tf_md5(node)
 
-    def on_to(self, node: TO) -> None:  # noqa: D102
-        self._trigger_listeners(node)
-        return super().on_to(node)
-
     def on_to_user_name(self, node: TO_UserName) -> TO_UserName:  # noqa: D102
         self._trigger_listeners(node)
         return super().on_to_user_name(node)
@@ -488,10 +466,6 @@ class EventAstVisitor(AstVisitor):
         self._trigger_listeners(node)
         return super().on_constant(node)
 
-    def on_expression(self, node: Expression) -> None:  # noqa: D102
-        self._trigger_listeners(node)
-        return super().on_expression(node)
-
     def on_parenthesis(self, node: Parenthesis) -> Parenthesis:  # noqa: D102
         self._trigger_listeners(node)
         return super().on_parenthesis(node)
@@ -504,10 +478,6 @@ class EventAstVisitor(AstVisitor):
         self._trigger_listeners(node)
         return super().on_variable(node)
 
-    def on_coordinate(self, node: Coordinate) -> None:  # noqa: D102
-        self._trigger_listeners(node)
-        return super().on_coordinate(node)
-
     def on_coordinate_x(self, node: CoordinateX) -> CoordinateX:  # noqa: D102
         self._trigger_listeners(node)
         return super().on_coordinate_x(node)
@@ -604,10 +574,6 @@ class EventAstVisitor(AstVisitor):
         self._trigger_listeners(node)
         return super().on_file(node)
 
-    def on_end_of_file(self, node: File) -> None:  # noqa: D102
-        self._trigger_listeners(node)
-        return super().on_end_of_file(node)
-
     def on_invalid(self, node: Invalid) -> Invalid:  # noqa: D102
         self._trigger_listeners(node)
         return super().on_invalid(node)
-- 
2.43.0


From a735c0395c39f12dc08bb25342d894ec6897de1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:27 +0000
Subject: [PATCH 42/44] fix: pass options of ShapelyImage.save_svg on

---
 src/pygerber/gerber/api/_gerber_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/gerber/api/_gerber_file.py b/src/pygerber/gerber/api/_gerber_file.py
index ff3d47b..bffab9c 100644
--- a/src/pygerber/gerber/api/_gerber_file.py
+++ b/src/pygerber/gerber/api/_gerber_file.py
@@ -372,7 +372,7 @@ class ShapelyImage(Image):
     def save_svg(
         self,
         destination: str | Path | BinaryIO,
-        **kwargs: Any,  # noqa: ARG002
+        **kwargs: Any,
     ) -> None:
         """Save result to a file or buffer in SVG format.
 
@@ -386,7 +386,7 @@ class ShapelyImage(Image):
             Additional keyword arguments to pass to SVG save implementation.
 
         """
-        self._result.save_svg(destination, self._style)
+        self._result.save_svg(destination, self._style, **kwargs)
 
 
 class GerberFile:
-- 
2.43.0


From 8f36008331addb890ec2fc3c5c1948328af6a1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:27 +0000
Subject: [PATCH 43/44] fix: save SVG to any binary file object

---
 src/pygerber/vm/shapely/vm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pygerber/vm/shapely/vm.py b/src/pygerber/vm/shapely/vm.py
index e140124..06760d0 100644
--- a/src/pygerber/vm/shapely/vm.py
+++ b/src/pygerber/vm/shapely/vm.py
@@ -9,7 +9,6 @@ import importlib.util
 import math
 import operator
 from contextlib import suppress
-from io import BytesIO
 from pathlib import Path
 from typing import Any, BinaryIO, Callable, Generator, Optional, Sequence
 
@@ -129,7 +128,7 @@ class ShapelyResult(Result):
             with Path(destination).open("wb") as file:
                 self._dump_svg(file, color, encoding=encoding)
 
-        elif isinstance(destination, (BinaryIO, BytesIO)):
+        elif hasattr(destination, "write"):
             self._dump_svg(destination, color, encoding=encoding)
 
         else:
-- 
2.43.0


From 075196de2d10e95b31e1930aabe1f6fb5223bfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:51 +0000
Subject: [PATCH 44/44] fix: write byte order mark of SVG encodings once

---
 src/pygerber/vm/shapely/vm.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/pygerber/vm/shapely/vm.py b/src/pygerber/vm/shapely/vm.py
index 06760d0..56a7ab6 100644
--- a/src/pygerber/vm/shapely/vm.py
+++ b/src/pygerber/vm/shapely/vm.py
@@ -4,6 +4,7 @@ Shapely library.
 
 from __future__ import annotations
 
+import codecs
 import importlib
 import importlib.util
 import math
@@ -137,14 +138,13 @@ class ShapelyResult(Result):
     def _dump_svg(
         self, out: BinaryIO, color: Style, *, encoding: str = "utf-8"
     ) -> None:
-        out.write(
-            (
-                '<svg xmlns="http://www.w3.org/2000/svg" '
-                'xmlns:xlink="http://www.w3.org/1999/xlink" '
-            ).encode(encoding)
+        writer = codecs.getwriter(encoding)(out)
+        writer.write(
+            '<svg xmlns="http://www.w3.org/2000/svg" '
+            'xmlns:xlink="http://www.w3.org/1999/xlink" '
         )
         if self.shape.is_empty:
-            out.write("/>".encode(encoding))
+            writer.write("/>")
             return
 
         xmin, ymin, xmax, ymax = self.shape.bounds
@@ -159,21 +159,19 @@ class ShapelyResult(Result):
         view_box = f"{xmin} {ymin} {dx} {dy}"
         transform = f"matrix(1,0,0,-1,0,{ymax + ymin})"
 
-        out.write(f'width="{width}" '.encode(encoding))
-        out.write(f'height="{height}" '.encode(encoding))
-        out.write(f'viewBox="{view_box}" '.encode(encoding))
-        out.write('preserveAspectRatio="xMidYMid meet" '.encode(encoding))
-        out.write(">".encode(encoding))
-        out.write(
+        writer.write(f'width="{width}" ')
+        writer.write(f'height="{height}" ')
+        writer.write(f'viewBox="{view_box}" ')
+        writer.write('preserveAspectRatio="xMidYMid meet" ')
+        writer.write(">")
+        writer.write(
             (
                 f'<g transform="{transform}">'
                 f"{self.shape.svg(scale_factor=0.0, fill_color=fill_color)}"
                 "</g>"
-            )
-            .replace('stroke="#555555"', 'stroke="#00000000"')
-            .encode(encoding)
+            ).replace('stroke="#555555"', 'stroke="#00000000"')
         )
-        out.write("</svg>".encode(encoding))
+        writer.write("</svg>")
 
 
 class ShapelyEagerLayer(EagerLayer):
-- 
2.43.0


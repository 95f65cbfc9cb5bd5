VM = "vm/vm.py"
RVM = "vm/rvmc.py"
PIL = "vm/pillow/vm.py"
SHV = "vm/shapely/vm.py"

prop("V02", "The bounding box of a line, arc or shape encloses it and is not larger",
     "The bounding box of every line, arc and closed shape contains every point of it. "
     "The box of a line is exactly spanned by its end points, the box of an arc stays inside the box of its circle and is spanned by its end points, its centre and the "
     "extreme points it sweeps over, and the box of a shape is the union of the boxes of its segments.",
     ["inputs"], "all centres, radii, start angles and sweeps, both directions, full circles; all end points of lines",
     "Tests compute the boxes of a few quarter arcs; the error is at the angle where an arc crosses an axis.",
     ["vm/commands/shape_segments/arc.py", "vm/commands/shape_segments/line.py", "vm/commands/shape.py", "vm/types/box.py", "vm/types/vector.py"],
     [("Arc.outer_box", "vm/commands/shape_segments/arc.py"), ("Line.outer_box", "vm/commands/shape_segments/line.py"), ("Shape.outer_box", "vm/commands/shape.py")])
prop("V05", "Drawing commands reach the layer which is open, and layers grow to fit",
     "Every command is drawn, in order, on the layer that is open when it is reached. A layer without a given box gets "
     "exactly the union of the boxes of its shapes and of the layers pasted on it, each displaced by paste centre "
     "minus layer origin; an empty layer contributes nothing. Defining a layer twice, ending a layer when none is open, and pasting an unknown layer "
     "raise their errors.",
     ["histories", "inputs"], "sequences of layers, nested layers, shapes and pastes up to the bound, all sizes and positions",
     "Tests render a few fixed programs.",
     [VM, PIL, SHV, "vm/commands/layer.py", "vm/commands/paste.py"], [("VirtualMachine.on_start_layer / on_end_layer / on_shape / on_paste_layer", VM)])
prop("V06", "The Pillow renderer paints each pixel as the program says",
     "Rendering a program with the Pillow virtual machine gives an image of the main layer's size times the resolution in "
     "which a pixel is set exactly when painting the shapes and pasted layers in order - dark ones adding, clear ones removing, "
     "the Y axis pointing up - leaves its point covered. Pixels nearer to an edge than two pixels plus one per nesting level are not constrained.",
     ["inputs", "programs"], "programs of shapes and pasted layers of each kind up to the bound, all positions, sizes and resolutions, every pixel",
     "Tests compare a few rendered images with stored ones.",
     [PIL, VM], [("PillowVirtualMachine / PillowEagerLayer", PIL)],
     note="Pillow itself is replaced by a stand-in which implements the drawing calls used; that Pillow fills polygons right is trusted.")
prop("V07", "The Shapely renderer covers exactly the points the program says",
     "Rendering a program with the Shapely virtual machine gives a geometry which contains a point (not on an edge) exactly when painting "
     "the shapes and pasted layers in order - dark ones adding, clear ones removing - leaves it covered.",
     ["inputs", "programs"], "programs of shapes and pasted layers of each kind up to the bound, all positions and sizes, every point",
     "Tests compare a few areas and images.",
     [SHV, VM], [("ShapelyVirtualMachine / ShapelyEagerLayer", SHV)],
     note="Shapely itself is replaced by a stand-in with exact set semantics; GEOS is trusted.")
prop("V08", "Renderers turn arcs into polygons which follow the arc",
     "Both renderers approximate an arc by vertices which all lie on the arc, in order from its start point to its end point in the "
     "arc's direction, with no step wider than the renderer's angle step, at any radius; an arc ending where it "
     "starts is a full circle, and no arc vanishes.",
     ["inputs", "configurations"], "all centres, radii, start angles and sweeps, both directions, full circles",
     "Tests look at images of a few arcs; angles near the wrap at 0 degrees and tiny sweeps are not sampled.",
     [PIL, SHV, "vm/commands/shape_segments/arc.py"], [("get_arc_points / arc polygon", PIL), ("arc points", SHV)])

GRAM = "gerber/parser/pyparsing/grammar.py"
FMT = "gerber/formatter/formatter.py"
prop("V03", "Vectors, boxes and matrices obey their arithmetic",
     "Vector arithmetic acts per axis; rotation, length and angles between vectors are those of the plane; combining boxes gives the smallest "
     "box holding both; transforming a vector by a matrix built as translate, rotate, scale, mirror or a product of them gives the point the "
     "geometric operation gives, and products apply in the documented order.",
     ["inputs"], "all vectors, boxes, angles and matrices",
     "Tests check a few numbers; errors hide in signs, axis mix ups and quadrants.",
     ["vm/types/vector.py", "vm/types/box.py", "vm/types/matrix.py"],
     [("Vector", "vm/types/vector.py"), ("Box", "vm/types/box.py"), ("Matrix3x3", "vm/types/matrix.py")])
prop("T01", "Colors keep their channels through every conversion",
     "A color made from a hexadecimal text, from RGB(A) or HSV(A) numbers has exactly the channels the text or the numbers say, converting it to "
     "text or tuple and back gives the same color, out of range channels are rejected or clamped as documented, and a text which is not a color is rejected.",
     ["inputs"], "all texts up to the bound and all channel values",
     "Tests convert a few colors.",
     ["vm/types/color.py"], [("Color.from_hex / from_rgba / from_hsv / to_hex", "vm/types/color.py")])
prop("P01", "Parsing gives the commands the text says, with the values it says",
     "Parsing a syntactically valid Gerber file gives one node per command, in order, of the kind the text names, each with exactly the names, numbers, "
     "coordinates and attribute fields written (omitted optional ones absent), leading zeros of codes and blanks between commands being irrelevant, "
     "and each node records the place in the source it was read from. Text which is not Gerber raises an error in the strict parser.",
     ["inputs"], "every command of the language, every form of its optional parts, all numbers, names and texts up to the bound",
     "Tests parse a few samples of each command.",
     [GRAM, "gerber/parser/pyparsing/parser.py", "gerber/ast/nodes/base.py", "gerber/ast/nodes/__init__.py"],
     [("Grammar", GRAM), ("Parser.parse", "gerber/parser/pyparsing/parser.py")])
prop("P02", "Macro definitions and macro arithmetic parse to the value they denote",
     "A macro body parses to its primitives, assignments and comments in order, with each parameter in its place, and an arithmetic expression "
     "evaluates to the value which the usual precedence (unary sign, then x and /, then + and -), left association and parentheses give.",
     ["inputs"], "all expressions up to the bound in operators, nesting, constants and variables; every primitive with all of its optional parameters",
     "Tests evaluate a few expressions.",
     [GRAM, "gerber/ast/expression_eval_visitor.py"],
     [("Grammar.expression / primitives", GRAM), ("ExpressionEvalVisitor", "gerber/ast/expression_eval_visitor.py")])
prop("F01", "Formatting a file keeps its meaning",
     "Formatting a parsed file with any option set gives text which parses to the same commands with the same names, texts and numbers - numbers "
     "differing by at most half of the last decimal place kept - in the same order, but for the deprecated G54 and G55 prefixes the options ask to drop.",
     ["inputs", "configurations"], "every command of the language with all of its optional parts and values up to the bound, the presets and each option away from its default",
     "Tests compare the formatting of a few files with stored text; numbers and option combinations are infinite.",
     [FMT, "gerber/formatter/options.py", GRAM],
     [("Formatter.format", FMT)])
GB = "builder/gerber.py"
prop("B01", "Code made by the Gerber builder draws what its calls asked for",
     "The code of a Gerber builder, interpreted by the format's rules, draws for every add call exactly the pad, trace, arc trace or region asked for, in "
     "the order of the calls, at the given places (to the resolution of the coordinate format), with the pad's aperture or trace width and the polarity, rotation, "
     "mirroring, scale and attributes asked for and nobody else's; the code is a complete file which survives formatting and parsing. Regions of fewer "
     "than three segments and things which are not pads are rejected.",
     ["histories", "inputs"], "all sequences of builder calls up to the bound; every pad shape; all coordinates, transformations and attributes",
     "Tests compare the text of one scenario per method with a stored one; state carried from call to call is not sampled.",
     [GB], [("GerberX3Builder", GB), ("RegionCreator / PadCreator / DrawOp", GB)])
RB = "builder/rvmc.py"
prop("B02", "Code made by the RVMC builder holds what its calls asked for",
     "The code of an RVMC builder holds, in order, the shapes, layers and pastes its calls asked for, each with the geometry, polarity, box, origin and place "
     "given; nested layers are complete before their use and come once, and a layer or builder which is finished refuses further calls.",
     ["histories", "inputs"], "all sequences of builder calls up to the bound, all sizes and places",
     "Tests build one program per method.",
     [RB, "vm/commands/shape.py"], [("RvmcBuilder / layer builders", RB)])
API = "gerber/api/_gerber_file.py"
prop("E01", "Rendering a file paints exactly what its text says",
     "Rendering the text of a Gerber file in millimetres or inches through the file API gives, with Pillow, an image of the size and resolution asked "
     "for in which a pixel has the foreground color exactly where the text's objects leave it covered and the background color elsewhere, and, with Shapely, a geometry "
     "which covers exactly those points in millimetres; the reported image space maps pixels to places. A composite view "
     "puts its files over each other in order, at their places, whatever their units.",
     ["inputs", "programs"], "files of flashes, regions, macros, step and repeat and block apertures up to the bound, both units, all coordinates and styles, every pixel and point",
     "Tests compare a few images; files in inches and views of files in different places are not compared at all.",
     [API, "gerber/api/_composite_view.py", PIL, SHV, COMP],
     [("GerberFile.render_with_pillow / render_with_shapely", API), ("CompositeView.render", "gerber/api/_composite_view.py")],
     note="Pillow and Shapely are stand-ins in the symbolic run; the replay uses the real libraries.")
prop("A01", "Visiting reaches every node once; linting reports every offence once",
     "Visiting a file with an event visitor notifies the listeners of a node type about each node of that type exactly once, in file order, "
     "whatever the nesting. Linting reports each use of G54 or G55 and each plot mode code which repeats the one in force, with the rule, line, column and extent of the code, and nothing else; "
     "rules do not influence each other and linting twice gives the same.",
     ["inputs", "histories"], "every kind of node; sequences of codes up to the bound, at top level, in block apertures and in step and repeat",
     "Tests lint one sample per rule.",
     ["gerber/ast/ast_visitor.py", "gerber/linter/event_ast_visitor.py", "gerber/linter/linter.py", "gerber/linter/rules/GRB001.py", "gerber/linter/rules/DEP001.py", "gerber/linter/rules/DEP002.py"],
     [("EventAstVisitor", "gerber/linter/event_ast_visitor.py"), ("Linter.lint", "gerber/linter/linter.py")])
prop("T04", "Type, style and place of a layer follow from its name and attributes",
     "The type of a file is the one its extension or .FileFunction attribute names in any case, and unknown for every other; rendering without a style uses "
     "the style of that type. Views made from a project file hold, for either side and for the inner layers, exactly the layers of that side, each once, in the order of the stack "
     "whatever their order in the file, with the types their functions name.",
     ["inputs", "configurations"], "every extension and function, in any case; projects up to the bound in any order",
     "Tests look at a few names and one project.",
     ["gerber/api/_enums.py", API, "gerber/api/_gerber_job_file.py", "gerber/api/_project.py"],
     [("FileTypeEnum.infer_from_extension / infer_from_attributes", "gerber/api/_enums.py"), ("GerberJobFile.to_project", "gerber/api/_gerber_job_file.py")])
prop("T05", "Positions in the text are ordered and lead to the node they are in",
     "Positions compare by line, then by column, and convert between zero and one based counting by exactly one. Searching the node at a position gives the "
     "innermost command which covers it, on any of its lines.",
     ["inputs"], "all positions; every place of files up to the bound in several layouts",
     "Tests ask for a few positions of one file.",
     ["common/position.py", "gerber/ast/node_finder.py", "gerber/ast/nodes/base.py"],
     [("Position", "common/position.py"), ("NodeFinder", "gerber/ast/node_finder.py")])
prop("V09", "SVG output shows the geometry to scale, right side up, in its color",
     "Saving a Shapely result as SVG, to a path, an open file or a buffer, in any encoding, gives one element whose frame has exactly the extents of the geometry, in which each "
     "point stands at its distance from the left edge and, the Y axis pointing up, from the upper edge, filled with the foreground color of the style. "
     "An empty result gives an empty image, and other formats are refused.",
     ["inputs", "configurations"], "all extents and points, each kind of destination, some encodings and colors",
     "Tests save a few files and never look at the frame.",
     [SHV, API], [("ShapelyResult.save / save_svg / _dump_svg", SHV)],
     note="The path data written by Shapely is trusted.")

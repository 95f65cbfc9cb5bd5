"""Catalogue of the properties: writes properties.jsonl and MANIFEST.json.

usage: /opt/venv/bin/python tools/catalog.py
"""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the real Python code, obligations decided by Z3 (bounded)"
NOTE = (
    "Every path of the real code within the stated bounds is executed with symbolic inputs and each obligation is "
    "decided by an SMT solver; counterexamples are replayed on the unmodified code. Trusts the proxies of vf/ "
    "(exact reals instead of IEEE doubles; trigonometric functions by axioms) and the reference semantics in props/."
)
SRC = "src/pygerber/"
P = []
NA = []


def prop(id, title, statement, over, q, why, files, mech, note=""):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": q},
        "why_tests_cant": why,
        "anchors": {"files": [SRC + f for f in files],
                    "mechanism": [{"name": n, "where": SRC + w} for n, w in mech]},
        "_note": note,
    })


def na(id, title, statement, over, q, why, files, mech, reason):
    prop(id, title, statement, over, q, why, files, mech)
    P[-1]["_na"] = reason


COMP = "gerber/compiler/compiler.py"
ST = "gerber/ast/state_tracking_visitor.py"
VIS = "gerber/ast/ast_visitor.py"
SHAPE = "vm/commands/shape.py"

prop("C01", "Packed coordinates decode to the value the format command defines",
     "A packed coordinate string is converted to the number that the file's coordinate format defines: an optional "
     "sign, the digits, the number of integer and decimal digits of its own axis, and the zero omission mode decide "
     "the value. A string with more digits than the format allows, or with no digits, is rejected with an error.",
     ["inputs", "configurations"], "every digit string up to the format's length, both axes, every zero omission mode and sign",
     "Tests decode a handful of strings with one or two formats.",
     ["gerber/ast/nodes/other/coordinate.py", "gerber/ast/nodes/types.py", ST, "gerber/ast/state_tracking_visitor.py"],
     [("CoordinateFormat.unpack_x / unpack_y", ST)])
prop("C02", "Packing a coordinate and decoding it again loses at most half a unit",
     "Packing any representable coordinate with a coordinate format and decoding the text with the same format gives "
     "back the value within half a unit of the last decimal place, for each axis and each zero omission mode. "
     "A value which does not fit the integer digits of the format is rejected.",
     ["inputs", "configurations"], "every real coordinate, both axes, zero omission modes, integer and decimal digit counts",
     "Tests pack a few values with one format; the round trip is over an infinite set of values.",
     [ST], [("CoordinateFormat.pack_x / pack_y", ST)])
prop("C03", "Operations start at the current point and update it, axis by axis",
     "A draw, move or flash acts at the point given by its coordinates, where an omitted X or Y keeps the value of "
     "the previous operation, and after it the current point is that point. Each operation is interpreted by the "
     "interpolation mode, quadrant mode, region mode and aperture that are current when it is reached.",
     ["inputs", "histories"], "every sequence of operations and mode commands up to the bound, every subset of coordinates, all values",
     "Tests follow a few fixed command sequences.",
     [ST], [("on_d01/on_d02/on_d03 dispatch", ST), ("update of current coordinates", ST)])
prop("C04", "Each command changes its own graphics state parameter and nothing else",
     "Format, unit, interpolation, quadrant, polarity, mirroring, rotation, scaling and aperture selection commands "
     "set their own parameter of the graphics state to the value they carry, the last one winning, and leave all other parameters as they "
     "were. A fresh interpreter has the defaults of the Gerber format: dark polarity, no mirroring, rotation 0, "
     "scale 1.",
     ["inputs", "histories"], "every command with every argument, from an arbitrary state",
     "Tests set single parameters from the default state and look at that parameter only.",
     [ST], [("State, StateTrackingVisitor.on_*", ST)])
prop("C05", "Attributes are attached, replaced and deleted as the file says",
     "File, aperture and object attributes hold exactly the values set and not yet deleted by preceding attribute "
     "commands; deleting by name removes that name from the aperture and object attributes, deleting without a name clears them. "
     "An aperture carries the aperture attributes current at its definition, and every compiled flash, line, arc "
     "and region carries the attributes current when it was created.",
     ["inputs", "histories"], "every history of attribute commands up to the bound",
     "Tests set one attribute at a time.",
     [ST, COMP], [("Attributes", ST), ("_get_attributes / metadata", COMP)])
prop("C06", "Nothing after the end of program command has effect",
     "With default settings, interpretation stops at the first program stop command (M00 or M02): objects after it do not appear "
     "in the compiled image. When the caller asks to ignore program stops, every object of the file appears.",
     ["programs", "configurations"], "a stop command at every position, both settings",
     "Test files hold nothing after M02.",
     [ST, COMP], [("on_m02 / ProgramStop", ST), ("compile()", "gerber/compiler/__init__.py")])
prop("C07", "Macro expressions evaluate to their arithmetic value",
     "Evaluating a macro expression yields the value that ordinary arithmetic gives for its additions, subtractions, "
     "multiplications, divisions, signs and parentheses, with operands taken in order. Variables have the value last "
     "assigned, macro parameters their value from the aperture definition, and zero when there is none.",
     ["inputs", "programs"], "every expression tree up to the bound, all operand values",
     "Tests evaluate one operator with fixed constants.",
     ["gerber/ast/expression_eval_visitor.py", COMP], [("ExpressionEvalVisitor", "gerber/ast/expression_eval_visitor.py")])
prop("G01", "A flash draws the aperture at the flash point, transformed",
     "Flashing a circle, rectangle, obround or regular polygon aperture adds its exact outline, hole included, centred at the flash point, "
     "scaled, rotated and mirrored by the current transformation (in this order), with the current polarity.",
     ["inputs", "configurations"], "all positions, sizes, hole sizes, rotation angles, scale factors, mirrorings, both polarities",
     "Tests flash each aperture with one size and compare images by eye or with a tolerance.",
     [COMP, SHAPE, "vm/types/matrix.py", "vm/commands/shape_segments/arc.py", "vm/commands/shape_segments/line.py"],
     [("on_flash_circle/rectangle/obround/polygon", COMP), ("Shape.new_*", SHAPE), ("transform", SHAPE)])
prop("G02", "A straight draw covers the stroke from the current point to the end point",
     "A linear draw with a round aperture adds, with the current polarity, the stroke of the aperture's diameter (times the current scaling) between the previous "
     "point and the given point, with a round cap at both ends. Rotation and mirroring have no effect on it.",
     ["inputs", "histories"], "all start and end points, diameters, polarities; chains of draws",
     "Tests draw a few lines and compare rendered images.",
     [COMP, SHAPE], [("on_draw_line", COMP), ("Shape.new_line", SHAPE)])
prop("G03", "A circular draw follows the arc around its centre in the right direction",
     "A multi quadrant circular draw with a round aperture adds, with the current polarity, the ring segment of the aperture's width around start plus the "
     "I/J offset, from the previous point to the given point, clockwise after G02 and counterclockwise after G03, with "
     "round caps at both ends. When the end equals the start it is the full circle.",
     ["inputs", "histories"], "all start points, end points, centre offsets and diameters, both directions, both polarities",
     "Tests draw quarter and full circles at a few positions.",
     [COMP, SHAPE], [("on_draw_cw_arc_mq / on_draw_ccw_arc_mq", COMP), ("Shape.new_cw_arc / new_ccw_arc", SHAPE)])
prop("G04", "A region fills exactly its contours",
     "Each contour between region start and region end becomes one filled outline whose lines and arcs are those drawn, in "
     "order, with the current polarity; apertures have no effect on it, and draws after the region are strokes again. "
     "Moves inside of a region separate contours.",
     ["inputs", "histories"], "contours of lines and arcs in any order up to the bound, all coordinates",
     "Tests hold a few region files compared as images.",
     [COMP], [("region handlers", COMP), ("on_region / on_in_region_draw_*", ST)])
prop("G05", "Step and repeat produces every copy at its exact place",
     "A step and repeat block produces X times Y copies of its contents, copy (i, j) displaced by (i times the X "
     "step, j times the Y step), each with the contents' polarity, and nothing else. "
     "Objects after the block are not repeated.",
     ["inputs", "programs"], "all steps, positions, repeat counts up to the bound, contents of flashes, draws and regions",
     "Tests have a few 2x2 and 3x3 blocks at fixed steps.",
     [COMP, ST, VIS], [("on_sr", COMP)])
prop("G06", "A block aperture flash reproduces the block's contents",
     "Flashing a block aperture adds the block's objects in order, displaced to the flash point and scaled, rotated and mirrored by the "
     "current transformation; a clear flash inverts the polarity of each of them. "
     "Blocks can contain flashes of other blocks, and the block itself draws nothing until it is flashed.",
     ["inputs", "programs"], "all positions and transformations, nested blocks up to depth 2, both polarities",
     "Tests flash a block once without transformation.",
     [COMP], [("on_ab / on_flash_block", COMP)])
prop("G07", "A flash uses the aperture which is selected",
     "Every flash draws the definition of the aperture selected last, under the transformation current at that flash, "
     "independent of earlier flashes of the same or of other apertures. "
     "Selecting an aperture that is not defined, or flashing with none selected, is an error.",
     ["histories", "inputs"], "sequences of selections, transformations and flashes up to the bound, all sizes",
     "Tests flash each aperture under one transformation.",
     [COMP, ST], [("aperture buffers", COMP), ("on_dnn", ST)])
prop("G08", "Macro primitives have the geometry the format gives them",
     "Flashing a macro aperture adds the circle, vector line, center line, lower left line, outline, polygon, moire and thermal primitives of the macro, in order, with the "
     "sizes, positions, rotations and exposures their expressions evaluate to for this aperture's parameters. The result is then "
     "transformed like any other aperture, and two apertures of the same macro do not influence each other.",
     ["inputs", "programs"], "all parameter values, rotations and exposures; outlines, polygons and moires up to the bound",
     "Tests flash one instance of each primitive with fixed numbers.",
     [COMP, SHAPE], [("on_code_*", COMP)])
prop("G09", "Compiled programs are complete and well formed",
     "The compiled command stream defines every layer once, completely, and before its use; layers do not refer to "
     "themselves, and the main layer holds every object of the file once and in file order.",
     ["programs", "histories"], "every sequence of object producing commands up to the bound",
     "Tests compile fixed files and never look at the order of layers.",
     [COMP, "vm/vm.py"], [("CommandBuffer / _create_main_layer", COMP)])

EXTRA = os.path.join(ROOT, "tools", "catalog_more.py")
if os.path.exists(EXTRA):
    exec(compile(open(EXTRA).read(), EXTRA, "exec"))


def main():
    checks, napp = [], []
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            q = {k: v for k, v in p.items() if not k.startswith("_")}
            assert len(q["title"]) <= 80, q["title"]
            for x in q["anchors"]["files"]:
                assert os.path.exists("/repo/" + x), x
            q["anchors"]["files"] = sorted(set(q["anchors"]["files"]))
            f.write(json.dumps(q) + "\n")
            if "_na" in p:
                napp.append({"property": p["id"], "reason": p["_na"]})
                continue
            assert os.path.exists(f"{ROOT}/props/{p['id']}.py")
            checks.append({
                "property": p["id"],
                "quick_cmd": f"./check.sh {p['id']} quick",
                "thorough_cmd": f"./check.sh {p['id']} thorough",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": TECH, "level": "model_checking",
                "level_note": NOTE + (" " + p["_note"] if p["_note"] else ""),
            })
    man = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": napp,
           "notes": "No hooks in /repo; checks instrument the code at import time. All /repo commits are fix: commits (known_findings.json)."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()

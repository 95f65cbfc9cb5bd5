"""Regenerate the "fixed" entries of known_findings.json from /repo's fix: commits (keeps "known" entries)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {  # subject -> (property, what failed)
 "stop at M00/M02": ("C06", "objects after M02 were compiled with the default settings; asking to ignore program stops made them disappear"),
 "do not displace step and repeat": ("G05", "every copy of a step and repeat block was displaced by the last coordinate read inside of the block"),
 "derive arc orientation": ("G01", "arcs of an aperture mirrored on one axis (or on both) swept the wrong side"),
 "draw all edges of a rotated": ("G01", "a rotated regular polygon lost an edge for some rotations because of a float comparison"),
 "apply rotation of the macro polygon": ("G08", "polygon macro primitive was rotated by twice its rotation"),
 "return metadata of regions": ("C05", "regions did not carry the attributes current when they were created"),
 "put both end caps": ("G03", "full circle draw had an end cap on the side opposite to its start point"),
 "submit a layer used by several": ("G09", "a layer used by two other layers was defined twice"),
 "toggle polarity of block": ("G06", "clear flash of a block with clear objects did not invert them"),
 "give each thermal primitive": ("G08", "second thermal of a macro or of another aperture replaced the first"),
 "draw innermost moire ring": ("G08", "innermost moire ring with inner diameter below zero was dropped instead of becoming a disc"),
 "evaluate macro variables": ("C07", "macro variable without a value raised instead of being zero"),
 "do not keep I and J": ("G03", "an arc with I or J omitted used the offset of the previous arc instead of zero"),
 "apply aperture scaling to draws": ("G02", "draws and arcs ignored the load scaling command"),
}
extra = os.path.join(ROOT, "tools", "fixed_more.json")
if os.path.exists(extra):
    MAP.update({k: tuple(v) for k, v in json.load(open(extra)).items()})
path = os.path.join(ROOT, "known_findings.json")
old = json.load(open(path))["findings"] if os.path.exists(path) else []
keep = [f for f in old if f["status"] == "known"]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "9a2ef63..HEAD"], text=True)
fixed = []
for line in log.splitlines():
    h, subj = line.split(" ", 1)
    m = [v for k, v in MAP.items() if subj.startswith("fix: " + k)]
    assert len(m) == 1, line
    fixed.append({"property": m[0][0], "status": "fixed", "commit": h, "what": f"fixed: property={m[0][0]} {h} {m[0][1]}"})
json.dump({"findings": keep + fixed}, open(path, "w"), indent=1)
open(path, "a").write("\n")

"""File types, their styles, and the views of a project."""

import json
import re
import tempfile
from pathlib import Path

from vf.api import scenario

from pygerber.gerber.api import DEFAULT_ALPHA_COLOR_MAP, DEFAULT_COLOR_MAP, FileTypeEnum, GerberFile, GerberJobFile
from pygerber.gerber.ast.nodes import enums as E

ASSUMPTIONS = [
    "extensions of up to four characters after the dot; project files of up to four layers besides the outline, layer numbers of up to two digits",
    "files of a project are written to a scratch directory of the check; the JSON decoder passes the symbolic characters of a text through unchanged",
]
T = FileTypeEnum
TABLE = {
    "grb": T.INFER_FROM_ATTRIBUTES, "gbr": T.INFER_FROM_ATTRIBUTES,
    "gto": T.SILK, "gbo": T.SILK, "gpt": T.PADS, "gpb": T.PADS, "gts": T.SOLDERMASK, "gbs": T.SOLDERMASK,
    "gtl": T.COPPER, "gbl": T.COPPER, "gtp": T.PASTE, "gbp": T.PASTE,
}
LETTERS = "abcdefghijklmnopqrstuvwxyz"
ANY = LETTERS + LETTERS.upper() + "0123456789"


def cases_of(ext):
    return [{c, c.upper()} for c in ext]


@scenario("T04", cases=[{"ext": e} for e in TABLE], bounds="each known extension in every mix of cases")
def known_extension(s, ext):
    t = "." + "".join(s.char(f"c{i}", cs) for i, cs in enumerate(cases_of(ext)))
    s.check(T.infer_from_extension(t) is TABLE[ext], "type of the file is that of the extension")


@scenario("T04", cases=[{"head": h, "n": n} for h in ("g", "gp", "gm") for n in (1, 2, 3)], bounds="each numbered extension, every number of up to three digits, any case")
def numbered_extension(s, head, n):
    t = "." + "".join(s.char(f"c{i}", cs) for i, cs in enumerate(cases_of(head))) + s.digits("d", n)
    s.check(T.infer_from_extension(t) is T.COPPER, "numbered layers are copper")


@scenario("T04", cases=[{"n": n} for n in range(5)], bounds="every extension of up to four letters and digits which is not a known one")
def unknown_extension(s, n):
    cs = [s.char(f"c{i}", ANY) for i in range(n)]
    t = "." + "".join(cs)
    got = T.infer_from_extension(t)
    if not s.sym:
        low = t[1:].lower()
        if re.match(r"g[pm]?[0-9]", low):
            s.assume(False)
        s.check(got is TABLE.get(low, T.UNDEFINED), "type of the file")
        return
    s.assume(s.lnot(_numbered(s, cs)))
    for e in TABLE:
        if len(e) != n:
            continue
        hit = s.land(*[_is(c, x) for c, x in zip(cs, e)])
        s.check(s.lor(s.lnot(hit), got is TABLE[e]), f"extension {e}")
    if n != 3:
        s.check(got is T.UNDEFINED, "an unknown extension has no type")
    elif got is not T.UNDEFINED:
        s.check(s.lor(*[s.land(*[_is(c, x) for c, x in zip(cs, e)]) for e, v in TABLE.items() if v is got]),
                "an unknown extension has no type")


def _is(c, x):
    from vf import core, strings

    return strings.in_set(core.ctx(), c, frozenset({x, x.upper()}))


def _numbered(s, cs):
    from vf import core, strings

    def dig(c):
        return strings.in_set(core.ctx(), c, frozenset("0123456789"))

    if len(cs) < 2:
        return False
    r = s.land(_is(cs[0], "g"), dig(cs[1]))
    if len(cs) > 2:
        r = s.lor(r, s.land(_is(cs[0], "g"), s.lor(_is(cs[1], "p"), _is(cs[1], "m")), dig(cs[2])))
    return r


FUNCTIONS = [f.value for f in E.FileFunction]


@scenario("T04", cases=[{"function": f} for f in FUNCTIONS], bounds="each file function in any case of its first letters, alone or with further fields")
def attribute(s, function):
    t = "".join(s.char(f"c{i}", {c.lower(), c.upper()}) for i, c in enumerate(function[:3])) + function[3:]
    rest = s.choice("rest", ["", ",L1,Top", ",Top", ","])
    got = T.infer_from_attributes(t + rest)
    s.check(got.value == function.upper(), "type of the file is its function")
    for m in (DEFAULT_COLOR_MAP, DEFAULT_ALPHA_COLOR_MAP):
        s.check(got in m, "the type has a style")


@scenario("T04", bounds="no function and every unknown function of four letters")
def unknown_attribute(s):
    s.check(T.infer_from_attributes(None) is T.UNDEFINED, "no function")
    t = "".join(s.char(f"c{i}", "qxzQXZ") for i in range(4))
    s.check(T.infer_from_attributes(t) is T.UNDEFINED, "unknown function")
    s.check(T("SOLDERPASTE") is T.PASTE, "other name of the paste layer")
    for m in (DEFAULT_COLOR_MAP, DEFAULT_ALPHA_COLOR_MAP):
        for v in T:
            if not v.name.startswith("INFER"):
                s.check(v in m, f"{v.name} has a style")


BODY = "%FSLAX24Y24*%%MOMM*%%ADD10R,1X2*%D10*X0Y0D03*M02*"


@scenario("T04", cases=[{"how": h} for h in ("from_str", "from_file", "given")], bounds="each file function and extension, inference from each; every style map entry")
def style(s, how):
    """The style used for rendering is that of the type of the file."""
    func = s.choice("function", [None, *(FUNCTIONS if how == "from_str" else FUNCTIONS[:6] if how == "from_file" else FUNCTIONS[:1])])
    text = ("" if func is None else f"%TF.FileFunction,{func}*%") + BODY
    by_attr = T.UNDEFINED if func is None else T(func.upper())
    if how == "from_str":
        ask = s.choice("ask", [T.INFER, T.INFER_FROM_ATTRIBUTES, T.INFER_FROM_EXTENSION])
        f = GerberFile.from_str(text, ask)
        want = T.UNDEFINED if ask is T.INFER_FROM_EXTENSION else by_attr
    elif how == "given":
        ask = s.choice("ask", [v for v in T if not v.name.startswith("INFER")][:6])
        f = GerberFile.from_str(text, ask)
        want = ask
    else:
        ask = s.choice("ask", [T.INFER, T.INFER_FROM_ATTRIBUTES, T.INFER_FROM_EXTENSION])
        ext = s.choice("ext", ["gbr", "gtl", "GTO", "xyz"])
        with tempfile.TemporaryDirectory() as d:
            p = Path(d) / f"a.{ext}"
            p.write_text(text)
            f = GerberFile.from_file(p, ask)
        by_ext = TABLE.get(ext.lower(), T.UNDEFINED)
        if ask is T.INFER_FROM_ATTRIBUTES:
            want = by_attr
        elif by_ext is T.INFER_FROM_ATTRIBUTES:
            want = by_attr
        elif by_ext is T.UNDEFINED:
            want = by_attr if ask is T.INFER else T.UNDEFINED
        else:
            want = by_ext
    from pygerber.gerber.api import Style
    from pygerber.vm.types.color import Color

    reds = {t: s.int(f"red{k}", 0, 255) for k, t in enumerate(T)}
    m = {t: Style(foreground=Color.from_rgba(r, 1, 2), background=Color.from_rgba(3, 4, 5)) for t, r in reds.items()}
    from props import raster

    with raster.pillow(s):
        im = f.set_color_map(m).render_with_pillow(dpmm=10).get_image()
        got = im.color(3, 3) if s.sym else im.getpixel((3, 3))
    s.eq(got[0], reds[want], "color is that of the type of the file")
    s.check(f.file_type is want, "type of the file")


# ---------------------------------------------------------------- projects

STACK = [T.COPPER, T.MASK, T.SOLDERMASK, T.PASTE, T.SILK, T.LEGEND, T.PROFILE]


def project(s, functions):
    """-> (project, names of files in their order)"""
    with tempfile.TemporaryDirectory() as d:
        root = Path(d)
        attrs = []
        for k, fn in enumerate(functions):
            (root / f"f{k}.gbr").write_text(f"G04 {k}*M02*")
            attrs.append({"Path": f"f{k}.gbr", "FileFunction": fn, "FilePolarity": "Positive"})
        job = {
            "Header": {"CreationDate": "x", "GenerationSoftware": {"Vendor": "a", "Application": "b", "Version": "c"}},
            "GeneralSpecs": {"ProjectId": {"Name": "n", "GUID": "g", "Revision": "r"}, "Size": {"X": 1, "Y": 2}, "LayerNumber": 2, "BoardThickness": 1.6},
            "FilesAttributes": attrs, "MaterialStackup": [],
        }
        (root / "p.gbrjob").write_text(json.dumps(job, ensure_ascii=False), encoding="utf-8")
        return GerberJobFile.from_file(root / "p.gbrjob").to_project()


def numbers(view):
    return [int(re.match(r"G04 (\d+)", f.source_code).group(1)) for f in view.files]


SIDES = ["Copper,L1,{}", "Soldermask,{}", "SolderPaste,{}", "Legend,{}", "Paste,{}"]
TYPE_OF = {"Copper": T.COPPER, "Soldermask": T.SOLDERMASK, "SolderPaste": T.PASTE, "Paste": T.PASTE, "Legend": T.LEGEND, "Profile": T.PROFILE}


@scenario("T04", cases=[{"first": k, "n": 3} for k in range(4)] + [{"first": k, "n": 4, "_tier": "thorough"} for k in range(5)],
          bounds="projects of up to three (thorough four) outer layers of any kind and side, in any order, names in any case, with or without outline")
def outer_layers(s, first, n):
    functions, top, bottom = [], {}, {}
    for k in range(n):
        f = SIDES[first] if k == 0 else s.choice(f"kind{k}", SIDES[:4])
        side = s.choice(f"side{k}", ["Top", "Bot"])
        word = "".join(s.char(f"s{k}_{i}", {c.lower(), c.upper()}) for i, c in enumerate(side[:2])) + side[2:] if k == 0 else side
        functions.append(f.format(word))
        (top if side == "Top" else bottom)[TYPE_OF[f.split(",")[0]]] = k  # the last one of a kind counts
    outline = s.choice("outline", [False, True])
    if outline:
        functions.insert(s.choice("at", [0, n]), "Profile,NP")
        if functions[0].startswith("Profile"):
            top, bottom = ({t: k + 1 for t, k in m.items()} for m in (top, bottom))
        where = 0 if functions[0].startswith("Profile") else n
        top[T.PROFILE] = bottom[T.PROFILE] = where
    p = project(s, functions)
    for view, m, name in ((p.top, top, "top"), (p.bottom, bottom, "bottom")):
        s.check(numbers(view) == [m[t] for t in STACK if t in m], f"files of the {name} view, from the bottom up")
        s.check([f.file_type for f in view.files] == [t for t in STACK if t in m], f"types of the files of the {name} view")
    s.check(len(p.inner) == 0, "no inner view")


@scenario("T04", cases=[{"n": 2}, {"n": 3}, {"n": 3, "outline": True}], bounds="projects of up to three inner layers of any two digit (the first: one digit) numbers, in any order", weight=2)
def inner_layers(s, n, outline=False):
    functions, vals = [], []
    for k in range(n):
        t = s.char(f"a{k}", "123456789") + (s.digits(f"d{k}", 1) if k else "")
        vals.append(t)
        functions.append(f"Copper,L{t},Inr")
    if outline:
        functions.append("Profile,NP")
    p = project(s, functions)
    nums = [_int(s, t, k) for k, t in enumerate(vals)]
    seen = []
    for view in p.inner:
        ks = numbers(view)
        s.check(ks[0] < n and (ks[1:] == ([n] if outline else [])), "one copper file, then the outline")
        seen.append(ks[0])
    for a, b in zip(seen, seen[1:]):
        s.check(nums[a] < nums[b], "inner views are ordered by the number of the layer")
    for k in range(n):
        if k not in seen:  # replaced by a later file of the same layer
            s.check(s.lor(*[nums[k] == nums[j] for j in seen if j > k]) if any(j > k for j in seen) else False, "every layer has its view")
    s.check(len(p.top) == len(p.bottom) == (1 if outline else 0), "inner layers are not in the outer views")


def _int(s, t, k):
    if not s.sym:
        return int(t)
    from vf import core, strings
    from vf.core import SI

    a = SI(strings.digit_of(core.ctx(), t[0], 10))
    return a if k == 0 else a * 10 + s.numval(f"d{k}")

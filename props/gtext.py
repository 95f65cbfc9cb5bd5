"""Texts of Gerber commands with symbolic digits and characters, and what they mean."""

import datetime

from pygerber.gerber.ast import nodes as N
from pygerber.gerber.ast.nodes import enums as E
from pygerber.gerber.parser.pyparsing.parser import Parser

_PARSERS: dict = {}


def parser(resilient=False):
    if resilient not in _PARSERS:
        _PARSERS[resilient] = Parser(resilient=resilient)
    return _PARSERS[resilient]


try:  # processes of the check share it
    parser()
except Exception:  # noqa: BLE001  # the scenarios report it
    _PARSERS.clear()

NAME0 = "_$abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
NAME = NAME0.replace("$", "") + "0123456789."
TEXT = "".join(chr(c) for c in range(33, 127) if chr(c) not in "%*")
FIELD = TEXT.replace(",", "")


# exact: digits denote integers from the start (not only when inspected)
# free: the only number (by position) which is symbolic, the others are given
CONFIG = {"exact": False, "free": None}


class Gen:
    """Builds the text of a command together with the expected content."""

    def __init__(self, s):
        self.s, self.text, self.want, self.k, self.numbers = s, "", {}, 0, 0

    def lit(self, t):
        self.text += t
        return self

    def num(self, field, form, signs=("",), add=False):
        """form: (integer digits, decimal digits); -1: point without decimals"""
        s = self.s
        self.k += 1
        i, d = form
        d, dot = max(d, 0), d < 0
        sign = s.choice(f"sign{self.k}", list(signs)) if len(signs) > 1 else signs[0]
        name = f"num{self.k}"
        if CONFIG["free"] in (None, self.numbers):
            ds = s.digits(name, i + d, exact=CONFIG["exact"])
            v = s.numval(name)
        else:
            ds = "123456789123456789"[self.numbers :][: i + d]
            v = int(ds)
        self.numbers += 1
        self.text += sign + ds[:i] + ("." + ds[i:] if d or dot else "")
        v = v / (10.0 ** d) if d else v
        v = -v if sign == "-" else v
        if add:
            self.want.setdefault(field, []).append(v)
        elif field is not None:
            self.want[field] = v
        return self

    def chars(self, field, n, first=FIELD, rest=FIELD, add=False):
        s = self.s
        self.k += 1
        t = "".join(s.char(f"c{self.k}_{i}", first if i == 0 else rest) for i in range(n))
        self.text += t
        if add:
            self.want.setdefault(field, []).append(t)
        elif field is not None:
            self.want[field] = t
        return self

    def digits(self, n, lead=False):
        self.k += 1
        if not lead:
            t = self.s.digits(f"i{self.k}", n)
        else:
            t = self.s.char(f"i{self.k}_0", "123456789") + (self.s.digits(f"i{self.k}", n - 1) if n > 1 else "")
        self.text += t
        return t

    def aperture(self, n=2):
        zeros = "" if CONFIG["exact"] else self.s.choice("zeros", ["", "0"])
        self.text += "D" + zeros
        t = self.digits(n, lead=True)
        self.want["aperture_id"] = "D" + t  # leading zeros are not significant
        return self

    def enum(self, field, table):
        k = self.s.choice(f"enum_{field}", list(table))
        self.text += k
        self.want[field] = table[k]
        return self


def same(s, got, want, label):
    if isinstance(want, list):
        s.check(isinstance(got, list) and len(got) == len(want), f"{label}: number of elements")
        for i, (g, w) in enumerate(zip(got, want)):
            same(s, g, w, f"{label}[{i}]")
    elif isinstance(want, (E.Enum, bool, datetime.datetime)) or want is None:
        s.check(got == want if want is not None else got is None, label)
    else:
        s.eq(got, want, label, tol=1e-9)


PM = ("", "-", "+")
FORMS = [(1, 0), (2, 0), (2, 2), (1, 3), (0, 2), (2, -1)]
DEEP = [(i, d) for i in range(6) for d in range(6) if 0 < i + d and (i, d) not in FORMS]


def forms(extra=()):
    return [{"form": f"{i}.{d}" if d >= 0 else f"{i}.", **dict(extra)} for i, d in FORMS] + [
        {"form": f"{i}.{d}", **dict(extra), "_tier": "thorough"} for i, d in DEEP]


def form_of(form):
    i, d = form.split(".")
    return int(i), int(d or -1)



COMMANDS: dict = {}  # name -> (function, cases, bounds)


def command(cases=None, bounds=""):
    def deco(fn):
        COMMANDS[fn.__name__] = (fn, cases or [{}], bounds)
        return fn

    return deco


# ------------------------------------------------------------ apertures


@command(cases=[{"kind": k, **f} for k in ("C", "CX", "R", "RX", "O", "OX", "P", "PX", "PXX") for f in forms()],
          bounds="every digit, leading zero of the identifier present or not; all optional parameters present or not")
def add_aperture(s, kind, form):
    f = form_of(form)
    g = Gen(s).lit("%AD").aperture()
    t, opt = kind[0], kind.count("X")
    g.lit(t + ",")
    if t == "C":
        cls = N.ADC
        g.num("diameter", f)
    elif t == "P":
        cls = N.ADP
        g.num("outer_diameter", f).lit("X").num("vertices", (2, 0))
        if opt:
            g.lit("X").num("rotation", f, ("", "-"))
            opt -= 1
    else:
        cls = N.ADR if t == "R" else N.ADO
        g.num("width", f).lit("X").num("height", f)
    if opt:
        g.lit("X").num("hole_diameter", f)
    return g.lit("*%"), cls


@command(cases=[{"n": n, **f} for n in range(4) for f in forms()], bounds="macro name of three characters other than the standard apertures, up to three parameters")
def add_macro_aperture(s, n, form):
    g = Gen(s).lit("%AD").aperture(3).chars("name", 3, NAME0 + ".", NAME)
    for i in range(n):
        g.lit("X" if i else ",").num("params", form_of(form), PM if i == 1 else ("",), add=True)
    return g.lit("*%"), N.ADmacro


# ------------------------------------------------------------ graphics state


@command(cases=[{"cmd": c, **f} for c in ("LR", "LS", "IR") for f in forms()], bounds="every decimal number with every sign")
def load_number(s, cmd, form):
    f = form_of(form)
    if cmd == "IR":
        f = (f[0] or 1, 0)
        g = Gen(s).lit("%IR").num("rotation_degrees", f, PM)
    else:
        g = Gen(s).lit("%" + cmd).num("rotation" if cmd == "LR" else "scale", f, PM)
    return g.lit("*%"), getattr(N, cmd)


@command(cases=[{"cmd": c} for c in ("LP", "LM", "IP", "MO", "AS")], bounds="every keyword")
def load_keyword(s, cmd):
    table = {
        "LP": ("polarity", {"C": E.Polarity.Clear, "D": E.Polarity.Dark}),
        "LM": ("mirroring", {"N": E.Mirroring.NONE, "X": E.Mirroring.X, "Y": E.Mirroring.Y, "XY": E.Mirroring.XY}),
        "IP": ("polarity", {"POS": E.ImagePolarity.POSITIVE, "NEG": E.ImagePolarity.NEGATIVE}),
        "MO": ("mode", {"MM": E.UnitMode.METRIC, "IN": E.UnitMode.IMPERIAL}),
        "AS": ("correspondence", {"AXBY": E.AxisCorrespondence.AX_BY, "AYBX": E.AxisCorrespondence.AY_BX}),
    }
    return Gen(s).lit("%" + cmd).enum(*table[cmd]).lit("*%"), getattr(N, cmd)


@command(cases=[{"cmd": c, **f} for c in ("OF", "SF") for f in forms()], bounds="each axis present or not")
def per_axis(s, cmd, form):
    suffix = "offset" if cmd == "OF" else "scale"
    g = Gen(s).lit("%" + cmd)
    for a in "AB":
        if s.choice("has" + a, [True, False]):
            g.lit(a).num(f"{a.lower()}_{suffix}", form_of(form), PM)
    return g.lit("*%"), getattr(N, cmd)


@command(bounds="each axis present or not, each value")
def mirror_image(s):
    g = Gen(s).lit("%MI")
    for a in "AB":
        v = s.choice("has" + a, ["", "0", "1"])
        if v:
            g.lit(a + v).want[f"{a.lower()}_mirroring"] = int(v)
    return g.lit("*%"), N.MI


@command(bounds="every zero omission, notation and digit")
def coordinate_format(s):
    g = Gen(s).lit("%FS").enum("zeros", {"L": E.Zeros.SKIP_LEADING, "T": E.Zeros.SKIP_TRAILING, "": E.Zeros.SKIP_LEADING_IMPLIED})
    g.enum("coordinate_mode", {"A": E.CoordinateNotation.ABSOLUTE, "I": E.CoordinateNotation.INCREMENTAL})
    g.lit("X").num("x_integral", (1, 0)).num("x_decimal", (1, 0))
    g.lit("Y").num("y_integral", (1, 0)).num("y_decimal", (1, 0))
    return g.lit("*%"), N.FS


@command(cases=[{"code": c} for c in (1, 2, 3, 36, 37, 54, 55, 70, 71, 74, 75, 90, 91)], bounds="with up to two leading zeros")
def g_code(s, code):
    z = s.choice("zeros", ["", "0", "00"])
    return Gen(s).lit(f"G{z}{code}*"), getattr(N, f"G{code:02d}")


@command(cases=[{"code": c} for c in (0, 1, 2)], bounds="with up to two leading zeros")
def m_code(s, code):
    z = s.choice("zeros", ["", "0", "00"])
    return Gen(s).lit(f"M{z}{code}*"), getattr(N, f"M{code:02d}")


@command(cases=[{"kind": k, "n": n} for k in ("G04", "G4", "LN", "IN", "TD") for n in (0, 1, 3) if n or k in ("G04", "G4", "TD")] +
          [{"kind": k, "n": 5, "_tier": "thorough"} for k in ("G04", "G4", "LN", "IN", "TD")],
          bounds="every printable text without the reserved characters")
def free_text(s, kind, n):
    if kind in ("G04", "G4"):
        g = Gen(s).lit(kind)
        if n:
            g.chars("string", n, TEXT, TEXT + " ")
        return g.lit("*"), N.G04
    else:
        g = Gen(s).lit("%" + kind)
        if n:
            g.chars("name", n, TEXT, TEXT + " ")
        return g.lit("*%"), getattr(N, kind)


# ------------------------------------------------------------ attributes


@command(cases=[{"kind": k, "n": n} for k in ("TA", "TF", "TO") for n in range(4)] + [{"kind": k, "n": 5, "_tier": "thorough"} for k in ("TA", "TF", "TO")],
          bounds="every user attribute name of three characters, up to three fields of up to two characters, possibly empty")
def user_attribute(s, kind, n):
    g = Gen(s).lit("%" + kind).chars("user_name", 3, NAME0, NAME)
    for i in range(n):
        g.lit(",").chars("fields", (2, 0, 1, 3, 2)[i], add=True)
    return g.lit("*%"), getattr(N, kind + "_UserName")


@command(cases=[{"n": n} for n in range(3)], bounds="every aperture function")
def aper_function(s, n):
    g = Gen(s).lit("%TA.AperFunction,").enum("function", {v.value: v for v in E.AperFunction})
    for i in range(n):
        g.lit(",").chars("fields", 2, add=True)
    return g.lit("*%"), N.TA_AperFunction


@command(cases=[{"n": n, **f} for n in range(3) for f in forms()], bounds="every tolerance")
def drill_tolerance(s, n, form):
    g = Gen(s).lit("%TA.DrillTolerance")
    for f in ("plus_tolerance", "minus_tolerance")[:n]:
        g.lit(",").num(f, form_of(form))
    return g.lit("*%"), N.TA_DrillTolerance


@command(cases=[{"n": n} for n in range(3)], bounds="every text, mode, mirroring and font")
def flash_text(s, n):
    g = Gen(s).lit("%TA.FlashText,").chars("string", 2).lit(",")
    g.enum("mode", {"B": "B", "C": "C"}).lit(",").enum("mirroring", {"R": "R", "M": "M"}).lit(",")
    g.chars("font", 2).lit(",").chars("size", 2)
    for i in range(n):
        g.lit(",").chars("comments", 2 - i, add=True)
    return g.lit("*%"), N.TA_FlashText


SIMPLE = {
    # name: (class, required, optional, repeated)
    "TF.SameCoordinates": (N.TF_SameCoordinates, [], ["identifier"], None),
    "TF.GenerationSoftware": (N.TF_GenerationSoftware, [], ["vendor", "application", "version"], None),
    "TF.ProjectId": (N.TF_ProjectId, [], ["name", "guid", "revision"], None),
    "TF.MD5": (N.TF_MD5, ["md5"], [], None),
    "TO.N": (N.TO_N, [], [], "net_names"),
    "TO.P": (N.TO_P, ["refdes", "number"], ["function"], None),
    "TO.C": (N.TO_C, ["refdes"], [], None),
    "TO.CMfr": (N.TO_CMfr, ["manufacturer"], [], None),
    "TO.CMPN": (N.TO_CMNP, ["part_number"], [], None),
    "TO.CVal": (N.TO_CVal, ["value"], [], None),
    "TO.CFtp": (N.TO_CFtp, ["footprint"], [], None),
    "TO.CPgN": (N.TO_CPgN, ["name"], [], None),
    "TO.CPgD": (N.TO_CPgD, ["description"], [], None),
    "TO.CLbN": (N.TO_CLbN, ["name"], [], None),
    "TO.CLbD": (N.TO_CLbD, ["description"], [], None),
    "TO.CSup": (N.TO_CSup, ["supplier", "supplier_part"], [], "other_suppliers"),
}


@command(cases=[{"attr": a} for a in SIMPLE], bounds="every number of optional fields, every field of two characters")
def standard_attribute(s, attr):
    cls, required, optional, repeated = SIMPLE[attr]
    g = Gen(s).lit("%" + attr)
    for f in required + optional[: s.choice("optional", list(range(len(optional) + 1)))]:
        g.lit(",").chars(f, 32 if f == "md5" else 2)
    if repeated:
        for i in range(s.choice("repeated", [0, 1, 2])):
            g.lit(",").chars(repeated, 2 - i, add=True)
    return g.lit("*%"), cls


@command(cases=[{"attr": a, **f} for a in ("CRot", "CHgt") for f in forms()], bounds="every number")
def numeric_attribute(s, attr, form):
    g = Gen(s).lit(f"%TO.{attr},").num("angle" if attr == "CRot" else "height", form_of(form), PM)
    return g.lit("*%"), getattr(N, "TO_" + attr)


@command(cases=[{"attr": a} for a in ("Part", "FileFunction", "FilePolarity", "Mount")], bounds="every keyword, up to two fields")
def keyword_attribute(s, attr):
    g = Gen(s)
    if attr == "Mount":
        cls = N.TO_CMnt
        g.lit("%TO.CMnt,").enum("mount", {v.value: v for v in E.Mount})
    elif attr == "FilePolarity":
        cls = N.TF_FilePolarity
        g.lit("%TF.FilePolarity,").enum("polarity", {"Positive": "Positive", "Negative": "Negative"})
    else:
        enum = E.Part if attr == "Part" else E.FileFunction
        cls = N.TF_Part if attr == "Part" else N.TF_FileFunction
        g.lit(f"%TF.{attr},").enum("part" if attr == "Part" else "file_function", {v.value: v for v in enum})
        for i in range(s.choice("fields", [0, 1, 2])):
            g.lit(",").chars("fields", 2, add=True)
    return g.lit("*%"), cls



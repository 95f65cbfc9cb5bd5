"""Attribute dictionaries."""

from vf.api import scenario

from props.geo import E, N, Prog, flatten
from pygerber.gerber.ast.state_tracking_visitor import StateTrackingVisitor
from pygerber.gerber.compiler.compiler import Compiler

ASSUMPTIONS = [
    "two user attribute names plus standard attributes; histories of 3 (thorough: 4) attribute commands",
    "JSON text of attribute values is produced by the pydantic core (not encoded)",
]

NAMES = ["aa", "bb"]
OPS = ["TA", "TO", "TF", "TD name", "TD all", "AD"]


def ap(i, d):
    return N.ADC(aperture_id=N.ApertureIdStr(f"D{10 + i}"), diameter=d)


def history(s, n):
    """-> (nodes, reference dictionaries, per aperture dictionaries)"""
    ta, to, tf, per = {}, {}, {}, {}
    nodes = []
    d = s.real("d", 0.1, 10)
    for i in range(n):
        op = s.choice(f"op{i}", OPS)
        if op == "TD all":
            nodes.append(N.TD(name=None))
            ta.clear()
            to.clear()
            continue
        if op == "AD":
            nodes.append(ap(i, d))
            per[f"D{10 + i}"] = dict(ta)
            continue
        name = s.choice(f"name{i}", NAMES)
        if op == "TD name":
            nodes.append(N.TD(name=name))
            ta.pop(name, None)
            to.pop(name, None)
            continue
        cls = {"TA": N.TA_UserName, "TO": N.TO_UserName, "TF": N.TF_UserName}[op]
        node = cls(user_name=name, fields=[f"v{i}"])
        nodes.append(node)
        {"TA": ta, "TO": to, "TF": tf}[op][name] = node
    return nodes, ta, to, tf, per


def same(s, got, want, what):
    s.check(set(got) == set(want), f"{what}: names {sorted(got)} instead of {sorted(want)}")
    for k in want:
        s.check(got[k] is want[k], f"{what}: value of {k}")


@scenario("C05", cases=[{"n": 3}, {"n": 4, "_tier": "thorough"}], bounds="any history of n attribute commands", max_paths=30000)
def lifecycle(s, n):
    nodes, ta, to, tf, per = history(s, n)
    v = StateTrackingVisitor()
    N.File(nodes=nodes).visit(v)
    at = v.state.attributes
    same(s, at.aperture_attributes, ta, "aperture attributes")
    same(s, at.object_attributes, to, "object attributes")
    same(s, at.file_attributes, tf, "file attributes")
    pa = v.state.apertures.per_aperture_attributes
    s.check(set(pa) == set(per), "apertures with attributes")
    for k in per:
        same(s, pa[k], per[k], f"attributes of aperture {k}")


@scenario("C05", bounds="attributes attached to compiled objects: flash, line, arc, region; aperture attributes to aperture shapes; file attributes to the program")
def metadata(s):
    import json

    d = s.real("d", 0.1, 10)
    p = Prog(s)
    a1 = s.choice("ta1", [False, True])
    if a1:
        p.add(N.TA_UserName(user_name="aa", fields=["1"]))
    p.circle("D10", d)
    if s.choice("ta2", [False, True]):
        p.add(N.TA_UserName(user_name="bb", fields=["2"]))
    o = s.choice("to", [False, True])
    if o:
        p.add(N.TO_UserName(user_name="oo", fields=["3"]))
    f = s.choice("tf", [False, True])
    if f:
        p.add(N.TF_UserName(user_name="ff", fields=["4"]))
    p.select("D10").add(N.G75())
    kind = s.choice("kind", ["flash", "line", "arc", "region"])
    if kind == "flash":
        p.flash("a")
    elif kind == "line":
        p.add(N.G01())
        p.draw("a")
    elif kind == "arc":
        p.add(N.G02())
        p.arc("a")
    else:
        p.add(N.G36(), N.G01())
        p.draw("a")
        p.draw("b")
        p.add(N.G37())
    inc = s.choice("include", [False, True])
    rvmc = p.compile(include_metadata=inc)
    main, aper, cur = [], [], None
    from pygerber.vm.commands import EndLayer, StartLayer

    for c in rvmc.commands:
        if isinstance(c, StartLayer):
            cur = c.id.id
        elif not isinstance(c, EndLayer):
            (main if cur == Compiler.MAIN_BUFFER_ID else aper).append(c)
    if not inc:
        s.check(all(c.metadata is None for c in main + aper) and rvmc.metadata is None, "metadata not asked for")
        return
    for c in main:
        s.check(c.metadata is not None and set(c.metadata) == ({"oo"} if o else set()), f"object attributes of the {kind}")
        if o:
            s.check(json.loads(c.metadata["oo"])["fields"] == ["3"], "value of the object attribute")
    for c in aper:
        s.check(c.metadata is not None and set(c.metadata) == ({"aa"} if a1 else set()), "aperture attributes of the flashed aperture")
    s.check(set(rvmc.metadata or {}) == ({"ff"} if f else set()), "file attributes of the program")

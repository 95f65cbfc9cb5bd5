"""End of program."""

from vf.api import scenario

from props import geo
from props.geo import N, Prog

ASSUMPTIONS = ["programs of 4 flashes with a stop command at any position"]


@scenario("C06", bounds="M00 or M02 before any of 4 flashes (or none); both settings of ignore_program_stop; image and interpreter state")
def stop(s):
    p = Prog(s)
    d = s.real("d", 0.1, 10)
    p.circle("D10", d).select("D10")
    at = s.choice("at", [0, 1, 2, 3, 4, None])
    stop = s.choice("cmd", [N.M00, N.M02])
    ignore = s.choice("ignore", [False, True])
    pts = []
    for i in range(4):
        if at == i:
            p.add(stop())
        pts.append(p.flash(f"p{i}"))
    if at == 4:
        p.add(stop())
    n = len(pts) if at is None or ignore else at
    want = [("shape", False, geo.ref_circle(q, d)) for q in pts[:n]]
    geo.same_tree(s, p.image(ignore_program_stop=ignore), want)


@scenario("C06", bounds="the functional compile entry point passes the option on; default stops")
def entry_point(s):
    from pygerber.gerber.compiler import compile

    p = Prog(s)
    d = s.real("d", 0.1, 10)
    p.circle("D10", d).select("D10")
    a = p.flash("a")
    p.add(N.M02())
    b = p.flash("b")
    mode = s.choice("mode", ["default", "no", "ignore"])
    kw = {"default": {}, "no": {"ignore_program_stop": False}, "ignore": {"ignore_program_stop": True}}[mode]
    rv = compile(p.file(), **kw)
    pts = [a, b] if mode == "ignore" else [a]
    geo.same_tree(s, geo.flatten(s, rv), [("shape", False, geo.ref_circle(q, d)) for q in pts])

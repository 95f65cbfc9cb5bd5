"""Order and completeness of compiled layers."""

from vf.api import scenario

from props import geo
from props.G06 import block
from props.G08 import const, var
from props.geo import E, N, Prog

ASSUMPTIONS = ["programs of 3 (thorough: 4) commands out of 10 kinds over 5 apertures"]

OPS = ["circle", "holed", "thermal", "block", "outer", "sr", "scale", "mirror", "draw", "region"]


def base(s):
    p = Prog(s)
    d = s.real("d", 0.5, 50)
    p.circle("D10", d)
    p.rect("D11", d, d, d / 2)
    prim = [
        N.Code1(exposure=const(1.0), diameter=var(1), center_x=const(0.0), center_y=const(0.0)),
        N.Code7(center_x=const(0.0), center_y=const(0.0), outer_diameter=N.Mul(head=var(1), tail=[const(4.0)]),
                inner_diameter=N.Mul(head=var(1), tail=[const(2.0)]), gap_thickness=var(1), rotation=const(0.0)),
    ]
    p.add(N.AM(open=N.AMopen(name="TH"), primitives=prim, close=N.AMclose()))
    p.add(N.ADmacro(aperture_id=N.ApertureIdStr("D12"), name="TH", params=[d]))
    q = p.sub()
    q.select("D12").add(N.D03()).select("D10").add(N.D03())
    p.add(block("D20", q))
    q = p.sub()
    q.select("D20").add(N.D03()).select("D12").add(N.LS(scale=2.0), N.D03(), N.LS(scale=1.0))
    p.add(block("D21", q))
    return p, d


def count(items):
    return sum(1 if k == "shape" else count(b) for k, _, b in items)


def step(s, p, i, d, st, op=None):
    op = op or s.choice(f"op{i}", OPS)
    sel = {"circle": "D10", "holed": "D11", "thermal": "D12", "block": "D20", "outer": "D21"}
    objects = {"circle": 1, "holed": 2, "thermal": 5, "block": 6, "outer": 11}
    if op in sel:
        p.select(sel[op])
        p.flash(f"p{i}")
        return objects[op]
    if op == "sr":
        q = p.sub()
        q.select("D12").add(N.D03()).select("D20").add(N.D03())
        p.add(N.SR(open=N.SRopen(x="2", y="1", i="3.0", j="0"), nodes=q.nodes, close=N.SRclose()))
        return 2 * (5 + 6)
    if op == "scale":
        p.add(N.LS(scale=s.real(f"k{i}", 0.1, 10)))
        return 0
    if op == "mirror":
        p.add(N.LM(mirroring=E.Mirroring.X))
        return 0
    if op == "draw":
        p.select("D10").add(N.G01())
        p.draw(f"p{i}")
        return 3
    p.add(N.G36(), N.G01())
    p.moveto(f"a{i}")
    p.draw(f"b{i}")
    p.draw(f"c{i}")
    p.add(N.G37())
    return 1


@scenario("G09", cases=[{"n": 2}] + [{"n": 3, "first": f} for f in OPS] + [{"n": 4, "first": f, "_tier": "thorough"} for f in OPS], bounds="any sequence of n commands; every layer complete, defined once and before use; the number of objects", max_paths=20000)
def layers(s, n, first=None):
    p, d = base(s)
    total = 0
    st = {}
    for i in range(n):
        total += step(s, p, i, d, st, None if i else first)
    img = geo.flatten(s, p.compile())
    s.check(count(img) == total, "number of drawn objects")

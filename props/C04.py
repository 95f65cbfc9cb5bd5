"""Graphics state: every command changes its own parameter and nothing else."""

from vf.api import scenario

from props.geo import E, N, Prog
from pygerber.gerber.ast.state_tracking_visitor import (
    ArcInterpolation, PlotMode, StateTrackingVisitor,
)

ASSUMPTIONS = ["one command from an arbitrary reachable state; the state is set up by commands with symbolic values"]


def snap(v):
    st = v.state
    f = st.coordinate_format
    return {
        "unit": st.unit_mode,
        "fmt": None if f is None else (f.zeros, f.x_integral, f.x_decimal, f.y_integral, f.y_decimal),
        "mode": None if f is None else f.coordinate_mode,
        "plot": st.plot_mode,
        "quad": st.arc_interpolation,
        "ap": st.current_aperture_id,
        "x": st.current_x,
        "y": st.current_y,
        "polarity": st.transform.polarity,
        "mirroring": st.transform.mirroring,
        "rotation": st.transform.rotation,
        "scaling": st.transform.scaling,
        "region": st.is_region,
        "apertures": dict(st.apertures.apertures),
        "blocks": dict(st.apertures.blocks),
        "macros": dict(st.apertures.macros),
        "ta": dict(st.attributes.aperture_attributes),
        "tf": dict(st.attributes.file_attributes),
        "to": dict(st.attributes.object_attributes),
        "img": (
            st.image_attributes.polarity, st.image_attributes.a_axis_mirroring, st.image_attributes.b_axis_mirroring,
            st.image_attributes.image_name, st.image_attributes.file_name, st.image_attributes.axis_correspondence,
        ),
        "img_rot": st.image_attributes.rotation,
        "a_off": st.image_attributes.a_axis_offset, "b_off": st.image_attributes.b_axis_offset,
        "a_sc": st.image_attributes.a_axis_scale, "b_sc": st.image_attributes.b_axis_scale,
    }


NUM = ("x", "y", "rotation", "scaling", "a_off", "b_off", "a_sc", "b_sc")


def same(s, got, want, what):
    for k, w in want.items():
        g = got[k]
        if k in NUM:
            s.eq(g, w, f"{what}: {k}")
        elif isinstance(w, dict):
            s.check(list(g) == list(w) and all(g[n] is w[n] for n in w), f"{what}: {k}")
        else:
            s.check(g == w, f"{what}: {k}")


def state0(s):
    """Arbitrary state reached through commands with symbolic arguments."""
    p = Prog(s)
    p.circle("D10", 1.0).rect("D11", 1.0, 2.0)
    v = StateTrackingVisitor()
    alt = s.choice("alt", [False, True])
    if alt:
        p.add(
            N.G02(), N.G75(), N.LP(polarity=E.Polarity.Clear), N.LM(mirroring=E.Mirroring.XY),
            N.IP(polarity=E.ImagePolarity.NEGATIVE), N.MI(a_mirroring=1, b_mirroring=0), N.IN(name="a"), N.LN(name="b"),
            N.TA_UserName(user_name="u", fields=[]), N.TO_UserName(user_name="v", fields=[]), N.G91(),
            N.MO(mode=E.UnitMode.IMPERIAL),
        )
    p.add(N.LR(rotation=s.real("r0", -360, 360)), N.LS(scale=s.real("k0", 0.01, 100)))
    p.add(N.OF(a_offset=s.real("oa", -10, 10), b_offset=s.real("ob", -10, 10)))
    p.add(N.SF(a_scale=s.real("sa", -10, 10), b_scale=s.real("sb", -10, 10)))
    p.moveto("m")
    p.select("D10")
    p.file().visit(v)
    return p, v


def commands(s):
    r, k = s.real("r1", -360, 360), s.real("k1", 0.01, 100)
    oa, ob = s.real("oa1", -10, 10), s.real("ob1", -10, 10)
    ad = N.ADC(aperture_id=N.ApertureIdStr("D12"), diameter=k)
    am = N.AM(open=N.AMopen(name="Q"), primitives=[], close=N.AMclose())
    ab = N.AB(open=N.ABopen(aperture_id=N.ApertureIdStr("D13")), nodes=[], close=N.ABclose())
    ta = N.TA_UserName(user_name="n1", fields=["1"])
    to = N.TO_UserName(user_name="n1", fields=["1"])
    tf = N.TF_UserName(user_name="n1", fields=["1"])
    add = lambda key, name, node: (lambda o: {key: {**o[key], name: node}})
    return [
        (N.G01(), lambda o: {"plot": PlotMode.LINEAR}),
        (N.G02(), lambda o: {"plot": PlotMode.ARC}),
        (N.G03(), lambda o: {"plot": PlotMode.CCW_ARC}),
        (N.G74(), lambda o: {"quad": ArcInterpolation.SINGLE_QUADRANT}),
        (N.G75(), lambda o: {"quad": ArcInterpolation.MULTI_QUADRANT}),
        (N.G36(), lambda o: {"region": True}),
        (N.G37(), lambda o: {"region": False}),
        (N.G70(), lambda o: {"unit": E.UnitMode.IMPERIAL}),
        (N.G71(), lambda o: {"unit": E.UnitMode.METRIC}),
        (N.MO(mode=E.UnitMode.IMPERIAL), lambda o: {"unit": E.UnitMode.IMPERIAL}),
        (N.MO(mode=E.UnitMode.METRIC), lambda o: {"unit": E.UnitMode.METRIC}),
        (N.G90(), lambda o: {"mode": E.CoordinateNotation.ABSOLUTE}),
        (N.G91(), lambda o: {"mode": E.CoordinateNotation.INCREMENTAL}),
        (N.G04(string="x"), lambda o: {}),
        (N.LP(polarity=E.Polarity.Dark), lambda o: {"polarity": E.Polarity.Dark}),
        (N.LP(polarity=E.Polarity.Clear), lambda o: {"polarity": E.Polarity.Clear}),
        (N.LM(mirroring=E.Mirroring.NONE), lambda o: {"mirroring": E.Mirroring.NONE}),
        (N.LM(mirroring=E.Mirroring.X), lambda o: {"mirroring": E.Mirroring.X}),
        (N.LM(mirroring=E.Mirroring.Y), lambda o: {"mirroring": E.Mirroring.Y}),
        (N.LR(rotation=r), lambda o: {"rotation": r}),
        (N.LS(scale=k), lambda o: {"scaling": k}),
        (N.Dnn(aperture_id=N.ApertureIdStr("D11")), lambda o: {"ap": "D11"}),
        (ad, add("apertures", "D12", ad)),
        (am, add("macros", "Q", am)),
        (ab, add("blocks", "D13", ab)),
        (ta, add("ta", "n1", ta)),
        (to, add("to", "n1", to)),
        (tf, add("tf", "n1", tf)),
        (N.OF(a_offset=oa, b_offset=ob), lambda o: {"a_off": oa, "b_off": ob}),
        (N.SF(a_scale=oa, b_scale=ob), lambda o: {"a_sc": oa, "b_sc": ob}),
        (N.IR(rotation_degrees=90), lambda o: {"img_rot": 90}),
        (N.IN(name="zz"), lambda o: {"img": (*o["img"][:3], "zz", *o["img"][4:])}),
        (N.LN(name="yy"), lambda o: {"img": (*o["img"][:4], "yy", o["img"][5])}),
        (N.IP(polarity=E.ImagePolarity.NEGATIVE), lambda o: {"img": (E.ImagePolarity.NEGATIVE, *o["img"][1:])}),
        (N.MI(a_mirroring=0, b_mirroring=1), lambda o: {"img": (o["img"][0], 0, 1, *o["img"][3:])}),
        (N.AS(correspondence=E.AxisCorrespondence.AY_BX), lambda o: {"img": (*o["img"][:5], E.AxisCorrespondence.AY_BX)}),
        (
            N.FS(zeros=E.Zeros.SKIP_TRAILING, coordinate_mode=E.CoordinateNotation.INCREMENTAL, x_integral=1, x_decimal=2, y_integral=3, y_decimal=4),
            lambda o: {"fmt": (E.Zeros.SKIP_TRAILING, 1, 2, 3, 4), "mode": E.CoordinateNotation.INCREMENTAL},
        ),
    ]


@scenario("C04", bounds="37 commands with symbolic arguments, each from an arbitrary state: new value of its parameter, every other parameter unchanged")
def one_step(s):
    p, v = state0(s)
    before = snap(v)
    cmds = commands(s)
    node, effect = s.choice("cmd", cmds)
    node.visit(v)
    want = {**before, **effect(before)}
    same(s, snap(v), want, type(node).__name__)


@scenario("C04", bounds="two commands in either order out of the transformation and mode commands: the last of the same kind wins, others commute")
def two_steps(s):
    p, v = state0(s)
    before = snap(v)
    cmds = [c for c in commands(s) if type(c[0]).__name__ in ("LP", "LM", "LR", "LS", "G01", "G02", "G03", "G74", "G75", "MO")]
    n1, e1 = s.choice("c1", cmds)
    n2, e2 = s.choice("c2", cmds)
    n1.visit(v)
    n2.visit(v)
    mid = {**before, **e1(before)}
    same(s, snap(v), {**mid, **e2(mid)}, "after two commands")


@scenario("C04", bounds="defaults of a fresh interpreter")
def defaults(s):
    v = StateTrackingVisitor()
    s.eq(v.state.current_x, 0.0, "x")
    s.eq(v.state.current_y, 0.0, "y")
    s.check(v.state.plot_mode is PlotMode.LINEAR, "plot mode")
    s.check(v.state.transform.polarity is E.Polarity.Dark, "polarity")
    s.check(v.state.transform.mirroring is E.Mirroring.NONE, "mirroring")
    s.eq(v.state.transform.rotation, 0.0, "rotation")
    s.eq(v.state.transform.scaling, 1.0, "scaling")
    s.check(not v.state.is_region and v.state.current_aperture_id is None, "region, aperture")
    w = StateTrackingVisitor()
    x = s.real("k", 0.1, 10)
    N.LS(scale=x).visit(w)
    s.eq(StateTrackingVisitor().state.transform.scaling, 1.0, "fresh state after another interpreter was used")

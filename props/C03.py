"""Current point and operation dispatch."""

from vf.api import scenario

from props.geo import E, N, Prog
from pygerber.gerber.ast.state_tracking_visitor import StateTrackingVisitor

ASSUMPTIONS = [
    "numbers are exact reals; replay on the real code compares with tolerance 1e-6",
    "sequences of 3 (thorough: 4) operations, each with any subset of X and Y",
]


class Rec(StateTrackingVisitor):
    def __init__(self):
        super().__init__()
        self.log = []

    def _r(self, kind):
        st = self.state
        self.log.append(
            (kind, (st.current_x, st.current_y), (self.coordinate_x, self.coordinate_y), (self.coordinate_i, self.coordinate_j))
        )

    def on_draw_line(self, node):
        self._r("line")

    def on_draw_cw_arc_sq(self, node):
        self._r("cw sq")

    def on_draw_cw_arc_mq(self, node):
        self._r("cw mq")

    def on_draw_ccw_arc_sq(self, node):
        self._r("ccw sq")

    def on_draw_ccw_arc_mq(self, node):
        self._r("ccw mq")

    def on_in_region_draw_line(self, node):
        self._r("region line")

    def on_in_region_draw_cw_arc_sq(self, node):
        self._r("region cw sq")

    def on_in_region_draw_cw_arc_mq(self, node):
        self._r("region cw mq")

    def on_in_region_draw_ccw_arc_sq(self, node):
        self._r("region ccw sq")

    def on_in_region_draw_ccw_arc_mq(self, node):
        self._r("region ccw mq")

    def on_flush_region(self):
        self.log.append(("flush",))

    def on_flash_circle(self, node, aperture):
        self._r("flash C " + aperture.aperture_id)

    def on_flash_rectangle(self, node, aperture):
        self._r("flash R " + aperture.aperture_id)

    def on_flash_obround(self, node, aperture):
        self._r("flash O " + aperture.aperture_id)

    def on_flash_polygon(self, node, aperture):
        self._r("flash P " + aperture.aperture_id)

    def on_flash_macro(self, node, aperture):
        self._r("flash M " + aperture.aperture_id)

    def on_flash_block(self, node, aperture):
        self._r("flash B " + aperture.open.aperture_id)


def same_log(s, got, want):
    s.check(len(got) == len(want), f"{len(got)} operations instead of {len(want)}")
    for k, (g, w) in enumerate(zip(got, want)):
        s.check(g[0] == w[0], f"operation {k} handled as {g[0]} instead of {w[0]}")
        for a, b, nm in zip(g[1:], w[1:], ("from", "to", "offset")):
            if b is None:
                continue
            s.eq(a[0], b[0], f"operation {k} {nm} x")
            s.eq(a[1], b[1], f"operation {k} {nm} y")


@scenario("C03", cases=[{"n": 3}, {"n": 4, "_tier": "thorough"}], bounds="sequences of n operations out of D01, D02, D03 with any of X, Y present", max_paths=30000)
def sequence(s, n):
    p = Prog(s)
    p.circle("D10", 1.0).select("D10").add(N.G01())
    cur = (0.0, 0.0)
    want = []
    for i in range(n):
        op = s.choice(f"op{i}", [N.D01, N.D02, N.D03])
        hx, hy = s.choice(f"xy{i}", [(True, True), (True, False), (False, True), (False, False)])
        kw = {}
        tgt = list(cur)
        if hx:
            t, v = p.coord(f"x{i}")
            kw["x"] = N.CoordinateX(value=t)
            tgt[0] = v
        if hy:
            t, v = p.coord(f"y{i}")
            kw["y"] = N.CoordinateY(value=t)
            tgt[1] = v
        p.add(op(**kw))
        tgt = tuple(tgt)
        if op is N.D01:
            want.append(("line", cur, tgt))
        elif op is N.D03:
            want.append(("flash C D10", cur, tgt))
        cur = tgt
    r = Rec()
    p.file().visit(r)
    same_log(s, r.log, want)
    s.eq(r.state.current_x, cur[0], "final x")
    s.eq(r.state.current_y, cur[1], "final y")


MODES = {
    "G01": ("line", None), "G02": ("cw", None), "G03": ("ccw", None),
    "G74": (None, "sq"), "G75": (None, "mq"),
}


@scenario("C03", cases=[{"n": 3}, {"n": 4}, {"n": 5, "_tier": "thorough"}], bounds="any history of n mode commands (G01 G02 G03 G74 G75 G36 G37), then one D01", max_paths=30000)
def dispatch(s, n):
    p = Prog(s)
    plot, quad, region = "line", "sq", False
    want = []
    for i in range(n):
        g = s.choice(f"g{i}", ["G01", "G02", "G03", "G74", "G75", "G36" if not region else "G37"])
        p.add(getattr(N, g)())
        if g in MODES:
            plot = MODES[g][0] or plot
            quad = MODES[g][1] or quad
        else:
            region = not region
            if not region:
                want.append(("flush",))
    b, o = p.arc("b")
    name = plot if plot == "line" else f"{plot} {quad}"
    want.append((("region " if region else "") + name, (0.0, 0.0), b, o))
    if region:
        c = p.moveto("c")
        want.append(("flush",))
    r = Rec()
    p.file().visit(r)
    same_log(s, r.log, want)


@scenario("C03", bounds="flash handler follows the kind of the selected aperture, for two selections out of six kinds")
def flash_kind(s):
    p = Prog(s)
    d = s.real("d", 0.01, 10)
    p.circle("D10", d).rect("D11", d, d).obround("D12", d, d).polygon("D13", d, 3)
    p.add(N.ADmacro(aperture_id=N.ApertureIdStr("D14"), name="M", params=[d]))
    p.add(N.AB(open=N.ABopen(aperture_id=N.ApertureIdStr("D15")), nodes=[], close=N.ABclose()))
    want = []
    cur = (0.0, 0.0)
    for i in range(2):
        k = s.choice(f"k{i}", [0, 1, 2, 3, 4, 5])
        p.select(f"D1{k}")
        a = p.flash(f"a{i}")
        want.append((f"flash {'CROPMB'[k]} D1{k}", cur, a))
        cur = a
    r = Rec()
    p.file().visit(r)
    same_log(s, r.log, want)


@scenario("C03", bounds="X and I use the x format, Y and J the y format; zero omission as in the format command")
def axes(s):
    zeros = s.choice("zeros", [E.Zeros.SKIP_LEADING, E.Zeros.SKIP_TRAILING])
    n = 6
    tx, ty, ti, tj = (s.digits(f"d:{k}", n) for k in "xyij")
    vx, vy, vi, vj = (s.numval(f"d:{k}") for k in "xyij")
    fs = N.FS(zeros=zeros, coordinate_mode=E.CoordinateNotation.ABSOLUTE, x_integral=3, x_decimal=4, y_integral=2, y_decimal=5)
    P = N.PackedCoordinateStr
    nodes = [
        fs, N.MO(mode=E.UnitMode.METRIC), N.G75(), N.G02(),
        N.D01(x=N.CoordinateX(value=P(tx)), y=N.CoordinateY(value=P(ty)), i=N.CoordinateI(value=P(ti)), j=N.CoordinateJ(value=P(tj))),
    ]
    fx, fy = (10**4, 10**5) if zeros is E.Zeros.SKIP_LEADING else (10**3, 10**4)
    r = Rec()
    N.File(nodes=nodes).visit(r)
    same_log(s, r.log, [("cw mq", (0.0, 0.0), (vx / fx, vy / fy), (vi / fx, vj / fy))])


@scenario("C03", bounds="an operation with coordinates before the format command is an error")
def no_format(s):
    from pygerber.gerber.ast.errors import CoordinateFormatNotSetError

    t = s.digits("d:x", 4)
    op = s.choice("op", [N.D01, N.D02, N.D03])
    axis = s.choice("axis", ["x", "y"])
    P = N.PackedCoordinateStr
    c = N.CoordinateX(value=P(t)) if axis == "x" else N.CoordinateY(value=P(t))
    f = N.File(nodes=[op(**{axis: c})])
    s.raises(CoordinateFormatNotSetError, lambda: f.visit(Rec()), "coordinates without format accepted")

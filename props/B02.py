"""Builder of virtual machine code."""

from contextlib import ExitStack

from props import geo
from vf.api import scenario

from pygerber.builder.rvmc import LockedBuilderError, RvmcBuilder
from pygerber.vm.commands import EndLayer, PasteLayer, Shape, StartLayer
from pygerber.vm.types import Box

ASSUMPTIONS = [
    "numbers are exact reals; replay on the real code compares with tolerance",
    "up to 4 (quick) / 6 (thorough) builder calls, up to 3 open layers",
]
SHAPES = ["circle", "rectangle", "obround", "polygon", "line", "cross", "x"]


def add_shape(s, layer, kind, k, neg):
    """Call the builder, return the reference objects."""
    x, y = s.real(f"x{k}", -50, 50), s.real(f"y{k}", -50, 50)
    w, h = s.real(f"w{k}", 0.01, 50), s.real(f"h{k}", 0.01, 50)
    if kind == "circle":
        layer.circle((x, y), w, is_negative=neg)
        out = [geo.ref_circle((x, y), w)]
    elif kind == "rectangle":
        layer.rectangle((x, y), w, h, is_negative=neg)
        out = [geo.ref_rect((x, y), w, h)]
    elif kind == "obround":
        layer.obround((x, y), w, h, is_negative=neg)
        out = [geo.ref_obround(s, (x, y), w, h)]
    elif kind == "polygon":
        n = s.choice(f"n{k}", [3, 4, 5])
        r = s.real(f"r{k}", -360, 360)
        layer.polygon((x, y), w, n, r, is_negative=neg)
        out = [geo.ref_polygon((x, y), w, n, r)]
    elif kind == "line":
        b = (s.real(f"bx{k}", -50, 50), s.real(f"by{k}", -50, 50))
        s.assume(s.lor(x - b[0] > 0.01, b[0] - x > 0.01, y - b[1] > 0.01, b[1] - y > 0.01))
        layer.line((x, y), b, w, is_negative=neg)
        out = [geo.ref_line(s, (x, y), b, w)]
    elif kind == "cross":
        t = s.real(f"t{k}", 0.01, 50)
        layer.cross((x, y), w, h, t, is_negative=neg)
        out = [geo.ref_rect((x, y), w, t), geo.ref_rect((x, y), t, h)]
    else:
        layer.x((x, y), w, h, is_negative=neg)
        d = w / 2
        out = [geo.ref_line(s, (x + d, y + d), (x - d, y - d), h), geo.ref_line(s, (x - d, y + d), (x + d, y - d), h)]
    return [("shape", neg, o) for o in out]


def read(s, rvmc):
    """Layers of the code: id -> (start command, drawing commands)."""
    stack, done = [], {}
    for c in rvmc.commands:
        if isinstance(c, StartLayer):
            stack.append((c, []))
        elif isinstance(c, EndLayer):
            s.check(bool(stack), "a layer is ended which was not started")
            c, body = stack.pop()
            s.check(c.id.id not in done, "a layer is defined twice")
            done[c.id.id] = (c, body)
        else:
            s.check(bool(stack), "a drawing command outside of a layer")
            if isinstance(c, PasteLayer):
                s.check(c.source_layer_id.id in done, "a layer is pasted after it is complete")
            stack[-1][1].append(c)
    s.check(not stack, "every layer is ended")
    return done


def tree(s, layers, name):
    out = []
    for c in layers[name][1]:
        if isinstance(c, Shape):
            out.append(("shape", c.is_negative, geo.segs_of(c)))
        else:
            src = layers[c.source_layer_id.id][0]
            m = geo.shift((c.center.x - src.origin.x, c.center.y - src.origin.y))
            out.append(("group", c.is_negative, geo.move_tree(tree(s, layers, c.source_layer_id.id), m)))
    return out


class Ref:
    def __init__(self, name, builder, origin, box):
        self.name, self.builder, self.origin, self.box, self.items = name, builder, origin, box, []


CASES = [{"first": f, "n": 3} for f in SHAPES] + [{"first": "open", "n": 4}] + [
    {"first": f, "n": 5, "_tier": "thorough"} for f in SHAPES + ["open"]
]


def layer_args(s, k):
    kind = s.choice(f"layer{k}", ["plain", "origin", "box"])
    origin = box = None
    if kind != "plain":
        origin = (s.real(f"ox{k}", -20, 20), s.real(f"oy{k}", -20, 20))
    if kind == "box":
        x, y = s.real(f"lx{k}", -20, 20), s.real(f"ly{k}", -20, 20)
        box = Box(min_x=x, min_y=y, max_x=x + s.real(f"lw{k}", 1, 20), max_y=y + s.real(f"lh{k}", 1, 20))
    return origin, box


@scenario("B02", cases=CASES, weight=3, bounds="every sequence of up to 3 or 4 (thorough 5) calls: shapes, opening, closing and pasting layers, with all sizes, places, polarities, boxes and origins")
def sequences(s, first, n):
    b = RvmcBuilder()
    stack, done, count = [], {}, 0

    def open_(ctx, name, k):
        origin, box = layer_args(s, k)
        st = ExitStack()
        args = {} if name == "%main%" else {"id_": name}
        if box is not None:
            args["box"] = box
        if origin is not None:
            args["origin"] = origin
        lb = st.enter_context(ctx.layer(**args))
        r = Ref(name, lb, origin or (0, 0), box)
        r.exit = st
        stack.append(r)

    def close():
        r = stack.pop()
        r.exit.close()
        done[r.name] = r

    open_(b, "%main%", 0)
    used = 0
    for k in range(1, n + 1):
        options = ["x" if k % 2 else "rectangle"]
        if len(stack) < 3 and count < 2:
            options.append("open")
        if len(stack) > 1:
            options.append("close")
        options += [f"paste {d}" for d in done]
        op = first if k == 1 else s.choice(f"op{k}", options)
        top = stack[-1]
        neg = s.choice(f"neg{k}", [False, True]) if k < 3 else bool(k % 2)
        if op == "open":
            count += 1
            open_(top.builder, f"l{count}", k)
        elif op == "close":
            close()
        elif op.startswith("paste"):
            src = done[op.split()[1]]
            at = (s.real(f"x{k}", -50, 50), s.real(f"y{k}", -50, 50))
            top.builder.paste(src.builder, at, is_negative=neg)
            m = geo.shift((at[0] - src.origin[0], at[1] - src.origin[1]))
            top.items.append(("group", neg, geo.move_tree(src.items, m)))
        else:
            top.items += add_shape(s, top.builder, op, k, neg)
            used += 1
    while stack:
        close()
    layers = read(s, b.get_rvmc())
    s.check(sorted(layers) == sorted(done), "layers of the code are the layers made")
    for name, ref in done.items():
        start = layers[name][0]
        s.eq(start.origin.x, ref.origin[0], "origin x")
        s.eq(start.origin.y, ref.origin[1], "origin y")
        if ref.box is None:
            s.check(start.box is None, "layer without a box is sized automatically")
        else:
            for side in ("min_x", "min_y", "max_x", "max_y"):
                s.eq(getattr(start.box, side), getattr(ref.box, side), f"{side} of the box")
        geo.same_tree(s, tree(s, layers, name), ref.items, f"layer {name}")


def _call(lb, kind, x, other):
    return {
        "circle": lambda: lb.circle((x, 0), 1, is_negative=False),
        "rectangle": lambda: lb.rectangle((x, 0), 1, 1, is_negative=False),
        "obround": lambda: lb.obround((x, 0), 1, 2, is_negative=False),
        "polygon": lambda: lb.polygon((x, 0), 1, 3, 0, is_negative=False),
        "line": lambda: lb.line((x, 0), (x + 1, 1), 1, is_negative=False),
        "cross": lambda: lb.cross((x, 0), 1, 1, 1, is_negative=False),
        "x": lambda: lb.x((x, 0), 1, 1, is_negative=False),
        "paste": lambda: lb.paste(other, (x, 0), is_negative=False),
        "layer": lambda: lb.layer("again").__enter__(),
    }[kind]


@scenario("B02", bounds="every method of a finished layer, of the main or of a nested layer")
def finished(s):
    x = s.real("x", -50, 50)
    b = RvmcBuilder()
    with b.layer() as main:
        with main.layer("other") as other:
            other.circle((x, 0), 1, is_negative=False)
    nested = s.choice("nested", [False, True])
    kind = s.choice("kind", [*SHAPES, "paste", "layer"])
    lb = other if nested else main
    before = len(lb.commands)
    s.raises(RuntimeError, _call(lb, kind, x, other), f"{kind} on a finished layer is rejected")
    s.check(len(lb.commands) == before, "nothing is added to a finished layer")


@scenario("B02", bounds="builder used after or while the code is taken, second nested layer while one is open")
def misuse(s):
    kind = s.choice("kind", ["after", "during", "two"])
    x = s.real("x", -50, 50)
    b = RvmcBuilder()
    if kind == "after":
        with b.layer() as main:
            main.circle((x, 0), 1, is_negative=False)
        b.get_rvmc()
        s.raises(LockedBuilderError, lambda: b.layer().__enter__(), "builder is locked once the code was taken")
    elif kind == "during":

        def run():
            with b.layer() as main:
                main.circle((x, 0), 1, is_negative=False)
                b.get_rvmc()

        s.raises(LockedBuilderError, run, "taking the code before the layer is finished is reported")
    else:
        with b.layer() as main:
            with main.layer("a") as a:
                a.circle((x, 0), 1, is_negative=False)
                s.raises(RuntimeError, lambda: main.layer("b").__enter__(), "second layer is rejected while one is open")
            with main.layer("b") as c:
                c.circle((x, 0), 1, is_negative=False)
        s.check(sorted(read(s, b.get_rvmc())) == ["%main%", "a", "b"], "layers one after another are all defined")

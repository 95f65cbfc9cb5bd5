"""Layers of the virtual machine."""

from vf.api import scenario

from pygerber.vm.commands import EndLayer, PasteLayer, Shape, StartLayer
from pygerber.vm.pillow import PillowVirtualMachine
from pygerber.vm.rvmc import RVMC
from pygerber.vm.shapely import ShapelyVirtualMachine
from pygerber.vm.types import (
    Box,
    LayerAlreadyExistsError,
    LayerID,
    LayerNotFoundError,
    NoLayerSetError,
    Vector,
)
from pygerber.vm.vm import VirtualMachine

ASSUMPTIONS = [
    "numbers are exact reals",
    "drawing is observed where the virtual machine hands commands to its eager handlers (overridden in the harness)",
]


class Recorder(VirtualMachine):
    def __init__(self, **kw):
        self.log = []
        super().__init__(**kw)

    def on_shape_eager(self, command):
        self.log.append((self.layer.layer_id.id, command))

    def on_paste_layer_eager(self, command):
        self.log.append((self.layer.layer_id.id, command))


class Ref:
    """Reference: stack of open layers, drawing order and boxes."""

    def __init__(self, s):
        self.s, self.stack, self.log, self.done, self.n = s, [], [], {}, 0

    def start(self, box, origin):
        self.n += 1
        name = f"l{self.n}"
        self.stack.append({"name": name, "box": box, "origin": origin, "cmds": []})
        return name

    def draw(self, cmd, box):
        top = self.stack[-1]
        if top["box"] is not None:
            self.log.append((top["name"], cmd))
        top["cmds"].append((cmd, box))

    def end(self):
        top = self.stack.pop()
        box = top["box"]
        if box is None:
            for _, b in top["cmds"]:
                if b is not None:
                    box = b if box is None else self.union(box, b)
            if box is not None:
                self.log += [(top["name"], c) for c, _ in top["cmds"]]
        self.done[top["name"]] = (box, top["origin"])

    def union(self, a, b):
        s = self.s
        return tuple(s.ite(b[k] < a[k], b[k], a[k]) if k < 2 else s.ite(b[k] > a[k], b[k], a[k]) for k in range(4))


def rbox(b):
    return Box(min_x=b[0], min_y=b[1], max_x=b[2], max_y=b[3])


@scenario("V05", cases=[{"first": f, "second": g, "n": 5} for f in ("auto", "fixed") for g in ("auto", "fixed", "end", "shape")] + [{"first": f, "second": g, "n": 7, "_tier": "thorough"} for f in ("auto", "fixed") for g in ("auto", "fixed", "end", "shape")],
          bounds="every sequence of up to 5 (thorough 7) further commands: start of an automatic or fixed layer, end, shape, paste of a finished layer; all places and sizes", weight=4)
def sequences(s, first, second, n):
    odd = s.choice("clear", [0, 1])  # polarities alternate
    vm, ref = Recorder(), Ref(s)

    def start(kind, k):
        o = (s.real(f"ox{k}", -20, 20), s.real(f"oy{k}", -20, 20))
        box = None
        if kind == "fixed":
            x, y, w, h = s.real(f"bx{k}", -20, 20), s.real(f"by{k}", -20, 20), s.real(f"bw{k}", 1, 20), s.real(f"bh{k}", 1, 20)
            box = (x, y, x + w, y + h)
        name = ref.start(box, o)
        vm.on_start_layer(StartLayer(id=LayerID(id=name), box=None if box is None else rbox(box), origin=Vector(x=o[0], y=o[1])))

    start(first, 0)
    for k in range(1, n + 1):
        options = ["auto", "fixed"] if len(ref.stack) < 3 else []
        if ref.stack:
            options += ["end", "shape", *[f"paste {d}" for d in ref.done][:2]]
        op = second if k == 1 else s.choice(f"op{k}", options)
        if op in ("auto", "fixed"):
            start(op, k)
        elif op == "end":
            vm.on_end_layer(EndLayer())
            ref.end()
        elif op == "shape":
            x, y, w, h = s.real(f"x{k}", -20, 20), s.real(f"y{k}", -20, 20), s.real(f"w{k}", 1, 20), s.real(f"h{k}", 1, 20)
            cmd = Shape.new_rectangle((x, y), w, h, is_negative=k % 2 == odd)
            vm.on_shape(cmd)
            ref.draw(cmd, (x - w / 2, y - h / 2, x + w / 2, y + h / 2))
        else:
            src = op.split()[1]
            x, y = s.real(f"x{k}", -20, 20), s.real(f"y{k}", -20, 20)
            cmd = PasteLayer(source_layer_id=LayerID(id=src), center=Vector(x=x, y=y), is_negative=k % 2 == odd)
            vm.on_paste_layer(cmd)
            b, o = ref.done[src]
            ref.draw(cmd, None if b is None else (b[0] + x - o[0], b[1] + y - o[1], b[2] + x - o[0], b[3] + y - o[1]))
    while ref.stack:
        vm.on_end_layer(EndLayer())
        ref.end()
    s.check(vm.is_layer_stack_empty(), "all layers are closed")
    s.check([a for a, _ in vm.log] == [a for a, _ in ref.log], "every command is drawn on the layer which was open, in order")
    s.check(all(g is w for (_, g), (_, w) in zip(vm.log, ref.log)), "commands are the ones given")
    for name, (box, o) in ref.done.items():
        layer = vm.get_layer(LayerID(id=name))
        s.eq(layer.origin.x, o[0], "origin x")
        s.eq(layer.origin.y, o[1], "origin y")
        if box is None:
            continue
        for side, w in zip(("min_x", "min_y", "max_x", "max_y"), box):
            s.eq(getattr(layer.box, side), w, f"{side} of the layer")


def _start(name, box=None):
    return StartLayer(id=LayerID(id=name), box=box)


@scenario("V05", cases=[{"backend": b} for b in ("pillow", "shapely", "base")],
          bounds="wrong uses: layer defined twice, end without start, paste of a layer which does not exist")
def errors(s, backend):
    new = {"pillow": lambda: PillowVirtualMachine(10), "shapely": ShapelyVirtualMachine, "base": VirtualMachine}[backend]
    x, y = s.real("x", -20, 20), s.real("y", -20, 20)
    rect = Shape.new_rectangle((x, y), 2, 3, is_negative=False)
    box = Box(min_x=-30, min_y=-30, max_x=30, max_y=30)
    from props import raster

    kind = s.choice("kind", ["twice", "twice_fixed", "twice_open", "end", "end_twice", "paste", "paste_fixed"])
    paste = PasteLayer(source_layer_id=LayerID(id="nothing"), center=Vector(x=x, y=y), is_negative=False)
    cmds, exc = {
        "twice": ([_start("a"), rect, EndLayer(), _start("a"), rect, EndLayer()], LayerAlreadyExistsError),
        "twice_fixed": ([_start("a", box), rect, EndLayer(), _start("a"), rect, EndLayer()], LayerAlreadyExistsError),
        "twice_open": ([_start("a"), _start("a", box)], LayerAlreadyExistsError),
        "end": ([EndLayer()], NoLayerSetError),
        "end_twice": ([_start("a"), rect, EndLayer(), EndLayer()], NoLayerSetError),
        "paste": ([_start("%main%"), rect, paste, EndLayer()], LayerNotFoundError),
        "paste_fixed": ([_start("%main%", box), rect, paste, EndLayer()], None if backend == "base" else LayerNotFoundError),
    }[kind]
    with raster.pillow(s), raster.shapely(s):
        if exc is None:
            new().run(RVMC(commands=cmds))
            s.check(True, "nothing to look up")
        else:
            s.raises(exc, lambda: new().run(RVMC(commands=cmds)), f"{kind}: {exc.__name__} is raised")

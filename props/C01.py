"""Decoding of packed coordinates."""

from vf.api import scenario

from pygerber.gerber.ast.errors import (
    PackedCoordinateTooLongError,
    PackedCoordinateTooShortError,
)
from pygerber.gerber.ast.nodes import PackedCoordinateStr
from pygerber.gerber.ast.nodes.enums import CoordinateNotation, Zeros
from pygerber.gerber.ast.state_tracking_visitor import CoordinateFormat

ASSUMPTIONS = [
    "float() of a decimal literal is the exact decimal value (reals, not IEEE doubles); "
    "replay compares with a tolerance of 1e-6 relative",
    "digit strings up to 9 (quick) / 13 (thorough) characters",
]


def reference(zeros, sign, value, n, integral, decimal):
    """Reference decoding: `value` is the integer reading of the n digits."""
    if zeros is Zeros.SKIP_TRAILING:
        exp = integral - n
    else:
        exp = -decimal
    v = value * (10**exp) if exp >= 0 else value / (10 ** (-exp))
    return -v if sign == "-" else v


CASES = [
    {"xi": xi, "xd": xd, "yi": yi, "yd": yd, "_tier": "quick"}
    for xi, xd, yi, yd in [
        (1, 1, 2, 3), (2, 6, 4, 5), (4, 6, 3, 2), (3, 5, 1, 4), (6, 3, 5, 1), (2, 2, 6, 6),
    ]
] + [
    {"xi": i, "xd": d, "yi": d, "yd": i, "_tier": "thorough"}
    for i in range(1, 8) for d in range(1, 8)
]


@scenario("C01", cases=CASES, bounds="every digit string of every length 0..integral+decimal+2, each sign spelling, 3 zero-omission modes, both axes, both notations")
def decode(s, xi, xd, yi, yd):
    zeros = s.choice("zeros", [Zeros.SKIP_LEADING, Zeros.SKIP_TRAILING, Zeros.SKIP_LEADING_IMPLIED])
    mode = s.choice("mode", [CoordinateNotation.ABSOLUTE, CoordinateNotation.INCREMENTAL])
    axis = s.choice("axis", ["x", "y"])
    sign = s.choice("sign", ["", "+", "-"])
    integral, decimal = (xi, xd) if axis == "x" else (yi, yd)
    n = s.choice("n", list(range(integral + decimal + 3)))
    digits = s.digits("d:digits", n) if n else ""
    fmt = CoordinateFormat(
        zeros=zeros, coordinate_mode=mode, x_integral=xi, x_decimal=xd, y_integral=yi, y_decimal=yd
    )
    text = PackedCoordinateStr(sign + digits)
    unpack = fmt.unpack_x if axis == "x" else fmt.unpack_y
    if n > integral + decimal:
        s.raises(PackedCoordinateTooLongError, lambda: unpack(text), "too long coordinate not rejected")
    elif n == 0:
        s.raises(PackedCoordinateTooShortError, lambda: unpack(text), "empty coordinate not rejected")
    else:
        got = unpack(text)
        want = reference(zeros, sign, s.numval("d:digits"), n, integral, decimal)
        s.eq(got, want, f"decoded {axis} value", tol=1e-9)

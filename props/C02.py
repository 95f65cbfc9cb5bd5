"""Encoding of coordinates and the encode/decode round trip."""

from vf.api import scenario

from pygerber.gerber.ast.errors import PackedCoordinateTooLongError
from pygerber.gerber.ast.nodes.enums import Zeros
from pygerber.gerber.ast.state_tracking_visitor import CoordinateFormat

ASSUMPTIONS = [
    "fixed-point formatting is modelled as exact round-half-even of a real number "
    "(IEEE ties may round the other way; the claim is within half a unit in the last place)",
    "negative zero is outside of the claim",
]

CASES = [
    {"xi": xi, "xd": xd, "yi": yi, "yd": yd, "_tier": "quick"}
    for xi, xd, yi, yd in [(1, 1, 2, 3), (2, 4, 3, 2), (2, 6, 4, 5), (4, 6, 1, 4)]
] + [
    {"xi": i, "xd": d, "yi": d, "yd": i, "_tier": "thorough"}
    for i in range(1, 7) for d in range(1, 7)
]


@scenario("C02", cases=CASES, bounds="every real value with magnitude up to 20 times the representable range, zero omission L/T/implied, both axes")
def round_trip(s, xi, xd, yi, yd):
    s.fmt_digits()
    zeros = s.choice("zeros", [Zeros.SKIP_LEADING, Zeros.SKIP_TRAILING, Zeros.SKIP_LEADING_IMPLIED])
    axis = s.choice("axis", ["x", "y"])
    i, d = (xi, xd) if axis == "x" else (yi, yd)
    v = s.real("v", -(10**i) * 20, 10**i * 20)
    fmt = CoordinateFormat(zeros=zeros, x_integral=xi, x_decimal=xd, y_integral=yi, y_decimal=yd)
    pack, unpack = (fmt.pack_x, fmt.unpack_x) if axis == "x" else (fmt.pack_y, fmt.unpack_y)
    unit = 10.0**-d
    if s.lor(v >= 10**i, v <= -(10**i)):
        s.raises(PackedCoordinateTooLongError, lambda: pack(v), "value outside of the format was encoded")
        return
    try:
        text = pack(v)
    except PackedCoordinateTooLongError:
        # only tolerable when rounding reaches the next power of ten
        s.check(s.lor(v > 10**i - unit, v < -(10**i) + unit), "representable value rejected")
        return
    body = text[1:] if text[0] in ("+", "-") else text
    s.check(1 <= len(body) <= i + d, "encoded coordinate does not fit the format")
    back = unpack(text)
    s.le(back - v, unit / 2, "decoded value too large", tol=1e-9)
    s.le(v - back, unit / 2, "decoded value too small", tol=1e-9)
    # encoding what was decoded is stable
    again = pack(back)
    s.eq(unpack(again), back, "re-encoding changes the value", tol=1e-9)


@scenario("C02", cases=[{"i": 2, "d": 2}, {"i": 3, "d": 1}, {"i": 1, "d": 3}, {"i": 2, "d": 4, "_tier": "thorough"}],
          bounds="every coordinate text of length 1..integral+decimal: decode, encode, decode")
def text_round_trip(s, i, d):
    s.fmt_digits()
    zeros = s.choice("zeros", [Zeros.SKIP_LEADING, Zeros.SKIP_TRAILING])
    sign = s.choice("sign", ["", "-", "+"])
    axis = s.choice("axis", ["x", "y"])
    n = s.choice("n", list(range(1, i + d + 1)))
    digits = s.digits("d:digits", n, exact=True)
    # keep the claim off negative zero
    s.assume(s.lor(sign != "-", s.numval("d:digits") >= 1))
    if axis == "x":
        fmt = CoordinateFormat(zeros=zeros, x_integral=i, x_decimal=d, y_integral=d + 1, y_decimal=i)
        pack, unpack = fmt.pack_x, fmt.unpack_x
    else:
        fmt = CoordinateFormat(zeros=zeros, x_integral=d + 1, x_decimal=i, y_integral=i, y_decimal=d)
        pack, unpack = fmt.pack_y, fmt.unpack_y
    v = unpack(sign + digits)
    t = pack(v)
    s.eq(unpack(t), v, "decode(encode(decode(text))) differs", tol=1e-9)

"""Colors."""

from vf.api import scenario

from pygerber.vm.types.color import Color, InvalidHexColorLiteralError

ASSUMPTIONS = [
    "numbers are exact reals; replay on the real code compares with tolerance",
    "texts up to 10 characters over the printable ASCII characters and the line feed",
]
HEX = "0123456789abcdefABCDEF"
ANY = "".join(chr(c) for c in range(32, 127)) + "\n"


def channels(c):
    return (c.red, c.green, c.blue, c.alpha)


@scenario("T01", cases=[{"hash": h, "n": n} for h in ("", "#") for n in (6, 8)], bounds="every six or eight hexadecimal digits of either case, with and without the leading hash")
def from_hex(s, hash, n):
    ds = [s.char(f"d{i}", HEX) for i in range(n)]
    c = Color.from_hex(hash + "".join(ds))
    vals = [hexval(s, d) for d in ds]
    for i, (got, name) in enumerate(zip(channels(c), ("red", "green", "blue", "alpha"))):
        want = 255 if 2 * i >= n else vals[2 * i] * 16 + vals[2 * i + 1]
        s.eq(got, want, name)


def hexval(s, d):
    if not s.sym:
        return int(d, 16)
    from vf import core, strings
    from vf.core import SI

    return SI(strings.digit_of(core.ctx(), d, 16))


@scenario("T01", cases=[{"hash": h, "n": n} for h in ("", "#") for n in range(0, 10)],
          bounds="every text of n characters after the optional hash, of which one (any) is not a hexadecimal digit or whose length is not six or eight")
def invalid(s, hash, n):
    if n in (6, 8):
        k = s.choice("k", list(range(n)))
        bad = [c for c in ANY if c not in HEX and not (k == 0 and not hash and c == "#")]
        text = "".join(s.char(f"d{i}", bad if i == k else ANY) for i in range(n)) if n == 6 else "".join(s.char(f"d{i}", bad if i == k else HEX) for i in range(n))
        if not hash and n == 8:
            pass
    else:
        text = "".join(s.char(f"d{i}", ANY) for i in range(n))
        if not hash and n in (7, 9):
            s.assume(s.lnot(text[0] == "#") if not s.sym else s.lnot(is_hash(text[0])))
    s.raises(InvalidHexColorLiteralError, lambda: Color.from_hex(hash + text), "text which is not a color is rejected")


def is_hash(c):
    from vf import core, strings

    return strings.char_is(core.ctx(), c, "#")


@scenario("T01", bounds="every color")
def round_trip(s):
    s.fmt_digits()
    v = [s.int(n, 0, 255) for n in ("red", "green", "blue", "alpha")]
    c = Color.from_rgba(*v)
    text = c.to_hex()
    s.check(len(text) == 9, "hexadecimal text has a hash and eight digits")
    s.check(text[0] == "#", "hexadecimal text begins with a hash")
    back = Color.from_hex(text)
    for got, want, f, name in zip(channels(back), v, c.as_rgba_float(), ("red", "green", "blue", "alpha")):
        s.eq(got, want, f"{name} after writing and reading back")
        s.eq(f * 255, want, f"{name} as a fraction")
    for got, want in zip(c.as_rgba_int(), v):
        s.eq(got, want, "integer channel")
    for got, want in zip(c.as_rgb_int(), v[:3]):
        s.eq(got, want, "integer channel")
    s.eq(Color.from_rgba(v[0], v[1], v[2]).alpha, 255, "default alpha is opaque")


@scenario("T01", cases=[{"q": q} for q in range(6)], bounds="every hue of the sixth, saturation and value")
def hsv(s, q):
    h = s.int("h", 60 * q, 60 * q + 60)
    sat, val = s.real("s", 0, 100), s.real("v", 0, 100)
    a = s.int("a", 0, 255)
    c = Color.from_hsv(h, sat, val, a)
    p = val * (1 - sat / 100)  # smallest channel in percent
    f = (h - 60 * q) / 60.0
    up = p + (val - p) * f
    dn = val - (val - p) * f
    want = [(val, up, p), (dn, val, p), (p, val, up), (p, dn, val), (up, p, val), (val, p, dn)][q]
    for got, w, name in zip(channels(c), want, ("red", "green", "blue")):
        s.le(w * 2.55 - 0.5, got, f"{name}: not too small", tol=1e-5)
        s.le(got, w * 2.55 + 0.5, f"{name}: not too large", tol=1e-5)
    s.eq(c.alpha, a, "alpha")

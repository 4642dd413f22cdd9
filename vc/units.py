"""Contract of astropy.units and of the pixel scales of a WCS, over symbolic values."""
from fractions import Fraction
import z3
from . import core, arr, shim
from .core import SNum, SBool, Unsupported, num, as_num, T, simp, FALSE
from .arr import SArr, SSel, ew
from .shim import use, Shim

TEXT = "a Quantity is a value with a unit; products, quotients and .to() multiply by the exact ratio of the unit scales; incompatible units raise; numbers keep their shape"


class UnitConversionError(TypeError):
    pass


def frac(f):
    return SNum(z3.Q(f.numerator, f.denominator), FALSE, "f")


class Unit:
    """scale (number, relative to deg and pix) and dimension exponents"""
    _is_unit = True

    def __init__(self, scale, dims, name=None):
        self.scale, self.dims, self.name = scale, {k: v for k, v in dims.items() if v}, name
        use("astropy.units", TEXT)

    def _mul(self, o, s):
        d = dict(self.dims)
        for k, v in o.dims.items():
            d[k] = d.get(k, 0) + s * v
        return Unit(self.scale * o.scale if s > 0 else self.scale / o.scale, d)

    def __mul__(self, o):
        if isinstance(o, Unit):
            return self._mul(o, 1)
        if isinstance(o, Quantity):
            return Quantity(o.value, self._mul(o.unit, 1))
        return Quantity(val(o), self)

    def __rmul__(self, o):
        return Quantity(val(o), self)

    def __truediv__(self, o):
        if isinstance(o, Unit):
            return self._mul(o, -1)
        if isinstance(o, Quantity):
            return Quantity(num(1) / o.value, self._mul(o.unit, -1))
        return Quantity(num(1) / val(o), self)

    def __rtruediv__(self, o):
        return Quantity(val(o), ONE._mul(self, -1))

    def __pow__(self, n):
        u = ONE
        for _ in range(abs(n)):
            u = u._mul(self, 1 if n > 0 else -1)
        return u

    def is_equivalent(self, o):
        return self.dims == o.dims

    def to(self, o, value=1.0):
        return Quantity(val(value), self).to(o).value

    def __eq__(self, o):
        if not isinstance(o, Unit):
            return NotImplemented
        if self.dims != o.dims:
            return False
        return bool(SBool(core.toreal(self.scale.t) == core.toreal(o.scale.t)))

    def __ne__(self, o):
        return not self == o

    __hash__ = object.__hash__


def val(o):
    if isinstance(o, (list, tuple)):
        return arr.asarr(o)
    if isinstance(o, (SNum, SArr, SSel)):
        return o
    return num(o)


NAMES = {}


class Quantity:
    _is_unit = True

    def __init__(self, value, unit=None):
        use("astropy.units", TEXT)
        if isinstance(value, Quantity):
            value = value.value if unit is None else value.to(unit).value
            unit = unit or value.unit
        self.value, self.unit = val(value), unit if unit is not None else ONE

    def to(self, unit):
        if isinstance(unit, str):
            unit = NAMES.get(unit, unit)
        if not isinstance(unit, Unit):
            raise Unsupported("unit given by name")
        if unit.dims != self.unit.dims:
            raise UnitConversionError("not convertible")
        return Quantity(self.value * (self.unit.scale / unit.scale), unit)

    def to_value(self, unit=None):
        return self.value if unit is None else self.to(unit).value

    def decompose(self):
        return Quantity(self.value * self.unit.scale, Unit(frac(Fraction(1)), self.unit.dims))

    def _sym_array(self):
        if self.unit.dims:
            raise Unsupported("array of a quantity with a unit")
        return arr.asarr(self.value * self.unit.scale)

    def __mul__(self, o):
        if isinstance(o, Unit):
            return Quantity(self.value, self.unit._mul(o, 1))
        if isinstance(o, Quantity):
            return Quantity(self.value * o.value, self.unit._mul(o.unit, 1))
        return Quantity(self.value * val(o), self.unit)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, Unit):
            return Quantity(self.value, self.unit._mul(o, -1))
        if isinstance(o, Quantity):
            return Quantity(self.value / o.value, self.unit._mul(o.unit, -1))
        return Quantity(self.value / val(o), self.unit)

    def __rtruediv__(self, o):
        return Quantity(val(o) / self.value, ONE._mul(self.unit, -1))

    def _same(self, o):
        if isinstance(o, Quantity):
            return o.to(self.unit).value
        if not self.unit.dims:
            return val(o) / self.unit.scale
        raise UnitConversionError("units")

    def __add__(self, o):
        return Quantity(self.value + self._same(o), self.unit)

    def __sub__(self, o):
        return Quantity(self.value - self._same(o), self.unit)

    def __lt__(self, o):
        return self.value < self._same(o)

    def __gt__(self, o):
        return self.value > self._same(o)

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        raise Unsupported("Quantity.%s" % name)


ONE = Unit.__new__(Unit)
ONE.scale, ONE.dims, ONE.name = frac(Fraction(1)), {}, ""


def angle(f):
    return Unit(frac(Fraction(f)), {"angle": 1})


class FakeWCS:
    """a celestial WCS: two pixel scales in the unit of its axes"""

    class Inner:
        pass

    def __init__(self, scales, unit):
        self._scales = scales
        self.wcs = FakeWCS.Inner()
        self.wcs.cunit = [unit, unit]


def proj_plane_pixel_scales(w):
    use("astropy.wcs.utils.proj_plane_pixel_scales", "the two pixel scales of the image plane, in the unit of the WCS axes (cunit)")
    if not isinstance(w, FakeWCS):
        raise Unsupported("proj_plane_pixel_scales")
    s = w._scales
    return SArr((2,), "f", lambda i: s[i] if isinstance(i, int) else arr.ite_el(T(i) == 0, s[0], s[1]))


def install(m):
    u = m["astropy.units"]
    u.deg, u.arcmin, u.arcsec, u.mas = angle(1), angle(Fraction(1, 60)), angle(Fraction(1, 3600)), angle(Fraction(1, 3600000))
    u.degree = u.deg
    u.rad = Unit(num(180) / SNum(z3.Real("pi"), FALSE, "f"), {"angle": 1})
    u.pix = u.pixel = Unit(frac(Fraction(1)), {"pix": 1})
    u.dimensionless_unscaled = ONE
    u.Quantity, u.Unit = Quantity, shim.unknown("astropy.units.Unit")
    u.UnitConversionError = UnitConversionError
    m["astropy.wcs.utils"].proj_plane_pixel_scales = proj_plane_pixel_scales
    return m

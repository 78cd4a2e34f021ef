"""Stands in for the parts of SageMath that pyexactreal builds on."""
import sys
from fractions import Fraction

from standin import Closed, Unsupported


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise Unsupported("sage.all." + name)


class Scalar:
    def __init__(self, value):
        self.value = value

    def __repr__(self):
        return str(self.value)

    __str__ = __repr__

    def __eq__(self, other):
        return self.value == (other.value if isinstance(other, Scalar) else other) if isinstance(other, (Scalar, int, Fraction)) else NotImplemented

    def __hash__(self):
        return hash(self.value)

    def __bool__(self):
        return bool(self.value)

    def _pass(self):
        return ("q" if isinstance(self.value, Fraction) else "z", str(self.value))

    def __mul__(self, other):
        if isinstance(other, Scalar):
            v = self.value * other.value
            return (QQ if isinstance(v, Fraction) else ZZ)(v)
        return NotImplemented

    def __lt__(self, other):
        return self.value < (other.value if isinstance(other, Scalar) else other)

    def __add__(self, other):
        return NotImplemented

    __sub__ = __truediv__ = __floordiv__ = __add__


class Integer(Scalar):
    def parent(self):
        return ZZ

    def __int__(self):
        return self.value

    __index__ = __int__

    def is_square(self):
        import math
        return self.value >= 0 and math.isqrt(self.value) ** 2 == self.value


class Rational(Scalar):
    def parent(self):
        return QQ

    def is_square(self):
        import math
        return self.value >= 0 and all(math.isqrt(x) ** 2 == x for x in (self.value.numerator, self.value.denominator))


class _ZZ(Closed):
    def __call__(self, x=0):
        if isinstance(x, Integer):
            return x
        if hasattr(x, "_integer_"):
            return x._integer_(self)
        if isinstance(x, int):
            return Integer(x)
        if type(x).__name__ == "mpz_class":
            return Integer(int(x))
        v = QQ(x).value
        if v.denominator != 1:
            raise TypeError("no conversion of this rational to integer")
        return Integer(v.numerator)

    coerce = __call__

    def has_coerce_map_from(self, parent):
        return parent is self

    def gen(self):
        return Integer(1)

    def __repr__(self):
        return "Integer Ring"


class _QQ(Closed):
    def __call__(self, x=0):
        if isinstance(x, Rational):
            return x
        if hasattr(x, "_rational_"):
            return x._rational_()
        if isinstance(x, Integer):
            return Rational(Fraction(x.value))
        if isinstance(x, (int, Fraction)):
            return Rational(Fraction(x))
        if type(x).__name__ in ("mpz_class", "mpq_class"):
            return Rational(Fraction(str(x)))
        raise TypeError("unable to convert to a rational")

    coerce = __call__

    def has_coerce_map_from(self, parent):
        return parent in (ZZ, self)

    def gen(self):
        return Rational(Fraction(1))

    def __repr__(self):
        return "Rational Field"


ZZ, QQ = _ZZ(), _QQ()


def coerce(P, x):
    return P.coerce(x)


class _Meta(type):
    def __call__(cls, *args, **kwargs):
        if hasattr(cls, "__classcall__"):
            return cls.__classcall__(cls, *args, **kwargs)
        return type.__call__(cls, *args, **kwargs)


class UniqueRepresentation(metaclass=_Meta):
    _cache = {}

    @staticmethod
    def __classcall__(cls, *args):
        key = (cls, tuple(id(a) if not isinstance(a, tuple) else a for a in args))
        if key not in UniqueRepresentation._cache:
            UniqueRepresentation._cache[key] = (type.__call__(cls, *args), args)
        return UniqueRepresentation._cache[key][0]


class _Category(tuple):
    def Infinite(self):
        return _Category(self + ("infinite",))

    def __contains__(self, parent):
        return parent.is_integral_domain()


def IntegralDomains(base=None):
    return _Category(("domains", id(base)))


class CommutativeRing(Closed):
    def __init__(self, base, category=None):
        self._base, self._coercions = base, []

    def base(self):
        return self._base

    base_ring = base

    def register_coercion(self, morphism):
        self._coercions.append(morphism)

    def coerce_map_from(self, parent):
        for m in self._coercions:
            if m.domain() is parent or m.domain().has_coerce_map_from(parent):
                return m
        return None

    def has_coerce_map_from(self, parent):
        return parent is self or self.coerce_map_from(parent) is not None

    def __call__(self, x=0):
        if type(x) is int:
            x = Integer(x)
        if isinstance(x, Fraction):
            x = Rational(x)
        if hasattr(x, "parent"):
            if x.parent() is self:
                return x
            m = self.coerce_map_from(x.parent())
            if m is not None:
                return m(x)
        return self.Element(self, x)

    coerce = __call__

    def zero(self):
        return self(0)

    def one(self):
        return self(1)

    def __repr__(self):
        return self._repr_()


class _Hom(Closed):
    def __init__(self, domain, codomain):
        self._domain, self._codomain = domain, codomain

    def __make_element_class__(self, cls):
        return cls


def Hom(domain, codomain):
    return _Hom(domain, codomain)


class Morphism(Closed):
    def __init__(self, parent):
        self._parent = parent

    def domain(self):
        return self._parent._domain

    def codomain(self):
        return self._parent._codomain

    def __call__(self, x):
        d = self.domain()
        return self._call_(x if x.parent() is d else d.coerce(x))

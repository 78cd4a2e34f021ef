"""Stands in for pyeantic with one number field, the one of the square root of two."""
from fractions import Fraction

import cppyy
from _bridge import call
from standin import Closed, Module


class _Eantic(Closed):
    @staticmethod
    def renf(minpoly, gen, embedding):
        return cppyy.renf_class(call("field.make", minpoly, gen, embedding))


eantic = _Eantic()


class FieldElement:
    """a + b sqrt(2)"""

    def __init__(self, parent, a, b=0):
        self._parent, self.a, self.b = parent, Fraction(a), Fraction(b)

    def parent(self):
        return self._parent

    @property
    def renf_elem(self):
        return cppyy._coefficient("K", call("field.elem", self._parent.renf._b, [cppyy.mpq_class(self.a)._pass(), cppyy.mpq_class(self.b)._pass()]))

    def __mul__(self, other):
        return NotImplemented

    __add__ = __sub__ = __truediv__ = __mul__

    def __eq__(self, other):
        return isinstance(other, FieldElement) and (self.a, self.b) == (other.a, other.b)

    def __hash__(self):
        return hash((self.a, self.b))

    def __repr__(self):
        return "(%s + %s*a)" % (self.a, self.b)


class SageField(Closed):
    """The field in SageMath."""

    def __call__(self, x):
        if isinstance(x, FieldElement):
            return x
        from sage.all import QQ
        return FieldElement(the_field, QQ(x).value)

    def has_coerce_map_from(self, parent):
        from sage.all import QQ, ZZ
        return parent in (ZZ, QQ, self, the_field)

    coerce = __call__

    def gen(self):
        return FieldElement(the_field, 0, 1)

    def __repr__(self):
        return "Number Field"


class Field(SageField):
    """The field as pyeantic wraps it."""

    def __init__(self):
        self.renf = eantic.renf("x^2 - 2", "x", "1.4 +/- 1")
        self.number_field = SageField()

    def __call__(self, x):
        if isinstance(x, cppyy.FieldCoefficient):
            return FieldElement(self, *x.pair())
        return SageField.__call__(self, x)


the_field = None


def RealEmbeddedNumberField(base):
    global the_field
    if the_field is None:
        the_field = Field()
    if base is the_field or base is the_field.renf or base is the_field.number_field:
        return the_field
    raise TypeError("not a number field")


def RealEmbeddedNumberField_base():
    """The field to start from."""
    global the_field
    if the_field is None:
        the_field = Field()
    return the_field

"""Elements with the arithmetic that SageMath's coercion model would dispatch."""
from fractions import Fraction

from sage.all import Integer, Rational
from standin import Closed, Unsupported


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise Unsupported("sage.structure.element." + name)


def coerce_binop(method):
    def binop(self, other):
        return method(self, self.parent().coerce(other))
    return binop


def _scalar(x):
    if type(x) is int:
        return Integer(x)
    if isinstance(x, Fraction):
        return Rational(x)
    return x


def _binary(name):
    def op(self, other):
        return getattr(self, name)(self.parent().coerce(_scalar(other)))

    def rop(self, other):
        return getattr(self.parent().coerce(_scalar(other)), name)(self)
    return op, rop


def _compare(op):
    def compare(self, other):
        return self._richcmp_(self.parent().coerce(_scalar(other)), op)
    return compare


class IntegralDomainElement(Closed):
    def __init__(self, parent):
        self._parent = parent

    def parent(self):
        return self._parent

    __add__, __radd__ = _binary("_add_")
    __sub__, __rsub__ = _binary("_sub_")
    __truediv__, __rtruediv__ = _binary("_div_")
    __floordiv__, __rfloordiv__ = _binary("_floordiv_")

    def __mul__(self, other):
        other = _scalar(other)
        # The base ring acts.
        if other.parent() is not self.parent() and self.parent().base().has_coerce_map_from(other.parent()):
            return self._lmul_(self.parent().base().coerce(other))
        return self._mul_(self.parent().coerce(other))

    def __rmul__(self, other):
        other = _scalar(other)
        if other.parent() is not self.parent() and self.parent().base().has_coerce_map_from(other.parent()):
            return self._rmul_(self.parent().base().coerce(other))
        return self.parent().coerce(other)._mul_(self)

    def __neg__(self):
        return self._neg_()

    def __pow__(self, n):
        r = self.parent().one()
        for _ in range(n):
            r = r * self
        return r

    __lt__, __le__, __eq__, __ne__, __gt__, __ge__ = map(_compare, range(6))
    __hash__ = None

    def __repr__(self):
        return self._repr_()

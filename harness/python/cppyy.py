"""Stands in for cppyy as far as pyexactreal needs it: the classes of the library are written down here and reach it
through _bridge.call.  An expression refers to its operands without keeping them alive, like the C++ object does."""
import sys
import weakref
from fractions import Fraction

from _bridge import call
from standin import Closed, Module, Violation

__path__ = []
_pythonizations = {}
_applied = set()


class _Py:
    @staticmethod
    def add_pythonization(pythonization, namespace=""):
        # Classes that exist already are not changed anymore.
        _pythonizations.setdefault(namespace, []).append(pythonization)


py = _Py()


def include(header):
    pass


def _proxy(cls, namespace, name):
    if cls not in _applied:
        _applied.add(cls)
        for p in _pythonizations.get(namespace, []):
            p(cls, name)
    return cls


class mpz_class:
    def __init__(self, s=0):
        self._v = int(s)

    def __repr__(self):
        return str(self._v)

    __str__ = __repr__

    def __int__(self):
        return self._v

    __index__ = __int__

    def __eq__(self, other):
        return self._v == (other._v if isinstance(other, (mpz_class, mpq_class)) else other)

    def __hash__(self):
        return hash(self._v)

    def __bool__(self):
        return bool(self._v)

    def _pass(self):
        return ("z", str(self._v))


class mpq_class:
    def __init__(self, n=0, d=None):
        self._v = Fraction(n) if d is None else Fraction(n, d)

    def __repr__(self):
        return str(self._v)

    __str__ = __repr__

    def __eq__(self, other):
        return self._v == (other._v if isinstance(other, (mpz_class, mpq_class)) else other)

    def __hash__(self):
        return hash(self._v)

    def __bool__(self):
        return bool(self._v)

    def _pass(self):
        return ("q", str(self._v))


def _pass(x):
    """How an argument is given to the library."""
    if hasattr(x, "_b"):
        return x._b
    if hasattr(x, "_pass"):
        return x._pass()
    if isinstance(x, bool):
        raise TypeError("no conversion from bool")
    if type(x) is int:
        return x if abs(x) < 2**31 else ("z", str(x))
    if type(x) is float:
        return x
    raise TypeError("no conversion from %s" % type(x).__name__)


class Boxed(Closed):
    def __init__(self, b):
        self._b = b


class Optional(Closed):
    def __init__(self, values):
        self._values = values

    def has_value(self):
        return bool(self._values)

    def value(self):
        if not self._values:
            raise ValueError("bad optional access")
        return self._values[0]

    def __bool__(self):
        return self.has_value()


# ------------------------------------------------------------------ numbers
class RealNumber(Boxed):
    def __init__(self, b=None):
        if b is None:
            raise TypeError("RealNumber is abstract")
        super().__init__(b)

    @staticmethod
    def random(*args):
        return exactreal.RealNumber(call("real.random", *[_pass(a) for a in args]))

    @staticmethod
    def rational(q):
        return exactreal.RealNumber(call("real.rational", _pass(q)))

    def __mul__(self, other):
        return exactreal.RealNumber(call("real.mul", self._b, other._b)) if isinstance(other, RealNumber) else NotImplemented

    def __lt__(self, other):
        return call("real.lt", self._b, _pass(other))

    def __eq__(self, other):
        return call("real.eq", self._b, _pass(other))

    __hash__ = None

    def __float__(self):
        return call("real.double", self._b)

    def __bool__(self):
        return call("real.bool", self._b)

    def _print(self):
        return call("real.str", self._b)

    def _save(self):
        return call("real.serialize", self._b)

    @classmethod
    def _load(cls, text):
        return cls(call("real.load", text))


class _Smart(Closed):
    def __init__(self, address):
        self._address = address

    def get(self):
        return _addresses.setdefault(self._address, object())


_addresses = {}


# -------------------------------------------------------- rings and modules
class IntegerRing(Closed):
    _k = "Z"


class RationalField(Closed):
    _k = "Q"


class NumberField(Closed):
    _k = "K"

    def __init__(self, renf=None):
        self._renf = renf


class renf_class(Boxed):
    """eantic::renf_class, with the square root of two."""


class renf_elem_class(Boxed):
    pass


def _coefficient(k, x):
    if k == "Z":
        return mpz_class(x)
    if k == "Q":
        return mpq_class(x)
    r = renf_elem_class(x)
    r.__class__ = FieldCoefficient
    return r


class FieldCoefficient(renf_elem_class):
    def pair(self):
        c = [Fraction(x) for x in call("fieldElement.coefficients", self._b)] + [Fraction(0)] * 2
        return tuple(c[:2])

    def __bool__(self):
        return self.pair() != (0, 0)


_elements, _modules = {}, {}


def _Element(ring):
    k = ring._k
    if k in _elements:
        return _elements[k]

    def of(b):
        return _elements[k](b=b)

    class Element(Boxed):
        def __init__(self, module=None, coefficients=None, b=None):
            if b is None:
                b = call(k + ".element") if module is None else call(k + ".element", module._b, [_pass(c) for c in coefficients])
            super().__init__(b)

        def module(self):
            return _Module(ring)(call(k + ".moduleof", self._b))

        def floor(self):
            return mpz_class(call(k + ".floor", self._b))

        def ceil(self):
            return mpz_class(call(k + ".ceil", self._b))

        def floordiv(self, other):
            return mpz_class(call(k + ".floordiv", self._b, other._b))

        def unit(self):
            return call(k + ".unit", self._b)

        def simplify(self):
            call(k + ".simplify", self._b)
            return self

        def coefficients(self):
            return [_coefficient(k, c) for c in call(k + ".coefficients", self._b)]

        def __hash__(self):
            return call(k + ".hash", self._b)

        def __float__(self):
            return call(k + ".double", self._b)

        def __bool__(self):
            return call(k + ".bool", self._b)

        def __lt__(self, other):
            return call(k + ".lt", self._b, _pass(other))

        def __gt__(self, other):
            return call(k + ".gt", self._b, _pass(other))

        def __eq__(self, other):
            return call(k + ".eq", self._b, _pass(other))

        def __ne__(self, other):
            return not call(k + ".eq", self._b, _pass(other))

        def __le__(self, other):
            return not call(k + ".gt", self._b, _pass(other))

        def __ge__(self, other):
            return not call(k + ".lt", self._b, _pass(other))

        def _print(self):
            return call(k + ".str", self._b)

        def _save(self):
            return call(k + ".serialize", self._b)

        @classmethod
        def _load(cls, text):
            return of(call(k + ".loadelement", text))

    Element.__name__ = "Element<exactreal::%s>" % ring.__name__
    _elements[k] = Element
    return _proxy(Element, "exactreal", Element.__name__)


def _Module(ring):
    k = ring._k
    if k in _modules:
        return _modules[k]

    class FreeModule(Boxed):
        @staticmethod
        def make(basis, traits=None):
            gens = [g._b for g in basis]
            if k != "K":
                return _Module(ring)(call(k + ".module", gens))
            if isinstance(traits, NumberField):
                traits = traits._renf
            return _Module(ring)(call("K.module", gens, traits._b if traits is not None else None))

        def gen(self, i):
            return _Element(ring)(b=call(k + ".gen", self._b, i))

        def zero(self):
            return _Element(ring)(b=call(k + ".zero", self._b))

        def one(self):
            return _Element(ring)(b=call(k + ".one", self._b))

        def rank(self):
            return call(k + ".rank", self._b)

        def basis(self):
            return [exactreal.RealNumber(b) for b in call(k + ".basis", self._b)]

        def __eq__(self, other):
            return call(k + ".eq", self._b, other._b)

        def __ne__(self, other):
            return not call(k + ".eq", self._b, other._b)

        __hash__ = None

        def __smartptr__(self):
            return _Smart(call(k + ".address", self._b))

        def _print(self):
            return call(k + ".str", self._b)

        def _save(self):
            return call(k + ".serialize", self._b)

        @classmethod
        def _load(cls, text):
            return _Module(ring)(call(k + ".loadmodule", text))

    FreeModule.__name__ = "Module<exactreal::%s>" % ring.__name__
    _modules[k] = FreeModule
    return _proxy(FreeModule, "exactreal", FreeModule.__name__)


# -------------------------------------------------------------- expressions
class Ball(Closed):
    """Balls and expressions of balls."""


class Arb(Ball):
    def __init__(self, value=0, prec=None, b=None):
        if b is None:
            b = call("ball.make", _pass(value), 64 if prec is None else prec)
        self._b = b

    def _print(self):
        return call("ball.str", self._b)

    def __call__(self, prec):
        return exactreal.Arb(b=call("ball.round", self._b, prec))


def _relation(op):
    def relation(self, other):
        if isinstance(other, Arb):
            return Optional(call("ball." + op, self._b, other._b))
        if type(other) is int:
            return Optional(call("ball." + op, self._b, other))
        return NotImplemented
    return relation


for _op in ("lt", "le", "gt", "ge", "eq", "ne"):
    setattr(Arb, "__%s__" % _op, _relation(_op))
Arb.__hash__ = object.__hash__


class _Rounding(int):
    pass


class Arf(Ball):
    class Round:
        DOWN, UP, FLOOR, CEIL, NEAR = [_Rounding(call("rounding." + _r)) for _r in ("DOWN", "UP", "FLOOR", "CEIL", "NEAR")]

    def __init__(self, value=0, b=None):
        self._b = call("float.make", _pass(value)) if b is None else b

    def _print(self):
        return call("float.str", self._b)

    def _value(self):
        return Fraction(call("float.value", self._b))

    def __call__(self, prec, rounding):
        return exactreal.Arf(b=call("float.round", self._b, prec, int(rounding)))


def _plain(op):
    def relation(self, other):
        return call("float." + op, self._b, _pass(other)) if isinstance(other, (Arf, int)) else NotImplemented
    return relation


for _op in ("lt", "le", "gt", "ge", "eq", "ne"):
    setattr(Arf, "__%s__" % _op, _plain(_op))
Arf.__hash__ = object.__hash__


_expressions = {}


def _expression(op, operands):
    floating = any(isinstance(o, (Arf, ArfExpr)) for o in operands)
    if floating and any(isinstance(o, (Arb, ArbExpr)) for o in operands):
        raise TypeError("no operation of floats and balls")
    name = "%s<%s,%s>" % ("ArfExpr" if floating else "ArbExpr", op, ",".join(type(o).__name__ for o in operands))
    if name not in _expressions:
        _expressions[name] = type(name, (ArfExpr if floating else ArbExpr,), {})
        _proxy(_expressions[name], "exactreal::yap", name)
    return _expressions[name](op, operands)


class Expression(Ball):
    def __init__(self, op, operands):
        self._op = op
        self._operands = [weakref.ref(o) if isinstance(o, Ball) else (lambda o=o: o) for o in operands]

    def _print(self):
        return "expression"

    def _evaluate(self, *how):
        values = []
        for o in self._operands:
            x = o()
            if x is None:
                raise Violation("dangling", "an operand of %s is gone when the expression is evaluated" % type(self).__name__)
            values.append(x._evaluate(*how) if isinstance(x, Expression) else x)
        args = [v._b if isinstance(v, Ball) else v for v in values]
        if self._op == "neg":
            return self._leaf(call(self._kind + ".neg", *args))(*how)
        return self._leaf(call("%s.%s" % (self._kind, self._op), *args, *[int(h) for h in how]))

    def __call__(self, *how):
        return self._evaluate(*how)


class ArbExpr(Expression):
    _kind = "ball"

    @staticmethod
    def _leaf(b):
        return exactreal.Arb(b=b)


class ArfExpr(Expression):
    _kind = "float"

    @staticmethod
    def _leaf(b):
        return exactreal.Arf(b=b)


class _Template:
    def __init__(self, function):
        self._function = function

    def __getitem__(self, types):
        if not isinstance(types, tuple):
            types = (types,)

        def instance(*args):
            for t, a in zip(types, args):
                if not isinstance(a, t):
                    raise TypeError("%s instead of %s" % (type(a).__name__, t.__name__))
            return self._function(*args)
        return instance

    def __call__(self, *args):
        return self._function(*args)


def _kind(x):
    for k, t in _elements.items():
        if isinstance(x, t):
            return k
    return None


def _arithmetic(op):
    def arithmetic(*operands):
        k = next((_kind(o) for o in operands if _kind(o)), None)
        if k:
            r = call("%s.%s" % (k, op), *[_pass(o) for o in operands])
            of = lambda b: _elements[k](b=b)
            return Optional([of(b) for b in r]) if isinstance(r, list) else of(r)
        if op == "neg" and isinstance(operands[0], (Arb, Arf)):
            # not an expression
            return exactreal.Arb(b=call("ball.neg", operands[0]._b)) if isinstance(operands[0], Arb) else exactreal.Arf(b=call("float.neg", operands[0]._b))
        if any(isinstance(o, Ball) for o in operands) and all(isinstance(o, Ball) or type(o) is int for o in operands):
            return _expression(op, operands)
        raise TypeError("no function %s for %s" % (op, [type(o).__name__ for o in operands]))
    return arithmetic


def _optional(op, wrap):
    def optional(x):
        return Optional([wrap(v) for v in call("%s.%s" % (_kind(x), op), x._b)])
    return _Template(optional)


def _eval(expression, prec, *rounding):
    if isinstance(expression, (Arf, ArfExpr)) != bool(rounding):
        raise TypeError("no such evaluation")
    return expression._evaluate(prec, *rounding) if isinstance(expression, Expression) else expression(prec, *rounding)


class _TemplateClass:
    def __init__(self, make):
        self._make = make

    def __getitem__(self, ring):
        if not hasattr(ring, "_k"):
            raise TypeError("not a ring")
        return self._make(ring)


class _Namespace(Module):
    """A class is only made known when it is first used, and then gets its pythonizations."""

    def __init__(self, name, **names):
        object.__setattr__(self, "_lazy", names)
        super().__init__(name)
        self.__dict__["_lazy"] = names

    def __getattr__(self, name):
        lazy = self.__dict__.get("_lazy", {})
        if name in lazy:
            cls, namespace = lazy[name]
            self.__dict__[name] = cls
            return _proxy(cls, namespace, name)
        return Module.__getattr__(self, name)


class _Vector:
    def __getitem__(self, name):
        return lambda items=(): list(items)


exactreal = _Namespace("cppyy.gbl.exactreal", RealNumber=(RealNumber, "exactreal"), Arb=(Arb, "exactreal"), Arf=(Arf, "exactreal"), IntegerRing=(IntegerRing, "exactreal"),
                       RationalField=(RationalField, "exactreal"), NumberField=(NumberField, "exactreal"))
exactreal.Element = _TemplateClass(_Element)
exactreal.Module = _TemplateClass(_Module)
exactreal.cppyy = Module("cppyy.gbl.exactreal.cppyy", add=_Template(_arithmetic("add")), sub=_Template(_arithmetic("sub")), mul=_Template(_arithmetic("mul")),
                         truediv=_Template(_arithmetic("truediv")), neg=_Template(_arithmetic("neg")), eval=_Template(_eval),
                         optional_integer=_optional("optional_integer", mpz_class), optional_rational=_optional("optional_rational", mpq_class))
std = Module("cppyy.gbl.std", vector=_Vector(), logic_error=ValueError)
gbl = Module("cppyy.gbl", exactreal=exactreal, std=std, mpz_class=mpz_class, mpq_class=mpq_class)

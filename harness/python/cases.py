"""C21: what pyexactreal computes is compared with exact polynomials in the random numbers that were created."""
import gc
import itertools
import pickle
import random
from fractions import Fraction
from math import isqrt

from _bridge import call, tally
from standin import Unsupported, Violation

BITS = 600
SQRT2 = Fraction(isqrt(2 << (2 * BITS)), 1 << BITS)


def check(ok, key, detail):
    if not ok:
        raise Violation(key, detail() if callable(detail) else detail)


# --------------------------------------------------------------------- model
class Coef:
    """a + b sqrt(2)"""
    __slots__ = ("a", "b")

    def __init__(self, a, b=0):
        self.a, self.b = Fraction(a), Fraction(b)

    def __add__(self, o):
        return Coef(self.a + o.a, self.b + o.b)

    def __mul__(self, o):
        return Coef(self.a * o.a + 2 * self.b * o.b, self.a * o.b + self.b * o.a)

    def inverse(self):
        n = self.a * self.a - 2 * self.b * self.b
        return Coef(self.a / n, -self.b / n)

    def zero(self):
        return self.a == 0 == self.b

    def key(self):
        return (self.a, self.b)

    def value(self):
        return self.a + self.b * SQRT2


class Poly:
    def __init__(self, world, terms=()):
        self.world = world
        self.t = {m: c for m, c in dict(terms).items() if not c.zero()}

    def __add__(self, o):
        t = dict(self.t)
        for m, c in o.t.items():
            t[m] = t[m] + c if m in t else c
        return Poly(self.world, t)

    def scale(self, c):
        return Poly(self.world, {m: x * c for m, x in self.t.items()})

    def __neg__(self):
        return self.scale(Coef(-1))

    def __sub__(self, o):
        return self + -o

    def __mul__(self, o):
        t = {}
        for m, c in self.t.items():
            for n, d in o.t.items():
                k = tuple(i + j for i, j in zip(m, n))
                t[k] = t[k] + c * d if k in t else c * d
        return Poly(self.world, t)

    def __eq__(self, o):
        return {m: c.key() for m, c in self.t.items()} == {m: c.key() for m, c in o.t.items()}

    def rational(self):
        """The rational value, if it is rational."""
        if not self.t:
            return Fraction(0)
        (m, c), *rest = self.t.items()
        return c.a if not rest and not any(m) and c.b == 0 else None

    def value(self):
        r = Fraction(0)
        for m, c in self.t.items():
            x = c.value()
            for v, e in zip(self.world.values, m):
                x *= v ** e
            r += x
        return r

    def size(self):
        """A bound for the size of the terms."""
        r = Fraction(0)
        for m, c in self.t.items():
            x = abs(c.a) + 2 * abs(c.b)
            for v, e in zip(self.world.values, m):
                x *= abs(v) ** e
            r += x
        return r

    def bounds(self):
        v, e = self.value(), self.size() / (1 << (BITS - 40))
        return v - e, v + e

    def sign(self):
        if not self.t:
            return 0
        l, u = self.bounds()
        if l > 0:
            return 1
        if u < 0:
            return -1
        return None  # too close to tell

    def __repr__(self):
        return " + ".join("(%s + %s√2)*%s" % (c.a, c.b, m) for m, c in self.t.items()) or "0"


def nearest(q):
    try:
        return q.numerator / q.denominator
    except OverflowError:
        return float("inf") if q > 0 else float("-inf")


def approximation(box):
    m, e = call("real.approximation", box, BITS)
    return Fraction(int(m)) * (Fraction(2) ** e)


class World:
    def __init__(self, rng, kind):
        from pyexactreal import ExactReals
        from sage.all import QQ, ZZ
        import pyeantic
        self.rng, self.kind, self.steps = rng, kind, []
        self.base = {"Z": ZZ, "Q": QQ, "K": pyeantic.RealEmbeddedNumberField(pyeantic.RealEmbeddedNumberField_base())}[kind]
        self.R = ExactReals() if kind == "Q" and rng.random() < .5 else ExactReals(self.base)
        check(self.R is ExactReals(self.base), "unique", "ExactReals(%s) is another parent when asked for again" % kind)
        self.gens, self.values, self.boxes = [], [], []
        n = rng.choice([1, 2, 2, 3])
        for _ in range(n):
            k = rng.randrange(4)
            if k == 0:
                d = rng.choice([3.141, -2.5, 1e-3, 12345.678, rng.uniform(-10, 10)])
                x = self.R.random_element(d)
                check(float(x) == d, "approximation", "random_element(%r) converts to %r" % (d, float(x)))
            elif k == 1:
                lo = rng.uniform(-5, 5)
                hi = lo + rng.choice([1e-3, .5, 4])
                x = self.R.random_element([lo, hi])
                check(lo <= float(x) <= hi, "range", "random_element([%r, %r]) is %r" % (lo, hi, float(x)))
            else:
                x = self.R.random_element()
                check(0 <= float(x) <= 1, "range", "random_element() is %r" % float(x))
            self.gens.append(x)
            basis = x.module().basis()
            check(len(basis) == 1, "module", "random_element lives in a module of rank %d" % len(basis))
            self.boxes.append(basis[0]._b)
            self.values.append(approximation(basis[0]._b))
            tally("random elements")
        self.one = call("real.rational", 1)
        self.products, self.known = {}, {}
        self.unit = (0,) * n

    def monomial(self, m):
        if m not in self.products:
            if not any(m):
                b = self.one
            else:
                i = next(i for i, e in enumerate(m) if e)
                rest = tuple(e - (j == i) for j, e in enumerate(m))
                b = self.boxes[i] if not any(rest) else call("real.mul", self.monomial(rest), self.boxes[i])
            self.products[m] = b
            self.known[call("real.address", b)] = m
        return self.products[m]

    def of(self, backend, expected):
        """The polynomial that an element of the library stands for."""
        for m in expected.t:
            self.monomial(m)
        self.monomial(self.unit)
        t = {}
        for g, c in zip(backend.module().basis(), backend.coefficients()):
            if not c:
                continue
            m = self.known.get(call("real.address", g._b))
            check(m is not None, "generator", lambda: "%s has an unexpected generator; %s" % (backend, self.story()))
            t[m] = Coef(*c.pair()) if self.kind == "K" else Coef(Fraction(str(c)))
        return Poly(self, t)

    def verify(self, x, p, what):
        self.steps.append(what)
        check(x.parent() is self.R, "parent", lambda: "result lives in another parent; %s" % self.story())
        q = self.of(x._backend, p)
        check(q == p, "value", lambda: "%s is %s instead of %s; %s" % (what, q, p, self.story()))
        tally("elements compared")

    def story(self):
        return "after %s over %s with %s" % ("; ".join(self.steps[-8:]), self.kind, [float(v) for v in self.values])

    def scalar(self):
        """A scalar as Python or SageMath has it, and its value."""
        from sage.all import Integer, Rational
        import pyeantic
        rng = self.rng
        k = rng.randrange(4 if self.kind == "K" else 3 if self.kind == "Q" else 2)
        n = rng.choice([0, 1, -1, 2, 3, -7, 1337, 2**31, -2**63, 10**30, rng.randint(-20, 20), rng.randint(-20, 20)])
        if k == 0:
            return n, Coef(n)
        if k == 1:
            return Integer(n), Coef(n)
        q = Fraction(n, rng.choice([1, 2, 3, 7, 10**12]))
        if k == 2:
            return Rational(q), Coef(q)
        b = Fraction(rng.randint(-5, 5), rng.choice([1, 2]))
        return pyeantic.FieldElement(self.base, q, b), Coef(q, b)

    def random(self):
        """An element made with Python's operators."""
        rng = self.rng
        x, p = self.R(0), Poly(self)
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
            s, c = self.scalar()
            m = [0] * len(self.gens)
            y = self.R(1)
            for _ in range(rng.choice([0, 1, 1, 2])):
                i = rng.randrange(len(self.gens))
                y = y * self.gens[i]
                m[i] += 1
            y = y * s if rng.random() < .5 else s * y
            if rng.random() < .5:
                x, p = x + y, p + Poly(self, {tuple(m): c})
            else:
                x, p = x - y, p - Poly(self, {tuple(m): c})
        self.verify(x, p, "construction")
        return x, p


# --------------------------------------------------------------------- cases
def elements(rng):
    from pyexactreal.cppyy_exactreal import NotRepresentableError
    from sage.all import QQ, ZZ, Integer
    w = World(rng, rng.choice("ZQK"))
    pool = [w.random(), w.random()]
    for _ in range(8):
        (x, p), (y, q) = rng.choice(pool), rng.choice(pool)
        op = rng.choice(["+", "-", "*", "neg", "scalar", "shift", "/", "/", "//", "floor", "order", "order", "hash", "float", "abs", "convert", "pickle", "divides", "unit", "invert", "pow", "simplify", "module", "gens"])
        w.steps.append(op)
        made = None
        if op == "+":
            made = (x + y, p + q)
        elif op == "-":
            made = (x - y, p - q)
        elif op == "*":
            if len(p.t) * len(q.t) < 40 and max([sum(m) for m in p.t] + [0]) + max([sum(m) for m in q.t] + [0]) < 12:
                made = (x * y, p * q)
        elif op == "neg":
            made = (-x, -p)
        elif op == "scalar":
            s, c = w.scalar()
            made = (x * s if rng.random() < .5 else s * x, p.scale(c))
        elif op == "shift":
            s, c = w.scalar()
            k = Poly(w, {w.unit: c})
            made = rng.choice([lambda: (x + s, p + k), lambda: (s + x, p + k), lambda: (x - s, p - k), lambda: (s - x, k - p)])()
        elif op == "/":
            d, e = rng.choice(pool)
            if rng.random() < .5 and len(p.t) * len(e.t) < 30 and e.t:
                # known to be divisible
                n = x * d
                try:
                    made = (n / d, p)
                except NotRepresentableError:
                    raise Violation("division", "product could not be divided by its factor; %s and %s; %s" % (p, e, w.story()))
                tally("exact quotients")
            elif e.t:
                try:
                    r = x / d
                except NotRepresentableError:
                    check(p.t, "division", lambda: "zero could not be divided; %s" % w.story())
                    tally("quotients refused")
                else:
                    back = r * d
                    w.verify(back, p, "quotient times divisor")
                    tally("exact quotients")
            elif rng.random() < .5 and w.kind != "Z":
                s, c = w.scalar()
                if not c.zero():
                    made = (x / s, p.scale(c.inverse()))
        elif op == "//":
            if q.t and p.t:
                l, u = q.bounds()
                if l > 0 or u < 0:
                    f = x // y
                    check(type(f) is Integer, "floordiv", lambda: "%s // %s is not an integer; %s" % (p, q, w.story()))
                    # f <= p/q < f + 1
                    r0 = p - q.scale(Coef(f.value))
                    r1 = p - q.scale(Coef(f.value + 1))
                    s, s0, s1 = q.sign(), r0.sign(), r1.sign()
                    check(s0 is None or s0 * s >= 0, "floordiv", lambda: "%s // %s = %s is too large; %s" % (p, q, f, w.story()))
                    check(s1 is None or s1 * s < 0, "floordiv", lambda: "%s // %s = %s is too small; %s" % (p, q, f, w.story()))
                    tally("floors")
        elif op == "floor":
            f, c = x.floor(), x.ceil()
            check(type(f) is Integer and type(c) is Integer, "floor", lambda: "not integers; %s" % w.story())
            one = Poly(w, {w.unit: Coef(1)})
            for n, side in ((f.value, 1), (c.value, -1)):
                k = (p - one.scale(Coef(n))).scale(Coef(side)).sign()
                m = (p - one.scale(Coef(n + side))).scale(Coef(side)).sign()
                check(k is None or k >= 0, "floor", lambda: "%s of %s is %s; %s" % ("floor" if side > 0 else "ceil", p, n, w.story()))
                check(m is None or m < 0, "floor", lambda: "%s of %s is %s; %s" % ("floor" if side > 0 else "ceil", p, n, w.story()))
            tally("floors")
        elif op == "order":
            if rng.random() < .4:
                s, c = w.scalar()
                y, q = (s, Poly(w, {w.unit: c})) if rng.random() < .5 else (x + s, p + Poly(w, {w.unit: c}))
            s = (p - q).sign()
            if s is not None:
                got = [x < y, x <= y, x == y, x != y, x > y, x >= y]
                check(got == [s < 0, s <= 0, s == 0, s != 0, s > 0, s >= 0], "order", lambda: "%s compared with %s gives %s; %s" % (p, q, got, w.story()))
                tally("comparisons")
        elif op == "hash":
            s, c = w.scalar()
            k = Poly(w, {w.unit: c})
            z = x + s - s
            w.verify(z, p, "there and back")
            check(z == x and hash(z) == hash(x), "hash", lambda: "hash of %s depends on its module; %s" % (p, w.story()))
            tally("hashes")
        elif op == "float":
            l, u = p.bounds()
            if nearest(l) == nearest(u):
                check(float(x) == nearest(l), "float", lambda: "%s converts to %r instead of %r; %s" % (p, float(x), nearest(l), w.story()))
                tally("conversions")
        elif op == "abs":
            s = p.sign()
            if s is not None:
                made = (abs(x), p if s >= 0 else -p)
        elif op == "convert":
            r = p.rational()
            for parent, good, name in ((ZZ, r is not None and r.denominator == 1, "integer"), (QQ, r is not None, "rational")):
                try:
                    v = parent(x)
                except TypeError:
                    check(not good, "convert", lambda: "%s is not converted to an %s; %s" % (p, name, w.story()))
                else:
                    check(good and v.value == r, "convert", lambda: "%s converts to the %s %s; %s" % (p, name, v, w.story()))
            if r is not None and r.denominator == 1 and w.kind != "K":
                check(x.is_square() == (r >= 0 and isqrt(int(r)) ** 2 == r), "is_square", lambda: "of %s; %s" % (r, w.story()))
            tally("conversions")
        elif op == "pickle":
            b = pickle.loads(pickle.dumps(x._backend))
            check(b == x._backend and w.of(b, p) == p, "pickle", lambda: "%s is restored as %s; %s" % (p, b, w.story()))
            M = x.module()
            N = pickle.loads(pickle.dumps(M))
            check(N == M and N.__smartptr__().get() is M.__smartptr__().get(), "pickle", lambda: "module of %s is restored as another one; %s" % (p, w.story()))
            for g in M.basis():
                h = pickle.loads(pickle.dumps(g))
                check(h == g and call("real.address", h._b) == call("real.address", g._b), "pickle", lambda: "%s is restored as %s; %s" % (g, h, w.story()))
            tally("pickles")
        elif op == "divides":
            if len(p.t) * len(q.t) < 30 and q.t:
                check(y.divides(x * y), "divides", lambda: "%s does not divide its product with %s; %s" % (q, p, w.story()))
                check(y.gcd(x * y) == y or y.gcd(x * y) == x * y, "gcd", lambda: "of %s and its product with %s; %s" % (q, p, w.story()))
            check(w.R(0).divides(x) == (not p.t), "divides", lambda: "zero and %s; %s" % (p, w.story()))
            tally("conversions")
        elif op == "unit":
            r = p.rational()
            c = p.t.get(w.unit) if len(p.t) == 1 else None
            u = c is not None and (w.kind != "Z" or abs(c.a) == 1)
            check(x.is_unit() == u, "unit", lambda: "%s is %sa unit; %s" % (p, "not " if u else "", w.story()))
            tally("conversions")
        elif op == "invert":
            c = p.t.get(w.unit) if len(p.t) == 1 else None
            if c is not None and (w.kind != "Z" or abs(c.a) == 1):
                made = (~x, Poly(w, {w.unit: c.inverse()}))
            elif p.t:
                try:
                    z = ~x
                except NotRepresentableError:
                    tally("quotients refused")
                else:
                    raise Violation("invert", "%s has an inverse %s; %s" % (p, z, w.story()))
        elif op == "pow":
            n = rng.choice([0, 1, 2, 3])
            if len(p.t) < 4 and max([sum(m) for m in p.t] + [0]) < 4:
                z, r = x ** n, Poly(w, {w.unit: Coef(1)})
                for _ in range(n):
                    r = r * p
                made = (z, r)
        elif op == "simplify":
            z = x.simplify()
            check(z is x, "simplify", lambda: "%s is not simplified in place; %s" % (p, w.story()))
            w.verify(x, p, "simplified")
            check(len(x.module().basis()) == len(p.t), "simplify", lambda: "%s still lives in %s; %s" % (p, x.module(), w.story()))
        elif op == "module":
            M, N = x.module(), x.module()
            check(M == N and M.__smartptr__().get() is N.__smartptr__().get(), "module", lambda: "module of %s is not the same; %s" % (p, w.story()))
            i = rng.randrange(M.rank()) if M.rank() else None
            if i is not None:
                z = w.R(M.gen(i))
                m = w.known.get(call("real.address", M.basis()[i]._b))
                if m is not None:
                    made = (z, Poly(w, {m: Coef(1)}))
        elif op == "gens":
            from pyexactreal import ZZModule, QQModule, NumberFieldModule
            gens = [w.gens[i].module().basis()[0] for i in range(len(w.gens))]
            rng.shuffle(gens)
            M = ZZModule(*gens) if w.kind == "Z" else QQModule(*gens) if w.kind == "Q" else NumberFieldModule(w.base.renf, *gens)
            check(sorted(call("real.address", g._b) for g in M.basis()) == sorted(call("real.address", g._b) for g in gens), "module", lambda: "%s has other generators; %s" % (M, w.story()))
            i = rng.randrange(len(gens))
            m = tuple(int(call("real.address", b) == call("real.address", M.basis()[i]._b)) for b in w.boxes)
            w.monomial(m)
            made = (w.R(M.gen(i)), Poly(w, {m: Coef(1)}))
        if made:
            w.verify(made[0], made[1], op)
            pool.append(made)
        for z, r in pool[-3:]:
            w.verify(z, r, "afterwards")
    # (Twice as many generators of other kinds.)
    if rng.random() < .2:
        for z in w.R.some_elements() + [w.R.an_element()]:
            check(z == z + w.R.zero() and not z != z * w.R.one() and z - z == 0, "some_elements", lambda: "%s; %s" % (z, w.story()))
        q = Fraction(rng.randint(1, 30), rng.randint(1, 9)) if w.kind != "Z" else Fraction(rng.randint(1, 30))
        z = w.R.rational(QQ(q))
        check(QQ(z).value == q and float(z) == nearest(q), "rational", "rational(%s) is %s" % (q, z))
        check(w.R.characteristic() == 0 and not w.R.is_field() and w.R.is_integral_domain(), "parent", "properties of the parent")
        a, b = w.R.random_element(), w.R.random_element()
        check(a != b and (a < b) != (b < a), "random", "two random elements agree")
        tally("parents")
    return "%s: %s" % (w.kind, "; ".join(w.steps))


def expressions(rng):
    import cppyy
    from pyexactreal import exactreal
    from pyexactreal.cppyy_exactreal import PrecisionError
    prec = rng.choice([53, 64, 100, 200])

    def value(n):
        if rng.random() < .5:
            v = rng.randint(-20, 20)
            return exactreal.Arb(v), Fraction(v)
        q = Fraction(rng.randint(-99, 99), rng.choice([3, 7, 10]))
        return exactreal.Arb(cppyy.mpq_class(q), rng.choice([30, 64, 128])), q

    def build(depth):
        """An expression of which nothing but itself is kept, and its value."""
        if depth == 0:
            return value(depth) + (1,)
        op = rng.choice("+-*/n")
        x, p, n = build(depth - 1)
        if op == "n":
            return -x, -p, n + 1
        if rng.random() < .25:
            # an integer, on the right (and on the left of a ball)
            k = rng.choice([1, 2, 3, -5])
            if depth == 1 and rng.random() < .5:
                if op == "/" and p == 0:
                    op = "+"
                z = {"+": lambda: k + x, "-": lambda: k - x, "*": lambda: k * x, "/": lambda: k / x}[op]()
                return z, {"+": k + p, "-": k - p, "*": k * p, "/": Fraction(k) / p if p else 0}[op], n + 1
            z = {"+": lambda: x + k, "-": lambda: x - k, "*": lambda: x * k, "/": lambda: x / k}[op]()
            return z, {"+": p + k, "-": p - k, "*": p * k, "/": p / k}[op], n + 1
        y, q, m = build(rng.randrange(depth))
        if op == "/" and q == 0:
            op = "-"
        if rng.random() < .5 and isinstance(y, exactreal.Arb) and not isinstance(x, exactreal.Arb):
            x, p, y, q = y, q, x, p
            if op == "/" and q == 0:
                op = "-"
        z = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y}[op]()
        return z, {"+": p + q, "-": p - q, "*": p * q, "/": p / q if q else 0}[op], n + m + 1

    what = []
    for _ in range(4):
        e, v, n = build(rng.choice([1, 2, 3, 3]))
        gc.collect(0)
        for _ in range(rng.choice([1, 2])):
            r = e(prec)
            l, u = call("ball.bounds", r._b)
            if not l:
                tally("unbounded balls")
                continue
            l, u = Fraction(l), Fraction(u)
            check(l <= v <= u, "expression", "an expression that is %s was evaluated to [%s, %s]" % (v, float(l), float(u)))
            tally("expressions evaluated")
        what.append("%s/%d" % (v, n))
        # comparisons of balls
        if l:
            k = rng.randrange(4)
            y = r if k == 0 else exactreal.Arb(cppyy.mpq_class(v), rng.choice([2, 20, 60, 300])) if k < 3 and abs(v.numerator) < 10**30 else value(0)[0]
            ly, uy = [Fraction(b) for b in call("ball.bounds", y._b)]
            truth = {"lt": (u < ly, l >= uy), "le": (u <= ly, l > uy), "gt": (l > uy, u <= ly), "ge": (l >= uy, u < ly),
                     "eq": (l == u == ly == uy, u < ly or l > uy), "ne": (u < ly or l > uy, l == u == ly == uy)}
            compare = {"lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b, "eq": lambda a, b: a == b, "ne": lambda a, b: a != b}
            for name, (yes, no) in truth.items():
                try:
                    got = compare[name](r, y)
                except PrecisionError:
                    check(not (yes or no), "undecided", "%s of [%s, %s] and [%s, %s] is undecided" % (name, l, u, ly, uy))
                    tally("comparisons undecided")
                else:
                    check(got is True and yes or got is False and no, "comparison", "%s of [%s, %s] and [%s, %s] is %s" % (name, l, u, ly, uy, got))
                    tally("comparisons of balls")
    return "balls: " + "; ".join(what)


def rounded(q, prec, direction):
    """q to this many bits."""
    if q == 0:
        return q
    a = abs(q)
    # 2^(prec-1) <= a * 2^-e < 2^prec
    e = a.numerator.bit_length() - a.denominator.bit_length() - prec
    while a / Fraction(2) ** e >= 1 << prec:
        e += 1
    while a / Fraction(2) ** e < 1 << (prec - 1):
        e -= 1
    m = q / Fraction(2) ** e
    f = m.numerator // m.denominator
    c = -(-m.numerator // m.denominator)
    if direction == "NEAR":
        r = f if m - f < c - m or (m - f == c - m and f % 2 == 0) else c
    else:
        r = {"FLOOR": f, "CEIL": c, "DOWN": f if q > 0 else c, "UP": c if q > 0 else f}[direction]
    return r * Fraction(2) ** e


def floats(rng):
    from pyexactreal import exactreal
    prec = rng.choice([2, 10, 53, 64, 100])
    direction = rng.choice(["DOWN", "UP", "FLOOR", "CEIL", "NEAR"])
    rounding = getattr(exactreal.Arf.Round, direction)
    what = ["%d %s" % (prec, direction)]

    def leaf():
        v = rng.choice([rng.randint(-20, 20), rng.uniform(-5, 5), rng.uniform(-1, 1) * 2.0 ** rng.randint(-60, 60)])
        return exactreal.Arf(v), Fraction(v)

    def build(depth):
        if depth == 0:
            return leaf()
        x, p = build(depth - 1)
        op = rng.choice("+-*/n")
        if op == "n":
            return -x, -p
        k = None
        if rng.random() < .2 and isinstance(x, exactreal.Arf):
            k = rng.choice([1, 2, 3, -7])
            y, q = x, p
            x, p = k, Fraction(k)
        elif rng.random() < .2:
            y = rng.choice([1, 2, 3, -7])
            q = Fraction(y)
        else:
            y, q = build(rng.randrange(depth))
            if rng.random() < .5 and isinstance(y, exactreal.Arf) and not isinstance(x, exactreal.Arf):
                x, p, y, q = y, q, x, p
        if op == "/" and q == 0:
            op = "+"
        z = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y}[op]()
        return z, rounded({"+": p + q, "-": p - q, "*": p * q, "/": p / q if q else 0}[op], prec, direction)

    for _ in range(6):
        e, v = build(rng.choice([1, 2, 3, 4]))
        gc.collect(0)
        for _ in range(rng.choice([1, 2])):
            r = e(prec, rounding)
            check(r._value() == v, "float", "evaluated with %d bits and %s to %s instead of %s" % (prec, direction, r._value(), v))
            tally("floats evaluated from Python")
        y, q = leaf()
        got = [r < y, r <= y, r == y, r != y, r > y, r >= y]
        check(got == [v < q, v <= q, v == q, v != q, v > q, v >= q], "float", "%s and %s compare as %s" % (v, q, got))
        what.append(str(v))
    return "floats: " + "; ".join(what)


def numbers(rng):
    """Real numbers by themselves."""
    import cppyy
    from pyexactreal import RealNumber, ZZModule, QQModule, exactreal
    from pyexactreal.cppyy_exactreal import NotRepresentableError
    q = Fraction(rng.randint(-50, 50), rng.randint(1, 20))
    xs = [RealNumber.random(), RealNumber.random(rng.uniform(-3, 3)), RealNumber.rational(cppyy.mpq_class(q))]
    vs = [approximation(xs[0]._b), approximation(xs[1]._b), q]
    check(vs[0] != vs[1], "random", "two random numbers agree")
    for (x, a), (y, b) in itertools.product(zip(xs, vs), repeat=2):
        got = [x < y, x <= y, x == y, x != y, x > y, x >= y]
        check(got == [a < b, a <= b, a == b, a != b, a > b, a >= b], "order", "%s and %s: %s" % (x, y, got))
        tally("comparisons")
    for x, a in zip(xs, vs):
        z = pickle.loads(pickle.dumps(x))
        check(z == x and float(x) == nearest(a), "pickle", "%s" % x)
        tally("pickles")
    M = rng.choice([ZZModule, QQModule])(*xs[:2])
    g, h = M.gen(0), M.gen(1)
    try:
        r = g / h
    except NotRepresentableError:
        tally("quotients refused")
    else:
        raise Violation("division", "%s / %s is %s" % (g, h, r))
    k = rng.randint(1, 10**12)
    n = cppyy.mpz_class(k)
    check((g * h) / h == g and (n * g) / n == g and g * k - g * k == M.zero() and -(-g) == g and (g + h) - h == g and g * n == k * g, "arithmetic", "in %s" % M)
    check((g + h) * (g - h) == g * g - h * h, "arithmetic", "in %s" % M)
    check(pickle.loads(pickle.dumps(M)) == M and pickle.loads(pickle.dumps(g)) == g, "pickle", "%s" % M)
    tally("pickles")
    return "numbers: %s %s" % (q, k)


def run(seed, index):
    rng = random.Random(seed)
    kind = (expressions, numbers, elements, elements, floats, elements)[index // 8 % 6]
    try:
        return kind(rng)
    except Violation:
        raise
    except Unsupported as e:
        tally("beyond the stand-ins: %s" % e)
        return "unsupported"
    except Exception as e:
        import traceback
        frames = traceback.extract_tb(e.__traceback__)
        raise Violation("exception", "%s: %s at %s" % (type(e).__name__, e, "; ".join("%s:%d" % (f.filename.rsplit("/", 1)[-1], f.lineno) for f in frames[-4:])))

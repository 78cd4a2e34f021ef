#!/usr/bin/env python3
"""Generate C++ expression shapes for the Arf/Arb expression templates.

usage: gen_shapes.py {arf|arb} SEED FILE_INDEX COUNT  > shapes_N.cc

Every shape is a statement that uses the real expression templates together
with a statement that computes the same value with the reference model."""
import random
import sys

kind, seed, idx, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
rng = random.Random("%s/%d/%d" % (kind, seed, idx))
ARF = kind == "arf"
T = "Arf" if ARF else "Arb"
OPS = {"+": "madd", "-": "msub", "*": "mmul", "/": "mdiv"}


class Node:
    # cat: 'T' an Arf/Arb, 'E' a yap expression (rvalue), 'S' a scalar
    def __init__(self, code, cat, model, leaf=False):
        self.code, self.cat, self.model, self.leaf = code, cat, model, leaf


def leaf(scalar_ok):
    k = rng.randrange(12)
    if scalar_ok and k >= 9:
        c = rng.choice(["i", "l", "d"] if ARF else ["i", "l", "u", "d", "a"])
        j = rng.randrange(2)
        forms = ["std::as_const(E.%s[%d])", "+E.%s[%d]" if c != "a" else "E.%s[%d]"]
        return Node(rng.choice(forms) % (c, j), "S", lambda b: "E.m%s(%d)" % (c, j))
    j = rng.randrange(5)
    code = rng.choice(["E.v[%d]", "E.v[%d]", "std::as_const(E.v[%d])", T + "(E.v[%d])"]) % j
    return Node(code, "T", lambda b: "E.mv[%d]" % j, leaf=True)


def bind(n):
    """wrap in (prec), (round) or both"""
    p, r = rng.randrange(4), rng.randrange(4)
    how = rng.randrange(4) if ARF else 0
    P, R = "E.p[%d]" % p, "E.r[%d]" % r
    call = {0: "(%s)" % P, 1: "(%s)" % R, 2: "(%s, %s)" % (P, R), 3: "(%s)(%s)" % (R, P)}[how]

    def model(b):
        return n.model((P if how != 1 else b[0], R if how != 0 else b[1]))
    base = n.code if n.leaf else "(%s)" % n.code
    return Node(base + call, "E", model)


def tree(depth, scalar_ok=False, callable_=True):
    # Calls that bind parameters do not compile as the left operand of a binary
    # operator or as the operand of an unary operator.
    k = rng.random()
    if depth == 0 or k < 0.15:
        return leaf(scalar_ok)
    if k < 0.27:
        n = tree(depth - 1, callable_=False)
        return Node("(-(%s))" % n.code, n.cat, lambda b: "mneg(%s)" % n.model(b))
    if k < 0.45 and callable_:
        return bind(tree(depth - 1))
    op = rng.choice("+-*/")
    side = rng.randrange(4)
    l = tree(depth - 1, scalar_ok=side == 0, callable_=False)
    r = tree(depth - 1, scalar_ok=(side == 1 and l.cat != "S"))
    return Node("(%s %s %s)" % (l.code, op, r.code), "E",
                lambda b: "%s(E, %s, %s, %s)" % (OPS[op], l.model(b), r.model(b), ", ".join(b) if ARF else b[0]))


def esc(s):
    return s.replace("\\", "\\\\").replace('"', '\\"')


print('#include "%s_env.hpp"' % kind)
print("namespace verif { namespace {")
for k in range(count):
    depth = rng.choice([1, 2, 2, 3, 3, 4, 5])
    while True:
        n = tree(depth)
        if n.cat == "E":
            break
    P, R = "E.p[0]", "E.r[0]"
    base = "(%s)" % n.code
    full = base + (rng.choice(["(E.p[0], E.r[0])", "(E.p[0])(E.r[0])", "(E.r[0])(E.p[0])"]) if ARF else "(E.p[0])")
    want = n.model((P, R))
    form = rng.randrange(7)
    d = rng.randrange(5)
    body = ["auto want = %s;" % want]
    if form == 0:
        text = "%s z(%s)" % (T, full)
        body += ["%s z(%s);" % (T, full), "E.verify(TEXT, -1, z, want);"]
    elif form == 1:
        text = "%s z = %s" % (T, full)
        body += ["%s z = %s;" % (T, full), "E.verify(TEXT, -1, z, want);"]
    elif form in (2, 3):
        text = "E.v[%d] = %s" % (d, full)
        body += ["%s& res = (E.v[%d] = %s);" % (T, d, full), "E.verifySelf(TEXT, &res, %d);" % d, "E.verify(TEXT, %d, E.v[%d], want);" % (d, d)]
    elif form in (4, 5):
        op = rng.choice("+-*/")
        text = "E.v[%d] %s= %s" % (d, op, full)
        body = ["auto want = %s(E, E.mv[%d], %s, %s);" % (OPS[op], d, want, "E.p[0], E.r[0]" if ARF else "E.p[0]"),
                "%s& res = (E.v[%d] %s= %s);" % (T, d, op, full), "E.verifySelf(TEXT, &res, %d);" % d,
                "E.verify(TEXT, %d, E.v[%d], want);" % (d, d)]
    else:
        text = "auto e = %s; z = e; w = std::move(e)" % full
        body += ["auto e = %s;" % full, "%s z, w; z = e; w = std::move(e);" % T, "E.verify(TEXT, -1, z, want);", "E.verify(TEXT, -1, w, want);"]
    print('void shape_%d(%sEnv& E) {' % (k, T))
    print('  static const char* TEXT = "%s";' % esc(text))
    print('  at(TEXT);')
    for l in body:
        print("  " + l)
    print("}")
print("}  // namespace")
print("void addShapes_%d(std::vector<void (*)(%sEnv&)>& v) {" % (idx, T))
for k in range(count):
    print("  v.push_back(shape_%d);" % k)
print("}\n}")

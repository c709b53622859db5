"""Harness description and the helpers that harness bodies share."""
from fractions import Fraction
from math import factorial

from . import engine
from .engine import AND, OR, NOT, IMPLIES, ITE, EQ, Abort, Counterexample, Inconclusive

try:
    import z3
except ImportError:
    z3 = None


class Harness:
    def __init__(self, name, body, functions, bounds, kind='paths', params=None, outside=''):
        self.name, self.body, self.functions, self.bounds = name, body, functions, bounds
        self.kind, self.params, self.outside = kind, params or {}, outside

    def run(self, ctx, M):
        return self.body(ctx, M, **self.params)


# ------------------------------------------------- fractions as z3 terms
def rv(x):
    x = Fraction(x)
    return z3.RealVal(f'{x.numerator}/{x.denominator}')


def zfact_inv(e, hi):
    """1/e! for an integer term 0 <= e <= hi"""
    if isinstance(e, int):
        return rv(Fraction(1, factorial(e)))
    e = engine._z(e)
    r = rv(Fraction(1, factorial(hi)))
    for k in range(hi - 1, -1, -1):
        r = z3.If(e == k, rv(Fraction(1, factorial(k))), r)
    return r


def zfact(e, hi):
    e = engine._z(e)
    r = rv(factorial(hi))
    for k in range(hi - 1, -1, -1):
        r = z3.If(e == k, rv(factorial(k)), r)
    return r


def zmax(xs):
    r = xs[0]
    for x in xs[1:]:
        r = z3.If(x > r, x, r)
    return r


def zsum(xs):
    xs = list(xs)
    return z3.Sum(xs) if xs else z3.IntVal(0)


def table_term(vec, table):
    """z3 Real term: the coefficient the program gives to the term `vec`"""
    r = rv(0)
    for key, c in table.items():
        r = z3.If(z3.And([v == k for v, k in zip(vec, key)]) if key else z3.BoolVal(True), rv(c), r)
    return r


class ExtraCtx:
    pass

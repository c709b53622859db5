"""Shared by the checks of the W / dt / residual programs."""
import itertools as it
from fractions import Fraction
from math import factorial

from symx import tn, engine
from symx.harness import *   # noqa

LEVELS = ['singles', 'doubles', 'triples', 'quadruples', 'quintuples', 'sextuples']


class Flags:
    """truncation / ansatz object whose fields are symbolic booleans"""
    def __init__(self, values):
        self.__dict__.update(values)

    def __iter__(self):
        return iter(self.__dict__.values())


def truncation(ctx, hi=6):
    """monotone truncation flags: `triples` implies `doubles` implies `singles`"""
    f = {n: ctx.bool(n) for n in LEVELS[:hi]}
    for a, b in zip(LEVELS, LEVELS[1:hi]):
        ctx.assume(IMPLIES(f[b], f[a]))
    for n in LEVELS[hi:]:
        f[n] = False
    return Flags(f)


def ansatz(ctx):
    """exactly one of the three ansatzes"""
    f = {n: ctx.bool(n) for n in ('VECI', 'VE_MIXED', 'VECC')}
    ctx.assume(OR(f['VECI'], f['VE_MIXED'], f['VECC']))
    for a, b in it.combinations(f, 2):
        ctx.assume(NOT(AND(f[a], f[b])))
    return Flags(f)


def mode_types(n):
    return ['A', 'A'] + ['N'] * n


def mode_groups(n):
    return ['a', 'b'] + ['m'] * n


def tleaf(name, n):
    return tn.Poly.leaf(f'{name}{n}', mode_types(n), mode_groups(n))


def chain(net):
    """the leaves in matrix-product order along the surface indices a..b of the
    result, or None if they do not form one chain from output axis 0 to output axis 1"""
    by_first = {}
    for k, (lf, ix) in enumerate(net.leaves):
        if len(ix) < 2 or lf.types[0] != 'A' or lf.types[1] != 'A' or ix[0] in by_first:
            return None
        by_first[ix[0]] = k
    if len(net.out) < 2:
        return None
    order, cur = [], net.out[0]
    while cur in by_first:
        k = by_first.pop(cur)
        order.append(k)
        cur = net.leaves[k][1][1]
    if by_first or cur != net.out[1] or len(order) != len(net.leaves):
        return None
    return order


def external_counts(net):
    """[(leaf name, number of its mode axes that are axes of the result)] in chain order;
    None unless every mode axis of every leaf is exactly one axis of the result"""
    order = chain(net)
    if order is None:
        return None
    ep = tn.endpoints(net)
    for i, es in ep.items():
        if len(es) != 2:
            return None
    out = set(net.out)
    res = []
    for k in order:
        lf, ix = net.leaves[k]
        if any(i not in out for i in ix[2:]):
            return None
        res.append((lf.name, len(ix) - 2))
    return res


def numeric_t(rng, dims, n, hi=6):
    return tuple(tn.random_tensor(rng, mode_types(k), mode_groups(k), dims) for k in range(1, hi + 1))


def compositions(n):
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for r in compositions(n - k):
            yield (k,) + r


DIMS = {'A': 3, 'N': 2}


class ResidualModule:
    """stand-in for the generated residual_equations module: order-n residual is an opaque tensor"""
    def __init__(self, make):
        self.make = make

    def __getattr__(self, name):
        import re
        m = re.fullmatch(r'calculate_order_(\d+)_residual', name)
        if not m:
            raise AttributeError(name)
        n = int(m.group(1))
        return lambda A, N, trunc, h_args, w_args: self.make(n, A, N, trunc, h_args, w_args)


def dt_inputs(ctx, hi=6):
    """(namespace extras, positional arguments) for the dt program"""
    if ctx.symbolic:
        t = tuple(tleaf('t', k) for k in range(1, hi + 1))
        dt = tuple(tleaf('dt', k) for k in range(1, hi + 1))
        w = tuple(tleaf('w', k) for k in range(1, hi + 1))
        eps = tn.Poly.leaf('eps', ['A', 'A'], ['a', 'b'])
        h = object()

        def make(n, A, N, trunc, h_args, w_args):
            if h_args is not h or tuple(w_args) != w:
                raise tn.ProgramError('residual called with other arguments than the h and w it was given')
            return tleaf('R', n).copy()
        return {'residual_equations': ResidualModule(make)}, (eps, h, t, dt, w), 'A', 'N'
    import numpy as np
    rng = np.random.default_rng(7)
    t = numeric_t(rng, DIMS, hi)
    dt = numeric_t(rng, DIMS, hi)
    w = numeric_t(rng, DIMS, hi)
    eps = rng.standard_normal((DIMS['A'], DIMS['A']))
    R = numeric_t(rng, DIMS, hi)
    h = object()

    def make(n, A, N, trunc, h_args, w_args):
        assert h_args is h and all(a is b for a, b in zip(w_args, w))
        return R[n - 1].astype(complex)
    return {'residual_equations': ResidualModule(make)}, (eps, h, t, dt, w), DIMS['A'], DIMS['N'], R


def equal_tables(ctx, a, b, label, detail=None, sig=None):
    """solver query: no term has different coefficients in the two programs
    (a, b: canonical form -> Fraction)"""
    keys = sorted(set(a) | set(b), key=repr)
    ids = {k: i for i, k in enumerate(keys)}
    x = ctx.exists('term', 0, max(len(keys) - 1, 0))
    ta = {(ids[k],): c for k, c in a.items()}
    tb = {(ids[k],): c for k, c in b.items()}
    return ctx.prove_z3(table_term([x], ta) == table_term([x], tb), label, detail, sig)


def coeffs(poly):
    return {k: v[0] for k, v in tn.collect(poly, tn.mode_sym(poly.shape)).items()}

"""P14: truncation numbers outside the supported ranges are refused before anything is written."""
import os
import tempfile

from checks.wcommon import *   # noqa
from checks.gen import *   # noqa

LEVEL = 'model_checking'
ASSUMPTIONS = ['only the keys that belong to the request, and keys that are no truncation at all, are supplied (what happens to '
               'a truncation key of another request is not specified)']
KINDS = {
    'zhz': dict(keys=('H', 'CC', 'P'), verify='_verify_zhz_truncations'),
    'fcc': dict(keys=('H', 'CC', 'S', 'P'), verify='_verify_fcc_truncations'),
    'eTz': dict(keys=('H', 'CC', 'T', 'eT', 'P'), verify='_verify_eT_z_t_truncations'),
}
LIMIT = dict(H=6, CC=6, S=6, P=6, T=1, eT=8)
GENERATORS = {
    'full_cc_latex': ('fcc', 'latex_full_cc', 'generate_full_cc_latex'),
    'full_cc_python': ('fcc', 'code_full_cc', 'generate_full_cc_python'),
    'z_t_latex': ('zhz', 'latex_zhz', 'generate_z_t_symmetric_latex'),
    'eT_z_latex': ('eTz', 'latex_eT_zhz', 'generate_eT_z_t_symmetric_latex'),
    'eT_z_python': ('eTz', 'code_eT_zhz', 'generate_eT_zhz_python'),
}
WIDE = 1000


def refused(f):
    """did f() raise?"""
    try:
        f()
    except (engine.Counterexample, engine.Inconclusive):
        raise
    except Exception as e:
        return type(e).__name__
    return None


def same_dict(a, b):
    return list(a) == list(b) and all(a[k] is b[k] or a[k] is not None and bool(EQ(a[k], b[k])) for k in a)


def number(ctx, x):
    if ctx.symbolic and ctx.eager:        # fallback for code the proxies cannot follow: the boundary values only
        return ctx.int(x, -WIDE, WIDE, only=(0, 1, LIMIT[x], LIMIT[x] + 1))
    return ctx.int(x, -WIDE, WIDE)


def verify(ctx, M, kind):
    k = M.truncation_keys.TruncationsKeys
    keys = KINDS[kind]['keys']
    if ctx.choice('reversed_order', [False, True]):
        keys = tuple(reversed(keys))
    trunc, ok = {}, []
    for x in keys:
        if ctx.bool(f'has_{x}'):
            trunc[getattr(k, x)] = v = number(ctx, x)
            ok += [v >= 1, v <= LIMIT[x]]
        else:
            ok.append(False)
    extra = ctx.choice('extra', ['none', 'text', 'number'])
    if extra != 'none':
        trunc['bogus' if extra == 'text' else 7] = 1
        ok.append(False)
    before = dict(trunc)
    ctx.tokens = True        # numbers only appear in error messages
    err = refused(lambda: getattr(M.truncations, KINDS[kind]['verify'])(trunc))
    valid = AND(ok)
    if err:
        ctx.prove(NOT(valid), f'{kind}: a truncation within the supported ranges is refused ({err})')
    else:
        ctx.prove(valid, f'{kind}: a truncation outside the supported ranges is accepted')
    ctx.prove(same_dict(trunc, before), f'{kind}: the supplied truncation is modified')
    ctx.reach('verified')


def generator(ctx, M, name, low):
    kind, module, func = GENERATORS[name]
    keys = KINDS[kind]['keys']
    k = M.truncation_keys.TruncationsKeys
    bad = ctx.choice('offending', list(keys))
    missing = low and bool(ctx.bool('missing'))
    rest = ctx.choice('others', [1, 2])
    trunc = {getattr(k, x): min(rest, LIMIT[x]) for x in keys}
    if missing:
        del trunc[getattr(k, bad)]
    else:
        trunc[getattr(k, bad)] = ctx.int('value', -3, 0) if low else ctx.int('value', LIMIT[bad] + 1, LIMIT[bad] + 3)
    options = dict(only_ground_state=ctx.choice('ground', [True, False]), remove_f_terms=ctx.choice('no_f', [False, True]),
                   lhs_rhs=ctx.choice('side', ['RHS', 'LHS']))
    exists = ctx.choice('file_exists', [False, True])
    with tempfile.TemporaryDirectory(prefix='tfgen') as d:
        path = os.path.join(d, 'out')
        if exists:
            with open(path, 'w') as f:
                f.write('previous')
        err = refused(lambda: getattr(getattr(M, module), func)(
            trunc, path=path, **options))
        ctx.prove(err is not None, f'{name}: {bad} {"missing" if missing else "too small" if low else "too large"}: not refused')
        if exists:
            ctx.prove(held(path) == 'previous', f'{name}: the existing file is overwritten by a refused request')
        ctx.prove(os.listdir(d) == (['out'] if exists else []), f'{name}: a refused request leaves a file')
    ctx.reach('refused')


def held(path):
    if not os.path.exists(path):
        return None
    with open(path) as f:
        return f.read()


ORDERS = {
    # generator: (module, function, arguments, highest supported values)
    'w_python': ('code_w_equations', 'generate_w_operator_equations_file', ('order',), (6,)),
    'dt_python': ('code_dt_equations', 'generate_dt_amplitude_equations_file', ('order',), (6,)),
    'residual_python': ('code_residual_equations', 'generate_residual_equations_file', ('order', 'rank'), (6, 2)),
}


def order_generator(ctx, M, name):
    """the generators that take an order and no truncation"""
    module, func, names, limits = ORDERS[name]
    values = [ctx.int(x, 1, hi + 3) for x, hi in zip(names, limits)]
    ctx.assume(OR([v > hi for v, hi in zip(values, limits)]))
    exists = ctx.choice('file_exists', [False, True])
    with tempfile.TemporaryDirectory(prefix='tfgen') as d:
        path = os.path.join(d, 'out')
        if exists:
            with open(path, 'w') as f:
                f.write('previous')
        err = refused(lambda: getattr(getattr(M, module), func)(*values, path=path))
        ctx.prove(err is not None, f'{name}: {names} above {limits}: not refused')
        if exists:
            ctx.prove(held(path) == 'previous', f'{name}: the existing file is overwritten by a refused request')
        ctx.prove(os.listdir(d) == (['out'] if exists else []), f'{name}: a refused request leaves a file')
    ctx.reach('refused')


def harnesses(tier):
    out = []
    for name, (module, func, names, limits) in ORDERS.items():
        out.append(Harness(f'{name}_high', order_generator, [f'{module}.{func} and its callees'],
                           f'{names} 1 to 3 above {limits} (at least one of them); target file absent or present',
                           params=dict(name=name)))
    for kind, x in KINDS.items():
        out.append(Harness(f'verify_{kind}', verify, ['truncations.' + x['verify'], 'truncations.__verify_keys',
                                                      'truncation_keys.TruncationsKeys'],
                           f'every value in -{WIDE}..{WIDE} of every number, every subset of the numbers, unknown keys, two key '
                           'orders', params=dict(kind=kind)))
    for name, (kind, module, func) in GENERATORS.items():
        for low in (True, False):
            out.append(Harness(f'{name}_{"low" if low else "high"}', generator, [f'{module}.{func}', 'truncations.__verify_keys'],
                               f'one number {"missing or in -3..0" if low else '1 to 3 above its maximum'}, the '
                               'others 1; target file absent or present', params=dict(name=name, low=low)))
    return out

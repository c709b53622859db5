"""P03: the generated dt program subtracts exactly the disconnected terms of d/dtau exp(T)."""
from checks.wcommon import *   # noqa
from checks.gen import *   # noqa

LEVEL = 'translation_validation'
ASSUMPTIONS = [
    'truncation flags are monotone, exactly one ansatz flag is set',
    't, dt, w tensors are symmetric in their mode axes; symmetrize_tensor sums over all permutations of the mode axes',
    'residual_equations.calculate_order_n_residual is an opaque tensor of order n (it is decided by P04)',
]
FUNCS = ['code_dt_equations.' + f for f in (
    'generate_dt_amplitude_equations_file', '_write_linked_disconnected_strings', '_write_un_linked_disconnected_strings',
    '_generate_disconnected_einsum_function_call_list', '_generate_disconnected_einsum_operands_list',
    '_write_dt_amplitude_strings', '_write_master_dt_amplitude_function')] + [
    'code_w_equations._generate_w_operator_prefactor', 'code_w_equations._generate_surface_index',
    'code_w_equations._generate_mode_index', 'helper_funcs._partitions', 'and the generated program itself']

RES, EPS, PROD = 0, 1, 2


def table_of(ctx, poly, n, what):
    table = {}
    for key, (c, net) in tn.collect(poly, tn.mode_sym(poly.shape)).items():
        ex = external_counts(net)
        vec = None
        if ex is not None:
            names = [a for a, _ in ex]
            if names == [f'R{n}']:
                vec = (RES,) + (0,) * 7
            elif names == [f'w{n}', 'eps']:
                vec = (EPS,) + (0,) * 7
            elif all(a in (f't{r}', f'dt{r}') for a, r in ex) and sum(a.startswith('d') for a in names) == 1:
                p = [i for i, a in enumerate(names, 1) if a.startswith('d')][0]
                v = [r for _, r in ex]
                vec = (PROD, p) + tuple(v) + (0,) * (6 - len(v))
        if vec is None:
            ctx.fail(f'{what}: the program adds a term that is not part of the equation: {key}')
            continue
        table[vec] = table.get(vec, 0) + c
    return table


def body(ctx, M, order):
    mx = ctx.int('max_order', order, 6)
    src = generate(M.code_dt_equations.generate_dt_amplitude_equations_file, mx)
    tr, an = truncation(ctx), ansatz(ctx)
    ctx.assume(getattr(tr, LEVELS[order - 1]))
    ctx.program()
    inp = dt_inputs(ctx)
    extra, (eps, h, t, dt, w), A, N = inp[:4]
    ns = (tn.exec_symbolic if ctx.symbolic else tn.exec_numeric)(src, extra)
    r = ns[f'solve_{LEVELS[order-1]}_equations'](A, N, an, tr, eps, h, t, dt, w)
    what = f'dt amplitude of order {order}'
    if not ctx.symbolic:
        import numpy as np
        ref = inp[4][order - 1] - np.einsum('ac...,cb->ab...', w[order - 1], eps) / factorial(order)
        for comp in compositions(order):
            k = len(comp)
            if k == 1 or not (an.VECC or (an.VE_MIXED and sum(x > 1 for x in comp) <= 1)):
                continue
            c = 1.0 / factorial(k)
            for x in comp:
                c /= factorial(x)
            for p in range(k):
                args, m = [], 20
                for i, x in enumerate(comp):
                    args += [(dt if i == p else t)[x - 1], [i, i + 1] + list(range(m, m + x))]
                    m += x
                ref = ref - c * np.einsum(*args, [0, k] + list(range(20, m)))
        ref = tn.numeric_symmetrize(ref)
        ctx.prove(r.shape == ref.shape and np.allclose(r, ref), f'{what} differs from the reference')
        return
    ctx.prove(r.sym or order == 1, f'{what}: not symmetrised')
    ctx.prove(r.shape == tuple(mode_types(order)), f'{what}: shape')
    table = table_of(ctx, r, order, what)
    kind = ctx.exists('kind', 0, 2)
    p = ctx.exists('position', 0, 6)
    v = [ctx.exists(f'n{i+1}', 0, order) for i in range(6)]
    z = engine._z
    k = zsum([z3.If(x > 0, 1, 0) for x in v])
    big = zsum([z3.If(x > 1, 1, 0) for x in v])
    coeff = zfact_inv(k, 6)
    for x in v:
        coeff = coeff * zfact_inv(x, 6)
    allowed = z3.And(k >= 2, z3.Or(z(an.VECC), z3.And(z(an.VE_MIXED), big <= 1)))
    spec = z3.If(kind == RES, rv(1), z3.If(kind == EPS, -rv(Fraction(1, factorial(order))),
                                           z3.If(allowed, -coeff, rv(0))))
    dom = z3.If(kind == PROD,
                z3.And([zsum(v) == order, p >= 1, p <= k] + [z3.Implies(b > 0, a > 0) for a, b in zip(v, v[1:])]),
                z3.And([p == 0] + [x == 0 for x in v]))
    ctx.prove_z3(z3.Implies(dom, table_term([kind, p] + v, table) == spec),
                 f'{what}: the coefficient of a term differs from the equation')
    ctx.reach(what)


def harnesses(tier):
    return [Harness(f'order{n}', body, FUNCS,
                    f'solve_{LEVELS[n-1]}_equations of the programs for maximum orders {n}..6, every truncation '
                    f'including it, every ansatz, every product of amplitudes', params=dict(order=n),
                    outside='maximum order > 6 (the generator refuses it)') for n in range(1, 7)]

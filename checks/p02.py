"""P02: the `_optimized` functions compute the same as the default functions (W and dt programs)."""
from checks.wcommon import *   # noqa
from checks.gen import *   # noqa

LEVEL = 'translation_validation'
ASSUMPTIONS = [
    'truncation flags are monotone, `singles` is set, exactly one ansatz flag is set',
    'oe.contract_expression(subscripts, *shapes)(*operands) computes np.einsum(subscripts, *operands) for operands '
    'of those shapes (opt_einsum itself is not installed here)',
    'symmetrize_tensor and the residual functions are opaque and the same for both variants',
]
FUNCS_W = ['code_w_equations.' + f for f in (
    'generate_w_operator_equations_file', '_optimized_w_einsum_list', '_contracted_expressions',
    '_write_optimized_vemx_paths_function', '_write_optimized_vecc_paths_function',
    '_write_master_w_compute_function', '_write_w_function_strings')]
FUNCS_DT = ['code_dt_equations.' + f for f in (
    'generate_dt_amplitude_equations_file', '_generate_optimized_disconnected_einsum_function_call_list',
    '_contracted_expressions', '_write_optimized_epsilon_paths_function', '_write_optimized_linked_paths_function',
    '_write_optimized_unlinked_paths_function', '_write_optimized_master_paths_function',
    '_write_dt_amplitude_strings', '_write_master_dt_amplitude_function')]


def same(ctx, a, b, what):
    if a is None or b is None:
        ctx.prove(a is None and b is None, f'{what}: only one variant computes it')
    elif ctx.symbolic:
        ctx.prove(a.shape == b.shape and a.sym == b.sym, f'{what}: shapes / symmetrisation differ')
        equal_tables(ctx, coeffs(a), coeffs(b), f'{what}: optimized and default programs differ in a term')
    else:
        import numpy as np
        ctx.prove(a.shape == b.shape and np.allclose(a, b), f'{what}: optimized and default results differ')


def body_w(ctx, M):
    src = generate(M.code_w_equations.generate_w_operator_equations_file, 6)
    tr, an = truncation(ctx), ansatz(ctx)
    ctx.assume(tr.singles)
    ctx.assume(NOT(tr.quintuples))
    ctx.program()
    if ctx.symbolic:
        ns = tn.exec_symbolic(src)
        A, N, t = 'A', 'N', tuple(tleaf('t', k) for k in range(1, 7))
    else:
        import numpy as np
        ns = tn.exec_numeric(src)
        A, N, t = DIMS['A'], DIMS['N'], numeric_t(np.random.default_rng(1), DIMS, 6)
    d = ns['compute_w_operators'](A, N, t, an, tr)
    p1 = ns['compute_optimized_vemx_paths'](A, N, tr)
    p2 = ns['compute_optimized_vecc_paths'](A, N, tr)
    o = ns['compute_w_operators_optimized'](A, N, t, an, tr, p1, p2)
    ctx.prove(len(d) == len(o), 'same number of operators')
    for n, (a, b) in enumerate(zip(d, o), 1):
        same(ctx, a, b, f'W_{n}')
    ctx.reach('w')


def body_w_order(ctx, M, order):
    """per-order functions of the programs generated for every maximum order"""
    mx = ctx.int('max_order', order, 6)
    src = generate(M.code_w_equations.generate_w_operator_equations_file, mx)
    tr, an = truncation(ctx), ansatz(ctx)
    ctx.assume(tr.singles)
    ctx.program()
    if ctx.symbolic:
        ns = tn.exec_symbolic(src)
        A, N, t = 'A', 'N', tuple(tleaf('t', k) for k in range(1, 7))
    else:
        import numpy as np
        ns = tn.exec_numeric(src)
        A, N, t = DIMS['A'], DIMS['N'], numeric_t(np.random.default_rng(1), DIMS, 6)
    p1 = ns['compute_optimized_vemx_paths'](A, N, tr)
    p2 = ns['compute_optimized_vecc_paths'](A, N, tr)
    name = f'_calculate_order_{order}_w_operator'
    # order 2 and 3 have no unlinked terms: their VECC lists are not read
    q1 = p1[order - 1] if order - 1 < len(p1) else []
    q2 = p2[order - 1] if order - 1 < len(p2) else []
    same(ctx, ns[name](A, N, t, an, tr), ns[name + '_optimized'](A, N, t, an, tr, q1, q2), f'W_{order}')
    ctx.reach('w')


def body_dt(ctx, M, order):
    mx = ctx.int('max_order', order, 6)
    src = generate(M.code_dt_equations.generate_dt_amplitude_equations_file, mx)
    tr, an = truncation(ctx), ansatz(ctx)
    ctx.assume(getattr(tr, LEVELS[order - 1]))
    ctx.program()
    extra, (eps, h, t, dt, w), A, N = dt_inputs(ctx)[:4]
    ns = (tn.exec_symbolic if ctx.symbolic else tn.exec_numeric)(src, extra)
    d = ns[f'solve_{LEVELS[order-1]}_equations'](A, N, an, tr, eps, h, t, dt, w)
    paths = ns['compute_optimized_paths'](A, N, tr)
    o = ns[f'solve_{LEVELS[order-1]}_equations_optimized'](A, N, an, tr, eps, h, t, dt, w, paths)
    same(ctx, d, o, f'dt amplitude of order {order}')
    ctx.reach('dt')


def harnesses(tier):
    hs = [Harness('w_master', body_w, FUNCS_W,
                  'program for maximum order 6; every truncation up to quadruples; every ansatz',
                  outside='maximum order > 6; full-CC and eT_z_t optimized functions (see P10 and the known findings)')]
    hs += [Harness(f'w_order{n}', body_w_order, FUNCS_W, f'W_{n}, maximum orders {n}..6, every truncation and ansatz',
                   params=dict(order=n)) for n in range(2, 7)]
    hs += [Harness(f'dt_order{n}', body_dt, FUNCS_DT,
                   f'dt amplitude of order {n}, maximum orders {n}..6, every truncation that includes it, every ansatz',
                   params=dict(order=n)) for n in range(1, 7)]
    return hs

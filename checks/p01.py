"""P01: the generated W-operator program computes the truncated exponential."""
from checks.wcommon import *   # noqa
from checks.gen import *   # noqa

LEVEL = 'translation_validation'
ASSUMPTIONS = [
    'truncation flags are monotone (triples => doubles => singles) and `singles` is set, exactly one ansatz flag is set',
    'the t tensors are symmetric in their mode axes; symmetrize_tensor (external to this repository) sums over all '
    'permutations of the mode axes',
    'division of integers in the generated program is exact (Fractions instead of floats)',
]
FUNCS = ['code_w_equations.' + f for f in (
    'generate_w_operator_equations_file', '_generate_vemx_contributions', '_generate_vecc_contributions',
    '_write_w_function_strings', '_write_master_w_compute_function', '_w_einsum_list', '_generate_surface_index',
    '_generate_mode_index', '_generate_w_operator_prefactor')] + [
    'helper_funcs._partitions', 'helper_funcs.unique_permutations',
    'helper_funcs.generate_linked_disconnected_partitions_of_n',
    'helper_funcs.generate_un_linked_disconnected_partitions_of_n', 'and the generated program itself']


def spec_coeff(v, n, tr, an):
    """z3: coefficient of the product t_{v1} t_{v2} ... (zero-padded vector v of
    positive parts summing to n) in W_n"""
    z = engine._z
    k = zsum([z3.If(x > 0, 1, 0) for x in v])
    big = zsum([z3.If(x > 1, 1, 0) for x in v])
    mx = zmax(list(v))
    flag = z3.Or([z3.And(mx == i + 1, z(getattr(tr, LEVELS[i]))) for i in range(6)])
    coeff = zfact_inv(k, 6)
    for x in v:
        coeff = coeff * zfact_inv(x, 6)
    # the coefficient is evaluated case by case (k and the parts are small)
    allowed = z3.And(flag, z3.Or(k == 1,
                                 z3.And(z(an.VE_MIXED), big <= 1),
                                 z(an.VECC)))
    return z3.If(allowed, coeff, rv(0))


def vectorise(ctx, poly, n, what):
    if not poly.sym and n > 1:
        ctx.fail(f'{what}: the returned tensor is not symmetrised')
    table = {}
    for key, (c, net) in tn.collect(poly, tn.mode_sym(poly.shape)).items():
        ex = external_counts(net)
        if ex is None or any(name != f't{r}' for name, r in ex):
            ctx.fail(f'{what}: the program adds a term that is not a product of t amplitudes: {key}')
            continue
        vec = tuple(r for _, r in ex)
        vec = vec + (0,) * (6 - len(vec))
        table[vec] = table.get(vec, 0) + c
    return table


def check_w(ctx, w, n, tr, an, what):
    if tuple(w.shape) != tuple(mode_types(n)):
        ctx.fail(f'{what}: result has shape {w.shape}')
    table = vectorise(ctx, w, n, what)
    v = [ctx.exists(f'n{i+1}', 0, n) for i in range(6)]
    dom = [zsum(v) == n] + [z3.Implies(b > 0, a > 0) for a, b in zip(v, v[1:])]
    q = z3.Implies(z3.And(dom), table_term(v, table) == spec_coeff(v, n, tr, an))
    ctx.prove_z3(q, f'{what}: the coefficient of a product of amplitudes differs from that of the truncated exponential')


def reference(n, t, tr, an):
    """independent numeric reference"""
    import numpy as np
    A, N = t[0].shape[0], t[0].shape[2]
    w = np.zeros((A, A) + (N,) * n, dtype=complex)
    for comp in compositions(n):
        k, mx = len(comp), max(comp)
        if not getattr(tr, LEVELS[mx - 1]):
            continue
        if k > 1 and not (an.VECC or (an.VE_MIXED and sum(x > 1 for x in comp) <= 1)):
            continue
        c = 1.0 / factorial(k)
        for x in comp:
            c /= factorial(x)
        args, m = [], 20
        for i, x in enumerate(comp):
            args += [t[x - 1], [i, i + 1] + list(range(m, m + x))]
            m += x
        w = w + c * np.einsum(*args, [0, k] + list(range(20, m)))
    return tn.numeric_symmetrize(w)


DIMS = {'A': 3, 'N': 2}


def body_orders(ctx, M, opt=False, order=None):
    """one W_n function of the program generated for a maximum order"""
    mx = ctx.int('max_order', order, 6)
    src = generate(M.code_w_equations.generate_w_operator_equations_file, mx)
    tr, an = truncation(ctx), ansatz(ctx)
    ctx.assume(tr.singles)
    name = f'_calculate_order_{order}_w_operator'
    ctx.program()
    if ctx.symbolic:
        ns = tn.exec_symbolic(src)
        t = [tleaf('t', k) for k in range(1, 7)]
        w = ns[name]('A', 'N', tuple(t), an, tr)
        check_w(ctx, w, order, tr, an, name)
        ctx.reach(name)
    else:
        import numpy as np
        ns = tn.exec_numeric(src)
        t = numeric_t(np.random.default_rng(1), DIMS, 6)
        w = ns[name](DIMS['A'], DIMS['N'], t, an, tr)
        ref = reference(order, t, tr, an)
        ctx.prove(w.shape == ref.shape and np.allclose(w, ref, atol=1e-9), f'{name}: differs from the reference',
                  f'max |difference| = {abs(w-ref).max() if w.shape == ref.shape else "shape"}')


def body_master(ctx, M):
    """compute_w_operators: which operators are computed, and their values"""
    src = generate(M.code_w_equations.generate_w_operator_equations_file, 6)
    tr, an = truncation(ctx), ansatz(ctx)
    ctx.assume(tr.singles)
    ctx.assume(NOT(tr.quintuples))
    ctx.program()
    if ctx.symbolic:
        ns = tn.exec_symbolic(src)
        t = [tleaf('t', k) for k in range(1, 7)]
        ws = ns['compute_w_operators']('A', 'N', tuple(t), an, tr)
    else:
        import numpy as np
        ns = tn.exec_numeric(src)
        t = numeric_t(np.random.default_rng(1), DIMS, 6)
        ws = ns['compute_w_operators'](DIMS['A'], DIMS['N'], t, an, tr)
    ctx.prove(len(ws) == 6, 'compute_w_operators returns six operators')
    for n, w in enumerate(ws, 1):
        need = True if n <= 3 else getattr(tr, LEVELS[n - 3])
        if w is None:
            ctx.prove(NOT(need), f'compute_w_operators leaves W_{n} out although the truncation needs it')
        else:
            ctx.prove(need, f'compute_w_operators computes W_{n} beyond the truncation')
            if ctx.symbolic:
                check_w(ctx, w, n, tr, an, f'compute_w_operators: W_{n}')
            else:
                ref = reference(n, t, tr, an)
                ctx.prove(w.shape == ref.shape and np.allclose(w, ref, atol=1e-9),
                          f'compute_w_operators: W_{n} differs from the reference')
    ctx.reach('master')


def harnesses(tier):
    hs = [Harness(f'order{n}', body_orders, FUNCS,
                  f'W_{n} of the programs generated for every maximum order {n}..6; every truncation/ansatz; every '
                  f'product of amplitudes', params=dict(order=n)) for n in range(1, 7)]
    hs.append(Harness('master', body_master, FUNCS,
                      'compute_w_operators of the program for maximum order 6, every truncation up to quadruples',
                      outside='maximum order > 6 (the generator refuses it); truncation.quintuples (the generated '
                              'program raises NotImplementedError)'))
    return hs

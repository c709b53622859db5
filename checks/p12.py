"""P12: the generated eT z program (right-hand side) computes every contraction of singles, h and z."""
from checks.wcommon import *   # noqa
from checks.gen import *   # noqa
from checks.p08 import Args, H_TAG

LEVEL = 'translation_validation'
ASSUMPTIONS = [
    'h[(m, n)], z[(n, 0)] and dT[(n, 0)] are symmetric in their mode axes; a residual is compared modulo a permutation of '
    'its mode axes',
    'the truncation flags are monotone (quadratic implies linear)',
    'Hamiltonian blocks of rank 3 and more have no upper labels (documented pruning)',
]
FUNCS = ['code_eT_zhz.' + f for f in (
    'generate_eT_zhz_python', '_generate_eT_zhz_python_file_contents', '_wrap_eT_zhz_generation',
    '_construct_eT_zhz_compute_function', '_generate_eT_zhz_einsums', 'remove_all_excited_state_t_terms',
    '_write_third_eTz_einsum_python', '_collect_z_contributions', '_handle_multiline_same_prefactor', '_multiple_perms_logic',
    '_build_eT_zhz_python_prefactor', '_simplify_eT_zhz_python_prefactor', '_eT_zhz_einsum_electronic_components',
    '_eT_zhz_einsum_vibrational_components', '_build_t_term_python_group', '_build_h_term_python_labels',
    '_build_z_term_python_labels', '_write_master_eT_zhz_compute_function')] + [
    'latex_eT_zhz._filter_out_valid_eTz_terms and its callees', 'and the generated program itself']
CONFIRM = ['singles', 'doubles', 'triples', 'quadruples', 'quintuples', 'sextuples']
SIDES = {
    'RHS': dict(parts=['add_m0_n{n}_HZ_terms', 'add_m0_n{n}_eT_HZ_terms']),
    'LHS': dict(parts=['compute_m0_n{n}_HZ_LHS', 'compute_m0_n{n}_eT_HZ_LHS']),
}


def flags(ctx, H, CC):
    f = {'t_singles': ctx.bool('t_singles')}
    for x, hi in (('h', H), ('z', CC)):
        for i in range(1, hi + 1):
            k = f'{x}_at_least_{H_TAG[i]}'
            f[k] = ctx.bool(k)
            if i > 1:
                ctx.assume(IMPLIES(f[k], f[f'{x}_at_least_{H_TAG[i - 1]}']))
    tr = Flags(f)
    tr.confirmed = set()
    for c in CONFIRM:
        setattr(tr, f'confirm_at_least_{c}', lambda c=c: tr.confirmed.add(c))
    return tr


def leaves(side):
    """symbolic arguments after (ansatz, truncation)"""
    m = lambda n: ['m'] * n
    t = Args(lambda a, b: tn.Poly.leaf('t', ['N'], ['m']) if (a, b) == (0, 1) else None)
    z = Args(lambda a, b: tn.Poly.leaf(f'z{a}', ['A'] + ['N'] * a, ['a'] + m(a)) if b == 0 else None)
    if side == 'RHS':
        h = Args(lambda a, b: tn.Poly.leaf(f'h{a}{b}', mode_types(a + b), ['a', 'b'] + m(a + b)))
        return t, h, z
    dT = Args(lambda a, b: tn.Poly.leaf(f'd{a}', ['N'] * a, m(a)) if b == 0 and a else None)
    dz = Args(lambda a, b: tn.Poly.leaf(f'Z{a}', ['A'] + ['N'] * a, ['a'] + m(a)) if b == 0 else None)
    return t, dT, z, dz


def numbers(side, H, CC):
    import numpy as np
    rng = np.random.default_rng(11)
    mk = lambda types, groups: tn.random_tensor(rng, types, groups, DIMS)
    t = {(0, 1): mk(['N'], ['m'])}
    z = {(a, 0): mk(['A'] + ['N'] * a, ['a'] + ['m'] * a) for a in range(CC + 1)}
    if side == 'RHS':
        h = {(a, b): mk(mode_types(a + b), ['a', 'b'] + ['m'] * (a + b)) for a in range(H + 1) for b in range(H + 1 - a)}
        return t, h, z
    dT = {(a, 0): mk(['N'] * a, ['m'] * a) for a in range(1, H + 1)}
    dz = {(a, 0): mk(['A'] + ['N'] * a, ['a'] + ['m'] * a) for a in range(CC + 1)}
    return t, dT, z, dz


def vec_of(net, side):
    """(dz?, t-h, t-z, h-z, free h, free z), or None if the term is no such contraction"""
    ep = tn.endpoints(net)
    if any(len(e) != 2 for e in ep.values()):
        return None
    kinds = {k: [i for i, (lf, _) in enumerate(net.leaves) if lf.name[0] == k] for k in 'thdzZ'}
    mid, zs = kinds['h'] + kinds['d'], kinds['z'] + kinds['Z']
    if len(zs) != 1 or len(mid) > 1 or sum(map(len, kinds.values())) != len(net.leaves):
        return None
    dz = bool(kinds['Z'])
    if len(mid) != (not dz) or (side == 'RHS' and (dz or kinds['d'])) or (side == 'LHS' and kinds['h']):
        return None
    zname, zix = net.leaves[zs[0]][0].name, net.leaves[zs[0]][1]
    hname, hix = ('', []) if dz else (net.leaves[mid[0]][0].name, net.leaves[mid[0]][1])
    tix = [net.leaves[i][1][0] for i in kinds['t']]
    out = list(net.out)
    if side == 'RHS':
        if out[0] != hix[0] or hix[1] != zix[0]:
            return None
        hm = hix[2:]
    else:
        if out[0] != zix[0]:
            return None
        hm = list(hix)
    zm, free = zix[1:], out[1:]
    a, b = sum(i in hm for i in tix), sum(i in zm for i in tix)
    c = sum(i in zm for i in hm)
    d, e = sum(i in free for i in hm), sum(i in free for i in zm)
    if a + b != len(tix) or a + c + d != len(hm) or b + c + e != len(zm) or d + e != len(free):
        return None
    if side == 'RHS' and hname != f'h{a + d}{c}':
        return None
    return int(dz), a, b, c, d, e


def excluded(side, n, zero_part):
    """the derivative itself is not part of its own left-hand side"""
    return side == 'LHS' and zero_part


def spec_concrete(n, H, CC, eT, tr, side, zero_part):
    out = {}
    on = lambda x, i: i == 0 or bool(getattr(tr, f'{x}_at_least_{H_TAG[i]}'))
    for a, b, c, d in it.product(range(H + 1), range(CC + 1), range(H + 1), range(n + 1)):
        e, up, rank = n - d, a + d, a + c + d
        if (a + b == 0) != zero_part or a + b > eT or b + c + e > CC or rank > H or not (rank < 3 or up == 0):
            continue
        if (a + b and not bool(tr.t_singles)) or not on('h', max(up, c)) or not on('z', b + c + e):
            continue
        dz = side == 'LHS' and up == 0
        if side == 'LHS' and (c or (dz and zero_part)):
            continue
        out[int(dz), a, b, c, d, e] = Fraction(1, factorial(a) * factorial(b) * factorial(c) * factorial(d) * factorial(e))
    return out


def numeric_term(args, v, n, side):
    import numpy as np
    dz, a, b, c, d, e = v
    T, B, C, D, E = (list(range(9 * k - 5, 9 * k - 5 + x)) for k, x in ((1, a), (2, b), (3, c), (4, d), (5, e)))
    ops = []
    for i in T + B:
        ops += [args[0][0, 1], [i]]
    if side == 'RHS':
        ops += [args[1][a + d, c], [0, 1] + T + C + D, args[2][b + c + e, 0], [1] + B + C + E]
        return np.einsum(*ops, [0] + D + E)
    if not dz:
        ops += [args[1][a + d, 0], T + D]
    ops += [args[3 if dz else 2][b + e, 0], [0] + B + E]
    return np.einsum(*ops, [0] + D + E)


def symmetrised(x):
    import numpy as np
    return sum(np.transpose(x, (0,) + p) for p in it.permutations(range(1, x.ndim)))


def check(ctx, poly, what, n, H, CC, eT, tr, side, zero_part):
    z = engine._z
    ctx.prove(poly.shape == ('A',) + ('N',) * n, f'{what}: shape {poly.shape}')
    rows = {}
    for key, (c, net) in tn.collect(poly, tn.mode_sym(poly.shape)).items():
        v = vec_of(net, side)
        if v is None:
            ctx.fail(f'{what}: the program adds a term that is no contraction of t, h and z: {key}')
            return
        rows[v] = rows.get(v, 0) + c
    hi = max(H, CC, n)
    if any(max(v) > hi for v in rows):
        ctx.fail(f'{what}: a term exceeds the truncation')
        return
    nm, saved = f'_{n}{"0" if zero_part else "t"}', dict(ctx.ebounds)
    dz = ctx.exists(f'dz{nm}', 0, 1)
    a, b, c, d, e = (ctx.exists(f'{x}{nm}', 0, hi) for x in ('t_h', 't_z', 'h_z', 'free_h', 'free_z'))
    up, rank, zr = a + d, a + c + d, b + c + e
    valid = [d + e == n, a + b <= eT, zr <= CC, rank <= H, z3.Or(rank < 3, up == 0), (a + b == 0) == zero_part]
    if side == 'RHS':
        valid += [dz == 0]
    else:
        valid += [c == 0, (dz == 1) == (up == 0)]
        if zero_part:
            valid.append(dz == 0)        # the derivative itself is what is solved for
    valid.append(z3.Or(a + b == 0, z(tr.t_singles)))
    for i in range(1, H + 1):
        valid.append(z3.Implies(z3.And(zmax([up, c]) == i), z(getattr(tr, f'h_at_least_{H_TAG[i]}'))))
    for i in range(1, CC + 1):
        valid.append(z3.Implies(zr == i, z(getattr(tr, f'z_at_least_{H_TAG[i]}'))))
    want = rv(1)
    for x in (a, b, c, d, e):
        want = want * zfact_inv(x, hi)
    vec = [dz, a, b, c, d, e]
    bare = z3.And(side == 'RHS', rank == 0, a + b == 0)
    ok = table_term(vec, rows) == z3.If(z3.And(valid), want, rv(0))
    ctx.prove_z3(z3.Or(bare, ok), f'{what}: a contraction has another coefficient than specified')
    if side == 'RHS' and zero_part:
        # the rank-zero Hamiltonian block times z
        absent = (0, 0, 0, 0, 0, n) not in rows
        ctx.prove_z3(z3.Implies(bare, ok), f'{what}: the product of the rank-zero Hamiltonian block and z is '
                     + ('missing' if absent else 'wrong'), sig='h0-z-missing' if absent else None)
    drop_exists(ctx, saved, nm)


def check_numeric(ctx, R, what, n, H, CC, eT, tr, side, zero_part, args):
    import numpy as np
    spec = spec_concrete(n, H, CC, eT, tr, side, zero_part)
    ref, h0 = np.zeros_like(R), np.zeros_like(R)
    for v, c in spec.items():
        x = float(c) * numeric_term(args, v, n, side)
        ref = ref + x
        if side == 'RHS' and v == (0, 0, 0, 0, 0, n):
            h0 = x
    got, want, part = symmetrised(R), symmetrised(ref), symmetrised(ref - h0)
    if np.allclose(got, part) and not np.allclose(got, want):
        ctx.prove(False, f'{what}: the product of the rank-zero Hamiltonian block and z is missing', sig='h0-z-missing')
        return
    ctx.prove(np.allclose(got, want), f'{what}: differs from the reference')


def body(ctx, M, H, cc, ets, side, ps=None, state=False):
    only_ground = ctx.bool('only_ground_state') if state else True
    eT = ctx.int('eT', *ets)
    P = ctx.int('P', *(ps or (cc, cc + 1)))
    k = M.truncation_keys.TruncationsKeys
    src = generate(M.code_eT_zhz.generate_eT_zhz_python, {k.H: H, k.CC: cc, k.T: 1, k.eT: eT, k.P: P},
                   only_ground_state=only_ground, remove_f_terms=ctx.bool('remove_f_terms') if state else False, lhs_rhs=side)
    ctx.program()
    eT, P = int(eT), min(int(P), cc)
    tr, an = flags(ctx, H, cc), Flags({'ground_state': True})
    if ctx.symbolic:
        ns, A, N_ = tn.exec_symbolic(src), 'A', 'N'
        args = leaves(side)
        zero = lambda n: tn.Poly(['A'] + ['N'] * n)
    else:
        import numpy as np
        ns, A, N_ = tn.exec_numeric(src), DIMS['A'], DIMS['N']
        args = numbers(side, H, cc)
        zero = lambda n: np.zeros((DIMS['A'],) + (DIMS['N'],) * n, dtype=complex)

    def same(x, y, what):
        if ctx.symbolic:
            ctx.prove(x.shape == y.shape, f'{what}: shape')
            saved = dict(ctx.ebounds)
            equal_tables(ctx, coeffs(x), coeffs(y), what)
            ctx.ebounds = saved
            ctx.inputs.pop('term', None)
        else:
            import numpy as np
            ctx.prove(x.shape == y.shape and np.allclose(symmetrised(x), symmetrised(y)), what)

    for n in range(P + 1):
        parts = []
        for i, name in enumerate(SIDES[side]['parts']):
            what = f'projection {n}, terms {"with" if i else "without"} t'
            R = zero(n)
            ns[name.format(n=n)](R, an, tr, *args)
            parts.append(R)
            if ctx.symbolic:
                check(ctx, R, what, n, H, cc, eT, tr, side, i == 0)
            else:
                check_numeric(ctx, R, what, n, H, cc, eT, tr, side, i == 0, args)
            O = zero(n)
            ns[name.format(n=n) + '_optimized'](O, an, tr, *args, [])
            same(O, R, f'{what}: the optimised function computes something else')
        for opt in ('', '_optimized'):
            tr.confirmed.clear()
            extra = ([[], []],) if opt else ()
            T = ns[f'compute_m0_n{n}_amplitude{opt}'](A, N_, an, tr, *args, *extra)
            what = f'projection {n}{", optimised" if opt else ""}'
            ctx.prove(tr.confirmed == set(CONFIRM[:max(n, 1)]), f'{what}: truncation levels confirmed: {sorted(tr.confirmed)}')
            same(T, parts[0] + parts[1], f'{what}: not the sum of its two groups of terms')
    ctx.prove(f'compute_m0_n{P + 1}_amplitude' not in ns, 'a projection beyond the requested order is generated')
    if bool(only_ground):
        try:
            ns['compute_m0_n0_amplitude'](A, N_, Flags({'ground_state': False}), tr, *args)
            ctx.fail('hot bands are computed although they are not implemented')
        except NotImplementedError:
            pass
    ctx.reach('program')


def plan(tier, side):
    quick = tier == 'quick'
    out = []

    def add(H, cc, ets, ps=None, state=False):
        ps = ps or (cc, cc + 1 if cc < 3 or not quick else cc)
        name = f'h{H}_cc{cc}_eT{ets[0]}_{ets[1]}' + (f'_p{ps[0]}_{ps[1]}' if ps[0] < cc else '') + state * '_state'
        out.append(Harness(name, body, FUNCS,
                           f'{side}: Hamiltonian rank {H}, Z rank {cc}, {ets[0]}..{ets[1]} singles factors, projections up to '
                           f'rank {ps[0]}..{ps[1]}{state * ", ground or excited state and f terms requested or not"}; every monotone truncation, every contraction',
                           outside='more singles factors for large ranks', params=dict(H=H, cc=cc, ets=ets, side=side, ps=ps, state=state)))

    for cc in (6, 5, 4, 3, 2, 1):
        for H in (6, 5, 4, 3, 2, 1):
            if cc > 4:
                add(H, cc, (1, 1))
                add(H, cc, (2, 2))
                if H <= 2 or not quick:
                    add(H, cc, (3, 3))
                if (H <= 2 and cc == 5) or not quick:
                    add(H, cc, (4, 4))
            elif cc == 4:
                add(H, cc, (1, 2))
                add(H, cc, (3, 3 if quick and H > 3 else 4))
            else:
                add(H, cc, (1, 4))
        if cc > 2:
            ps = (1, cc - 1) if cc < 5 or not quick else (2, 3)
            add(2, cc, (3, 3), ps)
            add(3, cc, (2, 2), ps)
    for cc in (1, 2, 3):
        add(2, cc, (5, 8 if cc < 3 or not quick else 6))
        add(3, cc, (5, 6 if cc < 3 or not quick else 5))
    add(1, 4, (5, 5))
    add(2, 2, (1, 2), state=True)
    add(3, 3, (2, 2), state=True)
    add(2, 4, (5, 5 if quick else 6))
    if not quick:
        add(3, 3, (7, 8))
        add(1, 5, (5, 5))
        add(2, 5, (5, 5))
    return out


def harnesses(tier):
    return plan(tier, 'RHS')

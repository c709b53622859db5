"""P08: the generated full-CC program computes the ground-state terms of the projected equations."""
from checks.wcommon import *   # noqa
from checks.gen import *   # noqa

LEVEL = 'translation_validation'
ASSUMPTIONS = [
    'h[(m, n)] is symmetric in its n lower and in its m upper mode axes (lower ones first), t[(n, 0)] in its mode axes; a '
    'residual is compared modulo a permutation of its mode axes',
    'the truncation flags are monotone (quadratic implies linear, doubles imply singles)',
]
FUNCS = ['code_full_cc.' + f for f in (
    'generate_full_cc_python', '_generate_full_cc_python_file_contents', '_generate_full_cc_einsums',
    '_write_cc_einsum_python_from_list', '_generate_full_cc_compute_functions', '_write_master_full_cc_compute_function',
    '_build_full_cc_python_prefactor', '_simplify_full_cc_python_prefactor', '_multiple_perms_logic',
    '_full_cc_einsum_electronic_components', '_full_cc_einsum_vibrational_components', '_build_h_term_python_labels',
    '_build_t_term_python_group')] + [
    'latex_full_cc._filter_out_valid_s_terms and its callees', 'and the generated program itself']

H_TAG = {1: 'linear', 2: 'quadratic', 3: 'cubic', 4: 'quartic', 5: 'quintic', 6: 'sextic'}
FULLY, LINKED, UNLINKED = 0, 1, 2
PARTS = ['fully_connected', 'linked_disconnected', 'unlinked_disconnected']


def flags(ctx, H, CC):
    f = {}
    for tag, hi in ((lambda i: f'at_least_{H_TAG[i]}', H), (lambda i: LEVELS[i - 1], CC)):
        for i in range(1, hi + 1):
            f[tag(i)] = ctx.bool(tag(i))
            if i > 1:
                ctx.assume(IMPLIES(f[tag(i)], f[tag(i - 1)]))
    tr = Flags(f)
    tr.confirmed = 0

    def confirm():
        tr.confirmed += 1
    tr.confirm_at_least_singles = confirm
    return tr


def hleaf(m, n):
    return tn.Poly.leaf(f'h{m}{n}', mode_types(m + n), ['a', 'b'] + ['k'] * n + ['i'] * m)


class Args(dict):
    """tensors made on demand"""
    def __init__(self, make):
        self.make = make

    def __missing__(self, k):
        self[k] = self.make(*k)
        return self[k]


def vec_of(net, N):
    """((legs to h, free legs) of each t in the order of the matrix product), or None if the term is no such product"""
    order = chain(net)
    if order is None:
        return None
    ep = tn.endpoints(net)
    if any(len(es) != 2 for es in ep.values()):
        return None
    lf, hix = net.leaves[order[0]]
    if not lf.name.startswith('h'):
        return None
    m, n = int(lf.name[1]), int(lf.name[2])
    low, up, out = hix[2:2 + n], hix[2 + n:], set(net.out)
    if any(i in out for i in low) or any(i not in out for i in up):
        return None
    vec, used = [], set()
    for k in order[1:]:
        t, ix = net.leaves[k]
        if not t.name.startswith('t'):
            return None
        s = [i for i in ix[2:] if i in low]
        o = [i for i in ix[2:] if i in out]
        if len(s) + len(o) != len(ix) - 2:
            return None
        vec.append((len(s), len(o)))
    return tuple(vec)


def spec_terms(N, H, CC, S, tr):
    """by enumeration: [(class, ts, coefficient)]"""
    res = []
    ops = [(s, o) for s in range(CC + 1) for o in range(CC + 1 - s) if s + o]
    for k in range(S + 1):
        for ts in it.product(ops, repeat=k):
            m, n = N - sum(t[1] for t in ts), sum(t[0] for t in ts)
            if m < 0 or m + n > H:
                continue
            if k and max(m, n) and not bool(getattr(tr, f'at_least_{H_TAG[max(m, n)]}')):
                continue
            if k and not bool(getattr(tr, LEVELS[max(sum(t) for t in ts) - 1])):
                continue
            c = Fraction(1)
            if k:
                c = Fraction(factorial(len(set(t for t in ts if t[0]))), factorial(m) * factorial(n) * factorial(k))
                if k == 1:
                    c *= factorial(N)
                else:
                    for t in set(ts):
                        c *= factorial(ts.count(t))
            free = [t for t in ts if t[0] == 0]
            cls = UNLINKED if any(t[1] == N for t in free) else LINKED if free else FULLY
            res.append((cls, m, n, ts, c))
    return res


def check(ctx, poly, what, cls, N, H, CC, S, tr):
    ctx.prove(poly.shape == tuple(mode_types(N)), f'{what}: shape {poly.shape}')
    tables = {k: {} for k in range(S + 1)}
    for key, (c, net) in tn.collect(poly, tn.mode_sym(poly.shape)).items():
        v = vec_of(net, N)
        if v is None or len(v) > S or any(sum(t) > CC for t in v):
            ctx.fail(f'{what}: the program adds a term that is not a product of h and t amplitudes in the truncation: {key}')
            return
        row = tuple(x for t in v for x in t)
        tables[len(v)][row] = tables[len(v)].get(row, 0) + c
    z = engine._z
    for k, rows in tables.items():
        saved, nm = dict(ctx.ebounds), f'_{N}{cls}k{k}'
        ts = [[ctx.exists(f't{i}_{x}{nm}', 0, CC) for x in ('h', 'free')] for i in range(k)]
        m, n = N - zsum(t[1] for t in ts), zsum(t[0] for t in ts)
        if k == 0:
            m, n = z3.IntVal(N), z3.IntVal(0)
        valid = [m >= 0, m + n <= H] + [z3.And(t[0] + t[1] >= 1, t[0] + t[1] <= CC) for t in ts]
        coeff = rv(1)
        free = [t[0] == 0 for t in ts]
        unl = z3.Or([z3.And(d, t[1] == N) for d, t in zip(free, ts)] + [z3.BoolVal(False)])
        valid.append(z3.If(unl, UNLINKED, z3.If(z3.Or(free + [z3.BoolVal(False)]), LINKED, FULLY)) == cls)
        if k:
            top = zmax([t[0] + t[1] for t in ts])
            for i in range(1, CC + 1):
                valid.append(z3.Implies(top == i, z(getattr(tr, LEVELS[i - 1]))))
            for i in range(1, H + 1):
                valid.append(z3.Implies(zmax([m, n]) == i, z(getattr(tr, f'at_least_{H_TAG[i]}'))))
            same = lambda a, b: z3.And(a[0] == b[0], a[1] == b[1])
            x = zsum([z3.If(z3.And([z3.Not(free[i])] + [z3.Not(same(ts[i], ts[j])) for j in range(i)]), 1, 0)
                      for i in range(k)])
            # an arrangement with repeated amplitudes occurs once per permutation of the repeated ones
            rep = rv(factorial(N)) if k == 1 else rv(1)
            for i in range(1, k):
                rep = rep * z3.ToReal(zsum([z3.IntVal(1)] + [z3.If(same(ts[i], ts[j]), 1, 0) for j in range(i)]))
            coeff = zfact(x, k) * zfact_inv(m, max(H, N)) * zfact_inv(n, H) * rv(Fraction(1, factorial(k))) * rep
        want = z3.If(z3.And(valid), coeff, rv(0))
        vec = [x for t in ts for x in t]
        ctx.prove_z3(table_term(vec, rows) == want,
                     f'{what}: a product of h and {k} amplitudes has another coefficient than specified')
        drop_exists(ctx, saved, nm)


def body(ctx, M, hs, cc, s, state=False):
    only_ground = ctx.bool('only_ground_state') if state else True
    H = ctx.int('H', *hs)
    P = ctx.int('P', max(1, cc - 1), min(cc + 1, 6))
    k = M.truncation_keys.TruncationsKeys
    src = generate(M.code_full_cc.generate_full_cc_python, {k.H: H, k.CC: cc, k.S: s, k.P: P},
                   only_ground_state=only_ground)
    ctx.program()
    H, P = int(H), min(int(P), cc)
    tr = flags(ctx, H, cc)
    an = Flags({'ground_state': True})
    if ctx.symbolic:
        ns = tn.exec_symbolic(src)
        A, N_, h, t = 'A', 'N', Args(hleaf), Args(lambda a, b: tleaf('t', a))
        zero = lambda r: tn.Poly(mode_types(r))
    else:
        import numpy as np
        ns = tn.exec_numeric(src)
        rng = np.random.default_rng(5)
        A, N_ = DIMS['A'], DIMS['N']
        h = {(a, b): tn.random_tensor(rng, mode_types(a + b), ['a', 'b'] + ['k'] * b + ['i'] * a, DIMS)
             for a in range(H + 1) for b in range(H + 1 - a)}
        t = {(a, 0): tn.random_tensor(rng, mode_types(a), mode_groups(a), DIMS) for a in range(1, cc + 1)}
        zero = lambda r: np.zeros((DIMS['A'],) * 2 + (DIMS['N'],) * r, dtype=complex)
    for m in range(P + 1):
        for n in range(P + 1 - m):
            what = f'residual ({m},{n})'
            parts = []
            for cls, part in enumerate(PARTS):
                R = zero(m + n)
                ns[f'add_m{m}_n{n}_{part}_terms'](R, an, tr, h, t)
                parts.append(R)
                if ctx.symbolic and m == 0:
                    check(ctx, R, f'{what}, {part} terms', cls, n, H, cc, s, tr)
                elif ctx.symbolic:
                    ctx.prove(not tn.collect(R), f'{what}, {part} terms: the ground state has none')
                else:
                    ref = zero(m + n)
                    if m == 0:
                        for c_, hm, hn, ts, c in spec_terms(n, H, cc, s, tr):
                            if c_ != cls:
                                continue
                            low = list(range(30, 30 + hn))
                            out, args, lo = list(range(10, 10 + n)), [], list(low)
                            args = [h[hm, hn], [0, 1] + low + out[:hm]]
                            pos = hm
                            for i, (s_, o_) in enumerate(ts):
                                args += [t[s_ + o_, 0], [i + 1, i + 2] + lo[:s_] + out[pos:pos + o_]]
                                lo, pos = lo[s_:], pos + o_
                            ref = ref + float(c) * np.einsum(*args, [0, len(ts) + 1] + out)
                    a, b = tn.numeric_symmetrize(R), tn.numeric_symmetrize(ref)
                    ctx.prove(np.allclose(a, b), f'{what}, {part} terms: differ from the reference')
            before = tr.confirmed
            R = ns[f'compute_m{m}_n{n}_amplitude'](A, N_, an, tr, h, t)
            ctx.prove(tr.confirmed > before, f'{what}: the truncation is not checked to include singles')
            total = parts[0] + parts[1] + parts[2]
            if ctx.symbolic:
                ctx.prove(R.shape == total.shape, f'{what}: shape')
                saved = dict(ctx.ebounds)
                equal_tables(ctx, coeffs(R), coeffs(total), f'{what}: not the sum of its three groups of terms')
                ctx.ebounds = saved
                ctx.inputs.pop('term', None)
            else:
                ctx.prove(R.shape == total.shape and np.allclose(R, total), f'{what}: not the sum of its groups')
    try:
        ns['compute_m0_n0_amplitude'](A, N_, Flags({'ground_state': False}), tr, h, t)
        ctx.fail('excited states are computed although they are not implemented')
    except NotImplementedError:
        pass
    ctx.reach('program')


# highest Hamiltonian rank by (cluster rank, Taylor order)
QUICK = {1: (6, 6, 6, 6, 6, 4), 2: (6, 6, 5, 3, 2, 2), 3: (6, 5, 3, 2), 4: (6, 3), 5: (3,), 6: (2,)}
THOROUGH = {1: (6, 6, 6, 6, 6, 6), 2: (6, 6, 6, 6, 4, 3), 3: (6, 6, 5, 3, 2), 4: (6, 5, 3), 5: (6, 3), 6: (4, 2)}


def grid(tier, quick=QUICK, thorough=THOROUGH):
    """(H, cc, s), the most expensive first"""
    g = [(H, cc, s) for cc, hs in (thorough if tier == 'thorough' else quick).items()
         for s, hi in enumerate(hs, 1) for H in range(1, hi + 1)]
    return sorted(g, key=lambda x: -x[0] * (x[1] + 1) ** (x[2] + 1))


def harnesses(tier):
    return [Harness(f'h{H}_cc{cc}_s{s}', body, FUNCS,
                    f'Hamiltonian rank {H}, cluster rank {cc}, Taylor order {s}, projections up to rank {cc}; '
                    'every monotone truncation, every ordered product of amplitudes',
                    params=dict(hs=(H, H), cc=cc, s=s)) for H, cc, s in grid(tier)] + [
        Harness('request_state', body, FUNCS, 'ground or excited state requested, Hamiltonian rank 1..3, cluster rank 2, Taylor '
                'order 2; every monotone truncation, every ordered product of amplitudes',
                params=dict(hs=(1, 3), cc=2, s=2, state=True))]

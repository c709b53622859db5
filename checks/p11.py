"""P11: the eT z LaTeX documents (both sides): every valid contraction of t factors, h (or dt) and z once."""
import re

from checks.wcommon import *   # noqa
from checks import latexp
from checks.latexp import Bad
from checks.gen import *   # noqa
from checks.p10 import head, size, NAMES

LEVEL = 'translation_validation'
ASSUMPTIONS = ['a printed product is read up to the order of its factors and the names of its labels',
               'Hamiltonian blocks of rank 3 and more carry no upper labels (documented pruning)',
               'the coefficient of a term is 1/(k! c! d! e!): k t factors, c contractions of h with z, d and e labels of the '
               'projection on h and on z']
FUNCS = ['latex_eT_zhz.' + f for f in (
    'generate_eT_z_t_symmetric_latex', 'generate_eT_operator', 'generate_eT_taylor_expansion', 'generate_pruned_H_operator',
    '_filter_out_valid_eTz_terms', '_generate_valid_eT_z_n_operator_permutations',
    '_generate_all_valid_eT_z_connection_permutations', '_generate_all_valid_eT_connection_permutations',
    '_generate_all_o_eT_h_z_connection_permutations', '_remove_duplicate_t_tuple_permutations',
    '_generate_explicit_eT_z_connections', '_build_eThz_latex_prefactor', '_build_eT_term_latex_labels',
    '_build_eT_hz_term_latex_labels', '_build_eT_right_z_term', '_prepare_third_eTz_latex', '_prepare_eTz_z_terms',
    '_prepare_eTz_T_terms', '_build_third_eTz_term', '_generate_eT_z_symmetric_latex_equations')] + [
    'latex_zhz.' + f for f in ('_build_first_z_term', '_build_fifth_z_term', 'generate_z_operator')]


def read(text, n, rhs):
    """tables keyed by (a, b, c, d, e, f, fbar); 'main': h (or dt) and z;  'dz': left-hand side terms with dz/dtau"""
    tabs = {'main': {}, 'dz': {}, 'dt': {}}
    bare, exts = [], set()
    for t in latexp.parse(re.sub(r'_\{0,\s*xb\}', '_0', text)):
        pairs, ext = latexp.contraction(t)
        objs = list(enumerate(t.objs))
        T = [k for k, o in objs if o[0] == ('bt' if rhs else 'bs') and not o[3]]
        Z = [k for k, o in objs if o[0] == 'bz']
        dts = [k for k, o in objs if o[0] == 'bt' and o[3]]
        Hs = [k for k, o in objs if o[0] == 'bh']
        if len(T) + len(Z) + len(dts) + len(Hs) != len(objs) or len(Z) > 1 or any(size(t.objs[k]) != (0, 1) for k in T) \
                or any(ext[k] != ['', ''] for k in T):
            raise Bad(f'unexpected factors: {t!r}')
        if rhs and len(Hs) == len(objs) == 1:
            if t.i or t.f or t.fbar:
                raise Bad(f'not a bare h term: {t!r}')
            bare.append((size(t.objs[0]), t.coeff, t.marks))
            continue
        if len(Z) != 1 or t.marks or t.objs[Z[0]][2]:
            raise Bad(f'unexpected factors: {t!r}')
        z = Z[0]
        if rhs and dts:
            if t.i != 1 or t.f or t.fbar or pairs or len(objs) != 2 or t.objs[z][3] or t.objs[dts[0]][2]:
                raise Bad(f'not -i dt/dtau z: {t!r}')
            key, kind = (len(t.objs[dts[0]][1]), len(t.objs[z][1])), 'dt'
            exts.add(('dt', ''.join(sorted(ext[z][0] + ext[dts[0]][0]))))
        else:
            mid = Hs if rhs else dts
            dz = t.objs[z][3]
            if t.i != (not rhs) or len(mid) != (not dz) or (rhs and dz) or (not rhs and Hs):
                raise Bad(f'not one h and z, one dt and z, or one dz: {t!r}')
            h = mid[0] if mid else None
            if h is not None and (ext[h][1] or (not rhs and t.objs[h][2])):
                raise Bad(f'free lower label: {t!r}')
            a = sum(p[0] == h and p[1] in T for p in pairs)
            b = sum(p[0] == z and p[1] in T for p in pairs)
            c = sum(p == (z, h) for p in pairs)
            if a + b + c != len(pairs):
                raise Bad(f'unexpected contraction: {t!r}')
            exts.add(('hz', ''.join(sorted(ext[z][0] + (ext[h][0] if mid else '')))))
            key, kind = (a, b, c, len(ext[h][0]) if mid else 0, len(ext[z][0]), t.f, t.fbar), 'dz' if dz else 'main'
            if not rhs and not dz and a + key[3] == 0:
                raise Bad(f'derivative of t without labels: {t!r}')
        if len([x for x in exts if x[0] == ('dt' if kind == 'dt' else 'hz')]) > 1 or any(len(x[1]) != n for x in exts):
            raise Bad(f'the terms have different free labels: {t!r}')
        if key in tabs[kind]:
            raise Bad(f'printed twice: {t!r}')
        tabs[kind][key] = t.coeff
    return tabs, bare


def coefficient(a, b, c, d, e):
    return Fraction(1, factorial(a + b) * factorial(c) * factorial(d) * factorial(e))


def spec_concrete(n, H, CC, eT, rhs):
    main, dz = {}, {}
    for a, b, c, d in it.product(range(H + 1), range(CC + 1), range(H + 1), range(n + 1)):
        e, up, rank = n - d, a + d, a + c + d
        if a + b > eT or b + c + e > CC or rank > H or not (rank < 3 or up == 0):
            continue
        row, v = (a, b, c, d, e, 0, a + b + c), coefficient(a, b, c, d, e)
        if rhs or (c == 0 and up > 0):
            main[row] = v
        elif c == 0:
            dz[row] = v
    return main, dz


def check(ctx, n, H, CC, eT, rhs, text):
    what = f'projection {n}'
    tabs, bare = read(text, n, rhs)
    if rhs:
        ctx.prove(bare == [((n, 0), 1, ('1-delta x\\gamma',))], f'{what}: the bare h term is {bare}')
        ctx.prove(tabs['dt'] == {(n - z, z): -1 for z in range(n + 1)}, f'{what}: dt z terms printed {tabs["dt"]}')
    if not ctx.symbolic:
        main, dz = spec_concrete(n, H, CC, eT, rhs)
        ctx.prove(tabs['main'] == main, f'{what}: terms (a, b, c, d, e, f, fbar) printed {tabs["main"]}, expected {main}')
        ctx.prove(tabs['dz'] == dz, f'{what}: dz terms (a, b, c, d, e, f, fbar) printed {tabs["dz"]}, expected {dz}')
        return
    hi = max(H, CC, n)
    if any(max(k) > hi + 2 for tab in tabs.values() for k in tab):
        ctx.fail(f'{what}: a printed number of labels exceeds the truncation')
        return
    nm, saved = f'_{n}', dict(ctx.ebounds)
    a, b, c, d, e = (ctx.exists(f'{x}{nm}', 0, hi) for x in ('t_h', 't_z', 'h_z', 'free_h', 'free_z'))
    f, fb = (ctx.exists(f'{x}{nm}', 0, hi + 2) for x in ('f', 'fbar'))
    vec = [a, b, c, d, e, f, fb]
    up, rank = a + d, a + c + d
    valid = z3.And(d + e == n, a + b <= eT, b + c + e <= CC, rank <= H, z3.Or(rank < 3, up == 0), f == 0, fb == a + b + c)
    want = rv(1)
    for x in (a + b, c, d, e):
        want = want * zfact_inv(x, 2 * hi)
    kinds = [('main', z3.BoolVal(True))] if rhs else [('main', z3.And(c == 0, up > 0)), ('dz', z3.And(c == 0, up == 0))]
    for kind, extra in kinds:
        ctx.prove_z3(table_term(vec, tabs[kind]) == z3.If(z3.And(valid, extra), want, rv(0)),
                     f'{what}: the printed {"dz" if kind == "dz" else "h z" if rhs else "dt z"} terms are not every valid '
                     'contraction once with its coefficient')
    drop_exists(ctx, saved, nm)


def body(ctx, M, hs, ccs, ets, side):
    H, CC, eT = ctx.int('H', *hs), ctx.int('CC', *ccs), ctx.int('eT', *ets)
    P = ctx.int('P', 1, ccs[1])
    ctx.assume(P <= CC)
    remove_f = ctx.bool('remove_f')
    k = M.truncation_keys.TruncationsKeys
    text = generate(M.latex_eT_zhz.generate_eT_z_t_symmetric_latex, {k.H: H, k.CC: CC, k.T: 1, k.eT: eT, k.P: P},
                    only_ground_state=True, remove_f_terms=remove_f, lhs_rhs=side)
    ctx.program()
    H, CC, eT, P = int(H), int(CC), int(eT), int(P)
    blocks = latexp.blocks(text)
    want = [(0, n) for n in range(P + 1)]
    ctx.prove([b[:2] for b in blocks] == want, f'projections printed: {[b[:2] for b in blocks]}, expected {want}')
    for m, n, b in blocks:
        if side == 'RHS':
            head(ctx, m, n, b)
        eq = b.split(f'{side} &=', 1)[1].split('\\end{split}', 1)[0]
        check(ctx, n, H, CC, eT, side == 'RHS', eq)
    for part in re.split(r'\\paragraph\{', text)[1:]:
        title = part.split('}', 1)[0]
        rank = [r for r, x in enumerate(NAMES) if title == f'{x} Equations']
        for m, n, _ in latexp.blocks(part):
            ctx.prove([m + n] == rank, f'the equation of projection ({m},{n}) is printed in section {title!r}')
    ctx.reach('document')


def harnesses(tier):
    quick = tier == 'quick'
    out = []

    def add(side, hs, ccs, ets):
        out.append(Harness(f'{side}_cc{ccs[1]}_h{hs[0]}{hs[1]}_eT{ets[0]}{ets[1]}', body, FUNCS,
                           f'{side}: Hamiltonian rank {hs[0]}..{hs[1]}, Z rank {ccs[0]}..{ccs[1]}, projections of rank 1 to the Z '
                           f'rank, up to {ets[0]}..{ets[1]} singles factors, f terms kept or removed; every contraction',
                           outside='more singles factors for large ranks (the code allows 8)', params=dict(hs=hs, ccs=ccs, ets=ets, side=side)))

    for side in ('RHS', 'LHS'):
        for cc in range(6, 0, -1):
            if cc == 6:
                add(side, (1, 3), (6, 6), (1, 3))
                for H in (1, 2, 3):
                    add(side, (H, H), (6, 6), (4, 4))
                add(side, (4, 6), (6, 6), (1, 2))
                add(side, (4, 5), (6, 6), (3, 3))
                add(side, (6, 6), (6, 6), (3, 3))
            else:
                add(side, (1, 3), (cc, cc), (1, 4))
                add(side, (4, 6), (cc, cc), (1, 2))
                add(side, (4, 6), (cc, cc), (3, 3 if quick and cc == 5 else 4))
        add(side, (1, 3), (1, 2), (5, 8))
        add(side, (1, 3), (3, 3), (5, 6))
        add(side, (2, 3), (3, 3), (7, 8))
        add(side, (2, 2), (4, 4), (5, 6))
        if not quick:
            add(side, (1, 3), (4, 4), (5, 8))
            add(side, (1, 3), (5, 5), (5, 5))
            add(side, (2, 3), (6, 6), (5, 5))
            add(side, (4, 6), (5, 6), (4, 4))
    return out

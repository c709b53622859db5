"""P10: the z_t LaTeX document: every valid h z contraction once, with its coefficient, and the dt z products."""
import re

from checks.wcommon import *   # noqa
from checks import latexp
from checks.latexp import Bad
from checks.gen import *   # noqa

LEVEL = 'translation_validation'
ASSUMPTIONS = ['a printed product is read up to the order of its factors and the names of its labels',
               'Hamiltonian blocks of rank 3 and more carry no upper labels (documented pruning)']
FUNCS = ['latex_zhz.' + f for f in (
    'generate_z_t_symmetric_latex', 'generate_z_operator', '_filter_out_valid_z_terms', '_z_joining_with_z_terms',
    '_generate_valid_z_n_operator_permutations', '_generate_all_valid_z_connection_permutations',
    '_generate_all_o_h_z_connection_permutations', '_generate_explicit_z_connections', '_build_hz_latex_prefactor',
    '_build_hz_term_latex_labels', '_build_right_z_term', '_prepare_third_z_latex', '_build_first_z_term',
    '_build_third_z_term', '_build_fifth_z_term', '_generate_z_symmetric_latex_equations')]
NAMES = ['0 order', 'Linear', 'Quadratic', 'Cubic', 'Quartic', 'Quintic', 'Sextic']

H_BARE, DT = '1-delta x\\gamma', 'dt'


def size(o):
    return len(o[1]), len(o[2])


def read(rhs, m, n):
    """(table {(c, d, e, g, f, fbar): coefficient} of h z terms, bare h terms, table {(t up, t low, z up): coefficient})"""
    hz, bare, dt = {}, [], {}
    exts = set()
    for t in latexp.parse(re.sub(r'_\{0,\s*xb\}', '_0', rhs)):
        names = sorted(o[0] for o in t.objs)
        pairs, ext = latexp.contraction(t)
        free = ''.join(sorted(''.join(u + l for u, l in ext.values())))
        if names == ['bh']:
            if t.i or t.f or t.fbar:
                raise Bad(f'not a bare h term: {t!r}')
            bare.append((size(t.objs[0]), t.coeff, t.marks))
            continue
        if names != ['bh', 'bz'] and names != ['bt', 'bz']:
            raise Bad(f'not a product of h and z or dt and z: {t!r}')
        if len(free) != m + n:
            raise Bad(f'{len(free)} free labels instead of {m + n}: {t!r}')
        (a, A), (z, Z) = sorted(enumerate(t.objs), key=lambda x: x[1][0])
        if Z[2] or Z[3]:
            raise Bad(f'z carries lower labels: {t!r}')
        if names[0] == 'bh':
            if t.marks != ('1-delta cb',) or t.i or A[3]:
                raise Bad(f'not in the sum over the other surfaces: {t!r}')
            exts.add((''.join(sorted(ext[a][0] + ext[z][0])), ''.join(sorted(ext[a][1]))))
            key = (len(pairs), len(ext[a][0]), len(ext[z][0]), len(ext[a][1]), t.f, t.fbar)
            if key in hz:
                raise Bad(f'printed twice: {t!r}')
            hz[key] = t.coeff
        else:
            if t.marks or t.i != 1 or t.f or t.fbar or pairs or not A[3]:
                raise Bad(f'not -i dt/dtau z: {t!r}')
            key = size(A) + (len(Z[1]),)
            if key in dt:
                raise Bad(f'printed twice: {t!r}')
            dt[key] = t.coeff
            exts.add(('dt', ''.join(sorted(A[1] + Z[1])), ''.join(sorted(A[2]))))
    return hz, bare, dt, exts


def spec_concrete(m, n, H, CC):
    hz = {}
    for c, d in it.product(range(H + 1), repeat=2):
        e = n - d
        rank = d + c + m
        if e >= 0 and rank <= H and (rank < 3 or d == 0) and c + e <= CC:
            hz[c, d, e, m, 0, c] = Fraction(1, factorial(c) * factorial(d) * factorial(e) * factorial(m))
    return hz


def check(ctx, m, n, H, CC, rhs):
    what = f'projection ({m},{n})'
    hz, bare, dt, exts = read(rhs, m, n)
    ctx.prove(bare == [((n, m), 1, ('1-delta x\\gamma',))], f'{what}: the bare h term is {bare}')
    ctx.prove(len([x for x in exts if x[0] != 'dt']) <= 1, f'{what}: the h z terms use different free labels')
    ctx.prove(len([x for x in exts if x[0] == 'dt']) == 1, f'{what}: the dt z terms use different free labels')
    if not ctx.symbolic:
        ctx.prove(hz == spec_concrete(m, n, H, CC), f'{what}: h z terms printed {hz}, expected {spec_concrete(m, n, H, CC)}')
        ctx.prove(dt == {(n - z, m, z): -1 for z in range(n + 1)}, f'{what}: dt z terms printed {dt}')
        return
    hi = max(H, CC, m + n)
    nm = f'_{m}{n}'
    saved = dict(ctx.ebounds)
    if any(max(k) > hi for k in hz) or any(max(k) > hi for k in dt):
        ctx.fail(f'{what}: a printed amplitude exceeds the truncation')
        return
    c, d, e, g, f, fb = vec = [ctx.exists(f'{x}{nm}', 0, hi) for x in ('h_z_pairs', 'h_up', 'z_up', 'h_low', 'f', 'fbar')]
    rank = d + c + g
    valid = z3.And(g == m, d + e == n, rank <= H, z3.Or(rank < 3, d == 0), c + e <= CC, f == 0, fb == c)
    want = rv(1)
    for x in (c, d, e, g):
        want = want * zfact_inv(x, hi)
    ctx.prove_z3(table_term(vec, hz) == z3.If(valid, want, rv(0)),
                 f'{what}: the printed h z terms are not every valid contraction once with its coefficient')
    u, l, z = vec = [ctx.exists(f'{x}{nm}', 0, hi) for x in ('dt_up', 'dt_low', 'dt_z')]
    ctx.prove_z3(table_term(vec, dt) == z3.If(z3.And(u + z == n, l == m), rv(-1), rv(0)),
                 f'{what}: the printed dt z products are not every split of the labels once')
    drop_exists(ctx, saved, nm)


def head(ctx, m, n, b):
    what = f'projection ({m},{n})'
    eq = b.split('\\end{equation}', 1)[0].replace('\\gamma\\gamma', '\\gamma')
    l, r = (latexp.parse(x) for x in eq.split(' = ', 1))
    ok = len(l) == len(r) == 1 and l[0].i == 1 and l[0].coeff == 1 == r[0].coeff and [len(l[0].objs), len(r[0].objs)] == [1, 1]
    ok = ok and l[0].objs[0][0] == 'bt' and l[0].objs[0][3] and size(l[0].objs[0]) == (n, m) and r[0].objs[0][0] == 'G'
    ctx.prove(ok and l[0].objs[0][1:3] == r[0].objs[0][1:3], f'{what}: header is not i dt/dtau = G with its labels: {eq!r}')
    lhs = latexp.parse(b.split('LHS &=', 1)[1].split('RHS &=', 1)[0])
    ok = len(lhs) == 1 and lhs[0].i == 1 and lhs[0].coeff == 1 and len(lhs[0].objs) == 1
    o = lhs[0].objs[0]
    ctx.prove(ok and o[0] == 'bz' and o[3] and sum(size(o)) == m + n == len(set(o[1] + o[2])) and (m > 0 or size(o) == (n, 0)),
              f'{what}: the left-hand side is not i dz/dtau')


def body(ctx, M, hs, ccs):
    H, CC = ctx.int('H', *hs), ctx.int('CC', *ccs)
    P = ctx.int('P', 1, ccs[1])
    ctx.assume(P <= CC)
    remove_f = ctx.bool('remove_f')
    rhs = ctx.bool('rhs')
    k = M.truncation_keys.TruncationsKeys
    text = generate(M.latex_zhz.generate_z_t_symmetric_latex, {k.H: H, k.CC: CC, k.P: P}, only_ground_state=True,
                    remove_f_terms=remove_f, lhs_rhs='RHS' if rhs else 'LHS')
    ctx.program()
    H, CC, P = int(H), int(CC), int(P)
    want = sorted((m, n) for m in range(P + 1) for n in range(P + 1 - m))
    blocks = latexp.blocks(text)
    ctx.prove(sorted(b[:2] for b in blocks) == want, f'projections printed: {sorted(b[:2] for b in blocks)}, expected {want}')
    for m, n, b in blocks:
        head(ctx, m, n, b)
        check(ctx, m, n, H, CC, b.split('RHS &=', 1)[1].split('\\end{split}', 1)[0])
    for part in re.split(r'\\paragraph\{', text)[1:]:
        title = part.split('}', 1)[0]
        rank = [r for r, x in enumerate(NAMES) if title == f'{x} Equations']
        for m, n, _ in latexp.blocks(part):
            ctx.prove([m + n] == rank, f'the equation of projection ({m},{n}) is printed in section {title!r}')
    ctx.reach('document')


def harnesses(tier):
    hmax = 6
    return [Harness(f'h{h}_cc{cc}', body, FUNCS,
                    f'Hamiltonian rank {h}, Z rank {cc}, projections of rank 1..{cc}, both sides requested, f terms kept or '
                    'removed; every contraction of h with z and every split of dt and z',
                    params=dict(hs=(h, h), ccs=(cc, cc))) for h in range(1, hmax + 1) for cc in range(1, 7)]

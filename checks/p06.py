"""P06: left-hand side of the full-CC equations: time derivative and epsilon times the cluster expansion."""
import re

from checks.wcommon import *   # noqa
from checks import latexp
from checks.latexp import Bad
from checks.gen import *   # noqa

LEVEL = 'translation_validation'
ASSUMPTIONS = ['a printed product is read up to the order of its factors and the names of its labels']
FUNCS = ['latex_full_cc.' + f for f in ('generate_full_cc_latex', '_generate_left_hand_side', '_wrap_align_environment',
                                        'generate_omega_operator')]
NAMES = ['0 order', 'Linear', 'Quadratic', 'Cubic', 'Quartic']


def table(text, rank):
    """{(derived factor or None, other factors sorted): coefficient}"""
    tab, exts = {}, set()
    for t in latexp.parse(text):
        if t.i != 1 or t.f or t.fbar or t.marks:
            raise Bad(f'not i times a product of amplitudes: {t!r}')
        eps = [o for o in t.objs if o[0] == 'eps']
        der = [o for o in t.objs if o[3]]
        rest = [o for o in t.objs if o[0] == 'bt' and not o[3]]
        if len(eps) + len(der) != 1 or len(eps) + len(der) + len(rest) != len(t.objs) or any(o[0] != 'bt' for o in der):
            raise Bad(f'not one derivative or epsilon times t amplitudes: {t!r}')
        pairs, ext = latexp.contraction(t)
        if pairs:
            raise Bad(f'two amplitudes share a label: {t!r}')
        labels = ''.join(sorted(''.join(u + l for u, l in ext.values())))
        if len(labels) != rank:
            raise Bad(f'{len(labels)} labels instead of {rank}: {t!r}')
        exts.add(labels)
        size = lambda o: (len(o[1]), len(o[2]))
        key = (size(der[0]) if der else None, tuple(sorted(map(size, rest))))
        tab[key] = tab.get(key, 0) + t.coeff
    if len(exts) > 1:
        raise Bad(f'the terms use different labels {sorted(exts)}')
    return tab


def spec_concrete(m, n):
    want = {}
    ops = [(u, l) for u in range(n + 1) for l in range(m + 1) if u + l]
    if m + n == 0:
        return {(None, ()): Fraction(1)}
    for k in range(1, m + n + 1):
        for ts in it.combinations_with_replacement(ops, k):
            if sum(t[0] for t in ts) == n and sum(t[1] for t in ts) == m:
                want[None, tuple(sorted(ts))] = Fraction(1)
                for i in range(k):
                    key = (ts[i], tuple(sorted(ts[:i] + ts[i + 1:])))
                    want[key] = want.get(key, 0) + 1
    return want


def check_lhs(ctx, tab, m, n):
    what = f'left-hand side of projection ({m},{n})'
    if not ctx.symbolic or m + n == 0:
        ctx.prove(tab == spec_concrete(m, n), f'{what}: not the derivative and epsilon terms of the cluster expansion')
        return
    for key in tab:
        if len(key[1]) + (key[0] is not None) not in range(1, m + n + 1):
            ctx.fail(f'{what}: a product of {len(key[1])} amplitudes is printed')
    hi = m + n
    for k in range(1, m + n + 1):
        for derived in (False, True):
            rows = {((key[0] or ()) + tuple(x for t in key[1] for x in t)): v for key, v in tab.items()
                    if (key[0] is not None) == derived and len(key[1]) + derived == k}
            nm = f'{m}{n}k{k}{"d" if derived else "e"}'
            saved = dict(ctx.ebounds)
            ts = [[ctx.exists(f't{i}_{x}_{nm}', 0, hi) for x in ('up', 'low')] for i in range(k)]
            vec = [x for t in ts for x in t]
            others = ts[1:] if derived else ts
            valid = [zsum(t[0] for t in ts) == n, zsum(t[1] for t in ts) == m] + [t[0] + t[1] >= 1 for t in ts]
            valid += [lex_le(a, b) for a, b in zip(others, others[1:])]
            mult = zsum([z3.IntVal(1)] + [z3.If(z3.And(o[0] == ts[0][0], o[1] == ts[0][1]), 1, 0) for o in others]) \
                if derived else z3.IntVal(1)
            want = z3.If(z3.And(valid), z3.ToReal(mult), rv(0))
            ctx.prove_z3(table_term(vec, rows) == want, f'{what}: {k} amplitudes, {"derivative" if derived else "epsilon"} '
                         'terms are not those of the cluster expansion')
            drop_exists(ctx, saved, nm)


def body(ctx, M, ccs, ground, hs=(1, 2), ss=(1, 2), ps=None):
    CC = ctx.int('CC', *ccs)
    P = ctx.int('P', *(ps or (1, min(ccs[1] + 1, 6))))
    H, S, remove_f = ctx.int('H', *hs), ctx.int('S', *ss), ctx.bool('remove_f')
    k = M.truncation_keys.TruncationsKeys
    text = generate(M.latex_full_cc.generate_full_cc_latex, {k.H: H, k.CC: CC, k.S: S, k.P: P},
                    only_ground_state=ground, remove_f_terms=remove_f)
    ctx.program()
    CC, P = int(CC), min(int(P), int(CC))
    want = sorted((m, n) for m in range(P + 1) for n in range(P + 1 - m))
    blocks = latexp.blocks(text)
    ctx.prove(sorted(b[:2] for b in blocks) == want, f'projections printed: {sorted(b[:2] for b in blocks)}, expected {want}')
    for m, n, b in blocks:
        lhs = b.split('LHS &=', 1)[1].split('RHS &=', 1)[0]
        check_lhs(ctx, table(lhs, m + n), m, n)
    # every equation stands in the section named after its rank
    for part in re.split(r'\\subsection\{', text)[1:]:
        title = part.split('}', 1)[0]
        rank = [r for r, x in enumerate(NAMES) if title == f'{x} Equations']
        for m, n, _ in latexp.blocks(part):
            ctx.prove([m + n] == rank, f'the equation of projection ({m},{n}) is printed in section {title!r}')
    ctx.reach('lhs')


def body_function(ctx, M, rank):
    """the left-hand side alone, for projections the complete document cannot be generated for"""
    m = ctx.int('m', 0, rank)
    gen = getattr(M.latex_full_cc, '_generate_left_hand_side', None)
    op = getattr(M.latex_full_cc, 'general_operator_namedtuple', None)
    ctx.program()
    m = int(m)
    n = rank - m
    if gen is not None and op is not None:
        text = gen(op('d' * m + 'b' * n, rank, m, n))
        check_lhs(ctx, table(text, rank), m, n)
    ctx.prove(True, 'reached')
    ctx.reach('lhs')


def harnesses(tier):
    out = [Harness(f'cc{cc}_{"ground" if g else "excited"}', body, FUNCS,
                   f'cluster rank {cc}, projections of rank 0 to {cc} (requested: 1..{cc + 1}), Hamiltonian rank 1..2, Taylor order 1..2, '
                   f'{"ground state" if g else "excited states"}, terms with f kept or removed; every product of amplitudes',
                   params=dict(ccs=(cc, cc), ground=g)) for cc in (1, 2, 3) for g in (True, False)]
    for g in (True, False):
        for cc, hs, ss, ps in ((1, (1, 6), (1, 2), (1, 6)), (1, (1, 2), (3, 6), (1, 1)), (2, (3, 6), (1, 1), (2, 2)),
                               (2, (1, 1), (3, 4), (2, 2)), (3, (3, 4), (1, 1), (3, 3)), (5, (1, 2), (1, 1), (2, 3)), (6, (1, 1), (1, 1), (3, 3))):
            out.append(Harness(f'cc{cc}_{"ground" if g else "excited"}_h{hs[1]}_s{ss[1]}', body, FUNCS,
                               f'cluster rank {cc}, projection rank {ps[0]}..{ps[1]}, Hamiltonian rank {hs[0]}..{hs[1]}, Taylor '
                               f'order {ss[0]}..{ss[1]}, {"ground state" if g else "excited states"}, terms with f kept or removed; '
                               'every product of amplitudes', params=dict(ccs=(cc, cc), ground=g, hs=hs, ss=ss, ps=ps)))
    out += [Harness('rank4', body_function, FUNCS, 'projections of rank 4 (left-hand side only); every product of amplitudes',
                    params=dict(rank=4))]
    return out

"""P05: every valid term of the full-CC equations is printed exactly once, in its group, with its coefficient."""
from checks.wcommon import *   # noqa
from checks import latexp
from checks.latexp import Bad
from checks.gen import *   # noqa

LEVEL = 'translation_validation'
ASSUMPTIONS = [
    'a printed product is read up to the order of its t factors and the names of its labels',
    'the coefficient of a term is the documented one: x!/(m! n! k!), x the number of different t factors h is connected to',
]
FUNCS = ['latex_full_cc.' + f for f in (
    'generate_full_cc_latex', 'generate_omega_operator', 'generate_full_cc_hamiltonian_operator', 'generate_s_operator',
    'generate_s_taylor_expansion', '_filter_out_valid_s_terms', '_generate_valid_s_n_operator_permutations',
    '_generate_all_valid_t_connection_permutations', '_generate_all_omega_h_connection_permutations',
    '_remove_duplicate_s_permutations', '_generate_explicit_connections', '_remove_f_zero_terms',
    '_seperate_s_terms_by_connection', '_make_latex', '_build_latex_prefactor', '_build_h_term_latex_labels',
    '_build_t_term_latex_labels', '_linked_condensed_adjust_t_terms', '_write_cc_latex_from_lists')]

FULLY, LINKED, UNLINKED = 0, 1, 2


def read_term(term):
    """(h.m, h.n, ((m_h, n_h, m_o, n_o) of each t, sorted), external labels)"""
    hs = [k for k, o in enumerate(term.objs) if o[0] == 'bh']
    if len(hs) != 1 or any(o[0] not in ('bh', 'bt') or o[3] for o in term.objs) or term.i:
        raise Bad(f'not a product of one h and t amplitudes: {term!r}')
    h = hs[0]
    pairs, ext = latexp.contraction(term)
    ts = {k: [0, 0, len(ext[k][0]), len(ext[k][1])] for k in range(len(term.objs)) if k != h}
    for up, lo in pairs:
        if h not in (up, lo):
            raise Bad(f'two t amplitudes share a label: {term!r}')
        if up == h:
            ts[lo][1] += 1
        else:
            ts[up][0] += 1
    o = term.objs[h]
    exts = ''.join(sorted(''.join(u + l for u, l in ext.values())))
    return len(o[1]), len(o[2]), tuple(sorted(tuple(t) for t in ts.values())), exts


def sections(rhs, rank):
    """the three printed groups"""
    if rank == 0:
        r = latexp.Reader(rhs)
        groups = []
        while r.peek():
            if r.peek() == '+':
                r.i += 1
                continue
            groups.append(r.factor())
        parts = groups
    else:
        parts = [latexp.parse(x) for x in rhs.split('\n%\n%\n\\\\  &+\n%\n%\n')]
    if len(parts) != 3:
        raise Bad(f'expected three groups of terms, found {len(parts)}')
    return parts


def tables(text):
    """{(m, n): ([(class, h.m, h.n, ts, f, fbar) -> coefficient], externals)}"""
    out = {}
    for m, n, body in latexp.blocks(text):
        if (m, n) in out:
            raise Bad(f'projection {m, n} is printed twice')
        rhs = body.split('RHS &=', 1)[1].split('\\end{split}', 1)[0]
        tab, exts = {}, set()
        for cls, terms in enumerate(sections(rhs, m + n)):
            for t in terms:
                hm, hn, ts, ex = read_term(t)
                key = (cls, hm, hn, ts, t.f, t.fbar)
                if key in tab:
                    raise Bad(f'printed twice: {t!r}')
                tab[key] = t.coeff
                exts.add(ex)
        out[m, n] = (tab, exts)
    return out


def spec_check(ctx, tab, m, n, H, CC, S, ground, remove_f):
    """solver queries: for every h and number of t factors, the printed coefficient of every
    (group, powers, t factors) is the specified one (0 = absent)"""
    hs = [(a, b) for a in range(H + 1) for b in range(H + 1 - a)]
    loose = remainder(ctx, tab, m, n, H, CC, S, ground, remove_f)
    for key in tab:
        _, hm, hn, ts, f, fb = key
        if (hm, hn) not in hs or len(ts) > S:
            ctx.fail(f'projection ({m},{n}): term with h ({hm},{hn}) and {len(ts)} t factors is outside the truncation')
    for hm, hn in hs:
        for k in range(S + 1):
            rows = {(c[0], c[4], c[5]) + tuple(x for t in c[3] for x in t): v
                    for c, v in tab.items() if (c[1], c[2]) == (hm, hn) and len(c[3]) == k}
            hi = max(CC, 1)
            nm = f'{m}{n}h{hm}{hn}k{k}'
            cls, fa, fb = (ctx.exists(f'{x}_{nm}', 0, b) for x, b in (('group', 2), ('f', max(m, hn)), ('fbar', max(n, hm))))
            ts = [[ctx.exists(f't{i}_{x}_{nm}', 0, hi) for x in ('mh', 'nh', 'mo', 'no')] for i in range(k)]
            vec = [cls, fa, fb] + [x for t in ts for x in t]
            top = max([max(r[3:] + (0,)) for r in rows] + [0])
            if top > hi or any(r[1] > max(m, hn) or r[2] > max(n, hm) for r in rows):
                ctx.fail(f'projection ({m},{n}): a printed label count exceeds the truncation')
                continue
            mh, nh, mo, no = ([t[j] for t in ts] for j in range(4))
            a, b = m - zsum(no), n - zsum(mo)
            valid = [a >= 0, b >= 0, hm - zsum(nh) == b, hn - zsum(mh) == a, fa == a, fb == b]
            for t in ts:
                valid += [zsum(t) >= 1, zsum(t) <= CC]
                if ground:
                    valid += [t[1] == 0, t[3] == 0]
            for s, t in zip(ts, ts[1:]):       # sorted: one representative of each multiset
                valid.append(lex_le(s, t))
            if remove_f:
                valid.append(a == 0)
            disc = [z3.And(t[0] == 0, t[1] == 0) for t in ts]
            unl = [z3.And(d, t[2] == n, t[3] == m) for d, t in zip(disc, ts)]
            spec_cls = z3.If(z3.Or(unl + [z3.BoolVal(False)]), UNLINKED,
                             z3.If(z3.Or(disc + [z3.BoolVal(False)]), LINKED, FULLY))
            valid.append(cls == spec_cls)
            # x = number of different connected t factors
            x = zsum([z3.If(z3.And([z3.Not(disc[i])] + [z3.Or([p != q for p, q in zip(ts[i], ts[j])]) for j in range(i)]),
                            1, 0) for i in range(k)])
            if k == 0:
                coeff = rv(1)
            else:
                coeff = zfact(x, k) * rv(Fraction(1, factorial(hm) * factorial(hn) * factorial(k)))
            want = z3.If(z3.And(valid), coeff, rv(0))
            sub = {kk: v for kk, v in ctx.ebounds.items()} if ctx.symbolic else None
            have = table_term(vec, rows)
            ctx.prove_z3(z3.Or(have == want, z3.And(cls == FULLY, have == 0)) if loose else have == want,
                         f'projection ({m},{n}), h ({hm},{hn}), {k} t factors: printed terms are not the valid terms')
            drop_exists(ctx, sub, nm)


def spec_concrete(m, n, H, CC, S, ground, remove_f):
    """the same specification, by enumeration (used on replay)"""
    want = {}
    ops = [t for t in it.product(range(CC + 1), repeat=4) if 1 <= sum(t) <= CC and (not ground or t[1] == t[3] == 0)]
    for hm in range(H + 1):
        for hn in range(H + 1 - hm):
            for k in range(S + 1):
                for ts in it.combinations_with_replacement(sorted(ops), k):
                    a, b = m - sum(t[3] for t in ts), n - sum(t[2] for t in ts)
                    if a < 0 or b < 0 or hm - sum(t[1] for t in ts) != b or hn - sum(t[0] for t in ts) != a:
                        continue
                    if remove_f and a:
                        continue
                    disc = [t for t in ts if t[0] == t[1] == 0]
                    cls = UNLINKED if any(t[2] == n and t[3] == m for t in disc) else LINKED if disc else FULLY
                    x = len(set(t for t in ts if t[0] or t[1]))
                    c = Fraction(factorial(x), factorial(hm) * factorial(hn) * factorial(k)) if k else Fraction(1)
                    want[cls, hm, hn, ts, a, b] = c
    return want


def remainder(ctx, tab, m, n, H, CC, S, ground, remove_f):
    """the known defect of the line splitting: of N >= 14 connected terms only the first 7*(N//7) are printed"""
    want = sum(k[0] == FULLY for k in spec_concrete(m, n, H, CC, S, ground, remove_f))
    have = sum(k[0] == FULLY for k in tab)
    if want >= 14 and want % 7 and have == 7 * (want // 7):
        return not ctx.prove(False, f'projection ({m},{n}), H={H} CC={CC} S={S}: {have} of {want} connected terms are '
                             'printed (the incomplete last line of 7 is dropped)', sig='split-remainder')
    return False


def body(ctx, M, ground, hs, cc, s, ps):
    H, CC, S, P = ctx.int('H', *hs), ctx.int('CC', cc, cc), ctx.int('S', s, s), ctx.int('P', *ps)
    remove_f = ctx.bool('remove_f')
    k = M.truncation_keys.TruncationsKeys
    text = generate(M.latex_full_cc.generate_full_cc_latex, {k.H: H, k.CC: CC, k.S: S, k.P: P},
                    only_ground_state=ground, remove_f_terms=remove_f)
    ctx.program()
    H, CC, S, P, remove_f = int(H), int(CC), int(S), int(P), bool(remove_f)
    tabs = tables(text)
    want = {(m, n) for m in range(CC + 1) for n in range(CC + 1 - m) if m + n <= P}
    ctx.prove(set(tabs) == want, f'projections printed: {sorted(tabs)}, expected {sorted(want)}')
    for (m, n), (tab, exts) in tabs.items():
        ctx.prove(all(len(e) == m + n for e in exts), f'projection ({m},{n}): a term has a free label too many or too few')
        ctx.prove(len(exts) <= 1, f'projection ({m},{n}): the terms use different free labels {sorted(exts)}')
        if ctx.symbolic:
            spec_check(ctx, tab, m, n, H, CC, S, ground, remove_f)
        else:
            want = spec_concrete(m, n, H, CC, S, ground, remove_f)
            if remainder(ctx, tab, m, n, H, CC, S, ground, remove_f):
                want = {k: v for k, v in want.items() if k[0] != FULLY or k in tab}
            ctx.prove(tab == want, f'projection ({m},{n}): printed terms are not the valid terms')
    ctx.reach('text')


def harnesses(tier):
    out = []

    def add(ground, h, cc, s, ps):
        out.append(Harness(
                f'{"ground" if ground else "excited"}_h{h}_cc{cc}_s{s}', body, FUNCS,
                f'{"ground state" if ground else "excited states"}; Hamiltonian rank {h}, cluster rank {cc}, Taylor order {s}, '
                f'projection rank {ps[0]}..{ps[1]}, terms with f kept or removed; every h, every multiset of t factors',
                kind='program', params=dict(ground=ground, hs=(h, h), cc=cc, s=s, ps=ps),
                outside='larger truncations; projections of rank 4 and more (the generator refuses linked terms of those)'))
    # the terms of a truncation contain those of the smaller ones: every combination of the numbers for small ones, the largest
    # affordable numbers otherwise
    for cc, s, hs, ps in GROUND[tier == 'thorough']:
        for h in hs:
            add(True, h, cc, s, ps)
    for cc, s, hs, ps in EXCITED[tier == 'thorough']:
        for h in hs:
            add(False, h, cc, s, ps)
    return out


# (cluster rank, Taylor order, Hamiltonian ranks, projection ranks)
GROUND = {
    False: [(1, s, (1, 2, 3, 4), (1, 6)) for s in (1, 2)] + [(1, s, (3, 6), (1, 1)) for s in (3, 4, 5, 6)]
    + [(2, s, (1, 2, 3, 4), (1, 6)) for s in (1, 2)] + [(2, 3, (2, 4, 6), (1, 3)), (2, 4, (4, 6), (2, 2)), (2, 5, (5,), (2, 2))]
    + [(3, s, (1, 2, 4), (1, 4)) for s in (1, 2)] + [(3, 3, (2, 4, 6), (3, 3)), (3, 4, (4,), (3, 3))]
    + [(4, 1, (4, 6), (1, 3)), (4, 2, (2, 6), (3, 3)), (4, 3, (4,), (2, 2)), (5, 2, (6,), (3, 3)), (6, 1, (6,), (1, 3)), (6, 2, (4,), (3, 3))]
    + [(1, s, (1, 2, 4, 5), (1, 1)) for s in (3, 4, 5, 6)] + [(2, 3, (1, 3, 5), (1, 3)), (2, 4, (1, 2, 3, 5), (2, 2)), (2, 5, (3, 6), (2, 2)), (2, 6, (4,), (2, 2))]
    + [(3, 2, (3, 5, 6), (1, 3)), (3, 3, (3, 5), (2, 2)), (3, 4, (3,), (2, 2)), (4, 2, (3, 4), (2, 2)), (4, 3, (5,), (2, 2)), (5, 1, (3, 5), (1, 3)), (5, 3, (4,), (2, 2)), (6, 2, (2,), (2, 2))],
    True: [(1, s, range(1, 7), (1, 6)) for s in range(1, 7)] + [(2, s, range(1, 7), (1, 6)) for s in range(1, 6)] + [(2, 6, (4, 6), (2, 2))]
    + [(3, s, range(1, 7), (1, 6)) for s in range(1, 4)] + [(3, 4, (2, 4, 6), (3, 3)), (3, 5, (4,), (2, 2))]
    + [(4, s, range(1, 7), (1, 3)) for s in (1, 2)] + [(4, 3, (2, 4, 6), (3, 3)), (4, 4, (4,), (2, 2))]
    + [(5, s, range(1, 7), (1, 3)) for s in (1, 2)] + [(5, 3, (4,), (3, 3))]
    + [(6, s, range(1, 7), (1, 3)) for s in (1, 2)] + [(6, 3, (4,), (2, 2))],
}
EXCITED = {
    False: [(1, s, (1, 2, 3, 4), (1, 6)) for s in (1, 2)] + [(1, s, (s, 6), (1, 1)) for s in (3, 4, 5)]
    + [(2, s, (1, 2, 3), (1, 3)) for s in (1, 2)] + [(2, 3, (2, 4), (2, 2)), (2, 4, (2,), (2, 2))]
    + [(3, 1, (1, 2, 4), (1, 4)), (3, 2, (2, 4), (3, 3)), (3, 3, (2,), (2, 2)), (4, 1, (4,), (1, 3)), (4, 2, (3,), (3, 3)), (6, 1, (6,), (3, 3))]
    + [(1, s, (1, 2, 3), (1, 1)) for s in (3, 4)] + [(1, 6, (6,), (1, 1)), (2, 3, (1, 3), (1, 2)), (2, 4, (3,), (2, 2)), (3, 2, (3,), (2, 2)), (3, 3, (3,), (2, 2)), (4, 2, (2, 4), (2, 2)),
       (4, 3, (2,), (2, 2)), (5, 1, (3, 5), (1, 3)), (2, 2, (4, 6), (2, 2)), (3, 1, (3, 6), (1, 3))],
    True: [(1, s, range(1, 7), (1, 6)) for s in range(1, 7)] + [(2, s, range(1, 5), (1, 6)) for s in range(1, 4)] + [(2, 4, (2, 4), (2, 2)), (2, 5, (2,), (2, 2))]
    + [(3, s, range(1, 5), (1, 6)) for s in range(1, 3)] + [(3, 3, (2, 3, 4), (3, 3)), (3, 4, (2,), (2, 2))]
    + [(4, 1, range(1, 7), (1, 3)), (4, 2, (2, 4), (3, 3)), (4, 3, (2,), (2, 2)), (5, 1, range(1, 7), (1, 3)), (5, 2, (3,), (3, 3)),
       (6, 1, range(1, 7), (1, 3)), (6, 2, (3,), (2, 2))],
}

"""P07: the W-operator equations printed in LaTeX are the partition expansion of exp(T)."""
import re

from checks.wcommon import *   # noqa
from checks.latexp import Bad, braced, number
from checks.gen import *   # noqa

LEVEL = 'translation_validation'
ASSUMPTIONS = ['a printed product is read up to the order of its factors']
FUNCS = ['latex_w_equations.' + f for f in (
    'ground_state_w_equations_latex', 'excited_state_w_equations_latex', 'generate_w_prefactor', 'count_items',
    'generate_labels_on_w', 'generate_t_terms_group')] + ['helper_funcs.generate_partitions_of_n']

SCRIPT = r'(?:\{(\d+)\}|(\d))'      # as LaTeX reads it: a group or a single digit
AMP = re.compile(rf'\\bt(?:\^{SCRIPT})?(?:_{SCRIPT})?')
POWER = re.compile(rf'\)\^{SCRIPT}')


def terms(text):
    """{((amplitude, multiplicity), ...): coefficient} of a sum of products of powers of amplitudes"""
    tab = {}
    text = text.strip()
    for t in text.split(' + '):
        t = t.strip()
        coeff, i, mult = Fraction(1), 0, {}
        while i < len(t):
            if t.startswith(r'\frac', i):
                a, i = braced(t, i + 5)
                b, i = braced(t, i)
                coeff *= number(a) / number(b)
                continue
            par = t[i] == '('
            m = AMP.match(t, i + par)
            if not m or not any(m.groups()):
                raise Bad(f'unexpected text {t[i:i + 40]!r}')
            i = m.end()
            p = 1
            if par:
                q = POWER.match(t, i)
                if not q:
                    raise Bad(f'unexpected text {t[i:i + 40]!r}')
                p, i = int(q.group(1) or q.group(2)), q.end()
            k = (int(m.group(1) or m.group(2) or 0), int(m.group(3) or m.group(4) or 0))
            mult[k] = mult.get(k, 0) + p
        key = tuple(sorted(mult.items()))
        if key in tab:
            raise Bad(f'printed twice: {t}')
        tab[key] = coeff
    return tab


def equations(text):
    """[(m, n, symmetrised, table)]"""
    out = []
    text = text.split('\\begin{align}' if '\\begin{align}' in text else '\\begin{equation}', 1)[1]
    text = re.split(r'\\end\{', text, maxsplit=1)[0]
    for line in re.split(r'\\\\', text):
        line = line.strip()
        if not line:
            continue
        m = re.match(rf'(?:\\bW|\\textbf\{{W\}})\^{SCRIPT}(?:_{SCRIPT})?\s*&?=\s*', line)
        if not m:
            raise Bad(f'not an equation for W: {line[:60]!r}')
        rhs = line[m.end():].strip()
        s = re.fullmatch(r'\\hat\{S\}\((.*)\)', rhs, re.S)
        if rhs == '1':
            tab = {(): Fraction(1)}
        else:
            tab = terms(s.group(1) if s else rhs)
        out.append((int(m.group(1) or m.group(2)), int(m.group(3) or m.group(4) or 0), bool(s), tab))
    return out


def spec_concrete(m, n, least):
    ops = [(a, b) for a in range(m + 1) for b in range(n + 1) if a + b]
    want = {}

    def rec(i, a, b, cur):
        if i == len(ops):
            if a == b == 0 and sum(c for _, c in cur) >= least:
                f = Fraction(1)
                for _, c in cur:
                    f /= factorial(c)
                want[tuple(cur)] = f
            return
        u, l = ops[i]
        c = 0
        while c * u <= a and c * l <= b:
            rec(i + 1, a - c * u, b - c * l, cur + ([(ops[i], c)] if c else []))
            c += 1
    rec(0, m, n, [])
    return want


def check(ctx, m, n, symm, tab):
    what = f'W^{m}_{n}'
    least = 2 if n else min(m, 1)     # a mixed W only collects products
    ctx.prove(symm == (m + n > 1), f'{what}: symmetrised exactly from order 2 on')
    if not ctx.symbolic or m + n == 0:
        ctx.prove(tab == spec_concrete(m, n, least), f'{what}: not the expansion of the exponential')
        return
    ops = [(a, b) for a in range(m + 1) for b in range(n + 1) if a + b]
    for key in tab:
        if any(o not in ops for o, _ in key):
            ctx.fail(f'{what}: contains an amplitude larger than the operator: {key}')
            return
    rows = {tuple(dict(key).get(o, 0) for o in ops): v for key, v in tab.items()}
    if max(max(r) for r in rows) > m + n:
        ctx.fail(f'{what}: a power exceeds the order')
        return
    saved, nm = dict(ctx.ebounds), f'_W{m}{n}'
    c = [ctx.exists(f'power_t{a}{b}{nm}', 0, m + n) for a, b in ops]
    valid = [zsum(x * o[0] for x, o in zip(c, ops)) == m, zsum(x * o[1] for x, o in zip(c, ops)) == n, zsum(c) >= least]
    want = rv(1)
    for x in c:
        want = want * zfact_inv(x, m + n)
    # every printed product is a valid one with its coefficient, and every valid product is printed
    for row, v in rows.items():
        ctx.prove_z3(z3.Implies(z3.And([x == r for x, r in zip(c, row)]), z3.And(z3.And(valid), want == rv(v))),
                     f'{what}: a printed product is not in the expansion, or has another coefficient')
    ctx.prove_z3(z3.Implies(z3.And(valid), z3.Or([z3.And([x == r for x, r in zip(c, row)]) for row in rows])),
                 f'{what}: a product of the expansion is not printed')
    drop_exists(ctx, saved, nm)


def body(ctx, M, lo, hi, excited):
    mx = ctx.int('max_order', lo, hi)
    f = M.latex_w_equations.excited_state_w_equations_latex if excited else M.latex_w_equations.ground_state_w_equations_latex
    text = generate(f, mx)
    ctx.program()
    mx = int(mx)
    eqs = equations(text)
    want = [(0, 0)] + [(m, s - m) for s in range(1, mx + 1) for m in range(s, 0, -1) if excited or m == s]
    ctx.prove([e[:2] for e in eqs] == want, f'operators printed: {[e[:2] for e in eqs]}, expected {want}')
    for e in eqs:
        check(ctx, *e)
    ctx.reach('text')


def harnesses(tier):
    hi = 14 if tier == 'quick' else 20
    out = [Harness(f'ground_{a}_{b}', body, FUNCS, f'ground-state W equations, maximum order {a}..{b}; every partition',
                   params=dict(lo=a, hi=b, excited=False)) for a, b in ((1, 6), (7, 8), (9, 10), (11, hi))]
    out += [Harness(f'excited_{a}', body, FUNCS, f'thermal W equations, maximum order {a}; every product of amplitudes',
                    params=dict(lo=a, hi=a, excited=True)) for a in (1, 2, 3, 4)]
    return out

"""P09: the optimised full-CC program stays in step with the default one."""
from checks.wcommon import *   # noqa
from checks.gen import *   # noqa
from checks.p08 import flags, Args, PARTS, grid

LEVEL = 'translation_validation'
ASSUMPTIONS = [
    'the truncation flags are monotone (quadratic implies linear, doubles imply singles)',
    'as long as the precomputed contractions are declared without subscripts (a listed finding), a term is identified by '
    'its operands in order and its coefficient; once they are declared, the two programs are compared as tensor formulas',
]
FUNCS = ['code_full_cc.' + f for f in (
    'generate_full_cc_python', '_write_cc_einsum_python_from_list', '_write_cc_optimized_paths_from_list',
    '_generate_full_cc_optimized_paths', '_generate_optimized_paths_functions', '_write_grouped_optimized_paths_function',
    '_write_optimized_master_paths_function', '_generate_full_cc_compute_functions',
    '_write_master_full_cc_compute_function')] + ['and the generated program itself']


class Opaque:
    """sum of products of named operands"""
    def __init__(self, terms=None, shape=None):
        self.terms, self.shape = terms or {}, shape

    def __add__(self, o):
        if not isinstance(o, Opaque):
            raise tn.ProgramError(f'{type(o).__name__} added to a tensor')
        d = dict(self.terms)
        for k, v in o.terms.items():
            d[k] = d.get(k, 0) + v
        return Opaque(d)

    def __iadd__(self, o):
        self.terms = (self + o).terms
        return self

    def __mul__(self, c):
        c = tn.exact(c)
        return Opaque({k: c * v for k, v in self.terms.items()})

    __rmul__ = __mul__


def product(ops):
    for o in ops:
        if not isinstance(o, Opaque) or len(o.terms) != 1:
            raise tn.ProgramError('operand is not one of the input tensors')
    return Opaque({tuple(n for o in ops for k in o.terms for n in k): Fraction(1)})


class OE:
    """records whether contractions are declared with their subscripts"""
    def __init__(self):
        self.with_sub, self.without = 0, 0

    def contract_expression(self, *args, **kw):
        if args and isinstance(args[0], str):
            self.with_sub += 1
            args = args[1:]
        else:
            self.without += 1
        shapes = [tuple(a) for a in args]

        def call(*ops):
            if [o.shape for o in ops] != shapes:
                raise tn.ProgramError(f'contraction declared for shapes {shapes} is applied to {[o.shape for o in ops]}')
            return product(ops)
        return call


class NP:
    @staticmethod
    def einsum(sub, *ops, **kw):
        return product(ops)

    @staticmethod
    def zeros(shape=None, dtype=None):
        return Opaque()


def body(ctx, M, H, cc, s, state=False):
    only_ground = ctx.bool('only_ground_state') if state else True
    P = ctx.int('P', max(1, cc - 1), cc)
    k = M.truncation_keys.TruncationsKeys
    src = generate(M.code_full_cc.generate_full_cc_python, {k.H: H, k.CC: cc, k.S: s, k.P: P},
                   only_ground_state=only_ground)
    ctx.program()
    P = int(P)
    tr, an = flags(ctx, H, cc), Flags({'ground_state': True})
    oe = OE()
    ns = tn.exec_symbolic(src, dict(np=NP(), oe=oe))
    h = Args(lambda m, n: Opaque({(f'h{m}{n}',): Fraction(1)}, tuple(mode_types(m + n))))
    t = Args(lambda m, n: Opaque({(f't{m}{n}',): Fraction(1)}, tuple(mode_types(m + n))))
    lists = {}
    for m in range(P + 1):
        for n in range(P + 1 - m):
            what = f'residual ({m},{n})'
            paths = ns[f'compute_m{m}_n{n}_optimized_paths']('A', 'N', an, tr)
            ctx.prove(list(paths) == [(m, n)] and len(paths[m, n]) == 3, f'{what}: paths are not those of its three groups')
            lists.update(paths)
            for i, part in enumerate(PARTS):
                a, b = Opaque(), Opaque()
                ns[f'add_m{m}_n{n}_{part}_terms'](a, an, tr, h, t)
                used = []
                it_ = [use(f, j, used) for j, f in enumerate(paths[m, n][i])]
                try:
                    ns[f'add_m{m}_n{n}_{part}_terms_optimized'](b, an, tr, h, t, it_)
                except StopIteration:
                    ctx.fail(f'{what}, {part}: fewer contractions are declared than used')
                    continue
                ctx.prove(used == list(range(len(it_))), f'{what}, {part}: {len(it_)} contractions are declared, used: {used}')
                compare(ctx, a, b, f'{what}, {part}: optimised and default terms differ')
            before = tr.confirmed
            R = ns[f'compute_m{m}_n{n}_amplitude_optimized']('A', 'N', an, tr, h, t, lists)
            ctx.prove(tr.confirmed > before, f'{what}: the truncation is not checked to include singles')
            compare(ctx, ns[f'compute_m{m}_n{n}_amplitude']('A', 'N', an, tr, h, t), R,
                    f'{what}: optimised and default residuals differ')
    ctx.prove(oe.without == 0, 'the optimised contractions are declared without subscripts', sig='no-subscripts')
    try:
        master = ns['compute_all_optimized_paths']('A', 'N', an, tr)
    except TypeError as e:
        ctx.prove(False, f'compute_all_optimized_paths raises {type(e).__name__}: {e}', sig='master-list')
    else:
        ctx.prove(set(master) == set(lists) and all([len(x) for x in master[q]] == [len(x) for x in lists[q]] for q in lists),
                  'compute_all_optimized_paths does not return the paths of every projection')
    if not oe.without:
        real(ctx, src, P, tr, an)
    ctx.reach('program')


def real(ctx, src, P, tr, an):
    """with subscripts: compare as tensor formulas"""
    from checks.p08 import hleaf
    h, t = Args(hleaf), Args(lambda a, b: tleaf('t', a))
    ns = tn.exec_symbolic(src)
    for m in range(P + 1):
        for n in range(P + 1 - m):
            paths = ns[f'compute_m{m}_n{n}_optimized_paths']('A', 'N', an, tr)
            a = ns[f'compute_m{m}_n{n}_amplitude']('A', 'N', an, tr, h, t)
            b = ns[f'compute_m{m}_n{n}_amplitude_optimized']('A', 'N', an, tr, h, t, paths)
            what = f'residual ({m},{n}): optimised and default formulas differ'
            if ctx.symbolic:
                saved = dict(ctx.ebounds)
                equal_tables(ctx, coeffs(a), coeffs(b), what)
                ctx.ebounds = saved
                ctx.inputs.pop('term', None)
            else:
                ctx.prove(coeffs(a) == coeffs(b), what)


def use(f, j, used):
    def call(*ops):
        used.append(j)
        return f(*ops)
    return call


def compare(ctx, a, b, label):
    a = {k: v for k, v in a.terms.items() if v}
    b = {k: v for k, v in b.terms.items() if v}
    if not ctx.symbolic:
        ctx.prove(a == b, label)
        return
    saved = dict(ctx.ebounds)
    equal_tables(ctx, a, b, label)
    ctx.ebounds = saved
    ctx.inputs.pop('term', None)


QUICK = {1: (6, 6, 6, 6, 5, 4), 2: (6, 6, 5, 4, 3, 2), 3: (6, 6, 4, 2), 4: (6, 4, 2), 5: (4, 2), 6: (2,)}
THOROUGH = {1: (6, 6, 6, 6, 6, 6), 2: (6, 6, 6, 6, 6, 4), 3: (6, 6, 6, 4), 4: (6, 6, 4), 5: (6, 4), 6: (6, 2)}


def harnesses(tier):
    return [Harness(f'h{H}_cc{cc}_s{s}', body, FUNCS,
                    f'Hamiltonian rank {H}, cluster rank {cc}, Taylor order {s}, projections up to rank {cc}; '
                    'every monotone truncation',
                    params=dict(H=H, cc=cc, s=s)) for H, cc, s in grid(tier, QUICK, THOROUGH)] + [
        Harness('request_state', body, FUNCS, 'ground or excited state requested, Hamiltonian rank 2, cluster rank 2, Taylor '
                'order 2; every monotone truncation', params=dict(H=2, cc=2, s=2, state=True))]

"""P18: the partition and permutation helpers enumerate exactly what they promise, once, in order."""
from checks.wcommon import *   # noqa
from checks.gen import *   # noqa

LEVEL = 'model_checking'
ASSUMPTIONS = []
FUNCS = ['helper_funcs.' + f for f in ('_partitions', 'generate_partitions_of_n', 'generate_mixed_partitions_of_n',
                                       'genereate_connected_partitions_of_n', 'generate_linked_disconnected_partitions_of_n',
                                       'generate_un_linked_disconnected_partitions_of_n')]
FAMILIES = {
    # name: predicate on (parts larger than one, largest part, n)
    'generate_partitions_of_n': lambda big, top, n: True,
    'generate_mixed_partitions_of_n': lambda big, top, n: big <= 1,
    'generate_linked_disconnected_partitions_of_n': lambda big, top, n: AND3(big <= 1, top < n),
    'generate_un_linked_disconnected_partitions_of_n': lambda big, top, n: big >= 2,
}


def AND3(a, b):
    return a and b if isinstance(a, bool) else z3.And(a, b)


def all_partitions(n, top=None):
    top = n if top is None else top
    if n == 0:
        yield ()
    for x in range(min(n, top), 0, -1):
        for r in all_partitions(n - x, x):
            yield (x,) + r


def partitions(ctx, M, family, hi):
    n = ctx.int('n', 1, hi)
    got = list(getattr(M.helper_funcs, family)(n))
    n = int(n)
    what = f'{family}({n})'
    ctx.prove(len(set(got)) == len(got), f'{what}: a partition is listed twice')
    ctx.prove(got == sorted(got, reverse=True), f'{what}: not in descending order')
    if not all(isinstance(p, tuple) and 0 < len(p) <= n and all(1 <= x <= n for x in p) for p in got):
        ctx.fail(f'{what}: not a list of tuples of positive parts: {got}')
        return
    pred = FAMILIES[family]
    if not ctx.symbolic:
        want = [p for p in all_partitions(n) if pred(sum(x > 1 for x in p), p[0], n)]
        ctx.prove(got == want, f'{what}: {got}, expected {want}')
        return
    v = [ctx.exists(f'p{i}_{n}', 0, n) for i in range(n)]
    listed = z3.Or([z3.And([a == b for a, b in zip(v, list(p) + [0] * (n - len(p)))]) for p in got] or [z3.BoolVal(False)])
    desc = [a >= b for a, b in zip(v, v[1:])]
    big = zsum(z3.If(x > 1, 1, 0) for x in v)
    valid = z3.And([zsum(v) == n] + desc + [pred(big, v[0], n)])
    ctx.prove_z3(valid == listed, f'{what}: a tuple is missing or does not belong')
    ctx.reach('partitions')


def connected(ctx, M, hi):
    n = ctx.int('n', 1, hi)
    got = M.helper_funcs.genereate_connected_partitions_of_n(n)
    ctx.prove(tuple(got) == (1,) * int(n), f'connected partition of {int(n)}: {got}')
    ctx.reach('connected')


def permutations(ctx, M, length, values, text=False):
    items = [ctx.int(f'x{i}', 0, values - 1) for i in range(length)]
    if text:        # the labels of a term come as a string
        got = M.helper_funcs.unique_permutations(''.join('abcdefgh'[int(x)] for x in items))
        got = [tuple('abcdefgh'.index(x) for x in p) for p in got]
    else:
        got = M.helper_funcs.unique_permutations(items)
        got = [tuple(int(x) for x in p) for p in got]
    items = [int(x) for x in items]
    what = f'unique_permutations({items})'
    ctx.prove(len(set(got)) == len(got) and got == sorted(got), f'{what}: repeated or not sorted: {got}')
    if not ctx.symbolic:
        ctx.prove(got == sorted(set(it.permutations(items))), f'{what}: {got}')
        return
    v = [ctx.exists(f'v{i}', 0, values - 1) for i in range(length)]
    listed = z3.Or([z3.And([a == b for a, b in zip(v, p)] or [z3.BoolVal(True)]) for p in got] or [z3.BoolVal(False)])
    valid = z3.And([zsum(z3.If(a == x, 1, 0) for a in v) == items.count(x) for x in range(values)])
    if any(len(p) != length for p in got):
        ctx.fail(f'{what}: {got}')
        return
    ctx.prove_z3(valid == listed, f'{what}: an arrangement is missing or does not belong')
    drop_exists(ctx, {}, 'none')
    ctx.reach('permutations')


class Np:
    """numpy stand-in that records which axis orders are summed"""
    class Sum:
        def __init__(self):
            self.terms = []

        def __iadd__(self, axes):
            self.terms.append(tuple(axes))
            return self

        def __add__(self, axes):
            r = Np.Sum()
            r.terms = self.terms + [tuple(axes)]
            return r

    def zeros_like(self, t, dtype=None):
        return Np.Sum()

    def transpose(self, t, axes):
        return tuple(axes)


def symmetrizer(ctx, M, hi):
    mx = ctx.int('max_order', 1, hi)
    order = ctx.int('order', 0, hi)
    ctx.assume(order <= mx)
    default = False
    if mx == 5:
        default = ctx.choice('default', [False, True])
    src = M.helper_funcs.build_symmetrizing_function(**({} if default else dict(max_order=mx)))
    mx, order = int(mx), int(order)
    what = f'symmetrising function up to {"the default order" if default else mx}, order {order}'
    ns = {'np': Np()}
    t = tuple(range(2 + order))
    try:
        exec(compile(src, '<generated>', 'exec'), ns)
        r = ns['symmetrize_tensor'](t, order)
    except Exception as e:
        ctx.fail(f'{what}: the generated function raises {type(e).__name__}: {e}')
        return
    terms = r.terms if isinstance(r, Np.Sum) else [r]
    if not all(isinstance(x, tuple) and len(x) == 2 + order for x in terms):
        ctx.fail(f'{what}: not a sum of axis orders of the tensor: {terms[:3]}')
        return
    if not ctx.symbolic:
        want = sorted((0, 1) + p for p in it.permutations(range(2, 2 + order)))
        ctx.prove(sorted(terms) == want, f'{what}: axis orders {sorted(terms)[:4]}...')
        return
    v = [ctx.exists(f'axis{i}_{order}', 0, order + 1) for i in range(2 + order)]
    table = {}
    for x in terms:
        table[x] = table.get(x, 0) + 1
    valid = z3.And([v[0] == 0, v[1] == 1, z3.Distinct(v)])
    ctx.prove_z3(table_term(v, table) == z3.If(valid, rv(1), rv(0)), f'{what}: an axis order is not summed exactly once')
    ctx.reach('symmetrizer')


def harnesses(tier):
    hi = 14 if tier == 'quick' else 18
    out = [Harness(f, partitions, FUNCS, f'every n from 1 to {hi}, every tuple of parts', params=dict(family=f, hi=hi))
           for f in FAMILIES]
    out.append(Harness('connected', connected, FUNCS, f'every n from 1 to {hi}', params=dict(hi=hi)))
    lengths = [(n, 3) for n in range(6)] + [(4, 4), (6, 2)] + ([(6, 3)] if tier == 'thorough' else [])
    for length, values in lengths:
        out.append(Harness(f'permutations_{length}' + (f'_{values}' if values != 3 else ''), permutations,
                           ['helper_funcs.unique_permutations'],
                           f'{length} items of {values} values, every arrangement', params=dict(length=length, values=values)))
    for length in range(5):
        out.append(Harness(f'permutations_text_{length}', permutations, ['helper_funcs.unique_permutations'],
                           f'a string of {length} letters out of 3', params=dict(length=length, values=3, text=True)))
    hs = 7
    out.append(Harness('symmetrizer', symmetrizer, ['helper_funcs.build_symmetrizing_function', 'the generated function'],
                       f'maximum order 1..{hs}, every order up to it, every axis order', params=dict(hi=hs)))
    return out

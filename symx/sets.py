"""Sets whose iteration order is chosen by the solver.

The iteration order of a set of strings depends on the hash seed of the process.  SymSet keeps the natural order for
elements whose hash does not depend on the seed (numbers, None and tuples of those) and asks the schedule otherwise.
"""
import itertools as it


class Schedule:
    active = False

    def __init__(self):
        self.order = lambda n: tuple(range(n))
        self.used = 0


current = Schedule()


def seed_free(x):
    if isinstance(x, (str, bytes)):
        return False
    if isinstance(x, tuple):
        return all(seed_free(y) for y in x)
    return x is None or isinstance(x, (int, float, complex)) or hasattr(x, 'e')


class SymSet(set):
    def __iter__(self):
        items = list(set.__iter__(self))
        if len(items) < 2 or all(seed_free(x) for x in items):
            return iter(items)
        items.sort(key=repr)
        if current.active:
            current.used += 1
            items = [items[i] for i in current.order(tuple(map(repr, items)))]
        return iter(items)

    def pop(self):
        for x in self:
            self.discard(x)
            return x
        raise KeyError('pop from an empty set')

    def copy(self):
        return SymSet(self)
    __copy__ = copy

    def __reduce__(self):
        return SymSet, (list(self),)


class SymFrozenSet(SymSet):
    def __hash__(self):
        return hash(frozenset(set.__iter__(self)))


def _wrap(name):
    f = getattr(set, name)

    def g(self, *a):
        r = f(self, *a)
        return SymSet(r) if type(r) is set else r
    return g


for _n in ('__and__', '__or__', '__sub__', '__xor__', '__rand__', '__ror__', '__rsub__', '__rxor__', 'union', 'intersection',
           'difference', 'symmetric_difference'):
    setattr(SymSet, _n, _wrap(_n))


def permutations(n):
    """the orders considered for a set of n elements: all for n <= 3, else the rotations and their reverses"""
    if n <= 3:
        return list(it.permutations(range(n)))
    rot = [tuple((i + k) % n for i in range(n)) for k in range(n)]
    return rot + [tuple(reversed(r)) for r in rot]


NAMESPACE = {'set': SymSet, 'frozenset': SymFrozenSet}

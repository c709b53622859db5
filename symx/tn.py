"""Symbolic execution of the *generated* numpy programs over abstract tensors.

A Poly is an exact (Fraction) linear combination of tensor networks; a network
is a list of input tensors ("leaves") and the way their axes are joined with
each other and with the axes of the result.  The generated program is executed
with `np.einsum`, `np.zeros`, `oe.contract_expression`, ... replaced by these
algebraic versions, so that what it returns is the formula it computes for
*every* value of the input tensors and every dimension A, N.
"""
import ast
import importlib
import itertools as it
import math
import re
import sys
import types
from fractions import Fraction


class ProgramError(Exception):
    """the generated program does something numpy would reject, or that has no
    meaning as a tensor formula"""


class Leaf:
    """a named input tensor.  `groups[i]`: class of axis i (axes of one class
    are interchangeable); `types[i]`: 'A' (surface) or 'N' (mode)."""
    __slots__ = ('name', 'types', 'groups')

    def __init__(self, name, types_, groups):
        self.name, self.types, self.groups = name, tuple(types_), tuple(groups)


class Net:
    __slots__ = ('leaves', 'out', '_canon')

    def __init__(self, leaves, out):
        self.leaves = leaves      # list of (Leaf, (index, ...))
        self.out = out            # tuple of index
        self._canon = None


class Poly:
    def __init__(self, shape, terms=None, frozen=False, sym=False):
        self.shape = tuple(shape)
        self.terms = terms if terms is not None else []   # list of (coef, Net)
        self.frozen, self.sym = frozen, sym

    @staticmethod
    def leaf(name, types_, groups):
        n = len(types_)
        return Poly(types_, [(Fraction(1), Net([(Leaf(name, types_, groups), tuple(range(n)))], tuple(range(n))))],
                    frozen=True)

    # algebra
    def _coerce(self, o):
        if not isinstance(o, Poly):
            raise ProgramError(f'{type(o).__name__} combined with a tensor of shape {self.shape}')
        if o.shape != self.shape:
            raise ProgramError(f'shapes {self.shape} and {o.shape} do not match')
        return o

    def __add__(self, o):
        if not isinstance(o, Poly) and o == 0:
            return self.copy()
        o = self._coerce(o)
        return Poly(self.shape, self.terms + o.terms)

    __radd__ = __add__

    def __iadd__(self, o):
        o = self._coerce(o)
        if self.frozen:
            raise ProgramError('the program modifies one of its input tensors in place')
        self.terms.extend(list(o.terms))
        return self

    def __neg__(self):
        return Poly(self.shape, [(-c, n) for c, n in self.terms])

    def __sub__(self, o):
        return self + (-self._coerce(o))

    def __isub__(self, o):
        return self.__iadd__(-self._coerce(o))

    def __mul__(self, o):
        if isinstance(o, Poly):
            raise ProgramError('elementwise product of two tensors')
        f = exact(o)
        return Poly(self.shape, [(c * f, n) for c, n in self.terms])

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * (1 / exact(o))

    def copy(self):
        return Poly(self.shape, list(self.terms), sym=self.sym)

    @property
    def ndim(self):
        return len(self.shape)


def exact(x):
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    if isinstance(x, float):
        return Fraction(repr(x))
    raise ProgramError(f'unexpected scalar {x!r}')


def einsum(sub, *ops, optimize=False):
    if not isinstance(sub, str):
        raise ProgramError('einsum without a subscript string')
    for o in ops:
        if not isinstance(o, Poly):
            raise ProgramError(f'einsum operand is {type(o).__name__}')
    s = sub.replace(' ', '')
    if '->' in s:
        lhs, out = s.split('->')
    else:
        lhs, out = s, None
    ins = lhs.split(',')
    if len(ins) != len(ops):
        raise ProgramError(f'einsum {sub!r}: {len(ins)} subscripts for {len(ops)} operands')
    if not all(c.isalpha() for i in ins for c in i):
        raise ProgramError(f'einsum {sub!r}: bad subscript character')
    if out is None:
        letters = sorted(set(''.join(ins)))
        out = ''.join(c for c in letters if ''.join(ins).count(c) == 1)
    typ = {}
    for sp, o in zip(ins, ops):
        if len(sp) != len(o.shape):
            raise ProgramError(f'einsum {sub!r}: subscript {sp!r} for an operand with {len(o.shape)} axes')
        for c, t in zip(sp, o.shape):
            if typ.setdefault(c, t) != t:
                raise ProgramError(f'einsum {sub!r}: index {c!r} joins a surface axis with a mode axis')
    for c in out:
        if c not in typ:
            raise ProgramError(f'einsum {sub!r}: output index {c!r} does not appear in an input')
    if len(set(out)) != len(out):
        raise ProgramError(f'einsum {sub!r}: output index repeated')
    res = []
    for combo in it.product(*[o.terms for o in ops]):
        coef = Fraction(1)
        leaves, ren, cnt = [], {}, it.count()
        # union-find over (operand, local index) -> letters
        parent = {}

        def find(x):
            while parent.setdefault(x, x) != x:
                x = parent[x]
            return x
        for k, ((c, net), sp) in enumerate(zip(combo, ins)):
            coef *= c
            for pos, ix in enumerate(net.out):
                a, b = find((k, ix)), find(sp[pos])
                if a != b:
                    parent[a] = b
        def idx(x):
            r = find(x)
            if r not in ren:
                ren[r] = next(cnt)
            return ren[r]
        for k, (c, net) in enumerate(combo):
            for lf, ixs in net.leaves:
                leaves.append((lf, tuple(idx((k, i)) for i in ixs)))
        res.append((coef, Net(leaves, tuple(idx(c) for c in out))))
    return Poly([typ[c] for c in out], res)


def endpoints(net):
    """index -> list of ('L', leaf number, axis group) / ('O', position)"""
    ep = {}
    for k, (lf, ixs) in enumerate(net.leaves):
        for ax, i in enumerate(ixs):
            ep.setdefault(i, []).append(('L', k, lf.groups[ax]))
    for p, i in enumerate(net.out):
        ep.setdefault(i, []).append(('O', p))
    return ep


def canon(net, outgroup=None):
    """canonical form modulo: renaming of indices, order of operands, order of
    axes within a leaf's axis group, and permutation of output axes with the
    same outgroup value (outgroup=None: every output axis is distinct)."""
    ep = endpoints(net)
    og = outgroup or (lambda p: ('p', p))
    n = len(net.leaves)
    names = [lf.name for lf, _ in net.leaves]
    # refinement
    col = {k: (names[k],) for k in range(n)}
    for _ in range(n):
        new = {}
        for k in range(n):
            sig = []
            for i, es in ep.items():
                mine = [e for e in es if e[0] == 'L' and e[1] == k]
                if not mine:
                    continue
                oth = sorted(repr(('L', col[e[1]], e[2]) if e[0] == 'L' else ('O', og(e[1])))
                             for e in es)
                sig.append((tuple(sorted(str(e[2]) for e in mine)), tuple(oth)))
            new[k] = (names[k], tuple(sorted(sig)))
        # compress
        order = {c: r for r, c in enumerate(sorted(set(map(repr, new.values()))))}
        col2 = {k: (names[k], order[repr(new[k])]) for k in range(n)}
        if len(set(col2.values())) == len(set(col.values())) and _ > 0:
            col = col2
            break
        col = col2
    classes = {}
    for k in range(n):
        classes.setdefault(col[k], []).append(k)
    keys = sorted(classes)
    best = None
    for perm in it.product(*[it.permutations(classes[k]) for k in keys]):
        pos = {}
        for grp in perm:
            for k in grp:
                pos[k] = len(pos)
        edges = []
        for i, es in ep.items():
            edges.append(tuple(sorted((repr(('L', pos[e[1]], e[2])) if e[0] == 'L' else repr(('O', og(e[1]))))
                                      for e in es)))
        form = tuple(sorted(edges))
        if best is None or form < best:
            best = form
    return (tuple(k[0] for k in keys for _ in classes[k]), best)


def collect(poly, outgroup=None):
    """canonical form -> (Fraction, representative Net)"""
    out = {}
    for c, net in poly.terms:
        key = canon(net, outgroup)
        if key in out:
            out[key] = (out[key][0] + c, out[key][1])
        else:
            out[key] = (c, net)
    return {k: v for k, v in out.items() if v[0] != 0}


def mode_sym(shape):
    """outgroup: all mode axes interchangeable"""
    return lambda p: ('p', p) if shape[p] == 'A' else ('N',)


# ----------------------------------------------------- fakes for the program
class FakeNP(types.ModuleType):
    complex128 = complex

    def __init__(self):
        super().__init__('numpy')
        self.einsum = einsum

    @staticmethod
    def zeros(shape, dtype=float, order='C'):
        if dtype not in (complex, 'complex', 'complex128'):
            raise ProgramError(f'np.zeros with dtype {dtype}: complex tensors cannot be added to it')
        if not isinstance(shape, (tuple, list)):
            shape = (shape,)
        for s in shape:
            if s not in ('A', 'N'):
                raise ProgramError(f'np.zeros with shape {shape}')
        return Poly(shape)

    @staticmethod
    def zeros_like(p, dtype=None):
        return Poly(p.shape)

    @staticmethod
    def copy(p):
        return p.copy()

    @staticmethod
    def transpose(p, perm):
        return Poly([p.shape[i] for i in perm],
                    [(c, Net(n.leaves, tuple(n.out[i] for i in perm))) for c, n in p.terms])

    @staticmethod
    def array_equal(*a):
        raise ProgramError('value-dependent test')


class FakeOE(types.ModuleType):
    def __init__(self):
        super().__init__('opt_einsum')
        self.made = []

    def contract_expression(self, sub, *shapes, optimize=True):
        if not isinstance(sub, str):
            raise ProgramError('oe.contract_expression called without a subscript string')
        shp = []
        for s in shapes:
            if not isinstance(s, (tuple, list)) or any(x not in ('A', 'N') for x in s):
                raise ProgramError(f'oe.contract_expression: operand shape {s!r}')
            shp.append(tuple(s))
        # validates the expression itself (as opt_einsum does)
        einsum(sub, *[Poly(s) for s in shp])
        self.made.append(sub)

        def call(*ops):
            if len(ops) != len(shp):
                raise ProgramError('optimized expression called with the wrong number of operands')
            for o, s in zip(ops, shp):
                if not isinstance(o, Poly) or o.shape != s:
                    raise ProgramError(f'optimized expression {sub!r} built for shapes {shp} called with '
                                       f'{[getattr(x, "shape", x) for x in ops]}')
            return einsum(sub, *ops)
        return call

    def contract(self, sub, *ops, optimize=True):
        return einsum(sub, *ops)


class NullLog:
    def __getattr__(self, n):
        return lambda *a, **k: None


def symmetrize_tensor(N, tensor, order=None):
    if not isinstance(tensor, Poly):
        raise ProgramError('symmetrize_tensor of a non-tensor')
    nm = sum(1 for t in tensor.shape if t == 'N')
    if order != nm:
        raise ProgramError(f'symmetrize_tensor(order={order}) of a tensor with {nm} mode axes')
    p = tensor.copy()
    p.sym = True
    return p


class _Div(ast.NodeTransformer):
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            return ast.copy_location(ast.Call(ast.Name('__div__', ast.Load()), [node.left, node.right], []), node)
        return node


def _div(a, b):
    if isinstance(a, Poly):
        return a / b
    return exact(a) / exact(b)


def symbolic_namespace():
    return {
        '__div__': _div, 'np': FakeNP(), 'oe': FakeOE(), 'log': NullLog(), 'factorial': math.factorial,
        'symmetrize_tensor': symmetrize_tensor, '__name__': 'generated',
    }


def imported(name):
    try:
        return importlib.import_module(name)
    except ImportError as e:
        raise ProgramError(f'the program cannot be imported: {e}')


def bind_imports(tree, available):
    """drop the import statements; the names they bind, taken from the stand-ins in `available`
    (a name the program uses without importing it is missing, as it would be in real life)"""
    ns = {k: v for k, v in available.items() if k.startswith('__')}
    alias = {'numpy': 'np', 'opt_einsum': 'oe'}
    body = []
    for n in tree.body:
        if isinstance(n, ast.Import):
            for a in n.names:
                k = alias.get(a.name, a.name)
                ns[a.asname or a.name.split('.')[0]] = available[k] if k in available else imported(a.name)
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                if a.name in available:
                    ns[a.asname or a.name] = available[a.name]
                elif not n.level:
                    ns[a.asname or a.name] = getattr(imported(n.module), a.name)
        else:
            body.append(n)
    tree.body = body
    return tree, ns


def exec_symbolic(source, extra=None):
    """run a generated module over abstract tensors; returns its namespace"""
    try:
        tree = ast.parse(source)
    except SyntaxError as e:
        raise ProgramError(f'generated program does not parse: {e}')
    tree, ns = bind_imports(tree, dict(symbolic_namespace(), **(extra or {})))
    limit = sys.getrecursionlimit()
    sys.setrecursionlimit(max(limit, 30000))     # one expression of a generated program can have thousands of terms
    try:
        tree = ast.fix_missing_locations(_Div().visit(tree))
        code = compile(tree, '<generated>', 'exec')
    except SyntaxError as e:
        raise ProgramError(f'generated program does not parse: {e}')
    finally:
        sys.setrecursionlimit(limit)
    exec(code, ns)
    return ns


# -------------------------------------------------------------- numeric replay
def numeric_namespace():
    import numpy as np

    class OE:
        def contract_expression(self, sub, *shapes, optimize=True):
            if not isinstance(sub, str):
                raise TypeError('contract_expression needs a subscript string')
            sub, shapes = sub.replace(' ', ''), [tuple(s) for s in shapes]
            np.einsum(sub, *[np.zeros(s) for s in shapes])      # refuses what opt_einsum refuses

            def call(*ops):
                if [np.shape(o) for o in ops] != shapes:
                    raise ProgramError(f'optimized expression {sub!r} built for shapes {shapes} called with '
                                       f'{[np.shape(o) for o in ops]}')
                return np.einsum(sub, *ops)
            return call

        def contract(self, sub, *ops, optimize=True):
            return np.einsum(sub, *ops)

    def symm(N, tensor, order=None):
        if order != np.ndim(tensor) - 2:
            raise ProgramError(f'symmetrize_tensor(order={order}) of a tensor with {np.ndim(tensor) - 2} mode axes')
        return numeric_symmetrize(np.asarray(tensor))
    return {'np': np, 'oe': OE(), 'log': NullLog(), 'factorial': math.factorial, 'symmetrize_tensor': symm,
            '__name__': 'generated'}


def numeric_symmetrize(x):
    """sum over all permutations of the mode axes (all axes after the first two)"""
    import numpy as np
    k = x.ndim - 2
    if k < 2:
        return x
    return sum(np.transpose(x, (0, 1) + tuple(2 + i for i in p)) for p in it.permutations(range(k)))


def exec_numeric(source, extra=None):
    try:
        tree, ns = bind_imports(ast.parse(source), dict(numeric_namespace(), **(extra or {})))
        code = compile(tree, '<generated>', 'exec')
    except SyntaxError as e:
        raise ProgramError(f'generated program does not parse: {e}')
    exec(code, ns)
    return ns


def evaluate(poly, tensors, dims):
    """numeric value of a Poly; tensors: leaf name -> ndarray"""
    import numpy as np
    res = np.zeros([dims[t] for t in poly.shape], dtype=complex)
    for c, net in poly.terms:
        args = []
        for lf, ixs in net.leaves:
            args += [tensors[lf.name], list(ixs)]
        res = res + complex(float(c)) * np.einsum(*args, list(net.out))
    return res


def random_tensor(rng, types_, groups, dims, sym=True):
    """random complex tensor, symmetric under exchange of axes of equal group"""
    import numpy as np
    size = [dims[t] for t in types_]
    x = rng.standard_normal(size) + 1j * rng.standard_normal(size)
    if not sym:
        x.flags.writeable = False
        return x
    by = {}
    for a, g in enumerate(groups):
        by.setdefault(g, []).append(a)
    for g, axes in by.items():
        if len(axes) > 1:
            acc, n = 0, 0
            for p in it.permutations(axes):
                full = list(range(x.ndim))
                for a, b in zip(axes, p):
                    full[a] = b
                acc = acc + np.transpose(x, full)
                n += 1
            x = acc / n
    x.flags.writeable = False        # a program must not change its inputs
    return x

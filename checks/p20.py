"""P20: every generated program is complete: it parses, everything it uses is there, its pieces fit together."""
import ast
import builtins
import importlib
import re
import sys

from checks.wcommon import *   # noqa
from checks.gen import *   # noqa
from checks.requests import KINDS, perform, elsewhere
from checks.p04 import H_ORDER

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'shapes of the arguments: h (A, A, N..), t and w (A, A, N..) or (N..) in the eT z program, z and dz (A, N..), dT (N..)',
    'a W program of maximum order M is run for truncations it covers (doubles needs M >= 4, triples 5, quadruples 6)',
    'values the interpreter does not track (lists of contraction paths, what they return) may have any shape',
]
NUMPY = {'einsum', 'zeros', 'zeros_like', 'transpose', 'copy', 'array_equal', 'empty', 'ones', 'add', 'multiply', 'ndarray', 'tensordot',
         'complex128', 'complex64', 'newaxis', 'moveaxis', 'swapaxes', 'array', 'asarray', 'matmul', 'dot', 'sum', 'conj', 'full'}
OE = {'contract', 'contract_expression', 'contract_path', 'shared_intermediates'}
FLAG = re.compile(r'(singles|doubles|triples|quadruples|quintuples|sextuples|quadratic|cc_truncation_order|t_singles|VECI|VE_MIXED|VECC|'
                  r'ground_state|([hz]_)?at_least_(linear|quadratic|cubic|quartic|quintic|sextic))')
CONFIRM = re.compile(r'confirm_at_least_(singles|doubles|triples|quadruples|quintuples|sextuples)')
NUMBERS = ['singles', 'doubles', 'triples', 'quadruples', 'quintuples', 'sextuples']


IMPORTS = {'numpy', 'opt_einsum', '.symmetrize.symmetrize_tensor', '..log_conf.log', '..residual_equations'}    # the last: from . import


def importable(full):
    """is there a module of that name, or a name in a module?"""
    module, _, name = full.rpartition('.')
    for m, x in ((full, None), (module, name)):
        try:
            if m and not m.startswith('.') and (x is None or hasattr(importlib.import_module(m), x)):
                importlib.import_module(m)
                return True
        except ImportError:
            pass
    return False


class T:
    """a tensor of known shape"""
    def __init__(self, shape):
        self.shape = tuple(shape)


class Kind:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


UNKNOWN, NUMBER, NONE, MODULE_NP, MODULE_OE = map(Kind, ('unknown', 'number', 'none', 'numpy', 'opt_einsum'))


class FlagsOf:
    pass


class Items:
    """h_args and the like: shape by key"""
    def __init__(self, make):
        self.make = make


class Defined:
    def __init__(self, node):
        self.node = node


class Contraction:
    def __init__(self, sub):
        self.sub = sub


class Program:
    def __init__(self, ctx, what, text, kind, M, other=None):
        self.ctx, self.what, self.kind, self.M, self.other = ctx, what, kind, M, other
        self.flag, self.memo, self.stack, self.keep = {}, {}, [], []
        self.A, self.N = ctx.int('A', 2, 9), ctx.int('N', 2, 9)
        try:
            self.tree = ast.parse(text)
            limit = sys.getrecursionlimit()
            sys.setrecursionlimit(max(limit, 30000))
            try:
                compile(self.tree, '<generated>', 'exec')
            finally:
                sys.setrecursionlimit(limit)
        except SyntaxError as e:
            self.tree = None
            ctx.fail(f'{what}: does not parse: {e}')
        self.globals = {}
        for n in self.tree.body:
            self.top(n)

    def bad(self, pc, message):
        self.ctx.prove(NOT(pc), f'{self.what}: {message}')

    def top(self, n):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                v = UNKNOWN
                full = ('' if isinstance(n, ast.Import) else '.' * n.level + (n.module or '') + '.') + a.name
                if full not in IMPORTS and not full.startswith(('numpy.', 'opt_einsum.')) and not importable(full):
                    self.bad(True, f'{ast.unparse(n)}: there is no {full}')
                if full == 'numpy':
                    v = MODULE_NP
                elif full == 'opt_einsum':
                    v = MODULE_OE
                elif a.name == 'symmetrize_tensor':
                    v = Kind('symmetrize')
                elif a.name == 'residual_equations':
                    v = Kind('residual')
                elif full == 'math.factorial':
                    v = Kind('factorial')
                self.globals[a.asname or a.name.split('.')[0]] = v
        elif isinstance(n, ast.FunctionDef):
            if isinstance(self.globals.get(n.name), Defined):
                self.bad(True, f'{n.name} is defined twice')
            self.globals[n.name] = Defined(n)
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name):
                        self.globals[x.id] = UNKNOWN
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            pass

    # ------------------------------------------------------------------ functions
    def argument(self, name):
        modes = lambda k: T((self.A, self.A) + (self.N,) * k)
        if name in ('A', 'N'):
            return getattr(self, name)
        if name in ('truncation', 'trunc', 'ansatz'):
            return FlagsOf()
        if name == 'epsilon':
            return modes(0)
        eT = self.kind == 'eT_z_python'
        if name == 'h_args':
            if self.kind in ('residual_python', 'dt_python'):
                return tuple(modes(m + n) for m, n in H_ORDER)
            return Items(lambda k: modes(sum(k)))
        if name in ('t_args', 'w_args', 'dt_args') and self.kind in ('w_python', 'dt_python', 'residual_python'):
            return tuple(modes(k) for k in range(1, 13))
        if eT and name in ('t_args', 't_conj', 'dT'):
            return Items(lambda k: T((self.N,) * sum(k)))
        if name == 't_args':
            return Items(lambda k: modes(sum(k)))
        if eT and name in ('z_args', 'dz_args'):
            return Items(lambda k: T((self.A,) + (self.N,) * sum(k)))
        return UNKNOWN

    def entries(self):
        called = {n.func.id for f in self.tree.body for n in ast.walk(f) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)}
        for name, v in list(self.globals.items()):
            if isinstance(v, Defined) and name not in called:
                a = v.node.args
                out = self.call(v, [self.argument(x.arg) for x in a.posonlyargs + a.args],
                                {x.arg: self.argument(x.arg) for x in a.kwonlyargs}, True)
                m = re.fullmatch(r'compute_m(\d+)_n(\d+)_amplitude(_optimized)?', name)
                if m and isinstance(out, T):
                    want = (self.A,) * (1 if self.kind == 'eT_z_python' else 2) + (self.N,) * (int(m[1]) + int(m[2]))
                    self.same(True, out.shape, want, f'{name} returns')

    def same(self, pc, a, b, message):
        if len(a) != len(b):
            self.bad(pc, f'{message} {len(a)} axes instead of {len(b)}')
        for x, y in zip(a, b):
            self.ctx.prove(x is y or IMPLIES(pc, x == y), f'{self.what}: {message}: a surface axis and a mode axis meet')

    @staticmethod
    def signature(v):
        return tuple(tuple(id(x) for x in a.shape) if isinstance(a, T) else type(a).__name__ + (a.name if isinstance(a, Kind) else '')
                     if not isinstance(a, (int, engine.SymInt)) else ('dim', id(a)) if isinstance(a, engine.SymInt) else a
                     for a in v)

    def bind(self, v, args, kw, pc, name):
        a = v.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        only = [x.arg for x in a.kwonlyargs]
        got = dict(zip(pos, args))
        if len(args) > len(pos) and not a.vararg:
            self.bad(pc, f'{name} called with {len(args)} arguments, takes {len(pos)}')
        for k, x in kw.items():
            if k in got:
                self.bad(pc, f'{name}: argument {k} given twice')
            elif k not in pos + only and not a.kwarg:
                self.bad(pc, f'{name} has no argument {k}')
            got[k] = x
        optional = set(pos[len(pos) - len(a.defaults):]) if a.defaults else set()
        optional |= {x for x, d in zip(only, a.kw_defaults) if d is not None}
        for k in pos + only:
            if k not in got:
                if k not in optional:
                    self.bad(pc, f'{name} called without its argument {k}')
                got[k] = UNKNOWN
        for x in (a.vararg, a.kwarg):
            if x:
                got[x.arg] = UNKNOWN
        return got

    def call(self, v, args, kw, pc):
        """the value a function of the program returns"""
        node = v.node
        got = self.bind(v, args, kw, pc, node.name)
        if node.name in self.stack:
            return UNKNOWN
        key = (node.name, self.signature(got.values()), pc if isinstance(pc, bool) else pc.e.get_id())
        if key not in self.memo:
            self.stack.append(node.name)
            self.memo[key] = Body(self, node, got).run(pc)
            self.stack.pop()
            self.keep.append(pc)
        return self.memo[key]

    def test_flag(self, name):
        if name not in self.flag:
            self.flag[name] = self.ctx.bool(f'flag {name}')
        return self.flag[name]


class Body:
    """one function, executed with the truth of every test as a condition on what follows"""
    def __init__(self, prog, node, values):
        self.p, self.ctx, self.node = prog, prog.ctx, node
        self.env = {k: (True, v) for k, v in values.items()}       # name: (condition under which it is bound, value)
        self.assigned = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        self.returned = []

    def bad(self, pc, message):
        self.p.bad(pc, f'{self.node.name}: {message}')

    def run(self, pc):
        self.env = {k: (pc, v) for k, (_, v) in self.env.items()}
        end = self.block(self.node.body, pc)
        vals = [v for pc, v in self.returned if pc is not False]
        if end is not False and vals and any(v is not NONE for v in vals):
            vals.append(NONE)
        if not vals:
            return NONE
        return vals[0] if all(same_value(v, vals[0]) for v in vals) else UNKNOWN

    def block(self, body, pc):
        """condition under which the end is reached"""
        for n in body:
            if pc is False:
                break
            pc = self.statement(n, pc)
        return pc

    def statement(self, n, pc):
        if isinstance(n, ast.Expr):
            self.value(n.value, pc)
        elif isinstance(n, ast.Pass) or isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in getattr(n, 'names', ()):
                self.set(a.asname or a.name.split('.')[0], UNKNOWN, pc)
        elif isinstance(n, ast.Return):
            self.returned.append((pc, self.value(n.value, pc) if n.value is not None else NONE))
            return False
        elif isinstance(n, ast.Raise):
            if n.exc is not None:
                self.value(n.exc, pc)
            return False
        elif isinstance(n, ast.Assert):
            c = self.truth(n.test, pc)
            if n.msg is not None:
                self.value(n.msg, AND(pc, NOT(c)))
            return AND(pc, c)
        elif isinstance(n, ast.Assign):
            v = self.value(n.value, pc)
            for t in n.targets:
                self.assign(t, v, pc)
        elif isinstance(n, ast.AnnAssign):
            if n.value is not None:
                self.assign(n.target, self.value(n.value, pc), pc)
        elif isinstance(n, ast.AugAssign):
            v = self.value(n.value, pc)
            old = self.value(ast.copy_location(as_load(n.target), n), pc)
            if isinstance(old, T) and isinstance(v, T):
                self.p.same(pc, v.shape, old.shape, f'{self.node.name}: {ast.unparse(n.target)} receives a term with')
            elif isinstance(old, T) and v is NONE:
                self.bad(pc, f'{ast.unparse(n.target)} receives None')
            elif isinstance(v, T) and isinstance(n.target, ast.Name) and old is NUMBER:
                self.set(n.target.id, v, pc)
        elif isinstance(n, ast.If):
            c = self.truth(n.test, pc)
            a, b = AND(pc, c), AND(pc, NOT(c))
            ea = self.block(n.body, a) if a is not False else False
            eb = self.block(n.orelse, b) if b is not False else False
            return OR(ea, eb) if not (ea is a and eb is b) else pc
        elif isinstance(n, (ast.For, ast.While, ast.With, ast.Try)):
            # not used by the generators today: names are looked up, values are not followed
            for m in ast.walk(n):
                if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store):
                    self.set(m.id, UNKNOWN, pc)
            for m in ast.walk(n):
                if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Load):
                    self.name(m, pc)
        elif isinstance(n, ast.FunctionDef):
            self.set(n.name, UNKNOWN, pc)
        return pc

    def set(self, name, v, pc):
        old = self.env.get(name)
        if old is None:
            self.env[name] = (pc, v)
        else:
            self.env[name] = (old[0] if old[0] is pc else OR(old[0], pc), v if pc is old[0] or same_value(old[1], v) else UNKNOWN)

    def assign(self, t, v, pc):
        if isinstance(t, ast.Name):
            self.set(t.id, v, pc)
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if isinstance(v, tuple):
                if (not stars and len(v) != len(t.elts)) or (stars and len(v) < len(t.elts) - 1):
                    self.bad(pc, f'{len(v)} values for {ast.unparse(t)}')
                    v = UNKNOWN
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, UNKNOWN, pc)
                else:
                    part = UNKNOWN if not isinstance(v, tuple) else v[i] if not stars or i < stars[0] else v[i - len(t.elts)]
                    self.assign(x, part, pc)
        else:
            for x in ast.walk(t):
                if isinstance(x, ast.Name):
                    self.name(x, pc)

    def name(self, n, pc):
        k = n.id
        if k in self.env:
            c, v = self.env[k]
            self.ctx.prove(c is pc or IMPLIES(pc, c), f'{self.p.what}: {self.node.name}: {k} is used before it has a value')
            return v
        if k in self.assigned:
            self.bad(pc, f'{k} is used before it has a value')
            return UNKNOWN
        if k in self.p.globals:
            return self.p.globals[k]
        if not hasattr(builtins, k):
            self.bad(pc, f'{k} is neither defined nor imported')
        return UNKNOWN

    def truth(self, n, pc):
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return NOT(self.truth(n.operand, pc))
        if isinstance(n, ast.BoolOp):
            parts = []
            for x in n.values:
                parts.append(self.truth(x, AND([pc] + [c if isinstance(n.op, ast.And) else NOT(c) for c in parts])))
            return AND(parts) if isinstance(n.op, ast.And) else OR(parts)
        if isinstance(n, ast.Constant):
            return bool(n.value)
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], ast.IsNot):
            self.value(n.left, pc)
            self.value(n.comparators[0], pc)
            return self.p.test_flag(f'{self.node.name}: ' + ast.unparse(n))
        if isinstance(n, ast.Attribute) and isinstance(self.value(n.value, pc), FlagsOf):
            self.value(n, pc)
            return self.p.test_flag(n.attr)
        self.value(n, pc)
        return self.p.test_flag(f'{self.node.name}: ' + ast.unparse(n))

    # --------------------------------------------------------------- expressions
    def value(self, n, pc):
        if isinstance(n, ast.Name):
            return self.name(n, pc)
        if isinstance(n, ast.Constant):
            return NONE if n.value is None else n.value if isinstance(n.value, (int, str)) else NUMBER if isinstance(n.value, float) else UNKNOWN
        if isinstance(n, ast.Tuple):
            v = [self.value(x.value if isinstance(x, ast.Starred) else x, pc) for x in n.elts]
            return UNKNOWN if any(isinstance(x, ast.Starred) for x in n.elts) else tuple(v)
        if isinstance(n, ast.Attribute):
            return self.attribute(n, pc)
        if isinstance(n, ast.Subscript):
            base, key = self.value(n.value, pc), self.value(n.slice, pc)
            if isinstance(base, Items):
                if isinstance(key, tuple) and all(isinstance(x, int) and not isinstance(x, bool) for x in key):
                    return base.make(key)
                return UNKNOWN
            if isinstance(base, tuple) and isinstance(key, int):
                if not -len(base) <= key < len(base):
                    self.bad(pc, f'{ast.unparse(n)}: only {len(base)} values')
                    return UNKNOWN
                return base[key]
            return UNKNOWN
        if isinstance(n, ast.BinOp):
            a, b = self.value(n.left, pc), self.value(n.right, pc)
            for x in (a, b):
                if x is NONE or isinstance(x, (FlagsOf, Defined, Items)):
                    self.bad(pc, f'{ast.unparse(n)[:60]}: no number or tensor')
                    return UNKNOWN
            if isinstance(a, T) and isinstance(b, T):
                if isinstance(n.op, (ast.Add, ast.Sub)):
                    self.p.same(pc, a.shape, b.shape, f'{self.node.name}: a sum of a term with')
                    return a
                return UNKNOWN
            if isinstance(a, T) or isinstance(b, T):
                t, o = (a, b) if isinstance(a, T) else (b, a)
                return t if o is NUMBER or isinstance(o, int) else UNKNOWN
            num = lambda x: x is NUMBER or isinstance(x, int)
            return NUMBER if num(a) and num(b) else UNKNOWN
        if isinstance(n, ast.UnaryOp):
            v = self.value(n.operand, pc)
            return v if isinstance(v, T) or v is NUMBER else NUMBER if isinstance(v, int) else UNKNOWN
        if isinstance(n, ast.Call):
            return self.call(n, pc)
        if isinstance(n, ast.IfExp):
            c = self.truth(n.test, pc)
            a, b = self.value(n.body, AND(pc, c)), self.value(n.orelse, AND(pc, NOT(c)))
            return a if same_value(a, b) else UNKNOWN
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.Lambda)):
            own = {m.id for m in ast.walk(n) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)} | \
                {m.arg for m in ast.walk(n) if isinstance(m, ast.arg)}
            for m in ast.walk(n):
                if isinstance(m, ast.Name) and m.id not in own:
                    self.name(m, pc)
            return UNKNOWN
        for m in ast.iter_child_nodes(n):
            if isinstance(m, ast.expr):
                self.value(m, pc)
            elif isinstance(m, ast.keyword):
                self.value(m.value, pc)
        return UNKNOWN

    def attribute(self, n, pc):
        base = self.value(n.value, pc)
        if base is MODULE_NP and n.attr not in NUMPY:
            try:
                import numpy
                ok = hasattr(numpy, n.attr)
            except ImportError:
                ok = True
            if not ok:
                self.bad(pc, f'numpy has no {n.attr}')
        if base is MODULE_OE and n.attr not in OE:
            self.bad(pc, f'opt_einsum has no {n.attr}')
        if isinstance(base, FlagsOf) and not FLAG.fullmatch(n.attr) and not CONFIRM.fullmatch(n.attr):
            self.bad(pc, f'{ast.unparse(n)} is no flag')
        if isinstance(base, Kind) and base.name == 'residual' and self.p.other is not None:
            f = self.p.other.globals.get(n.attr)
            if not isinstance(f, Defined):
                self.bad(pc, f'the residual program of the same order has no {n.attr}')
            return f or UNKNOWN
        if base in (MODULE_NP, MODULE_OE):
            return Kind(base.name + '.' + n.attr)
        if base is NONE:
            self.bad(pc, f'{ast.unparse(n)}: attribute of None')
        return UNKNOWN

    def call(self, n, pc):
        f = self.value(n.func, pc)
        args = [self.value(a.value if isinstance(a, ast.Starred) else a, pc) for a in n.args]
        kw = {k.arg: self.value(k.value, pc) for k in n.keywords}
        if any(isinstance(a, ast.Starred) for a in n.args) or None in kw:
            return UNKNOWN
        if isinstance(f, Defined):
            prog = self.p if self.p.globals.get(f.node.name) is f else self.p.other
            return prog.call(f, args, kw, pc)
        name = f.name if isinstance(f, Kind) else ''
        if name in ('numpy.einsum', 'opt_einsum.contract'):
            return self.einsum(args, pc, n)
        if name == 'numpy.zeros':
            shape = kw.get('shape', args[0] if args else UNKNOWN)
            shape = shape if isinstance(shape, tuple) else (shape,)
            dims = [x for x in shape if isinstance(x, (int, engine.SymInt)) and not isinstance(x, bool)]
            if len(dims) < len(shape):
                return UNKNOWN
            return T(shape)
        if name == 'opt_einsum.contract_expression':
            if args and isinstance(args[0], str):
                ops = [T(x) if isinstance(x, tuple) and all(isinstance(y, (int, engine.SymInt)) for y in x) else UNKNOWN for x in args[1:]]
                self.einsum(args[:1] + ops, pc, n)
            return UNKNOWN      # without subscripts: P09's known finding
        if name == 'symmetrize':
            t, order = (args + [UNKNOWN, UNKNOWN])[1], kw.get('order', args[2] if len(args) > 2 else UNKNOWN)
            if isinstance(t, T):
                if isinstance(order, int):
                    self.p.same(pc, t.shape, (self.p.A,) * 2 + (self.p.N,) * order, f'{self.node.name}: symmetrised tensor of order {order} has')
                return t
            return UNKNOWN
        if name == 'factorial':
            return NUMBER
        if f is NONE or isinstance(f, (T, tuple, int, str)) or f is NUMBER:
            self.bad(pc, f'{ast.unparse(n.func)[:40]} is called but is no function')
        return UNKNOWN

    def einsum(self, args, pc, n):
        if not args or not isinstance(args[0], str):
            if args and args[0] is not UNKNOWN:
                self.bad(pc, f'{ast.unparse(n)[:60]}: no subscripts')
            return UNKNOWN
        sub, ops = args[0].replace(' ', ''), args[1:]
        ins, arrow, out = sub.partition('->')
        ins = ins.split(',')
        what = f'{self.node.name}: {ast.unparse(n)[:90]}'
        if not all(c.isalpha() and c.isascii() for x in ins + [out] for c in x):
            self.p.bad(pc, f'{what}: not a list of letters')
            return UNKNOWN
        if len(ins) != len(ops):
            self.p.bad(pc, f'{what}: {len(ins)} subscripts for {len(ops)} operands')
            return UNKNOWN
        if not arrow:
            out = ''.join(sorted(c for c in set(''.join(ins)) if ''.join(ins).count(c) == 1))
        dim = {}
        for x, o in zip(ins, ops):
            if o is NONE or isinstance(o, (FlagsOf, Defined, Items, tuple, str)):
                self.p.bad(pc, f'{what}: an operand is no tensor')
            if not isinstance(o, T):
                continue
            if len(x) != len(o.shape):
                self.p.bad(pc, f'{what}: {x} for a tensor with {len(o.shape)} axes')
                continue
            for c, d in zip(x, o.shape):
                self.ctx.prove(dim.setdefault(c, d) is d or IMPLIES(pc, dim[c] == d), f'{self.p.what}: {what}: {c} joins a surface axis and a mode axis')
        if len(set(out)) < len(out) or not set(out) <= set(''.join(ins)):
            self.p.bad(pc, f'{what}: result {out}')
            return UNKNOWN
        return T([dim[c] for c in out]) if all(c in dim for c in out) else UNKNOWN


def as_load(t):
    return ast.parse(ast.unparse(t), mode='eval').body


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, T) and isinstance(b, T):
        return len(a.shape) == len(b.shape) and all(x is y for x, y in zip(a.shape, b.shape))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and isinstance(a, (int, str)) and a == b


def wanted(kind, v, lhs):
    """the functions the user calls"""
    opt = ('', '_optimized')
    if kind == 'w_python':
        return [f'compute_w_operators{o}' for o in opt] + ['compute_optimized_vemx_paths', 'compute_optimized_vecc_paths']
    if kind == 'dt_python':
        return [f'solve_{NUMBERS[i]}_equations{o}' for i in range(v[0]) for o in opt] + ['compute_optimized_paths']
    if kind == 'residual_python':
        return [f'calculate_order_{i}_residual' for i in range(v[0] + 1)]
    if kind == 'full_cc_python':
        p = min(v[1], v[3])
        return [f'compute_m{m}_n{n}_{x}' for m in range(p + 1) for n in range(p + 1 - m)
                for x in ('amplitude', 'amplitude_optimized', 'optimized_paths')] + ['compute_all_optimized_paths']
    return [f'compute_m0_n{n}_amplitude{o}' for n in range(min(v[1], v[4]) + 1) for o in opt]


def flags_of(prog, kind, M):
    """the truncations the program is made for"""
    ctx = prog.ctx
    chains = [NUMBERS] + [[f'{p}at_least_{x}' for x in ('linear', 'quadratic', 'cubic', 'quartic', 'quintic', 'sextic')] for p in ('', 'h_', 'z_')]
    for names in chains:
        f = [prog.test_flag(x) for x in names]
        for a, b in zip(f, f[1:]):
            ctx.assume(IMPLIES(b, a))
    if kind == 'w_python':
        for need, x in ((4, 'doubles'), (5, 'triples'), (6, 'quadruples')):
            if M < need:
                ctx.assume(NOT(prog.test_flag(x)))


def written(ctx, M, req):
    text, err, _ = perform(M, *req) if ctx.symbolic else elsewhere([req])[0]
    ctx.prove(err is None, f'{req}: raises {err}')
    ctx.prove(text is not None, f'{req}: no file is written')
    return text


def body(ctx, M, kind, bounds, options=()):
    names = KINDS[kind][2]
    numbers = [int(ctx.int(x, *bounds.get(x, (1, 1)))) for x in names]
    req = [kind, numbers, {o: bool(ctx.bool(o)) for o in options}]
    text = written(ctx, M, req)
    other = None
    if kind == 'dt_python':
        rank = int(ctx.int('rank', 0, 2))
        other = Program(ctx, 'residual program', written(ctx, M, ['residual_python', numbers + [rank], {}]), 'residual_python', numbers[0])
    prog = Program(ctx, str(req), text, kind, numbers[0], other)
    if other is not None:
        other.flag = prog.flag
        other.A, other.N = prog.A, prog.N
    flags_of(prog, kind, numbers[0])
    missing = [x for x in wanted(kind, numbers, req[2].get('lhs')) if not isinstance(prog.globals.get(x), Defined)]
    ctx.prove(not missing, f'{req}: {missing[:3]} missing')
    prog.entries()
    ctx.reach('program')


def harnesses(tier):
    quick = tier == 'quick'
    out = []

    def add(name, kind, opts=(), **b):
        module, func = KINDS[kind][:2]
        out.append(Harness(name, body, [f'{module}.{func} and its callees', 'code_import_statements_module', 'and the generated program itself'],
                           f'{kind}: {b}, every option; every truncation and ansatz, every A and N in 2..9',
                           params=dict(kind=kind, bounds=b, options=opts)))
    up, one = (1, 6), (1, 1)
    add('w', 'w_python', order=(3, 6))
    add('dt', 'dt_python', order=up)
    add('residual', 'residual_python', order=(0, 6), rank=(0, 2))
    for cc in (6, 5, 4, 3, 2, 1):
        add(f'full_cc_{cc}', 'full_cc_python', H=(1, 2 if cc > 3 else 3), CC=(cc, cc), S=one, P=up)
    add('full_cc_h', 'full_cc_python', H=up, CC=(1, 2), S=(1, 2), P=(1, 3))
    add('full_cc_s', 'full_cc_python', H=(1, 2), CC=one, S=up, P=(1, 2))
    add('full_cc_mixed', 'full_cc_python', H=(2, 4 if quick else 6), CC=(2, 3), S=(2, 3), P=(1, 3))
    add('full_cc_products', 'full_cc_python', H=(1, 3), CC=(4, 4 if quick else 5), S=(2, 2), P=(3, 4))
    for h in (6, 5, 4, 3, 2, 1):
        add(f'eT_h{h}', 'eT_z_python', ('lhs', 'excited') if h < 4 else ('lhs',), H=(h, h), CC=(1, 3), eT=(1, 3), P=(1, 3))
        add(f'eT_h{h}_high', 'eT_z_python', ('lhs',), H=(h, h), CC=(4, 6), eT=(1, 2), P=up)
    for h in (6, 5, 4, 3, 2, 1):
        for s in (2, 3) if quick else (2, 3, 4):
            add(f'full_cc_h{h}_s{s}', 'full_cc_python', H=(h, h), CC=(1, {2: 4, 3: 2 if quick else 3, 4: 2}[s]), S=(s, s), P=up)
        if not quick:
            add(f'eT_h{h}_t3', 'eT_z_python', ('lhs', 'excited') if h < 4 else ('lhs',), H=(h, h), CC=up, eT=(3, 4), P=up)
    add('eT_t', 'eT_z_python', ('lhs',), H=(1, 3), CC=(1, 3), eT=(4, 6 if quick else 8), P=(1, 2))
    return out

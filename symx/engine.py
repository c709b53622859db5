"""A small path-forking symbolic executor for Python, on z3.

The *real* functions of /repo/termfactory are called with proxy integers and
booleans.  Arithmetic and comparisons build z3 terms; every point at which the
code needs to know a truth value forks (both sides are tried when the solver
says both are feasible), every point at which it needs a concrete integer
(list index, dict key, f-string) forks over the values the solver still allows.
Paths are enumerated depth first by re-execution with a decision prefix, until
the solver reports that no feasible decision is left - so the set of paths
covers every value of the declared inputs within their declared bounds.

A property is stated with ctx.prove(cond): the solver is asked for an
assignment of the inputs that satisfies the path condition and violates cond.
`unsat` is the only answer that counts as "holds".
"""
import time
from fractions import Fraction

try:
    import z3
except ImportError:            # replay runs on the repository's interpreter
    z3 = None


class Abort(BaseException):
    """Leave the current path (infeasible / already decided)."""


class Inconclusive(Exception):
    pass


class Counterexample(Exception):
    def __init__(self, label, inputs, detail=None):
        super().__init__(label)
        self.label, self.inputs, self.detail = label, inputs, detail


class Stats:
    def __init__(self):
        self.paths = self.queries = self.forks = self.proved = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.samples = []

    def as_dict(self):
        return dict(paths=self.paths, queries=self.queries, forks=self.forks,
                    assertions_discharged=self.proved, solver_s=round(self.solver_s, 3))


_ctx = None     # the context of the running path (one path runs at a time)


# ------------------------------------------------------------------ proxies
def _z(x):
    if isinstance(x, (SymInt, SymBool)):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    return x


def _isnum(x):
    return isinstance(x, (int, SymInt)) and not isinstance(x, bool) or isinstance(x, bool)


def mkint(e):
    if _ctx is not None and _ctx.subst:
        e = z3.substitute(e, _ctx.subst)
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    if _ctx is not None:
        v = _ctx.pinned.get(e.get_id())
        if v is not None:
            return v
    return SymInt(e)


def mkbool(e):
    if _ctx is not None and _ctx.subst:
        e = z3.substitute(e, _ctx.subst)
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


class SymInt:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    # arithmetic -------------------------------------------------------
    def _bin(self, o, f):
        if isinstance(o, SymBool):
            o = ITE(o, 1, 0)
        if not isinstance(o, (int, SymInt)):
            return NotImplemented
        return mkint(f(self.e, _z(int(o) if isinstance(o, bool) else o)))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __floordiv__(self, o):
        return self.__index__() // o

    def __rfloordiv__(self, o):
        return o // self.__index__()

    def __truediv__(self, o):
        return self.__index__() / o

    def __rtruediv__(self, o):
        return o / self.__index__()

    def __mod__(self, o):
        return self.__index__() % o

    def __pow__(self, o):
        return self.__index__() ** o

    def __rpow__(self, o):
        return o ** self.__index__()

    def __divmod__(self, o): return divmod(self.__index__(), o)
    def __rmod__(self, o): return o % self.__index__()
    def __neg__(self): return mkint(-self.e)
    def __pos__(self): return self
    def __abs__(self): return self if self >= 0 else -self

    # comparisons ------------------------------------------------------
    def _cmp(self, o, f):
        if isinstance(o, SymBool):
            o = ITE(o, 1, 0)
        if not isinstance(o, (int, SymInt)):
            return NotImplemented
        return mkbool(f(self.e, _z(int(o) if isinstance(o, bool) else o)))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if isinstance(o, (int, SymInt)):
            return self._cmp(o, lambda a, b: a == b)
        return False

    def __ne__(self, o):
        if isinstance(o, (int, SymInt)):
            return self._cmp(o, lambda a, b: a != b)
        return True

    # places that need a concrete value --------------------------------
    def __bool__(self):
        r = self != 0
        return bool(r)

    def __index__(self): return _ctx.concretise(self.e)
    __int__ = __index__
    def __float__(self): return float(self.__index__())
    def __hash__(self): return hash(self.__index__())
    def __str__(self): return self._token() or str(self.__index__())
    __repr__ = __str__
    def __format__(self, spec): return self._token() or format(self.__index__(), spec)

    def _token(self):
        """with ctx.tokens set, text that contains a symbolic number contains a name for it instead of forking"""
        if _ctx is not None and _ctx.tokens:
            return f'<{z3.simplify(self.e).sexpr()}>'
        return None


class SymBool:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self): return _ctx.branch(self.e)
    def __and__(self, o): return AND(self, o)
    __rand__ = __and__
    def __or__(self, o): return OR(self, o)
    __ror__ = __or__
    def __invert__(self): return NOT(self)
    def __eq__(self, o):
        if isinstance(o, SymInt):
            return o == self
        return mkbool(self.e == _z(bool(o) if not isinstance(o, SymBool) else o))
    def __ne__(self, o): return NOT(self == o)
    def __hash__(self): return hash(bool(self))
    def __add__(self, o): return ITE(self, 1, 0) + o
    __radd__ = __add__
    def __str__(self): return str(bool(self))
    __repr__ = __str__
    def __format__(self, spec): return format(bool(self), spec)


# ----------------------------------------- connectives usable in both modes
def _sym(*xs):
    return any(isinstance(x, (SymInt, SymBool)) for x in xs)


def AND(*xs):
    xs = _flat(xs)
    if any(x is False for x in xs):
        return False
    xs = [x for x in xs if x is not True]
    if not xs:
        return True
    if not _sym(*xs):
        return all(xs)
    return mkbool(z3.And([_z(x) for x in xs]))


def OR(*xs):
    xs = _flat(xs)
    if any(x is True for x in xs):
        return True
    xs = [x for x in xs if x is not False]
    if not xs:
        return False
    if not _sym(*xs):
        return any(xs)
    return mkbool(z3.Or([_z(x) for x in xs]))


def _flat(xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        return list(xs[0])
    if len(xs) == 1 and not isinstance(xs[0], (bool, SymBool)):
        return list(xs[0])
    return list(xs)


def NOT(x):
    return mkbool(z3.Not(_z(x))) if _sym(x) else (not x)


def IMPLIES(a, b):
    return OR(NOT(a), b)


def EQ(a, b):
    return a == b


def ITE(c, a, b):
    if not _sym(c):
        return a if c else b
    if isinstance(a, Fraction) or isinstance(b, Fraction):
        raise TypeError('use table()/coef queries for fractions')
    return mkint(z3.If(_z(c), _z(a), _z(b)))


# ------------------------------------------------------------------ context
class Ctx:
    symbolic = True

    def __init__(self, prefix, stats, timeout_ms):
        self.prefix, self.pos, self.log = prefix, 0, []
        self.stats = stats
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.inputs = {}
        self.pinned = {}
        self.ebounds = {}
        self.subst = []
        self.known = {}
        self._keep = []
        self.reached = []

    # -- inputs
    def int(self, name, lo, hi, only=None):
        v = z3.Int(name)
        self.inputs[name] = v
        self.solver.add(v >= lo, v <= hi)
        if only is not None:
            self.solver.add(z3.Or([v == x for x in only]))
        if lo == hi:
            return lo
        return self.concretise(v) if self.eager else SymInt(v)

    tokens = False      # write symbolic numbers into text as tokens
    eager = False       # fallback mode: inputs become concrete (by forking) when created

    def exists(self, name, lo, hi):
        """an integer used only in assertions (always symbolic)"""
        v = z3.Int(name)
        self.inputs[name] = v
        self.ebounds[name] = [v >= lo, v <= hi]     # assumed in every later query, not in the path condition
        return v

    def bool(self, name):
        v = z3.Bool(name)
        self.inputs[name] = v
        return self.branch(v) if self.eager else SymBool(v)

    def choice(self, name, options):
        """one of a finite list (forks)."""
        options = list(options)
        i = self.int(name, 0, len(options) - 1)
        return options[i.__index__()]

    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            raise Abort
        self.solver.add(_z(cond))
        if self._check() == z3.unsat:
            raise Abort

    # -- solver
    def _check(self, *assump):
        t = time.time()
        r = self.solver.check(*assump)
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def branch(self, e):
        key = e.get_id()
        if key in self.known:
            return self.known[key]
        if self.subst:
            s = z3.simplify(z3.substitute(e, self.subst))
            if z3.is_true(s) or z3.is_false(s):
                return z3.is_true(s)
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            t = self._check(e)
            f = self._check(z3.Not(e))
            if z3.unknown in (t, f):
                raise Inconclusive('solver returned unknown at a branch')
            if t == z3.unsat and f == z3.unsat:
                raise Abort
            if t == z3.sat and f == z3.sat:
                d = ('b', True, True)
                self.stats.forks += 1
            else:
                d = ('b', t == z3.sat, False)
        self.pos += 1
        self.log.append(d)
        self.solver.add(e if d[1] else z3.Not(e))
        self.known[key] = d[1]
        self._keep.append(e)
        return d[1]

    def concretise(self, e):
        key = e.get_id()
        if key in self.pinned:
            return self.pinned[key]
        if self.subst:
            s = z3.simplify(z3.substitute(e, self.subst))
            if z3.is_int_value(s):
                return s.as_long()
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            excl = d[2]
            val = d[1]
        else:
            excl, val = (), None
        for x in excl:
            self.solver.add(e != x)
        if val is None:
            r = self._check()
            if r == z3.unknown:
                raise Inconclusive('solver returned unknown while concretising')
            if r == z3.unsat:
                # every value has been explored
                self.log.append(('v', None, excl))
                raise Abort
            val = self.solver.model().eval(e, model_completion=True).as_long()
        self.pos += 1
        self.log.append(('v', val, excl))
        self.solver.add(e == val)
        self.pinned[key] = val
        self._keep.append(e)
        if z3.is_const(e):
            self.subst.append((e, z3.IntVal(val)))
        return val

    # -- properties
    def model(self, m):
        out = {}
        for k, v in self.inputs.items():
            x = m.eval(v, model_completion=True)
            out[k] = z3.is_true(x) if z3.is_bool(v) else x.as_long()
        return out

    # findings listed in known_findings.json: signature -> recorded, not raised
    known_sigs = set()
    known_hits = {}
    programs = 0

    def prove(self, cond, label, detail=None, sig=None):
        if cond is True:
            self.stats.proved += 1
            return True
        q = z3.BoolVal(False) if cond is False else _z(cond)
        return self.prove_z3(q, label, detail, sig)

    def prove_z3(self, q, label, detail=None, sig=None):
        r = self._check(z3.Not(q), *[c for b in self.ebounds.values() for c in b])
        if r == z3.unsat:
            self.stats.proved += 1
            return True
        if r == z3.unknown:
            raise Inconclusive(f'solver returned unknown for: {label}')
        if sig is not None and sig in self.known_sigs:
            self.known_hits[sig] = label
            return False
        raise Counterexample(label + (f'  [signature: {sig}]' if sig else ''), self.model(self.solver.model()), detail)

    def program(self):
        Ctx.programs += 1
        self.generated = True

    def reach(self, label):
        """record that the solver has a model for the path reaching here."""
        if len(self.stats.samples) < 3:
            if self._check() == z3.sat:
                self.stats.samples.append({label: self.model(self.solver.model())})

    def fail(self, label, detail=None, sig=None):
        self.prove(False, label, detail, sig)


class ConcreteCtx:
    """the same harness body, run on plain values (replay)."""
    symbolic = False
    tokens = False

    def __init__(self, values):
        self.values = values
        self.failed = []

    def int(self, name, lo, hi, only=None):
        v = self.values[name]
        assert lo <= v <= hi
        return v

    exists = int

    def bool(self, name):
        return bool(self.values[name])

    def choice(self, name, options):
        return list(options)[self.values[name]]

    def assume(self, cond):
        if not cond:
            raise Abort

    known_sigs = set()

    def prove(self, cond, label, detail=None, sig=None):
        if not cond:
            if sig is not None and sig in self.known_sigs:
                return False
            raise Counterexample(label, self.values, detail)
        return True

    def program(self):
        self.generated = True

    def reach(self, label):
        pass

    def fail(self, label, detail=None, sig=None):
        self.prove(False, label, detail, sig)


def from_code(exc, ctx=None):
    """was this exception raised by the code under test (or by a generated
    program) rather than by the harness?  Or by the harness because what was
    generated lacks a function, a part or an axis it must have"""
    from . import tn, loader
    if isinstance(exc, tn.ProgramError):
        return True
    if getattr(ctx, 'generated', False) and isinstance(exc, (LookupError, ValueError, AttributeError, TypeError)):
        return True
    tb = exc.__traceback__
    last = None
    while tb:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(loader.SRC) or f == '<generated>':
            last = 'code'
        elif '/symx/' in f and last == 'code':
            pass            # proxies / stubs called by the code
        elif f.startswith('<') or '/lib/python' in f:
            pass            # library frames inherit the owner of their caller
        else:
            last = 'harness'
        tb = tb.tb_next
    return last == 'code'


def explore(body, stats=None, max_paths=2000000, deadline=None, timeout_ms=60000, collect=False, eager=False):
    """run body(ctx) on every feasible path.  Raises Counterexample/Inconclusive,
    or (collect=True) returns the list of counterexamples found."""
    global _ctx
    stats = stats or Stats()
    prefix, found = [], []
    while True:
        ctx = Ctx(prefix, stats, timeout_ms)
        ctx.eager = eager
        _ctx = ctx
        try:
            body(ctx)
            stats.paths += 1
        except Abort:
            pass
        except Counterexample as c:
            stats.paths += 1
            if not collect:
                raise
            found.append(c)
        except Inconclusive:
            raise
        except Exception as e:
            if not from_code(e, ctx):
                raise
            if ctx._check() != z3.sat:
                raise
            raise Counterexample(f'the code raises {type(e).__name__}: {e}', ctx.model(ctx.solver.model()),
                                 'exception') from e
        finally:
            _ctx = None
        if stats.paths > max_paths:
            raise Inconclusive(f'more than {max_paths} paths')
        if deadline and time.time() > deadline:
            raise Inconclusive('deadline reached before every path was explored')
        # next prefix
        log = ctx.log
        while log:
            d = log.pop()
            if d[0] == 'b' and d[2]:
                log.append(('b', not d[1], False))
                break
            if d[0] == 'v' and d[1] is not None:
                log.append(('v', None, d[2] + (d[1],)))
                break
        else:
            break
        prefix = list(log)
    return (stats, found) if collect else stats


# ------------------------------------------------------------ symbolic range
class SymRange:
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s

    def __iter__(self):
        i = self.a
        if self.s > 0:
            while i < self.b:
                yield i
                i = i + self.s
        else:
            while i > self.b:
                yield i
                i = i + self.s

    def __len__(self):
        return len(list(iter(self)))

    def __contains__(self, x):
        return any(x == y for y in self)

    def __reversed__(self):
        return reversed(list(self))

    def __getitem__(self, i):
        return list(self)[i]


def sym_range(*args):
    if not _sym(*args):
        return range(*args)
    if len(args) == 1:
        return SymRange(0, args[0], 1)
    if len(args) == 2:
        return SymRange(args[0], args[1], 1)
    return SymRange(args[0], args[1], int(args[2]))


def sym_isinstance(x, types):
    if isinstance(x, (SymInt, SymBool)):
        ts = types if isinstance(types, tuple) else (types,)
        like = (int, object) if isinstance(x, SymInt) else (bool, int, object)
        return any(t in like for t in ts if isinstance(t, type)) or isinstance(x, types)
    return isinstance(x, types)


def sym_is(x, const):
    return bool(x) is const if isinstance(x, SymBool) else x is const

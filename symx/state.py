"""What a process remembers between two requests: the values reachable from the module-level names of the repository's
modules (globals, default arguments, attributes and closures of functions, class attributes, caches), the environment and the
files of the working directory.  Two equal snapshots: the next request starts from the same state."""
import enum
import functools
import hashlib
import os
import re
import types

SKIP_ATTR = {'__dict__', '__weakref__', '__doc__', '__module__', '__qualname__', '__annotations__', '__builtins__', '__cached__',
             '__file__', '__loader__', '__spec__', '__package__', '__name__', '__firstlineno__', '__static_attributes__'}
PLAIN = (int, float, complex, str, bytes, bool, type(None), type(Ellipsis), re.Pattern, range, slice)
SKIP_TYPES = ('Logger', 'LoggerAdapter', 'HeaderAdapter', 'SubHeaderAdapter')


def snapshot(mods, cwd=None):
    mods = dict(mods)
    ours = {id(m.__dict__) for m in mods.values()}
    names = set(mods)
    seen = {}
    keep = []

    def walk(o):
        if isinstance(o, PLAIN):
            return (type(o).__name__, repr(o))
        if isinstance(o, (types.ModuleType, types.BuiltinFunctionType, types.MethodDescriptorType, types.WrapperDescriptorType,
                          types.GetSetDescriptorType, types.MemberDescriptorType)):
            return (type(o).__name__, getattr(o, '__name__', ''))
        if id(o) in seen:
            return ('ref', seen[id(o)])
        seen[id(o)] = len(seen)
        keep.append(o)
        if isinstance(o, types.FunctionType):
            if id(o.__globals__) not in ours:
                return ('function', o.__qualname__)
            cells = []
            for c in o.__closure__ or ():
                try:
                    cells.append(walk(c.cell_contents))
                except ValueError:
                    cells.append(None)
            return ('function', o.__qualname__, walk(o.__defaults__), walk(o.__kwdefaults__), walk(o.__dict__), tuple(cells))
        if isinstance(o, (classmethod, staticmethod)):
            return (type(o).__name__, walk(o.__func__))
        if isinstance(o, types.MethodType):
            return ('method', walk(o.__func__), walk(o.__self__))
        if isinstance(o, property):
            return ('property', walk(o.fget), walk(o.fset))
        if isinstance(o, functools.partial):
            return ('partial', walk(o.func), walk(o.args), walk(o.keywords))
        if isinstance(o, type(functools.lru_cache(len))):
            c = o.cache_info()
            return ('lru', c.misses, c.currsize, walk(getattr(o, '__wrapped__', None)))
        if isinstance(o, type):
            if o.__module__ not in names:
                return ('class', o.__module__, o.__qualname__)
            return ('class', o.__qualname__, tuple((k, walk(v)) for k, v in vars(o).items() if k not in SKIP_ATTR))
        if isinstance(o, enum.Enum):
            return ('enum', type(o).__qualname__, o.name)
        if type(o).__name__ in SKIP_TYPES or type(o).__module__ in ('log_conf', 'logging', 'symx.loader'):
            return ('logger',)
        if isinstance(o, dict):
            return (type(o).__name__, tuple((walk(k), walk(v)) for k, v in o.items()))
        if isinstance(o, (set, frozenset)):
            return (type(o).__name__, tuple(sorted(repr(walk(x)) for x in o)))
        if hasattr(o, '__next__'):
            return ('iterator', object())          # cannot be read without changing it: never equal
        out = [type(o).__module__, type(o).__qualname__]
        if isinstance(o, (list, tuple)) or type(o).__name__ == 'deque':
            out.append(tuple(walk(x) for x in o))
        if getattr(o, '__dict__', None):
            out.append(walk(vars(o)))
        for c in type(o).__mro__:
            slots = c.__dict__.get('__slots__', ())
            for s in (slots,) if isinstance(slots, str) else slots:
                if hasattr(o, s):
                    out.append((s, walk(getattr(o, s))))
        if len(out) == 2:
            r = repr(o)
            out.append(r if ' at 0x' not in r else '')
        return tuple(out)

    state = {n: tuple((k, walk(v)) for k, v in m.__dict__.items() if k not in SKIP_ATTR) for n, m in sorted(mods.items())}
    files = {}
    for d, _, fs in os.walk(cwd or '.'):
        for f in fs:
            if not f.endswith('.log') and f != 'log.txt':
                with open(os.path.join(d, f), 'rb') as fp:
                    files[os.path.join(d, f)] = hashlib.sha256(fp.read()).hexdigest()
    state['<files>'], state['<env>'] = files, dict(os.environ)
    return state


def differences(a, b):
    return [k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]

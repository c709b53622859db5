"""json with symbolic numbers: the real encoder and decoder, with a symbolic number written as {"__sym__": n}"""
import itertools
import json as real

from symx import engine

NUMBER = itertools.count(10 ** 8)      # never used twice; every number takes the same space in the file


class SymJson:
    """stands in for the module `json` in the code under test"""
    JSONDecodeError = real.JSONDecodeError

    def __init__(self):
        self.table = {}

    def _enc(self, o):
        if isinstance(o, (engine.SymInt, engine.SymBool)):
            n = next(NUMBER)
            self.table[n] = o
            return {'__sym__': n}
        raise TypeError(f'Object of type {type(o).__name__} is not JSON serializable')

    def _dec(self, d):
        return self.table[d['__sym__']] if list(d) == ['__sym__'] else d

    def dumps(self, o, **k):
        return real.dumps(o, **dict(k, default=self._enc))

    def loads(self, s, **k):
        return real.loads(s, **dict(k, object_hook=self._dec))

    def dump(self, o, fp, **k):
        fp.write(self.dumps(o, **k))

    def load(self, fp, **k):
        return self.loads(fp.read(), **k)


def install(module):
    """replace json (or what was imported from it) in a module of the code under test"""
    j = SymJson()
    for name, v in list(vars(module).items()):
        if v is real or isinstance(v, SymJson):
            setattr(module, name, j)
        for f in ('dumps', 'loads', 'dump', 'load'):
            if v is getattr(real, f) or isinstance(getattr(v, '__self__', None), SymJson) and v.__name__ == f:
                setattr(module, name, getattr(j, f))
    return j

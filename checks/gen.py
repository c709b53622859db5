"""running the generators"""
import os
import tempfile

from symx import tn
from symx.harness import z3


def generate(func, *args, **kw):
    """the text the generator writes"""
    with tempfile.TemporaryDirectory(prefix='tfgen') as d:
        path = os.path.join(d, 'out')
        func(*args, path=path, **kw)
        if not os.path.isfile(path):
            raise tn.ProgramError('no file is written')
        with open(path) as f:
            return f.read()


def lex_le(s, t):
    """z3: the integer vectors s <= t lexicographically"""
    r = z3.BoolVal(True)
    for a, b in reversed(list(zip(s, t))):
        r = z3.Or(a < b, z3.And(a == b, r))
    return r


def drop_exists(ctx, saved, tag):
    """forget the query variables of one query"""
    ctx.ebounds = saved and {k: v for k, v in saved.items() if not k.endswith(tag)} or {}
    for k in [k for k in ctx.inputs if k.endswith(tag)]:
        del ctx.inputs[k]

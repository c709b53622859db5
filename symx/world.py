"""The surroundings of a process as unknowns: clock, environment variables, random numbers, host, user, process number, command
line, hashes of strings and object numbers.  Each source gets its value when it is read (`draw(source, values)`)."""
import builtins
import contextlib
import datetime
import getpass
import os
import platform
import random
import socket
import sys
import time

MOMENTS = [1709208000.25, 946684799.0, 1941111111.5]       # 2024-02-29 12:00, the last second of 1999, 2031
NAMES = ['alpha', 'b', 'Z-9']
KEEP = {'HOME', 'TMPDIR', 'TEMP', 'TMP', 'PATH', 'TF_REPO', 'XDG_CACHE_HOME', 'PYTHONHASHSEED', 'LANG', 'LC_ALL', 'LC_CTYPE', 'LANGUAGE', 'TZ'}
_real_datetime, _real_date, _real_hash, _real_id = datetime.datetime, datetime.date, builtins.hash, builtins.id


def scramble(h, how):
    """other numbers for the same things: as they are, in the opposite order, in no order"""
    return h if how == 0 else -2 - h if how == 1 else h * 0x9E3779B97F4A7C15 % (1 << 61)


class Environ(dict):
    """the values of variables are unknown: unset, a number or a word"""
    draw = inside = None

    def _value(self, key):
        if key in KEEP or not isinstance(key, str) or not self.inside():
            return dict.get(self, key)
        return self.draw(f'variable {key}', [None, '1', '0', 'text', '1000', '/tmp'])

    def get(self, key, default=None):
        v = self._value(key)
        return default if v is None else v

    def __getitem__(self, key):
        v = self._value(key)
        if v is None:
            raise KeyError(key)
        return v

    def __contains__(self, key):
        return self._value(key) is not None


@contextlib.contextmanager
def unknown(draw, modules=()):
    """draw(source, values): one of the values, the same whenever it is asked for the same source"""
    here = os.path.dirname(os.path.abspath(__file__))

    def now():
        return draw('clock', MOMENTS)

    class DateTime(_real_datetime):
        @classmethod
        def now(cls, tz=None):
            return _real_datetime.fromtimestamp(now(), tz)

        @classmethod
        def utcnow(cls):
            return _real_datetime.fromtimestamp(now(), datetime.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.now()

    class Date(_real_date):
        @classmethod
        def today(cls):
            return _real_datetime.fromtimestamp(now()).date()

    def inside(direct=False):
        """called by the modules, directly or through the library (and not by what checks them)"""
        f = sys._getframe(2)
        while f is not None:
            d = os.path.dirname(f.f_globals.get('__file__') or '')
            if d in modules:
                return True
            if direct or d in (here, os.path.join(os.path.dirname(here), 'checks')):
                if f.f_code.co_filename != __file__:
                    return False
            f = f.f_back
        return False

    def only(f, real):
        return lambda *a, **k: f(*a, **k) if inside() else real(*a, **k)

    def strings(x):
        return isinstance(x, (str, bytes)) or isinstance(x, (tuple, frozenset)) and any(map(strings, x))

    def hash_(x):
        h = _real_hash(x)
        return scramble(h, draw('hash', [0, 1, 2])) if strings(x) and inside(True) else h

    def id_(x):
        return scramble(_real_id(x), draw('id', [0, 1, 2])) if inside(True) else _real_id(x)

    seeded = []

    def rnd(f):
        def g(*a, **k):
            if not seeded:
                seeded.append(1)
                random.seed(draw('random', [1, 2, 3]))
            return f(*a, **k)
        return g

    env = Environ(os.environ)
    env.draw, env.inside = draw, inside
    T = {n: getattr(time, n) for n in ('localtime', 'gmtime', 'strftime', 'ctime', 'asctime')}
    patches = [
        (time, 'time', now), (time, 'time_ns', lambda: int(now() * 10**9)), (time, 'monotonic', now), (time, 'perf_counter', now),
        (time, 'process_time', now),
        (time, 'localtime', lambda s=None: T['localtime'](now() if s is None else s)),
        (time, 'gmtime', lambda s=None: T['gmtime'](now() if s is None else s)),
        (time, 'strftime', lambda f, t=None: T['strftime'](f, T['localtime'](now()) if t is None else t)),
        (time, 'ctime', lambda s=None: T['ctime'](now() if s is None else s)),
        (time, 'asctime', lambda t=None: T['asctime'](T['localtime'](now()) if t is None else t)),
        (datetime, 'datetime', DateTime), (datetime, 'date', Date),
        (os, 'environ', env), (os, 'getpid', lambda: draw('process', [11, 2, 77777])), (os, 'getppid', lambda: draw('process', [11, 2, 77777])),
        (os, 'cpu_count', lambda: draw('cpus', [8, 1, 2])), (os, 'getlogin', lambda: draw('user', NAMES)),
        (os, 'urandom', lambda n: bytes([draw('random', [1, 2, 3])]) * n),
        (getpass, 'getuser', lambda: draw('user', NAMES)), (socket, 'gethostname', lambda: draw('host', NAMES)),
        (platform, 'node', lambda: draw('host', NAMES)), (platform, 'system', lambda: draw('system', ['Linux', 'Darwin', 'Windows'])),
        (builtins, 'hash', hash_), (builtins, 'id', id_),
    ] + [(random, n, rnd(getattr(random, n))) for n in ('random', 'randint', 'randrange', 'shuffle', 'choice', 'choices', 'sample',
                                                        'uniform', 'getrandbits', 'gauss', 'betavariate')]
    patches = [(o, n, only(v, getattr(o, n)) if not isinstance(v, (type, dict)) and o is not builtins else v) for o, n, v in patches]
    saved = [(o, n, getattr(o, n)) for o, n, _ in patches]
    state = random.getstate()
    argv = sys.argv
    try:
        for o, n, v in patches:
            setattr(o, n, v)
        yield
    finally:
        for o, n, v in saved:
            setattr(o, n, v)
        random.setstate(state)
        sys.argv = argv

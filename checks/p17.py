"""P17: what is written depends on the request only: not on the hash seed of the process, nor on earlier requests."""
from checks.wcommon import *   # noqa
from checks.gen import *   # noqa
from checks import requests
from checks.requests import KINDS, perform, elsewhere
from symx import loader, sets, state, world

LEVEL = 'model_checking'
ASSUMPTIONS = ['the hash seed acts only through the iteration order of sets with elements that contain strings',
               'the surroundings of a process are those of symx/world.py']
FUNCS = [f'{m}.{f} and its callees' for m, f, _, _ in KINDS.values()]
SEEDS = range(12)
_cache = {}


def draw(ctx, kind, bounds, tag=''):
    """a symbolic request"""
    names, options = KINDS[kind][2:]
    numbers = [int(ctx.int(f'{tag}{x}', *bounds[x])) for x in names]
    return [kind, numbers, {o: bool(ctx.bool(f'{tag}{o}')) for o in options}]


def hash_seed(ctx, M, kind, bounds, single):
    req = draw(ctx, kind, bounds)
    what = f'{kind} {req[1]} {req[2]}'
    if not ctx.symbolic:
        out = [elsewhere([req], seed)[0] for seed in SEEDS]
        ctx.prove(all(o == out[0] for o in out), f'{what}: different files are written with different hash seeds')
        return
    M = _cache.setdefault('sets', loader.load(sets.NAMESPACE))
    key = repr(req)
    sets.current = sets.Schedule()
    if key not in _cache:
        _cache[key] = perform(M, *req)
    sched = sets.current = sets.Schedule()
    sched.active = True
    seen = {}
    if single:
        # one set, anywhere in the run, is iterated in any order
        which = ctx.int('which_set', -1, 400)

        def order(content):
            n = seen.setdefault(content, len(seen))
            return ctx.choice('order', sets.permutations(len(content))) if which == n else tuple(range(len(content)))
    else:
        # every set is iterated in the order with the same number
        def order(content):
            p = sets.permutations(len(content))
            return p[int(ctx.int('order', 0, 5)) % len(p)]
    sched.order = order
    try:
        got = perform(M, *req)
    finally:
        sets.current = sets.Schedule()
    ctx.prove(len(seen) <= 400, 'more sets than the bound')
    ctx.prove(got[:2] == _cache[key][:2], f'{what}: what is written depends on the iteration order of a set')
    ctx.reach('order')


MAXIMUM = dict(order=6, rank=2, H=6, CC=6, S=6, P=6, eT=3, T=1)


def pasts(kind):
    """the numbers of earlier requests: all 0 (refused by most generators), 1, 2 or 3; one at its maximum, the others 1 or 2"""
    names = KINDS[kind][2]
    out = []
    for v in (0, 1, 2, 3):
        out.append([min(v, 1) if x == 'T' else min(v, 2) if x == 'rank' else v for x in names])
    if len(names) > 2:
        out.pop()
    for i, x in enumerate(names):
        hi = 4 if kind == 'w_thermal_latex' else MAXIMUM[x]
        for rest in (1, 2):
            if x != 'T' and (rest == 1 or len(names) <= 2 or x == 'H'):
                out.append([hi if i == j else 1 if y == 'T' else rest for j, y in enumerate(names)])
    return [v for i, v in enumerate(out) if v not in out[:i]]


def lasts(past):
    """later requests: every kind, every number 1 or 2 (with all options off and all on); the earlier request with one number
    changed, with other options"""
    out = []
    for kind, (_, _, names, options) in KINDS.items():
        opts = [{o: v for o in options} for v in ((False, True) if options else (False,))]
        for v in (1, 2):
            out += [[kind, [1 if x in ('T', 'rank') else v for x in names], o] for o in opts]
        if kind == past[0]:
            for i, n in enumerate(past[1]):
                for m in (n - 1, 2, 1):
                    if 0 < m < n:
                        out.append([kind, [m if i == j else x for j, x in enumerate(past[1])], past[2]])
            out += [[kind, past[1], dict(past[2], **{o: not past[2][o]})] for o in options]
            out.append(list(past))
    return [r for i, r in enumerate(out) if r not in out[:i]]


def fresh_output(req):
    key = repr(req)
    if key not in _cache:
        with loader.own_place():
            _cache[key] = perform(loader.load(), *req)
    return _cache[key]


def in_one_process(ctx, past, steps):
    N = loader.load()
    for m in {k[0] for k in KINDS.values()}:
        getattr(N, m)
    before = state.snapshot(N._mods)
    got = perform(N, *past)
    changed = state.differences(before, state.snapshot(N._mods))
    _cache.setdefault(repr(past), got)
    ctx.prove(got[2], f'{past}: the supplied truncation is modified')
    ctx.prove(got[1] is None or got[0] is None, f'{past}: refused, but a file is written')
    if not changed:
        again = perform(N, *past)
        ctx.prove(again[:2] == got[:2], f'{past}: carried out twice, another text the second time')
        ctx.reach('unchanged')
        return
    todo = lasts(past)
    req = ctx.choice('next', todo)
    res = perform(N, *req)
    ctx.prove(res[2], f'{req}: the supplied truncation is modified')
    ctx.prove(res[:2] == fresh_output(req)[:2], f'{req} after {past} (changed: {", ".join(changed)}): not what a new process writes')
    if steps > 1:
        nxt = perform(N, *past)
        ctx.prove(nxt[:2] == got[:2], f'{past} after {past}, {req}: not what a new process writes')
    ctx.reach('changed')


def history(ctx, M, kind, steps=1):
    """A request leaves the state of the process as it was, so that the next one, and by induction every later one, starts as
    in a new process; or, if it changes the state, any request after it still writes what a new process writes."""
    names, options = KINDS[kind][2:]
    past = [kind, list(ctx.choice('numbers', pasts(kind))), {o: bool(ctx.bool(o)) for o in options}]
    if ctx.symbolic:
        with loader.own_place():
            in_one_process(ctx, past, steps)
        return
    req = lasts(past)[ctx.values['next']] if 'next' in ctx.values else past
    seq = elsewhere([past, req, past])
    ctx.prove(all(x[2] for x in seq), f'{past}, {req}: a supplied truncation is modified')
    ctx.prove(seq[0][1] is None or seq[0][0] is None, f'{past}: refused, but a file is written')
    ctx.prove(seq[1][:2] == elsewhere([req])[0][:2], f'{req} after {past}: not what a new process writes')
    ctx.prove(seq[2][:2] == seq[0][:2], f'{past} after {past}, {req}: not what a new process writes')


BEGIN = '\\begin{document}'
DOC = '\\documentclass{article}\n\\newcommand{\\bt}{t}\n' + BEGIN + '\nold equations\n\\end{document}\n'


OLD = ['w_latex', 'itself', 'cut', 'longer', 'first', 'middle', 'last', 'blank']       # the text to be written, changed in one place


def changed(text, i):
    while 0 < i < len(text) and text[i].isspace():
        i -= 1
    return text[:i] + ('y' if text[i:i + 1] == 'x' else 'x') + text[i + 1:]


def existing(ctx, M, kind):
    """whatever the output file held before"""
    names, options = KINDS[kind][2:]
    v = int(ctx.int('numbers', 0, 2))
    req = [kind, [min(v, 1) if x == 'T' else v for x in names], {o: bool(ctx.bool(o)) for o in options}]
    other = int(ctx.int('other', 1, 2))
    run = (lambda r: fresh_output(r)) if ctx.symbolic else (lambda r: elsewhere([r])[0])
    fresh = run(req)
    prev = run([kind, [min(other, 1) if x == 'T' else other for x in names], req[2]])[0] or ''
    old = ctx.choice('old', OLD + ['', 'x', prev, prev * 3, DOC, '\n' * 40 + 'text\n'])
    if old == 'w_latex':
        old = run(['w_latex', [other], {}])[0]
    elif old in OLD:
        t = fresh[0] or ''
        old = {'itself': t, 'cut': t[:-len(t) // 3], 'longer': t + '\n% end\n', 'first': changed(t, 0), 'last': changed(t, len(t) - 2),
               'middle': changed(t, len(t) // 2), 'blank': ' ' * len(t)}[old]
    got = fresh_output(req + [old]) if ctx.symbolic else elsewhere([req + [old]])[0]
    what = f'{req} on an existing file of {len(old)} characters'
    ctx.prove(got[1] == fresh[1], f'{what}: error {got[1]}, otherwise {fresh[1]}')
    if fresh[1] is not None:
        ctx.prove(got[0] == old, f'{what}: refused, but the file is changed')
    elif kind == 'w_thermal_latex' and BEGIN in old:
        # the document is updated: its preamble stays
        head = old[:old.index(BEGIN) + len(BEGIN) + 1]
        ctx.prove(got[0].startswith(head) and got[0][len(head):].strip() == (fresh[0] + '\\end{document}').strip(),
                  f'{what}: not the old preamble with the new equations')
    else:
        ctx.prove(got[0] == fresh[0], f'{what}: not what is written to a new file')
    ctx.reach('existing')


def place(ctx, M, kind):
    """wherever the output file lies and however it is named"""
    names, options = KINDS[kind][2:]
    v = int(ctx.int('numbers', 0, 2))
    req = [kind, [min(v, 1) if x == 'T' else v for x in names], {o: bool(ctx.bool(o)) for o in options}]
    where = ctx.choice('place', requests.PLACES)
    old = ctx.choice('old', [None, 'x'])
    run = (lambda r: fresh_output(r)) if ctx.symbolic else (lambda r: elsewhere([r])[0])
    fresh, got = run(req), run(req + [old, where])
    what = f'{req} written to {where}{"" if old is None else ", which exists"}'
    ctx.prove(got[1] == fresh[1], f'{what}: error {got[1]}, otherwise {fresh[1]}')
    ctx.prove(got[0] == (fresh[0] if fresh[1] is None else old), f'{what}: not the text written elsewhere')
    ctx.prove(not got[3], f'{what}: writes {got[3]} as well')
    ctx.reach('place')


def surroundings(ctx, M, kind):
    """whatever the clock, the environment variables, the random numbers, the host, the user, hashes and object numbers are"""
    names, options = KINDS[kind][2:]
    req = [kind, list(ctx.choice('numbers', pasts(kind) + ([[1, 3, 1, 3]] if kind == 'full_cc_latex' else []))),
           {o: bool(ctx.bool(o)) for o in options}]
    what = f'{req}: what is written depends on '
    if not ctx.symbolic:
        drawn = {k[6:]: i for k, i in ctx.values.items() if k.startswith('world ')}
        a, b = elsewhere([req], values={})[0], elsewhere([req], values=drawn)[0]
        ctx.prove(a[:2] == b[:2], what + ', '.join(sorted(drawn)))
        return
    drawn = {}

    def draw(source, values):
        if source not in drawn:
            drawn[source] = int(ctx.int('world ' + source, 0, len(values) - 1))
        return values[drawn[source]]
    if ('plain', repr(req)) not in _cache:
        with loader.own_place(), world.unknown(lambda source, values: values[0], {loader.SRC}):
            _cache['plain', repr(req)] = perform(loader.load(), *req)
    with loader.own_place(), world.unknown(draw, {loader.SRC}):
        got = perform(loader.load(), *req)
    ctx.prove(got[:2] == _cache['plain', repr(req)][:2], what + ', '.join(sorted(drawn)))
    ctx.reach('surroundings')


def harnesses(tier):
    quick = tier == 'quick'
    out = []

    def order(name, kind, single=False, **b):
        out.append(Harness(f'order_{name}', hash_seed, FUNCS,
                           f'{kind}: {b}, every option; ' + ('one set of the run in every order (all orders of up to 3 elements)' if single
                                                             else 'all sets of the run in six orders'),
                           params=dict(kind=kind, bounds=dict(b, T=(1, 1)), single=single)))
    one = (1, 1)
    for k in ('w_latex', 'w_thermal_latex', 'w_python', 'dt_python'):
        order(k, k, order=(1, 4) if 'thermal' in k else (1, 6))
    order('residual_python', 'residual_python', order=(0, 6), rank=(0, 2))
    order('full_cc_latex_small', 'full_cc_latex', True, H=(1, 2), CC=(1, 2), S=(1, 2), P=(1, 2))
    order('full_cc_latex_large', 'full_cc_latex', H=(3, 6), CC=one, S=(3, 6), P=one)
    order('full_cc_latex_mixed', 'full_cc_latex', H=(2, 4), CC=(2, 2), S=(3, 3), P=(1, 2))
    order('full_cc_python_small', 'full_cc_python', True, H=(1, 3), CC=(1, 3), S=(1, 3), P=(1, 2))
    order('full_cc_python_large', 'full_cc_python', H=(4, 5), CC=(2, 2), S=(3, 4), P=(1, 2))
    order('z_t_latex', 'z_t_latex', True, H=(1, 4), CC=(1, 4), P=(1, 2))
    order('eT_z_latex', 'eT_z_latex', H=(1, 4), CC=(1, 3), eT=(1, 3), P=(1, 3))
    order('eT_z_python', 'eT_z_python', H=(1, 4), CC=(1, 3), eT=(1, 3), P=(1, 3))
    for kind in KINDS:
        out.append(Harness(f'history_{kind}', history, FUNCS,
                           f'{kind} with numbers {pasts(kind)} and every option leaves the module-level state unchanged (histories of '
                           'any length of such requests), or else every later request of any kind (numbers 1..2, or one number '
                           'changed) gives what a new process gives',
                           params=dict(kind=kind, steps=1 if quick else 2)))
        out.append(Harness(f'existing_{kind}', existing, FUNCS, f'{kind}, numbers 0..2, every option; fourteen old contents of the file',
                           params=dict(kind=kind)))
        out.append(Harness(f'place_{kind}', place, FUNCS, f'{kind}, numbers 0..2, every option; eight names of the file, new or existing',
                           params=dict(kind=kind)))
        out.append(Harness(f'surroundings_{kind}', surroundings, FUNCS, f'{kind}, numbers {pasts(kind)}, every option; clock, environment '
                           'variables, random numbers, host, user, hashes of strings, object numbers: three or four values each, when read',
                           params=dict(kind=kind)))
    slow = ('thermal', 'order_eT_z_python', 'full_cc', 'eT')
    return sorted(out, key=lambda h: not any(x in h.name for x in slow))

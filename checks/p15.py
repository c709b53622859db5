"""P15: a saved truncation file loads back as the same truncation; files that are no valid truncation are refused."""
import json
import os
import pathlib
import tempfile

from checks.wcommon import *   # noqa
from checks.gen import *   # noqa
from checks import symjson
from checks.p14 import KINDS, LIMIT, WIDE, refused, same_dict, number

LEVEL = 'model_checking'
ASSUMPTIONS = ['json, open and the file system behave as documented (the real json encoder and decoder run; a symbolic number is '
               'carried through them as an opaque value)']
NAMES = dict(H='maximum_hamiltonian_rank', CC='maximum_coupled_cluster_rank', S='s_taylor_max_order', P='omega_max_order',
             T='maximum_T_rank', eT='eT_taylor_max_order')
FUNCS = ['truncations.' + f for f in ('save_trunc_to_JSON', '_save_to_JSON', 'load_trunc_from_JSON', '_load_from_JSON',
                                      '_verify_zhz_truncations', '_verify_fcc_truncations', '_verify_eT_z_t_truncations')] + [
    'truncation_keys.TruncationsKeys']


def setup(ctx, M):
    if ctx.symbolic:
        ctx.tokens = True
        return symjson.install(M.truncations)
    return json


def valid(ctx, name, x, few):
    """a number within its range (few: those tried if the numbers have to be concrete)"""
    if ctx.symbolic and ctx.eager:
        return ctx.int(name, 1, LIMIT[x], only=[v for v in few if v <= LIMIT[x]] or [1])
    return ctx.int(name, 1, LIMIT[x])


def saved_and_loaded(ctx, M, js, kind, path, trunc):
    k, keys, before = M.truncation_keys.TruncationsKeys, KINDS[kind]['keys'], dict(trunc)
    err = refused(lambda: M.truncations.save_trunc_to_JSON(path, trunc))
    ctx.prove(err is None, f'{kind}: a valid truncation cannot be saved ({err})')
    ctx.prove(same_dict(trunc, before), f'{kind}: saving modifies the truncation')
    try:
        with open(path) as f:
            raw = js.loads(f.read())
    except (ValueError, OSError) as e:
        ctx.fail(f'{kind}: the file is no JSON document: {type(e).__name__}')
        return
    ctx.prove(isinstance(raw, dict) and sorted(raw) == sorted(NAMES[x] for x in keys), f'{kind}: keys in the file: {list(raw)}')
    ctx.prove(AND([raw[NAMES[x]] == trunc[getattr(k, x)] for x in keys]), f'{kind}: another number is stored')
    got = []
    err = refused(lambda: got.append(M.truncations.load_trunc_from_JSON(path)))
    if err is not None:
        ctx.fail(f'{kind}: what was saved is refused ({err})')
        return
    back = got[0]
    ctx.prove(isinstance(back, dict) and set(back) == set(trunc), f'{kind}: keys after loading: {list(back)}')
    ctx.prove(AND([back[x] == trunc[x] for x in trunc]), f'{kind}: another number is loaded than was saved')
    return back


def loaded(ctx, M, path):
    got = []
    err = refused(lambda: got.append(M.truncations.load_trunc_from_JSON(path)))
    ctx.prove(err is None, f'a valid file is refused ({err})')
    ctx.prove(isinstance(got[0], dict), f'{type(got[0]).__name__} is returned')
    return got[0]


def history(ctx, M, first, kind):
    """other truncations were saved and loaded before, to the same file and to another one"""
    js = setup(ctx, M)
    k = M.truncation_keys.TruncationsKeys
    one = {getattr(k, x): valid(ctx, f'{x}_before', x, (1, LIMIT[x]) if x in 'H CC eT' else (2,)) for x in KINDS[first]['keys']}
    two = {getattr(k, x): valid(ctx, x, x, (1, LIMIT[x]) if x in 'H CC eT' else (3,)) for x in KINDS[kind]['keys']}
    bad = ctx.bool('bad_file_before')
    with tempfile.TemporaryDirectory(prefix='tfgen') as d:
        path, other = os.path.join(d, 't.json'), os.path.join(d, 'u.json')
        if bad:
            with open(path, 'w') as f:
                f.write(js.dumps({NAMES['H']: 0}))
            ctx.prove(refused(lambda: M.truncations.load_trunc_from_JSON(path)) is not None, 'accepted although it is no truncation')
        back = saved_and_loaded(ctx, M, js, first, path, one)
        if back is None:
            return
        back.clear()       # what the caller does with it is no concern of later loads
        again = loaded(ctx, M, path)
        ctx.prove(set(again) == set(one) and AND([again[x] == one[x] for x in one]), f'{first}: loading twice gives something else')
        saved_and_loaded(ctx, M, js, kind, other, two)
        saved_and_loaded(ctx, M, js, kind, path, two)
        # written by someone else
        with open(path, 'w') as f:
            f.write(js.dumps({NAMES[x]: one[getattr(k, x)] for x in KINDS[first]['keys']}))
        again = loaded(ctx, M, path)
        ctx.prove(set(again) == set(one) and AND([again[x] == one[x] for x in one]), f'{first}: not the numbers of the file')
    ctx.reach('history')


def roundtrip(ctx, M, kind):
    js = setup(ctx, M)
    k = M.truncation_keys.TruncationsKeys
    keys = KINDS[kind]['keys']
    if ctx.choice('reversed_order', [False, True]):
        keys = tuple(reversed(keys))
    trunc = {getattr(k, x): valid(ctx, x, x, (1, 2, LIMIT[x])) for x in keys}
    with tempfile.TemporaryDirectory(prefix='tfgen') as d:
        path = os.path.join(d, 't.json')
        if ctx.choice('overwrite', [False, True]):
            with open(path, 'w') as f:
                f.write('previous contents ' * 100)
        saved_and_loaded(ctx, M, js, kind, path, trunc)
        ctx.prove(os.listdir(d) == ['t.json'], f'{kind}: another file is written')
        # however the file is named
        name = ctx.choice('name', ['t', 't.json', './t.txt', 'two words.v2', 'sub/t', 'Path:t.json', 'Path:sub/t'])
        os.mkdir(os.path.join(d, 'sub'))
        cwd = os.getcwd()
        os.chdir(d)
        try:
            saved_and_loaded(ctx, M, js, kind, pathlib.Path(name[5:]) if name.startswith('Path:') else name, trunc)
            there = sorted({'t.json', os.path.normpath(name.replace('Path:', ''))})
            ctx.prove(sorted(os.path.relpath(os.path.join(a, x)) for a, _, b in os.walk('.') for x in b) == there,
                      f'{kind}: another file is written for {name}')
        finally:
            os.chdir(cwd)
    ctx.reach('round trip')


def load(ctx, M, present):
    """files with every subset of the keys (`present`: which of S, T, eT, an unknown key)"""
    js = setup(ctx, M)
    k = M.truncation_keys.TruncationsKeys
    has = dict(present)
    for x in ('H', 'CC', 'P'):
        has[x] = bool(ctx.bool(f'has_{x}'))
    unknown = has.pop('?')
    content, ok = {}, []
    for x in ('P', 'H', 'eT', 'S', 'T', 'CC'):
        if has[x]:
            v = content[NAMES[x]] = number(ctx, x)
            ok += [v >= 1, v <= LIMIT[x]]
    ok.append(not unknown and any({x for x in has if has[x]} == set(i['keys']) for i in KINDS.values()))
    if unknown:
        content['bogus'] = 1
    layout, end = ctx.choice('layout', [({}, ''), (dict(indent=4), '\n'), (dict(separators=(',', ':')), ' '), (dict(sort_keys=True), '\r\n')])
    with tempfile.TemporaryDirectory(prefix='tfgen') as d:
        path = os.path.join(d, 't.json')
        with open(path, 'w') as f:
            f.write(js.dumps(content, **layout) + end)
        got = []
        err = refused(lambda: got.append(M.truncations.load_trunc_from_JSON(path)))
        what = f'file with {sorted(content)}'
        if err:
            ctx.prove(NOT(AND(ok)), f'{what}: a valid truncation is refused ({err})')
        else:
            ctx.prove(AND(ok), f'{what}: accepted although it is no valid truncation')
            got = got[0]
            want = {getattr(k, x): content[NAMES[x]] for x in has if has[x]}
            ctx.prove(isinstance(got, dict) and set(got) == set(want), f'{what}: keys after loading: {got and list(got)}')
            ctx.prove(AND([got[x] == want[x] for x in want]), f'{what}: another number is loaded than the file holds')
    ctx.reach('loaded')


def malformed(ctx, M, kind):
    setup(ctx, M)
    keys = KINDS[kind]['keys']
    how = ctx.choice('how', ['not a number', 'not an object', 'not json', 'empty', 'truncated', 'nested'])
    good = {NAMES[x]: 1 for x in keys}
    if how == 'not a number':
        good[NAMES[ctx.choice('which', list(keys))]] = ctx.choice('value', [None, '1', '3', ' 2', [1], {}, ''])
        text = json.dumps(good)
    elif how == 'not an object':
        text = json.dumps(ctx.choice('other', [list(good), list(good.values()), 1, 'x', None, [good]]))
    elif how == 'truncated':
        full = json.dumps(good)
        text = full[:ctx.int('length', 0, len(full) - 1)]
    else:
        text = {'not json': 'H=1', 'empty': '', 'nested': json.dumps({'truncations': good})}[how]
    with tempfile.TemporaryDirectory(prefix='tfgen') as d:
        path = os.path.join(d, 't.json')
        with open(path, 'w') as f:
            f.write(text)
        err = refused(lambda: M.truncations.load_trunc_from_JSON(path))
        ctx.prove(err is not None, f'accepted although it is no truncation file: {text!r}')
    ctx.reach('refused')


def harnesses(tier):
    out = [Harness(f'roundtrip_{kind}', roundtrip, FUNCS, 'every valid value of every number, two key orders, new or existing file, eight file names',
                   params=dict(kind=kind)) for kind in KINDS]
    out += [Harness(f'malformed_{kind}', malformed, FUNCS, 'values that are no numbers, files that are no JSON object, every '
                    'proper prefix of a valid file', params=dict(kind=kind)) for kind in KINDS]
    out += [Harness(f'history_{a}_{b}', history, FUNCS, f'a {a} truncation saved and loaded before a {b} truncation, same and other '
                    'file, every valid value', params=dict(first=a, kind=b)) for a in KINDS for b in KINDS]
    for p in it.product((False, True), repeat=4):
        present = dict(zip(('S', 'T', 'eT', '?'), p))
        name = '_'.join(x for x in present if present[x]).replace('?', 'unknown') or 'base'
        out.append(Harness(f'load_{name}', load, FUNCS, f'files with every subset of H, CC, P and with '
                           f'{", ".join(x for x in present if present[x]) or "nothing else"}; four layouts; every value in -{WIDE}..{WIDE}',
                           params=dict(present=present)))
    return out

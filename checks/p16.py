"""P16: the command line runs exactly the requested generator, with the requested truncation, options and file name."""
import json
import logging
import os
import subprocess
import sys
import tempfile

from checks.wcommon import *   # noqa
from checks.gen import *   # noqa
from checks import requests, symjson
from symx import loader
from checks.p14 import KINDS, LIMIT, GENERATORS
from checks.p15 import NAMES

LEVEL = 'model_checking'
ASSUMPTIONS = ['argparse behaves as documented (the real one runs; a symbolic number is carried through it as an opaque value)',
               'the generators are replaced by stand-ins that record how they are called (what they write is decided by the other '
               'properties), except in end_to_end']
FUNCS = ['driver.py as the main program', 'driver.prepare_parsed_arguments', 'driver._make_trunc'] + [
    '_glue_.' + f for f in ('_generate_python', '_generate_latex', '_gen_wrapper_full_cc_python', '_gen_wrapper_eT_zhz_python',
                            '_gen_wrapper_full_cc_latex', '_gen_wrapper_z_t_latex', '_gen_wrapper_eT_z_t_latex')] + [
    'truncations.save_trunc_to_JSON', 'truncations.load_trunc_from_JSON']
KEEP = {}
ANSATZ = {'fcc': 'full cc', 'zhz': 'z_t ansatz', 'eTz': 'eT_z_t ansatz'}


def int_type(table):
    """`int` for the driver: recognises the tokens that stand for symbolic numbers"""
    class Meta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, (int, engine.SymInt))

    class Int(int, metaclass=Meta):
        def __new__(cls, x=0, *a):
            return table[x] if isinstance(x, str) and x in table else x if isinstance(x, engine.SymInt) else int(x, *a)
    Int.__name__ = 'int'
    return Int


def number(ctx, x):
    few = ctx.symbolic and ctx.eager      # fallback for code the proxies cannot follow
    return ctx.int(x, 1, LIMIT[x], only={1, min(2 + 'H CC S P eT'.split().index(x), LIMIT[x])} if few and x != 'T' else None)


def record(M, calls):
    saved = []
    for name, (_, module, func) in GENERATORS.items():
        mod = getattr(M, module)
        saved.append((mod, func, getattr(mod, func)))
        setattr(mod, func, lambda truncations, name=name, **kw: calls.append((name, dict(truncations), kw)))
    front_end_fresh(M)
    return saved


def front_end_fresh(M):
    """everything but the generators and what they import is executed again when it is next used"""
    if id(M) not in KEEP:
        KEEP[id(M)] = {'truncations', 'truncation_keys'} | M._loaded() - {'_glue_', 'driver'}
        M.truncations, M.truncation_keys
    M._fresh(*(M._loaded() - KEEP[id(M)]))


def restore(M, saved):
    for mod, func, f in saved:
        setattr(mod, func, f)
    front_end_fresh(M)


def run(ctx, M, argv, table, calls):
    """(error or None) of one run of the driver"""
    saved = record(M, calls)
    old = sys.argv, sys.stderr
    sys.argv = ['driver.py'] + argv
    try:
        with open(os.devnull, 'w') as sys.stderr:
            M._main('driver', {'int': int_type(table)})
    except (engine.Counterexample, engine.Inconclusive):
        raise
    except (Exception, SystemExit) as e:
        return type(e).__name__
    finally:
        sys.argv, sys.stderr = old
        restore(M, saved)
    return None


def expected_name(gen, es, rf, lhs, values):
    gs, f = '' if es else 'ground_state_', '_no_f_terms' if rf else ''
    if gen == 'eT_z_python':
        return (f"./eT_zhz_eqs_{'LHS' if lhs else 'RHS'}_H({values['H']})_P({values['P']})_T({values['T']})"
                f"_exp({values['eT']})_Z({values['CC']}).py")
    if gen == 'full_cc_python':
        return f"./{gs}full_cc_{'special_LHS_equations' if lhs else 'equations'}{f}.py"
    side = 'special_LHS_terms' if lhs else 'symmetric_equations'
    return f"./{gs}{gen[:-6].replace('eT_z', 'eT_z_t')}_{side}{f}.tex"


def check_call(ctx, M, what, calls, gen, values, es, rf, lhs):
    k = M.truncation_keys.TruncationsKeys
    ctx.prove([c[0] for c in calls] == [gen], f'{what}: generators run: {[c[0] for c in calls]}, expected {gen}')
    _, trunc, kw = calls[0]
    ctx.prove(set(trunc) == {getattr(k, x) for x in values}, f'{what}: truncation keys {list(trunc)}')
    ctx.prove(AND([trunc[getattr(k, x)] == values[x] for x in values]), f'{what}: the truncation is not the requested one')
    ctx.prove(bool(kw['only_ground_state']) == (not es), f'{what}: only_ground_state={kw["only_ground_state"]}')
    if gen.endswith('latex'):
        ctx.prove(bool(kw['remove_f_terms']) == rf, f'{what}: remove_f_terms={kw["remove_f_terms"]}')
    if gen.startswith('eT'):
        ctx.prove(kw['lhs_rhs'] == ('LHS' if lhs else 'RHS'), f'{what}: lhs_rhs={kw["lhs_rhs"]}')
    want = expected_name(gen, es, rf, lhs, values)
    ctx.prove(os.path.normpath(kw['path']) == os.path.normpath(want), f'{what}: written to {kw["path"]}, expected {want}')


def body(ctx, M, source, kind, lengths):
    js = json
    if ctx.symbolic:
        ctx.tokens = True
        js = symjson.install(M.truncations)
    ansatz = ctx.choice('ansatz', [None, 'full cc', 'z_t ansatz', 'eT_z_t ansatz', 'another'])
    es, rf, code, lhs = (bool(ctx.bool(x)) for x in ('excited_state', 'remove_f', 'code', 'lhs'))
    long = ctx.choice('long_options', [False, True]) if ansatz is None else es
    # an earlier run left its files
    again = source == 'numbers' and bool(kind) and bool(ctx.bool('earlier_run'))
    argv, table, values = [], {}, {}
    given = 'sub dir/truncation' if rf else './given.txt' if lhs else 'given.json'
    if again:
        argv += ['--log_path' if long else '-l', 'log.txt']
    elif long and code:
        argv.append('-s')
    if ansatz:
        argv += ['--ansatz' if long else '-a', ansatz]
    if es:
        argv.append('--excited_state' if long else '-es')
    if rf:
        argv += ['--remove_f_terms' if long else '-rf', 'True']
    if code:
        argv.append('--code' if long else '-c')
    if lhs:
        argv.append('-lhs')
    if kind:
        values = {x: number(ctx, x) for x in KINDS[kind]['keys']}
        numbers = list(values.values())
    else:
        numbers = [ctx.int(f't{i}', 1, 6, only=(1, 6) if ctx.symbolic and ctx.eager and i < 2 else (1,) if ctx.symbolic and ctx.eager else None) for i in range(ctx.choice('count', list(lengths)))]
    start = os.getcwd()
    with tempfile.TemporaryDirectory(prefix='tfcli') as d:
        work = os.path.join(d, 'work')
        os.mkdir(work)
        os.chdir(work)
        try:
            if again:
                with open(os.path.join(d, 'truncs.json'), 'w') as f:
                    f.write(json.dumps({x: 1 for x in NAMES.values()}) + ' ' * 99)
            if source in ('file', 'both'):
                os.makedirs('sub dir', exist_ok=True)
                with open(given, 'w') as f:
                    f.write(js.dumps({NAMES[x]: v for x, v in values.items()}))
            if source in ('file', 'both', 'no file'):
                argv += ['--path' if long else '-p', given]
            if source in ('numbers', 'both'):
                for i, v in enumerate(numbers):
                    table[f'@{i}'] = v
                typed = ['-t'] + [f'@{i}' if ctx.symbolic else str(v) for i, v in enumerate(numbers)]
                argv = typed + argv if again else argv + typed
            calls = []
            err = run(ctx, M, argv, table, calls)
            what = ' '.join(argv)
            requested = ansatz or ANSATZ.get(kind)
            gen = {v: k for k, v in ANSATZ.items()}.get(requested)
            fine = source in ('numbers', 'file') and kind and gen == kind and not (code and kind == 'zhz')
            if not fine:
                ctx.prove(err is not None, f'{what}: not refused')
                ctx.prove(not calls, f'{what}: refused, but {[c[0] for c in calls]} is run')
            else:
                ctx.prove(err is None, f'{what}: refused ({err})')
                name = {'fcc': 'full_cc', 'zhz': 'z_t', 'eTz': 'eT_z'}[kind] + ('_python' if code else '_latex')
                check_call(ctx, M, what, calls, name, values, es, rf, lhs)
                if source == 'numbers':
                    k = M.truncation_keys.TruncationsKeys
                    back = M.truncations.load_trunc_from_JSON('../truncs.json')
                    ctx.prove(set(back) == {getattr(k, x) for x in values} and AND([back[getattr(k, x)] == values[x] for x in values]),
                              f'{what}: the saved truncation file holds another truncation')
        finally:
            os.chdir(start)
    ctx.reach('run')


def defaults(ctx, M):
    """the generators' front end without options: ground-state full-CC equations"""
    if ctx.symbolic:
        ctx.tokens = True
    k = M.truncation_keys.TruncationsKeys
    values = {x: number(ctx, x) for x in KINDS['fcc']['keys']}
    python = ctx.choice('python', [False, True])
    calls = []
    saved = record(M, calls)
    try:
        g = M._glue_
        (g._generate_python if python else g._generate_latex)({getattr(k, x): v for x, v in values.items()})
    finally:
        restore(M, saved)
    check_call(ctx, M, 'no options', calls, 'full_cc_python' if python else 'full_cc_latex', values, False, False, False)
    ctx.reach('run')


def command(ctx, argv):
    """(failed?, files it leaves) of one run of the driver with the generators as they are, in `work` of an own directory"""
    with loader.own_place() as d:
        work = os.path.join(d, 'work')
        os.mkdir(work)
        os.chdir(work)
        if ctx.symbolic:
            root, cls = logging.getLogger(), logging.getLoggerClass()
            saved = root.handlers[:], root.level, sys.argv, sys.stderr
            root.handlers, sys.argv = [], ['driver.py'] + argv
            try:
                with open(os.devnull, 'w') as sys.stderr, loader.quiet():
                    loader.load(real_log=True)._main('driver')
                failed = False
            except (engine.Counterexample, engine.Inconclusive):
                raise
            except (Exception, SystemExit) as e:
                failed = not (isinstance(e, SystemExit) and e.code in (0, None))
            finally:
                for h in root.handlers:
                    h.close()
                root.handlers, root.level, sys.argv, sys.stderr = saved
                logging.setLoggerClass(cls)
        else:
            failed = subprocess.run(['/opt/venv/bin/python', os.path.join(loader.SRC, 'driver.py')] + argv, capture_output=True,
                                    env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')).returncode != 0
        files = {}
        for where, _, names in os.walk(d):
            for x in names:
                name = os.path.relpath(os.path.join(where, x), work)
                if '__pycache__' not in name:
                    with open(os.path.join(where, x)) as f:
                        files[name] = f.read()
        return failed, files


def end_to_end(ctx, M, kind):
    """what a run leaves: the document, as the generator itself writes it, the truncation and the log, nothing else"""
    es, rf, code, lhs, stdlog = (bool(ctx.bool(x)) for x in ('excited_state', 'remove_f', 'code', 'lhs', 'stdlog'))
    log = ctx.choice('log', [None, '-l', '--log_path'])
    v = int(ctx.int('numbers', 1, 2))
    values = {x: 1 if x == 'T' else v for x in KINDS[kind]['keys']}
    argv = ['-t'] + [str(x) for x in values.values()]
    argv += ['-es'] * es + ['-rf', 'True'] * rf + ['-c'] * code + ['-lhs'] * lhs + ['-s'] * stdlog
    if log:
        argv += [log, 'the log.txt']
    what = ' '.join(argv)
    failed, files = command(ctx, argv)
    req = [{'fcc': 'full_cc', 'zhz': 'z_t', 'eTz': 'eT_z'}[kind] + ('_python' if code else '_latex'),
           [values[x] for x in ('H', 'CC', 'S', 'T', 'eT', 'P') if x in values], dict(excited=es, no_f=rf, lhs=lhs)]
    if req[0] == 'z_t_python':
        text, err = None, 'NotImplementedError'
    elif ctx.symbolic:
        with loader.own_place():
            text, err = requests.perform(M, *req)[:2]
    else:
        text, err = requests.elsewhere([req])[0][:2]
    ctx.prove(failed == (err is not None), f'{what}: {"fails" if failed else "succeeds"}, but the generator {"raises " + err if err else "accepts the request"}')
    name = os.path.normpath(expected_name(req[0], es, rf, lhs, values))
    logs = [] if stdlog else ['the log.txt' if log else 'default_logging_file.txt']
    left = {x: t for x, t in files.items() if x not in logs and x != '../truncs.json'}
    ctx.prove(all(x in files for x in logs), f'{what}: no log in {logs}')
    ctx.prove('../truncs.json' in files, f'{what}: the truncation is not saved')
    ctx.prove(list(left) == ([] if err else [name]), f'{what}: leaves {sorted(left)}, expected {[] if err else [name]}')
    ctx.prove(err is not None or left[name] == text, f'{what}: {name} is not what the generator writes when it is called directly')
    ctx.reach('run')


def harnesses(tier):
    out = []
    for kind in KINDS:
        out.append(Harness(f'end_to_end_{kind}', end_to_end, FUNCS + ['log_conf.get_filebased_logger', 'log_conf.get_stdout_logger'],
                           'numbers 1 or 2, every combination of options; the generators as they are, every file the run leaves',
                           params=dict(kind=kind)))

    def add(name, bounds, **params):
        out.append(Harness(name, body, FUNCS, bounds + '; every combination of options, four ansatz names or none',
                           params=dict(dict(kind=None, lengths=()), **params)))
    for kind in KINDS:
        add(f'numbers_{kind}', f'{len(KINDS[kind]["keys"])} numbers within their ranges on the command line', source='numbers', kind=kind)
        add(f'file_{kind}', f'a truncation file of type {kind} with every valid number', source='file', kind=kind)
    add('both', 'numbers and a file', source='both', kind='fcc')
    add('count', 'one, two, six or seven numbers', source='numbers', lengths=(1, 2, 6, 7))
    add('nothing', 'neither numbers nor a file', source='nothing', lengths=(0,))
    add('no_file', 'a file that does not exist', source='no file', lengths=(0,))
    out.append(Harness('defaults', defaults, FUNCS, 'front end called without options, every valid truncation'))
    return out

"""The requests a user can make, as data: used for histories and for runs in separate processes.

As a script (on the repository's interpreter): reads a JSON list of requests, carries them out one after the other in this
process and prints the text each one writes.
"""
import json
import os
import pathlib
import subprocess
import sys

if __name__ == '__main__':
    sys.path.pop(0)
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import loader, world     # noqa: E402

LATEX, CODE = ('only_ground_state', 'remove_f_terms'), ('only_ground_state',)
KINDS = {
    # name: (module, function, numbers, options)
    'w_latex': ('latex_w_equations', 'ground_state_w_equations_latex', ['order'], ()),
    'w_thermal_latex': ('latex_w_equations', 'excited_state_w_equations_latex', ['order'], ()),
    'w_python': ('code_w_equations', 'generate_w_operator_equations_file', ['order'], ()),
    'dt_python': ('code_dt_equations', 'generate_dt_amplitude_equations_file', ['order'], ()),
    'residual_python': ('code_residual_equations', 'generate_residual_equations_file', ['order', 'rank'], ()),
    'full_cc_latex': ('latex_full_cc', 'generate_full_cc_latex', ['H', 'CC', 'S', 'P'], ('excited', 'no_f')),
    'full_cc_python': ('code_full_cc', 'generate_full_cc_python', ['H', 'CC', 'S', 'P'], ()),
    'z_t_latex': ('latex_zhz', 'generate_z_t_symmetric_latex', ['H', 'CC', 'P'], ('no_f',)),
    'eT_z_latex': ('latex_eT_zhz', 'generate_eT_z_t_symmetric_latex', ['H', 'CC', 'T', 'eT', 'P'], ('no_f', 'lhs')),
    'eT_z_python': ('code_eT_zhz', 'generate_eT_zhz_python', ['H', 'CC', 'T', 'eT', 'P'], ('lhs',)),
}


PLACES = ['out.tex', 'out', './out.py', 'files/out.txt', 'files/two words.equations.v2', 'files/caf\u00e9', 'Path:files/out', 'Path:out.tex']


def tree():
    """the files below the working directory, but for logs"""
    return sorted(os.path.relpath(os.path.join(d, x)) for d, _, names in os.walk('.') for x in names
                  if not (d == '.' and x.endswith('.txt')) and not d.endswith('__pycache__'))


def perform(M, kind, numbers, options=None, old=None, place=None):
    """(text or None, error or None, whether the arguments came back unchanged[, other files]); old: what the output file held
    before; place: the name the output file is given (relative to the working directory; `Path:`: not as a string)"""
    module, func, names, _ = KINDS[kind]
    f = getattr(getattr(M, module), func)
    options = options or {}
    # one directory for all requests: what a request leaves there is found by the next one
    d = os.path.join(os.getcwd(), 'files')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, 'out')
    if place is not None:
        path = pathlib.Path(place[5:]) if place.startswith('Path:') else place
        there = tree()
    if old is not None:
        with open(path, 'w') as fp:
            fp.write(old)
    args, kw, before = numbers, {}, None
    if names[0] == 'H':
        k = M.truncation_keys.TruncationsKeys
        args = [{getattr(k, x): v for x, v in zip(names, numbers)}]
        before = dict(args[0])
        kw = dict(only_ground_state=not options.get('excited', False), remove_f_terms=options.get('no_f', False),
                  lhs_rhs='LHS' if options.get('lhs', False) else 'RHS')
    err = None
    try:
        f(*args, path=path, **kw)
    except Exception as e:
        if type(e).__name__ in ('Counterexample', 'Inconclusive'):
            raise
        err = type(e).__name__
    same = before is None or (list(before) == list(args[0]) and all(bool(args[0][x] == before[x]) for x in before))
    text = None
    if os.path.exists(path):
        with open(path) as fp:
            text = fp.read()
        os.remove(path)
    if place is not None:
        return text, err, same, [x for x in tree() if x not in there]
    return text, err, same


def elsewhere(requests, seed='0', values=None):
    """carry the requests out in a new process of the repository's interpreter; values: what the surroundings are (symx/world.py)"""
    script = os.path.abspath(__file__)
    with loader.own_place():
        env = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONDONTWRITEBYTECODE='1')
        env.pop('PYTHONPATH', None)
        if values is not None:
            env['VERIF_WORLD'] = json.dumps(values)
        p = subprocess.run(['/opt/venv/bin/python', script], input=json.dumps(requests), capture_output=True, text=True, env=env)
    line = [x for x in p.stdout.splitlines() if x.startswith('OUT ')]
    if not line:
        raise RuntimeError(f'request process failed: {p.stderr[-500:]}')
    return [tuple(x) for x in json.loads(line[0][4:])]


def main():
    values = json.loads(os.environ.pop('VERIF_WORLD', 'null'))
    M = loader.plain()
    requests = json.loads(sys.stdin.read())
    with loader.quiet():
        if values is None:
            out = [perform(M, *r) for r in requests]
        else:
            with world.unknown(lambda source, vals: vals[values.get(source, 0)], {loader.SRC}):
                out = [perform(M, *r) for r in requests]
    print('OUT ' + json.dumps(out))


if __name__ == '__main__':
    main()

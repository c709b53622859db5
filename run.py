#!/usr/bin/env python3
"""Run the check of one property:  run.py P01 [--tier quick|thorough]
   Replay a counterexample:        run.py --replay FILE
"""
import argparse
import atexit
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection as mpcon
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO_PY = '/opt/venv/bin/python'


def known_findings(pid):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return {}
    return {f['signature']: f for f in json.load(open(p))['findings'] if f['property'] == pid}


def load_check(pid):
    return importlib.import_module(f'checks.{pid.lower()}')


# ------------------------------------------------------------------ workers
def worker(job):
    from symx import loader
    try:
        return job[2], run_harness(job)
    finally:
        loader.remove_scratch()


def child(conn, job):
    try:
        r = worker(job)[1]
    except BaseException:
        r = no_result(job, 'harness error: ' + traceback.format_exc()[-1500:])
    conn.send(r)
    conn.close()


def no_result(job, error):
    from symx.engine import Stats
    return dict(name=load_check(job[0]).harnesses(job[1])[job[2]].name, violations=[], error=error, known={}, programs=0,
                samples=[], wall=0, stats=Stats().as_dict())


def run_harness(job):
    pid, tier, idx, known, deadline, eager = job
    from symx import engine, loader
    mod = load_check(pid)
    h = mod.harnesses(tier)[idx]
    loader.scratch()
    M = loader.load()
    stats = engine.Stats()
    t0 = time.time()
    out = dict(name=h.name, violations=[], known=[], error=None, notes=[])
    engine.Ctx.known_sigs = set(known)
    engine.Ctx.known_hits = {}
    engine.Ctx.programs = 0
    def late(*_):
        raise engine.Inconclusive('a single path ran out of time')
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, max(1, deadline - time.time() + 20))
    try:
        with loader.quiet():
            engine.explore(lambda ctx: h.run(ctx, M), stats, deadline=deadline, eager=eager)
    except engine.Counterexample as c:
        out['violations'].append(dict(label=c.label, inputs=c.inputs, detail=c.detail))
    except engine.Inconclusive as e:
        out['error'] = f'inconclusive: {e}'
    except Exception:
        out['error'] = 'harness error: ' + traceback.format_exc()[-1500:]
    signal.setitimer(signal.ITIMER_REAL, 0)
    out['known'] = dict(engine.Ctx.known_hits)
    out['programs'] = engine.Ctx.programs
    out['stats'] = stats.as_dict()
    out['samples'] = stats.samples
    out['wall'] = round(time.time() - t0, 2)
    if not out['violations'] and not out['error'] and stats.paths == 0:
        out['error'] = 'vacuous: no feasible path reached the assertions'
    if not out['violations'] and not out['error'] and stats.proved == 0 and not out['known']:
        out['error'] = 'vacuous: no assertion was discharged'
    return out


def replay_body(pid, tier, name, inputs, known):
    """run a harness on plain values and the untouched modules"""
    from symx import engine, loader
    mod = load_check(pid)
    h = [x for x in mod.harnesses(tier) if x.name == name][0]
    M = loader.plain()
    ctx = engine.ConcreteCtx(inputs)
    ctx.known_sigs = set(known)
    with loader.quiet():
        try:
            h.run(ctx, M)
        except engine.Counterexample as c:
            return ('violated', c.label, c.detail)
        except engine.Abort:
            return ('outside', 'inputs are outside the assumptions', None)
        except Exception as e:
            if not engine.from_code(e, ctx):
                raise
            return ('violated', f'the code raises {type(e).__name__}: {e}', None)
    return ('holds', '', None)


def replay_cli(path):
    d = json.load(open(path))
    if 'batch' in d:
        res = []
        for job in d['batch']:
            try:
                res.append(replay_body(d['property'], d['tier'], job['harness'], job['inputs'], d.get('known', [])))
            except Exception:
                res.append(('error', traceback.format_exc()[-800:], None))
        print('RESULT ' + json.dumps(res, default=str))
        return 0
    try:
        r = replay_body(d['property'], d['tier'], d['harness'], d['inputs'], d.get('known', []))
    except Exception:
        print('REPLAY-ERROR ' + traceback.format_exc())
        return 3
    print(f'REPLAY {r[0]}: {r[1]}')
    if r[2]:
        print(r[2])
    print('inputs: ' + json.dumps(d['inputs']))
    return 1 if r[0] == 'violated' else 0


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    e.pop('PYTHONPATH', None)
    return e


def run_replay(f):
    """replay in the repository's own interpreter"""
    cmd = [REPO_PY, os.path.join(HERE, 'run.py'), '--replay', f]
    try:
        return subprocess.run(cmd, env=env(), capture_output=True, text=True, timeout=240)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, '', 'replay took more than 240 s')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--only', help='run only harnesses whose name contains this')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--all', action='store_true', help='go on after the first confirmed violation')
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay_cli(a.replay))
    pid, tier = a.property, a.tier
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    budget = 600 if tier == 'quick' else 3 * 3600
    known = known_findings(pid)
    mod = load_check(pid)
    hs = mod.harnesses(tier)
    idxs = [i for i, h in enumerate(hs) if not a.only or a.only in h.name]
    mpc = mp.get_context('fork')
    base = tempfile.mkdtemp(prefix='tfrun_')
    os.environ['TMPDIR'] = tempfile.tempdir = base
    atexit.register(shutil.rmtree, base, True)
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    replays = {}

    def check_replay(r, n, v):
        f = os.path.join(rdir, f"{pid}_{r['name']}_{n}.json".replace('/', '_').replace(' ', '_'))
        with open(f, 'w') as fp:
            json.dump(dict(property=pid, tier=tier, harness=r['name'], inputs=v['inputs'], label=v['label'],
                           detail=v['detail'], known=list(known),
                           how=f'{REPO_PY} /verif/run.py --replay <this file>'), fp, indent=1, default=str)
        key = json.dumps([r['name'], v['inputs'], v['label']], default=str)
        if key not in replays:
            replays[key] = run_replay(f)
        return f, replays[key]

    def explore(todo, deadline, eager):
        """results of the harnesses; the exploration ends early at a counterexample that the untouched code reproduces.
        One forked process per harness, started from this (only) thread: a process forked while another thread starts a
        program would keep that program's pipes open"""
        out, todo, live = {}, list(todo), {}
        try:
            while todo or live:
                while todo and len(live) < a.jobs:
                    i = todo.pop(0)
                    recv, send = mpc.Pipe(False)
                    p = mpc.Process(target=child, args=(send, (pid, tier, i, list(known), deadline, eager)), daemon=False)
                    p.start()
                    send.close()
                    live[recv] = (i, p)
                for recv in mpcon.wait(list(live)):
                    i, p = live.pop(recv)
                    try:
                        r = recv.recv()
                    except EOFError:
                        r = no_result((pid, tier, i), 'inconclusive: the process of this harness was ended')
                    recv.close()
                    p.join()
                    out[i] = r
                    if any(check_replay(r, n, v)[1].returncode == 1 for n, v in enumerate(r['violations'])) and not a.all:
                        return out, True
            return out, False
        finally:
            for recv, (i, p) in live.items():
                p.kill()
                p.join()

    results, stopped = explore(idxs, t0 + budget, False)
    # a counterexample that is an artefact of the proxies (the untouched code
    # does not reproduce it) or a construct the proxies do not support: decide
    # that harness again with inputs made concrete, by forking, at creation
    redo = [i for i, r in results.items()
            if (r['error'] and 'harness error' in r['error'])
            or any(check_replay(r, n, v)[1].returncode != 1 for n, v in enumerate(r['violations']))]
    if redo and not stopped:
        again, stopped = explore(redo, max(time.time() + 60, t0 + budget * 1.35), True)
        results.update({i: dict(r, fallback=True) for i, r in again.items()})
    idxs = [i for i in idxs if i in results]
    results = [results[i] for i in idxs]
    violations, errors, known_hit = [], [], {}
    tot = dict(paths=0, queries=0, forks=0, assertions_discharged=0, solver_s=0.0)
    samples, programs = [], 0
    for r in results:
        for k in tot:
            tot[k] += r['stats'][k]
        programs += r['programs']
        for s in r['samples']:
            samples.append({'harness': r['name'], 'witness': s})
        known_hit.update(r['known'])
        if r['error']:
            errors.append(f"{r['name']}: {r['error']}")
        for n, v in enumerate(r['violations']):
            f, p = check_replay(r, n, v)
            if p.returncode == 1:
                violations.append((v['label'], f, p.stdout))
            else:
                errors.append(f"{r['name']}: counterexample for '{v['label']}' ({v['inputs']}) did not reproduce on the "
                              f"untouched code: {p.stdout[-600:]} {p.stderr[-300:]}")
        if a.v:
            print(r['name'], r['wall'], 's', r['stats'], 'known' if r['known'] else '', r['error'] or '')

    # validate the encoding: re-run path witnesses on the untouched modules
    validated = 0
    batch = [dict(harness=s['harness'], inputs=list(s['witness'].values())[0]) for s in samples][:24]
    if batch and not violations:
        f = os.path.join(rdir, f'{pid}_validate.json')
        json.dump(dict(property=pid, tier=tier, batch=batch, known=list(known)), open(f, 'w'))
        p = run_replay(f)
        line = [l for l in p.stdout.splitlines() if l.startswith('RESULT ')]
        if not line:
            errors.append('validation run failed: ' + (p.stdout + p.stderr)[-600:])
        else:
            for job, res in zip(batch, json.loads(line[0][7:])):
                if res[0] == 'holds':
                    validated += 1
                elif res[0] == 'violated' and not errors:
                    # the untouched code breaks the property on inputs the solver
                    # reported as fine: encoding and code disagree
                    errors.append(f"{job['harness']}: witness {job['inputs']} fails on the untouched code: {res[1]}")
                elif res[0] == 'error':
                    errors.append(f"{job['harness']}: witness {job['inputs']} raised on the untouched code: {res[1]}")

    for sig, what in known_hit.items():
        print(f'KNOWN-FINDING: property={pid} {known[sig]["what"]}')
    cov = dict(
        functions_encoded=sorted({f for i in idxs for f in hs[i].functions}),
        bounds=[f'{hs[i].name}: {hs[i].bounds}' for i in idxs],
        outside_the_claim=sorted({hs[i].outside for i in idxs if hs[i].outside}),
        harnesses=len(idxs), symbolic_paths=tot['paths'], solver_queries=tot['queries'],
        assertions_discharged=tot['assertions_discharged'], solver_seconds=round(tot['solver_s'], 2),
        samples=[dict(harness=s['harness'], witness=list(s['witness'].values())[0]) for s in samples[:6]]
        or [dict(harness=hs[idxs[0]].name, note='no free inputs')],
    )
    if any(r.get('fallback') for r in results):
        cov['decided_with_eager_forking'] = [r['name'] for r in results if r.get('fallback')]
    level = getattr(mod, 'LEVEL', 'model_checking')
    if level == 'model_checking':
        cov.update(states=tot['paths'], transitions=tot['forks'], traces_validated_against_impl=validated)
    elif level == 'translation_validation':
        cov.update(programs=programs, disagreements_checked=tot['queries'], witnesses_replayed=validated)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(time.time() - t0, 2),
              violations=len(violations))
    with open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w') as fp:
        json.dump(ev, fp, indent=1, default=str)
    if violations:
        for label, f, outp in violations:
            print(f'  {label}')
            print('  ' + outp.strip().replace('\n', '\n  ')[:1500])
            print(f'VIOLATION property={pid} replay={f}')
        sys.exit(1)
    if errors:
        for e in errors[:6]:
            print('ERROR ' + e[:1500], file=sys.stderr)
        sys.exit(2)
    print(f'{pid} holds within bounds: {tot["paths"]} paths, {tot["queries"]} solver queries '
          f'({tot["solver_s"]:.1f} s in the solver), {validated} witnesses replayed, {time.time()-t0:.1f} s')
    sys.exit(0)


if __name__ == '__main__':
    main()

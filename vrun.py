#!/usr/bin/env python3
"""
Command line of the checks.

    python3-vt vrun.py <property> [quick|thorough]    run one check
    python3    vrun.py --replay <file>                replay a counterexample

A check explores the cases listed in checks/<property>.py symbolically
(symx/), replays every counterexample on the unmodified package in a fresh
interpreter, and reports only what reproduces.
"""

import importlib.util
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('NDSPY_REPO', '/repo')
EVID = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
REPLAY_PYTHON = '/opt/venv/bin/python'

sys.dont_write_bytecode = True
# never read or write cached bytecode of the code under test
sys.pycache_prefix = os.path.join('/nonexistent', 'pyc')


def load_plain(prop):
    """Import checks/<prop>.py against the real package."""
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    if HERE not in sys.path:
        sys.path.append(HERE)
    path = os.path.join(HERE, 'checks', prop + '.py')
    spec = importlib.util.spec_from_file_location('check_' + prop, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def run_concrete(mod, fn, args, inputs):
    """('ok'|'fail'|'unmet', message, outs)"""
    from symx import concrete
    import traceback
    e = concrete.Concrete(inputs)
    try:
        getattr(mod, fn)(e, **args)
        return 'ok', '', e.outs
    except concrete.CheckFailed as ex:
        return 'fail', str(ex), e.outs
    except concrete.Unmet as ex:
        return 'unmet', str(ex), e.outs
    except Exception as ex:
        tb = traceback.format_exc()
        return 'fail', f'{type(ex).__name__}: {ex}\n{tb}', e.outs
    finally:
        e.close()


def replay_main(path):
    sys.setrecursionlimit(3000)
    with open(path) as f:
        r = json.load(f)
    from symx import pilstub
    pilstub.install()
    mod = load_plain(r['property'])
    import ndspy
    if not os.path.realpath(ndspy.__file__).startswith(os.path.realpath(REPO) + '/'):
        print('replay: wrong package', ndspy.__file__)
        return 3
    st, msg, _ = run_concrete(mod, r['fn'], r['args'], r['inputs'])
    print(f'replay: {st} {msg}'[:4000])
    return 1 if st == 'fail' else 0


def replay(path, timeout=60):
    """True if the counterexample reproduces on the real code."""
    py = REPLAY_PYTHON if os.path.exists(REPLAY_PYTHON) else sys.executable
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    try:
        p = subprocess.run([py, '-B', os.path.abspath(__file__), '--replay', path],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, env=env, text=True, errors='replace')
    except subprocess.TimeoutExpired:
        return True, f'no termination within {timeout} s'
    if p.returncode == 1 and 'replay: fail' in p.stdout:
        return True, p.stdout.strip()
    return False, f'exit {p.returncode}: {p.stdout.strip()[-600:]}'


# ---------------------------------------------------------------------------
# one case, in a child process

def run_case(prop, case, loader, symmod, plain, tier, deadline):
    from symx import engine, terms
    import signal

    sys.setrecursionlimit(6000)
    fn = getattr(symmod, case['fn'])
    args = case.get('args', {})
    limit = case.get('validate', 12 if tier == 'quick' else 40)
    state = {'seen': 0, 'bad': []}

    def validate(ex):
        n = state['seen']
        state['seen'] += 1
        # the first paths, then ever sparser ones
        if not (n < limit // 2 or (n & (n - 1)) == 0 or
                (n % 97 == 0 and ex.stats.validated < limit)):
            return
        inputs = ex.model_inputs()

        class Late(Exception):
            pass

        def onalarm(*a):
            raise Late()
        old = signal.signal(signal.SIGALRM, onalarm)
        signal.alarm(20)
        try:
            st, msg, outs = run_concrete(plain, case['fn'], args, inputs)
        except Late:
            st, msg, outs = 'fail', 'no termination', []
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        if st == 'fail':
            ex.violations.append({'msg': 'concrete run: ' + msg[:1500], 'kind': 'validation',
                                  'tb': None, 'inputs': inputs})
            return
        if st == 'unmet':
            ex.stats.mismatch.append('assumption differs: ' + msg)
            return
        want = [(k, engine.materialize(v, ex.model)) for k, v in ex.outs]
        if not same(want, outs):
            for (a, b), (c, d) in zip(want, outs):
                if not same(b, d):
                    ex.stats.mismatch.append(f'{a}: symbolic {b!r:.300} concrete {d!r:.300}')
                    break
            else:
                ex.stats.mismatch.append('observations differ')
            return
        ex.stats.validated += 1
        if len(state.setdefault('samples', [])) < 2:
            state['samples'].append(inputs)

    ex = engine.Explorer(
        loader, deadline=deadline, validate=validate,
        timeout_ms=case.get('timeout_ms', 10000 if tier == 'quick' else 60000),
        max_paths=case.get('max_paths', 1000000),
        tick_limit=case.get('ticks', 400000),
        max_values=case.get('max_values', 400),
        want_cvc5=(tier == 'thorough'))
    t0 = time.time()
    ex.run(lambda e: fn(e, **args))
    st = ex.stats
    return {
        'name': case['name'], 'paths': st.paths, 'infeasible': st.infeasible,
        'decisions': st.decisions, 'checked': st.checked,
        'by_rewriting': st.by_rewriting, 'by_solver': st.by_solver,
        'queries': st.queries, 'sat': st.sat, 'unsat': st.unsat, 'unknown': st.unknown,
        'solver_s': round(st.solver_s, 3), 'wall_s': round(time.time() - t0, 3),
        'complete': st.complete and not ex.violations,
        'inconclusive': sorted(set(st.inconclusive))[:5],
        'mismatch': st.mismatch[:3], 'validated': st.validated,
        'notes': st.notes, 'violations': ex.violations,
        'entered': sorted(loader.helpers.entered),
        'samples': state.get('samples', []),
        'cvc5': ex.cvc5_diff,
        'concretised_at': dict(sorted(ex.concs.items(), key=lambda kv: -kv[1])[:6]),
    }


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return same(list(a.items()), list(b.items()))
    if isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray)):
        return bytes(a) == bytes(b)
    return a == b


def child(wfd, *a):
    import resource
    import traceback
    try:
        lim = 3 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        res = run_case(*a)
    except MemoryError:
        res = {'name': a[1]['name'], 'error': 'out of memory'}
    except BaseException:
        res = {'name': a[1]['name'], 'error': traceback.format_exc()[-2000:]}
    data = json.dumps(res, default=repr).encode()
    with os.fdopen(wfd, 'wb') as f:
        f.write(data)


def run_pool(prop, cases, loader, symmod, plain, tier, end, percase, jobs, seen):
    import select
    results = {}
    queue = list(enumerate(cases))
    running = {}
    while queue or running:
        now = time.time()
        while queue and len(running) < jobs and now < end:
            i, case = queue.pop(0)
            r, w = os.pipe()
            dl = min(end, now + case.get('budget', percase))
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    child(w, prop, case, loader, symmod, plain, tier, dl)
                finally:
                    os._exit(0)
            os.close(w)
            running[r] = [i, pid, b'', dl + 30]
        if queue and not running:
            break
        rd, _, _ = select.select(list(running), [], [], 1.0)
        now = time.time()
        for r in list(running):
            if r in rd:
                chunk = os.read(r, 1 << 16)
                if chunk:
                    running[r][2] += chunk
                    continue
                i, pid, buf, _ = running.pop(r)
                os.close(r)
                os.waitpid(pid, 0)
                try:
                    results[i] = json.loads(buf)
                except ValueError:
                    results[i] = {'name': cases[i]['name'], 'error': 'worker died'}
                if seen(cases[i], results[i]):
                    end = min(end, now + 20)
                    for x in running.values():
                        x[3] = min(x[3], end)
            elif now > running[r][3]:
                i, pid, buf, _ = running.pop(r)
                os.kill(pid, 9)
                os.waitpid(pid, 0)
                os.close(r)
                results[i] = {'name': cases[i]['name'], 'error': 'worker overran its budget'}
    for i, case in queue:
        results[i] = {'name': case['name'], 'error': 'not started within the budget'}
    return [results[i] for i in sorted(results)]


def known_findings(prop):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        d = json.load(f)
    return {k['case']: k for k in d['findings'] if k['property'] == prop}


def not_loaded(prop, tier, seed, t0):
    """The package cannot be imported here: say so, decide nothing."""
    import traceback
    error = traceback.format_exc()
    print('INCONCLUSIVE: the package could not be imported:\n' + error[-1500:])
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
                   'coverage': {'explanation': 'Nothing was explored: the package could not be imported.',
                                'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0,
                                'samples': [], 'exhaustive': False, 'internal_error': error},
                   'assumptions': [], 'wall_s': round(time.time() - t0, 2), 'violations': 0}, f, indent=1)
    return 0


def main(argv):
    if argv and argv[0] == '--replay':
        return replay_main(argv[1])
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    only = argv[2] if len(argv) > 2 else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    sys.setrecursionlimit(6000)
    sys.path.insert(0, HERE)
    from symx import pilstub
    pilstub.install()
    try:
        plain = load_plain(prop)
    except Exception:
        return not_loaded(prop, tier, seed, t0)
    total = getattr(plain, 'BUDGET', {}).get(tier, 300 if tier == 'quick' else 1500)
    cases = list(plain.cases(tier))
    if only:
        cases = [c for c in cases if only in c['name']]
    known = known_findings(prop)

    violations = []
    kf = []
    unrepro = []

    def seen(case, res):
        """Replay what a case found; True once a violation is confirmed."""
        for v in res.get('violations', []):
            if len(violations) >= 3 and case['name'] not in known:
                break
            n = len(violations) + len(kf) + len(unrepro) + 1
            path = os.path.join(EVID, f'replay-{prop}-{n}.json')
            with open(path, 'w') as f:
                json.dump({'property': prop, 'case': case['name'], 'fn': case['fn'],
                           'args': case.get('args', {}), 'inputs': v['inputs'],
                           'message': v['msg'], 'kind': v['kind']}, f, indent=1)
            ok, text = replay(path, timeout=case.get('replay_timeout', 60))
            if not ok:
                unrepro.append({'case': case['name'], 'msg': v['msg'][:400],
                                'replay': text[-400:], 'tb': (v.get('tb') or '')[-1500:],
                                'inputs': v['inputs']})
            elif case['name'] in known:
                kf.append((case['name'], known[case['name']], text))
                break
            else:
                violations.append((path, case['name'], v['msg'], text))
        return bool(violations)

    error = None
    results = []
    try:
        from symx import loader as ldr
        loader = ldr.Loader(REPO)
        symmod = loader.load_file('check_' + prop, os.path.join(HERE, 'checks', prop + '.py'))
        loader.helpers.entered.clear()
        end = t0 + total
        results = run_pool(prop, cases, loader, symmod, plain, tier, end,
                           getattr(plain, 'CASE_BUDGET', {}).get(tier, total * 0.5),
                           int(os.environ.get('VERIF_JOBS', '8')), seen)
    except Exception:
        import traceback
        error = traceback.format_exc()
        print('INCONCLUSIVE: the sources could not be encoded:\n' + error[-1500:])

    tot = {k: sum(r.get(k, 0) for r in results) for k in
           ('paths', 'infeasible', 'decisions', 'checked', 'by_rewriting', 'by_solver',
            'queries', 'sat', 'unsat', 'unknown', 'solver_s', 'validated')}
    entered = sorted({x for r in results for x in r.get('entered', [])
                      if x.startswith('ndspy')})
    samples = [s for r in results for s in r.get('samples', [])][:4]
    if error:
        done = {r['name'] for r in results}
        results += [{'name': c['name'], 'error': 'not run: the sources could not be encoded'}
                    for c in cases if c['name'] not in done]
    incomplete = [r['name'] for r in results if r.get('error') or not r.get('complete')]
    vac = [r['name'] for c, r in zip(cases, results)
           if not r.get('error') and r.get('complete') and r.get('checked', 0) == 0]
    mism = [(r['name'], m) for r in results for m in r.get('mismatch', [])]
    wall = time.time() - t0
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'explanation': 'Bounded symbolic execution of the package source with z3. '
                           'states: nodes of the explored execution trees (decision points and '
                           'finished paths); transitions: feasible branch outcomes taken or '
                           'refuted by the solver.',
            'states': tot['decisions'] + tot['paths'],
            'transitions': tot['queries'] + tot['decisions'],
            'traces_validated_against_impl': tot['validated'],
            'samples': samples,
            'exhaustive': bool(results) and not incomplete and not error,
            'cases': len(cases), 'cases_fully_explored': len(results) - len(incomplete),
            'paths': tot['paths'], 'paths_outside_assumptions': tot['infeasible'],
            'assertions_checked': tot['checked'],
            'assertions_decided_by_term_rewriting': tot['by_rewriting'],
            'assertions_decided_by_solver': tot['by_solver'],
            'solver_queries': tot['queries'], 'solver_sat': tot['sat'],
            'solver_unsat': tot['unsat'], 'solver_unknown': tot['unknown'],
            'solver_s': round(tot['solver_s'], 2),
            'second_solver': {'name': 'cvc5',
                              'compared': sum(r.get('cvc5', {}).get('compared', 0) for r in results),
                              'different': sum(r.get('cvc5', {}).get('different', 0) for r in results)},
            'functions_encoded': entered,
            'bounds': [f"{c['name']}: {c.get('bounds', '')}" for c in cases],
            'incomplete_cases': incomplete,
            'vacuous_cases': vac,
            'encoding_mismatches': mism[:10],
            'unreproduced': [{k: x[k] for k in ('case', 'msg', 'replay')} for x in unrepro][:10],
            'internal_error': error,
            'per_case': [{k: r.get(k) for k in ('name', 'paths', 'queries', 'solver_s', 'wall_s',
                                                'complete', 'inconclusive', 'error', 'notes',
                                                'validated', 'checked', 'concretised_at')}
                         for r in results],
        },
        'assumptions': list(getattr(plain, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    print(f'{prop} {tier}: {len(cases)} cases ({len(incomplete)} incomplete), {tot["paths"]} paths, '
          f'{tot["checked"]} assertions ({tot["by_solver"]} by solver), {tot["queries"]} queries '
          f'({tot["solver_s"]:.1f} s), {tot["validated"]} paths validated, {wall:.1f} s')
    if os.environ.get('VERBOSE'):
        for r in results:
            print('  ', r['name'], {k: r.get(k) for k in ('paths', 'infeasible', 'queries', 'solver_s', 'wall_s', 'complete',
                  'checked', 'by_solver', 'inconclusive', 'error', 'notes', 'validated', 'mismatch', 'concretised_at')})
    for nm in incomplete:
        r = next(r for r in results if r['name'] == nm)
        print(f'INCOMPLETE: {nm} {r.get("error") or r.get("inconclusive") or "budget"}'[:300])
    for nm in vac:
        print(f'VACUOUS: {nm}')
    for nm, m in mism[:5]:
        print(f'ENCODING-MISMATCH: {nm}: {m}'[:700])
    for u in unrepro[:4]:
        print(f'NOT-REPRODUCED: {u["case"]}: {u["msg"]} [{u["replay"]}]'[:1200])
        if os.environ.get('VERBOSE'):
            print(u['tb'], json.dumps(u['inputs'])[:800])
    for name, k, text in kf:
        print(f'KNOWN-FINDING: property={prop} {k["what"]}')
    for path, name, msg, text in violations:
        print(f'case {name}: {msg}\n  {text[:1200]}')
        print(f'VIOLATION property={prop} replay={path}')
    return 1 if violations else 0


if __name__ == '__main__':
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc) if rc in (0, 1) else sys.exit(rc)

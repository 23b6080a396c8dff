"""run one property's check: python -m harness.run C01 [--replay file] [--sub name]"""
import importlib
import json
import os
import pickle
import sys
import time

from . import core

VERIF = os.path.realpath(os.path.join(os.path.dirname(__file__), '..'))
EVID = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.json')
JOBS = 8


def load(prop):
    return importlib.import_module('harness.props.' + prop.lower())


def run_parallel(tasks, fn, budget):
    """fork a process per task (each starts from the same pristine import state), at most JOBS at a time"""
    pending = list(enumerate(tasks))
    running = {}
    results = [None] * len(tasks)
    sd = os.environ.get('VERIF_SCRATCH') or '/tmp'
    t_end = time.time() + budget
    while pending or running:
        while pending and len(running) < JOBS:
            i, t = pending.pop(0)
            path = os.path.join(sd, 'res%d.pkl' % i)
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                rc = 3
                try:
                    os.setpgid(0, 0)
                    wd = os.path.join(sd, 'wd%d' % i)
                    os.makedirs(wd, exist_ok=True)
                    os.chdir(wd)
                    r = fn(t)
                    with open(path, 'wb') as f:
                        pickle.dump(r, f)
                    rc = 0
                except BaseException as e:
                    import traceback
                    traceback.print_exc()
                finally:
                    os._exit(rc)
            running[pid] = (i, path)
        try:
            pid, status = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            pid = 0
        if pid in running:
            i, path = running.pop(pid)
            if os.path.exists(path):
                with open(path, 'rb') as f:
                    results[i] = pickle.load(f)
            else:
                results[i] = {'crash': 'worker ended with status %d' % status}
        else:
            time.sleep(0.01)
        if time.time() > t_end:
            import signal
            for pid in running:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
                i, _ = running[pid]
                results[i] = {'crash': 'time budget exceeded'}
            for i, _ in pending:
                results[i] = {'crash': 'time budget exceeded'}
            for pid in list(running):
                try:
                    os.waitpid(pid, 0)
                except OSError:
                    pass
            break
    return results


def known_for(prop):
    if not os.path.exists(KNOWN):
        return []
    return [k for k in json.load(open(KNOWN))['findings'] if k['property'] == prop]


def main():
    argv = sys.argv[1:]
    prop = argv[0]
    replay = argv[argv.index('--replay') + 1] if '--replay' in argv else None
    only = argv[argv.index('--sub') + 1] if '--sub' in argv else None
    t0 = time.time()
    mod = load(prop)
    subs = {s.name: s for s in mod.SUBS}

    if replay:
        d = json.load(open(replay))
        sub = subs[d['sub']]
        outcome, msg, ctx = core.run_case(sub, d['case'])
        print(outcome, msg)
        if outcome == 'violation':
            print('VIOLATION property=%s replay=%s' % (prop, replay))
            return 1
        return 0 if outcome in ('ok', 'skip') else 2

    # listed findings: confirm whether each still fails, on its own specific input
    def probe(k):
        outcome, msg, ctx = core.run_case(subs[k['sub']], k['case'])
        return {'outcome': outcome, 'msg': msg}

    known = known_for(prop)
    tasks = [('known', k) for k in known]
    names = [only] if only else list(subs)
    for n in names:
        s = subs[n]
        sh = s.shards if not core.THOROUGH else max(s.shards, 4)
        for i in range(sh):
            tasks.append(('sub', n, i, sh))
    # slow ones first
    tasks.sort(key=lambda t: 0 if t[0] == 'known' or subs[t[1]].slow else 1)
    soft = 600 if core.THOROUGH else float(os.environ.get('VERIF_SOFT', '45'))
    if core.THOROUGH:
        soft = float(os.environ.get('VERIF_SOFT', '3600'))

    def fn(t):
        if t[0] == 'known':
            return probe(t[1])
        return core.run_sub(subs[t[1]], prop, t[2], t[3], soft_cap=soft)

    res = run_parallel(tasks, fn, budget=(800 if not core.THOROUGH else 40000))

    rc = 0
    violations = []
    errors = []
    per = {}
    for t, r in zip(tasks, res):
        if r is None or 'crash' in r:
            errors.append('%s: %s' % (t[:3], r and r['crash']))
            continue
        if t[0] == 'known':
            k = t[1]
            if r['outcome'] == 'violation':
                print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
            elif r['outcome'] == 'harness':
                errors.append('known finding probe %s: %s' % (k['what'], r['msg']))
            continue
        p = per.setdefault(r['sub'], {'evaluations': 0, 'skips': 0, 'hashes': set(), 'labels': {}, 'samples': [],
                                      'wall_s': 0., 'capped': False})
        p['evaluations'] += r['evaluations']
        p['skips'] += r['skips']
        p['hashes'] |= set(r['hashes'])
        p['samples'] += r['samples']
        p['wall_s'] = max(p['wall_s'], r['wall_s'])
        p['capped'] |= r['capped']
        for k, v in r['labels'].items():
            p['labels'][k] = p['labels'].get(k, 0) + v
        if r['failure']:
            violations.append((r['sub'], r['failure'][0], r['failure'][1]))
        if r['harness']:
            errors.append('%s: %s case=%s' % (r['sub'], r['harness'][1], core.short(core.jdump(r['harness'][0]), 1500)))

    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    seen = set()
    for sub, case, msg in violations:
        rc = 1
        if sub in seen:
            continue
        seen.add(sub)
        path = os.path.join(EVID, 'replay', '%s-%s.json' % (prop, sub))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'sub': sub, 'case': case, 'message': msg}, f, indent=1)
        print('[%s/%s] %s' % (prop, sub, msg[:1500]))
        print('  minimal case: %s' % core.short(core.jdump(case), 1500))
        print('VIOLATION property=%s replay=%s' % (prop, path))

    samples = []
    for n, p in per.items():
        for s in p['samples'][:2]:
            samples.append({'sub': n, 'case': s})
    while len(json.dumps(samples)) > 40000:
        samples = samples[:-1]
    ev = {
        'property': prop, 'tier': 'thorough' if core.THOROUGH else 'quick', 'seed': core.SEED, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(p['evaluations'] for p in per.values()),
            'distinct_nontrivial': sum(len(p['hashes']) for p in per.values()),
            'rule': mod.RULE,
            'samples': samples,
            'per_sub': {n: {'evaluations': p['evaluations'], 'outside_domain': p['skips'],
                            'distinct_nontrivial': len(p['hashes']), 'rule': subs[n].rule, 'labels': p['labels'],
                            'wall_s': p['wall_s'], 'stopped_by_time_cap': p['capped']} for n, p in per.items()},
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(seen),
    }
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for n, p in per.items():
        print('%s/%s: %d cases, %d distinct non-trivial, %.1f s%s %s' % (
            prop, n, p['evaluations'], len(p['hashes']), p['wall_s'], ' (time cap)' if p['capped'] else '',
            json.dumps(p['labels']) if p['labels'] else ''))
    print('%s: %.1f s' % (prop, time.time() - t0))
    if errors:
        for e in errors:
            print('ERROR', e[:3000])
        if rc == 0:
            rc = 2
    return rc


if __name__ == '__main__':
    sys.exit(main())

#!/usr/bin/env python3
"""Entry point of every check: run_check.py <property id> [--replay FILE]

Shards the cases of one property over worker processes that run the real code
of /repo under the monitors, collects what they observed, writes the evidence
file and decides.  Exit 0: held on everything explored.  Exit 1: a line
"VIOLATION property=<id> replay=<path>".  Exit 2: the check itself failed.
"""
import json, os, subprocess, sys, tempfile, time, shutil, signal

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
if not os.path.exists(PY):
    PY = sys.executable


def worker_env(scratch):
    env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    env['PYTHONPATH'] = ':'.join([REPO, REPO + '/lib/python-bitcoinlib',
                                  REPO + '/lib/python-proofmarshal', VERIF])
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONPYCACHEPREFIX'] = scratch + '/no-pycache'
    env['PYTHONHASHSEED'] = '0'
    env['LC_ALL'] = 'C.UTF-8'
    env['VERIF_REPO'] = REPO
    env['VERIF_DIR'] = VERIF
    env['VERIF_SCRATCH'] = scratch
    env['HOME'] = scratch
    env['TMPDIR'] = scratch
    return env


def load_known(prop):
    out = []
    path = os.path.join(VERIF, 'KNOWN_FINDINGS')
    if os.path.exists(path):
        with open(path) as fd:
            for line in fd:
                line = line.strip()
                if line.startswith('known: '):
                    rest = line[len('known: '):]
                    fields = rest.split(None, 2)
                    # known: property=<id> key=<key> <text>
                    if fields[0] == 'property=' + prop:
                        out.append((fields[1].split('=', 1)[1], fields[2]))
    return out


def main():
    if len(sys.argv) < 2:
        print('usage: run_check.py ID [--replay FILE]', file=sys.stderr)
        return 2
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if '--thorough' in sys.argv:
        tier = 'thorough'
    if '--quick' in sys.argv:
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    replay = None
    if '--replay' in sys.argv:
        with open(sys.argv[sys.argv.index('--replay') + 1]) as fd:
            replay = json.load(fd)
        seed, tier = replay['seed'], replay['tier']

    nworkers = int(os.environ.get('VERIF_WORKERS', '8'))
    cap = float(os.environ.get('VERIF_CAP', '240' if tier == 'quick' else '780'))
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    os.chmod(scratch, 0o755)
    t0 = time.time()
    try:
        return run(prop, tier, seed, replay, nworkers, cap, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(prop, tier, seed, replay, nworkers, cap, scratch, t0):
    procs = []
    env = worker_env(scratch)
    if replay is not None:
        nworkers = 1
    for w in range(nworkers):
        wdir = os.path.join(scratch, 'w%d' % w)
        os.mkdir(wdir)
        job = dict(prop=prop, tier=tier, seed=seed, worker=w, nworkers=nworkers,
                   deadline=t0 + cap, out=os.path.join(wdir, 'out.json'),
                   status=os.path.join(wdir, 'status'), scratch=wdir, replay=replay)
        jobfile = os.path.join(wdir, 'job.json')
        with open(jobfile, 'w') as fd:
            json.dump(job, fd)
        e = dict(env, VERIF_SCRATCH=wdir, HOME=wdir, TMPDIR=wdir)
        p = subprocess.Popen([PY, '-B', '-m', 'harness.worker', jobfile], cwd=wdir, env=e,
                             stdin=subprocess.DEVNULL,
                             stdout=open(os.path.join(wdir, 'stdout'), 'wb'),
                             stderr=open(os.path.join(wdir, 'stderr'), 'wb'),
                             start_new_session=True)
        procs.append((w, wdir, job, p))

    outs, violations, errors = [], [], []
    hard = t0 + cap + 90
    for w, wdir, job, p in procs:
        timed_out = False
        try:
            p.wait(max(1, hard - time.time()))
        except subprocess.TimeoutExpired:
            timed_out = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        rc = p.wait()
        try:
            with open(job['out']) as fd:
                outs.append(json.load(fd))
                continue
        except (OSError, ValueError):
            pass
        with open(os.path.join(wdir, 'stderr'), errors='replace') as fd:
            err = fd.read()[-3000:]
        case = None
        try:
            with open(job['status']) as fd:
                case = json.loads(fd.read().strip().rstrip('\0') or 'null')
        except (OSError, ValueError):
            pass
        if timed_out or rc in (-signal.SIGKILL,):
            # No result in time, or killed from outside (e.g. out of memory):
            # if the running case was inside the code under test this is a hang
            # the in-process watchdog could not interrupt.
            if timed_out and case:
                violations.append(dict(suite=case[0], i=case[1], worker=w, nworkers=nworkers,
                                       msg='no answer: the code under test did not return (hard time limit)', detail=err))
            else:
                errors.append('worker %d killed (rc %s) at case %s: %s' % (w, rc, case, err))
        elif rc < 0 and case:
            violations.append(dict(suite=case[0], i=case[1], worker=w, nworkers=nworkers,
                                   msg='process died with signal %d' % -rc, detail=err))
        else:
            errors.append('worker %d exited %s without a result at case %s: %s' % (w, rc, case, err))

    ev = dict(evaluations=0, events={}, distinct={}, suites={}, samples=[], lines={}, notes={})
    distinct = {}
    known_seen = {}
    for o in outs:
        ev['evaluations'] += o['evaluations']
        for k, v in o['events'].items():
            ev['events'][k] = ev['events'].get(k, 0) + v
        for k, v in o['distinct'].items():
            distinct.setdefault(k, set()).update(v)
        for k, v in o['suites'].items():
            d = ev['suites'].setdefault(k, dict(cases=0, wall_s=0.0))
            d['cases'] += v['cases']
            d['wall_s'] = round(d['wall_s'] + v['wall_s'], 2)
        for x in o['samples']:
            if len(ev['samples']) < 12 and x.split(':')[0] not in [y.split(':')[0] for y in ev['samples'][-1:]]:
                ev['samples'].append(x)
        for f, ls in o['lines'].items():
            ev['lines'].setdefault(f, set()).update(ls)
        for k, n in o['known'].items():
            known_seen[k] = known_seen.get(k, 0) + n
        for k, v in o.get('notes', {}).items():
            ev['notes'][k] = v
        violations.extend(o['violations'])
        errors.extend(o['errors'])
    rule = next((o['rule'] for o in outs if o.get('rule')), '')
    level = next((o['level'] for o in outs if o.get('level')), 'exploration')
    assumptions = next((o['assumptions'] for o in outs if o.get('assumptions')), [])
    planned = next((o['planned'] for o in outs), {})
    ev['distinct'] = {k: len(v) for k, v in distinct.items()}
    nontrivial = sum(ev['distinct'].values())

    known = load_known(prop)
    known_keys = {k for k, _ in known}
    for k, n in sorted(known_seen.items()):
        if k not in known_keys:
            violations.append(dict(suite='-', i=-1, worker=0, nworkers=nworkers,
                                   msg='finding %r is not listed in KNOWN_FINDINGS' % k, detail=''))

    if replay is None:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        evidence = dict(
            property=prop, tier=tier, seed=seed, level=level,
            coverage=dict(
                evaluations=ev['evaluations'], distinct_nontrivial=nontrivial, rule=rule,
                samples=ev['samples'] or ['(none)'],
                monitor_events=ev['events'], distinct_by_kind=ev['distinct'],
                suites=ev['suites'], planned_cases=planned,
                complete=all(ev['suites'].get(s, {}).get('cases', 0) >= n for s, n in planned.items()),
                repo_lines_executed={f: len(v) for f, v in sorted(ev['lines'].items())},
                known_findings_observed=known_seen, notes=ev['notes']),
            assumptions=assumptions, wall_s=round(time.time() - t0, 2),
            violations=len(violations))
        tmp = os.path.join(VERIF, 'evidence', '.%s.tmp' % prop)
        with open(tmp, 'w') as fd:
            json.dump(evidence, fd, indent=1, default=str)
            fd.write('\n')
        os.replace(tmp, os.path.join(VERIF, 'evidence', prop + '.json'))

    print('%s tier=%s seed=%d: %d cases, %d monitored events, %d distinct non-trivial, %.1fs' %
          (prop, tier, seed, ev['evaluations'], sum(ev['events'].values()), nontrivial, time.time() - t0))
    for k, text in known:
        print('KNOWN-FINDING: property=%s %s (observed %d times)' % (prop, text, known_seen.get(k, 0)))

    if violations:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        seen = set()
        n = 0
        for v in violations:
            key = (v['suite'], v['msg'][:60])
            if key in seen:
                continue
            seen.add(key)
            path = os.path.join(VERIF, 'replays', '%s-%d.json' % (prop, n))
            if replay is None:
                with open(path, 'w') as fd:
                    json.dump(dict(property=prop, tier=tier, seed=seed, suite=v['suite'], i=v['i'],
                                   worker=v['worker'], nworkers=v['nworkers'],
                                   msg=v['msg'], detail=v['detail']), fd, indent=1)
            else:
                path = sys.argv[sys.argv.index('--replay') + 1]
            print('  suite=%s case=%s: %s' % (v['suite'], v['i'], v['msg'][:600]))
            if v['detail']:
                print('    ' + str(v['detail'])[-1500:].replace('\n', '\n    '))
            print('VIOLATION property=%s replay=%s' % (prop, path))
            n += 1
            if n >= 5:
                break
        return 1
    if errors:
        for e in errors[:5]:
            print('CHECK-ERROR: ' + e, file=sys.stderr)
        return 2
    if not outs or ev['evaluations'] == 0:
        print('CHECK-ERROR: nothing was evaluated', file=sys.stderr)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
